// Reference model of an XML tree, independent of the library, and its comparison with the library's tree.
#pragma once
#include "mc.h"
#include "gearxml/tinyxml.h"
#include <memory>
#include <string>
#include <vector>
#include <utility>
namespace xm {
enum Kind { ELEM, TEXT, COMM, UNKN, DECL };
struct M { Kind k; std::string v; std::vector<std::pair<std::string, std::string>> at; std::vector<M> ch; };
inline std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }
inline void canon(const M& m, std::string& o) { static const char* n[] = {"E", "T", "C", "U", "D"}; o += n[m.k]; o += "[" + show(m.v); for (auto& a : m.at) o += " " + a.first + "={" + show(a.second) + "}"; for (auto& c : m.ch) canon(c, o); o += "]"; }
inline std::string canon(const std::vector<M>& v) { std::string o; for (auto& m : v) canon(m, o); return o; }
// the library's tree, read through its navigation functions
inline std::vector<M> read(const gear::TiXmlNode* p, std::string& err);
inline M readNode(const gear::TiXmlNode* n, std::string& err) {
  M m; m.v = n->Value();
  if (const gear::TiXmlElement* e = n->ToElement()) { m.k = ELEM; const gear::TiXmlAttribute* back = 0;
    for (const gear::TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) { m.at.push_back({a->Name(), a->Value()}); if (a->Previous() != back) err = "attribute back link"; back = a; const char* v = e->Attribute(a->Name()); if (!v || std::string(v) != a->Value()) err = "attribute by name"; }
    if (e->LastAttribute() != back) err = "last attribute"; m.ch = read(n, err); }
  else if (n->ToText()) m.k = TEXT; else if (n->ToComment()) m.k = COMM; else if (n->ToUnknown()) m.k = UNKN;
  else if (const gear::TiXmlDeclaration* d = n->ToDeclaration()) { m.k = DECL; m.v = std::string(d->Version()) + "|" + d->Encoding() + "|" + d->Standalone(); }
  else { m.k = UNKN; err = "node of no kind"; }
  return m;
}
inline std::vector<M> read(const gear::TiXmlNode* p, std::string& err) {
  std::vector<M> v; const gear::TiXmlNode* back = 0;
  for (const gear::TiXmlNode* n = p->FirstChild(); n; n = n->NextSibling()) { if (n->PreviousSibling() != back) err = "sibling back link"; if (n->Parent() != p) err = "parent link"; back = n; v.push_back(readNode(n, err)); }
  if (p->LastChild() != back) err = "last child"; if (p->NoChildren() != v.empty()) err = "NoChildren";
  return v;
}
inline std::string readDoc(const gear::TiXmlNode& d, std::string& err) { return canon(read(&d, err)); }
// build the library's tree from the model
inline gear::TiXmlNode* make(const M& m) {
  switch (m.k) {
    case ELEM: { gear::TiXmlElement* e = new gear::TiXmlElement(m.v); for (auto& a : m.at) e->SetAttribute(a.first, a.second); for (auto& c : m.ch) e->LinkEndChild(make(c)); return e; }
    case TEXT: return new gear::TiXmlText(m.v);
    case COMM: { gear::TiXmlComment* c = new gear::TiXmlComment(); c->SetValue(m.v); return c; }
    case UNKN: { gear::TiXmlUnknown* c = new gear::TiXmlUnknown(); c->SetValue(m.v); return c; }
    default: { size_t a = m.v.find('|'), b = m.v.rfind('|'); return new gear::TiXmlDeclaration(m.v.substr(0, a), m.v.substr(a + 1, b - a - 1), m.v.substr(b + 1)); }
  }
}
// what the reader documents to do with character data: runs of white space condensed to one blank, none at the ends, blank text dropped.
// Control characters are written as character references and are kept as they are.
inline bool white(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline std::string condense(const std::string& s) { std::string o; bool gap = false; for (char c : s) { if (c == ' ') { gap = true; continue; } if (gap && !o.empty()) o += ' '; gap = false; o += c; } for (char c : o) if (!white(c)) return o; return ""; }
inline std::vector<M> asRead(const std::vector<M>& v) { std::vector<M> o; for (M m : v) { if (m.k == TEXT) { m.v = condense(m.v); if (m.v.empty()) continue; } if (m.k == ELEM) m.ch = asRead(m.ch); o.push_back(m); } return o; }
}
