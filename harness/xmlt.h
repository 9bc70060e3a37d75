// A small independent XML reader/printer for making damaged variants of description files.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <cstring>
namespace xt {
struct N { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<std::shared_ptr<N>> ch; };   // name "" = raw text/comment in `text`; attribute values kept in escaped form
typedef std::shared_ptr<N> P;
inline P parse(const std::string& s) {     // input is well formed
  P root(new N); root->name = "#doc"; std::vector<P> st{root}; size_t i = 0;
  auto raw = [&](const std::string& t) { if (t.find_first_not_of(" \n\t\r") == std::string::npos) return; P n(new N); n->text = t; st.back()->ch.push_back(n); };
  while (i < s.size()) {
    if (s[i] != '<') { size_t e = s.find('<', i); if (e == std::string::npos) e = s.size(); raw(s.substr(i, e - i)); i = e; continue; }
    if (s.compare(i, 4, "<!--") == 0) { size_t e = s.find("-->", i) + 3; raw(s.substr(i, e - i)); i = e; continue; }
    if (s[i + 1] == '?' || s[i + 1] == '!') { size_t e = s.find('>', i) + 1; raw(s.substr(i, e - i)); i = e; continue; }
    if (s[i + 1] == '/') { i = s.find('>', i) + 1; st.pop_back(); continue; }
    P n(new N); size_t j = i + 1; while (!strchr(" \n\t/>", s[j])) ++j; n->name = s.substr(i + 1, j - i - 1); st.back()->ch.push_back(n);
    for (;;) { while (strchr(" \n\t\r", s[j])) ++j; if (s[j] == '/') { i = j + 2; break; } if (s[j] == '>') { i = j + 1; st.push_back(n); break; }
      size_t k = j; while (s[k] != '=' && s[k] != ' ') ++k; std::string nm = s.substr(j, k - j); while (s[k] != '"' && s[k] != '\'') ++k; size_t e = s.find(s[k], k + 1); n->at.push_back({nm, s.substr(k, e + 1 - k)}); j = e + 1; }
  }
  return root;
}
inline void print(const N& n, std::string& o) {
  if (n.name.empty()) { o += n.text; return; }
  if (n.name != "#doc") { o += "<" + n.name; for (auto& a : n.at) o += " " + a.first + "=" + a.second; if (n.ch.empty()) { o += "/>\n"; return; } o += ">"; }
  for (auto& c : n.ch) print(*c, o);
  if (n.name != "#doc") o += "</" + n.name + ">\n";
}
inline std::string print(const P& n) { std::string o; print(*n, o); return o; }
// all nodes with their parent and index, in document order
struct Ref { N* parent; size_t idx; N* node; };
inline void walk(N* n, std::vector<Ref>& r) { for (size_t i = 0; i < n->ch.size(); ++i) { r.push_back({n, i, n->ch[i].get()}); walk(n->ch[i].get(), r); } }
inline P copy(const N& n) { P c(new N(n)); for (auto& k : c->ch) k = copy(*k); return c; }
}
