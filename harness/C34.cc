// C34: an XML tree is exactly what the sequence of edits made it.
#include "rt.h"
#include "xmodel.h"
#include <set>
using namespace gear; using namespace mc; using std::vector; using std::string; using xm::M;
const char* const mc::PROPERTY = "C34"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = one XML tree; every history of edits is a trace of the reference model (ordered trees of values) replayed on the real tree; after the last edit the real tree is compared through every navigation function (children forward and backward, by name, elements only, handles by index, parents, attributes forward, backward and by name), saved and read back; source objects of copies must be unchanged";
const char* const mc::BOUNDS = "every sequence of up to 2 edits (thorough: every third edit from every state so reached) from 4 starting trees (up to 7 nodes) over: insert end/before/after each node of 4 kinds of content, replace, remove, clear, set and remove attributes (2 names, 2 values), change the value, copy a subtree to the end of any element, assign one element to another, copy construct and assign the document; refused edits (child of another parent) included";
namespace {
struct Path { vector<int> p; };
struct World { std::unique_ptr<TiXmlDocument> d; vector<M> m; };
void paths(const vector<M>& v, vector<int>& cur, vector<Path>& out) { for (size_t i = 0; i < v.size(); ++i) { cur.push_back(i); out.push_back({cur}); paths(v[i].ch, cur, out); cur.pop_back(); } }
vector<Path> all(const vector<M>& v) { vector<int> c; vector<Path> o; paths(v, c, o); return o; }
TiXmlNode* node(TiXmlDocument& d, const vector<int>& p) { TiXmlNode* n = &d; for (int i : p) { n = n->FirstChild(); while (i--) n = n->NextSibling(); } return n; }
M* mod(vector<M>& v, const vector<int>& p) { M* r = 0; vector<M>* l = &v; for (int i : p) { r = &(*l)[i]; l = &r->ch; } return r; }
vector<M>& list(vector<M>& v, vector<int> p) { if (p.empty()) return v; return mod(v, p)->ch; }
M elem(const string& n) { return M{xm::ELEM, n, {}, {}}; }
M content(int k) { M e; switch (k) { case 0: return elem("a"); case 1: return M{xm::TEXT, "new text", {}, {}}; case 2: return M{xm::COMM, "note", {}, {}}; default: e = elem("b"); e.at = {{"a", "9"}, {"b", "8"}}; e.ch = {elem("a"), M{xm::TEXT, "t", {}, {}}}; return e; } }
vector<M> start(int k) { M r = elem("gear"), a = elem("a"), b = elem("b"), x = elem("x"); M t{xm::TEXT, "some", {}, {}}, c{xm::COMM, "c", {}, {}};
  switch (k) { case 0: return {r}; case 1: r.ch = {a}; return {r}; case 2: a.at = {{"a", "1"}, {"b", "2"}, {"name", "n"}}; r.ch = {a, t, b, c}; return {r}; default: b.at = {{"b", "1"}}; b.ch = {x, a}; a.ch = {t}; r.at = {{"name", "n"}}; r.ch = {a, b}; return {M{xm::DECL, "1.0|UTF-8|", {}, {}}, r}; } }
struct Op { int kind; int a, b, k; };   // a, b: node numbers in document order; -1 the document
string show(const Op& o) { static const char* n[] = {"insert end", "insert before", "insert after", "replace", "remove", "clear", "set attribute", "remove attribute", "change value", "copy subtree", "assign element", "copy document", "assign document", "insert before foreign child", "link new child"}; return cat(n[o.kind], " ", o.a, " ", o.b, " ", o.k, "; "); }
bool inside(const vector<int>& a, const vector<int>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
vector<Op> ops(vector<M>& m) { vector<Op> v; auto ps = all(m); int n = ps.size(); if (n > 12) n = 12;
  for (int i = 0; i < n; ++i) { M& x = *mod(m, ps[i].p); bool top = ps[i].p.size() == 1;
    for (int k = 0; k < 4; ++k) { if (x.k == xm::ELEM) { v.push_back({0, i, 0, k}); if (k == 1 || k == 3) v.push_back({14, i, 0, k}); } if (!top || k == 2) { v.push_back({1, i, 0, k}); v.push_back({2, i, 0, k}); if (!top) v.push_back({3, i, 0, k}); } }
    if (!top) v.push_back({4, i, 0, 0}); if (x.k == xm::ELEM) { v.push_back({5, i, 0, 0}); for (int k = 0; k < 4; ++k) v.push_back({6, i, 0, k}); v.push_back({7, i, 0, 0}); v.push_back({7, i, 0, 1}); } if (x.k != xm::DECL) v.push_back({8, i, 0, 0});
    for (int j = 0; j < n; ++j) { M& y = *mod(m, ps[j].p); if (x.k == xm::DECL) continue; if (y.k == xm::ELEM) v.push_back({9, i, j, 0}); if (x.k == xm::ELEM && y.k == xm::ELEM && (i == j || (!inside(ps[i].p, ps[j].p) && !inside(ps[j].p, ps[i].p)))) v.push_back({10, i, j, 0}); if (y.k == xm::ELEM && i != j && !(ps[i].p.size() == ps[j].p.size() + 1 && inside(ps[j].p, ps[i].p))) v.push_back({13, i, j, 0}); } }
  v.push_back({11, 0, 0, 0}); v.push_back({12, 0, 0, 0}); return v; }
// performs the edit on the model and on the real tree; false: the answer of the real edit was wrong
bool apply(World& w, const Op& o, string& err) {
  auto ps = all(w.m); vector<int> p = o.kind == 11 || o.kind == 12 ? vector<int>() : ps[o.a].p, up = p; if (!up.empty()) up.pop_back(); int at = p.empty() ? 0 : p.back();
  TiXmlNode* n = node(*w.d, p); TiXmlNode* par = n->Parent(); M x = content(o.k); std::unique_ptr<TiXmlNode> real(xm::make(x)); static const char* AN[] = {"a", "b", "a", "b"}; static const char* AV[] = {"5", "6", "", "q\"<"};
  auto good = [&](TiXmlNode* r, TiXmlNode* parent) { if (!r) { err = "edit refused"; return false; } string e; M got = xm::readNode(r, e); string a, b; xm::canon(got, a); xm::canon(x, b); if (a != b || r->Parent() != parent) { err = "wrong node returned: " + a; return false; } return true; };
  switch (o.kind) {
    case 0: list(w.m, p).push_back(x); return good(n->InsertEndChild(*real), n);
    case 14: list(w.m, p).push_back(x); return good(n->LinkEndChild(real.release()), n);
    case 1: { auto& l = list(w.m, up); l.insert(l.begin() + at, x); return good(par->InsertBeforeChild(n, *real), par); }
    case 2: { auto& l = list(w.m, up); l.insert(l.begin() + at + 1, x); return good(par->InsertAfterChild(n, *real), par); }
    case 3: list(w.m, up)[at] = x; return good(par->ReplaceChild(n, *real), par);
    case 4: { auto& l = list(w.m, up); l.erase(l.begin() + at); if (!par->RemoveChild(n)) { err = "removal refused"; return false; } return true; }
    case 5: mod(w.m, p)->ch.clear(); n->Clear(); return true;
    case 6: { M& e = *mod(w.m, p); bool found = false; for (auto& a : e.at) if (a.first == AN[o.k]) { a.second = AV[o.k]; found = true; } if (!found) e.at.push_back({AN[o.k], AV[o.k]}); if (o.k & 1) n->ToElement()->SetAttribute(string(AN[o.k]), string(AV[o.k])); else n->ToElement()->SetAttribute(AN[o.k], AV[o.k]); return true; }
    case 7: { M& e = *mod(w.m, p); for (size_t i = 0; i < e.at.size(); ++i) if (e.at[i].first == AN[o.k]) { e.at.erase(e.at.begin() + i); break; } n->ToElement()->RemoveAttribute(AN[o.k]); return true; }
    case 8: mod(w.m, p)->v = "q"; n->SetValue("q"); return true;
    case 9: { x = *mod(w.m, p); list(w.m, ps[o.b].p).push_back(x); TiXmlNode* t = node(*w.d, ps[o.b].p); return good(t->InsertEndChild(*n), t); }
    case 10: { M src = *mod(w.m, ps[o.b].p); *mod(w.m, p) = src; *n->ToElement() = *node(*w.d, ps[o.b].p)->ToElement(); return true; }
    case 11: { std::unique_ptr<TiXmlDocument> e(new TiXmlDocument(*w.d)); string er, a = xm::readDoc(*w.d, er), b = xm::canon(w.m); if (a != b) { err = "copying changed the document: " + a; return false; } w.d.swap(e); return true; }
    case 12: { std::unique_ptr<TiXmlDocument> e(new TiXmlDocument("other.xml")); e->InsertEndChild(TiXmlElement("gone")); *e = *w.d; string er, a = xm::readDoc(*w.d, er), b = xm::canon(w.m); if (a != b) { err = "copying changed the document: " + a; return false; } w.d.swap(e); *w.d = *w.d; return true; }
    case 13: { TiXmlNode* t = node(*w.d, ps[o.b].p); if (t->InsertBeforeChild(n, *real) || t->InsertAfterChild(n, *real) || t->ReplaceChild(n, *real)) { err = "a foreign child was accepted"; return false; } return true; }
  }
  return true; }
// every navigation function against the model
bool navigate(TiXmlNode* p, const vector<M>& v, string& err) {
  for (const char* nm : {"a", "b", "gear", "q", "note", "none", "some", "new text"}) { vector<int> hit, el; for (size_t i = 0; i < v.size(); ++i) if (v[i].k != xm::DECL && v[i].v == nm) { hit.push_back(i); if (v[i].k == xm::ELEM) el.push_back(i); }
    auto nth = [&](int i) { TiXmlNode* n = p->FirstChild(); while (i-- && n) n = n->NextSibling(); return n; };
    TiXmlNode* f = p->FirstChild(nm); if (f != (hit.empty() ? 0 : nth(hit[0]))) err = "FirstChild by name"; TiXmlNode* l = p->LastChild(nm); if (l != (hit.empty() ? 0 : nth(hit.back()))) err = "LastChild by name";
    size_t k = 0; for (TiXmlNode* n = p->FirstChild(nm); n; n = n->NextSibling(nm), ++k) if (k >= hit.size() || n != nth(hit[k])) { err = "NextSibling by name"; break; } if (k != hit.size()) err = "number of siblings by name";
    k = 0; for (TiXmlNode* n = p->LastChild(nm); n; n = n->PreviousSibling(nm), ++k) if (k >= hit.size()) { err = "PreviousSibling by name"; break; } if (k != hit.size()) err = "number of siblings by name backwards";
    k = 0; TiXmlNode* it = 0; while ((it = p->IterateChildren(nm, it))) { if (k >= hit.size() || it != nth(hit[k])) { err = "IterateChildren by name"; break; } ++k; } if (k != hit.size()) err = "number of children by name";
    k = 0; for (TiXmlElement* e = p->FirstChildElement(nm); e; e = e->NextSiblingElement(nm), ++k) if (k >= el.size() || e != nth(el[k])) { err = "NextSiblingElement by name"; break; } if (k != el.size()) err = "number of elements by name";
    for (int i = 0; i <= int(v.size()); ++i) { TiXmlHandle h(p); if (h.Child(nm, i).Node() != (i < int(hit.size()) ? nth(hit[i]) : 0)) err = "handle child by name and index"; if (h.ChildElement(nm, i).Node() != (i < int(el.size()) ? nth(el[i]) : 0)) err = "handle element by name and index"; } }
  size_t k = 0; TiXmlNode* it = 0; vector<TiXmlNode*> kids; while ((it = p->IterateChildren(it))) { kids.push_back(it); if (kids.size() > v.size()) break; } if (kids.size() != v.size()) { err = "IterateChildren"; return false; }
  vector<TiXmlNode*> els; for (size_t i = 0; i < v.size(); ++i) if (v[i].k == xm::ELEM) els.push_back(kids[i]);
  for (TiXmlElement* e = p->FirstChildElement(); e; e = e->NextSiblingElement(), ++k) if (k >= els.size() || e != els[k]) { err = "NextSiblingElement"; break; } if (k != els.size()) err = "number of elements";
  for (int i = 0; i <= int(v.size()); ++i) { TiXmlHandle h(p); if (h.Child(i).Node() != (i < int(kids.size()) ? kids[i] : 0)) err = "handle child by index"; if (h.ChildElement(i).Node() != (i < int(els.size()) ? els[i] : 0)) err = "handle element by index"; }
  for (size_t i = 0; i < v.size(); ++i) { if (kids[i]->GetDocument() != p->GetDocument()) err = "GetDocument"; if (!navigate(kids[i], v[i].ch, err)) return false; }
  return err.empty(); }
bool textsApart(const vector<M>& v) { for (size_t i = 0; i < v.size(); ++i) { if (i && v[i].k == xm::TEXT && v[i - 1].k == xm::TEXT) return false; if (!textsApart(v[i].ch)) return false; } return true; }
bool names(const vector<M>& v) { for (auto& m : v) { if (!names(m.ch)) return false; } return true; }
}
void mc::explore(Ctx& c) {
  // thorough: every state reached by two edits is extended once, from the first history that reaches it
  const int D = c.thorough ? 3 : 2; std::set<string> rep; if (c.thorough) for (int s = 0; s < 4; ++s) { std::set<string> seen; string err; vector<M> m0 = start(s);
    auto build = [&](const vector<Op>& h) { World w; w.m = start(s); w.d.reset(new TiXmlDocument); for (auto& m : w.m) w.d->LinkEndChild(xm::make(m)); for (auto& o : h) apply(w, o, err); return w; };
    for (auto& a : ops(m0)) { vector<M> m1 = build({a}).m; for (auto& b : ops(m1)) { World w = build({a, b}); if (seen.insert(xm::canon(w.m)).second) rep.insert(cat(s, show(a), show(b))); } } }
  for (int s = 0; s < 4; ++s) { vector<M> m0 = start(s); vector<Op> first = ops(m0);
    for (size_t f = 0; f < first.size(); ++f) c.unit(cat("start ", s, " edit ", f), [&, s, f, first] {
      std::function<bool(vector<Op>&)> rec = [&](vector<Op>& h) -> bool {
        World w; w.m = start(s); w.d.reset(new TiXmlDocument(c.tmpdir + "/e.xml")); for (auto& m : w.m) w.d->LinkEndChild(xm::make(m)); string err; auto at = [&] { string t = cat("start ", s, ": "); for (auto& o : h) t += show(o); return t; }; c.now(at()); c.trace();
        for (auto& o : h) if (!c.check(apply(w, o, err), "edit-answer", [&] { return at() + err; })) return false;
        string e, got = xm::readDoc(*w.d, e), want = xm::canon(w.m); c.state(want); if (!c.check(got == want && e.empty(), "tree-differs", [&] { return at() + got + " instead of " + want + " " + e; })) return false;
        if (!c.check(navigate(w.d.get(), w.m, err), "navigation", [&] { return at() + err; })) return false;
        for (auto& n : all(w.m)) { TiXmlNode* x = node(*w.d, n.p); std::unique_ptr<TiXmlNode> cl(x->Clone()); string a, b, e2; xm::canon(xm::readNode(cl.get(), e2), a); xm::canon(*mod(w.m, n.p), b); if (!c.check(a == b && e2.empty() && !cl->Parent() && !cl->NextSibling() && !cl->PreviousSibling(), "clone-differs", [&] { return at() + a; })) return false; }
        if (textsApart(w.m)) { string f1 = c.tmpdir + "/e.xml"; TiXmlDocument r; bool ok = w.d->SaveFile(f1) && r.LoadFile(f1); string g2 = ok ? xm::readDoc(r, e) : r.ErrorDesc(), w2 = xm::canon(xm::asRead(w.m)); if (!c.check(ok && g2 == w2, "differs-after-reading", [&] { return at() + g2; })) return false; }
        if (int(h.size()) >= D) return true; if (h.size() == 2 && !rep.count(cat(s, show(h[0]), show(h[1])))) return true; for (auto& o : ops(w.m)) { h.push_back(o); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
      vector<Op> h{first[f]}; rec(h); if (f % 50 == 3) c.sample(cat("start ", s, ": ", show(first[f]), "... every continuation")); }); }
}
