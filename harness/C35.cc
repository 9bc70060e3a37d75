// C35: a description file, however it is spelled, is read as the geometry the format says.
#include "rt.h"
#include "refread.h"
#include <set>
using namespace gear; using namespace mc; using std::vector; using std::string; using xt::N; using xt::P;
const char* const mc::PROPERTY = "C35"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one description file; it is read by the real reader and by an independent reader of the documented format written in the harness (elements and attributes to public setters); both must refuse it, or the two geometries must agree in every observable value; distinct = different files";
const char* const mc::BOUNDS = "27 base files (every detector type and variant, both TPC syntaxes, all pad layouts, field, user parameters, materials, everything together): every single edit of {remove / duplicate / rename / move to front / move to end of an element, remove / rename / respell (12 spellings) / change to another documented value of an attribute, reverse the attributes, value as element text, insert comments (also with the text of an expected element), unknown elements and attributes and text at every position}, every pair of removals, thorough: every pair of edits; 384 lexical forms (quotes, explicit end tags, blanks and line ends, byte order mark, declaration, character references, trailing comments) of every file; TPC modules: every one of 4^7 distributions of the 7 fields over module and default, every sequence of up to 4 (thorough 6) items over 8 kinds in one or two sections x 3 start counts; every sequence of up to 3 (thorough 4) repeat groups with repeats 0..3 for calorimeter layers and pad rows x repeatRows 0..3; every calorimeter and ZPlanar name spelled in 6 ways";
namespace {
void text(string& o, const N& n, int f) {      // f: bits 1 quotes ' 2 explicit end tags 4 blanks around = and before > 8 line breaks inside tags 16 no white space between tags 32 CR LF
  if (n.name.empty()) { o += n.text; return; } const string nl = f & 16 ? "" : f & 32 ? "\r\n\t" : "\n  ", sp = f & 8 ? (f & 32 ? "\r\n   " : "\n\t ") : " ";
  o += "<" + n.name; for (auto& a : n.at) { string v = a.second; if (f & 1) { v = v.substr(1, v.size() - 2); string w; for (char c : v) w += c == '\'' ? string("&apos;") : string(1, c); v = "'" + w + "'"; } o += sp + a.first + (f & 4 ? (f & 8 ? (f & 32 ? "\r\n=\r\n" : "\n=\n\t") : " = ") : "=") + v; }
  if (n.ch.empty() && !(f & 2)) { o += (f & 4) ? (f & 8 ? sp + "/>" : " />") : "/>"; o += nl; return; } o += (f & 4) ? (f & 8 ? sp + ">" : " >") : ">"; bool t = false; for (auto& c : n.ch) t |= c->name.empty(); if (!t) o += nl; for (auto& c : n.ch) text(o, *c, f); o += "</" + n.name + (f & 4 ? (f & 8 ? sp + ">" : " >") : ">") + nl; }
string render(const N& doc, int f) { string o; if (f & 64) o += "\xef\xbb\xbf"; if (f & 128) o += f & 1 ? "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n" : "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<!-- a file -->\n"; for (auto& c : doc.ch) text(o, *c, f); if (f & 256) o += "<!-- end -->\n\n"; return o; }
P E(const string& n, vector<std::pair<string, string>> at = {}, vector<P> ch = {}) { P e(new N); e->name = n; for (auto& a : at) e->at.push_back({a.first, "\"" + a.second + "\""}); e->ch = ch; return e; }
P T(const string& t) { P e(new N); e->text = t; return e; }
P doc(vector<P> dets, vector<P> more = {}) { P d(new N); d->name = "#doc"; vector<P> k{E("global", {{"detectorName", "hand made"}})}; for (auto& p : more) if (p->name == "BField") k.push_back(p); k.push_back(E("detectors", {}, dets)); for (auto& p : more) if (p->name != "BField") k.push_back(p); d->ch.push_back(E("gear", {}, k)); return d; }
P strip(P t) { for (size_t i = 0; i < t->ch.size();) if (t->ch[i]->name.empty()) t->ch.erase(t->ch.begin() + i); else { strip(t->ch[i]); ++i; } return t; }
P par(const string& n, const string& t, const string& v, bool asText = false) { return asText ? E("parameter", {{"name", n}, {"type", t}}, {T(v)}) : E("parameter", {{"name", n}, {"type", t}, {"value", v}}); }
P rows(int k) { return k == 0 ? E("PadRowLayout2D", {{"type", "RectangularPadRowLayout"}, {"xMin", "-10"}, {"xMax", "12.5"}, {"yMin", "5"}, {"repeatRows", "2"}}, {E("row", {{"nPad", "5"}, {"padWidth", "2"}, {"padHeight", "1.5"}, {"rowHeight", "6"}, {"leftOffset", "2.5"}, {"rightOffset", "1.25"}, {"repeat", "2"}}), E("row", {{"nPad", "4"}, {"padWidth", "3"}, {"padHeight", "2.5"}, {"rowHeight", "4"}, {"leftOffset", "0.5"}, {"rightOffset", "0.75"}, {"repeat", "1"}})})
  : k == 1 ? E("PadRowLayout2D", {{"type", "VersatileDiskRowLayout"}, {"rMin", "43"}}, {E("row", {{"nPad", "5"}, {"padPitch", "2"}, {"rowHeight", "6"}, {"padWidth", "1.5"}, {"padHeight", "5.5"}, {"offset", "0.5"}, {"repeat", "2"}}), E("row", {{"nPad", "6"}, {"padPitch", "2.5"}, {"rowHeight", "5"}, {"padWidth", "1.25"}, {"padHeight", "4.5"}, {"offset", "-3"}, {"repeat", "1"}})})
  : k == 2 ? E("PadRowLayout2D", {{"type", "FixedPadSizeDiskLayout"}, {"rMin", "30.5"}, {"rMax", "60.5"}, {"padHeight", "10"}, {"padWidth", "2"}, {"maxRow", "2"}, {"padGap", "0.5"}, {"phiMax", "1.5"}})
  : E("PadRowLayout2D", {{"type", "FixedPadAngleDiskLayout"}, {"rMin", "31.5"}, {"rMax", "61.5"}, {"nRow", "3"}, {"phiMin", "0.25"}, {"phiMax", "1.75"}, {"nPadsInRow", "4"}}); }
P V(const string& n, const string& v) { return E(n, {{"value", v}}); }
P tpcOf(vector<P> modules, const string& co = "polar") { vector<P> k{V("maxDriftLength", "2250.5"), V("driftVelocity", "52.5"), V("coordinateType", co)}; for (auto& m : modules) k.push_back(m); k.push_back(par("tpcPar", "double", "7.5")); return E("detector", {{"name", "TPC"}, {"geartype", "TPCParameters"}}, k); }
struct Base { string name; P t; };
vector<Base> bases(Ctx& c) { vector<Base> v;
  for (int k = 0; k < 4; ++k) { vector<P> mod{V("moduleID", "5"), V("readoutFrequency", "4e7"), rows(k), E("offset", {{"x_r", "10.5"}, {"y_phi", "-3.25"}}), V("zPosition", "-100"), V("angle", "0.75"), V("enlargeActiveAreaBy", "0.25"), par("modPar", "int", "4")};
    vector<P> def{V("moduleID", "9"), V("readoutFrequency", "5e6"), rows(k), V("enlargeActiveAreaBy", "1.5"), V("zPosition", "50")}; if (k >= 2) mod[3] = E("offset", {{"x_r", "10.5"}, {"y_phi", "0.5"}});
    v.push_back({cat("TPC modules ", k), doc({tpcOf({E("modules", {{"moduleIDStartCount", "3"}}, {E("default", {}, def), E("module", {}, mod), E("module", {}, {})})}, k < 2 ? "cartesian" : "polar")})});
    v.push_back({cat("TPC old ", k), doc({E("detector", {{"name", "TPC"}, {"geartype", "TPCParameters"}}, {V("maxDriftLength", "2250.5"), V("driftVelocity", "52.5"), V("readoutFrequency", "4e7"), rows(k), par("tpcPar", "double", "7.5")})})}); }
  const string f = c.tmpdir + "/base.xml"; auto wr = [&](const string& n, const std::function<void(GearMgrImpl&)>& fill) { GearMgrImpl m; m.setDetectorName("a \"b\" & c"); fill(m); rt::save(m, f); v.push_back({n, strip(xt::parse(rt::slurp(f)))}); };
  for (int d = 1; d < full::NDET; ++d) wr(full::detName(d), [&](GearMgrImpl& m) { GearParametersImpl* p = full::addDet(m, d, d == 17 ? 2 : d % 2); p->setIntVal("i", 3); });
  wr("SiPlanes without", [&](GearMgrImpl& m) { full::addDet(m, 17, 1); }); wr("rest", [&](GearMgrImpl& m) { full::somePars(full::addField(m, 1, 2, 3), 0); full::somePars(full::addUser(m, "user"), 1); full::addMaterial(m, "iron", 1, 2, 3, 4, 5); full::addMaterial(m, "air", 1.5, 2.5, 3.5, 4.5, 5.5); });
  v.push_back({"texts", doc({E("detector", {{"name", "user"}, {"geartype", "GearParameters"}}, {par("i", "int", "7", true), par("d", "double", " 2.5 ", true), par("s", "string", "some &amp; words", true), par("iv", "IntVec", "1 -2\n 3", true), par("dv", "DoubleVec", "\n 1.5\t2.5 -1e3 ", true), par("sv", "StringVec", "a b c", true), par("av", "IntVec", " 1  2 3 "), par("adv", "DoubleVec", "1.5 2.5"), par("e", "string", "")})}, {E("BField", {{"x", "0"}, {"y", "0"}, {"z", "4"}}, {par("q", "int", " 5 ", true)})})});
  { vector<P> ds; for (size_t i = 0; i < v.size(); ++i) { if (v[i].name == "TPC old 0") continue; if (v[i].name.compare(0, 3, "TPC") == 0 && v[i].name != "TPC modules 0") continue; for (auto& d : v[i].t->ch[0]->ch) if (d->name == "detectors") for (auto& e : d->ch) ds.push_back(xt::copy(*e)); } v.push_back({"all", doc(ds, {E("BField", {{"x", "0"}, {"y", "0.5"}, {"z", "4"}}), E("materials", {}, {E("material", {{"name", "m"}, {"A", "1"}, {"Z", "2"}, {"density", "3"}, {"radLength", "4"}, {"intLength", "5"}})})})}); }
  return v; }
struct Ed { int kind, node, a; string s; };
string show(const Ed& e, const vector<P>& n) { static const char* k[] = {"remove", "remove attribute", "duplicate", "rename", "rename attribute", "insert before", "insert first in", "insert last in", "reverse attributes of", "move to front", "move to end", "set attribute", "value as text"}; const N& x = *n[e.node]; return cat(k[e.kind], " <", x.name, ">#", e.node, e.a >= 0 ? " " + x.at[e.a].first : "", e.s.empty() ? "" : " '" + e.s + "'", "; "); }
void nodes(const P& p, vector<P>& n, vector<N*>& up) { for (auto& c : p->ch) { n.push_back(c); up.push_back(p.get()); nodes(c, n, up); } }
void drop(vector<std::pair<string, string>>& at, const string& n) { for (size_t i = 0; i < at.size(); ++i) if (at[i].first == n) { at.erase(at.begin() + i); return; } }
P insertion(const string& s) { if (s[0] != '+') return T(s); if (s == "+remark") return E("remark", {{"text", "x"}, {"ID", "77"}, {"value", "88"}}, {E("layer", {{"repeat", "1"}}), par("no", "int", "9"), E("row", {{"nPad", "1"}})}); return E(s.substr(1)); }
void apply(const vector<P>& n, const vector<N*>& up, const vector<P>& orig, const Ed& e) {
  N& x = *n[e.node]; vector<P>& l = up[e.node]->ch; size_t i = 0; while (i < l.size() && l[i].get() != &x) ++i; bool here = i < l.size(); string an = e.a >= 0 ? orig[e.node]->at[e.a].first : "";
  switch (e.kind) { case 0: if (here) l.erase(l.begin() + i); break; case 1: drop(x.at, an); break; case 2: if (here) l.insert(l.begin() + i + 1, xt::copy(x)); break; case 3: x.name += "X"; break; case 4: for (auto& a : x.at) if (a.first == an) a.first = "x" + an; break;
    case 5: if (here) l.insert(l.begin() + i, insertion(e.s)); break; case 6: x.ch.insert(x.ch.begin(), insertion(e.s)); break; case 7: x.ch.push_back(insertion(e.s)); break; case 8: std::reverse(x.at.begin(), x.at.end()); break;
    case 9: if (here) { P k = l[i]; l.erase(l.begin() + i); l.insert(l.begin(), k); } break; case 10: if (here) { P k = l[i]; l.erase(l.begin() + i); l.push_back(k); } break; case 11: for (auto& a : x.at) if (a.first == an) a.second = "\"" + e.s + "\""; break;
    case 12: for (auto& a : x.at) if (a.first == "value") { string v = a.second.substr(1, a.second.size() - 2); drop(x.at, "value"); x.ch.push_back(T(v)); break; } break; } }
// other documented values of an attribute
vector<string> values(const N& x, const N& up, const string& a, const string& v) { vector<string> r;
  auto add = [&](std::initializer_list<const char*> l) { for (auto s : l) r.push_back(s); };
  if (a == "technology") add({"CCD", "CMOS", "HYBRID", "Unknown", ""}); else if (a == "sensorType") add({"PIXEL", "STRIP", "pixel"}); else if (a == "geartype") add({"GearParameters", "VXDParameters", "ZPlanarParameters", "CalorimeterParameters", "TPCParameters", "FTDParameters", "SiPlanesParameters", "TrackerPlanesParameters", "Nothing", ""});
  else if (a == "type" && x.name == "layout") add({"Barrel", "barrel", "ENDCAP", "Endcap", "plug"}); else if (a == "type" && x.name == "siplanesType") add({"TelescopeWithDUT", "TelescopeWithoutDUT", "Telescope"}); else if (a == "type" && x.name == "PadRowLayout2D") add({"FixedPadSizeDiskLayout", "FixedPadAngleDiskLayout", "RectangularPadRowLayout", "VersatileDiskRowLayout", "Other"}); else if (a == "type" && x.name == "parameter") add({"int", "double", "string", "IntVec", "DoubleVec", "StringVec", "other"});
  else if (a == "value" && x.name == "coordinateType") add({"polar", "cartesian", "Polar", ""}); else if (a == "value" && x.name == "driftVelocity") add({"", "3"}); else if (a == "repeat" || a == "repeatRows") add({"0", "1", "2", "5"}); else if (a == "isDoubleSided") add({"0", "1", "2"});
  else if (a == "name" && x.name == "detector") add({"other", "Ecal", "hcal 2", "mySIT", "VXD_0"}); else if (a == "value" && x.name == "parameter") { add({"", " ", "1", "1 2", "  3   4.5  ", "a"}); string ty = rr::S(&x, "type", ""); if (ty != "string" && ty != "StringVec") add({"\n 7", "1\n2", " 1\t-2.5 \r\n 3\n", "\n"}); }
  else { char* e; string u = rr::unescape("\"" + v + "\""); double d = strtod(u.c_str(), &e); if (u.empty() || *e) return r; bool whole = u.find_first_of(".eE") == string::npos; char b[64]; auto put = [&](const string& s) { r.push_back(s); };
    put(" " + u); put(u + " "); put("\t" + u + "\n"); if (u[0] != '-') put("+" + u); put(u[0] == '-' ? "-00" + u.substr(1) : "00" + u);
    string en; for (char c : u) { snprintf(b, sizeof b, "&#x%x;", c); en += b; } put(en); snprintf(b, sizeof b, "&#%d;", u[0]); put(b + u.substr(1));
    if (!whole) { snprintf(b, sizeof b, "%.17g", d); put(b); snprintf(b, sizeof b, "%.20f", d); put(b); snprintf(b, sizeof b, "%.17E", d); put(b); snprintf(b, sizeof b, "%.3f", d); put(b); snprintf(b, sizeof b, "%.1e", d); put(b); } else { put(u + ".0"); if (a == "moduleIDStartCount" || x.name == "moduleID" || a == "ID") { put("0"); put("-1"); } } }
  return r; }
vector<Ed> edits(const P& t, bool all) { vector<P> n; vector<N*> up; nodes(t, n, up); vector<Ed> v;
  for (size_t i = 0; i < n.size(); ++i) { const N& x = *n[i]; int k = int(i); if (x.name.empty()) continue; v.push_back({0, k, -1, ""}); for (size_t a = 0; a < x.at.size(); ++a) v.push_back({1, k, int(a), ""}); if (!all) continue;
    v.push_back({2, k, -1, ""}); v.push_back({3, k, -1, ""}); v.push_back({8, k, -1, ""}); v.push_back({9, k, -1, ""}); v.push_back({10, k, -1, ""}); if (x.name == "parameter" && rr::has(&x, "value")) v.push_back({12, k, -1, ""});
    for (size_t a = 0; a < x.at.size(); ++a) { v.push_back({4, k, int(a), ""}); for (auto& s : values(x, *up[i], x.at[a].first, x.at[a].second.substr(1, x.at[a].second.size() - 2))) v.push_back({11, k, int(a), s}); }
    std::set<string> sib, kid; if (i) for (auto& s : up[i]->ch) sib.insert(s->name); for (auto& s : x.ch) kid.insert(s->name); sib.erase(""); kid.erase("");
    if (i) for (const string& s : {string("<!-- note -->"), "<!--" + x.name + "-->", string("<!-- <" + x.name + " a=\"1\"/> - -->"), string("+remark"), string(" some words "), " " + x.name + " "}) v.push_back({5, k, -1, s});
    bool leaf = x.name == "parameter"; for (const string& s : {string("<!-- note -->"), string("+remark"), string(" some words ")}) { if (leaf && s[0] == ' ') continue; v.push_back({6, k, -1, s}); v.push_back({7, k, -1, s}); }
    for (auto& s : kid) { v.push_back({6, k, -1, "<!--" + s + "-->"}); v.push_back({7, k, -1, "<!--" + s + "-->"}); if (!leaf) { v.push_back({6, k, -1, " " + s + " "}); v.push_back({7, k, -1, "+" + s}); } } }
  return v; }
}
void mc::explore(Ctx& c) {
  const string f = c.tmpdir + "/c35.xml";
  // one file: bytes s, meaning t
  auto compare = [&](const string& s, const N& t, const std::function<string()>& at) -> bool {
    c.now(at()); c.state(s); c.trace(); rt::spit(f, s); std::unique_ptr<GearMgr> m; string err, why; GearMgrImpl w; bool ok = true;
    try { rt::Quiet q; rr::read(&t, w); } catch (rr::Refused& e) { ok = false; why = e.why; } catch (gear::Exception& e) { ok = false; why = e.what(); }
    try { m = rt::load(f); } catch (gear::Exception& e) { err = e.what(); }
    if (!ok) return c.check(!m, "incomplete-description-accepted", [&] { return at() + ": " + why; });
    if (!c.check(m != nullptr, "valid-description-refused", [&] { return at() + ": " + err; })) return false;
    dmp::Dump a, b; dmp::mgr(a, w); dmp::mgr(b, *m); c.transitions(a.v.size()); string d = dmp::diff(a, b, 1e-12); return c.check(d.empty(), "read-as-something-else", [&] { return at() + ": " + d; }); };
  auto plain = [&](const N& t, const std::function<string()>& at) { return compare(render(t, 0), t, at); };
  vector<Base> B = bases(c);
  for (size_t bi = 0; bi < B.size(); ++bi) { const Base b = B[bi]; vector<P> n0; vector<N*> u0; nodes(b.t, n0, u0);
    c.unit(b.name + " forms", [&, b] { for (int k = 0; k < 512; ++k) if (!((k & 16) && (k & 32))) if (!compare(render(*b.t, k), *b.t, [&] { return cat(b.name, " form ", k); })) return; c.sample(b.name + " in 384 lexical forms"); });
    auto run = [&, b, n0](const vector<Ed>& h) { P t = xt::copy(*b.t); vector<P> n; vector<N*> up; nodes(t, n, up); for (auto& e : h) apply(n, up, n0, e); return plain(*t, [&] { string s = b.name + ": "; for (auto& e : h) s += show(e, n0); return s; }); };
    const vector<Ed> one = edits(b.t, true), rem = edits(b.t, false); const size_t CH = 400;
    for (size_t s = 0; s < one.size(); s += CH) c.unit(cat(b.name, " edits ", s), [&, run, one, s, b] { for (size_t i = s; i < one.size() && i < s + CH; ++i) run({one[i]}); if (s == 0) c.sample(cat(b.name, ": each of ", one.size(), " edits")); });
    if (b.name == "all") continue;
    for (size_t i = 0; i < rem.size(); i += 4) c.unit(cat(b.name, " removals ", i), [&, run, rem, i] { for (size_t k = i; k < i + 4 && k < rem.size(); ++k) for (size_t j = k + 1; j < rem.size(); ++j) if (!run({rem[k], rem[j]})) return; });
    if (c.thorough) for (size_t i = 0; i < one.size(); ++i) c.unit(cat(b.name, " pairs ", i), [&, run, one, i] { for (size_t j = i % 7; j < one.size(); j += 7) if (j != i && !run({one[i], one[j]})) return; }); }
  // TPC modules: each of the 7 fields in the module, the default, both or neither
  static const char* F[] = {"moduleID", "readoutFrequency", "PadRowLayout2D", "offset", "zPosition", "angle", "enlargeActiveAreaBy"};
  auto field = [](int i, int who) -> P { switch (i) { case 2: return rows(who); case 3: return E("offset", {{"x_r", who ? "5.5" : "-7.5"}, {"y_phi", who ? "2" : "30"}}); case 0: return V(F[i], who ? "4" : "12"); case 1: return V(F[i], who ? "4e7" : "1e6"); case 4: return V(F[i], who ? "75" : "-75"); case 5: return V(F[i], who ? "0.5" : "-0.25"); default: return V(F[i], who ? "1.5" : "0.75"); } };
  for (int hi = 0; hi < 64; ++hi) c.unit(cat("module fields ", hi), [&, hi] { for (int lo = 0; lo < 256; ++lo) { int k = hi * 256 + lo; vector<P> mo, de; for (int i = 0; i < 7; ++i) { int w = (k >> (2 * i)) & 3; if (w & 1) mo.push_back(field(i, 1)); if (w & 2) de.push_back(field(i, 0)); } mo.push_back(par("mine", "int", "1")); de.push_back(par("not inherited", "int", "2"));
      P t = doc({tpcOf({E("modules", {}, {E("default", {}, de), E("module", {}, mo)})}, "cartesian")}); if (!plain(*t, [&] { return cat("module fields ", k, " (2 bits per field: 1 module, 2 default)"); })) return; } });
  // sequences of defaults and modules
  auto item = [&](int k) -> P { switch (k) { case 0: return E("default", {}, {field(1, 0), rows(0), field(6, 0)}); case 1: return E("default", {}, {field(1, 1), rows(1), field(4, 1)}); case 2: return E("module"); case 3: return E("module", {}, {V("moduleID", "1"), field(3, 1)}); case 4: return E("module", {}, {field(1, 1), rows(3), field(5, 1), par("p", "int", "3")}); case 5: return T("<!-- module -->"); case 6: return E("remark", {}, {E("module")}); default: return T("<!--module-->"); } };
  const int L = c.thorough ? 6 : 4; for (int first = 0; first < 8; ++first) for (int second = -1; second < 8; ++second) c.unit(cat("module sequences ", first, " ", second), [&, first, second] {
    std::function<bool(vector<int>&)> rec = [&](vector<int>& h) -> bool {
      static const char* SC[] = {0, "3", "-2"}; for (int sc = 0; sc < 3; ++sc) for (size_t cut = 0; cut < (h.size() > 4 ? 1 : h.size()); ++cut) { vector<P> secs; vector<P> a, b; for (size_t i = 0; i < h.size(); ++i) (cut && i >= cut ? b : a).push_back(item(h[i])); P s1 = E("modules", {}, a); if (SC[sc]) s1->at.push_back({"moduleIDStartCount", string("\"") + SC[sc] + "\""}); secs.push_back(s1); if (cut) secs.push_back(E("modules", {{"moduleIDStartCount", "20"}}, b));
        P t = doc({tpcOf(secs, "cartesian")}); if (!plain(*t, [&] { string s = "modules"; for (int i : h) s += cat(" ", i); return cat(s, " start ", sc, " split ", cut); })) return false; }
      if (int(h.size()) >= L || h.size() < 2) return true; for (int k = 0; k < 8; ++k) { if (h.size() >= 4 && (k == 5 || k == 7)) continue; h.push_back(k); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
    vector<int> h{first}; if (second >= 0) h.push_back(second); rec(h); if (first == 1 && second == 2) c.sample("default, module and every continuation"); });
  // repeats
  const int G = c.thorough ? 4 : 3; for (int what = 0; what < 4; ++what) for (int k0 = 0; k0 < 12; ++k0) c.unit(cat("repeats ", what, " ", k0), [&, what, k0] {
    std::function<bool(vector<int>&)> rec = [&](vector<int>& h) -> bool {
      for (int all = 0; all < (what == 2 ? 4 : 1); ++all) { P t; vector<P> v; for (int k : h) { string r = cat(k % 4); int q = k / 4; if (what < 2) v.push_back(E("layer", {{"repeat", r}, {"thickness", cat(3 + q)}, {"absorberThickness", cat(1.5 - q * 0.25)}, {"cellSize0", cat(10 + q)}, {"cellSize1", cat(20 - q)}})); else { P w = xt::copy(*rows(what - 2)->ch[q & 1]); if (q == 2) { drop(w->at, "rowHeight"); drop(w->at, "offset"); if (what == 3) w->at.push_back({"rowHeight", "\"3\""}); } for (auto& a : w->at) if (a.first == "repeat") a.second = "\"" + r + "\""; v.push_back(w); } }
        if (what < 2) { vector<P> k{what ? E("dimensions", {{"inner_r", "300"}, {"outer_r", "800"}, {"inner_z", "1000"}}) : E("dimensions", {{"inner_r", "300"}, {"outer_z", "1000"}}), E("layout", {{"type", what ? "Endcap" : "Barrel"}, {"symmetry", "8"}, {"phi0", "0.1"}})}; for (auto& p : v) k.push_back(p); t = doc({E("detector", {{"name", "Hcal"}, {"geartype", "CalorimeterParameters"}}, k)}); }
        else { P l = rows(what - 2); l->ch = v; for (auto& a : l->at) if (a.first == "repeatRows") a.second = cat("\"", all, "\""); t = doc({tpcOf({E("modules", {}, {E("module", {}, {V("readoutFrequency", "1e6"), l})})}, "cartesian")}); }
        bool any = what < 2; for (int k : h) any |= k % 4 != 0; if (!any) continue;   // a pad plane without pads
        if (!plain(*t, [&] { string s = cat("repeats ", what, " all ", all); for (int k : h) s += cat(" ", k / 4, "x", k % 4); return s; })) return false; }
      if (int(h.size()) >= G) return true; for (int k = 0; k < 12; ++k) { h.push_back(k); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
    vector<int> h{k0}; rec(h); });
  // names of detectors
  c.unit("names", [&] { for (auto& b : B) { P d; for (auto& x : b.t->ch[0]->ch) if (x->name == "detectors") d = x; if (b.name == "all" || b.name == "texts" || d->ch.empty()) continue; string g = rr::S(d->ch[0].get(), "geartype"); if (g != "CalorimeterParameters" && g != "ZPlanarParameters") continue; string nm = rr::S(d->ch[0].get(), "name");
      string lo = rr::low(nm), hi = nm; for (char& ch : hi) ch = char(toupper(ch)); for (const string& s : {lo, hi, nm + "_2", "My" + nm, "my " + lo + " copy", "x-" + hi + "-" + lo}) { P t = xt::copy(*b.t); for (auto& x : t->ch[0]->ch) if (x->name == "detectors") for (auto& a : x->ch[0]->at) if (a.first == "name") a.second = "\"" + s + "\""; if (!plain(*t, [&] { return "name " + s; })) return; } } });
}
