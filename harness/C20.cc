// C20: merging two descriptions keeps everything, the dominant file wins.
#include "rt.h"
#include "full.h"
#include "xmlt.h"
#include "gearxml/MergeXML.h"
#include <map>
#include <unistd.h>
#include <sys/stat.h>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C20"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "case = one pair of description files and a dominance setting (or one history of calls on one merger); merged by the real code, the result loaded and every query compared with the reference merge built item by item; distinct = different (files, dominance)";
const char* const mc::BOUNDS = "26 items (name, field, 2 user sections with 2 parameters, 2 materials, 19 detectors), each in up to 13 states per file (values incl. zero and empty): all pairs of states of one item, both dominance settings; all pairs of 2 items with 3 states each (quick) / up to 5 states each (thorough); hand-written style files (text or attribute values, comments, missing sections, repeated elements in between, comments that read like names) in all combinations; repeated elements which only one of the files has; self-merges; every history of up to 5 (quick) / 6 (thorough) calls over 3 complete files, a damaged one and a missing one; every truncation and single element fault of one input";
namespace {
enum { NAME, FIELD, SECS, SECT, MATM, MATN, DET0, NITEM = DET0 + full::NDET };
struct Desc { int st[NITEM]; Desc() { for (int& s : st) s = 0; st[NAME] = 1; } string key() const { string k; for (int s : st) k += char('0' + s); return k; } };
int nstates(int item) { return item == NAME ? 2 : item == FIELD ? 7 : item == SECS ? 13 : item < DET0 ? 3 : 5; }      // NAME states are 1, 2
// state -> (value variant 1/2, first parameter 0/1/2, second parameter 0/1/2)
struct Val { int v, p, q; };
Val decode(int item, int s) { if (s == 0) return {0, 0, 0}; if (item == FIELD) return {1 + (s - 1) / 3, (s - 1) % 3, 0}; if (item == SECS) return {1, (s - 1) % 3, (s - 1) / 3}; if (item < DET0) return {s, 0, 0}; return {1 + (s - 1) % 2, s > 2 ? 1 + (s - 1) % 2 : 0, 0}; }
void put(GearMgrImpl& m, int item, const Val& x) {
  if (!x.v) return; GearParametersImpl* g = nullptr;
  switch (item) {
    case NAME: m.setDetectorName(x.v == 1 ? "first" : "second <name>"); return;
    case FIELD: g = full::addField(m, x.v == 1 ? 0.1 : 0, 0, x.v == 1 ? 3.5 : 0); break;
    case SECS: g = full::addUser(m, "sec S"); break;
    case SECT: g = full::addUser(m, "T"); g->setIntVal("t", 2 - x.v); break;
    case MATM: case MATN: full::addMaterial(m, item == MATM ? "m" : "n", 2 - x.v, 2 * x.v, 6 - 3 * x.v, 4 * x.v, 5.5 * x.v); return;
    default: g = full::addDet(m, item - DET0, item == DET0 ? (x.v == 1 ? 0 : 4) : item == DET0 + 17 ? (x.v == 1 ? 0 : 2) : x.v - 1); }
  if (x.p) g->setDoubleVal("p", 0.5 * (2 - x.p)); if (x.q) g->setStringVal("q", x.q == 1 ? "one" : x.q == 2 ? "two words" : "");
}
void build(GearMgrImpl& m, const Desc& d) { for (int i = 0; i < NITEM; ++i) put(m, i, decode(i, d.st[i])); }
void buildMerged(GearMgrImpl& m, const Desc& rec, const Desc& dom) { for (int i = 0; i < NITEM; ++i) { Val r = decode(i, rec.st[i]), d = decode(i, dom.st[i]); put(m, i, Val{d.v ? d.v : r.v, d.p ? d.p : r.p, d.q ? d.q : r.q}); } }
string show(const Desc& d) { string r; for (int i = 0; i < NITEM; ++i) if (d.st[i]) r += cat(i == NAME ? "name" : i == FIELD ? "field" : i == SECS ? "S" : i == SECT ? "T" : i == MATM ? "m" : i == MATN ? "n" : full::detName(i - DET0), d.st[i], " "); return r; }
// hand-written style: style bit 0: values as text; 1: comments (repeated); 2: empty sections left out; 3: other elements in between
string hand(const Desc& d, int style) {
  string c = style & 2 ? "<!-- note --><!--parameter--><!--T--><!--m--><!--p-->" : "", o = "<gear>" + c; auto par = [&](const char* n, const char* t, const string& v) { return style & 1 ? v.empty() ? cat("<parameter name=\"", n, "\" type=\"", t, "\" value=\"\"></parameter>") : cat("<parameter name=\"", n, "\" type=\"", t, "\">", v, "</parameter>") : cat("<parameter name=\"", n, "\" type=\"", t, "\" value=\"", v, "\"/>"); };
  if (!(style & 4)) o += "<global detectorName=\"" + string(d.st[NAME] == 1 ? "first" : "second &lt;name>") + "\"/>";
  Val f = decode(FIELD, d.st[FIELD]); if (f.v) o += cat("<BField type=\"ConstantBField\" x=\"", f.v == 1 ? 0.1 : 0, "\" y=\"0\" z=\"", f.v == 1 ? 3.5 : 0, "\">", c, f.p ? par("p", "double", cat(0.5 * (2 - f.p))) : "", "</BField>");
  o += c + "<detectors>" + c; Val s = decode(SECS, d.st[SECS]);
  if (s.v) { o += "<detector name=\"sec S\" geartype=\"GearParameters\">" + c; if (s.p) o += par("p", "double", cat(0.5 * (2 - s.p))); o += c; if (s.q) o += par("q", "string", s.q == 1 ? "one" : s.q == 2 ? "two words" : ""); o += "</detector>" + c; }
  if (style & 8) o += "<detector name=\"ignored\"/>";
  if (d.st[SECT]) o += "<detector name=\"T\" geartype=\"GearParameters\">" + par("t", "int", cat(2 - d.st[SECT])) + "</detector>" + c;
  o += "</detectors>" + c; bool mats = d.st[MATM] || d.st[MATN];
  if (mats || !(style & 4)) { o += "<materials>" + c; for (int i : {MATM, MATN}) if (int v = d.st[i]) o += cat("<material name=\"", i == MATM ? "m" : "n", "\" A=\"", 2 - v, "\" Z=\"", 2 * v, "\" density=\"", 6 - 3 * v, "\" radLength=\"", 4 * v, "\" intLength=\"", 5.5 * v, "\"/>", c); o += "</materials>"; }
  return o + "</gear>\n";
}
}
void mc::explore(Ctx& c) {
  auto dump = [](const GearMgr& m) { dmp::Dump d; dmp::mgr(d, m); return d; };
  const auto path = [&](const char* n) { return c.tmpdir + "/" + n; };
  std::map<string, string> files;     // text of the description files of this worker
  auto text = [&](const Desc& d) -> const string& { string& s = files[d.key()]; if (s.empty()) { GearMgrImpl m; build(m, d); rt::save(m, path("b.xml")); s = rt::slurp(path("b.xml")); } return s; };
  // merge two texts with a fresh merger: 1 merged, 0 refused
  auto merge = [&](const string& a, const string& b, int dom, string& out, string& err) -> int {
    rt::spit(path("1.xml"), a); rt::spit(path("2.xml"), b); std::remove(path("o.xml").c_str()); rt::Quiet q; MergeXML x; bool o1 = x.setFile1(path("1.xml")), o2 = x.setFile2(path("2.xml")); if (dom) x.makeDominant(dom);
    int r = 0; try { r = x.mergeFiles(path("o.xml")); } catch (gear::Exception& e) { err = e.what(); }
    if (r) out = rt::slurp(path("o.xml"));
    if (!(o1 && o2) && r) { err = "merge reported success although an input could not be read"; return 2; }
    if (rt::slurp(path("1.xml")) != a || rt::slurp(path("2.xml")) != b) { err = "input files changed"; return 2; }
    return r; };
  auto compare = [&](const string& a, const string& b, int dom, GearMgr& want, const std::function<string()>& at) {
    c.now(at()); c.state(cat(a, "\x01", b, dom)); c.trace(); string out, err; int r = merge(a, b, dom, out, err);
    if (!c.check(r == 1, r == 2 ? "inputs-mishandled" : "merge-refused", [&] { return at() + ": " + err; })) return;
    rt::spit(path("o.xml"), out); std::unique_ptr<GearMgr> got; try { got = rt::load(path("o.xml")); } catch (gear::Exception& e) { c.fail("merged-file-not-readable", at() + ": " + e.what()); return; }
    dmp::Dump w = dump(want), g = dump(*got); string d = dmp::diff(w, g, 1e-9); c.transitions(w.v.size()); c.check(d.empty(), "merge-differs", [&] { return at() + ": " + d; }); };
  auto pairCase = [&](const Desc& a, const Desc& b, int dom) { GearMgrImpl want; const Desc& D = dom == 1 ? a : b; const Desc& R = dom == 1 ? b : a; buildMerged(want, R, D); compare(text(a), text(b), dom, want, [&] { return cat("file1 { ", show(a), "} file2 { ", show(b), "} dominant ", dom ? cat(dom) : string("default")); }); };
  auto selfCase = [&](const Desc& a, int dom) { const string& t = text(a); c.now("self merge " + show(a)); string out, err; int r = merge(t, t, dom, out, err); c.state(cat("self", dom, t)); c.trace(); if (c.check(r == 1, "self-merge-refused", [&] { return show(a) + ": " + err; })) c.check(out == t, "self-merge-changes-file", [&] { return show(a) + ": " + rt::firstDiff(t, out); }); };
  auto states = [&](int item, int max) { vector<int> v; int n = nstates(item); for (int s = item == NAME ? 1 : 0; s < n + (item == NAME ? 1 : 0) && (int)v.size() < max; ++s) v.push_back(s); return v; };
  auto background = [](Desc& d, int other) { if (other == 1) { d.st[SECT] = 1; d.st[MATN] = 2; } };
  for (int i = 0; i < NITEM; ++i) c.unit(cat("item ", i), [&, i] { vector<int> S = states(i, 99); for (int s : S) for (int t : S) for (int bg = 0; bg < 2; ++bg) for (int dom = 0; dom < 3; ++dom) { Desc a, b; a.st[i] = s; b.st[i] = t; background(a, bg); background(b, 1 - bg); if (i != NAME) b.st[NAME] = 2; pairCase(a, b, dom); if (s == t && dom && bg) selfCase(a, dom); } c.sample(show([&] { Desc a; a.st[i] = S.back(); return a; }())); });
  const int maxs = c.thorough ? 5 : 3;
  for (int i = 0; i < NITEM; ++i) for (int j = i + 1; j < NITEM; ++j) { if (!c.thorough && i >= DET0 && (j - i) % 4) continue;
    c.unit(cat("items ", i, " ", j), [&, i, j] { for (int s : states(i, maxs)) for (int t : states(i, maxs)) for (int u : states(j, maxs)) for (int v : states(j, maxs)) { Desc a, b; a.st[i] = s; b.st[i] = t; a.st[j] = u; b.st[j] = v; pairCase(a, b, 1 + (s + t + u + v) % 2); } }); }
  // everything present in both, or alternating
  c.unit("complete files", [&] { for (int k = 0; k < 6; ++k) for (int dom = 1; dom < 3; ++dom) { Desc a, b; for (int i = 0; i < NITEM; ++i) { auto S = states(i, 99); int x = S[(i + k) % S.size()], y = S[(i * 3 + 2 * k + 1) % S.size()]; a.st[i] = k < 2 ? S.back() : x; b.st[i] = k < 2 ? S[S.size() / 2] : y; if (k >= 4 && i != NAME) (i % 2 == k % 2 ? a : b).st[i] = 0; } pairCase(a, b, dom); selfCase(a, dom); selfCase(b, dom); } });
  // files written by hand
  for (int s1 = 0; s1 < 16; ++s1) c.unit(cat("hand-written ", s1), [&, s1] { for (int s2 = 0; s2 < 16; ++s2) for (int k = 0; k < (c.thorough ? 90 : 30); ++k) { Desc a, b; a.st[SECS] = k % 10; b.st[SECS] = (k * 7 + k / 10 + 3) % 10; a.st[SECT] = k % 3; b.st[SECT] = k / 3 % 3; a.st[MATM] = (k + 1) % 3; b.st[MATM] = (k / 2) % 3; b.st[MATN] = k % 2; a.st[FIELD] = k % 7; b.st[FIELD] = (k * 3 + 1) % 7; b.st[NAME] = 2;
      for (int dom = 1; dom < 3; ++dom) { const Desc &D = dom == 1 ? a : b, &R = dom == 1 ? b : a; bool nd = !((dom == 1 ? s1 : s2) & 4), nr = !((dom == 1 ? s2 : s1) & 4); Desc r2 = R, d2 = D; GearMgrImpl want; if (!nd) d2.st[NAME] = 0; if (!nr) r2.st[NAME] = 0; buildMerged(want, r2, d2);
        compare(hand(a, s1), hand(b, s2), dom, want, [&] { return cat("styles ", s1, " ", s2, " file1 { ", show(a), "} file2 { ", show(b), "} dominant ", dom); }); } } });
  // repeated elements that do not follow each other keep their own attributes in a self-merge
  c.unit("elements in between", [&] { for (const char* mid : {"", "<!-- x -->", "<parameter name=\"k\" type=\"int\" value=\"3\"/>", "<maxDriftLength value=\"9\"/>"}) for (const char* at : {"", " moduleIDStartCount=\"5\""}) for (int swap = 0; swap < 2; ++swap) for (int dom = 1; dom < 3; ++dom) {
      auto mods = [](const string& a, int x) { return cat("<modules", a, "><module><PadRowLayout2D type=\"FixedPadAngleDiskLayout\" rMin=\"10\" rMax=\"20\" phiMin=\"0\" phiMax=\"1\" nRow=\"2\" nPadsInRow=\"3\" /><readoutFrequency value=\"1\"/><offset x_r=\"", x, "\" y_phi=\"0\"/></module></modules>"); };
      string m1 = mods(swap ? at : "", 3), m2 = mods(swap ? " moduleIDStartCount=\"7\"" : " moduleIDStartCount=\"9\"", 40); string t = cat("<gear><detectors><detector name=\"TPC\" geartype=\"TPCParameters\"><coordinateType value=\"cartesian\"/>", mid[0] == '<' && mid[1] == 'm' ? "" : "<maxDriftLength value=\"9\"/>", m1, mid, m2, "</detector></detectors></gear>\n");
      c.now(t); rt::spit(path("b.xml"), t); std::unique_ptr<GearMgr> want = rt::load(path("b.xml")); compare(t, t, dom, *want, [&] { return "self merge of " + t; }); } });
  // repeated elements of a detector that only one file has arrive completely, whatever else the other file says about the detector
  c.unit("repeated elements in one file only", [&] { const char* small[3] = {"<coordinateType value=\"cartesian\"/>", "<maxDriftLength value=\"9\"/>", "<!--T--><!--T-->"};
    auto mods = [](int n) { string r; for (int k = 0; k < n; ++k) r += cat("<modules moduleIDStartCount=\"", 10 * k, "\"><module><PadRowLayout2D type=\"FixedPadAngleDiskLayout\" rMin=\"", 10 + 20 * k, "\" rMax=\"", 20 + 20 * k, "\" phiMin=\"0\" phiMax=\"1\" nRow=\"2\" nPadsInRow=\"3\" /><readoutFrequency value=\"1\"/><offset x_r=\"", 3 * k, "\" y_phi=\"0\"/></module></modules>"); return r; };
    for (int n = 1; n <= 3; ++n) for (int D = 0; D < 8; ++D) for (int R = 0; R < 8; ++R) for (int dm = 0; dm < 2; ++dm) for (int dom = 1; dom < 3; ++dom) { if (((D | R) & 3) != 3) continue;
      auto doc = [&](int set, bool m) { string t = "<gear><detectors><detector name=\"T\" geartype=\"TPCParameters\">"; for (int k = 0; k < 3; ++k) if (set >> k & 1) t += small[k]; return t + (m ? mods(n) : "") + "</detector></detectors></gear>\n"; };
      string d = doc(D, dm), r = doc(R, !dm); rt::spit(path("b.xml"), doc(3, true)); std::unique_ptr<GearMgr> want = rt::load(path("b.xml")); compare(dom == 1 ? d : r, dom == 1 ? r : d, dom, *want, [&] { return cat("dominant ", dom, " ", d, " with ", r); }); } });
  // histories of calls on one merger
  { const int D = c.thorough ? 6 : 5; enum { A1, B1, C2, B2, BAD1, MISS2, DOM1, DOM2, DOM7, MERGE, NOP };
    auto docs = [&](vector<string>& f) { Desc a, b, d; a.st[SECS] = 2; a.st[MATM] = 1; b.st[SECS] = 4; b.st[SECT] = 2; b.st[NAME] = 2; d.st[SECT] = 1; d.st[MATM] = 2; d.st[FIELD] = 1; f = {text(a), text(b), text(d)}; string bad = f[0]; bad.resize(bad.rfind("</gear>")); f.push_back(bad); };
    for (int first = 0; first < NOP; ++first) for (int second = 0; second < NOP; ++second) c.unit(cat("history ", first, " ", second), [&, first, second] {
      vector<string> f; docs(f); for (int i = 0; i < 4; ++i) rt::spit(path(cat("h", i, ".xml").c_str()), f[i]); std::map<string, string> ref;
      auto want = [&](int x, int y, int dom) -> const string& { string k = cat(x, y, dom); auto it = ref.find(k); if (it == ref.end()) { string out, err; int r = (x < 0 || y < 0 || x == 3 || y == 3) ? 0 : merge(f[x], f[y], dom, out, err); it = ref.insert({k, r == 1 ? out : ""}).first; } return it->second; };
      long total = 1; for (int k = 2; k < D - 1; ++k) total *= NOP;
      for (long n = 0; n < total; ++n) { vector<int> ops = {first, second}; long z = n; for (int k = 2; k < D - 1; ++k) { ops.push_back(z % NOP); z /= NOP; } ops.push_back(MERGE);   // every history ends with a merge
        rt::Quiet q; MergeXML x; int f1 = -1, f2 = -1, dom = 2; string h; bool stop = false;
        for (int o : ops) { h += cat(o, " "); switch (o) {
            case A1: case B1: case BAD1: f1 = o == A1 ? 0 : o == B1 ? 1 : 3; stop = !c.check(x.setFile1(path(cat("h", f1, ".xml").c_str())) == (f1 != 3), "setFile-answer", [&] { return "history " + h; }); break;
            case C2: case B2: f2 = o == C2 ? 2 : 1; stop = !c.check(x.setFile2(path(cat("h", f2, ".xml").c_str())), "setFile-answer", [&] { return "history " + h; }); break;
            case MISS2: f2 = -1; stop = !c.check(!x.setFile2(path("missing.xml")), "setFile-answer", [&] { return "history " + h; }); break;
            case DOM1: dom = 1; x.makeDominant(1); break; case DOM2: dom = 2; x.makeDominant(2); break; case DOM7: x.makeDominant(7); break;
            case MERGE: { std::remove(path("o2.xml").c_str()); c.now("history " + h); bool r = false; try { r = x.mergeFiles(path("o2.xml")); } catch (gear::Exception&) {} const string& w = want(f1, f2, dom); stop = !c.check(r == !w.empty(), "merge-answer", [&] { return cat("history ", h, ": merge reported ", r); }) || (r && !c.check(rt::slurp(path("o2.xml")) == w, "merge-depends-on-history", [&] { return "history " + h; })); break; } }
          c.transitions(); if (stop) break; }
        c.trace(); c.state("history " + h); } }); }
  // damaged inputs
  for (int w = 0; w < 2; ++w) for (int part = 0; part < 4; ++part) c.unit(cat("damaged file ", w + 1, ".", part), [&, w, part] { Desc a, b; a.st[SECS] = 5; a.st[SECT] = 1; a.st[FIELD] = 3; a.st[MATM] = 1; a.st[DET0 + 1] = 3; a.st[DET0 + 13] = 1; b = a; b.st[SECS] = 9; b.st[MATN] = 2;
      const string ga = text(a), gb = text(b); const string& good = w ? gb : ga;
      auto bad = [&](const string& d, const std::function<string()>& at) { c.now(at()); c.state(d + cat(w)); c.trace(); for (int dom = 1; dom < 3; ++dom) { string out, err; int r = merge(w ? ga : d, w ? d : gb, dom, out, err); c.check(r != 2, "inputs-mishandled", [&] { return at() + ": " + err; }); } };
      for (size_t k = part; k < good.size(); k += 4) bad(good.substr(0, k), [&] { return cat("file ", w + 1, " cut off at byte ", k); });
      xt::P doc = xt::parse(good); vector<xt::Ref> all; xt::walk(doc.get(), all);
      for (size_t k = part; k < all.size(); k += 4) for (int f = 0; f < 6; ++f) { xt::P d = xt::copy(*doc); vector<xt::Ref> r; xt::walk(d.get(), r); auto& v = r[k].parent->ch; size_t i = r[k].idx; xt::P self = v[i]; if (self->name.empty() && f > 1) continue;
        if (f == 0) v.erase(v.begin() + i); else if (f == 1) v.insert(v.begin() + i, xt::copy(*self)); else if (f == 2) self->ch.clear(); else if (f == 3) self->name += "x"; else if (f == 4) self->at.clear(); else { xt::P t(new xt::N); t->text = "<!--" + self->name + "-->"; v[i] = t; }
        bad(xt::print(d), [&] { return cat("file ", w + 1, " element ", k, " <", self->name, "> fault ", f); }); } });
  c.unit("no files", [&] { rt::Quiet q; Desc a; rt::spit(path("1.xml"), text(a)); for (int k = 0; k < 4; ++k) { c.now(cat("inputs set ", k)); MergeXML x; if (k & 1) x.setFile1(path("1.xml")); if (k & 2) x.setFile2(path("1.xml")); bool r = false; try { r = x.mergeFiles(path("o3.xml")); } catch (gear::Exception&) {} c.check(r == (k == 3), "merge-answer", [&] { return cat("inputs set ", k); }); }
    for (string o : {c.tmpdir, c.tmpdir + "/none/o.xml", string("")}) { c.now("output " + o); MergeXML x; x.setFile1(path("1.xml")); x.setFile2(path("1.xml")); bool r = false; try { r = x.mergeFiles(o); } catch (gear::Exception&) {} c.check(!r, "merge-answer", [&] { return "unwritable output reported as success: " + o; }); } });
}
