// C37: reading, writing, merging and printing do not depend on what was done before in the same program.
#include "rt.h"
#include "full.h"
#include "gearimpl/Util.h"
#include "gearxml/MergeXML.h"
#include "gearxml/tinyxml.h"
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C37"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = the geometries alive; what every operation gives (the geometry read, every byte written or printed, the text of a refusal) is taken beforehand from a program that does nothing else; then every history runs (all those that begin with the same operation one after the other in one program) and every operation must give the same, and after it every geometry alive must be as it was";
const char* const mc::BOUNDS = "every history of 2 (for 4 of the groups of files: 3; thorough: 3, for 1 of the groups: 4) of 18 operations {read one of 4 files, make a geometry in the program, read a damaged file (3 ways), read a missing one, write the newest, write into a missing directory, write what cannot be written, merge two files, merge with a damaged one, print the newest, drop the oldest, parse a damaged document, replace the newest's items} over 11 groups of files that together have every detector type and variant; every single fault (attribute missing, empty or other, element renamed or removed) of a file, then for each of the 4 sound files: reading it and another one, the damaged one again (writing after the first)";
namespace {
const int CONTENTS = 5;                      // 0..3 files, 4 made in the program
struct World { string dir; int group; string f(const string& n) const { return dir + "/" + n; } };
// four descriptions per group; every detector type occurs, in different variants
void fill(GearMgrImpl& m, int group, int k) {
  static const vector<vector<int>> sets = {{0}, {0, 1, 2}, {13, 14}, {15, 16}, {17}, {18}, {3, 4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {0, 13, 16, 17}, {}};
  if (group == 10) { m.setDetectorName(cat("det", k)); for (int d = 0; d < 2; ++d) { GearParametersImpl* p = full::addUser(m, cat("s", d)); switch ((k + d) % 4) { case 0: p->setStringVals("list", {"a", cat(k)}); break; case 1: p->setDoubleVals("list", {0.5, k + 1.25}); break; case 2: p->setIntVals("list", {k, 7, -3}); break; case 3: p->setStringVal("text", cat("value ", k)); } if (d) p->setStringVals("more", {"u", "v"}); } return; }
  m.setDetectorName(cat("det", group, k)); if (k != 2) full::somePars(full::addField(m, 0.5 * k, 0, 3 + k), k % 2); int v = k;
  for (int d : sets[group]) if (!(k == 1 && d == sets[group].back() && sets[group].size() > 1)) { GearParametersImpl* p = full::addDet(m, d, d == 0 ? (group + v) % 4 : v % 2); if ((d + k) % 2) full::somePars(p, k % 2); else p->setDoubleVal("only", k + 0.125); }
  if (k != 3) { full::somePars(full::addUser(m, cat("user", k)), 1); full::addUser(m, "all")->setStringVals("s", {"x", "y", cat(k)}); } full::addMaterial(m, "iron", 55 + k, 26, 7.5, 17, 168); if (k == 3) full::addMaterial(m, "argon", 39.9, 18, 1.66, 1e5, 7e5); }
string dump(const GearMgr& m) { dmp::Dump d; dmp::mgr(d, m); return d.canon(); }
string print(const GearMgr& m) { std::ostringstream o; o << m; return o.str(); }
struct Live { std::unique_ptr<GearMgr> m; int k; };
enum { LOAD0, LOAD1, LOAD2, LOAD3, MAKE, CUT, WRONG, LATE, MISSING, SAVE, NODIR, CANNOT, MERGE, MERGEBAD, PRINT, DROP, PARSE, SECOND, NOPS };
const char* NAMES[] = {"read file 0", "read file 1", "read file 2", "read file 3", "make one", "read a file cut off", "read a file with an unknown technology", "read a file with a fault at its end", "read a missing file", "write the newest", "write into a missing directory", "write what cannot be written", "merge 0 and 1", "merge 0 and a damaged file", "print the newest", "drop the oldest", "parse a damaged document", "read file 0 with the reader used before"};
struct Strange : ConstantBField { Strange() : ConstantBField(Vector3D(0, 0, 1)) {} Vector3D at(Vector3D p) const override { return p; } };
string quote(const std::function<void()>& f) { try { f(); return "nothing refused"; } catch (gear::Exception& e) { return string("refused: ") + e.what(); } catch (std::exception& e) { return string("other: ") + e.what(); } }
// performs one operation; the text is everything it gave.  Live geometries are appended to / taken from l.
string perform(const World& w, int op, vector<Live>& l, std::unique_ptr<GearXML>& reader) { rt::Quiet q;
  switch (op) {
    case LOAD0: case LOAD1: case LOAD2: case LOAD3: { string r; string e = quote([&] { reader.reset(new GearXML(w.f(cat(op, ".xml")))); std::unique_ptr<GearMgr> m(reader->createGearMgr()); r = dump(*m); l.push_back({std::move(m), op}); }); return r + e; }
    case SECOND: { if (!reader) return "no reader"; return quote([&] { std::unique_ptr<GearXML> x(new GearXML(w.f("0.xml"))); reader.swap(x); x.reset(); std::unique_ptr<GearMgr> m(reader->createGearMgr()); }); }
    case MAKE: { GearMgrImpl* m = new GearMgrImpl; std::unique_ptr<GearMgr> u(m); fill(*m, w.group, 2); m->setDetectorName("made"); string r = dump(*u); l.push_back({std::move(u), 4}); return r; }
    case CUT: case WRONG: case LATE: case MISSING: return quote([&] { GearXML x(w.f(op == CUT ? "cut.xml" : op == WRONG ? "wrong.xml" : op == LATE ? "late.xml" : "missing.xml")); std::unique_ptr<GearMgr> m(x.createGearMgr()); });
    case SAVE: { if (l.empty()) return "none"; ::unlink(w.f("out.xml").c_str()); string e = quote([&] { GearXML::createXMLFile(l.back().m.get(), w.f("out.xml")); }); return e + rt::slurp(w.f("out.xml")); }
    case NODIR: { if (l.empty()) return "none"; return quote([&] { GearXML::createXMLFile(l.back().m.get(), w.f("no/such/out.xml")); }); }
    case CANNOT: return quote([&] { GearMgrImpl m; fill(m, w.group, 0); m.setBField(new Strange); GearXML::createXMLFile(&m, w.f("cannot.xml")); });
    case MERGE: case MERGEBAD: { ::unlink(w.f("merged.xml").c_str()); string r; string e = quote([&] { MergeXML x; bool a = x.setFile1(w.f("0.xml")), b = x.setFile2(w.f(op == MERGE ? "1.xml" : "cut.xml")); x.makeDominant(1); r = cat(a, b); r += cat(x.mergeFiles(w.f("merged.xml"))); }); return r + e + rt::slurp(w.f("merged.xml")); }
    case PRINT: return l.empty() ? "none" : print(*l.back().m);
    case DROP: if (!l.empty()) l.erase(l.begin()); return "";
    case PARSE: { TiXmlDocument d; d.Parse("<a b='1'><c>t &amp; u</c><d></a>"); std::ostringstream o; o << d.Error() << d.ErrorId() << d.ErrorDesc() << d.ErrorRow() << " " << d.ErrorCol(); return o.str(); }
  } return "?"; }
// runs f in a program that has done nothing else; what it gave
string fresh(const World& w, const std::function<string()>& f) { const string out = w.f("fresh.txt"); ::unlink(out.c_str()); pid_t p = fork(); if (p == 0) { rt::spit(out, "=" + f()); _exit(0); } int st; waitpid(p, &st, 0); string s = rt::slurp(out); return WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.empty() ? s.substr(1) : cat("the program ended with status ", st); }
struct Expect { string content[CONTENTS], bytes[CONTENTS], printed[CONTENTS], nodir[CONTENTS], other[NOPS]; };
void make(const World& w, Expect& e) {
  std::unique_ptr<GearXML> none;
  fresh(w, [&] { rt::Quiet q; for (int k = 0; k < 4; ++k) { GearMgrImpl m; fill(m, w.group, k); GearXML::createXMLFile(&m, w.f(cat(k, ".xml"))); } return string(); });
  string t = rt::slurp(w.f("0.xml")); rt::spit(w.f("cut.xml"), t.substr(0, t.size() * 2 / 3)); string u = t; size_t at; while ((at = u.find("geartype=\"")) != string::npos && u.find("geartype=\"Un") == string::npos) u.replace(at, 10, "geartype=\"Un"); rt::spit(w.f("wrong.xml"), u); u = t; at = u.rfind("density="); if (at != string::npos) u.replace(at, 7, "dense--"); rt::spit(w.f("late.xml"), u);
  // a file in other spelling: file 3 with single quotes, line ends CR LF
  t = rt::slurp(w.f("3.xml")); u.clear(); for (char c : t) u += c == '"' ? '\'' : c; t.clear(); for (char c : u) t += c == '\n' ? string("\r\n") : string(1, c); rt::spit(w.f("3.xml"), t);
  t = rt::slurp(w.f("1.xml")); rt::spit(w.f("1.xml"), "\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + t);
  for (int k = 0; k < CONTENTS; ++k) { e.content[k] = fresh(w, [&] { vector<Live> l; std::unique_ptr<GearXML> r; return perform(w, k, l, r); }); auto after = [&](int op) { return fresh(w, [&, op] { vector<Live> l; std::unique_ptr<GearXML> r; perform(w, k, l, r); return perform(w, op, l, r); }); }; e.bytes[k] = after(SAVE); e.printed[k] = after(PRINT); e.nodir[k] = after(NODIR); }
  for (int op : {CUT, WRONG, LATE, MISSING, CANNOT, MERGE, MERGEBAD, PARSE}) e.other[op] = fresh(w, [&] { vector<Live> l; std::unique_ptr<GearXML> r; return perform(w, op, l, r); }); }
string clean(const string& s) { return s.substr(0, s.find(';') == string::npos ? 200 : 200); }
// "" or what is wrong; a program of its own runs this
string run(const World& w, const Expect& e, const vector<int>& h, uint64_t& steps) { vector<Live> l; std::unique_ptr<GearXML> reader; string s;
  auto one = [&](int op) -> string { int k = l.empty() ? -1 : l.back().k; bool had = bool(reader); string r = perform(w, op, l, reader); ++steps; string want = op < CONTENTS ? e.content[op] : op == SAVE ? k < 0 ? "none" : e.bytes[k] : op == PRINT ? k < 0 ? "none" : e.printed[k] : op == NODIR ? k < 0 ? "none" : e.nodir[k] : op == DROP ? "" : op == SECOND ? had ? "nothing refused" : "no reader" : e.other[op];
    if (r != want) return string(NAMES[op]) + " gives something else than at first: " + rt::firstDiff(want, r);
    for (auto& x : l) { string d = dump(*x.m); ++steps; const string& was = e.content[x.k]; if (d != was && d + "nothing refused" != was) return string(NAMES[op]) + " changed another geometry: " + rt::firstDiff(was, d); } return ""; };
  for (int op : h) { s = one(op); if (!s.empty()) return s; }
  return ""; }
string show(const vector<int>& h) { string s; for (int o : h) s += string(NAMES[o]) + "; "; return s; }
}
void mc::explore(Ctx& c) {
  static int have = -1; static vector<std::unique_ptr<Expect>> ex(11);
  for (int g = 0; g < 11; ++g) for (int a = 0; a < NOPS; ++a) c.unit(cat("files ", g, ", ", NAMES[a], ", ..."), [&, g, a] {
    const int L = c.thorough ? (g == 3 ? 4 : 3) : (g == 1 || g == 3 || g == 5 || g == 9 ? 3 : 2); World w{c.tmpdir, g}; if (have != g) { have = g; ex[g].reset(new Expect); make(w, *ex[g]); }
    const Expect& e = *ex[g]; for (int k = 0; k < CONTENTS; ++k) if (!c.check(e.content[k].size() > 100 && e.bytes[k].size() > 100 && e.printed[k].size() > 100 && e.content[k].find("refused: ") == string::npos, "nothing-to-compare", [&] { return cat("content ", k, ": ", e.content[k].substr(0, 200), " / ", e.bytes[k].substr(0, 100), " / ", e.printed[k].substr(0, 100)); })) return;
    // all histories of a unit run one after the other in one program, which has done nothing before
    const string out = w.f("result.txt"); ::unlink(out.c_str()); pid_t p = fork();
    if (p == 0) { uint64_t n = 0, k = 0; string bad; std::function<bool(vector<int>&)> rec = [&](vector<int>& h) -> bool { if (int(h.size()) == L) { ++k; c.now(show(h)); string s; try { s = run(w, e, h, n); } catch (std::exception& x) { s = string("exception ") + x.what(); } if (!s.empty()) bad = show(h) + s; return s.empty(); } for (int o = 0; o < NOPS; ++o) { h.push_back(o); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
      vector<int> h{a}; rec(h); rt::spit(out, cat(n, " ", k, "\n") + bad); _exit(0); }
    int st = 0; waitpid(p, &st, 0); string r = rt::slurp(out); bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !r.empty(); size_t nl = r.find('\n'), sp = r.find(' '); if (fine) { c.transitions(atol(r.c_str())); uint64_t n = atol(r.c_str() + sp); c.trace(n); for (uint64_t i = 0; i < n; ++i) c.state(cat(g, " ", a, " ", i)); }
    c.check(fine && nl + 1 == r.size(), fine ? "depends-on-history" : "crash", [&] { return fine ? r.substr(nl + 1) : cat("the program ended with status ", st); });
    if (g == 0 && a < 3) c.sample(show({a}) + "... every continuation"); });
  // every fault of one attribute or element in a file, then the sound files
  for (int g = 0; g < 11; ++g) for (int part = 0; part < 8; ++part) c.unit(cat("files ", g, ", faults ", part, ", then the sound files"), [&, g, part] {
    World w{c.tmpdir, g}; if (have != g) { have = g; ex[g].reset(new Expect); make(w, *ex[g]); } const Expect& e = *ex[g];
    vector<std::pair<string, string>> F; const string t = rt::slurp(w.f("0.xml"));
    for (size_t i = 0; (i = t.find("=\"", i)) != string::npos; ++i) { size_t b = i; while (t[b - 1] != ' ' && t[b - 1] != '<') --b; size_t z = t.find('"', i + 2); string n = t.substr(b, i - b); F.push_back({cat("without ", n, " at ", b), t.substr(0, b) + t.substr(z + 1)}); F.push_back({cat(n, " at ", b, " empty"), t.substr(0, i + 2) + t.substr(z)}); F.push_back({cat(n, " at ", b, " other"), t.substr(0, i + 2) + "other" + t.substr(z)}); }
    for (size_t i = 0; (i = t.find('<', i)) != string::npos; ++i) { if (!isalpha((unsigned char)t[i + 1])) continue; size_t z = i + 1; while (isalnum((unsigned char)t[z]) || t[z] == '_') ++z; F.push_back({cat(t.substr(i, z - i), " at ", i, " renamed"), t.substr(0, z) + "X" + t.substr(z)}); size_t q = t.find('>', i); if (t[q - 1] == '/') F.push_back({cat(t.substr(i, z - i), " at ", i, " removed"), t.substr(0, i) + t.substr(q + 1)}); }
    const string out = w.f("result.txt"); ::unlink(out.c_str()); pid_t p = fork();
    if (p == 0) { uint64_t n = 0; string bad; for (size_t k = part; k < F.size() && bad.empty(); k += 8) { c.now(F[k].first); ++n; rt::spit(w.f("fault.xml"), F[k].second); string first, again, d; auto rd = [&] { rt::Quiet q; string r; string x = quote([&] { GearXML g1(w.f("fault.xml")); std::unique_ptr<GearMgr> m(g1.createGearMgr()); r = dump(*m); }); return r + x; };
        first = rd(); for (int j = 0; j < 4 && bad.empty(); ++j) { vector<Live> l; std::unique_ptr<GearXML> reader; for (int op : {j, (j + 1) % 4}) { d = perform(w, op, l, reader); if (d != e.content[op]) { bad = F[k].first + ", then " + NAMES[op] + ": something else than at first: " + rt::firstDiff(e.content[op], d); break; } } if (!bad.empty()) break; if (j == 0) { d = perform(w, SAVE, l, reader); if (d != e.bytes[l.back().k]) { bad = F[k].first + ": then writing gives something else: " + rt::firstDiff(e.bytes[l.back().k], d); break; } } again = rd(); if (first != again) bad = F[k].first + ": something else the second time: " + rt::firstDiff(first, again); } }
      rt::spit(out, cat(n, "\n") + bad); _exit(0); }
    int st = 0; waitpid(p, &st, 0); string r = rt::slurp(out); bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !r.empty(); size_t nl = r.find('\n'); if (fine) { uint64_t n = atol(r.c_str()); c.transitions(14 * n); c.trace(n); for (uint64_t i = 0; i < n; ++i) c.state(cat("fault ", g, " ", part, " ", i)); }
    c.check(fine && nl + 1 == r.size(), fine ? "depends-on-history" : "crash", [&] { return fine ? r.substr(nl + 1) : cat("the program ended with status ", st); }); });
}
