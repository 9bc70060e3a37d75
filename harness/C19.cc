// C19: damaged description files are refused cleanly.
#include "rt.h"
#include "full.h"
#include "xmlt.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/stat.h>
#include <malloc.h>
// memory limit: a request that cannot be satisfied raises std::bad_alloc as on a real machine (the sanitizer alone would abort)
static long live = 0; /* since the start of the case */ static const size_t LIMIT = size_t(200) << 20;
static void* get(size_t n) { if (n > LIMIT || live + long(n) > long(LIMIT)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live += long(malloc_usable_size(p)); return p; }
static void put(void* p) { if (p) { live -= long(malloc_usable_size(p)); free(p); } }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C19"; const char* const mc::LEVEL = "fault_enumeration";
const char* const mc::RULE = "case = one damaged file; loaded by the real reader under the address sanitizer with a memory limit: it must load or raise the library's exception (files cut off before the end of the description and elements with a repeated attribute must be refused); after a failure the same reader is asked again with the damaged file and again with the repaired file, and must fail or return the complete geometry; distinct = different damaged files";
const char* const mc::BOUNDS = "19 reference files (every detector type, all four pad layouts, modules with defaults, named parameters, materials, comments, UTF-8 declaration): cut off at every byte; every byte deleted; every byte replaced by each of 5 (quick) / 12 (thorough) characters; every element removed, emptied, unwrapped, renamed, duplicated, replaced by a comment or text of the same name, moved to the top; every attribute removed, renamed, duplicated and its value replaced by each of 18 values; all pairs of attribute faults in the same element (thorough); missing files, directories and empty files";
namespace {
string hand(int i) {
  static const char* H[] = {
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gear>\n <global detectorName=\"\xc3\xa9t\xc3\xa9 \xe2\x82\xac\"/>\n <!-- a comment \xc3\xa9 -->\n <detectors>\n  <detector name=\"TPC\" geartype=\"TPCParameters\">\n   <maxDriftLength value=\"2500.\" />\n   <driftVelocity value=\"\" />\n   <readoutFrequency value=\"10\" />\n   <PadRowLayout2D type=\"FixedPadSizeDiskLayout\" rMin=\"386.0\" rMax=\"486.0\" padHeight=\"6.2\" padWidth=\"2.2\" maxRow=\"15\" padGap=\"0.0\" />\n   <parameter name=\"a\" type=\"double\"> 305.0 </parameter>\n  </detector>\n </detectors>\n</gear>\n",
    "<gear>\n <detectors>\n  <detector name=\"TPC\" geartype=\"TPCParameters\">\n   <maxDriftLength value=\"500.\"/>\n   <coordinateType value=\"cartesian\"/>\n   <modules>\n    <default>\n     <readoutFrequency value=\"20e6\"/>\n     <PadRowLayout2D type=\"RectangularPadRowLayout\" xMin=\"0.0\" xMax=\"20\" yMin=\"5\" repeatRows=\"2\"><row nPad=\"4\" padWidth=\"1.0\" padHeight=\"2\" rowHeight=\"2.5\" leftOffset=\"0.5\" rightOffset=\"0.5\" repeat=\"2\"/></PadRowLayout2D>\n     <enlargeActiveAreaBy value=\"1\"/>\n    </default>\n    <module><moduleID value=\"0\"/><offset x_r=\"10\" y_phi=\"20\"/><angle value=\"0.1\"/></module>\n    <module><moduleID value=\"1\"/><offset x_r=\"10\" y_phi=\"40\"/><zPosition value=\"-5\"/></module>\n   </modules>\n  </detector>\n </detectors>\n</gear>\n",
    "<?xml version='1.0' standalone=\"yes\" ?><!DOCTYPE gear><gear><global detectorName='x'/><BField type=\"ConstantBField\" x=\"0\" y=\"0\" z=\"3.5\"><parameter name=\"p\" type=\"StringVec\" value=\"a &amp; b\"/></BField><GDMLFile name=\"nowhere\"/><detectors><detector name=\"u\" geartype=\"GearParameters\"><parameter name=\"i\" type=\"int\">7</parameter><parameter name=\"d\" type=\"DoubleVec\" value=\"1 2 3\"/></detector><detector name=\"old\"/><detector name=\"VXD\" geartype=\"VXDParameters\"><vxdType technology=\"CCD\"/><shell halfLength=\"1\" gap=\"2\" innerRadius=\"3\" outerRadius=\"4\" radLength=\"5\"/><layers><layer nLadders=\"8\" phi0=\"0\"><ladder distance=\"15\" thickness=\"0.1\" width=\"13\" length=\"50\" offset=\"-1\" radLength=\"9\"/><sensitive distance=\"15\" thickness=\"0.05\" width=\"13\" length=\"50\" offset=\"-1\" radLength=\"9\"/></layer></layers></detector></detectors><materials><material name=\"m\" A=\"1\" Z=\"2\" density=\"3\" radLength=\"4\" intLength=\"5\"/></materials></gear>" };
  return H[i];
}
string reference(Ctx& c, int i) {
  if (i < 3) return hand(i);
  i -= 3; GearMgrImpl m; m.setDetectorName("det & co");
  if (i < 4) full::somePars(full::addTPC(m, i), 0);                                   // the four pad layouts
  else if (i < 13) { static const int D[] = {1, 2, 3, 13, 14, 16, 17, 17, 18}; full::addDet(m, D[i - 4], i == 11 ? 1 : 0); }
  else if (i == 13) { full::somePars(full::addField(m, 1, 2, 3), 0); full::somePars(full::addUser(m, "user"), 1); full::addMaterial(m, "iron", 1, 2, 3, 4, 5); full::addMaterial(m, "air", 1, 2, 3, 4, 5); }
  else if (i == 14) { full::addDet(m, 9); full::addDet(m, 10); full::addDet(m, 11); full::addDet(m, 12); }
  else { full::addDet(m, 15); full::addDet(m, 8); full::addDet(m, 4); }
  string f = c.tmpdir + "/ref.xml"; rt::save(m, f); return rt::slurp(f);
}
const int NREF = 19;
}
void mc::explore(Ctx& c) {
  auto canon = [&](GearMgr& m) { string f = c.tmpdir + "/canon.xml"; rt::Quiet q; rt::save(m, f); return rt::slurp(f); };   // the complete geometry, as written out
  string lastGood, lastCanon;
  auto tryLoad = [&](GearXML& x, std::unique_ptr<GearMgr>& m, string& err) -> int {      // 0 refused, 1 loaded, 2 foreign exception
    rt::Quiet q; try { m.reset(x.createGearMgr()); return 1; } catch (gear::Exception& e) { err = e.what(); return 0; } catch (std::exception& e) { err = cat(typeid(e).name(), " ", e.what()); return 2; } catch (...) { err = "unknown exception type"; return 2; } };
  auto damaged = [&](const string& good, const string& bad, const std::function<string()>& at, bool mustFail = false) {
    string f = c.tmpdir + "/d.xml"; rt::spit(f, bad); c.now(at()); c.state(bad); c.trace();
    live = 0; GearXML x(f); std::unique_ptr<GearMgr> m, m2; string err; int r = tryLoad(x, m, err);
    if (!c.check(r != 2, "foreign-exception", [&] { return at() + ": " + err; })) return;
    if (r == 1) { c.check(m != nullptr, "no-geometry", at); c.check(!mustFail, "incomplete-file-accepted", at); return; }
    r = tryLoad(x, m2, err);
    if (!c.check(r != 1, "partial-geometry-handed-out", [&] { return at() + ": first load failed, second succeeded"; })) return;
    if (!c.check(r != 2, "foreign-exception", [&] { return at() + " (second load): " + err; })) return;
    rt::spit(f, good); r = tryLoad(x, m2, err);
    if (r == 1) { if (lastGood != good) { std::unique_ptr<GearMgr> g = rt::load(f); lastCanon = canon(*g); lastGood = good; } c.check(lastCanon == canon(*m2), "partial-geometry-after-repair", at); }
    c.check(r != 2, "foreign-exception", [&] { return at() + " (repaired file): " + err; }); };
  const char* subs = c.thorough ? "<>\"'&/ =0x\n\xef" : "<>\"&0";
  const vector<string> vals = {"\"\"", "\"garbage\"", "\"-1\"", "\"0\"", "\"1\"", "\"1e308\"", "\"-1e308\"", "\"1e-300\"", "\"nan\"", "\"inf\"", "\"-inf\"", "\"99999999999999999999\"", "\"2147483647\"", "\"-2147483648\"", "\"1000000\"", "\"&#x;\"", "\"&#xZZ;\"", "\"&#x110000;&nope;&\""};
  vector<string> refs; // made inside the units (needs the scratch directory), cached per worker
  auto ref = [&](int i) -> const string& { if (refs.empty()) refs.resize(NREF); if (refs[i].empty()) { refs[i] = reference(c, i); } return refs[i]; };
  for (int i = 0; i < NREF; ++i) {
    c.unit(cat("reference ", i), [&, i] { const string g = ref(i); string f = c.tmpdir + "/d.xml"; rt::spit(f, g); GearXML x(f); std::unique_ptr<GearMgr> m; string err; c.check(tryLoad(x, m, err) == 1, "reference-not-loaded", [&] { return err; }); c.state(g); c.sample(g.substr(0, 300)); });
    for (int part = 0; part < 4; ++part) {
      c.unit(cat("cut off ", i, ".", part), [&, i, part] { const string g = ref(i); const size_t end = g.rfind("</gear"); for (size_t k = part; k < g.size(); k += 4) { damaged(g, g.substr(0, k), [&] { return cat("file ", i, " cut off at byte ", k); }, k <= end); string d = g; d.erase(k, 1); damaged(g, d, [&] { return cat("file ", i, " byte ", k, " deleted"); }); } });
      c.unit(cat("bytes ", i, ".", part), [&, i, part] { const string g = ref(i); for (size_t k = part; k < g.size(); k += 4) for (const char* s = subs; *s; ++s) { if (g[k] == *s) continue; string d = g; d[k] = *s; damaged(g, d, [&] { return cat("file ", i, " byte ", k, " replaced by '", *s, "'"); }); } });
    }
    c.unit(cat("elements ", i), [&, i] { const string g = ref(i); xt::P doc = xt::parse(g); vector<xt::Ref> all; xt::walk(doc.get(), all);
      for (size_t k = 0; k < all.size(); ++k) for (int w = 0; w < 9; ++w) { xt::P d = xt::copy(*doc); vector<xt::Ref> r; xt::walk(d.get(), r); xt::Ref n = r[k]; auto& v = n.parent->ch; string nm = n.node->name; xt::P self = v[n.idx]; string what;
        if (nm.empty() && w > 1) continue;
        switch (w) {
          case 0: what = "removed"; v.erase(v.begin() + n.idx); break;
          case 1: what = "duplicated"; v.insert(v.begin() + n.idx, xt::copy(*self)); break;
          case 2: what = "emptied"; self->ch.clear(); break;
          case 3: what = "renamed"; self->name = nm + "x"; break;
          case 4: { what = "unwrapped"; auto ch = self->ch; v.erase(v.begin() + n.idx); v.insert(v.begin() + n.idx, ch.begin(), ch.end()); break; }
          case 5: { what = "replaced by comment"; xt::P t(new xt::N); t->text = "<!--" + nm + "-->"; v[n.idx] = t; break; }
          case 6: { what = "preceded by comment"; xt::P t(new xt::N); t->text = "<!--" + nm + "-->"; v.insert(v.begin() + n.idx, t); break; }
          case 7: { what = "replaced by text"; xt::P t(new xt::N); t->text = " " + nm + " "; v[n.idx] = t; break; }
          case 8: { what = "moved to the top"; v.erase(v.begin() + n.idx); d->ch.insert(d->ch.begin(), self); break; } }
        damaged(g, xt::print(d), [&] { return cat("file ", i, " element ", k, " <", nm, "> ", what); }); } });
    c.unit(cat("attributes ", i), [&, i] { const string g = ref(i); xt::P doc = xt::parse(g); vector<xt::Ref> all; xt::walk(doc.get(), all);
      for (size_t k = 0; k < all.size(); ++k) for (size_t a = 0; a < all[k].node->at.size(); ++a) for (int w = 0; w < 4 + (int)vals.size(); ++w) { xt::P d = xt::copy(*doc); vector<xt::Ref> r; xt::walk(d.get(), r); auto& at = r[k].node->at; string nm = at[a].first;
        if (w == 0) at.erase(at.begin() + a); else if (w == 1) at[a].first += "x"; else if (w == 2) at.push_back(at[a]); else if (w == 3) at[a].second = at[a].second.substr(1, at[a].second.size() - 2); else at[a].second = vals[w - 4];
        damaged(g, xt::print(d), [&] { return cat("file ", i, " element ", k, " <", r[k].node->name, "> attribute ", nm, " ", w == 0 ? "removed" : w == 1 ? "renamed" : w == 2 ? "duplicated" : w == 3 ? "without quotes" : "= " + vals[w - 4]); }, w == 2); } });
    if (c.thorough) for (int part = 0; part < 8; ++part) c.unit(cat("attribute pairs ", i, ".", part), [&, i, part] { const string g = ref(i); xt::P doc = xt::parse(g); vector<xt::Ref> all; xt::walk(doc.get(), all);
      for (size_t k = part; k < all.size(); k += 8) for (size_t a = 0; a < all[k].node->at.size(); ++a) for (size_t b = a + 1; b < all[k].node->at.size(); ++b) for (size_t x = 0; x < vals.size(); x += 2) for (size_t y = 1; y < vals.size(); y += 2) { xt::P d = xt::copy(*doc); vector<xt::Ref> r; xt::walk(d.get(), r); auto& at = r[k].node->at; at[a].second = vals[x]; at[b].second = vals[y];
        damaged(g, xt::print(d), [&] { return cat("file ", i, " element ", k, " <", r[k].node->name, "> ", at[a].first, " = ", vals[x], ", ", at[b].first, " = ", vals[y]); }); } });
  }
  c.unit("no file", [&] { const string g = ref(0); for (string f : {c.tmpdir + "/none.xml", c.tmpdir, string(""), string("/dev/null"), c.tmpdir + "/none/none.xml"}) { c.now("load " + f.substr(f.rfind('/') == string::npos ? 0 : f.rfind('/'))); GearXML x(f); std::unique_ptr<GearMgr> m; string err; for (int k = 0; k < 2; ++k) c.check(tryLoad(x, m, err) == 0, "foreign-exception", [&] { return "load " + f + ": " + err; }); }
    for (string s : {string(""), string(" "), string("\n"), string("<"), string("<!"), string("<!--"), string("<?"), string("<?xml"), string("<?xml "), string("<?xml?>"), string("<?xml?>\xef"), string("<?xml?>\xef\xbb"), string("\xef\xbb\xbf"), string("\xef\xbb\xbf<gear>\xe2"), string("&"), string("text"), string("<a"), string("<a b"), string("<a b="), string("<a b='"), string("<a b='&#"), string("<a b='&#x"), string("<a b='&#x1"), string("<?xml?><a b='\xf0"), string("<?xml?><a>\xf0\x9f"), string("<a>&#xfffffffff;"), string("<a></b>"), string("<gear/>"), string("<gear><detectors/></gear>"), string("\0\0", 2)}) damaged(g, s, [&] { return "content " + s; }); });
}
