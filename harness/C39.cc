// C39: the material services of a geometry are those the plugin makes for the file named in the description.
#include "rt.h"
#include "full.h"
#include "gear/GearMaterialProperties.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
#include <cstring>
#include <dlfcn.h>
#include <map>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C39"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = what the plugin library does at the moment, the geometries alive and the services each of them must hold (reference model); the loader call is replaced by one that gives a library made by the harness, so every history runs on the real reader; after every step the plugin's log, the services every geometry hands out, the services alive and the rest of every geometry are compared with the model";
const char* const mc::BOUNDS = "every history up to length 4 (quick) / 5 (thorough) of 22 operations: the library becomes {absent, one without a factory, sound, one whose point service is missing, whose distance service is missing, whose initialisation is refused by the library, fails otherwise, whose factory fails}; read {no reference, one of two files, name with special characters, empty name, reference without name, reference and a later fault, two references, reference at the end, reference between comments}; ask the reader again; drop the oldest; give the newest services by hand; take its services away";
namespace {
// ---- the plugin ----------------------------------------------------------------------------------
struct Events { vector<string> log; int alive = 0; bool twice = false; } ev;
struct Service { string file; int magic; Service(const string& f) : file(f), magic(77) { ++ev.alive; } ~Service() { if (magic != 77) ev.twice = true; magic = 0; --ev.alive; } Service(const Service&) = delete; };
const vector<string> NONE; const vector<double> NONED; const string EMPTY;
struct Point : GearPointProperties, Service { Point(const string& f) : Service(f) {}
  long64 getCellID(const Vector3D&) const override { return 0; } const string& getMaterialName(const Vector3D&) const override { return file; } double getDensity(const Vector3D& p) const override { return p[0] + file.size(); } double getTemperature(const Vector3D&) const override { return 0; } double getPressure(const Vector3D&) const override { return 0; } double getRadlen(const Vector3D&) const override { return 0; } double getIntlen(const Vector3D&) const override { return 0; }
  Vector3D getLocalPosition(const Vector3D& p) const override { return p; } Vector3D getB(const Vector3D& p) const override { return p; } Vector3D getE(const Vector3D& p) const override { return p; } vector<string> getListOfLogicalVolumes(const Vector3D&) const override { return NONE; } vector<string> getListOfPhysicalVolumes(const Vector3D&) const override { return NONE; } string getRegion(const Vector3D&) const override { return file; } bool isTracker(const Vector3D&) const override { return false; } bool isCalorimeter(const Vector3D&) const override { return false; } };
struct Distance : GearDistanceProperties, Service { vector<string> names; Distance(const string& f) : Service(f), names(1, f) {}
  const vector<string>& getMaterialNames(const Vector3D&, const Vector3D&) const override { return names; } const vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const override { return NONED; } double getNRadlen(const Vector3D& a, const Vector3D& b) const override { return b[0] - a[0]; } double getNIntlen(const Vector3D&, const Vector3D&) const override { return 0; } double getBdL(const Vector3D&, const Vector3D&) const override { return 0; } double getEdL(const Vector3D&, const Vector3D&) const override { return 0; } };
enum Plugin { ABSENT, NOFACTORY, SOUND, NOPOINT, NODISTANCE, REFUSES, FAILS, FACTORYFAILS, NPLUGINS };
Plugin plugin = ABSENT;
struct Props : GearMaterialProperties { bool ready = false; string file;
  void initialize() override { ev.log.push_back("initialize with " + (_cfg.count("GDMLFileName") ? "'" + _cfg["GDMLFileName"] + "'" : string("nothing"))); file = _cfg["GDMLFileName"]; if (plugin == REFUSES) throw gear::Exception("no such geometry"); if (plugin == FAILS) throw std::runtime_error("the library fails"); ready = true; }
  GearPointProperties* getGearPointProperties() const override { if (!ready) { ev.log.push_back("asked before it is initialised"); return 0; } ev.log.push_back("point"); return plugin == NOPOINT ? 0 : new Point(file); }
  GearDistanceProperties* getGearDistanceProperties() const override { if (!ready) { ev.log.push_back("asked before it is initialised"); return 0; } ev.log.push_back("distance"); return plugin == NODISTANCE ? 0 : new Distance(file); } };
struct Factory : GearMaterialPropertiesFactory { GearMaterialProperties* create() const override { ev.log.push_back("create"); if (plugin == FACTORYFAILS) throw gear::Exception("no material properties"); return new Props; } void enlist() { me() = this; } static void forget() { me() = 0; } };
Factory factory; int opened = 0;
}
extern "C" void* dlopen(const char* name, int flags) {
  if (name && strstr(name, "geartgeo")) { ++opened; if (plugin == ABSENT) return 0; if (plugin == NOFACTORY) Factory::forget(); else factory.enlist(); return &factory; }
  static void* (*real)(const char*, int) = (void* (*)(const char*, int))dlsym(RTLD_NEXT, "dlopen"); return real(name, flags); }
namespace {
enum { READ = NPLUGINS, NFILES = 10, AGAIN = READ + NFILES, DROP, GIVE, TAKE, NOPS };
const char* FN[] = {"without a reference", "with a.gdml", "with b.gdml", "with a name of special characters", "with an empty name", "with a reference without name", "with a.gdml and a later fault", "with a.gdml and then b.gdml", "with a.gdml at the end", "with a.gdml between comments"};
const char* GD[] = {0, "a.gdml", "dir/b.gdml", "a & <b> 'c'.gdml", "", 0, "a.gdml", "a.gdml", "a.gdml", "a.gdml"};
const bool BAD[] = {0, 0, 0, 0, 0, 1, 1, 0, 0, 0};
const char* PN[] = {"absent", "without factory", "sound", "without point service", "without distance service", "refusing", "failing", "with a failing factory"};
string name(int o) { return o < READ ? string("the library is ") + PN[o] : o < AGAIN ? string("read a file ") + FN[o - READ] : o == AGAIN ? "ask the reader again" : o == DROP ? "drop the oldest" : o == GIVE ? "give the newest services by hand" : "take away the services of the newest"; }
string show(const vector<int>& h) { string s; for (int o : h) s += name(o) + "; "; return s; }
string text(int f) {
  const string det = "<detectors><detector name=\"user\" geartype=\"GearParameters\"><parameter name=\"n\" type=\"int\" value=\"5\"/></detector><detector name=\"EcalBarrel\" geartype=\"CalorimeterParameters\"><layout type=\"Barrel\" symmetry=\"8\" phi0=\"0\"/><dimensions inner_r=\"100\" outer_z=\"200\"/><layer repeat=\"2\" thickness=\"3\" absorberThickness=\"1\" cellSize0=\"10\" cellSize1=\"11\"/></detector>";
  const string end = "</detectors><materials><material name=\"iron\" A=\"55\" Z=\"26\" density=\"7\" radLength=\"17\" intLength=\"168\"/></materials>", field = "<BField type=\"ConstantBField\" x=\"0\" y=\"0\" z=\"3.5\"/>", a = "<GDMLFile name=\"a.gdml\"/>";
  switch (f) { case 0: return "<gear>" + field + det + end + "</gear>\n"; case 1: return "<gear>" + a + field + det + end + "</gear>\n"; case 2: return "<gear>" + field + "<GDMLFile name='dir/b.gdml'></GDMLFile>" + det + end + "</gear>\n"; case 3: return "<gear>" + field + "<GDMLFile name=\"a &amp; &lt;b&gt; 'c'.gdml\"/>" + det + end + "</gear>\n"; case 4: return "<gear>" + field + "<GDMLFile name=\"\"/>" + det + end + "</gear>\n"; case 5: return "<gear>" + field + "<GDMLFile file=\"a.gdml\"/>" + det + end + "</gear>\n"; case 6: return "<gear>" + field + a + det + "<detector name=\"x\" geartype=\"Unknown\"/>" + end + "</gear>\n"; case 7: return "<gear>" + a + field + "<!-- <GDMLFile name=\"c.gdml\"/> --><GDMLFile name=\"dir/b.gdml\"/>" + det + end + "</gear>\n"; case 9: return "<!-- x -->\n<gear>\n" + det + "</detectors>\n" + a + "\n<!-- the model -->\n" + field + end.substr(12) + "</gear>\n"; }
  return "<gear>" + field + det + end + "<!-- c -->" + a + "</gear>\n"; }
struct Live { std::unique_ptr<GearMgr> m; string point, dist; };      // the file each service must be for; "-" none
string services(const GearMgr& m) { string p = "-", d = "-"; const Vector3D o(2, 0, 0), q(5, 0, 0); try { p = m.getPointProperties().getMaterialName(o); if (m.getPointProperties().getDensity(o) != 2 + double(p.size())) p = "another service"; } catch (UnknownParameterException&) { } try { auto& s = m.getDistanceProperties(); auto& n = s.getMaterialNames(o, q); d = n.size() == 1 ? n[0] : string("?"); if (s.getNRadlen(o, q) != 3) d = "another service"; } catch (UnknownParameterException&) { } return "point " + p + ", distance " + d; }
string dump(const GearMgr& m) { dmp::Dump d; dmp::mgr(d, m); return d.canon(); }
string plainDump, plainFile;
string run(const vector<int>& h, const string& dir, uint64_t& n) {
  ev = Events(); plugin = ABSENT; Factory::forget(); vector<Live> l; std::unique_ptr<GearXML> reader; int last = -1; GearMgr* had = 0; int hand = 0; rt::Quiet q;
  for (int o : h) { ++n; ev.log.clear();
    if (o < READ) plugin = Plugin(o);
    else if (o <= AGAIN) { bool again = o == AGAIN; if (again && (last < 0 || had)) { if (had) { GearMgr* x = reader->createGearMgr(); if (x != had) return "the reader hands out another geometry the second time"; if (!ev.log.empty()) return "the plugin is called again"; } continue; }
      int f = again ? last : o - READ; vector<string> want; string must = "", p = "-", d = "-"; const bool named = GD[f] != 0;
      if (f == 5) must = "refused"; else if (named && plugin > NOFACTORY) { string g = GD[f]; want.push_back("create"); if (plugin == FACTORYFAILS) must = "refused"; else { want.push_back("initialize with '" + g + "'"); if (plugin == REFUSES || plugin == FAILS) must = "refused"; else { want.push_back("distance"); want.push_back("point"); p = plugin == NOPOINT ? "-" : g; d = plugin == NODISTANCE ? "-" : g; } } }
      if (BAD[f]) must = "refused";
      if (!again) reader.reset(new GearXML(dir + cat("/f", f, ".xml"))); last = f; had = 0; string got; std::unique_ptr<GearMgr> m; int before = ev.alive;
      try { m.reset(reader->createGearMgr()); } catch (gear::Exception& e) { got = "refused"; } catch (std::runtime_error& e) { got = plugin == FAILS ? "refused" : string("fails: ") + e.what(); }
      vector<string> log = ev.log; if (log.size() > 2) std::sort(log.begin() + 2, log.end());
      if (log != want) { string s = "the plugin sees:"; for (auto& x : ev.log) s += " " + x + ";"; s += " instead of:"; for (auto& x : want) s += " " + x + ";"; return s; }
      if (got != must) return "reading is '" + got + "' instead of '" + must + "'"; if (got.empty() != bool(m)) return "no geometry";
      if (m) { had = m.get(); l.push_back({std::move(m), p, d}); } else if (ev.alive != before) return "a refused description leaves services behind"; }
    else if (o == DROP) { if (!l.empty()) { if (l.front().m.get() == had) { had = 0; last = -1; } l.erase(l.begin()); } }
    else if (!l.empty()) { GearMgrImpl* m = dynamic_cast<GearMgrImpl*>(l.back().m.get()); if (!m) return "not a geometry that can be changed"; if (o == GIVE) { string f = cat("hand", ++hand); m->setPointProperties(new Point(f)); m->setDistanceProperties(new Distance(f)); l.back().point = l.back().dist = f; } else { m->setPointProperties(0); m->setDistanceProperties(0); l.back().point = l.back().dist = "-"; } }
    int alive = 0; for (auto& x : l) { ++n; string s = services(*x.m), w = "point " + x.point + ", distance " + x.dist; if (s != w) return "a geometry hands out " + s + " instead of " + w; alive += (x.point != "-") + (x.dist != "-"); }
    if (ev.alive != alive) return cat(ev.alive, " services alive instead of ", alive); if (ev.twice) return "a service is destroyed twice";
    if (o >= READ && o <= AGAIN && had && !l.empty() && l.back().m.get() == had) { string d = dump(*had); if (d != plainDump) return "the rest of the geometry differs: " + rt::firstDiff(plainDump, d); } }
  if (!l.empty()) { GearXML::createXMLFile(l.back().m.get(), dir + "/out.xml"); string s = rt::slurp(dir + "/out.xml"); if (s != plainFile) return "is written differently: " + rt::firstDiff(plainFile, s); }
  reader.reset(); for (auto& x : l) if (services(*x.m) != "point " + x.point + ", distance " + x.dist) return "the services go away with the reader"; l.clear(); if (ev.alive) return cat(ev.alive, " services left at the end"); if (ev.twice) return "a service is destroyed twice"; return ""; }
}
void mc::explore(Ctx& c) {
  const int L = c.thorough ? 5 : 4; static bool made = false;
  for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) c.unit(cat(name(a), "; ", name(b)), [&, a, b] {
    if (!made) { made = true; for (int f = 0; f < NFILES; ++f) rt::spit(c.tmpdir + cat("/f", f, ".xml"), text(f)); plugin = ABSENT; auto m = rt::load(c.tmpdir + "/f0.xml"); plainDump = dump(*m); rt::save(*m, c.tmpdir + "/out.xml"); plainFile = rt::slurp(c.tmpdir + "/out.xml"); }
    std::function<bool(vector<int>&)> rec = [&](vector<int>& h) -> bool {
      if (int(h.size()) == L) { c.now(show(h)); c.trace(); c.state(show(h)); uint64_t n = 0; string e; try { e = run(h, c.tmpdir, n); } catch (std::exception& x) { e = string("exception ") + x.what(); } c.transitions(n); return c.check(e.empty(), "wrong-services", [&] { return show(h) + e; }); }
      for (int o = 0; o < NOPS; ++o) { if (h.back() < READ && o < READ) continue; h.push_back(o); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
    if (a < READ && b < READ) return; vector<int> h{a, b}; rec(h); if (a == 2 && b < READ + 3) c.sample(show(h) + "... every continuation"); });
}
