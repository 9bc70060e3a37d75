// C18: the geometry manager returns exactly what was registered, under every registration history, and owns it.
#include "mc.h"
#include "gear/GEAR.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
namespace mc {
const char* const PROPERTY = "C18";
const char* const LEVEL = "model_checking";
const char* const RULE = "every sequence of registrations (fresh object, null, same object again) over all 22 slots, user sections, materials and the name is executed on a real manager next to a slot map; after each history every slot, key list and material is queried and compared, objects are dereferenced, their named parameters must be the ones set before (only a forward calorimeter without a crossing angle gains the value 0), and destructor counts show that each registered object lives exactly as long as it is registered and dies exactly once";
const char* const BOUNDS = "84 operations: every sequence of length 1..3 (quick); plus every sequence of length 4 over a 39-operation subset (thorough)";
using namespace gear; using std::string; using std::vector;
static std::map<const void*, int> dead; static std::set<const void*> alive; static long bad;
struct Tag { const void* self; Tag() { self = this; alive.insert(this); } ~Tag() { if (!alive.erase(this)) ++bad; } };
template <class B> struct Cnt : B, Tag { using B::B; };
static const string noText; static const vector<string> noTexts; static const vector<double> noNumbers;
struct PP : GearPointProperties {
  long64 getCellID(const Vector3D&) const { return 0; } const string& getMaterialName(const Vector3D&) const { return noText; } double getDensity(const Vector3D&) const { return 0; } double getTemperature(const Vector3D&) const { return 0; } double getPressure(const Vector3D&) const { return 0; } double getRadlen(const Vector3D&) const { return 0; } double getIntlen(const Vector3D&) const { return 0; }
  Vector3D getLocalPosition(const Vector3D&) const { return Vector3D(); } Vector3D getB(const Vector3D&) const { return Vector3D(); } Vector3D getE(const Vector3D&) const { return Vector3D(); } vector<string> getListOfLogicalVolumes(const Vector3D&) const { return {}; } vector<string> getListOfPhysicalVolumes(const Vector3D&) const { return {}; } string getRegion(const Vector3D&) const { return ""; } bool isTracker(const Vector3D&) const { return false; } bool isCalorimeter(const Vector3D&) const { return false; } };
struct DP : GearDistanceProperties { const vector<string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return noTexts; } const vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return noNumbers; } double getNRadlen(const Vector3D&, const Vector3D&) const { return 0; } double getNIntlen(const Vector3D&, const Vector3D&) const { return 0; } double getBdL(const Vector3D&, const Vector3D&) const { return 0; } double getEdL(const Vector3D&, const Vector3D&) const { return 0; } };
struct Obj { const void* id = 0; Tag* tag = 0; GearParametersImpl* par = 0; int mark = 0; bool angle = false; };
static int serial;
struct Slot { string name; std::function<Obj(GearMgrImpl&)> fresh; std::function<void(GearMgrImpl&, const Obj&)> set; std::function<const void*(const GearMgr&)> get; };
template <class T, class I, class... A> static Slot mk(string n, void (GearMgrImpl::*s)(T*), const T& (GearMgr::*g)() const, A... a) {
  Slot r; r.name = n;
  r.fresh = [=](GearMgrImpl& m) { Cnt<I>* o = new Cnt<I>(a...); T* b = o; Obj x; x.id = b; x.tag = o; x.par = dynamic_cast<GearParametersImpl*>(o); x.mark = ++serial; x.angle = serial % 3 == 0; if (x.par) { x.par->setIntVal("mark", x.mark); if (x.angle) x.par->setDoubleVal("beam_crossing_angle", 0.5 * x.mark); } (m.*s)(b); return x; };
  r.set = [=](GearMgrImpl& m, const Obj& o) { (m.*s)((T*)o.id); };
  r.get = [=](const GearMgr& m) -> const void* { return &(m.*g)(); };
  return r;
}
static vector<Slot> slots() {
  vector<Slot> v;
#define CAL(n) v.push_back(mk<CalorimeterParameters, CalorimeterParametersImpl>(#n, &GearMgrImpl::set##n##Parameters, &GearMgr::get##n##Parameters, 10., 100., 8, 0.1));
  CAL(EcalBarrel) CAL(Lcal) CAL(LHcal) CAL(BeamCal) CAL(EcalEndcap) CAL(EcalPlug) CAL(YokeBarrel) CAL(YokeEndcap) CAL(YokePlug) CAL(HcalBarrel) CAL(HcalEndcap) CAL(HcalRing)
#undef CAL
#define ZP(n) v.push_back(mk<ZPlanarParameters, ZPlanarParametersImpl>(#n, &GearMgrImpl::set##n##Parameters, &GearMgr::get##n##Parameters, 1, 1., 2., 3., 4., 5.));
  ZP(VXD) ZP(SIT) ZP(SET)
  v.push_back(mk<TPCParameters, TPCParametersImpl>("TPC", &GearMgrImpl::setTPCParameters, &GearMgr::getTPCParameters, 10., 1));
  v.push_back(mk<BField, ConstantBField>("BField", &GearMgrImpl::setBField, &GearMgr::getBField, Vector3D(1, 2, 3)));
  v.push_back(mk<FTDParameters, FTDParametersImpl>("FTD", &GearMgrImpl::setFTDParameters, &GearMgr::getFTDParameters));
  v.push_back(mk<TrackerPlanesParameters, TrackerPlanesParametersImpl>("TrackerPlanes", &GearMgrImpl::setTrackerPlanesParameters, &GearMgr::getTrackerPlanesParameters, 1, 1, 2));
  v.push_back(mk<SiPlanesParameters, SiPlanesParametersImpl>("SiPlanes", &GearMgrImpl::setSiPlanesParameters, &GearMgr::getSiPlanesParameters, 1, 1, 2));
  v.push_back(mk<GearPointProperties, PP>("PointProperties", &GearMgrImpl::setPointProperties, &GearMgr::getPointProperties));
  v.push_back(mk<GearDistanceProperties, DP>("DistanceProperties", &GearMgrImpl::setDistanceProperties, &GearMgr::getDistanceProperties));
  return v;
}
struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(0)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };
void explore(Ctx& c) {
  vector<Slot> S = slots(); int ns = S.size();
  struct Op { int what, slot, arg; string str; };     // what: 0 slot, 1 user section, 2 material, 3 name
  vector<Op> ops; static const char* K[] = {"fresh", "null", "same"};
  for (int s = 0; s < ns; ++s) for (int k = 0; k < 3; ++k) ops.push_back({0, s, k, S[s].name + ":" + K[k]});
  for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) ops.push_back({1, s, k, cat("section", s, ":", K[k])});
  for (int s = 0; s < 3; ++s) { ops.push_back({2, s, 0, cat("material", s)}); ops.push_back({2, s, 1, cat("material", s, ":same")}); }
  for (int s = 0; s < 3; ++s) ops.push_back({3, s, 0, cat("name", s)});
  vector<int> allOps, some; for (size_t i = 0; i < ops.size(); ++i) { allOps.push_back(i); if (ops[i].what || (ops[i].slot % 3 == 1)) some.push_back(i); }
  const string sect[] = {"sec", "TPC", ""}, mats[] = {"air", "Air", ""}, names[] = {"", "ILD", "x y"};
  auto run = [&](const vector<int>& h) { serial = 0;
    if (h.size() > 2) serial = (h[0] + 3 * h[2]) % 3;
    auto hs = [&] { string s; for (int o : h) s += ops[o].str + "; "; return s; };
    c.now(hs()); alive.clear(); bad = 0; GearMgrImpl* m = new GearMgrImpl; const GearMgr& g = *m;
    vector<Obj> cur(ns), usr(3), mat(3); string name; vector<double> matA(3);
    for (size_t i = 0; i < h.size(); ++i) { const Op& o = ops[h[i]]; c.transitions();
      if (o.what == 0) { if (o.arg == 0) cur[o.slot] = S[o.slot].fresh(*m); else if (o.arg == 1) { cur[o.slot] = Obj(); S[o.slot].set(*m, Obj()); } else if (cur[o.slot].id) S[o.slot].set(*m, cur[o.slot]); }
      else if (o.what == 1) { if (o.arg == 0) { auto* p = new Cnt<GearParametersImpl>; switch ((3 * i + o.slot) % 7) { case 0: break; case 1: p->setIntVal("n", i); break; case 2: p->setIntVals("n", IntVec(2, i)); break; case 3: p->setStringVal("n", ""); break; case 4: p->setDoubleVals("n", DoubleVec()); break; case 5: p->setDoubleVal("n", 0); break; case 6: p->setStringVals("n", StringVec(1, "x")); } GearParameters* q = p; usr[o.slot].id = q; usr[o.slot].tag = p; m->setGearParameters(sect[o.slot], q); } else if (o.arg == 1) m->setGearParameters(sect[o.slot], 0); else if (usr[o.slot].id) m->setGearParameters(sect[o.slot], (GearParameters*)usr[o.slot].id); }
      else if (o.what == 2 && o.arg) { if (mat[o.slot].id) { bool ex = false; try { m->registerSimpleMaterial((const SimpleMaterial*)mat[o.slot].id); } catch (gear::Exception&) { ex = true; } c.check(ex, "duplicate-material-accepted", hs); } }
      else if (o.what == 2) { auto* p = new Cnt<SimpleMaterialImpl>(mats[o.slot], 1. + i, 2., 3., 4., 5.); bool ex = false; try { m->registerSimpleMaterial(p); } catch (gear::Exception&) { ex = true; }
        c.check(ex == (mat[o.slot].id != 0), ex ? "material-refused" : "duplicate-material-accepted", hs); if (ex) delete p; else if (!mat[o.slot].id) { SimpleMaterial* q = p; mat[o.slot].id = q; mat[o.slot].tag = p; matA[o.slot] = 1. + i; } }
      else { name = names[o.slot]; m->setDetectorName(name); } }
    std::set<const void*> expect;
    for (int s = 0; s < ns; ++s) { const void* p = 0; bool unk = false; try { p = S[s].get(g); } catch (UnknownParameterException&) { unk = true; } catch (std::exception&) {}
      if (cur[s].id) expect.insert(cur[s].tag);
      c.check(cur[s].id ? p == cur[s].id : unk, cur[s].id ? "slot-returns-something-else" : "empty-slot-not-refused", [&] { return hs() + "slot " + S[s].name; });
      if (p && p == cur[s].id && alive.count(cur[s].tag) && cur[s].par) { const GearParametersImpl& q = *cur[s].par; bool added = !cur[s].angle && (S[s].name == "Lcal" || S[s].name == "LHcal" || S[s].name == "BeamCal"), ok = false;
        try { const vector<string>& ik = q.getIntKeys(); ok = ik.size() == 1 && q.getIntVal("mark") == cur[s].mark; const vector<string>& dk = q.getDoubleKeys(); ok = ok && dk.size() == (cur[s].angle || added ? 1u : 0u) && (dk.empty() || q.getDoubleVal("beam_crossing_angle") == (added ? 0 : 0.5 * cur[s].mark)) && q.getStringKeys().empty() && q.getIntVecKeys().empty() && q.getDoubleVecKeys().empty() && q.getStringVecKeys().empty(); } catch (std::exception&) { ok = false; }
        c.check(ok, "parameters-of-registered-object", [&] { return hs() + "slot " + S[s].name; }); }
      if (p && alive.count(cur[s].tag) == 0) c.fail("slot-object-destroyed", hs() + "slot " + S[s].name); }
    std::set<string> wk, wm;
    for (int s = 0; s < 3; ++s) { const void* p = 0; bool unk = false; try { p = &g.getGearParameters(sect[s]); } catch (UnknownParameterException&) { unk = true; } catch (std::exception&) {}
      if (usr[s].id) { expect.insert(usr[s].tag); wk.insert(sect[s]); } c.check(usr[s].id ? p == usr[s].id : unk, "section-wrong", [&] { return hs() + "section " + sect[s]; });
      p = 0; unk = false; double A = 0; try { const SimpleMaterial& x = g.getSimpleMaterial(mats[s]); p = &x; A = x.getA(); } catch (UnknownParameterException&) { unk = true; } catch (std::exception&) {}
      if (mat[s].id) { expect.insert(mat[s].tag); wm.insert(mats[s]); } c.check(mat[s].id ? p == mat[s].id && A == matA[s] : unk, "material-wrong", [&] { return hs() + "material " + mats[s]; }); }
    { const vector<string>& k = g.getGearParameterKeys(); c.check(std::set<string>(k.begin(), k.end()) == wk && k.size() == wk.size(), "section-keys", hs); const vector<string>& n = g.getMaterialNames(); c.check(std::set<string>(n.begin(), n.end()) == wm && n.size() == wm.size(), "material-names", hs); }
    { string n; bool unk = false; try { n = g.getDetectorName(); } catch (UnknownParameterException&) { unk = true; } c.check(name.empty() ? unk : n == name, "detector-name", hs); }
    { bool unk = false; try { g.getGearParameters("never"); } catch (UnknownParameterException&) { unk = true; } c.check(unk, "unknown-section", hs); unk = false; try { g.getSimpleMaterial("never"); } catch (UnknownParameterException&) { unk = true; } c.check(unk, "unknown-material", hs); }
    c.check(alive == expect && bad == 0, alive.size() > expect.size() ? "replaced-object-not-destroyed" : "registered-object-destroyed", [&] { return cat(hs(), alive.size(), " objects alive, ", expect.size(), " registered"); });
    string st; for (auto& o : cur) st += o.id ? '1' : '0'; for (auto& o : usr) st += o.id ? '1' : '0'; for (auto& o : mat) st += o.id ? '1' : '0'; c.state(st + name);
    delete m; c.check(alive.empty() && bad == 0, "object-not-destroyed-with-manager", hs); c.trace();
  };
  for (int o1 : allOps) c.unit("all " + ops[o1].str, [&] { Quiet q; vector<int> h{o1}; run(h);
    for (int o2 : allOps) { h = {o1, o2}; run(h); for (int o3 : allOps) { h = {o1, o2, o3}; run(h); } } c.sample(ops[o1].str + " followed by every pair of operations"); });
  if (c.thorough) for (int o1 : some) for (int o2 : some) c.unit("subset " + ops[o1].str + " " + ops[o2].str, [&] { Quiet q; for (int o3 : some) for (int o4 : some) run({o1, o2, o3, o4}); });
}
}
