// C12: copies are equal to and independent of their originals.
#include "dump.h"
#include "modules.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/ConstantBField.h"
#include <map>
namespace mc {
const char* const PROPERTY = "C12";
const char* const LEVEL = "model_checking";
const char* const RULE = "every history of copy-construct, clone, assign (incl. self and chained), modify and destroy operations over three slots is executed on real objects under AddressSanitizer; after each history every live object is compared, query by query, with an object built afresh from the abstract value the model assigns to that slot";
const char* const BOUNDS = "3 slots (2 initially filled), 2 base configurations and up to 2 modifications per class, histories up to 3 (quick) / 4 (thorough) operations after the initial ones, 15 classes; each history (with queries: up to 3 operations) without and with queries of the objects of the last step before it";
using namespace gear; using dmp::Dump;
template <class T> struct Kind {
  std::string name; std::vector<std::function<T*()>> bases; std::vector<std::function<void(T&)>> mods; std::function<void(Dump&, const T&)> dump; std::function<T*(const T&)> clone;
};
struct Val { int base; std::vector<int> mods; std::string key() const { std::string s(1, char('A' + base)); for (int m : mods) s += char('0' + m); return s; } };
enum Op { COPY, CLONE, ASSIGN, CHAIN, MOD, DEL, FRESH };
struct Step { Op op; int a, b, k; std::string str() const { static const char* n[] = {"copy", "clone", "assign", "chain", "modify", "destroy", "create"}; return cat(n[op], "(", a, ",", b, op == MOD || op == CHAIN || op == FRESH ? cat(",", k) : std::string(), ")"); } };
using State = std::vector<std::unique_ptr<Val>>;
static const int NS = 3;
static State copyState(const State& s) { State r(NS); for (int i = 0; i < NS; ++i) if (s[i]) r[i].reset(new Val(*s[i])); return r; }
template <class T> static std::vector<Step> enabled(const Kind<T>& K, const State& s) {
  std::vector<Step> v;
  for (int a = 0; a < NS; ++a) for (int b = 0; b < NS; ++b) if (s[b]) {
    if (a != b) { v.push_back({COPY, a, b, 0}); if (K.clone) v.push_back({CLONE, a, b, 0}); }
    if (s[a]) v.push_back({ASSIGN, a, b, 0});
    if (s[a]) for (int k = 0; k < NS; ++k) if (s[k] && k != b && a != b) v.push_back({CHAIN, a, b, k});      // a = b = k
  }
  for (int a = 0; a < NS; ++a) { if (s[a]) { v.push_back({DEL, a, a, 0}); for (size_t k = 0; k < K.mods.size(); ++k) if (s[a]->mods.size() < 3) v.push_back({MOD, a, a, (int)k}); } else v.push_back({FRESH, a, a, 1}); }
  return v;
}
static void applyModel(State& s, const Step& t) {
  switch (t.op) { case COPY: case CLONE: case ASSIGN: if (t.a != t.b) s[t.a].reset(new Val(*s[t.b])); break;
    case CHAIN: { Val k = *s[t.k]; s[t.b].reset(new Val(k)); s[t.a].reset(new Val(k)); break; }
    case MOD: s[t.a]->mods.push_back(t.k); break; case DEL: s[t.a].reset(); break; case FRESH: s[t.a].reset(new Val{t.k, {}}); break; }
}
template <class T> static void applyReal(const Kind<T>& K, std::vector<T*>& o, const Step& t) {
  switch (t.op) {
    case COPY: { T* n = new T(*o[t.b]); delete o[t.a]; o[t.a] = n; break; }
    case CLONE: { T* n = K.clone(*o[t.b]); delete o[t.a]; o[t.a] = n; break; }
    case ASSIGN: { T& r = (*o[t.a] = *o[t.b]); if (&r != o[t.a]) throw std::runtime_error("assignment did not return its target"); break; }
    case CHAIN: *o[t.a] = *o[t.b] = *o[t.k]; break;
    case MOD: K.mods[t.k](*o[t.a]); break;
    case DEL: delete o[t.a]; o[t.a] = 0; break;
    case FRESH: o[t.a] = K.bases[t.k](); break; }
}
template <class T> static void run(Ctx& c, const Kind<T>& K, int depth) {
  State init(NS); init[0].reset(new Val{0, {}}); init[1].reset(new Val{1, {}});
  auto first = enabled(K, init);
  for (auto& f : first) c.unit(K.name + " " + f.str(), [&] {
    std::map<std::string, Dump> ref;
    auto expected = [&](const Val& v) -> const Dump& { auto it = ref.find(v.key()); if (it != ref.end()) return it->second;
      std::unique_ptr<T> o(K.bases[v.base]()); for (int m : v.mods) K.mods[m](*o); Dump d; K.dump(d, *o); return ref[v.key()] = d; };
    std::vector<Step> hist;
    std::function<void(const State&)> dfs = [&](const State& s) {
      // execute the history
      std::string h; for (auto& t : hist) h += t.str() + " ";
      c.now(K.name + " " + h);
      std::vector<T*> o(NS, (T*)0); o[0] = K.bases[0](); o[1] = K.bases[1]();
      for (auto& t : hist) { applyReal(K, o, t); c.transitions(); }
      if (hist.size() <= 3 && hist.back().op != DEL && hist.back().op != FRESH) { // the same history with the objects of the last step queried completely before it
        std::vector<T*> e(NS, (T*)0); e[0] = K.bases[0](); e[1] = K.bases[1](); auto ask = [&](T* x, Dump& d) { if (x) K.dump(d, *x); };
        for (auto& t : hist) { if (&t == &hist.back()) for (int k : {t.b, t.a}) { Dump d; ask(e[k], d); if (t.a == t.b) break; } applyReal(K, e, t); c.transitions(); }
        for (int i : {hist.back().a, hist.back().b}) if (s[i]) { Dump d; ask(e[i], d); std::string df = dmp::diff(expected(*s[i]), d, 0); if (!df.empty()) c.fail(K.name + "-differs", cat("history ", h, "with queries before its last step: slot ", i, " should be ", s[i]->key(), ": ", df)); }
        for (T* x : e) delete x; }
      std::string st = K.name; for (int i = 0; i < NS; ++i) { st += "|"; if (s[i]) st += s[i]->key(); } c.state(st); c.trace();
      for (int i = 0; i < NS; ++i) if (s[i]) { Dump d; K.dump(d, *o[i]); std::string df = dmp::diff(expected(*s[i]), d, 0); if (!df.empty()) c.fail(K.name + "-differs", cat("history ", h, "slot ", i, " should be ", s[i]->key(), ": ", df)); }
      for (int i = 0; i < NS; ++i) delete o[i];
      if ((int)hist.size() >= depth) return;
      for (auto& t : enabled(K, s)) { State n = copyState(s); applyModel(n, t); hist.push_back(t); dfs(n); hist.pop_back(); }
    };
    State n = copyState(init); applyModel(n, f); hist.push_back(f); dfs(n); c.sample(K.name + ": all histories starting with " + f.str());
  });
}
template <class T> static void named(Kind<T>& K) {
  K.mods.push_back([](T& t) { t.setIntVal("i", 5); t.setStringVals("sv", {"a", "b"}); });
  K.mods.push_back([](T& t) { t.setDoubleVals("dv", {1.5}); t.setStringVal("s", "x y"); t.setIntVal("i", 6); });
}
void explore(Ctx& c) {
  int D = c.thorough ? 4 : 3;
  lay::Cfg f1, f2, v1, v2; lay::fixedSizeCfg(10, 22, 5, 6, 0, 0.4, 2 * M_PI, f1); lay::fixedSizeCfg(10, 16, 5, 6, 0, 0, 0.7, f2);
  auto L = [](Dump& d, const PadRowLayout2D& l) { dmp::layout(d, l); };
  { Kind<FixedPadSizeDiskLayout> K; K.name = "FixedPadSizeDiskLayout"; K.bases = {[=] { return (FixedPadSizeDiskLayout*)f2.make(); }, [=] { return new FixedPadSizeDiskLayout(10, 21, 5, 9, 1, 0.3, 2 * M_PI); }}; K.dump = L; K.clone = [](const FixedPadSizeDiskLayout& x) { return dynamic_cast<FixedPadSizeDiskLayout*>(x.clone()); }; run(c, K, D); }
  { Kind<FixedPadAngleDiskLayout> K; K.name = "FixedPadAngleDiskLayout"; K.bases = {[] { return new FixedPadAngleDiskLayout(10, 22, 2, -0.3, 0.5, 3); }, [] { return new FixedPadAngleDiskLayout(0, 6, 1, 0, 2 * M_PI, 4); }}; K.dump = L; K.clone = [](const FixedPadAngleDiskLayout& x) { return dynamic_cast<FixedPadAngleDiskLayout*>(x.clone()); }; run(c, K, D); }
  { Kind<RectangularPadRowLayout> K; K.name = "RectangularPadRowLayout"; K.bases = {[] { auto* l = new RectangularPadRowLayout(-4, 8, 3); l->addRow(1, 3, 2, 3, 0, 0, 0); return l; }, [] { auto* l = new RectangularPadRowLayout(0, 12, 0); l->addRow(2, 2, 1.5, 2, 3, 1, 0); l->repeatRows(2); return l; }}; K.dump = L; K.clone = [](const RectangularPadRowLayout& x) { return dynamic_cast<RectangularPadRowLayout*>(x.clone()); };
    K.mods = {[](RectangularPadRowLayout& l) { l.addRow(1, 2, 2, 4, 5, 1, 0.5); }, [](RectangularPadRowLayout& l) { l.repeatRows(2); }}; run(c, K, D); }
  { Kind<VersatileDiskRowLayout> K; K.name = "VersatileDiskRowLayout"; K.bases = {[] { auto* l = new VersatileDiskRowLayout(20); l->addRow(3, 2, 4, 0, 0, 0, 1); return l; }, [] { auto* l = new VersatileDiskRowLayout(6); l->addRow(2, 3, 2, 2.5, 1, 1, 2); return l; }}; K.dump = L; K.clone = [](const VersatileDiskRowLayout& x) { return dynamic_cast<VersatileDiskRowLayout*>(x.clone()); };
    K.mods = {[](VersatileDiskRowLayout& l) { l.addRow(4, 1.5, 3, -3, 1, 2, 1); }, [](VersatileDiskRowLayout& l) { l.addRow(1, 4, 5, 1, 0, 0, 2); }}; run(c, K, D); }
  { Kind<TPCModuleImpl> K; K.name = "TPCModuleImpl"; K.bases = {[] { return new TPCModuleImpl(3, new FixedPadAngleDiskLayout(10, 22, 1, -0.3, 0.5, 2), PadRowLayout2D::CARTESIAN, 5); },
      [] { auto* l = new VersatileDiskRowLayout(20); l->addRow(3, 2, 4, 0, 0, 0, 1); auto* m = new TPCModuleImpl(4, l, PadRowLayout2D::POLAR); m->setOffset(30, 1); m->setZPosition(-7); return m; }};
    K.dump = [](Dump& d, const TPCModuleImpl& m) { dmp::module(d, m); }; K.clone = [](const TPCModuleImpl& x) { return dynamic_cast<TPCModuleImpl*>(x.clone()); };
    K.mods = {[](TPCModuleImpl& m) { m.setOffset(3, 0.5); m.setAngle(0.7); m.setIntVal("i", 5); }, [](TPCModuleImpl& m) { m.setBorderWidth(1.5); m.setZPosition(-100); m.setReadoutFrequency(9); m.setStringVal("s", "t"); }}; run(c, K, D); }
  { Kind<TPCParametersImpl> K; K.name = "TPCParametersImpl";
    K.bases = {[] { auto* t = new TPCParametersImpl(500, PadRowLayout2D::CARTESIAN); t->setDriftVelocity(3); auto* m = new TPCModuleImpl(1, new FixedPadAngleDiskLayout(10, 22, 1, -0.3, 0.5, 2), PadRowLayout2D::CARTESIAN, 5); m->setZPosition(100); m->setIntVal("a", 1); t->addModule(m); return t; }, [] { return new TPCParametersImpl(70, PadRowLayout2D::CARTESIAN); }};
    K.dump = [](Dump& d, const TPCParametersImpl& m) { dmp::tpc(d, m); };
    K.mods = {[](TPCParametersImpl& t) { auto* l = new RectangularPadRowLayout(-4, 8, 3); l->addRow(1, 2, 2, 3, 0, 0, 0); auto* m = new TPCModuleImpl(10 + t.getNModules(), l, PadRowLayout2D::CARTESIAN); m->setOffset(30, 2 + 20 * t.getNModules()); static const double Z[] = {-100, 0, 50}; if (t.getNModules() % 4 < 3) m->setZPosition(Z[t.getNModules() % 4]); t.addModule(m); },
              [](TPCParametersImpl& t) { t.setMaxDriftLength(t.getMaxDriftLength() + 1); t.setDoubleVal("d", 2.5); if (t.getNModules() == 1) t.setReadoutFrequency(8); }}; run(c, K, D); }
  { Kind<LayerLayoutImpl> K; K.name = "LayerLayoutImpl"; K.bases = {[] { auto* l = new LayerLayoutImpl; l->addLayer(1, 2, 3, 4); return l; }, [] { auto* l = new LayerLayoutImpl; l->positionLayer(10, 2, 3, 4); return l; }}; K.dump = [](Dump& d, const LayerLayoutImpl& l) { dmp::layers(d, l); }; K.mods = {[](LayerLayoutImpl& l) { l.addLayer(5, 6, 7, 8); }, [](LayerLayoutImpl& l) { l.positionLayer(40, 6, 7, 8); }}; run(c, K, D); }
  { Kind<CalorimeterParametersImpl> K; K.name = "CalorimeterParametersImpl"; K.bases = {[] { auto* l = new CalorimeterParametersImpl(10, 100, 8, 0.1); l->layerLayout().positionLayer(10, 2, 3, 4); return l; }, [] { auto* l = new CalorimeterParametersImpl(10., 20., 100., 2, 0.2); return l; }}; K.dump = [](Dump& d, const CalorimeterParametersImpl& l) { dmp::calo(d, l); }; K.mods = {[](CalorimeterParametersImpl& l) { l.layerLayout().addLayer(5, 6, 7, 8); }}; named(K); K.mods.pop_back(); run(c, K, D); }
  { Kind<ZPlanarParametersImpl> K; K.name = "ZPlanarParametersImpl"; K.bases = {[] { auto* l = new ZPlanarParametersImpl(1, 10, 20, 30, 2, 50); l->addLayer(8, 0.1, 15, 1, 0.2, 30, 9, 50, 15.2, 1, 0.1, 29, 8, 60); return l; }, [] { return new ZPlanarParametersImpl(2, 11, 21, 31, 0, 51); }}; K.dump = [](Dump& d, const ZPlanarParametersImpl& l) { dmp::zplanar(d, l); }; K.mods = {[](ZPlanarParametersImpl& l) { l.addLayer(6, 0, 25, 0, 0.3, 40, 9, 50, 25.3, 1, 0.1, 29, 8, 60); }}; named(K); K.mods.pop_back(); run(c, K, D); }
  { Kind<FTDParametersImpl> K; K.name = "FTDParametersImpl"; auto add = [](FTDParametersImpl& l, double z) { l.addLayer(4, 2, true, 1, 0.4, 0.1, 0.2, z, 3, 1, 30, 1, 40, 60, 70, 90, 31, 0.5, 39, 58, 68, 91); };
    K.bases = {[=] { auto* l = new FTDParametersImpl; add(*l, 200); return l; }, [=] { auto* l = new FTDParametersImpl; add(*l, 300); add(*l, 400); return l; }}; K.dump = [](Dump& d, const FTDParametersImpl& l) { dmp::ftd(d, l); }; K.mods = {[=](FTDParametersImpl& l) { add(l, 900); }}; named(K); K.mods.pop_back(); run(c, K, D); }
  { Kind<SiPlanesParametersImpl> K; K.name = "SiPlanesParametersImpl"; K.bases = {[] { auto* l = new SiPlanesParametersImpl(7, 1, 3); l->addDUT(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25); return l; }, [] { return new SiPlanesParametersImpl(8, 2, 4); }}; K.dump = [](Dump& d, const SiPlanesParametersImpl& l) { dmp::siplanes(d, l); };
    K.mods = {[](SiPlanesParametersImpl& l) { l.addLayer(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33); }}; named(K); K.mods.pop_back(); run(c, K, D); }
  { Kind<TrackerPlanesParametersImpl> K; K.name = "TrackerPlanesParametersImpl"; auto add = [](TrackerPlanesParametersImpl& l, int id) { TrackerPlanesLayerImpl y; y.setID(id); y.setInfo("u"); y.addMaterialLayer(id, "m", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); y.addSensitiveLayer(id, "s", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); l.addLayer(&y); };
    K.bases = {[=] { auto* l = new TrackerPlanesParametersImpl(7, 1, 3); add(*l, 4); return l; }, [] { return new TrackerPlanesParametersImpl(8, 2, 4); }}; K.dump = [](Dump& d, const TrackerPlanesParametersImpl& l) { dmp::tracker(d, l); };
    K.mods = {[=](TrackerPlanesParametersImpl& l) { add(l, 9); }}; named(K); K.mods.pop_back(); run(c, K, D); }
  { Kind<GearParametersImpl> K; K.name = "GearParametersImpl"; K.bases = {[] { return new GearParametersImpl; }, [] { auto* l = new GearParametersImpl; l->setIntVal("i", 1); l->setIntVals("iv", {1, 2}); return l; }}; K.dump = [](Dump& d, const GearParametersImpl& l) { dmp::params(d, l); }; named(K); run(c, K, D); }
  { Kind<ConstantBField> K; K.name = "ConstantBField"; K.bases = {[] { return new ConstantBField(Vector3D(1, 2, 3)); }, [] { return new ConstantBField(Vector3D(4, 5, 6)); }}; K.dump = [](Dump& d, const ConstantBField& l) { dmp::bfield(d, l); }; named(K); run(c, K, D); }
  { Kind<SimpleMaterialImpl> K; K.name = "SimpleMaterialImpl"; K.bases = {[] { return new SimpleMaterialImpl("a", 1, 2, 3, 4, 5); }, [] { return new SimpleMaterialImpl("b", 6, 7, 8, 9, 10); }}; K.dump = [](Dump& d, const SimpleMaterialImpl& l) { dmp::material(d, l); }; run(c, K, D); }
}
}
