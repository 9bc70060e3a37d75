// C27: calorimeter layers stack up consistently.
#include "rt.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gear/LayerLayout.h"
#include "gear/CalorimeterParameters.h"
using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C27"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = list of layers; every history of additions and queries is a trace of the reference model (running distance) replayed on the real calorimeter; after every operation all layers, the extent and the refusal of layer numbers outside are compared; groups of repeated layers are read from files and compared with the same model; distinct = different (calorimeter, history)";
const char* const mc::BOUNDS = "every history of up to 5 (quick) / 7 (thorough) operations over: 3 layers added after the last, 3 positioned layers (one overlapping earlier layers, one at negative distance, one without any extent), copying and assigning; for 3 barrels and 3 endcaps (symmetry 0 to 12, inner surface also 0); files: every list of up to 3 (thorough 4) groups over 5 layers (one all zero) x repeat 0, 1, 2, 5 (quick: a third of the lists of 3), barrel and endcap; 15 spellings of calorimeter names, each as barrel and endcap";
namespace {
struct L { double d, t, a, c0, c1; };
const double T[5][4] = {{2.5, 1.25, 5, 10}, {0.3, 0.1, 7.5, 0}, {40, 0, 0.5, 30}, {1. / 3, 0.2, 1. / 7, 5}, {0, 0, 0, 0}};
struct Calo { bool barrel; double r0, r1, z; int sym; double phi; };
const Calo CALO[] = {{true, 1800, 0, 2350, 8, 0.1}, {true, 0, 0, 100, 1, -2}, {true, 1234.5, 0, 17, 0, 0}, {false, 400, 2000, 2450, 2, 0.5}, {false, 0, 10, 0, 12, 3.2}, {false, 55.5, 66.25, 3000.125, 4, 0}};
gear::CalorimeterParametersImpl* make(const Calo& k) { return k.barrel ? new gear::CalorimeterParametersImpl(k.r0, k.z, k.sym, k.phi) : new gear::CalorimeterParametersImpl(k.r0, k.r1, k.z, k.sym, k.phi); }
bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
template <class F> bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
string wrong(const gear::CalorimeterParameters& p, const Calo& k, const vector<L>& m) { const gear::LayerLayout& y = p.getLayerLayout(); int n = m.size();
  if (p.getLayoutType() != (k.barrel ? gear::CalorimeterParameters::BARREL : gear::CalorimeterParameters::ENDCAP)) return "layout type"; if (p.getSymmetryOrder() != k.sym) return "symmetry"; if (!same(p.getPhi0(), k.phi)) return "phi0";
  const vector<double>& e = p.getExtent(); if (e.size() != 4) return "extent has no four numbers"; double end = n ? m.back().d + m.back().t : k.barrel ? k.r0 : k.z; double want[4] = {k.r0, k.barrel ? end : k.r1, k.barrel ? 0 : k.z, k.barrel ? k.z : end}; for (int i = 0; i < 4; ++i) if (!same(e[i], want[i])) return cat("extent[", i, "] ", e[i], " instead of ", want[i]);
  if (y.getNLayers() != n) return cat(y.getNLayers(), " layers instead of ", n);
  for (int i = 0; i < n; ++i) { double g[] = {y.getDistance(i), y.getThickness(i), y.getAbsorberThickness(i), y.getCellSize0(i), y.getCellSize1(i)}, w[] = {m[i].d, m[i].t, m[i].a, m[i].c0, m[i].c1}; static const char* N[] = {"distance", "thickness", "absorber", "cell size 0", "cell size 1"}; for (int j = 0; j < 5; ++j) if (!same(g[j], w[j])) return cat("layer ", i, " ", N[j], " ", g[j], " instead of ", w[j]); }
  for (int i : {-1, n, n + 1, n + 100}) if (!refused([&] { y.getDistance(i); }) || !refused([&] { y.getThickness(i); }) || !refused([&] { y.getAbsorberThickness(i); }) || !refused([&] { y.getCellSize0(i); }) || !refused([&] { y.getCellSize1(i); })) return cat("layer ", i, " of ", n, " was accepted");
  return ""; }
const int OPS = 8; const char* const NAME[] = {"add 0", "add 1", "add without absorber", "position 100", "position -3.5", "copy", "assign", "position 250 all zero"};
void model(vector<L>& m, int o) { double at = m.empty() ? 0 : m.back().d + m.back().t; switch (o) { case 0: case 1: m.push_back({at, T[o][0], T[o][1], T[o][2], T[o][3]}); break; case 2: m.push_back({at, T[2][0], 0, T[2][2], T[2][3]}); break; case 3: m.push_back({100, T[3][0], T[3][1], T[3][2], T[3][3]}); break; case 4: m.push_back({-3.5, T[0][0], 0, T[0][2], T[0][3]}); break; case 7: m.push_back({250, 0, 0, 0, 0}); break; } }
void real(std::unique_ptr<gear::CalorimeterParametersImpl>& p, int o) { switch (o) { case 0: case 1: p->layerLayout().addLayer(T[o][0], T[o][2], T[o][3], T[o][1]); break; case 2: p->layerLayout().addLayer(T[2][0], T[2][2], T[2][3]); break; case 3: p->layerLayout().positionLayer(100, T[3][0], T[3][2], T[3][3], T[3][1]); break; case 4: p->layerLayout().positionLayer(-3.5, T[0][0], T[0][2], T[0][3]); break; case 7: p->layerLayout().positionLayer(250, 0, 0, 0, 0); break;
    case 5: p.reset(new gear::CalorimeterParametersImpl(*p)); break; case 6: { std::unique_ptr<gear::CalorimeterParametersImpl> q(new gear::CalorimeterParametersImpl(1, 2, 3)); q->layerLayout().addLayer(9, 9, 9, 9); *q = *p; p.swap(q); break; } } }
}
void mc::explore(Ctx& c) {
  const int D = c.thorough ? 7 : 5;
  for (int k = 0; k < 6; ++k) for (int f = 0; f < OPS; ++f) for (int g = 0; g < OPS; ++g) c.unit(cat("calorimeter ", k, " ", NAME[f], ", ", NAME[g]), [&, k, f, g] { const Calo& q = CALO[k];
    if (!f && !g) { std::unique_ptr<gear::CalorimeterParametersImpl> p(make(q)); string w = wrong(*p, q, {}); c.trace(); c.state(cat("empty ", k)); if (!c.check(w.empty(), "wrong-layers", [&] { return cat("no layer: ", w); })) return; }
    vector<int> h{f, g}; std::function<bool()> rec = [&] { auto at = [&] { string s = cat("calorimeter ", k, ":"); for (int o : h) s += cat(" ", NAME[o], ","); return s; }; c.now(at()); c.trace(); c.state(at()); std::unique_ptr<gear::CalorimeterParametersImpl> p(make(q)); vector<L> m;
      for (size_t i = 0; i < h.size(); ++i) { model(m, h[i]); real(p, h[i]); bool query = i + 1 == h.size() || (h.size() + i) % 2; if (query) { string w = wrong(*p, q, m); if (!c.check(w.empty(), "wrong-layers", [&] { return cat(at(), " after ", i + 1, ": ", w); })) return false; } }
      if (int(h.size()) >= D) return true; for (int o = 0; o < OPS; ++o) { h.push_back(o); bool ok = rec(); h.pop_back(); if (!ok) return false; } return true; }; rec(); if (f == g) c.sample(cat("calorimeter ", k, ": ", NAME[f], ", ", NAME[g], ", every continuation")); });
  // groups of layers in files
  const int R[] = {0, 1, 2, 5};
  for (int k : {0, 1, 3, 5}) for (int a = 0; a < 20; ++a) c.unit(cat("file calorimeter ", k, " group ", a), [&, k, a] { const Calo& q = CALO[k];
    vector<int> h{a}; std::function<bool()> rec = [&] { string x; vector<L> m; for (int g : h) { const double* t = T[g / 4]; char b[300]; snprintf(b, sizeof b, "<layer repeat=\"%d\" thickness=\"%.17g\" absorberThickness=\"%.17g\" cellSize0=\"%.17g\" cellSize1=\"%.17g\"/>", R[g % 4], t[0], t[1], t[2], t[3]); x += b; for (int i = 0; i < R[g % 4]; ++i) m.push_back({m.empty() ? (q.barrel ? q.r0 : q.z) : m.back().d + m.back().t, t[0], t[1], t[2], t[3]}); }
      auto at = [&] { string s = cat("file of calorimeter ", k, ":"); for (int g : h) s += cat(" ", R[g % 4], " x layer ", g / 4, ","); return s; }; c.now(at()); c.trace(); c.state(at()); char d[300]; if (q.barrel) snprintf(d, sizeof d, "<layout type=\"Barrel\" symmetry=\"%d\" phi0=\"%.17g\"/><dimensions inner_r=\"%.17g\" outer_z=\"%.17g\"/>", q.sym, q.phi, q.r0, q.z); else snprintf(d, sizeof d, "<layout type=\"Endcap\" symmetry=\"%d\" phi0=\"%.17g\"/><dimensions inner_r=\"%.17g\" outer_r=\"%.17g\" inner_z=\"%.17g\"/>", q.sym, q.phi, q.r0, q.r1, q.z);
      string f = c.tmpdir + "/g.xml"; rt::spit(f, cat("<gear><detectors><detector name=\"LCal\" geartype=\"CalorimeterParameters\">", d, x, "</detector></detectors></gear>")); string w; try { auto g = rt::load(f); w = wrong(g->getLcalParameters(), q, m); } catch (const std::exception& e) { w = e.what(); }
      if (!c.check(w.empty(), "wrong-layers-from-file", [&] { return at() + " " + w; })) return false; if (int(h.size()) >= (c.thorough ? 4 : 3)) return true; for (int g = 0; g < 20; ++g) { if (!c.thorough && h.size() == 2 && (g + h[1]) % 3) continue; h.push_back(g); bool ok = rec(); h.pop_back(); if (!ok) return false; } return true; }; rec(); });
  c.unit("calorimeter names", [&] { struct S { const char* n; int b, e; }; const S s[] = {{"EcalBarrel", 0, 1}, {"ecal", 0, 1}, {"ECALEndcap", 0, 1}, {"EcalPlug", 2, 2}, {"ecalplug", 2, 2}, {"YokeBarrel", 3, 4}, {"YOKE", 3, 4}, {"YokePlug", 5, 5}, {"LCal", 6, 6}, {"lcal", 6, 6}, {"LHCal", 7, 7}, {"BeamCal", 8, 8}, {"HcalRing", 9, 9}, {"HCALBarrel", 10, 11}, {"hcal", 10, 11}};
    for (auto& x : s) for (bool barrel : {true, false}) { string f = c.tmpdir + "/n.xml", d = barrel ? "<layout type=\"barrel\" symmetry=\"8\" phi0=\"0\"/><dimensions inner_r=\"5\" outer_z=\"6\"/>" : "<layout type=\"ENDCAP\" symmetry=\"2\" phi0=\"0\"/><dimensions inner_r=\"5\" outer_r=\"6\" inner_z=\"7\"/>"; auto at = [&] { return cat(x.n, barrel ? " barrel" : " endcap"); }; c.trace(); c.state(at());
      rt::spit(f, cat("<gear><detectors><detector name=\"", x.n, "\" geartype=\"CalorimeterParameters\">", d, "<layer repeat=\"2\" thickness=\"1\" absorberThickness=\"0\" cellSize0=\"1\" cellSize1=\"1\"/></detector></detectors></gear>")); auto g = rt::load(f);
      typedef const gear::CalorimeterParameters& (gear::GearMgr::*G)() const; const G get[] = {&gear::GearMgr::getEcalBarrelParameters, &gear::GearMgr::getEcalEndcapParameters, &gear::GearMgr::getEcalPlugParameters, &gear::GearMgr::getYokeBarrelParameters, &gear::GearMgr::getYokeEndcapParameters, &gear::GearMgr::getYokePlugParameters, &gear::GearMgr::getLcalParameters, &gear::GearMgr::getLHcalParameters, &gear::GearMgr::getBeamCalParameters, &gear::GearMgr::getHcalRingParameters, &gear::GearMgr::getHcalBarrelParameters, &gear::GearMgr::getHcalEndcapParameters};
      for (int i = 0; i < 12; ++i) { bool there = true; try { there = ((*g).*get[i])().getLayerLayout().getNLayers() == 2; } catch (const gear::Exception&) { there = false; } if (!c.check(there == (i == (barrel ? x.b : x.e)), "wrong-place", [&] { return cat(at(), " slot ", i); })) return; } } });
}
