// C02: calorimeter descriptions survive writing and reading.
#include "rt.h"
#include "gearimpl/CalorimeterParametersImpl.h"
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C02"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one set of calorimeter descriptions; written, read back, every query of every slot compared, written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "12 slots with every layout type the slot can hold; contiguous layer sequences of up to 3 (quick) / 4 (thorough) groups over 10 layer kinds (incl. kinds differing in one value by 1e-5 relative or less) x repeats; geometry grids; all single slots, all pairs of slots, all 4096 slot combinations (thorough; every 5th quick); layer stacks start at the inner surface and have no gaps (the format has no place for positions)";
struct L { double t, c0, c1, a; };
struct SlotDef { const char* n; void (GearMgr::*set)(CalorimeterParameters*); int types; };   // 1 barrel, 2 endcap
void mc::explore(Ctx& c) {
  const vector<SlotDef> S = { {"EcalBarrel", &GearMgr::setEcalBarrelParameters, 1}, {"EcalEndcap", &GearMgr::setEcalEndcapParameters, 2}, {"EcalPlug", &GearMgr::setEcalPlugParameters, 3}, {"YokeBarrel", &GearMgr::setYokeBarrelParameters, 1}, {"YokeEndcap", &GearMgr::setYokeEndcapParameters, 2}, {"YokePlug", &GearMgr::setYokePlugParameters, 3}, {"HcalBarrel", &GearMgr::setHcalBarrelParameters, 1}, {"HcalEndcap", &GearMgr::setHcalEndcapParameters, 2}, {"HcalRing", &GearMgr::setHcalRingParameters, 3}, {"Lcal", &GearMgr::setLcalParameters, 3}, {"LHcal", &GearMgr::setLHcalParameters, 3}, {"BeamCal", &GearMgr::setBeamCalParameters, 3} };
  const vector<L> K = { {2, 10, 10, 1}, {2.00001, 10, 10, 1}, {2, 10.0005, 10, 1}, {2, 10, 9.9999, 1}, {2, 10, 10, 1.00002}, {2, 10, 10, 0}, {1. / 3, 0.1, 7, 1e-5}, {0, 0, 0, 0}, {2, 10, 10, 1 + 1e-12}, {123.456789012, 1e-3, 1e3, 50} };
  auto make = [&](int type, double a, double b, double z, int sym, double phi, const vector<std::pair<int, int>>& groups) {
    CalorimeterParametersImpl* p = type == 1 ? new CalorimeterParametersImpl(a, z, sym, phi) : new CalorimeterParametersImpl(a, b, z, sym, phi);
    bool first = true; for (auto& g : groups) for (int i = 0; i < g.second; ++i) { const L& l = K[g.first]; if (first) p->layerLayout().positionLayer(type == 1 ? a : z, l.t, l.c0, l.c1, l.a); else p->layerLayout().addLayer(l.t, l.c0, l.c1, l.a); first = false; }
    return p; };
  auto gs = [](const vector<std::pair<int, int>>& g) { string s; for (auto& x : g) s += cat("k", x.first, "x", x.second, " "); return s; };
  // layer sequences
  vector<vector<std::pair<int, int>>> seqs{{}}; size_t depth = c.thorough ? 4 : 3;
  for (size_t b = 0; b < seqs.size(); ++b) if (seqs[b].size() < depth) for (int k = 0; k < (int)K.size(); ++k) for (int r : {1, 3}) { if (seqs[b].size() && (r == 3) == (k % 2 == 0)) continue; auto s = seqs[b]; s.push_back({k, r}); seqs.push_back(s); }
  for (size_t b = 0; b < seqs.size(); b += 40) c.unit(cat("layers ", b), [&, b] { for (size_t i = b; i < seqs.size() && i < b + 40; ++i) {
    int s = i % S.size(), type = S[s].types == 3 ? 1 + (i / 12) % 2 : S[s].types; GearMgrImpl m; m.setDetectorName("d"); (m.*S[s].set)(make(type, 100, 300.25, 1000, 8, 0.1, seqs[i]));
    auto at = [&] { return cat(S[s].n, " type ", type, " layers ", gs(seqs[i])); }; if (i % 500 == 0) c.sample(at()); rt::roundTrip(c, m, at, 1e-13); } });
  // geometry
  for (size_t s = 0; s < S.size(); ++s) for (int type = 1; type <= 2; ++type) { if (!(S[s].types & type)) continue;
    c.unit(cat("geometry ", S[s].n, " ", type), [&, s, type] {
      for (double a : {0., 1. / 3, 1850.5}) for (double b : {a, 2000.123456789}) for (double z : {0., -5., 2350.75, 1e-4}) for (int sym : {0, 1, 2, 8, 12}) for (double phi : {0., -0.5, M_PI / 8, 1e-5}) for (int n = 0; n < 2; ++n) for (int par = 0; par < (c.thorough ? 4 : 2); ++par) {
        GearMgrImpl m; m.setDetectorName("d"); CalorimeterParametersImpl* p = make(type, a, b, z, sym, phi, n ? vector<std::pair<int, int>>{{6, 2}, {0, 1}} : vector<std::pair<int, int>>{});
        if (par & 1) { p->setDoubleVal("x", 0.1); p->setIntVal("i", 3); } if (par & 2) { p->setStringVal("s", "hello"); p->setDoubleVals("v", vector<double>{1, 2. / 3}); p->setDoubleVals("none", vector<double>()); p->setIntVals("no", vector<int>()); }
        (m.*S[s].set)(p); rt::roundTrip(c, m, [&] { return cat(S[s].n, " type ", type, " a ", a, " b ", b, " z ", z, " sym ", sym, " phi ", phi, " layers ", n, " par ", par); }, 1e-13); } }); }
  // combinations of slots, each with its own values
  for (int b = 0; b < 4096; b += 64) c.unit(cat("combinations ", b), [&, b] { for (int mask = b; mask < b + 64; ++mask) {
    int bits = __builtin_popcount(mask); if (!c.thorough && bits > 2 && bits < 11 && mask % 5) continue;
    GearMgrImpl m; m.setDetectorName("d"); string at; for (int s = 0; s < 12; ++s) if (mask >> s & 1) { int type = S[s].types == 3 ? 1 + (mask >> (s % 4) & 1) : S[s].types; (m.*S[s].set)(make(type, 10 + s, 50 + s, 100 + s, 1 + s, 0.1 * s, {{s % 9, 1 + s % 2}})); at += cat(S[s].n, ":", type, " "); }
    rt::roundTrip(c, m, [&] { return at; }, 1e-13); } });
}
