// C01: TPC descriptions survive writing and reading.  Histories: every pad layout of the grid in a single module;
// every placement of representative layouts; every sequence of modules up to a depth over a small alphabet; TPC level values.
#include "rt.h"
#include "modules.h"
using namespace gear; using namespace mc;
const char* const mc::PROPERTY = "C01"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one TPC description built through the public classes; written, read back, all queries of both compared (every pad, neighbour, extent, module and TPC point query), written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "all pad layouts of the grid (row lists up to length 3 quick / 4 thorough); 11 (quick) / 60 (thorough) layouts x the placement grid; module sequences up to length 2 (quick) / 3 (thorough) over 10 module kinds; TPC values over small grids including awkward decimals";
void mc::explore(Ctx& c) {
  typedef std::function<TPCModuleImpl*(int id, int coord)> MK;
  auto run = [&](const std::string& at, int coord, double drift, double vd, const std::vector<std::pair<std::string, MK>>& mods, int idStep, int par) {
    GearMgrImpl m; TPCParametersImpl* t = new TPCParametersImpl(drift, coord); t->setDriftVelocity(vd); m.setTPCParameters(t); m.setDetectorName("d");
    int id = 3; for (auto& k : mods) { t->addModule(k.second(id, coord)); id += idStep; }
    if (par & 1) { t->setDoubleVal("d", 1. / 3); t->setIntVal("i", -7); t->setStringVal("s", "text"); }
    if (par & 2) { t->setDoubleVals("dv", std::vector<double>{1, 2.5, -1e-7}); t->setIntVals("iv", std::vector<int>{3, -4}); t->setStringVals("sv", std::vector<std::string>{"a", "b"}); t->setDoubleVals("none d", std::vector<double>()); t->setIntVals("none i", std::vector<int>()); t->setStringVals("none s", std::vector<std::string>()); }
    rt::roundTrip(c, m, [&] { std::string s = cat(coord == PadRowLayout2D::CARTESIAN ? "cartesian" : "polar", " drift ", drift, " v ", vd, " par ", par, ": "); for (auto& k : mods) s += k.first + " | "; return at + " " + s; });
  };
  auto own = [](const lay::Cfg& k) { return k.m.polar ? (int)PadRowLayout2D::POLAR : (int)PadRowLayout2D::CARTESIAN; };
  auto mk = [](const lay::Cfg& k, mod::Place p, double freq, int par) -> MK { return [=](int id, int coord) { mod::Place q = p; q.mother = coord; q.freq = freq; TPCModuleImpl* t = mod::make(k, q, id); if (par & 1) { t->setDoubleVal("gain", 0.1); t->setStringVal("chip", "s"); } if (par & 2) { t->setIntVals("iv", std::vector<int>{1}); t->setIntVal("i", 0); } return t; }; };
  // every pad layout
  { std::vector<lay::Cfg> L = lay::configs(c.thorough ? 2 : 1); size_t step = 12;
    for (size_t b = 0; b < L.size(); b += step) c.unit(cat("layouts ", b), [&, b] { for (size_t i = b; i < L.size() && i < b + step; ++i) { run("layout", own(L[i]), 1000, 1, {{L[i].key, mk(L[i], mod::Place(), 10, 0)}}, 1, 0); if (i % 40 == 0) c.sample(L[i].key); } }); }
  // every placement
  { std::vector<lay::Cfg> L = mod::someLayouts(c.thorough ? 2 : 1);
    for (auto& l : L) { auto P = mod::places(1, l.m.polar); size_t step = c.thorough ? 40 : 60;
      for (size_t b = 0; b < P.size(); b += step) c.unit(cat("places ", l.key, " ", b), [&, b, P] { for (size_t i = b; i < P.size() && i < b + step; ++i) run("place", P[i].mother, 1000, 1, {{l.key + " " + P[i].key(), mk(l, P[i], 10, 0)}}, 1, 0); }); } }
  // module sequences
  for (int coord : {(int)PadRowLayout2D::CARTESIAN, (int)PadRowLayout2D::POLAR}) {
    std::vector<std::pair<std::string, MK>> A; auto L = mod::someLayouts(0); int n = 0;
    for (auto& l : L) { if (coord == PadRowLayout2D::POLAR && !l.m.polar) continue;
      for (int v = 0; v < 2; ++v) { mod::Place p; if (v) { p.o0 = 31. / 3; p.o1 = coord == PadRowLayout2D::POLAR ? 0.7 : -12.3; p.angle = 0.1 + n * 0.4; p.border = n % 2 ? 1.7 : 0; p.zset = n % 3 != 0; p.z = n % 2 ? -100. / 7 : 250; }
        double fr = v ? 20e6 + 0.25 : n * 1e-3; int par = v ? 3 : n & 1; ++n; A.push_back({cat(l.key, " v", v, " ", p.key(), " f", fr, " p", par), mk(l, p, fr, par)}); } }
    int depth = c.thorough ? 3 : 2; std::vector<std::vector<int>> seqs{{}};
    for (size_t b = 0; b < seqs.size(); ++b) if ((int)seqs[b].size() < depth) for (size_t k = 0; k < A.size(); ++k) { auto s = seqs[b]; s.push_back(k); seqs.push_back(s); }
    for (size_t b = 0; b < seqs.size(); b += 8) c.unit(cat("sequences ", coord, " ", b), [&, b] { for (size_t i = b; i < seqs.size() && i < b + 8; ++i) { std::vector<std::pair<std::string, MK>> ms; for (int k : seqs[i]) ms.push_back(A[k]); run("seq", coord, 2000, 0.05, ms, i % 3 == 2 ? 5 : 1, i % 4); } });
    // TPC level values
    c.unit(cat("values ", coord), [&] { for (double drift : {0., 2500., 1. / 3, 2.2734e3 + 1e-7, 1e15, 1e-12}) for (double v : {0., 1., 1. / 7, 50.123456789012, -3e-5}) for (int par = 0; par < 4; ++par) for (int nm = 0; nm < 2; ++nm) { std::vector<std::pair<std::string, MK>> ms; if (nm) ms.push_back(A[0]); run("values", coord, drift, v, ms, 1, par); } });
    c.unit(cat("frequencies ", coord), [&] { lay::Cfg l = L[0]; for (double f : {0., 0.5, 1., 1e6, 20e6 + 0.125, 4e10, 1. / 3, 1e-9}) run("freq", coord, 1, 1, {{cat(l.key, " f ", f), mk(l, mod::Place(), f, 0)}}, 1, 0); });
    // the single pad layout interface
    c.unit(cat("setPadLayout ", coord), [&] { for (auto& l : L) { if (own(l) != coord) continue; GearMgrImpl m; TPCParametersImpl* t = new TPCParametersImpl(10, own(l)); t->setPadLayout(l.make()); t->setDriftVelocity(2); t->setReadoutFrequency(12.5); m.setTPCParameters(t); m.setDetectorName("d"); rt::roundTrip(c, m, [&] { return "setPadLayout " + l.key; }); } });
  }
}
