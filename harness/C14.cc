// C14: the state of a module depends only on the values set, not on their order.
#include "dump.h"
#include "modules.h"
#include <map>
#include <set>
namespace mc {
const char* const PROPERTY = "C14";
const char* const LEVEL = "model_checking";
const char* const RULE = "every setter history up to the depth bound is executed on a real module; its complete observable state must equal that of the module built by the shortest history reaching the same model state (the last value of each attribute, set once, in a fixed order)";
const char* const BOUNDS = "layouts of every type x both end-plate coordinate types; setters offset(3 values) angle(3) border(3) z(3) frequency(2); histories up to length 4 (quick) / 5 (thorough)";
using namespace mod; using namespace gear; using dmp::Dump;
struct S { int v[5]; };   // 0 = never set, k = k-th value
static const double OFF[3][2] = {{30, 1.2}, {-9, 2}, {0, 0}}, ANG[3] = {0.7, -2.5, 0}, BOR[3] = {1.5, 25, 0}, Z[3] = {100, -100, 0}, FR[2] = {5e6, 0};
static const int NV[5] = {3, 3, 3, 3, 2};
static void set(TPCModuleImpl& t, int a, int k) {
  switch (a) { case 0: t.setOffset(OFF[k][0], OFF[k][1]); break; case 1: t.setAngle(ANG[k]); break; case 2: t.setBorderWidth(BOR[k]); break; case 3: t.setZPosition(Z[k]); break; case 4: t.setReadoutFrequency(FR[k]); break; }
}
static std::string nm(int a, int k) { static const char* n[] = {"offset", "angle", "border", "z", "freq"}; return cat(n[a], k); }
void explore(Ctx& c) {
  int depth = c.thorough ? 5 : 4;
  std::vector<lay::Cfg> ls; lay::Cfg q;
  ls.push_back(fixedAngleCfg(10, 22, 1, -0.3, 0.5, 2)); ls.push_back(rectCfg(-4, 8, 3, { {1, 2, 2, 3, 0, 0, 0} }, 0)); if (versCfg(20, { {3, 2, 4, 0, 0, 0, 1} }, q)) ls.push_back(q);
  ls.push_back(fixedAngleCfg(10, 22, 1, 0, 2 * M_PI, 3));
  if (c.thorough) { if (fixedSizeCfg(10, 22, 9, 9, 1, 0, 0.7, q)) ls.push_back(q); ls.push_back(fixedAngleCfg(10, 22, 1, 2, 2 + 1.6 * M_PI, 3)); }
  for (auto& cfg : ls) for (int mother : {PadRowLayout2D::CARTESIAN, PadRowLayout2D::POLAR}) {
    if (mother == PadRowLayout2D::POLAR && !cfg.m.polar) continue;
    for (int a0 = 0; a0 < 5; ++a0) for (int k0 = 0; k0 < NV[a0]; ++k0) for (int part = 0; part < 5; ++part) c.unit(cat(mother, " ", cfg.key, " ", nm(a0, k0), " then ", nm(part, 0).substr(0, nm(part, 0).size() - 1)), [&] {
      std::map<std::string, Dump> ref;
      auto fresh = [&] { return std::unique_ptr<TPCModuleImpl>(new TPCModuleImpl(7, cfg.make(), mother, 11.)); };
      auto take = [&](TPCModuleImpl& t) { Dump d; dmp::module(d, t); return d; };
      auto expected = [&](const S& s, const std::string& key) -> const Dump& { auto it = ref.find(key); if (it != ref.end()) return it->second; auto t = fresh(); for (int a = 0; a < 5; ++a) if (s.v[a]) set(*t, a, s.v[a] - 1); return ref[key] = take(*t); };
      std::vector<std::pair<int, int>> h;
      std::function<void(S)> dfs = [&](S s) {
        std::string hs; for (auto& e : h) hs += nm(e.first, e.second) + " "; c.now(hs);
        auto t = fresh(); for (auto& e : h) { set(*t, e.first, e.second); c.transitions(); }
        std::string key; for (int a = 0; a < 5; ++a) key += char('0' + s.v[a]); c.state(cat(mother, cfg.key, key)); c.trace();
        // numbers are recomputed from the same inputs: equal up to rounding noise
        std::string df = dmp::diff(expected(s, key), take(*t), 1e-9); if (!df.empty()) c.fail("order-dependent-state", cat("history ", hs, ": ", df));
        // and what was set is what is reported
        bool ok = t->getAngle() == (s.v[1] ? ANG[s.v[1] - 1] : 0) && t->getBorderWidth() == (s.v[2] ? BOR[s.v[2] - 1] : 0) && t->getReadoutFrequency() == (s.v[4] ? FR[s.v[4] - 1] : 11.) && t->getOffset()[0] == (s.v[0] ? OFF[s.v[0] - 1][0] : 0) && t->getOffset()[1] == (s.v[0] ? OFF[s.v[0] - 1][1] : 0);
        try { double z = t->getZPosition(); ok = ok && s.v[3] && z == Z[s.v[3] - 1]; } catch (TPCModule::NoZPositionException&) { ok = ok && !s.v[3]; }
        c.check(ok, "reported-value", [&] { return "history " + hs; });
        if ((int)h.size() >= depth) return;
        for (int a = 0; a < 5; ++a) for (int k = 0; k < NV[a]; ++k) { if (h.size() == 1 && a != part) continue; S n = s; n.v[a] = k + 1; h.push_back({a, k}); dfs(n); h.pop_back(); }
      };
      S s{}; s.v[a0] = k0 + 1; h.push_back({a0, k0}); dfs(s);
      c.sample(cat(cfg.key, ": all histories starting with ", nm(a0, k0)));
    });
  }
}
}
