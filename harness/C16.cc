// C16: TPC point queries pick the right module, pad and half.
#include "modules.h"
namespace mc {
const char* const PROPERTY = "C16";
const char* const LEVEL = "exploration";
const char* const RULE = "every ordered set of up to 3 modules from the placement palette x every mesh point (inside, border, between and far outside the modules) x every z class (none, far on both sides, one below/at/above the cathode, which follows from the first module with a z position of each half and the drift length, whatever the order of modules and drift length changes), on the TPC and on a copy of it; answers compared with an independently computed distance/containment over the modules of the half";
const char* const BOUNDS = "palette of 13 (Cartesian) and 9 (polar) module placements with z in {unset,+,-,0}; all sets of size 1 and 2 in both orders, size 3 in all orders, size 4 (thorough) in one order per last module; 100-300 points, 6 z classes";
using namespace mod; using namespace gear;
struct Pal { Cfg cfg; Place p; };
static std::vector<Pal> palette(int mother) {
  std::vector<Cfg> L = someLayouts(1); std::vector<Pal> out;
  auto add = [&](int k, double o0, double o1, double ang, double b, int zk) { Place p; p.mother = mother; p.o0 = o0; p.o1 = o1; p.angle = ang; p.border = b; p.zset = zk != 9; p.z = zk == 9 ? 1 : zk > 0 ? 100 : zk < 0 ? -60 : 0; p.freq = 1; out.push_back({L[k], p}); };
  if (mother == PadRowLayout2D::CARTESIAN) {
    add(3, 0, 0, 0, 0, 9); add(3, 20, 0, 0.4, 1, 1); add(3, 0, 0, 0, 0, -1); add(0, 0, 0, 0, 0, 1); add(0, 0, 0, 0, 0, -1); add(2, 5, 5, 1, 2, 9); add(4, -10, 3, 2.5, 0, -1); add(2, 0, 0, 3, 0, 1); add(6, 0, 0, 0, 0.5, -1); add(9, 12, -8, -1, 0, 1); add(8, -20, -20, 4.5, 3, 0); add(10, 1, 1, 0.2, 0, 9); add(1, 30, 0, 3.1, 1, -1);
  } else { add(0, 0, 0, 0, 0, 9); add(0, 0, 0, 0, 1, -1); add(1, 0, 0, 1.5, 0, 1); add(2, 20, 1, 0.4, 1, 1); add(4, 10, -2, 2.5, 0, -1); add(5, 0, 0, 3, 0, 1); add(6, 5, 3, 0, 0.5, 0); add(10, 30, 0.5, 0.2, 0, 9); add(2, 0, 0, 3, 2, -1); }
  return out;
}
// margin to the border of the module area (local coordinates), > 0 inside
static double areaMargin(const Model& m, const std::vector<double>& e, double a, double b) {
  if (!m.polar) return std::min(std::min(a - e[0], e[1] - a), std::min(b - e[2], e[3] - b));
  double r = std::min(e[0] <= 0 ? 1e9 : a - e[0], e[1] - a), half = 0.5 * (e[3] - e[2]);
  if (half >= M_PI - 1e-9) return r;
  return std::min(r, half - std::fabs(wrapPi(b - 0.5 * (e[2] + e[3]))));
}
struct Ref { double dist, area; double pad; bool padTie; double in; };   // in: best inside margin over pads (sign matters)
static Ref reference(const Pal& q, XY g) {
  XY l = g2l(q.p, g); double a, b; fromXY(q.cfg.m.polar, l, a, b); const Model& m = q.cfg.m; std::vector<double> e = localModuleExtent(m, q.p.border);
  Ref r; r.dist = m.polar ? boxDistance(true, a, b, e[0], e[1], e[2], e[3]) : boxDistance(false, a, b, e[2], e[3], e[0], e[1]); r.area = areaMargin(m, e, a, b);
  r.pad = 1e300; r.padTie = false; r.in = -1e300; double edge = 1e300;
  double bestRow = 1e300; auto rowDist = [&](const MRow& w) { return std::max(std::fabs(b - w.mid()) - w.padH / 2, 0.); };   // rectangular: rows are chosen by the distance in y to their pads
  if (!m.polar) for (auto& w : m.rows) bestRow = std::min(bestRow, rowDist(w));
  int rows = 0;
  for (size_t i = 0; i < m.rows.size(); ++i) { const MRow& w = m.rows[i]; double dy = m.polar ? 0 : rowDist(w);
    bool use = m.polar || dy <= bestRow + 1e-6; if (!m.polar && use) ++rows;
    for (int k = 0; k < w.n; ++k) { if (use) r.pad = std::min(r.pad, cellDistance(m, i, k, a, b)); double im = insideMargin(m, i, k, a, b); r.in = std::max(r.in, im); edge = std::min(edge, std::fabs(im)); } }
  if (rows > 1) r.padTie = true;
  if (edge < 1e-6) r.in = 0;
  return r;
}
static void runSet(Ctx& c, int mother, const std::vector<Pal>& P, const std::vector<int>& set, bool th) {
  bool polar = mother == PadRowLayout2D::POLAR; std::string key = polar ? "P" : "C"; for (int i : set) key += cat(" #", i);
  c.now(key); int sum = 0; for (int i : set) sum += i; const bool late = sum % 2;   // half of the sets change the drift length during the history
  TPCParametersImpl t(late ? 311 : 500, mother); bool anyPos = false, anyNeg = false; double zn = 0, zp = 0;
  for (size_t k = 0; k < set.size(); ++k) { const Pal& q = P[set[k]]; t.addModule(make(q.cfg, q.p, 10 + k)); if (late && k == (sum / 2) % set.size()) t.setMaxDriftLength(500); if (!q.p.zset) continue; if (q.p.z > 0) { if (!anyPos) zp = q.p.z; anyPos = true; } else { if (!anyNeg) zn = q.p.z; anyNeg = true; } }
  TPCParametersImpl u(t); TPCParametersImpl v(1, mother); v = u;
  double cathode = anyPos && anyNeg ? (zp + zn) / 2 : anyPos ? zp - 500 : anyNeg ? zn + 500 : 0;
  // mesh in global cartesian coordinates: each module's area (local mesh mapped out), plus far points
  std::vector<XY> pts; for (int i : set) { const Pal& q = P[i]; std::vector<double> e = localModuleExtent(q.cfg.m, q.p.border); double d0 = e[1] - e[0], d1 = e[3] - e[2];
    std::vector<double> f = th ? std::vector<double>{-0.3, -0.013, 0.011, 0.21, 0.47, 0.52, 0.83, 0.97, 1.02, 1.4} : std::vector<double>{-0.3, 0.011, 0.22, 0.53, 0.83, 1.013};
    // the corners of the module area to the last place (exact for modules in place, blurred by the transform for others)
    for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) for (int u = -1; u <= 1; ++u) for (int w = -1; w <= 1; ++w) { double a = e[x], b = e[2 + y]; if (u) a = std::nextafter(a, u * 1e9); if (w) b = std::nextafter(b, w * 1e9); if (q.cfg.m.polar && a <= 1e-3) continue; pts.push_back(l2g(q.p, toXY(q.cfg.m.polar, a, b))); }
    for (double x : f) for (double y : f) { double a = e[0] + x * d0, b = e[2] + y * d1; if (q.cfg.m.polar && a <= 0) a = 0.31; pts.push_back(l2g(q.p, toXY(q.cfg.m.polar, a, b))); } }
  pts.push_back({900, 411}); pts.push_back({-700, 302}); pts.push_back({13.3, -800}); pts.push_back({-0.7, 0.3});
  struct ZC { bool use; double z; const char* n; };
  std::vector<ZC> zs = {{false, 0, "no z"}, {true, 1e4, "z=1e4"}, {true, -1e4, "z=-1e4"}}; zs.push_back({true, cathode - 1, "cathode-1"}); zs.push_back({true, cathode, "cathode"}); zs.push_back({true, cathode + 1, "cathode+1"});
  for (auto& g : pts) {
    double g0, g1; fromXY(polar, g, g0, g1); if (polar && g0 < 1e-3) continue;
    std::vector<Ref> R; for (int i : set) R.push_back(reference(P[i], g));
    for (size_t k = 0; k < set.size(); ++k) { const TPCModule& m = t.getModule(10 + k);
      c.check(nearAbs(m.getDistanceToModule(g0, g1), R[k].dist, 1e-6 * (1 + std::fabs(R[k].dist))), "module-distance", [&] { return cat(key, " module ", k, " (", P[set[k]].cfg.key, " ", P[set[k]].p.key(), ") at ", num(g0), ",", num(g1), " got ", m.getDistanceToModule(g0, g1), " expected ", R[k].dist); });
      if (std::fabs(R[k].area) > 1e-6) c.check(m.isInsideModule(g0, g1) == (R[k].area > 0), "inside-one-module", [&] { return cat(key, " module ", k, " (", P[set[k]].cfg.key, " ", P[set[k]].p.key(), ") at ", num(g0), ",", num(g1)); }); }
    for (auto& z : zs) for (int which = 0; which < 3; ++which) {
      const TPCParametersImpl& T = which == 0 ? t : which == 1 ? u : v; 
      std::vector<int> half; for (size_t k = 0; k < set.size(); ++k) { const Place& p = P[set[k]].p; if (!z.use || !p.zset || (p.z <= 0) == (z.z <= cathode)) half.push_back(k); }
      auto at = [&] { return cat(key, which ? which == 1 ? " copy" : " assigned" : "", " point ", num(g0), ",", num(g1), " ", z.n); };
      double best = 1e300, bestPad = 1e300; bool in = false, inEdge = false, pin = false, pinEdge = false, tie = false;
      for (int k : half) { best = std::min(best, R[k].dist); bestPad = std::min(bestPad, R[k].pad); tie = tie || R[k].padTie; in = in || R[k].area > 0; inEdge = inEdge || std::fabs(R[k].area) < 1e-6; pin = pin || R[k].in > 0; pinEdge = pinEdge || R[k].in == 0; }
      if (which && z.use && !half.empty() && best > 5 && &g != &pts.back()) continue;      // copies: fewer points
      try { const TPCModule& n = z.use ? T.getNearestModule(g0, g1, z.z) : T.getNearestModule(g0, g1); int k = n.getModuleID() - 10;
        bool member = std::find(half.begin(), half.end(), k) != half.end(); c.check(member && &T.getModule(10 + k) == &n, "nearest-module-of-wrong-half", at); if (member) c.check(R[k].dist <= best + 1e-6 * (1 + best), "nearest-module-not-nearest", [&] { return cat(at(), " got ", k, " at ", R[k].dist, " best ", best); });
      } catch (gear::Exception&) { c.check(half.empty(), "nearest-module-refused", at); }
      try { GlobalPadIndex n = z.use ? T.getNearestPad(g0, g1, z.z) : T.getNearestPad(g0, g1); int k = n.getModuleID() - 10; bool member = std::find(half.begin(), half.end(), k) != half.end(); c.check(member, "nearest-pad-of-wrong-half", at);
        if (member && !tie) { const Pal& q = P[set[k]]; XY l = g2l(q.p, g); double a, b; fromXY(q.cfg.m.polar, l, a, b); const TPCModule& m = T.getModule(10 + k);
          bool valid = n.getPadIndex() >= 0; int row = valid ? m.getRowNumber(n.getPadIndex()) : 0, pad = valid ? m.getPadNumber(n.getPadIndex()) : 0; valid = valid && row >= 0 && row < (int)q.cfg.m.rows.size() && pad >= 0 && pad < q.cfg.m.rows[row].n;
          c.check(valid, "nearest-pad-invalid", at); if (valid) { double d = cellDistance(q.cfg.m, row, pad, a, b); c.check(d <= bestPad + 1e-6 * (1 + bestPad), "nearest-pad-not-nearest", [&] { return cat(at(), " got module ", k, " pad ", n.getPadIndex(), " at ", d, " best ", bestPad); }); } }
      } catch (gear::Exception&) { c.check(half.empty(), "nearest-pad-refused", at); }
      if (!inEdge) c.check((z.use ? T.isInsideModule(g0, g1, z.z) : T.isInsideModule(g0, g1)) == in, "inside-module", at);
      if (!pinEdge) c.check((z.use ? T.isInsidePad(g0, g1, z.z) : T.isInsidePad(g0, g1)) == pin, "inside-pad", at);
    }
  }
  c.trace(); c.state(key);
}
void explore(Ctx& c) {
  for (int mother : {PadRowLayout2D::CARTESIAN, PadRowLayout2D::POLAR}) {
    std::vector<Pal> P = palette(mother); int n = P.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.unit(cat(mother == PadRowLayout2D::POLAR ? "P " : "C ", i, " ", j), [&] {
      if (i == j) { runSet(c, mother, P, {i}, true); c.sample(cat("single module ", P[i].cfg.key, " at ", P[i].p.key())); return; }
      runSet(c, mother, P, {i, j}, true);
      for (int k = 0; k < n; ++k) if (k != i && k != j) { runSet(c, mother, P, {i, j, k}, c.thorough || (i < j && j < k)); if (c.thorough && i < j && j < k) for (int l = 0; l < n; ++l) if (l != i && l != j && l != k) runSet(c, mother, P, {i, j, k, l}, false); }
      c.sample(cat("modules ", P[i].cfg.key, " at ", P[i].p.key(), " and ", P[j].cfg.key, " at ", P[j].p.key()));
    });
  }
}
}
