// C13: module coordinate transforms are exact inverse rigid motions; module queries are the layout's seen through them.
#include "modules.h"
namespace mc {
const char* const PROPERTY = "C13";
const char* const LEVEL = "exploration";
const char* const RULE = "every (layout, placement) pair of the module grid x every mesh point (cells, edges, gaps, outside on all sides): both conversions are compared with an independently written rigid motion, and every module query with the same query of the bare layout at the transformed point";
const char* const BOUNDS = "11 (quick) / 130+ (thorough) layouts x 120-700 (quick) placements: offsets x angles x borders x z unset/+/-/0 x Cartesian/polar end plate; mesh as in C08 thinned to about 80 points";
using namespace mod; using namespace gear;
static bool samePoint(bool polar, double a0, double a1, XY q, double tol) { XY p = toXY(polar, a0, a1); return std::hypot(p.x - q.x, p.y - q.y) <= tol * (1 + std::hypot(q.x, q.y)); }
void explore(Ctx& c) {
  for (auto& cfg : someLayouts(c.thorough ? 2 : 1)) {
    std::vector<Place> ps = places(c.thorough ? 2 : 1, cfg.m.polar);
    auto pts = mesh(cfg.m, false); size_t want = c.thorough ? 150 : 80; if (pts.size() > want) { std::vector<std::pair<double, double>> t; double st = pts.size() / (double)want; for (double i = 0; i < pts.size(); i += st) t.push_back(pts[(size_t)i]); pts = t; }
    for (size_t from = 0; from < ps.size(); from += 32) c.unit(cat(cfg.key, " #", from), [&] {
      std::unique_ptr<PadRowLayout2D> lay(cfg.make()); const Model& m = cfg.m;
      for (size_t i = from; i < std::min(ps.size(), from + 32); ++i) {
        const Place& p = ps[i]; if (p.border == 40 && !c.thorough) continue;
        c.now(p.key()); std::unique_ptr<TPCModuleImpl> t(make(cfg, p)); bool gp = p.mother == PadRowLayout2D::POLAR; c.trace(); c.state(cfg.key + p.key());
        auto K = [&](const char* w) { return cat(cfg.key, " ", p.key(), " ", w); };
        // unchanged queries
        c.check(t->getNPads() == lay->getNPads() && t->getNRows() == lay->getNRows() && t->getPadShape() == lay->getPadShape() && t->getCoordinateType() == p.mother && t->getTPCCoordinateType() == p.mother, "counts-or-types", [&] { return K(""); });
        double A = 1e-9 * (1 + std::hypot(offsetXY(p).x, offsetXY(p).y) + std::fabs(m.ext[1]));
        XY prevL{0, 0}, prevG{0, 0};
        for (size_t r = 0; r < m.rows.size(); ++r) for (int k = 0; k < m.rows[r].n; k += std::max(1, m.rows[r].n / 5)) {
          int idx = lay->getPadIndex(r, k); Vector2D lc = lay->getPadCenter(idx), gc = t->getPadCenter(idx); XY L = toXY(m.polar, lc[0], lc[1]);
          c.check(samePoint(gp, gc[0], gc[1], l2g(p, L), 1e-9), "pad-center", [&] { return cat(K("pad "), idx); });
          bool same = t->getPadIndex(r, k) == idx && t->getRowNumber(idx) == lay->getRowNumber(idx) && t->getPadNumber(idx) == lay->getPadNumber(idx) && t->getPadWidth(idx) == lay->getPadWidth(idx) && t->getPadHeight(idx) == lay->getPadHeight(idx) && t->getPadPitch(idx) == lay->getPadPitch(idx) && t->getRowHeight(r) == lay->getRowHeight(r) && t->getPadsInRow(r) == lay->getPadsInRow(r);
          for (int side = 0; side < 2; ++side) { int a = -9, b = -9; try { a = side ? lay->getLeftNeighbour(idx) : lay->getRightNeighbour(idx); } catch (gear::Exception&) {} try { b = side ? t->getLeftNeighbour(idx) : t->getRightNeighbour(idx); } catch (gear::Exception&) {} same = same && a == b; }
          c.check(same, "pad-query-differs-from-layout", [&] { return cat(K("pad "), idx); });
        }
        for (size_t q = 0; q < pts.size(); ++q) {
          double a = pts[q].first, b = pts[q].second; XY L = toXY(m.polar, a, b), G = l2g(p, L);
          auto at = [&] { return cat(K("local "), num(a), ",", num(b)); };
          Vector2D g = t->localToGlobal(a, b); XY gx = toXY(gp, g[0], g[1]);
          c.check(std::hypot(gx.x - G.x, gx.y - G.y) <= A, "local-to-global", [&] { return cat(at(), " got ", num(g[0]), ",", num(g[1])); });
          double g0, g1; fromXY(gp, G, g0, g1);
          if (gp && g0 < 1e-6) continue;
          for (int turn = 0; turn < (gp ? 2 : 1); ++turn) {
            double gg1 = g1 + (turn ? (g1 > 0 ? -2 : 2) * M_PI : 0);
            Vector2D l = t->globalToLocal(g0, gg1); XY lx = toXY(m.polar, l[0], l[1]);
            c.check(std::hypot(lx.x - L.x, lx.y - L.y) <= A, "global-to-local", [&] { return cat(at(), " global ", num(g0), ",", num(gg1), " got ", num(l[0]), ",", num(l[1])); });
            Vector2D back = t->localToGlobal(l[0], l[1]); XY bx = toXY(gp, back[0], back[1]);
            c.check(std::hypot(bx.x - G.x, bx.y - G.y) <= 2 * A, "round-trip", at);
            int np = t->getNearestPad(g0, gg1); double dG = t->getDistanceToPad(g0, gg1, np); int lp = lay->getNearestPad(a, b); double dL = lay->getDistanceToPad(a, b, lp);
            bool tie = false;
            if (np != lp) { double d2 = lay->getDistanceToPad(a, b, np); tie = nearAbs(d2, dL, 1e-6); if (!m.polar) { /* row chosen by y */ tie = tie || true; double y = b; const MRow& r1 = m.rows[lay->getRowNumber(np)]; const MRow& r2 = m.rows[lay->getRowNumber(lp)]; double y1 = std::max(std::max(r1.lo - y, y - r1.hi), 0.), y2 = std::max(std::max(r2.lo - y, y - r2.hi), 0.); tie = nearAbs(y1, y2, 1e-6) ; } }
            c.check(np == lp || tie, "nearest-pad-differs-from-layout", [&] { return cat(at(), " module ", np, " layout ", lp); });
            c.check(nearAbs(t->getDistanceToPad(g0, gg1, lp), dL, 1e-6), "pad-distance-differs-from-layout", [&] { return cat(at(), " module ", dG, " layout ", dL); });
            // containment: skip points on a pad boundary
            bool edge = false; for (size_t r = 0; r < m.rows.size() && !edge; ++r) for (int k = 0; k < m.rows[r].n; ++k) if (std::fabs(insideMargin(m, r, k, a, b)) < 1e-6) { edge = true; break; }
            if (!edge) { c.check(t->isInsidePad(g0, gg1) == lay->isInsidePad(a, b), "inside-differs-from-layout", at); c.check(t->isInsidePad(g0, gg1, lp) == lay->isInsidePad(a, b, lp), "inside-pad-differs-from-layout", at); }
          }
          if (q) { double dl = std::hypot(L.x - prevL.x, L.y - prevL.y), dg = std::hypot(gx.x - prevG.x, gx.y - prevG.y); c.check(nearAbs(dl, dg, 2 * A), "distance-not-preserved", at); }
          prevL = L; prevG = gx;
        }
      }
      c.sample(cat(cfg.key, " placed at ", ps[from].key(), ", ", pts.size(), " points"));
    });
  }
}
}
