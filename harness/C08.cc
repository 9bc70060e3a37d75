// C08: the nearest pad is the pad with the smallest distance.
#include "layouts.h"
namespace mc {
const char* const PROPERTY = "C08";
const char* const LEVEL = "exploration";
const char* const RULE = "every layout configuration x every mesh point (inside, on cell borders, in gaps, outside on all sides, at the corners of pads to the last place) x azimuth expressed with 0, +-1 (thorough +-2) extra turns; a case is one (configuration, point) pair and each is compared with a brute-force scan over all pads of the reference model";
const char* const BOUNDS = "row lists up to length 3 (quick) / 4 (thorough) over 5-6 row kinds; up to 60 (quick) azimuths/x per row list and 7-9 radii/y per row";
using namespace lay; using namespace gear;
void explore(Ctx& c) {
  std::vector<int> turns = c.thorough ? std::vector<int>{0, 1, -1, 2, -2} : std::vector<int>{0, 1, -1};
  for (auto& cfg : configs(c.thorough ? 2 : 1)) c.unit(cfg.key, [&] {
    std::unique_ptr<PadRowLayout2D> l(cfg.make()); const Model& m = cfg.m;
    int np = 0, nout = 0;
    for (auto& pt : points(m, c.thorough)) {
      double best = 1e300; double rowBest = 1e300;
      std::vector<double> rowd(m.rows.size());
      if (m.polar) {
        for (size_t i = 0; i < m.rows.size(); ++i) for (int k = 0; k < m.rows[i].n; ++k) best = std::min(best, cellDistance(m, i, k, pt.first, pt.second));
      } else {
        for (size_t i = 0; i < m.rows.size(); ++i) { const MRow& r = m.rows[i]; double y = std::min(std::max(pt.second, m.ext[2]), m.ext[3]);
          rowd[i] = std::max(0., std::fabs(y - r.mid()) - r.padH / 2); rowBest = std::min(rowBest, rowd[i]); }
      }
      c.state(cat(cfg.key, "@", num(pt.first), ",", num(pt.second)));
      ++np;
      for (int t : turns) {
        if (!m.polar && t) continue;
        double a = pt.first, b = pt.second + (m.polar ? t * 2 * M_PI : 0);
        auto at = [&](int idx) { return cat("point (", num(a), ",", num(b), ") -> row ", idx >> 16, " pad ", idx & 0xffff); };
        int idx = l->getNearestPad(a, b);
        int row = (idx & 0xffff0000) >> 16, pad = idx & 0xffff;
        if (!c.check(row >= 0 && row < (int)m.rows.size() && pad >= 0 && pad < m.rows[row].n, "nearest-pad-does-not-exist", [&] { return at(idx); })) continue;
        if (m.polar) {
          double d = cellDistance(m, row, pad, a, b);
          if (best > 1e-9) ++nout;
          c.check(d <= best + 1e-6, best < 1e-9 ? "nearest-pad-is-not-the-containing-pad" : "nearest-pad-is-not-nearest", [&] { return cat(at(idx), " distance ", d, " but best is ", best); });
        } else {
          const MRow& r = m.rows[row];
          c.check(rowd[row] <= rowBest + 1e-6, "nearest-pad-not-in-nearest-row", [&] { return cat(at(idx), " row distance ", rowd[row], " but best is ", rowBest); });
          double dx = std::max(0., std::fabs(a - r.center(pad)) - r.pitch / 2), bx = 1e300;
          for (int k = 0; k < r.n; ++k) bx = std::min(bx, std::max(0., std::fabs(a - r.center(k)) - r.pitch / 2));
          c.check(dx <= bx + 1e-6, "nearest-pad-not-nearest-in-its-row", [&] { return cat(at(idx), " x distance ", dx, " but best is ", bx); });
          if (bx > 1e-9 || rowBest > 1e-9) ++nout;
        }
      }
    }
    // centres of all pads, and indices taken from the layout itself
    for (size_t i = 0; i < m.rows.size(); ++i) for (int p : l->getPadsInRow(i)) for (int t : turns) {
      if (!m.polar && t) continue;
      Vector2D ctr = l->getPadCenter(p); int q = l->getNearestPad(ctr[0], ctr[1] + (m.polar ? t * 2 * M_PI : 0));
      c.check(q == p, "centre-not-nearest-to-own-pad", [&] { return cat("pad ", p >> 16, ",", p & 0xffff, " turns ", t, " -> ", q >> 16, ",", q & 0xffff); });
    }
    c.trace();
    c.sample(cat(cfg.key, ": ", np, " points, ", nout, " outside every pad"));
  });
}
}
