// C09: inside-pad tests and pad distances agree with the pad geometry.
#include "layouts.h"
namespace mc {
const char* const PROPERTY = "C09";
const char* const LEVEL = "exploration";
const char* const RULE = "every layout configuration x every mesh point (and every corner of pads to the last place) x every pad (quick: pads near the point and the row ends); a case is one (configuration, point); containment is compared with the reference rectangle/annular sector and distance with the Euclidean distance to the effective pad";
const char* const BOUNDS = "row lists up to length 3 (quick) / 4 (thorough) over 5-6 row kinds; azimuths additionally shifted by +-1 turn; points closer than 1e-7 to a pad boundary are not judged for containment";
using namespace lay; using namespace gear;
void explore(Ctx& c) {
  for (auto& cfg : configs(c.thorough ? 2 : 1)) c.unit(cfg.key, [&] {
    std::unique_ptr<PadRowLayout2D> l(cfg.make()); const Model& m = cfg.m;
    int n = 0, nin = 0;
    for (auto& pt : points(m, c.thorough)) {
      c.state(cat(cfg.key, "@", num(pt.first), ",", num(pt.second))); ++n;
      for (int t : {0, 1, -1}) {
        if (!m.polar && t) continue;
        double a = pt.first, b = pt.second + (m.polar ? t * 2 * M_PI : 0);
        int inside = 0, unsure = 0;
        for (size_t i = 0; i < m.rows.size(); ++i) for (int k = 0; k < m.rows[i].n; ++k) {
          double mg = insideMargin(m, i, k, a, b);
          bool full = m.rows[i].n == 1 && m.rows[i].closed;
          auto at = [&] { return cat("point (", num(a), ",", num(b), ") pad ", i, ",", k); };
          int idx = ((int)i << 16) | k;
          if (std::fabs(mg) < 1e-7) ++unsure; else if (mg > 0) ++inside;
          bool detail = c.thorough || mg > -1 || k < 2 || k + 2 >= m.rows[i].n;
          if (!detail) continue;
          if (std::fabs(mg) >= 1e-7) {
            bool in = l->isInsidePad(a, b, idx);
            c.check(in == (mg > 0), mg > 0 ? "inside-pad-denied" : "outside-pad-claimed", at);
          }
          double want = cellDistance(m, i, k, a, b), got = l->getDistanceToPad(a, b, idx);
          c.check(near(got, want, 1e-6 + 1e-7 * std::fabs(pt.first)) && (want > 1e-9 || full || got == 0 || mg < 1e-7), "distance-to-pad", [&] { return cat(at(), " got ", got, " expected ", want); });
        }
        if (!unsure) {
          if (inside) ++nin;
          c.check(inside <= 1, "pads-overlap", [&] { return cat("(", num(a), ",", num(b), ") inside ", inside); });
          bool any = l->isInsidePad(a, b);
          c.check(any == (inside > 0), inside ? "inside-some-pad-denied" : "inside-some-pad-claimed", [&] { return cat("(", num(a), ",", num(b), ")"); });
        }
      }
    }
    c.trace();
    c.sample(cat(cfg.key, ": ", n, " points, ", nin, " inside pads"));
  });
}
}
