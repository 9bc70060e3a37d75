// C40: the angular view of a silicon ladder agrees with its cross section.
#include "zpl.h"
#include "gear/ZPlanarLayerLayout.h"
using namespace mc; using std::vector; using std::string; using namespace zpl;
const char* const mc::PROPERTY = "C40"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one layer (ladder or sensitive) and one angle; the start and end angles of both faces and the path length under that angle are compared with the intersection of the ray with the rectangle given by distance, thickness, width and offset; angles closer than 1e-7 to a corner of the rectangle are not used; distinct = different (layer, part, angle)";
const char* const mc::BOUNDS = "layers: 12 phi offsets (-40 to 20 rad) x 9 offsets (also beyond half the width on both sides) x 4 thicknesses x 3 widths x 2 distances, sensitive part narrower or wider than the ladder and shifted against it, alone and as second of two layers; angles: a full turn in steps of 1 degree (thorough 0.25), every corner of the cross section approached from both sides (1e-6, 1e-3), the four centres, and all of them moved by -2 pi, 2 pi and 6 pi";
void mc::explore(Ctx& c) {
  const double PHI[] = {0, 0.3, M_PI / 2, M_PI, -1, 3 * M_PI / 2, 4, -5, 2 * M_PI + 0.1, 20, -40, -M_PI / 2}, OFF[] = {0, 2, -3, 9.9, -9.9, 10.5, -10.5, 25, -25}, TH[] = {0.05, 0.5, 3, 20}, WD[] = {20, 5, 60}, DI[] = {15, 80}; int n = 0;
  for (double phi : PHI) for (double off : OFF) for (double th : TH) for (double wd : WD) { ++n; Cfg g; for (double di : DI) { Layer y{n % 7 + 1, phi, {di, off, th, 50, wd}, {di + th / 3, off / 2 + 0.3, th / 2, 45, wd * (n % 2 ? 0.8 : 1.3)}}; g.lay.push_back(y); } if (n % 2) std::swap(g.lay[0], g.lay[1]); g.gap = 0; g.shell = 0;
    c.unit(show(g), [&c, g, n] { auto p = make(g); c.trace(); const gear::ZPlanarLayerLayoutImpl& y = dynamic_cast<const gear::ZPlanarLayerLayoutImpl&>(p->getZPlanarLayerLayout());
      for (size_t l = 0; l < g.lay.size(); ++l) for (bool sens : {false, true}) { const Vol& o = sens ? g.lay[l].sen : g.lay[l].lad; const double mid = M_PI / 2 - g.lay[l].phi0, a = -o.width / 2 - o.off, b = o.width / 2 - o.off, near = o.dist, far = o.dist + o.thick; const double K[4] = {std::atan(a / near), std::atan(b / near), std::atan(a / far), std::atan(b / far)};
        const double R[4] = {y.getStartInnerPhi(l, sens), y.getEndInnerPhi(l, sens), y.getStartOuterPhi(l, sens), y.getEndOuterPhi(l, sens)};
        for (int k = 0; k < 4; ++k) { c.state(cat(n, l, sens, "k", k)); if (!c.check(std::fabs(R[k] - mid - K[k]) < 1e-6, "wrong-edge-angle", [&] { return cat("layer ", l, sens ? " sensitive" : " ladder", k % 2 ? " end" : " start", k < 2 ? " inner" : " outer", " angle ", R[k], " expected ", mid + K[k]); })) return; }
        vector<double> T; int steps = c.thorough ? 1440 : 360; for (int i = 0; i < steps; ++i) T.push_back(-M_PI + (i + 0.37) * 2 * M_PI / steps); for (double k : K) for (double d : {-1e-3, -1e-6, 1e-6, 1e-3}) T.push_back(k + d); for (double k : {0., M_PI / 2 - 1e-6, M_PI / 2 + 1e-6, -M_PI / 2 + 1e-6, -M_PI / 2 - 1e-6, (K[0] + K[1]) / 2, (K[0] + K[2]) / 2, (K[1] + K[3]) / 2, (K[2] + K[3]) / 2}) T.push_back(k);
        for (double t : T) { bool edge = false; for (double k : K) edge = edge || std::fabs(t - k) < 1e-7; if (edge) continue;
          // ray (cos t, sin t) and the rectangle [near,far] x [a,b]
          double lo = 0, hi = 1e300, C = std::cos(t), S = std::sin(t); auto cut = [&](double d, double u, double v) { if (std::fabs(d) < 1e-14) { if (u > 0 || v < 0) hi = -1; return; } double x = u / d, z = v / d; if (x > z) std::swap(x, z); lo = std::max(lo, x); hi = std::min(hi, z); }; cut(C, near, far); cut(S, a, b); const double want = lo < hi ? hi - lo : -1;
          for (double turn : {0., 2 * M_PI, -2 * M_PI, 6 * M_PI}) { const double arg = mid + t + turn; c.state(cat(n, l, sens, t, turn)); const double r = y.getThicknessForPhi(l, arg, sens);
            if (!c.check(std::isfinite(r) && (want < 0 ? r < 0 : r >= 0) && std::fabs(r - want) <= 1e-6 * (1 + std::fabs(want)), want < 0 ? "thickness-outside-ladder" : "wrong-thickness", [&] { return cat("layer ", l, sens ? " sensitive" : " ladder", " angle to the normal ", t, " turned by ", turn, " reported ", r, " expected ", want); })) return; } } 
        if (!sens) for (double t : {0.1, -0.2}) { double u = y.getThicknessForPhi(l, mid + t), v = y.getThicknessForPhi(l, mid + t, false); if (!c.check(u == v, "default-part", [&] { return cat(u, " ", v); })) return; } }
      if (n % 100 == 0) c.sample(show(g)); }); }
}
