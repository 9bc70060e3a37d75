// C24: line intersection with planar silicon finds the first ladder hit.
#include "zpl.h"
using namespace mc; using std::vector; using std::string; using namespace zpl;
const char* const mc::PROPERTY = "C24"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one barrel, starting point and direction; the reported point must be on the forward line and on the surface of a box and no box (shrunk by 0.002) may be crossed earlier; the null vector is accepted only if no shrunk box is crossed; starting points closer than 0.002 to a surface and entries and exits within 0.002 of an edge are not used; distinct = different (barrel, line, kind)";
const char* const mc::BOUNDS = "barrels as in C22; starting points: the origin region, 6 radii x 8 azimuths x 5 z, inside and around boxes, 300 m away; directions: towards 27 points of every box, the 26 directions of a cube, along and against the normals and at small angles (0.02, 0.08) to them and to the ladders; ladders and sensitive areas";
void mc::explore(Ctx& c) {
  auto G = configs(c.thorough); const double E = 0.002;
  for (size_t i = 0; i < G.size(); ++i) c.unit(show(G[i]), [&, i] { const Cfg& g = G[i]; auto p = make(g); c.trace();
    for (bool sens : {false, true}) { auto B = boxes(g, sens); vector<V> st = {{0.01, 0.02, 0.03}, {0.01, 0.02, -4}, {3, 1, -0.4}, {-2, 4, 0.45}, {0, 0, 10}, {0, 0, 200}, {0, 0, -200}, {2e5, 1e5, 2e5}}; for (double r : {5., 16., 30., 100.}) for (int k = 0; k < 6; ++k) for (double z : {0.3, 30., -70.}) st.push_back({r * std::cos(k * 1.0472 + r), r * std::sin(k * 1.0472 + r), z});
      { const Box& b = B[0]; for (double f : {0.25, 0.5}) st.push_back((b.lo[0] + f * (b.hi[0] - b.lo[0])) * b.n + (b.lo[1] + f * (b.hi[1] - b.lo[1])) * b.s + V{0, 0, b.lo[2] + f * (b.hi[2] - b.lo[2])}); }
      vector<V> cube; for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int d = -1; d <= 1; ++d) if (a || b || d) cube.push_back({double(a), double(b), double(d)});
      size_t nth = 0; for (auto& s : st) { bool edge = false; for (auto& b : B) if (std::fabs(depth(b, s)) < E) edge = true; if (edge) continue;
        vector<V> dir = cube; size_t stepB = c.thorough ? 1 : std::max<size_t>(1, B.size() / 8); for (size_t k = nth++ % stepB; k < B.size(); k += stepB) { const Box& b = B[k]; for (int q = 0; q < 27; ++q) { if (!c.thorough && (q + nth) % 3) continue; double f[3] = {(q % 3) * 0.48 + 0.02, (q / 3 % 3) * 0.48 + 0.02, (q / 9) * 0.48 + 0.02}; V t = (b.lo[0] + f[0] * (b.hi[0] - b.lo[0])) * b.n + (b.lo[1] + f[1] * (b.hi[1] - b.lo[1])) * b.s + V{0, 0, b.lo[2] + f[2] * (b.hi[2] - b.lo[2])}; dir.push_back(t - s); } dir.push_back(b.n); dir.push_back(-1 * b.n); dir.push_back(0.001 * b.s); for (double e : {0.02, -0.08}) { dir.push_back(b.n + V{0, 0, e}); dir.push_back(b.n + e * b.s); dir.push_back(b.s + e * b.n); } }
        for (auto& d : dir) { if (len(d) < 1e-6) continue; double lim = 1e300; bool hit = false;
          for (auto& b : B) { double a, z; bool in = depth(b, s) > 0; if (in) { if (slab(b, s, d, 0, a, z)) { V e = s + z * d; int close = 0; for (int k = 0; k < 3; ++k) { double q = b.coord(e, k); close += q < b.lo[k] + E || q > b.hi[k] - E; } if (close < 2) { lim = std::min(lim, z); hit = true; } } } else if (slab(b, s, d, -E, a, z) && a > 0) { double a0, z0; slab(b, s, d, 0, a0, z0); V e = s + a0 * d; int close = 0; for (int k = 0; k < 3; ++k) { double q = b.coord(e, k); close += q < b.lo[k] + E || q > b.hi[k] - E; } if (close < 2) { lim = std::min(lim, a); hit = true; } } }
          auto at = [&] { return cat(sens ? "sensitive" : "ladder", " from ", show(s), " along ", show(d)); }; c.now(at()); c.state(cat(i, sens) + show(s) + show(d)); V r = v3(sens ? p->intersectionSensitive(g3(s), g3(d)) : p->intersectionLadder(g3(s), g3(d)));
          if (len(r) == 0) { if (!c.check(!hit, "hit-not-found", [&] { return cat(at(), ": nothing found, but a ladder is hit at ", show(s + lim * d)); })) return; continue; }
          double t = dot(r - s, d) / dot(d, d), tol = 1e-3 + 1e-6 * len(s); V f = s + t * d;
          if (!c.check(t >= -tol / len(d) && len(f - r) <= tol, "not-on-the-forward-line", [&] { return cat(at(), ": ", show(r)); })) return;
          bool on = false; for (auto& b : B) on = on || std::fabs(depth(b, r)) <= tol; if (!c.check(on, "not-on-a-ladder", [&] { return cat(at(), ": ", show(r)); })) return;
          if (!c.check(t <= lim + tol / len(d), "not-the-first-hit", [&] { return cat(at(), ": ", show(r), " but a ladder is hit before at ", show(s + lim * d)); })) return; } } }
    if (i % 40 == 0) c.sample(show(g)); });
}
