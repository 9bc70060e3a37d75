// C23: the vector to the nearest ladder is the shortest way to any ladder.
#include "zpl.h"
using namespace mc; using std::vector; using std::string; using namespace zpl;
const char* const mc::PROPERTY = "C23"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one barrel and one point; point plus reported vector must be on a box, the length must be the smallest distance to any box (tolerance 0.001 and 1e-6 relative), zero inside; distinct = different (barrel, point, kind)";
const char* const mc::BOUNDS = "barrels as in C22; points: 125 around every face, edge and corner of every box, and a space grid of 8 radii x 24 (thorough 48) azimuths x 8 z including the axis and the origin, points kilometres away; ladders and sensitive areas";
void mc::explore(Ctx& c) {
  auto G = configs(c.thorough);
  for (size_t i = 0; i < G.size(); ++i) c.unit(show(G[i]), [&, i] { const Cfg& g = G[i]; auto p = make(g); c.trace();
    for (bool sens : {false, true}) { auto B = boxes(g, sens); vector<V> pts = space(g, c.thorough ? 48 : 24); pts.push_back({0, 0, 0}); pts.push_back({2e5, 1e5, 3e5}); pts.push_back({1e6, 0, 0}); pts.push_back({0, 0, -4e6}); size_t step = c.thorough ? 1 : 2; for (auto& b : B) for (double m : {0.5, 0.}) { auto q = mesh(b, m); for (size_t k = (b.module + b.layer + (m == 0)) % step; k < q.size(); k += step) pts.push_back(q[k]); }
      for (auto& q : pts) { double best = 1e300, tol = 1e-3 + 1e-6 * len(q); for (auto& b : B) best = std::min(best, distance(b, q));
        auto at = [&] { return cat(sens ? "sensitive" : "ladder", " point ", show(q)); }; c.now(at()); c.state(cat(i, sens) + show(q)); V r = v3(sens ? p->distanceToNearestSensitive(g3(q)) : p->distanceToNearestLadder(g3(q))); double got = len(r);
        if (!c.check(std::fabs(got - best) <= tol, "not-the-shortest-way", [&] { return cat(at(), " reported ", show(r), " of length ", got, ", nearest ladder is at ", best); })) return;
        double off = 1e300; for (auto& b : B) off = std::min(off, distance(b, q + r)); if (!c.check(off <= tol, "does-not-lead-to-a-ladder", [&] { return cat(at(), " reported ", show(r)); })) return; } }
    if (i % 40 == 0) c.sample(show(g)); });
}
