// C22: planar-silicon point classification matches the ladder geometry.
#include "zpl.h"
#include "gear/ZPlanarLayerLayout.h"
using namespace mc; using std::vector; using std::string; using namespace zpl;
const char* const mc::PROPERTY = "C22"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one barrel and one point; the real answer (ladder, sensitive, sensor identifier) is compared with the boxes computed from the layer parameters; points closer than 0.002 to a face of any box are not used; distinct = different (barrel, point, kind)";
const char* const mc::BOUNDS = "barrels: 1,2,3,4,5,8,16 ladders x 11 phi offsets (-40 to 20 rad) x 5 shifts (also beyond half the width) x 2 thicknesses, with and without gap and shell, and 42 barrels of one to four layers in all orders (quick: a third of the single-layer ones); points: 5 positions around each face of every box in all three directions (125 per box), and a space grid of 8 radii x 24 azimuths x 8 z, the middle of every box seen exactly along x and y, including the axis, both axes directions and far away; maximum radius and opening angle of inner and outer face of every layer; ladders and sensitive areas";
void mc::explore(Ctx& c) {
  auto G = configs(c.thorough); const double E = 0.002;
  for (size_t i = 0; i < G.size(); ++i) c.unit(show(G[i]), [&, i] { const Cfg& g = G[i]; auto p = make(g); c.trace();
    for (bool sens : {false, true}) { auto B = boxes(g, sens); vector<V> pts = space(g, c.thorough ? 48 : 24); for (auto& b : B) for (double m : {0.01, 0.5}) if (m < 0.1 || c.thorough) { auto q = mesh(b, m); pts.insert(pts.end(), q.begin(), q.end()); }
      for (auto& b : B) for (V x : {V{1, 0, 0}, V{-1, 0, 0}, V{0, 1, 0}, V{0, -1, 0}}) { double k = dot(b.n, x); if (k > 0.05) pts.push_back((b.lo[0] + b.hi[0]) / 2 / k * x + V{0, 0, (b.lo[2] + b.hi[2]) / 2}); }
      for (auto& q : pts) { bool edge = false, in = false; vector<const Box*> hit; for (auto& b : B) { double d = depth(b, q); if (std::fabs(d) < E) { edge = true; break; } if (d > 0) { in = true; hit.push_back(&b); } } if (edge) continue;
        auto at = [&] { return cat(sens ? "sensitive" : "ladder", " point ", show(q)); }; c.now(at()); c.state(cat(i, sens) + show(q)); gear::SensorID id; id.layer = id.module = id.sensor = id.side = -99; bool r = sens ? p->isPointInSensitive(g3(q), &id) : p->isPointInLadder(g3(q));
        if (!c.check(r == in, "wrong-classification", [&] { return cat(at(), " reported ", r); })) return;
        if (sens) { if (!c.check(p->isPointInSensitive(g3(q)) == in, "wrong-classification-without-id", at)) return; bool ok = !in; for (auto b : hit) ok = ok || (id.layer == b->layer && id.module == b->module && id.side == b->side && id.sensor == 0); if (!c.check(ok, "wrong-sensor", [&] { return cat(at(), " reported layer ", id.layer, " module ", id.module, " side ", id.side, " sensor ", id.sensor, ", is in layer ", hit[0]->layer, " module ", hit[0]->module, " side ", hit[0]->side); })) return; } } } 
    // reach of a layer: the corner farthest from the axis and the angles under which the faces are seen
    const gear::ZPlanarLayerLayoutImpl& y = dynamic_cast<const gear::ZPlanarLayerLayoutImpl&>(p->getZPlanarLayerLayout()); for (size_t l = 0; l < g.lay.size(); ++l) for (bool sens : {false, true}) { const Vol& o = sens ? g.lay[l].sen : g.lay[l].lad; auto near = [](double a, double b) { return std::fabs(a - b) < 1e-4 * (1 + std::fabs(b)); }; double hi = o.off + o.width / 2, lo = o.off - o.width / 2, out = o.dist + o.thick; auto at = [&] { return cat("layer ", l, sens ? " sensitive" : " ladder"); };
      c.state(cat(i, sens, l, "reach")); if (!c.check(near(y.getMaxRadius(l, sens), std::hypot(out, std::max(std::fabs(hi), std::fabs(lo)))), "wrong-maximum-radius", [&] { return cat(at(), " ", y.getMaxRadius(l, sens)); })) return;
      if (!c.check(near(y.getEndInnerPhi(l, sens) - y.getStartInnerPhi(l, sens), std::atan(hi / o.dist) - std::atan(lo / o.dist)), "wrong-inner-phi-range", at)) return;
      if (!c.check(near(y.getEndOuterPhi(l, sens) - y.getStartOuterPhi(l, sens), std::atan(hi / out) - std::atan(lo / out)), "wrong-outer-phi-range", at)) return; }
    if (i % 40 == 0) c.sample(show(g)); });
}
