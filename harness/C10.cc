// C10: left and right pad neighbours are mutual and geometrically adjacent.
#include "layouts.h"
namespace mc {
const char* const PROPERTY = "C10";
const char* const LEVEL = "exploration";
const char* const RULE = "every pad of every layout configuration; a case is one (configuration, pad); both neighbours are compared with the reference row model and complete walks along each row in both directions are followed";
const char* const BOUNDS = "row lists up to length 3 (quick) / 4 (thorough) over 5-6 row kinds incl. full-circle, partial, single-pad rows and mixtures";
using namespace lay; using namespace gear;
void explore(Ctx& c) {
  for (auto& cfg : configs(c.thorough ? 2 : 1)) c.unit(cfg.key, [&] {
    std::unique_ptr<PadRowLayout2D> l(cfg.make()); const Model& m = cfg.m;
    // "right" means towards larger x in a Cartesian layout and towards smaller phi (clockwise) in a polar one
    const int up = m.polar ? 0 : 1;   // index of the direction that increases the column
    auto nb = [&](int dir, int idx, int& out) { try { out = dir ? l->getRightNeighbour(idx) : l->getLeftNeighbour(idx); return true; } catch (std::exception&) { return false; } };
    for (int row = 0; row < (int)m.rows.size(); ++row) {
      const MRow& r = m.rows[row];
      for (int k = 0; k < r.n; ++k) {
        c.state(cat(cfg.key, "/", row, "/", k));
        int idx = l->getPadIndex(row, k);
        for (int dir = 0; dir < 2; ++dir) {
          const char* nm = dir ? "right" : "left";
          int want = k + (dir == up ? 1 : -1); bool exists = want >= 0 && want < r.n;
          if (!exists && r.closed) { want = (want + r.n) % r.n; exists = true; }
          int got = -1; bool ok = nb(dir, idx, got);
          c.check(ok == exists, exists ? "existing-neighbour-refused" : "missing-neighbour-returned", [&] { return cat(nm, " of ", row, ",", k, " -> ", got >> 16, ",", got & 0xffff, " row of ", r.n, " closed ", r.closed); });
          if (!ok || !exists) continue;
          c.check(got == l->getPadIndex(row, want), "wrong-neighbour", [&] { return cat(nm, " of ", row, ",", k, " -> ", got >> 16, ",", got & 0xffff, " expected column ", want); });
          int back = -1; bool okb = nb(1 - dir, got, back);
          c.check(okb && back == idx, "neighbours-not-mutual", [&] { return cat(nm, " of ", row, ",", k, " and back -> ", back); });
          Vector2D p = l->getPadCenter(idx), q = l->getPadCenter(got);
          double d = m.polar ? std::fabs(wrapPi(p[1] - q[1])) : std::fabs(p[0] - q[0]);
          double pitch = l->getPadPitch(idx); if (m.polar) pitch = std::fabs(wrapPi(pitch));
          c.check(near(d, pitch, 1e-7) && near(p[m.polar ? 0 : 1], q[m.polar ? 0 : 1], 1e-9), "neighbour-not-one-pitch-away", [&] { return cat(nm, " of ", row, ",", k, " centre distance ", d); });
        }
      }
      // a full walk visits every pad once
      int start = l->getPadIndex(row, up ? 0 : 0), cur = start, steps = 1, nxt;
      while (steps <= r.n && nb(up, cur, nxt) && nxt != start) { cur = nxt; ++steps; }
      c.check(steps == r.n, "walk-misses-pads", [&] { return cat("row ", row, " walked ", steps, " of ", r.n); });
    }
    c.trace(); c.sample(cat(cfg.key, ": ", m.nPads(), " pads"));
  });
}
}
