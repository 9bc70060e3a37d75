// C11: plane and module extents enclose all pads.
#include "modules.h"
namespace mc {
const char* const PROPERTY = "C11";
const char* const LEVEL = "exploration";
const char* const RULE = "every pad-layout configuration (extent compared with the row model) and every (layout, placement) pair of the module grid: points covering the local plane and module area, including all border points and axis extremes, are mapped with an independent transform and must lie in the reported extent; TPC extents are compared with the envelope over all module sequences up to length 3";
const char* const BOUNDS = "layout grid as C07; 11 (quick) / 100+ (thorough) layouts x offsets x angles x borders x 4 z settings x 2 coordinate types; 60 (quick) / 240 (thorough) steps per side plus exact axis extremes";
using namespace mod; using namespace gear;
static std::string ex(const std::vector<double>& e) { return cat("[", num(e[0]), ",", num(e[1]), ",", num(e[2]), ",", num(e[3]), "]"); }

static void checkEnclosure(Ctx& c, const char* what, bool layPolar, const std::vector<double>& le, const Place& p, const std::vector<double>& e, int n) {
  const double T = 1e-6;
  std::vector<XY> pts = coverBox(layPolar, le, n);
  // exact extremes of an arc in the global axis directions
  if (layPolar) for (int k = 0; k < 4; ++k) { double phi = k * M_PI / 2 - p.angle; 
    for (int w = -3; w <= 3; ++w) { double q = phi + w * 2 * M_PI; if (q > le[2] && q < le[3]) { pts.push_back(toXY(true, le[1], q)); break; } } }
  Tr tr(p); double lo0 = 1e300, hi0 = -1e300, lo1 = 1e300, hi1 = -1e300; 
  if (p.mother == PadRowLayout2D::CARTESIAN) {
    for (auto& q : pts) { XY g = tr(q); lo0 = std::min(lo0, g.x); hi0 = std::max(hi0, g.x); lo1 = std::min(lo1, g.y); hi1 = std::max(hi1, g.y); }
    c.check(e[0] <= lo0 + T && e[1] >= hi0 - T && e[2] <= lo1 + T && e[3] >= hi1 - T, cat(what, "-extent-does-not-enclose"), [&] { return cat(p.key(), " reported ", ex(e), " needed ", ex({lo0, hi0, lo1, hi1})); });
    c.check(near(e[0], lo0, 1e-6) && near(e[1], hi0, 1e-6) && near(e[2], lo1, 1e-6) && near(e[3], hi1, 1e-6), cat(what, "-extent-not-tight"), [&] { return cat(p.key(), " reported ", ex(e), " needed ", ex({lo0, hi0, lo1, hi1})); });
    return;
  }
  bool bad = false; XY w{0, 0}; double wr = 0, wp = 0;
  for (auto& q : pts) { XY g = tr(q); double r, phi; fromXY(true, g, r, phi); lo0 = std::min(lo0, r); hi0 = std::max(hi0, r);
    bool in = r >= e[0] - T && r <= e[1] + T;
    if (in && r > 1e-6) { double tol = T + 1e-9 / r, d = std::fmod(phi - e[2] + tol, 2 * M_PI); if (d < 0) d += 2 * M_PI; in = d <= e[3] - e[2] + 2 * tol || (e[3] - e[2]) >= 2 * M_PI - T; }
    if (!in && !bad) { bad = true; w = g; wr = r; wp = phi; } }
  c.check(!bad, cat(what, "-extent-does-not-enclose"), [&] { return cat(p.key(), " local ", ex(le), " reported ", ex(e), " misses r=", wr, " phi=", wp); });
  // exact smallest and largest distance of the area from the global origin
  XY lo = g2l(p, XY{0, 0}); double gr, gp; fromXY(true, lo, gr, gp); double rmin = boxDistance(true, gr, gp, le[0], le[1], le[2], le[3]);
  if (gr < 1e-9) { rmin = le[0]; }
  double d = std::fabs(wrapPi(gp + M_PI - 0.5 * (le[2] + le[3]))); if (gr > 1e-9 && d < 0.5 * (le[3] - le[2])) hi0 = std::max(hi0, gr + le[1]);
  c.check(nearAbs(e[1], hi0, 1e-5) && nearAbs(e[0], rmin, 1e-5) && e[3] - e[2] <= 2 * M_PI + T, cat(what, "-extent-not-tight"), [&] { return cat(p.key(), " local ", ex(le), " reported ", ex(e), " needed r ", rmin, "..", hi0); });
  if (p.o0 == 0) c.check(near(e[0], le[0], 1e-6) && near(e[1], le[1], 1e-6) && near(e[3] - e[2], le[3] - le[2], 1e-6), cat(what, "-extent-not-tight"), [&] { return cat(p.key(), " local ", ex(le), " reported ", ex(e)); });
}
void explore(Ctx& c) {
  for (auto& cfg : configs(c.thorough ? 2 : 1)) c.unit("plane " + cfg.key, [&] {
    std::unique_ptr<PadRowLayout2D> l(cfg.make()); const Model& m = cfg.m; const std::vector<double> e = l->getPlaneExtent();
    c.trace(); c.state(cfg.key);
    c.check(e.size() == 4, "plane-extent-size", [&] { return cat(e.size()); });
    c.check(near(e[0], m.ext[0], 1e-8) && near(e[1], m.ext[1], 1e-8) && near(e[2], m.ext[2], 1e-8) && near(e[3], m.ext[3], 1e-8), "plane-extent", [&] { return cat("reported ", ex(e), " expected ", ex({m.ext[0], m.ext[1], m.ext[2], m.ext[3]})); });
    for (size_t r = 0; r < m.rows.size(); ++r) for (int k = 0; k < m.rows[r].n; ++k) {
      int idx = l->getPadIndex(r, k); Vector2D ctr = l->getPadCenter(idx); double h = l->getRowHeight(r) / 2, w = l->getPadPitch(idx) / 2;
      double a = m.polar ? h : w, b = m.polar ? w : h;
      bool full = m.polar && e[3] - e[2] >= 2 * M_PI - 1e-9;
      c.check(ctr[0] - a >= e[0] - 1e-7 && ctr[0] + a <= e[1] + 1e-7 && (full || (ctr[1] - b >= e[2] - 1e-7 && ctr[1] + b <= e[3] + 1e-7)), "pad-outside-plane-extent", [&] { return cat("row ", r, " pad ", k, " centre ", ctr[0], ",", ctr[1], " half size ", a, ",", b, " extent ", ex(e)); });
    }
  });
  int n = c.thorough ? 240 : 60;
  for (auto& cfg : someLayouts(c.thorough ? 2 : 1)) {
    std::vector<Place> ps = places(c.thorough ? 2 : 1, cfg.m.polar);
    for (size_t from = 0; from < ps.size(); from += 32) c.unit(cat("module ", cfg.key, " #", from), [&] {
      for (size_t i = from; i < std::min(ps.size(), from + 32); ++i) {
        const Place& p = ps[i]; c.now(p.key()); std::unique_ptr<TPCModuleImpl> t(make(cfg, p)); c.trace(); c.state(cfg.key + p.key());
        std::vector<double> le(cfg.m.ext, cfg.m.ext + 4), me = localModuleExtent(cfg.m, p.border);
        std::vector<double> tl = t->getLocalModuleExtent();
        bool ok = c.check(tl.size() == 4 && near(tl[0], me[0], 1e-7) && near(tl[1], me[1], 1e-7) && near(tl[2], me[2], 1e-7) && near(tl[3], me[3], 1e-7), "local-module-extent", [&] { return cat(p.key(), " reported ", ex(tl), " expected ", ex(me)); });
        checkEnclosure(c, "plane", cfg.m.polar, le, p, t->getPlaneExtent(), n);
        if (ok) checkEnclosure(c, "module", cfg.m.polar, me, p, t->getModuleExtent(), n);
      }
      c.sample(cat(cfg.key, " with ", ps[from].key()));
    });
  }
  // TPC extent is the envelope of the extents of its modules
  auto ls = someLayouts(0);
  for (int mother : {PadRowLayout2D::CARTESIAN, PadRowLayout2D::POLAR}) c.unit(cat("envelope ", mother), [&] {
    struct It { Cfg c; Place p; }; std::vector<It> its;
    for (auto& l : ls) { if (mother == PadRowLayout2D::POLAR && !l.m.polar) continue;
      for (auto& p : places(0, l.m.polar)) if (p.mother == mother && p.z != 0 && p.border != 0) its.push_back({l, p}); }
    std::vector<std::vector<double>> exts; for (auto& i : its) { std::unique_ptr<TPCModuleImpl> t(make(i.c, i.p)); exts.push_back(t->getModuleExtent()); }
    size_t N = its.size();
    for (size_t a = 0; a < N; ++a) for (size_t b = 0; b <= N; ++b) for (size_t d = 0; d <= (b == N ? 0 : N); d += c.thorough ? 1 : 3) {
      TPCParametersImpl tpc(500, mother); std::vector<size_t> idx{a}; if (b < N) idx.push_back(b); if (b < N && d < N) idx.push_back(d);
      std::vector<double> e{1e300, -1e300, 1e300, -1e300}; int id = 0; std::string k;
      for (size_t i : idx) { tpc.addModule(make(its[i].c, its[i].p, ++id)); k += cat(i, " "); e[0] = std::min(e[0], exts[i][0]); e[1] = std::max(e[1], exts[i][1]); e[2] = std::min(e[2], exts[i][2]); e[3] = std::max(e[3], exts[i][3]); }
      c.trace(); c.state(cat("env", mother, k)); const std::vector<double>& g = tpc.getPlaneExtent();
      c.check(g.size() == 4 && near(g[0], e[0]) && near(g[1], e[1]) && near(g[2], e[2]) && near(g[3], e[3]), "tpc-extent-envelope", [&] { return cat("modules ", k, " reported ", ex(g), " expected ", ex(e)); });
    }
  });
}
}
