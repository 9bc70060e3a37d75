// C41: a material map holds the material budget of its grid points and interpolates between them.
#include "mc.h"
#include "gear/GEAR.h"
#include "gear/GearDistanceProperties.h"
#include "gearimpl/GearMgrImpl.h"
#include "gear/geartgeo/MaterialMap.h"
#include "gear/geartgeo/MaterialMapFactory.h"
#include <memory>
#include <map>
#include <algorithm>
using namespace mc; using std::vector; using std::string; using namespace gear;
const char* const mc::PROPERTY = "C41"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "case = one map (coordinate system and three axes) with every grid point, points between the grid points of every cell and points at and beyond the edges, or one history of requests to a factory with every map handed out so far queried after every step; the material service below the map is a recorded function of the end point, so every grid value is known";
const char* const mc::BOUNDS = "3 coordinate systems x all triples of 8 axes each (1 to 10 steps, steps that are no binary fractions, ranges away from and around 0, full turns, single planes given by equal limits or by no steps); every grid point, 4 points per axis and cell (thorough 6), both edges within 1e-6 and beyond 1e-3; all single and pairs of wrong limits; factory: every sequence of 1..4 (thorough 1..5) of 11 requests";
static double budget(double x, double y, double z, bool rad) { if (std::fabs(x) + std::fabs(y) + std::fabs(z) < 1e-9) return 0; return rad ? 3 + std::sin(0.37 * x + 0.1) + 0.5 * std::cos(0.91 * y) + 0.3 * std::sin(1.7 * z + 0.4 * x) : 7 + 0.01 * x + std::cos(0.53 * x - 0.2 * y) + 0.4 * std::sin(0.77 * z); }
static int badStart = 0, asked = 0; static const vector<string> noTexts; static const vector<double> noNumbers;
struct DP : GearDistanceProperties { const vector<string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return noTexts; } const vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return noNumbers; }
  double get(const Vector3D& a, const Vector3D& b, bool r) const { ++asked; if (a[0] != 0 || a[1] != 0 || a[2] != 0) ++badStart; return budget(b[0], b[1], b[2], r); }
  double getNRadlen(const Vector3D& a, const Vector3D& b) const { return get(a, b, true); } double getNIntlen(const Vector3D& a, const Vector3D& b) const { return get(a, b, false); } double getBdL(const Vector3D&, const Vector3D&) const { return 0; } double getEdL(const Vector3D&, const Vector3D&) const { return 0; } };
struct Axis { double lo, hi; int n; double at(int i) const { return n && hi > lo ? lo + i * (hi - lo) / n : lo; } int cells() const { return hi > lo ? n : 0; } };
struct Grid { Axis a[3]; int coord; };
static string show(const Grid& g) { string s = cat("coord ", g.coord); for (auto& a : g.a) s += cat(" [", a.lo, ",", a.hi, "]/", a.n); return s; }
static double value(const Grid& g, double u, double v, double w, bool rad) { switch (g.coord) { case 0: return budget(u, v, w, rad); case 1: return budget(u * std::cos(v), u * std::sin(v), w, rad); default: return budget(u * std::sin(v) * std::cos(w), u * std::sin(v) * std::sin(w), u * std::cos(v), rad); } }
static bool compare(Ctx& c, const MaterialMap& m, const Grid& g, const string& where, bool full) {
  int n[3]; for (int k = 0; k < 3; ++k) n[k] = g.a[k].cells();
  auto ask = [&](double u, double v, double w, bool rad, double& r) { try { r = rad ? m.getRadiationLength(u, v, w) : m.getInteractionLength(u, v, w); return 0; } catch (gear::Exception&) { return 1; } };
  int stride = full ? 1 : 2;
  for (int i = 0; i <= n[0]; i += stride) for (int j = 0; j <= n[1]; j += stride) for (int k = 0; k <= n[2]; ++k) for (bool rad : {true, false}) { double u = g.a[0].at(i), v = g.a[1].at(j), w = g.a[2].at(k), want = value(g, u, v, w, rad), r = -1; int x = ask(u, v, w, rad, r);
    if (!c.check(!x && std::fabs(r - want) < 1e-7, x ? "grid-point-refused" : "wrong-value-at-grid-point", [&] { return cat(where, show(g), " point ", i, ",", j, ",", k, rad ? " radiation" : " interaction", " length ", r, " expected ", want); })) return false; }
  if (!full) return true;
  // inside the cells: the distance weighted mean of the corners; on a face of a cell either of the cells at that face, or the face alone
  vector<double> F{0, 0.3, 0.55, 0.97}; if (c.thorough) { F.push_back(0.004); F.push_back(0.8); }
  for (int i = 0; i <= n[0]; ++i) for (int j = 0; j <= n[1]; ++j) for (int k = 0; k <= n[2]; ++k) for (double fx : F) for (double fy : F) for (double fz : F) { const int id[3] = {i, j, k}; const double f[3] = {fx, fy, fz}; double q[3]; bool ok = fx + fy + fz > 0; vector<vector<int>> cand[3];
    for (int a = 0; a < 3 && ok; ++a) { if (f[a] == 0) { q[a] = g.a[a].at(id[a]); cand[a].push_back({id[a]}); if (id[a] < n[a]) cand[a].push_back({id[a], id[a] + 1}); if (id[a] > 0) cand[a].push_back({id[a] - 1, id[a]}); } else if (id[a] < n[a]) { q[a] = g.a[a].at(id[a]) + f[a] * (g.a[a].at(id[a] + 1) - g.a[a].at(id[a])); cand[a].push_back({id[a], id[a] + 1}); } else ok = false; } if (!ok) continue;
    const bool rad = (i + j + k) & 1; double r = -1; int x = ask(q[0], q[1], q[2], rad, r); bool good = false; double want = 0;
    for (auto& A : cand[0]) for (auto& B : cand[1]) for (auto& C : cand[2]) if (!good && !x) { double s = 0, t = 0; for (int a : A) for (int b : B) for (int d : C) { double p[3] = {g.a[0].at(a), g.a[1].at(b), g.a[2].at(d)}, e = 0; for (int z = 0; z < 3; ++z) e += (p[z] - q[z]) * (p[z] - q[z]); e = 1 / std::sqrt(e); s += e; t += e * value(g, p[0], p[1], p[2], rad); } want = t / s; good = std::fabs(r - want) < 1e-7 * (1 + std::fabs(want)); }
    if (!c.check(good, x ? "point-in-map-refused" : "wrong-interpolation", [&] { return cat(where, show(g), " at ", q[0], " ", q[1], " ", q[2], rad ? " radiation" : " interaction", " length ", r, " expected e.g. ", want); })) return false; }
  // the edges: within the tolerance the value of the edge, beyond it a refusal
  for (int a = 0; a < 3; ++a) for (int up = 0; up < 2; ++up) for (bool rad : {true, false}) { double q[3]; for (int b = 0; b < 3; ++b) q[b] = g.a[b].at(n[b] / 2); double edge = up ? g.a[a].hi : g.a[a].lo; q[a] = n[a] ? edge : g.a[a].lo; double want = value(g, q[0], q[1], q[2], rad), r = -1; q[a] = edge + (up ? 1e-6 : -1e-6); int x = ask(q[0], q[1], q[2], rad, r);
    if (!c.check(!x && std::fabs(r - want) < 1e-7, "wrong-value-at-edge", [&] { return cat(where, show(g), " axis ", a, up ? " upper" : " lower", " edge ", r, " expected ", want); })) return false;
    q[a] = edge + (up ? 1e-3 : -1e-3); x = ask(q[0], q[1], q[2], rad, r); if (!c.check(x, "point-outside-map-answered", [&] { return cat(where, show(g), " axis ", a, " at ", q[a], " answered ", r); })) return false; }
  return true;
}
// an axis with a range but no steps: its one plane answers everywhere in the range
static bool flat(Ctx& c, const MaterialMap& m, const Grid& g) { for (double t : {0., 0.3, 0.5, 0.99, 1.}) for (bool rad : {true, false}) { double q[3], p[3]; for (int a = 0; a < 3; ++a) { p[a] = g.a[a].at(0); q[a] = g.a[a].n == 0 ? g.a[a].lo + t * (g.a[a].hi - g.a[a].lo) : p[a]; } (void)p;
    double lo = 1e300, hi = -1e300; for (int i = 0; i <= g.a[0].n; ++i) for (int j = 0; j <= g.a[1].n; ++j) for (int k = 0; k <= g.a[2].n; ++k) { double v = value(g, g.a[0].at(i), g.a[1].at(j), g.a[2].at(k), rad); lo = std::min(lo, v); hi = std::max(hi, v); }
    double r = -1; try { r = rad ? m.getRadiationLength(q[0], q[1], q[2]) : m.getInteractionLength(q[0], q[1], q[2]); } catch (gear::Exception&) { r = -2; } if (!c.check(r >= lo - 1e-9 && r <= hi + 1e-9, "axis-without-steps", [&] { return cat(show(g), " at ", q[0], " ", q[1], " ", q[2], " answered ", r); })) return false; } return true; }
void mc::explore(Ctx& c) {
  const vector<Axis> CA{{-20, 20, 4}, {0, 0.3, 3}, {0.1, 0.7, 6}, {5, 5, 0}, {-1, 2, 7}, {100, 100.5, 1}, {0, 1, 10}, {3, 3, 2}}, RA{{0, 20, 4}, {0, 0.3, 3}, {0.1, 0.7, 6}, {5, 5, 0}, {1, 1.7, 7}, {100, 100.5, 1}, {0, 1, 10}, {3, 3, 2}}, PH{{0, 2 * M_PI, 8}, {0, 2 * M_PI, 7}, {0.1, 0.7, 6}, {5, 5, 0}, {1, M_PI, 3}, {0, 0.3, 3}, {0, 2 * M_PI, 10}, {3, 3, 2}}, TA{{0, M_PI, 4}, {0, M_PI, 7}, {0.1, 0.7, 6}, {1, 1, 0}, {1, M_PI, 3}, {0, 0.3, 3}, {0, M_PI, 10}, {3, 3, 2}};
  auto manager = [] { std::unique_ptr<GearMgrImpl> m(new GearMgrImpl); m->setDistanceProperties(new DP); return m; };
  for (int co = 0; co < 3; ++co) for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j) c.unit(cat("maps coord ", co, " axes ", i, " ", j), [&, co, i, j] { auto mg = manager(); for (size_t k = 0; k < 8; ++k) { Grid g{{(co ? RA : CA)[i], (co == 0 ? CA : co == 1 ? PH : TA)[j], (co == 2 ? PH : CA)[k]}, co}; c.trace(); c.state(show(g)); badStart = 0; c.now(show(g));
      try { MaterialMap m(mg.get(), g.a[0].lo, g.a[0].hi, g.a[0].n, g.a[1].lo, g.a[1].hi, g.a[1].n, g.a[2].lo, g.a[2].hi, g.a[2].n, co); c.check(badStart == 0, "line-not-from-origin", [&] { return show(g); }); asked = 0; if (!compare(c, m, g, "", true)) continue; c.check(asked == 0, "query-asks-the-geometry", [&] { return show(g); });
        MaterialMap m2(m), m3(m); m3 = m2; compare(c, m3, g, "copy ", false); } catch (gear::Exception& e) { c.fail("map-refused", show(g) + " " + e.what()); } if (k == 0) c.sample(show(g)); } });
  for (int co = 0; co < 3; ++co) for (int mask = 1; mask < 8; ++mask) c.unit(cat("no steps coord ", co, " axes ", mask), [&, co, mask] { auto mg = manager(); for (double len : {0.4, 1., 3.}) { Grid g{{{1, 3, 2}, {0.2, 0.6, 2}, {0.5, 1.5, 4}}, co}; for (int a = 0; a < 3; ++a) if (mask >> a & 1) { g.a[a].n = 0; g.a[a].hi = g.a[a].lo + (a == 1 && co == 2 ? std::min(len, 2.9) : len); } c.trace(); c.state(show(g)); c.now(show(g)); try { MaterialMap m(mg.get(), g.a[0].lo, g.a[0].hi, g.a[0].n, g.a[1].lo, g.a[1].hi, g.a[1].n, g.a[2].lo, g.a[2].hi, g.a[2].n, co); flat(c, m, g); } catch (gear::Exception& e) { c.fail("map-refused", show(g) + " " + e.what()); } } });
  // wrong limits are refused
  for (int co = -1; co <= 3; ++co) c.unit(cat("limits coord ", co), [&, co] { auto mg = manager(); GearMgrImpl bare; for (int x = 0; x < 5; ++x) for (int y = 0; y < 6; ++y) for (int z = 0; z < 6; ++z) { Grid g{{{1, 2, 2}, {0.5, 1, 2}, {0.5, 1, 2}}, co}; bool bad = co < 0 || co > 2; auto set = [&](int a, double lo, double hi, int n) { g.a[a] = {lo, hi, n}; };
        switch (x) { case 1: set(0, 2, 1, 2); bad = true; break; case 2: set(0, 1, 2, -1); bad = true; break; case 3: set(0, -1, 2, 2); bad = bad || co != 0; break; case 4: set(0, -2, -1, 1); bad = bad || co != 0; break; }
        switch (y) { case 1: set(1, 1, 0.5, 2); bad = true; break; case 2: set(1, 0.5, 1, -3); bad = true; break; case 3: set(1, -0.1, 1, 2); bad = bad || co != 0; break; case 4: set(1, 1, 4, 2); bad = bad || co == 2; break; case 5: set(1, 1, 6.4, 2); bad = bad || co != 0; break; }
        switch (z) { case 1: set(2, 1, 0.5, 2); bad = true; break; case 2: set(2, 0.5, 1, -1); bad = true; break; case 3: set(2, -0.1, 1, 2); bad = bad || co == 2; break; case 4: set(2, 1, 4, 2); break; case 5: set(2, 1, 6.4, 2); bad = bad || co == 2; break; }
        c.trace(); c.state(show(g)); for (bool none : {false, true}) { bool refused = false; string other; try { MaterialMap m(none ? &bare : mg.get(), g.a[0].lo, g.a[0].hi, g.a[0].n, g.a[1].lo, g.a[1].hi, g.a[1].n, g.a[2].lo, g.a[2].hi, g.a[2].n, co); if (!bad && !none && !compare(c, m, g, "", false)) return; } catch (gear::Exception&) { refused = true; } catch (std::exception& e) { other = e.what(); }
          c.check(other.empty() && refused == (bad || none), bad ? "wrong-limits-accepted" : none ? "map-without-material-service" : "right-limits-refused", [&] { return show(g) + " " + other; }); } } });
  // histories of a factory
  const vector<Grid> Q{{{{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 0}, {{{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 1}, {{{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 2}, {{{0, 1, 2}, {0, 1, 2}, {0, 1, 4}}, 0}, {{{0, 2, 2}, {0, 1, 2}, {0, 1, 2}}, 1}, {{{0, 1, 2}, {0.5, 1, 2}, {0, 1, 2}}, 2}, {{{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 3}, {{{-1, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 0}, {{{-1, 1, 2}, {0, 1, 2}, {0, 1, 2}}, 1}, {{{0, 1, 2}, {0, 4, 2}, {0, 1, 2}}, 2}, {{{0, 1, 2}, {0, 4, 2}, {0, 1, 2}}, 1}};
  auto wrong = [](const Grid& g) { return g.coord > 2 || (g.coord && g.a[0].lo < 0) || (g.coord == 2 && g.a[1].hi > M_PI); };
  for (size_t f = 0; f < Q.size(); ++f) for (size_t f2 = 0; f2 < Q.size(); ++f2) c.unit(cat("factory ", f, " ", f2), [&, f, f2] { vector<size_t> h{f, f2}; const size_t D = c.thorough ? 5 : 4; std::function<void()> go = [&] { auto mg = manager(), mg2 = manager(); MaterialMapFactory fa(mg.get()), other(mg2.get()); std::map<size_t, MaterialMap*> have; string hs; for (size_t q : h) hs += cat(q, " ");
      auto get = [&](MaterialMapFactory& F, const Grid& g) { return F.createMaterialMap(g.a[0].lo, g.a[0].hi, g.a[0].n, g.a[1].lo, g.a[1].hi, g.a[1].n, g.a[2].lo, g.a[2].hi, g.a[2].n, g.coord); };
      for (size_t q : h) { MaterialMap* m = nullptr; bool refused = false; try { m = get(fa, Q[q]); } catch (gear::Exception&) { refused = true; } if (!c.check(refused == wrong(Q[q]) && (refused || m), "factory-refusal", [&] { return hs + show(Q[q]) + (refused ? " refused" : m ? " accepted" : " no map"); })) return; if (refused) continue;
        if (have.count(q)) { if (!c.check(have[q] == m, "map-made-again", [&] { return hs + show(Q[q]); })) return; } else have[q] = m; }
      if (have.size() && h.size() < 4) { MaterialMap* m = get(other, Q[have.begin()->first]); bool shared = m == have.begin()->second; compare(c, *m, Q[have.begin()->first], "other factory ", false); c.check(!shared, "map-shared-between-factories", [&] { return hs; }); }
      for (auto& e : have) if (!compare(c, *e.second, Q[e.first], "history " + hs, false)) break;
      c.trace(); c.state(hs); if (h.size() >= D) return; for (size_t q = 0; q < Q.size(); ++q) { h.push_back(q); go(); h.pop_back(); } }; go(); if (f == f2) c.sample(cat("factory ", f, " ", f2)); });
}
