// Reference geometry of planar silicon barrels: plain boxes computed from the numbers given to addLayer.
#pragma once
#include "mc.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/ZPlanarLayerLayoutImpl.h"
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <vector>
namespace zpl {
typedef std::array<double, 3> V;
inline V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V operator*(double s, V a) { return {s * a[0], s * a[1], s * a[2]}; }
inline double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(V a) { return std::sqrt(dot(a, a)); }
struct Vol { double dist, off, thick, length, width; };
struct Layer { int n; double phi0; Vol lad, sen; };
struct Cfg { double gap, shell; std::vector<Layer> lay; };
// an oriented box: n outward normal of the ladder, s direction of increasing phi, z
struct Box { V n, s; double lo[3], hi[3]; int layer, module, side; double coord(const V& p, int k) const { return k == 0 ? dot(p, n) : k == 1 ? dot(p, s) : p[2]; } };
inline std::vector<Box> boxes(const Cfg& g, bool sensitive) {
  std::vector<Box> v;
  for (size_t l = 0; l < g.lay.size(); ++l) { const Layer& y = g.lay[l]; const Vol& o = sensitive ? y.sen : y.lad;
    for (int i = 0; i < y.n; ++i) for (int side : {1, -1}) { double a = y.phi0 + i * 2 * M_PI / y.n; Box b; b.n = {std::cos(a), std::sin(a), 0}; b.s = {-std::sin(a), std::cos(a), 0};
      b.lo[0] = o.dist; b.hi[0] = o.dist + o.thick; b.lo[1] = o.off - o.width / 2; b.hi[1] = o.off + o.width / 2; b.lo[2] = g.gap / 2; b.hi[2] = g.gap / 2 + o.length; if (side < 0) { std::swap(b.lo[2], b.hi[2]); b.lo[2] = -b.lo[2]; b.hi[2] = -b.hi[2]; }
      b.layer = l; b.module = i; b.side = side; v.push_back(b); } }
  return v; }
// smallest signed distance to the faces: > 0 inside
inline double depth(const Box& b, const V& p) { double d = 1e300; for (int k = 0; k < 3; ++k) { double c = b.coord(p, k); d = std::min(d, std::min(c - b.lo[k], b.hi[k] - c)); } return d; }
inline double distance(const Box& b, const V& p) { double s = 0; for (int k = 0; k < 3; ++k) { double c = b.coord(p, k), e = c < b.lo[k] ? b.lo[k] - c : c > b.hi[k] ? c - b.hi[k] : 0; s += e * e; } return std::sqrt(s); }
// interval of t for which p + t v is inside the box grown by e; false: never
inline bool slab(const Box& b, const V& p, const V& v, double e, double& t0, double& t1) { t0 = -1e300; t1 = 1e300;
  for (int k = 0; k < 3; ++k) { double c = b.coord(p, k), d = b.coord(v, k), lo = b.lo[k] - e, hi = b.hi[k] + e; if (lo > hi) return false; if (std::fabs(d) < 1e-12) { if (c < lo || c > hi) return false; continue; } double a = (lo - c) / d, z = (hi - c) / d; if (a > z) std::swap(a, z); t0 = std::max(t0, a); t1 = std::min(t1, z); }
  return t0 <= t1; }
inline std::unique_ptr<gear::ZPlanarParameters> make(const Cfg& g) { std::unique_ptr<gear::ZPlanarParametersImpl> p(new gear::ZPlanarParametersImpl(1, 10, 200, g.shell, g.gap, 1.5));
  for (auto& y : g.lay) p->addLayer(y.n, y.phi0, y.lad.dist, y.lad.off, y.lad.thick, y.lad.length, y.lad.width, 0.2, y.sen.dist, y.sen.off, y.sen.thick, y.sen.length, y.sen.width, 0.3); return std::unique_ptr<gear::ZPlanarParameters>(p.release()); }
inline std::string show(const Cfg& g) { std::string s = mc::cat("gap ", g.gap, " shell ", g.shell); for (auto& y : g.lay) s += mc::cat(" | ", y.n, " ladders phi0 ", y.phi0, " ladder d ", y.lad.dist, " off ", y.lad.off, " t ", y.lad.thick, " l ", y.lad.length, " w ", y.lad.width, " sensitive d ", y.sen.dist, " off ", y.sen.off, " t ", y.sen.thick, " l ", y.sen.length, " w ", y.sen.width); return s; }
inline std::string show(const V& p) { return mc::cat("(", p[0], ",", p[1], ",", p[2], ")"); }
inline gear::Vector3D g3(const V& p) { return gear::Vector3D(p[0], p[1], p[2]); }
inline V v3(const gear::Vector3D& p) { return {p.x(), p.y(), p.z()}; }
// the grid of configurations
inline std::vector<Cfg> configs(bool thorough) {
  std::vector<Cfg> v; const double PHI[] = {0, 0.3, M_PI / 2, M_PI, -1, 3 * M_PI / 2, 4, -5, 2 * M_PI + 0.1, 20, -40}; const int N[] = {1, 2, 3, 4, 5, 8, 16}; const double OFF[] = {0, 2, -3, 12, -14};
  int i = 0;
  for (int n : N) for (double phi : PHI) for (double off : OFF) for (double th : {0.1, 2.}) { ++i; if (!thorough && i % 3 && !(off == 2 && th == 2.)) continue; double gap = i % 2 ? 1.5 : 0, shell = i % 5 == 4 && (i % 4 == 0 || i % 4 == 3) ? 50 : i % 5 ? 100 : 0; Layer y{n, phi, {15, off, th, 50, 20}, i % 4 == 0 ? Vol{14.5 - th / 2, off / 2, th / 2, 45, 16} : i % 4 == 1 ? Vol{15.3 + th, 1.5 * off, th / 2, 55, 22} : i % 4 == 2 ? Vol{14.9, off + 0.5, th + 0.2, 52, 24} : Vol{15 + th / 4, off == 0 ? 1.5 : 0, th / 2, 45, 16}}; v.push_back({gap, shell, {y}}); }
  for (double p : {0., 0.7, -2.}) for (double gap : {0., 3.}) { Layer a{6, p, {15, -1, 0.2, 50, 18}, {15.05, -0.5, 0.1, 48, 16}}, b{8, p + 0.2, {26, 2, 0.3, 60, 25}, {26.1, 1, 0.1, 55, 22}}, c{1, p - 0.4, {40, 0, 1, 70, 30}, {40.2, 0, 0.5, 65, 28}}; v.push_back({gap, 0, {a, b}}); v.push_back({gap, 120, {a, b, c}}); v.push_back({gap, 70, {a, c, b}}); v.push_back({gap, 70, {b, a}}); v.push_back({gap, 0, {b, c, a}}); v.push_back({gap, 120, {c, a, b}}); v.push_back({gap, 120, {c, b, a}}); v.push_back({gap, 0, {c}}); if (p == 0.7) { Layer d{5, p + 1, {18, 0.5, 0.1, 40, 20}, {18, 0.5, 0.1, 40, 20}}; v.push_back({gap, 60, {a, d, b}}); v.push_back({gap, 0, {b, d, c, a}}); v.push_back({gap, 70, {a, b, c, d}}); } }
  return v; }
// points in the frame of every box: around every face, edge and corner, and the centre
inline std::vector<V> mesh(const Box& b, const double m) { std::vector<V> v; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) { int q[3] = {i, j, k}; double c[3]; for (int a = 0; a < 3; ++a) { double lo = b.lo[a], hi = b.hi[a]; c[a] = q[a] == 0 ? lo - m : q[a] == 1 ? lo + m : q[a] == 2 ? (lo + hi) / 2 + 0.01 : q[a] == 3 ? hi - m : hi + m; } v.push_back(c[0] * b.n + c[1] * b.s + V{0, 0, c[2]}); } return v; }
inline std::vector<V> space(const Cfg& g, int nphi) { std::vector<V> v; for (double r : {0., 0.01, 7., 14.9, 17.2, 22., 60., 3000.}) for (int i = 0; i < (r == 0 ? 1 : nphi); ++i) for (double z : {0., 0.5, 20., -20., 49., 80., -80., 5000.}) v.push_back({r * std::cos(i * 2 * M_PI / nphi), r * std::sin(i * 2 * M_PI / nphi), z}); for (double r : {7., 30.}) for (double z : {0., 25., -25.}) { v.push_back({r, 0, z}); v.push_back({-r, 0, z}); v.push_back({0, r, z}); v.push_back({0, -r, z}); } (void)g; return v; }
}
