// Grid of module placements with an independent reference transform.
#pragma once
#include "layouts.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"

namespace mod {
using namespace lay;
struct XY { double x, y; };
struct Place {
  int mother = gear::PadRowLayout2D::CARTESIAN;
  double o0 = 0, o1 = 0, angle = 0, border = 0; bool zset = false; double z = 1; double freq = 0;
  bool neg() const { return zset && z <= 0; }
  std::string key() const { return cat(mother == gear::PadRowLayout2D::CARTESIAN ? "C" : "P", " off(", o0, ",", o1, ") ang ", angle, " b ", border, zset ? cat(" z ", z) : std::string(" z-")); }
};
inline XY toXY(bool polar, double a, double b) { return polar ? XY{a * std::cos(b), a * std::sin(b)} : XY{a, b}; }
inline void fromXY(bool polar, XY p, double& a, double& b) {
  if (polar) { a = std::hypot(p.x, p.y); b = std::atan2(p.y, p.x); } else { a = p.x; b = p.y; }
}
inline XY offsetXY(const Place& p) { return toXY(p.mother == gear::PadRowLayout2D::POLAR, p.o0, p.o1); }
// local cartesian -> global cartesian: rotate, translate, mirror
struct Tr { double c, s; XY o; bool neg; explicit Tr(const Place& p) : c(std::cos(p.angle)), s(std::sin(p.angle)), o(offsetXY(p)), neg(p.neg()) {}
  XY operator()(XY l) const { XY g{l.x * c - l.y * s + o.x, l.x * s + l.y * c + o.y}; if (neg) g.x = -g.x; return g; } };
inline XY l2g(const Place& p, XY l) {
  double c = std::cos(p.angle), s = std::sin(p.angle); XY o = offsetXY(p);
  XY g{l.x * c - l.y * s + o.x, l.x * s + l.y * c + o.y}; if (p.neg()) g.x = -g.x; return g;
}
inline XY g2l(const Place& p, XY g) {
  if (p.neg()) g.x = -g.x; XY o = offsetXY(p); double x = g.x - o.x, y = g.y - o.y, c = std::cos(p.angle), s = std::sin(p.angle);
  return {x * c + y * s, y * c - x * s};
}
// the module's own sensitive area in layout coordinates, independent of the implementation
inline std::vector<double> localModuleExtent(const Model& m, double border) {
  std::vector<double> e(m.ext, m.ext + 4);
  if (border == 0) return e;
  if (!m.polar) { e[0] -= border; e[1] += border; e[2] -= border; e[3] += border; return e; }
  double gap = 2 * M_PI - (m.ext[3] - m.ext[2]);
  double b = m.ext[0] > 0 ? border / m.ext[0] : M_PI; if (2 * b > gap) b = gap / 2;
  e[0] = std::max(0., e[0] - border); e[1] += border; e[2] -= b; e[3] += b; return e;
}
inline void apply(gear::TPCModuleImpl& t, const Place& p) {
  if (p.border != 0) t.setBorderWidth(p.border);
  if (p.o0 != 0 || p.o1 != 0) t.setOffset(p.o0, p.o1);
  if (p.angle != 0) t.setAngle(p.angle);
  if (p.zset) t.setZPosition(p.z);
}
inline gear::TPCModuleImpl* make(const Cfg& c, const Place& p, int id = 7) {
  gear::TPCModuleImpl* t = new gear::TPCModuleImpl(id, c.make(), p.mother, p.freq); apply(*t, p); return t;
}
// representative layouts
inline std::vector<Cfg> someLayouts(int size) {
  std::vector<Cfg> out; Cfg c; const double P = M_PI;
  if (fixedSizeCfg(10, 22, 5, 3, 0, 0.4, 2 * P, c)) out.push_back(c);
  if (fixedSizeCfg(10, 22, 5, 3, 0, 0, 0.7, c)) out.push_back(c);
  out.push_back(fixedAngleCfg(10, 22, 2, -0.3, 0.5, 3));
  out.push_back(rectCfg(-4, 8, 3, { {1, 3, 2, 3, 0, 0, 0}, {2, 4, 1.5, 2, 3, 0, 0.5} }, 0));
  if (versCfg(20, { {3, 2, 4, 0, 0, 0, 1}, {4, 1.5, 3, -3, 1, 2, 2} }, c)) out.push_back(c);
  if (size >= 1) {
    out.push_back(fixedAngleCfg(10, 22, 2, 1, 1 + 1.5 * P, 3));
    out.push_back(fixedAngleCfg(10, 22, 2, 5.5, 5.5 + 0.6, 3));
    out.push_back(fixedAngleCfg(0, 12, 2, 0, 2 * P, 7));
    out.push_back(rectCfg(-14, -2, -20, { {1, 2, 2, 4, 5, 1, 0.5} }, 2));
    out.push_back(rectCfg(0, 12, 0, { {2, 4, 1.5, 2, 3, 0, 0} }, 0));
    if (versCfg(6, { {5, 1, 3, -8, 0.5, 0, 1}, {1, 4, 5, 1, 0, 0, 1} }, c)) out.push_back(c);
  }
  if (size >= 2) {
    for (double pm : {-P, -0.3, 0., 1., P / 2, 3., P, 5.5}) for (double d : {0.3, P / 2, P, 1.5 * P, 1.9 * P, 2 * P}) for (double rm : {0., 10.}) out.push_back(fixedAngleCfg(rm, rm + 12, 3, pm, pm + d, 4));
    for (double ph : {0.2, P / 2, P, 1.4 * P, 1.9 * P}) if (fixedSizeCfg(10, 22, 5, 1, 0, 0, ph, c)) out.push_back(c);
    if (versCfg(20, { {3, 3, 3, -20, 0, 0, 3} }, c)) out.push_back(c);
    if (versCfg(30, { {2, 3, 2, 2.5, 0, 0, 2}, {3, 2, 4, 0, 0, 0, 1} }, c)) out.push_back(c);
  }
  return out;
}
inline std::vector<Place> places(int size, bool layoutPolar) {
  std::vector<Place> out; const double P = M_PI;
  std::vector<double> angs = size == 0 ? std::vector<double>{0, 0.7} : size == 1 ? std::vector<double>{0, 0.7, P / 2, P, -2.5, 4.5} : std::vector<double>{0, 0.3, 0.7, P / 2, 2.1, P, -P / 2, -P, -2.5, 4.5, 5.9, 2 * P};
  std::vector<std::pair<double, double>> cart = size == 0 ? std::vector<std::pair<double, double>>{{0, 0}, {30, -12}} : size == 1 ? std::vector<std::pair<double, double>>{{0, 0}, {30, -12}, {-5, 0}, {0, 9}, {-80, 40}} : std::vector<std::pair<double, double>>{{0, 0}, {30, -12}, {-5, 0}, {0, 9}, {-80, 40}, {4, 4}, {-15, -15}, {1000, -300}, {0, -60}};
  std::vector<std::pair<double, double>> pol = size == 0 ? std::vector<std::pair<double, double>>{{0, 0}, {40, 1.1}} : size == 1 ? std::vector<std::pair<double, double>>{{0, 0}, {40, 1.1}, {5, -2}, {15, 3}, {300, 5.5}} : std::vector<std::pair<double, double>>{{0, 0}, {0, 2}, {40, 1.1}, {5, -2}, {15, 3}, {300, 5.5}, {2, 0.2}, {18, 4.6}, {30, -1}, {1000, 2.2}};
  for (int mother : {gear::PadRowLayout2D::CARTESIAN, gear::PadRowLayout2D::POLAR}) {
    if (mother == gear::PadRowLayout2D::POLAR && !layoutPolar) continue;    // documented as not implemented
    for (auto& o : mother == gear::PadRowLayout2D::CARTESIAN ? cart : pol) for (double a : angs)
      for (double b : size == 0 ? std::vector<double>{0, 1.5} : size == 1 ? std::vector<double>{0, 1.5, 40} : std::vector<double>{0, 1e-3, 1.5, 11, 40})
        for (int zk = 0; zk < 4; ++zk) {
          Place p; p.mother = mother; p.o0 = o.first; p.o1 = o.second; p.angle = a; p.border = b; p.zset = zk != 0; p.z = zk == 1 ? 100 : zk == 2 ? -100 : 0;
          if (!p.zset) p.z = 1;
          if (size < 2 && zk == 3 && (b != 0 || a == 4.5)) continue;
          out.push_back(p);
        }
  }
  return out;
}
// points covering a box of layout coordinates densely including its corners and border, in local cartesian coordinates
inline std::vector<XY> coverBox(bool polar, const std::vector<double>& e, int n) {
  std::vector<XY> v;
  for (int i = 0; i <= n; ++i) { double a0 = e[0] + (e[1] - e[0]) * i / n, b0 = e[2] + (e[3] - e[2]) * i / n;
    for (double b : {e[2], e[3], 0.5 * (e[2] + e[3])}) v.push_back(toXY(polar, a0, b));
    for (double a : {e[0], e[1], 0.5 * (e[0] + e[1])}) v.push_back(toXY(polar, a, b0)); }
  return v;
}
}
