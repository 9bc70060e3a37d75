// Grid of small pad-layout configurations with an independent reference model of each.
// The model is a plain list of rows: band in r (or y), number of cells, first cell edge, pitch, metal size.
#pragma once
#include "mc.h"
#include "gear/PadRowLayout2D.h"
#include "gear/GEAR.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include <functional>
#include <memory>
#include <algorithm>

namespace lay {
using mc::cat; using mc::num;

struct MRow {
  double lo, hi;        // row band (r or y)
  double padH;          // metal height, centred in the band
  int n;                // pads
  double c0;            // coordinate (phi or x) of the first cell's lower edge
  double pitch;         // cell size (rad or mm)
  double width;         // metal width (rad or mm), centred in the cell
  bool closed;          // row forms a full circle
  double mid() const { return 0.5 * (lo + hi); }
  double height() const { return hi - lo; }
  double center(int i) const { return c0 + (i + 0.5) * pitch; }
};
struct Model {
  bool polar = true; int type = 0;
  bool insideIsMetal = true;       // containment is tested against the metal (else the effective cell)
  std::vector<MRow> rows;
  double ext[4] = {0, 0, 0, 0};
  int nPads() const { int s = 0; for (auto& r : rows) s += r.n; return s; }
};
struct Cfg {
  std::string key;
  std::function<gear::PadRowLayout2D*()> make;
  Model m;
};

inline double wrapPi(double a) { return std::remainder(a, 2 * M_PI); }

// distance of (c0,c1) to a box in the layout's own coordinates; polar: annular sector, Euclidean in the plane
inline double boxDistance(bool polar, double c0, double c1, double lo, double hi, double a, double b) {
  if (polar) {                                   // c0=r, c1=phi ; lo/hi in r ; a..b in phi
    double r = c0, d = std::fabs(wrapPi(c1 - 0.5 * (a + b))) - 0.5 * (b - a);
    if (d <= 1e-12) return r < lo ? lo - r : r > hi ? r - hi : 0.;
    double p = r * std::cos(d);
    if (p < lo) return std::sqrt(std::max(0., r * r + lo * lo - 2 * lo * p));
    if (p > hi) return std::sqrt(std::max(0., r * r + hi * hi - 2 * hi * p));
    return std::fabs(r * std::sin(d));
  }
  double x = c0, y = c1;                          // lo/hi in y ; a..b in x
  double dx = x < a ? a - x : x > b ? x - b : 0, dy = y < lo ? lo - y : y > hi ? y - hi : 0;
  return std::sqrt(dx * dx + dy * dy);
}
inline double cellDistance(const Model& m, int row, int pad, double c0, double c1) {   // effective pad
  const MRow& r = m.rows[row];
  return boxDistance(m.polar, c0, c1, r.lo, r.hi, r.c0 + pad * r.pitch, r.c0 + (pad + 1) * r.pitch);
}
inline double metalDistance(const Model& m, int row, int pad, double c0, double c1) {
  const MRow& r = m.rows[row];
  return boxDistance(m.polar, c0, c1, r.mid() - r.padH / 2, r.mid() + r.padH / 2, r.center(pad) - r.width / 2, r.center(pad) + r.width / 2);
}
// distance in the layout's own coordinates from the pad boundary, >0 inside, <0 outside
inline double insideMargin(const Model& m, int row, int pad, double c0, double c1) {
  const MRow& r = m.rows[row];
  double h = m.insideIsMetal ? r.padH : r.height(), w = m.insideIsMetal ? r.width : r.pitch;
  double a, b;
  if (m.polar) { a = h / 2 - std::fabs(c0 - r.mid()); b = w / 2 - std::fabs(wrapPi(c1 - r.center(pad))); }
  else { a = h / 2 - std::fabs(c1 - r.mid()); b = w / 2 - std::fabs(c0 - r.center(pad)); }
  return std::min(a, b);
}

inline void extentFromRows(Model& m) {
  double lo = 1e300, hi = -1e300, a = 1e300, b = -1e300;
  for (auto& r : m.rows) { lo = std::min(lo, r.lo); hi = std::max(hi, r.hi); a = std::min(a, r.c0); b = std::max(b, r.c0 + r.n * r.pitch); }
  if (m.polar) { if (b - a > 2 * M_PI) { a = 0; b = 2 * M_PI; } m.ext[0] = lo; m.ext[1] = hi; m.ext[2] = a; m.ext[3] = b; }
  else { m.ext[0] = a; m.ext[1] = b; m.ext[2] = lo; m.ext[3] = hi; }
}

// ---- fixed pad size ---------------------------------------------------------------------------------
inline bool fixedSizeCfg(double rMin, double rMax, double ph, double pw, int nRow, double gap, double phiMax, Cfg& c) {
  Model m; m.polar = true; m.type = gear::PadRowLayout2D::FIXEDPADSIZEDISKLAYOUT;
  double q = (rMax + 0.01 - rMin) / ph;
  if (std::fabs(q - std::round(q)) < 1e-6) return false;       // rounding knife edge
  int nr = (int)q; int n = nRow > 0 ? std::min(nRow, nr) : nr;
  if (n <= 0) return false;
  double h = (rMax - rMin) / n;
  for (int i = 0; i < n; ++i) {
    MRow r; r.lo = rMin + i * h; r.hi = r.lo + h; r.padH = ph;
    double u = r.mid() * phiMax / (pw + gap);
    if (std::fabs(u - std::round(u)) < 1e-6) return false;
    r.n = (int)std::floor(u); if (r.n <= 0) return false;      // rows without pads are degenerate
    r.c0 = 0; r.pitch = phiMax / r.n; r.width = pw / r.mid(); r.closed = std::fabs(phiMax - 2 * M_PI) < 1e-6;
    m.rows.push_back(r);
  }
  m.ext[0] = rMin; m.ext[1] = rMax; m.ext[2] = 0; m.ext[3] = phiMax;
  c.key = cat("size(", rMin, ",", rMax, ",h", ph, ",w", pw, ",n", nRow, ",g", gap, ",phi", phiMax, ")");
  c.make = [=]() -> gear::PadRowLayout2D* { return new gear::FixedPadSizeDiskLayout(rMin, rMax, ph, pw, nRow, gap, phiMax); };
  c.m = m; return true;
}
// ---- fixed pad angle --------------------------------------------------------------------------------
inline Cfg fixedAngleCfg(double rMin, double rMax, int nRow, double phiMin, double phiMax, int nPads) {
  Cfg c; Model& m = c.m; m.polar = true; m.type = gear::PadRowLayout2D::FIXEDPADANGLEDISKLAYOUT;
  double h = (rMax - rMin) / nRow;
  for (int i = 0; i < nRow; ++i) {
    MRow r; r.lo = rMin + i * h; r.hi = r.lo + h; r.padH = h; r.n = nPads; r.c0 = phiMin;
    r.pitch = r.width = (phiMax - phiMin) / nPads; r.closed = std::fabs(phiMax - phiMin - 2 * M_PI) < 1e-6;
    m.rows.push_back(r);
  }
  m.ext[0] = rMin; m.ext[1] = rMax; m.ext[2] = phiMin; m.ext[3] = phiMax;
  c.key = cat("angle(", rMin, ",", rMax, ",", nRow, ",", phiMin, ",", phiMax, ",", nPads, ")");
  c.make = [=]() -> gear::PadRowLayout2D* { return new gear::FixedPadAngleDiskLayout(rMin, rMax, nRow, phiMin, phiMax, nPads); };
  return c;
}
// ---- rectangular rows -------------------------------------------------------------------------------
struct RRow { int nRow, nPad; double pw, ph, rh, lo, ro; };
inline Cfg rectCfg(double xMin, double xMax, double yMin, const std::vector<RRow>& rows, int repeat) {
  Cfg c; Model& m = c.m; m.polar = false; m.type = gear::PadRowLayout2D::RECTANGULARPADROWLAYOUT;
  double y = yMin; std::string k;
  for (int rep = 0; rep < std::max(1, repeat); ++rep)
    for (auto& q : rows) for (int i = 0; i < q.nRow; ++i) {
      MRow r; double h = q.rh == 0 ? q.ph : q.rh;
      r.lo = y; r.hi = y + h; y += h; r.padH = q.ph; r.n = q.nPad; r.c0 = xMin + q.lo;
      r.pitch = (xMax - q.ro - xMin - q.lo) / q.nPad; r.width = q.pw; r.closed = false; m.rows.push_back(r);
    }
  for (auto& q : rows) k += cat("[", q.nRow, "x", q.nPad, ",", q.pw, "x", q.ph, ",", q.rh, ",", q.lo, ",", q.ro, "]");
  m.ext[0] = xMin; m.ext[1] = xMax; m.ext[2] = yMin; m.ext[3] = y;
  c.key = cat("rect(", xMin, ",", xMax, ",", yMin, k, "*", repeat, ")");
  c.make = [=]() -> gear::PadRowLayout2D* {
    gear::RectangularPadRowLayout* l = new gear::RectangularPadRowLayout(xMin, xMax, yMin);
    for (auto& q : rows) l->addRow(q.nRow, q.nPad, q.pw, q.ph, q.rh, q.lo, q.ro);
    if (repeat > 0) l->repeatRows(repeat);
    return l; };
  return c;
}
// ---- versatile rows ---------------------------------------------------------------------------------
struct VRow { int nPads; double pitch, rh, off, pw, ph; int rep; };
inline bool versCfg(double rMin, const std::vector<VRow>& rows, Cfg& c) {
  Model m; m.polar = true; m.type = gear::PadRowLayout2D::VERSATILEDISKROWLAYOUT; m.insideIsMetal = false;
  double r0 = rMin; std::string k;
  for (auto& q : rows) for (int i = 0; i < q.rep; ++i) {
    MRow r; r.lo = r0; r.hi = r0 + q.rh; r0 += q.rh; r.padH = q.ph == 0 ? q.rh : q.ph; r.n = q.nPads;
    double rc = r.mid(); r.pitch = q.pitch / rc; r.width = (q.pw == 0 ? q.pitch : q.pw) / rc; r.c0 = q.off / rc;
    if (r.c0 < -2 * M_PI) r.c0 += 2 * M_PI;
    if (r.c0 >= 2 * M_PI) r.c0 -= 2 * M_PI;
    if (r.n * r.pitch > 2 * M_PI - 1e-9 && std::fabs(r.n * r.pitch - 2 * M_PI) > 1e-9) return false;
    if (r.n * r.pitch > 2 * M_PI) return false;
    r.closed = std::fabs(r.n * r.pitch - 2 * M_PI) < 1e-6; m.rows.push_back(r);
  }
  extentFromRows(m);
  for (auto& q : rows) k += cat("[", q.nPads, ",", q.pitch, ",", q.rh, ",o", q.off, ",", q.pw, ",", q.ph, "x", q.rep, "]");
  c.key = cat("vers(", rMin, k, ")");
  c.make = [=]() -> gear::PadRowLayout2D* {
    gear::VersatileDiskRowLayout* l = new gear::VersatileDiskRowLayout(rMin);
    for (auto& q : rows) l->addRow(q.nPads, q.pitch, q.rh, q.off, q.pw, q.ph, q.rep);
    return l; };
  c.m = m; return true;
}

// size: 0 tiny (a few of each kind), 1 quick, 2 thorough
inline std::vector<Cfg> configs(int size) {
  std::vector<Cfg> out;
  const double P = M_PI;
  { // fixed pad size
    std::vector<double> rMins = size == 0 ? std::vector<double>{10} : size == 1 ? std::vector<double>{0, 10} : std::vector<double>{0, 3, 10, 100};
    std::vector<double> dr = size == 0 ? std::vector<double>{10} : std::vector<double>{6, 11};
    std::vector<double> phis = size == 0 ? std::vector<double>{2 * P, 1.} : size == 1 ? std::vector<double>{2 * P, 2 * P - 1e-3, 0.7, P / 2, 1.4 * P} : std::vector<double>{2 * P, 2 * P - 1e-3, 2 * P - 2e-5, 0.7, P / 2, P, 1.4 * P, 1.9 * P};
    for (double a : rMins) for (double d : dr) for (double h : {2., 5.}) for (double w : {1., 3.}) for (int n : {0, 1, 2, 9}) for (double g : {0., 0.4}) for (double p : phis) {
      if (size == 0 && (h == 2. || w == 3. || n == 1 || n == 9)) continue;
      Cfg c; if (fixedSizeCfg(a, a + d, h, w, n, g, p, c)) out.push_back(c);
    }
  }
  { // fixed pad angle
    std::vector<double> rMins = size == 0 ? std::vector<double>{10} : size == 1 ? std::vector<double>{0, 10} : std::vector<double>{0, 10, 200};
    std::vector<double> pmins = size == 0 ? std::vector<double>{-0.3, 1} : size == 1 ? std::vector<double>{-0.3, 0, 1, 3, 5.5} : std::vector<double>{-P, -0.3, 0, 0.4, 1, P / 2, 3, P, 5.5};
    std::vector<double> ds = size == 0 ? std::vector<double>{0.6, 2 * P} : size == 1 ? std::vector<double>{0.6, 1.5 * P, 2 * P - 1e-3, 2 * P} : std::vector<double>{0.6, P / 2, P, 1.5 * P, 1.9 * P, 2 * P - 1e-3, 2 * P - 2e-5, 2 * P};
    for (double a : rMins) for (int n : {1, 2, 5}) for (double pm : pmins) for (double d : ds) for (int np : {1, 2, 3, 7}) {
      if (size == 0 && (n != 2 || np != 3)) continue;
      if (np == 1 && d > 1.99 * P) continue;     // a single pad closing on itself has no edge; not a pad plane
      out.push_back(fixedAngleCfg(a, a + 12, n, pm, pm + d, np));
    }
  }
  { // rectangular
    std::vector<RRow> A = { {1, 3, 2, 3, 0, 0, 0}, {2, 4, 1.5, 2, 3, 0, 0}, {1, 2, 2, 4, 5, 1, 0.5}, {1, 5, 1, 1, 0, 0, 2}, {1, 1, 3, 2, 2, 3, 3}, {3, 2, 5, 6, 6, 0, 0} };
    size_t na = size == 0 ? 3 : size == 1 ? 5 : A.size();
    int depth = size == 2 ? 4 : 2 + (size > 0);
    std::vector<std::vector<int>> seqs{{}};
    for (size_t b = 0, e; b < seqs.size() && (e = seqs.size(), true); b = e) {
      for (size_t i = b; i < e; ++i) if ((int)seqs[i].size() < depth) for (size_t k = 0; k < na; ++k) { auto s = seqs[i]; s.push_back(k); seqs.push_back(s); }
      if ((int)seqs.back().size() == depth && seqs[e < seqs.size() ? e : e - 1].size() == (size_t)depth) { break; }
    }
    std::vector<std::pair<double, double>> orig = size == 0 ? std::vector<std::pair<double, double>>{{-4, 3}} : size == 1 ? std::vector<std::pair<double, double>>{{0, 0}, {-7, 3}} : std::vector<std::pair<double, double>>{{0, 0}, {-7, 3}, {5, -20}, {-100, -3}};
    for (auto& o : orig) for (auto& s : seqs) {
      if (s.empty()) continue;
      std::vector<RRow> rs; for (int k : s) rs.push_back(A[k]);
      for (int rep : {0, 1, 2, 3}) {
        if (size < 2 && s.size() == 3 && rep) continue;
        if (size == 2 && s.size() == 4 && rep != 0 && rep != 2) continue;
        if (size == 0 && (rep == 1 || rep == 3)) continue;
        out.push_back(rectCfg(o.first, o.first + 12, o.second, rs, rep));
      }
    }
  }
  { // versatile
    auto full = [](double rc, int n) { return 2 * M_PI * rc / n * (1 - 1e-12); };
    std::vector<VRow> A = { {3, 2, 4, 0, 0, 0, 1}, {4, 1.5, 3, -3, 1, 2, 1}, {2, 3, 2, 2.5, 0, 0, 2}, {5, 1, 3, -8, 0.5, 0, 1}, {1, 4, 5, 1, 0, 0, 1}, {3, 3, 3, -20, 0, 0, 3} };
    size_t na = size == 0 ? 3 : size == 1 ? 5 : A.size();
    int depth = size == 0 ? 2 : size == 1 ? 3 : 4;
    std::vector<std::vector<int>> seqs{{}};
    for (size_t b = 0; b < seqs.size(); ++b) if ((int)seqs[b].size() < depth) for (size_t k = 0; k < na; ++k) { auto s = seqs[b]; s.push_back(k); seqs.push_back(s); }
    for (double rMin : size == 0 ? std::vector<double>{20} : size == 1 ? std::vector<double>{6, 30} : std::vector<double>{6, 15, 30, 300})
      for (auto& s : seqs) {
        if (s.empty()) continue;
        std::vector<VRow> rs; for (int k : s) rs.push_back(A[k]);
        Cfg c; if (versCfg(rMin, rs, c)) out.push_back(c);
      }
    // full-circle rows, alone and mixed with partial ones
    for (double rMin : {10., 30.}) for (int n : {2, 3, 8}) for (int mix = 0; mix < 4; ++mix) for (double off : {0., 3., -4.}) {
      std::vector<VRow> rs; rs.push_back({n, full(rMin + 2, n), 4, off, 0, 0, 1});
      if (mix == 1) rs.push_back({3, 2, 3, 1, 0, 0, 1});
      if (mix == 2) rs.insert(rs.begin(), VRow{n, full(rMin - 1.5, n), 3, off, 0, 0, 1});
      if (mix == 3) rs.push_back({n, full(rMin + 5.5, n), 3, -off, 0, 0, 1});
      Cfg c; if (versCfg(mix == 2 ? rMin - 3 : rMin, rs, c)) out.push_back(c);
    }
    // offsets of more than a full turn
    for (double off : {200., -200., 150.}) { Cfg c; if (versCfg(20, { {3, 2, 4, off, 1.5, 0, 2}, {4, 1.5, 3, 0, 0, 2, 1} }, c)) out.push_back(c); }
    // two partial rows that together span the circle
    for (double rMin : {10., 30.}) { double r1 = rMin + 2, r2 = rMin + 6;
      Cfg c; if (versCfg(rMin, { {4, M_PI * r1 / 4, 4, 0, 0, 0, 1}, {4, M_PI * r2 / 4, 4, M_PI * r2, 0, 0, 1} }, c)) out.push_back(c); }
  }
  { // decimal sizes: the edges of rows and pads are not exact numbers
    int nk = size == 0 ? 1 : size == 1 ? 8 : 40;
    for (int k = 1; k <= nk; ++k) for (double y0 : {0., 0.3, -7.7, 100.7}) { double h = k * 0.1 + 0.013;
      if (size == 0 && y0 != 0.3) continue;
      out.push_back(rectCfg(-7.3, 5.1, y0, { {9, 7, 0.7, h, h, 0, 0} }, 0));
      out.push_back(rectCfg(0.1 * k, 0.1 * k + 12.4, y0, { {4, 7, 0.7, 0.7 * h, h, 0.1, 0.3}, {1, 3, 0.7, 3, 9.1 * h + 3, 0, 0}, {5, 11, 0.9, 0.6 * h, 1.1 * h, 0.2, 0} }, k % 3));
      if (y0 <= 0) continue;
      Cfg c; if (fixedSizeCfg(y0, y0 + 9 * h, h, 0.3 + 0.1 * y0, 0, 0.01, 0.1 * k + 0.7, c)) out.push_back(c); if (fixedSizeCfg(y0, y0 + 7 * h, 0.97 * h, 0.3 + 0.1 * y0, 0, 0, 2 * M_PI, c)) out.push_back(c);
      out.push_back(fixedAngleCfg(y0, y0 + 7 * h, 7, 0.1 * k - 3, 0.1 * k - 2.3 + 0.1 * k, 9)); out.push_back(fixedAngleCfg(y0, y0 + 7 * h, 3, 0.1 * k, 0.1 * k + 2 * M_PI, 7));
      if (versCfg(y0 + 3, { {5, 0.7, h, 0.1 * k - 0.4, 0, 0, 3}, {3, 0.9, 1.3 * h, -0.3, 0.7, 0.9 * h, 2} }, c)) out.push_back(c);
    }
  }
  return out;
}

// Mesh of points in the layout's own coordinates: inside, on edges, in gaps and outside on all sides.
inline std::vector<std::pair<double, double>> mesh(const Model& m, bool thorough) {
  std::vector<double> major, minor;   // major: r / y ; minor: phi / x
  auto addRow = [&](const MRow& r) {
    for (double f : {0.03, 0.3, 0.5, 0.77, 0.98}) major.push_back(r.lo + f * r.height());
    major.push_back(r.lo);
    double g = (r.height() - r.padH) / 2; if (g > 1e-9) { major.push_back(r.lo + g * 1.02); major.push_back(r.hi - g * 1.02); }
  };
  for (size_t i = 0; i < m.rows.size(); ++i) if (thorough || m.rows.size() <= 4 || i < 2 || i + 2 >= m.rows.size()) addRow(m.rows[i]);
  double lo = m.rows.front().lo, hi = m.rows.back().hi;
  major.push_back(hi); major.push_back(hi + 0.3); major.push_back(hi + 50);
  if (m.polar) { if (lo > 0.5) { major.push_back(lo - 0.3); major.push_back(lo / 3); } }
  else { major.push_back(lo - 0.3); major.push_back(lo - 50); }
  for (auto& r : m.rows) {
    std::vector<int> idx{0, 1, r.n / 2, r.n - 1};
    std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
    for (int i : idx) { if (i >= r.n || i < 0) continue;
      for (double f : {0.02, 0.4, 0.5, 0.93}) minor.push_back(r.c0 + (i + f) * r.pitch); }
    double end = r.c0 + r.n * r.pitch;
    if (m.polar) {
      double rest = 2 * M_PI - r.n * r.pitch;
      if (rest > 1e-3) for (double f : {0.02, 0.3, 0.46, 0.54, 0.8, 0.99}) minor.push_back(end + f * rest);
    } else for (double d : {0.1, 1.1, 30.}) { minor.push_back(r.c0 - d); minor.push_back(end + d); }
  }
  std::sort(minor.begin(), minor.end());
  minor.erase(std::unique(minor.begin(), minor.end(), [](double a, double b) { return std::fabs(a - b) < 1e-7; }), minor.end());
  std::sort(major.begin(), major.end());
  major.erase(std::unique(major.begin(), major.end(), [](double a, double b) { return std::fabs(a - b) < 1e-7; }), major.end());
  if (!thorough && minor.size() > 60) { std::vector<double> t; double step = minor.size() / 60.; for (double i = 0; i < minor.size(); i += step) t.push_back(minor[(size_t)i]); minor = t; }
  std::vector<std::pair<double, double>> pts;
  for (double a : major) for (double b : minor) {
    if (m.polar) {
      if (a < 1e-3) continue;
      pts.push_back({a, b});
    } else pts.push_back({b, a});
  }
  return pts;
}
// mesh plus points at the very corners of pads (and within a few units in the last place of them)
inline std::vector<std::pair<double, double>> points(const Model& m, bool thorough) {
  std::vector<std::pair<double, double>> v = mesh(m, thorough);
  for (size_t i = 0; i < m.rows.size(); ++i) { const MRow& r = m.rows[i];
    for (int k : {0, r.n / 2, r.n - 1}) for (int s = 0; s < 2; ++s) for (int e = 0; e < 2; ++e) { double edge = r.c0 + (k + e) * r.pitch, rim = s ? r.hi : r.lo;
      for (int u = -2; u <= 2; ++u) for (int w = -1; w <= 1; ++w) { double a = rim, b = edge; for (int q = 0; q < std::abs(u); ++q) b = std::nextafter(b, u * 1e9); if (w) a = std::nextafter(a, w * 1e9);
        if (m.polar && a < 1e-3) continue; if (m.polar) v.push_back({a, b}); else v.push_back({b, a}); } } }
  return v;
}
}
