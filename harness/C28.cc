// C28: measurement-surface coordinates and boundaries are consistent.
#include "mc.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include <array>
#include <memory>
#include <vector>
using namespace mc; using std::vector; using std::string; using CLHEP::Hep3Vector; using CLHEP::HepRotation;
const char* const mc::PROPERTY = "C28"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one coordinate system (translation, rotation), boundary and point; local and global points are compared with matrix arithmetic of the harness, the boundary answer with the limits in the frame turned by the boundary's angle; points closer than 1e-7 (local) or 1e-6 (global) to a limit are not used; distinct = different (system, boundary, point)";
const char* const mc::BOUNDS = "rotations: Euler angles 9 x 7 x 9 (thorough 17 x 13 x 17), also by axis and by columns; translations: 6; points: a 7 x 7 x 7 mesh with values 0 to 1e5; boundaries: 8 rectangles and 12 trapezoids (also triangles, upside down, very long and flat) x 9 angles, points on a mesh of 13 x 13 x 7 positions inside and outside, just inside and just outside every edge and corner; surfaces without boundary and with user-defined coordinate systems and boundaries";
namespace {
typedef std::array<double, 3> V; struct M { double a[3][3]; };
V mul(const M& m, V v) { V r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] += m.a[i][j] * v[j]; return r; }
V tmul(const M& m, V v) { V r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] += m.a[j][i] * v[j]; return r; }
M mm(const M& x, const M& y) { M r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
M axis(int k, double t) { double c = std::cos(t), s = std::sin(t); int i = (k + 1) % 3, j = (k + 2) % 3; M r{}; r.a[k][k] = 1; r.a[i][i] = r.a[j][j] = c; r.a[i][j] = -s; r.a[j][i] = s; return r; }
V vec(const Hep3Vector& h) { return {h.x(), h.y(), h.z()}; }
Hep3Vector hep(const V& v) { return Hep3Vector(v[0], v[1], v[2]); }
string show(const V& v) { return cat("(", v[0], ",", v[1], ",", v[2], ")"); }
double scale(const V& a, const V& b) { double s = 1; for (double x : a) s = std::max(s, std::fabs(x)); for (double x : b) s = std::max(s, std::fabs(x)); return s; }
bool close(const V& a, const V& b, double s) { for (int i = 0; i < 3; ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * s)) return false; return true; }
struct Bd { int kind; double b0, b1, h, w, al; };     // 0 rectangle: b0 width (u), h length (v); 1 trapezoid: b0 bottom, b1 top (u), h height (v)
string show(const Bd& b) { return cat(b.kind ? "trapezoid " : "rectangle ", b.b0, " ", b.b1, " ", b.h, " dw ", b.w, " alpha ", b.al); }
gear::IBoundary* make(const Bd& b) { if (b.kind) return new gear::BoundaryTrapezoid(b.b0, b.b1, b.h, b.w, b.al); if (b.al == 0) return new gear::BoundaryRectangle(b.b0, b.h, b.w); return new gear::BoundaryRectangle(b.b0, b.h, b.w, b.al); }
// smallest margin: > 0 inside
double margin(const Bd& b, V l) { double c = std::cos(b.al), s = std::sin(b.al), p = c * l[0] + s * l[1], q = c * l[1] - s * l[0]; double half = b.kind ? ((b.b0 + b.b1) / 2 + q * (b.b1 - b.b0) / b.h) / 2 : b.b0 / 2; return std::min(std::min(half - std::fabs(p), b.h / 2 - std::fabs(q)), b.w - std::fabs(l[2])); }
int alive = 0;
struct MySystem : gear::ICoordinateSystem { Hep3Vector o{1, 2, 3}; MySystem() { ++alive; } ~MySystem() { --alive; } Hep3Vector getLocalPoint(Hep3Vector g) const { return Hep3Vector(2 * (g.x() - 1), 2 * (g.y() - 2), 2 * (g.z() - 3)); } Hep3Vector getGlobalPoint(Hep3Vector l) const { return Hep3Vector(l.x() / 2 + 1, l.y() / 2 + 2, l.z() / 2 + 3); } Hep3Vector const* getOrigin() const { return &o; } };
struct MyBoundary : gear::IBoundary { MyBoundary() { ++alive; } ~MyBoundary() { --alive; } bool isInBoundary(Hep3Vector l) const { return l.x() + l.y() > 0 && l.z() > -7; } };
}
void mc::explore(Ctx& c) {
  const vector<V> T{{0, 0, 0}, {1, 2, 3}, {-1000, 500, 2500.5}, {0, 0, 1e5}, {-0.001, 0.002, -0.003}, {1e5, -1e5, 3}};
  vector<V> P; for (double x : {0., 1., -2.5, 37.25, -640., 1e5, -1e-4}) for (double y : {0., 2., -3.5, 41.5, -700., 2e4, -3e-4}) for (double z : {0., 3., -4.5, 47.75, -810., 3e3, -5e-4}) P.push_back({x, y, z});
  vector<Bd> B; for (double al : {0., 0.3, -0.3, M_PI / 2, 2., M_PI, -2.5, 7., 100.}) {
    const double R[8][3] = {{10, 20, 0.1}, {20, 10, 5}, {1, 1000, 0.5}, {1000, 1, 2}, {30, 30, 100}, {0.01, 0.02, 0.005}, {5, 1e5, 1}, {33.3, 77.7, 1e-3}}; for (auto& r : R) B.push_back({0, r[0], r[0], r[1], r[2], al});
    const double Z[12][4] = {{10, 20, 30, 0.1}, {20, 10, 30, 5}, {10, 10, 30, 1}, {0, 20, 15, 1}, {20, 0, 15, 1}, {1, 1000, 5, 2}, {1000, 1, 5, 2}, {5, 6, 1e4, 0.5}, {60, 200, 140, 0.02}, {0.01, 0.03, 0.02, 0.005}, {100, 30, 0.5, 50}, {7, 9, 11, 13}}; for (auto& z : Z) B.push_back({1, z[0], z[1], z[2], z[3], al}); }
  const int NA = c.thorough ? 17 : 9, NB = c.thorough ? 13 : 7;
  for (int a = 0; a < NA; ++a) for (int b = 0; b < NB; ++b) c.unit(cat("rotation ", a, " ", b), [&, a, b] {
    for (int g = 0; g < NA; ++g) for (size_t t = 0; t < T.size(); ++t) { double A = a * 2 * M_PI / (NA - 1) - M_PI, Bt = b * M_PI / (NB - 1), G = g * 2 * M_PI / (NA - 1) - M_PI; HepRotation R; M m;
      switch ((a + b + g + t) % 3) { case 0: R.rotateZ(A).rotateX(Bt).rotateZ(G); m = mm(axis(2, G), mm(axis(0, Bt), axis(2, A))); break; case 1: R.rotateX(A).rotateY(Bt).rotateZ(G); m = mm(axis(2, G), mm(axis(1, Bt), axis(0, A))); break; default: m = mm(axis(1, G), mm(axis(2, Bt), axis(1, A))); R.set(Hep3Vector(m.a[0][0], m.a[1][0], m.a[2][0]), Hep3Vector(m.a[0][1], m.a[1][1], m.a[2][1]), Hep3Vector(m.a[0][2], m.a[1][2], m.a[2][2])); }
      auto sys = [&] { return cat("angles ", A, " ", Bt, " ", G, " order ", (a + b + g + t) % 3, " origin ", show(T[t])); }; c.now(sys()); c.trace();
      gear::CartesianCoordinateSystem* s = new gear::CartesianCoordinateSystem(hep(T[t]), R); std::unique_ptr<gear::MeasurementSurface> ms(new gear::MeasurementSurface(a * 100 + g, s)); const gear::ICoordinateSystem& k = *ms->getCoordinateSystem();
      if (!c.check(ms->getID() == a * 100 + g && ms->getCoordinateSystem() == s && vec(*k.getOrigin()) == T[t], "wrong-origin", sys)) return;
      V ax[3] = {vec(s->getLocalXAxis()), vec(s->getLocalYAxis()), vec(s->getLocalZAxis())}; for (int i = 0; i < 3; ++i) { V e{}; e[i] = 1; if (!c.check(close(ax[i], mul(m, e), 1) && close(vec(*s->getR() * hep(e)), mul(m, e), 1), "wrong-axes", [&] { return cat(sys(), " axis ", i, " ", show(ax[i])); })) return; }
      size_t n = 0; double last = 0; V pl{}, pg{}; for (auto& p : P) { V want = mul(m, p); for (int i = 0; i < 3; ++i) want[i] += T[t][i]; double sc = scale(p, T[t]); V got = vec(k.getGlobalPoint(hep(p))), back = vec(k.getLocalPoint(hep(want))), rt = vec(k.getLocalPoint(k.getGlobalPoint(hep(p)))), rt2 = vec(k.getGlobalPoint(k.getLocalPoint(hep(p)))); V d; for (int i = 0; i < 3; ++i) d[i] = p[i] - T[t][i]; V wl = tmul(m, d);
        auto at = [&] { return cat(sys(), " point ", show(p)); }; c.state(cat(a, b, g, t) + show(p)); c.transitions(4);
        if (!c.check(close(got, want, sc), "wrong-global-point", [&] { return cat(at(), ": ", show(got), " instead of ", show(want)); })) return; if (!c.check(close(vec(k.getLocalPoint(hep(p))), wl, sc), "wrong-local-point", [&] { return cat(at(), " instead of ", show(wl)); })) return;
        if (!c.check(close(back, p, sc) && close(rt, p, sc) && close(rt2, p, sc), "no-way-back", [&] { return cat(at(), ": ", show(back), show(rt), show(rt2)); })) return;
        if (n++) { double dl = 0, dg = 0; for (int i = 0; i < 3; ++i) { dl += (p[i] - pl[i]) * (p[i] - pl[i]); dg += (got[i] - pg[i]) * (got[i] - pg[i]); } if (!c.check(std::fabs(std::sqrt(dl) - std::sqrt(dg)) <= 1e-8 * std::max(sc, std::sqrt(dl)), "distance-changed", at)) return; } pl = p; pg = got; (void)last;
        if (!c.check(ms->isLocalInBoundary(hep(p)) && ms->isGlobalInBoundary(hep(p)), "outside-without-boundary", at)) return; }
      // boundaries: a rotating selection of shapes for every coordinate system
      for (size_t bi = (a + 3 * b + 5 * g + 7 * t) % (c.thorough ? 5 : 20); bi < B.size(); bi += c.thorough ? 5 : 20) { const Bd& q = B[bi]; gear::MeasurementSurface sb(1, new gear::CartesianCoordinateSystem(hep(T[t]), R), make(q)); double wm = std::max(q.b0, q.b1) / 2;
        for (double fu : {-1.5, -0.99, -0.5, 0., 0.3, 0.7, 1.01}) for (double fv : {-1.2, -0.98, -0.4, 0., 0.35, 0.97, 1.03}) for (double fw : {-1.1, -0.9, 0., 0.8, 1.2}) { double pu = fu * wm, pv = fv * q.h / 2, pw = fw * q.w, ca = std::cos(q.al), sa = std::sin(q.al); V l{ca * pu - sa * pv, sa * pu + ca * pv, pw}; double mg = margin(q, l); V wg = mul(m, l); for (int i = 0; i < 3; ++i) wg[i] += T[t][i]; double tol = 1e-10 * scale(wg, T[t]) + 1e-9 + 1e-12 * q.h; if (std::fabs(mg) < tol * (1 + (q.kind ? std::fabs(q.b1 - q.b0) / q.h : 0))) continue;
          auto at = [&] { return cat(sys(), " ", show(q), " local ", show(l)); }; c.state(cat(a, b, g, t, "b", bi) + show(l)); bool in = mg > 0; if (!c.check(sb.isLocalInBoundary(hep(l)) == in, "wrong-local-boundary", at)) return; if (!c.check(sb.isGlobalInBoundary(hep(wg)) == in, "wrong-global-boundary", at)) return; } } } });
  for (size_t i = 0; i < B.size(); ++i) c.unit(show(B[i]), [&, i] { const Bd& q = B[i]; std::unique_ptr<gear::IBoundary> bd(make(q)); c.trace(); gear::MeasurementSurface ms(-5, new gear::CartesianCoordinateSystem(Hep3Vector(), HepRotation()), make(q));
    double ca = std::cos(q.al), sa = std::sin(q.al); auto one = [&](double pu, double pv, double pw) { V l{ca * pu - sa * pv, sa * pu + ca * pv, pw}; double mg = margin(q, l), tol = 1e-12 * (1 + q.h + q.b0 + q.b1) * (1 + (q.kind ? std::fabs(q.b1 - q.b0) / q.h : 0)); if (std::fabs(mg) <= tol) return true; auto at = [&] { return cat(show(q), " local ", show(l), " margin ", mg); }; c.state(at()); bool in = mg > 0; return c.check(bd->isInBoundary(hep(l)) == in && ms.isLocalInBoundary(hep(l)) == in, in ? "inside-not-recognised" : "outside-accepted", at); };
    int N = c.thorough ? 41 : 13; for (int x = 0; x < N; ++x) for (int y = 0; y < N; ++y) for (double fw : {-2., -1.001, -0.999, -0.3, 0., 0.5, 0.9999, 1.0001, 10.}) { double fv = -1.3 + 2.6 * y / (N - 1), fu = -1.3 + 2.6 * x / (N - 1), pv = fv * q.h / 2; double half = q.kind ? std::fabs((q.b0 + q.b1) / 2 + pv * (q.b1 - q.b0) / q.h) / 2 : q.b0 / 2; if (!one(fu * half, pv, fw * q.w) || !one(fu * std::max(q.b0, q.b1) / 2, pv, fw * q.w)) return; }
    for (double e : {1e-3, 1e-5, 1e-7}) for (double fv : {-1., 1., -1 + e, 1 - e, -1 - e, 1 + e, 0.}) for (double fu : {-1., 1., -1 + e, 1 - e, -1 - e, 1 + e, 0.}) for (double fw : {-1., 1., -1 + e, 1 - e, -1 - e, 1 + e, 0.}) { double pv = fv * q.h / 2, half = q.kind ? ((q.b0 + q.b1) / 2 + pv * (q.b1 - q.b0) / q.h) / 2 : q.b0 / 2; if (!one(fu * half, pv, fw * q.w)) return; }
    for (double big : {1e6, 1e12}) for (int k = 0; k < 3; ++k) for (int sg : {-1, 1}) { double v[3] = {0, 0, 0}; v[k] = sg * big; if (!one(v[0], v[1], v[2])) return; } c.sample(show(q)); });
  c.unit("user-defined systems and boundaries", [&] { for (int kind = 0; kind < 4; ++kind) { alive = 0; { gear::IBoundary* b = kind & 1 ? new MyBoundary : 0; gear::ICoordinateSystem* k = kind & 2 ? static_cast<gear::ICoordinateSystem*>(new MySystem) : new gear::CartesianCoordinateSystem(Hep3Vector(1, 2, 3), HepRotation()); gear::MeasurementSurface ms(9, k, b); double f = kind & 2 ? 2 : 1; c.trace();
      for (auto& p : P) { V l; for (int i = 0; i < 3; ++i) l[i] = f * (p[i] - (i + 1)); auto in = [&](const V& v) { return !b || (v[0] + v[1] > 0 && v[2] > -7); }; auto at = [&] { return cat("kind ", kind, " point ", show(p)); }; c.state(at()); if (!c.check(ms.isLocalInBoundary(hep(p)) == in(p) && ms.isGlobalInBoundary(hep(p)) == in(l) && close(vec(ms.getCoordinateSystem()->getLocalPoint(hep(p))), l, scale(p, l)), "user-defined", at)) return; } }
    if (!c.check(alive == 0, "not-released", [&] { return cat("kind ", kind, ": ", alive, " objects left"); })) return; } });
}
