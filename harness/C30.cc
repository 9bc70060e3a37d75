// C30: vector algebra and pad-index ordering obey their laws.
#include "mc.h"
#include "gearimpl/Vector3D.h"
#include "gearimpl/Vectors.h"
#include "gearimpl/GlobalPadIndex.h"
#include "CLHEP/Vector/ThreeVector.h"
#include <climits>
#include <map>
#include <set>
#include <vector>
using namespace mc; using std::vector; using std::string; using gear::Vector3D; using gear::GlobalPadIndex;
const char* const mc::PROPERTY = "C30"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one tuple of vectors and scalars, or one tuple of pad indices, or one history of set operations; algebra on small integers must be exact, everything else within 1e-12 of the arithmetic of the harness; sets and maps keyed by pad indices are compared with the same containers keyed by pairs after every operation; distinct = different tuple or history";
const char* const mc::BOUNDS = "all vectors over 7 (thorough 11) coordinates incl. zero, both signs, 1e-8 and 1e6, all pairs of them with 5 scalars, all triples over 3 (thorough 5) coordinates; cylindrical and spherical views: 9 radii x 33 (thorough 129) azimuths in several turns x 17 (thorough 65) polar angles or 9 heights; small vectors of 2 to 4 elements, all indices in and out of range; pad indices: all pairs and triples over 9 x 9 numbers incl. the extremes, all histories of 5 insertions and removals of 12 indices in sorted sets and maps (quick: half of the operations as third, fourth and fifth)";
namespace {
struct P { double x, y, z; };
string show(const Vector3D& v) { return cat("(", v.x(), ",", v.y(), ",", v.z(), ")"); }
bool rel(double a, double b, double s) { return std::fabs(a - b) <= 1e-12 * s; }
bool is(const Vector3D& v, double x, double y, double z) { return v.x() == x && v.y() == y && v.z() == z; }
template <class T> bool views(const T& v, double x, double y, double z) { double rho = std::hypot(x, y), r = std::hypot(rho, z), s = 1e-300 + r; double phi = v.phi(), th = v.theta();
  return rel(v.rho(), rho, s) && rel(v.trans(), rho, s) && rel(v.trans2(), rho * rho, s * s) && rel(v.r(), r, s) && rel(v.r2(), r * r, s * s) && phi >= -M_PI - 1e-12 && phi <= M_PI + 1e-12 && th >= 0 && th <= M_PI + 1e-12 && rel(rho * std::cos(phi), x, s) && rel(rho * std::sin(phi), y, s) && rel(r * std::cos(th), z, s) && rel(r * std::sin(th), rho, s) && (rho > 0 || phi == 0) && (r > 0 || th == 0); }
struct Three { double a, b, d; Three(double x, double y, double z) : a(x), b(y), d(z) {} double x() const { return a; } double y() const { return b; } double z() const { return d; } };
}
void mc::explore(Ctx& c) {
  vector<double> C{0, 1, -1, 2.5, -3, 1e-8, 1e6}; if (c.thorough) for (double x : {-1e6, 7., 0.1, -1e-8}) C.push_back(x);
  vector<P> A; for (double x : C) for (double y : C) for (double z : C) A.push_back({x, y, z});
  const double SC[] = {0, 1, -1, 2.5, -1e3};
  for (double X : C) for (double Y : C) c.unit(cat("vectors ", X, " ", Y, " *"), [&, X, Y] { for (double Z : C) { Vector3D a(X, Y, Z); auto at = [&] { return show(a); }; c.now(at()); c.state(at()); c.trace();
    const Vector3D& ka = a; const double ar[3] = {X, Y, Z}; const float fl[3] = {float(X), float(Y), float(Z)}; Vector3D d, fa(fl), da(ar), ca(X, Y, Z, Vector3D::cartesian), cp(a), th(Three(X, Y, Z)), he(CLHEP::Hep3Vector(X, Y, Z)), as; as = a; Vector3D br; br[0] = X; br[1] = Y; br[2] = Z;
    if (!c.check(is(d, 0, 0, 0) && is(a, X, Y, Z) && is(da, X, Y, Z) && is(fa, fl[0], fl[1], fl[2]) && is(ca, X, Y, Z) && is(cp, X, Y, Z) && is(th, X, Y, Z) && is(he, X, Y, Z) && is(as, X, Y, Z) && is(br, X, Y, Z) && ka[0] == X && ka[1] == Y && ka[2] == Z && ka.x() == X && ka.y() == Y && ka.z() == Z && ka[3] == 0 && ka[-1] == 0, "construction", at)) return;
    { Three t = a.to<Three>(); Three u = a; CLHEP::Hep3Vector h = a.to<CLHEP::Hep3Vector>(); if (!c.check(t.a == X && t.b == Y && t.d == Z && u.a == X && u.b == Y && u.d == Z && h.x() == X && h.y() == Y && h.z() == Z, "conversion", at)) return; }
    if (!c.check(views(a, X, Y, Z), "views", [&] { return cat(at(), " phi ", a.phi(), " rho ", a.rho(), " theta ", a.theta(), " r ", a.r()); })) return;
    if (a.r() > 0) { Vector3D u = a.unit(); double n = a.r(); if (!c.check(rel(u.r(), 1, 1) && rel(u.x() * n, X, n) && rel(u.y() * n, Y, n) && rel(u.z() * n, Z, n), "unit", at)) return;
      Vector3D cy(a.rho(), a.phi(), Z, Vector3D::cylindrical), sp(a.r(), a.phi(), a.theta(), Vector3D::spherical); for (auto& w : {cy, sp}) if (!c.check(rel(w.x(), X, n) && rel(w.y(), Y, n) && rel(w.z(), Z, n), "view-and-back", at)) return; }
    for (auto& q : A) { Vector3D b(q.x, q.y, q.z); auto at2 = [&] { return show(a) + show(b); }; c.state(at2()); double s = a.r() * b.r() + 1e-300, sm = a.r() + b.r() + 1e-300;
      Vector3D su = a + b, di = a - b, cr = a.cross(b), rc = b.cross(a); double dt = a.dot(b);
      if (!c.check(is(su, X + q.x, Y + q.y, Z + q.z) && su == b + a && is(di, X - q.x, Y - q.y, Z - q.z) && rel((di + b).x(), X, sm) && rel((di + b).y(), Y, sm) && rel((di + b).z(), Z, sm) && a + Vector3D() == a && is(a - a, 0, 0, 0), "sum", at2)) return;
      if (!c.check((a == b) == (X == q.x && Y == q.y && Z == q.z) && (a == b) == (b == a) && a == a, "equality", at2)) return;
      if (!c.check(rel(dt, X * q.x + Y * q.y + Z * q.z, s) && dt == b.dot(a) && rel(a.dot(a), a.r2(), a.r2() + 1e-300), "scalar-product", at2)) return;
      if (!c.check(rel(cr.x(), Y * q.z - Z * q.y, s) && rel(cr.y(), Z * q.x - X * q.z, s) && rel(cr.z(), X * q.y - Y * q.x, s) && is(rc, -cr.x(), -cr.y(), -cr.z()) && rel(cr.dot(a), 0, s * a.r() + 1e-300) && rel(cr.dot(b), 0, s * b.r() + 1e-300) && is(a.cross(a), 0, 0, 0) && rel(cr.r2() + dt * dt, a.r2() * b.r2(), 4 * s * s), "vector-product", [&] { return at2() + show(cr); })) return;
      for (double k : SC) { Vector3D ka2 = k * a, l = k * su, r = k * a + k * b; double t = std::fabs(k) * sm; if (!c.check(is(ka2, k * X, k * Y, k * Z) && rel(l.x(), r.x(), t) && rel(l.y(), r.y(), t) && rel(l.z(), r.z(), t) && rel(ka2.dot(b), k * dt, std::fabs(k) * s) && rel((ka2.cross(b)).r(), std::fabs(k) * cr.r(), 4 * std::fabs(k) * s), "scaling", [&] { return cat(at2(), " times ", k); })) return; }
      if (!c.check(is(a, X, Y, Z) && is(b, q.x, q.y, q.z), "operand-changed", at2)) return; } } if (X == 1) c.sample(cat("(", X, ",", Y, ",*) with all ", A.size(), " vectors")); });
  vector<double> T{0, 1, -2}; if (c.thorough) { T.push_back(3); T.push_back(-5); }
  for (double X : T) for (double Y : T) c.unit(cat("triples ", X, " ", Y), [&, X, Y] { vector<Vector3D> v; for (double x : T) for (double y : T) for (double z : T) v.push_back(Vector3D(x, y, z)); for (double Z : T) { Vector3D a(X, Y, Z); for (auto b : v) for (auto d : v) { auto at = [&] { return show(a) + show(b) + show(d); }; c.state(at()); if (!c.check((a + b) + d == a + (b + d) && (a - b) - d == a - (b + d) && a.dot(b + d) == a.dot(b) + a.dot(d) && a.cross(b + d) == a.cross(b) + a.cross(d) && a.dot(b.cross(d)) == b.dot(d.cross(a)) && a.dot(b.cross(d)) == d.dot(a.cross(b)) && a.cross(b.cross(d)) == a.dot(d) * b - a.dot(b) * d, "law", at)) return; } } });
  int NP = c.thorough ? 129 : 33, NT = c.thorough ? 65 : 17;
  for (double rho : {0., 1e-6, 0.5, 1., 3., 57.5, 1800., 1e5, 1e9}) for (int half = 0; half < 2; ++half) c.unit(cat("views ", rho, half ? " spherical" : " cylindrical"), [&, rho, half] { for (int i = 0; i < NP; ++i) { double phi = -4 * M_PI + 8 * M_PI * i / (NP - 1) + 1e-3; for (int j = 0; j < (half ? NT : 9); ++j) { double z = 0, th = 0; if (half) th = M_PI * j / (NT - 1); else { static const double Z[] = {0, 1, -1, 0.001, -7.5, 2000, -2000, 1e6, -1e9}; z = Z[j]; }
    Vector3D v = half ? Vector3D(rho, phi, th, Vector3D::spherical) : Vector3D(rho, phi, z, Vector3D::cylindrical); auto at = [&] { return cat(half ? "spherical " : "cylindrical ", rho, " ", phi, " ", half ? th : z); }; c.state(at()); double s = rho + std::fabs(z) + 1e-300, R = half ? rho * std::sin(th) : rho, zz = half ? rho * std::cos(th) : z;
    if (!c.check(rel(v.x(), R * std::cos(phi), 10 * s) && rel(v.y(), R * std::sin(phi), 10 * s) && rel(v.z(), zz, 10 * s) && views(v, v.x(), v.y(), v.z()), "view", [&] { return at() + show(v); })) return;
    if (R > 1e-9 * rho && rho > 0) { if (!c.check(rel(v.rho(), R, 10 * s) && rel(v.r(), std::hypot(R, zz), 10 * s) && std::fabs(std::remainder(v.phi() - phi, 2 * M_PI)) < 1e-9 && (!half || std::fabs(v.theta() - th) < 1e-9), "view-value", [&] { return cat(at(), " phi ", v.phi(), " rho ", v.rho(), " theta ", v.theta()); })) return; } } } });
  c.unit("small vectors", [&] { gear::Vector2D e2; gear::VectorND_T<3> e3; gear::VectorND_T<4, float> e4; auto thr = [](auto f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; }; auto bad = [&](const char* w) { return [w] { return string(w); }; }; c.trace();
    if (!c.check(e2[0] == 0 && e2[1] == 0 && e3[0] == 0 && e3[1] == 0 && e3[2] == 0 && e4[0] == 0 && e4[3] == 0, "not-zero", bad("default"))) return;
    for (double x : C) for (double y : C) { gear::Vector2D v(x, y), w(v), z; z = v; const gear::Vector2D& k = v; c.state(cat("2D ", x, " ", y)); if (!c.check(v[0] == x && v[1] == y && k[0] == x && k[1] == y && w[0] == x && w[1] == y && z[0] == x && z[1] == y, "2D", [&] { return cat(x, " ", y); })) return; v[0] = y + 1; v[1] = x + 2; if (!c.check(v[0] == y + 1 && v[1] == x + 2 && w[0] == x && w[1] == y && z[0] == x, "2D-assign", [&] { return cat(x, " ", y); })) return; }
    const gear::Vector2D k2(1, 2); const gear::VectorND_T<3> k3; const gear::VectorND_T<4, float> k4; for (unsigned i : {0u, 1u, 2u, 3u, 4u, 5u, 100u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { c.state(cat("index ", i)); if (!c.check(thr([&] { e2[i]; }) == (i > 1) && thr([&] { k2[i]; }) == (i > 1) && thr([&] { e3[i]; }) == (i > 2) && thr([&] { k3[i]; }) == (i > 2) && thr([&] { e4[i]; }) == (i > 3) && thr([&] { k4[i]; }) == (i > 3), "range", [&] { return cat("index ", i); })) return; } });
  const int N[] = {INT_MIN, INT_MIN + 1, -5, -1, 0, 1, 2, 1000, INT_MAX}; vector<std::pair<int, int>> I; for (int m : N) for (int p : N) I.push_back({m, p});
  for (auto& a : I) c.unit(cat("pad index ", a.first, " ", a.second), [&, a] { GlobalPadIndex A1(a.second, a.first), A2(0, 0); A2.setPadIndex(a.second); A2.setModuleID(a.first); c.trace(); if (!c.check(A1.getPadIndex() == a.second && A1.getModuleID() == a.first && A1 == A2 && !(A1 < A2) && !(A2 < A1), "values", [&] { return string("itself"); })) return;
    for (auto& b : I) { GlobalPadIndex B1(b.second, b.first); auto at = [&] { return cat("module ", a.first, " pad ", a.second, " and module ", b.first, " pad ", b.second); }; c.state(at()); bool lt = A1 < B1, gt = B1 < A1, eq = A1 == B1; if (!c.check(eq == (a == b) && eq == (B1 == A1) && lt + gt + eq == 1, "not-a-total-order", at)) return; { GlobalPadIndex D(B1); D = A1; if (!c.check(D == A1 && D.getPadIndex() == a.second && D.getModuleID() == a.first, "copy", at)) return; }
      for (auto& d : I) { GlobalPadIndex D1(d.second, d.first); c.transitions(); if (lt && B1 < D1 && !(A1 < D1)) { c.fail("not-transitive", [&] { return cat(at(), " and module ", d.first, " pad ", d.second); }()); return; } } } });
  vector<std::pair<int, int>> J; for (int m : {-1, 0, 5}) for (int p : {0, 1, 7, INT_MAX}) J.push_back({m, p}); const int D = 5;
  for (int f = 0; f < 24; ++f) for (int g = 0; g < 24; ++g) c.unit(cat("container ", f, " ", g), [&, f, g] { vector<int> h{f, g}; std::function<bool()> rec = [&] { if (int(h.size()) == D) { std::set<GlobalPadIndex> s; std::map<GlobalPadIndex, int> mp; std::set<std::pair<int, int>> ms; std::map<std::pair<int, int>, int> mm; auto at = [&] { string o; for (int x : h) o += cat(x < 12 ? " +" : " -", J[x % 12].first, "/", J[x % 12].second); return o; }; c.trace(); c.state(at()); int n = 0;
        for (int x : h) { auto& j = J[x % 12]; GlobalPadIndex q(j.second, j.first); ++n; if (x < 12) { bool a = s.insert(q).second, b = ms.insert(j).second; mp[q] = n; mm[j] = n; if (!c.check(a == b, "container", at)) return false; } else { size_t a = s.erase(q), b = ms.erase(j); mp.erase(q); mm.erase(j); if (!c.check(a == b, "container", at)) return false; } }
        bool ok = s.size() == ms.size() && mp.size() == mm.size(); for (auto& j : J) { GlobalPadIndex q(j.second, j.first); auto i = mp.find(q); auto k = mm.find(j); ok = ok && s.count(q) == ms.count(j) && (i == mp.end()) == (k == mm.end()) && (i == mp.end() || i->second == k->second); } if (ok && !s.empty()) { auto i = s.begin(); for (auto& j : ms) { ok = ok && ((i->getModuleID() == j.first && i->getPadIndex() == j.second)); ++i; } } return c.check(ok, "container", at); }
      for (int x = 0; x < 24; ++x) { if (!c.thorough && (h.back() + x) % 2) continue; h.push_back(x); bool ok = rec(); h.pop_back(); if (!ok) return false; } return true; }; rec(); });
}
