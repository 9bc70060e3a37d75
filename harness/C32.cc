// C32: material budgets along a line and at a point agree with the attached geometry model, whatever was asked before.
#include "mc.h"
#include "gear/GEAR.h"
#include "geartgeo/TGeoGearDistanceProperties.h"
#include "geartgeo/TGeoGearPointProperties.h"
#include "gear/GearMaterialProperties.h"
#include "TGeoManager.h"
#include "TGDMLParse.h"
#include "rt.h"
#include <fstream>
#include <dlfcn.h>
// the plugin library is part of this program, so opening it succeeds
extern "C" void* dlopen(const char* name, int flags) { static int here; if (name && strstr(name, "geartgeo")) return &here; static void* (*real)(const char*, int) = (void* (*)(const char*, int))dlsym(RTLD_NEXT, "dlopen"); return real(name, flags); }

#include <algorithm>
using namespace mc; using std::vector; using std::string; using namespace gear;
const char* const mc::PROPERTY = "C32"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "the real ROOT back end of GEAR runs on a model of ROOT's navigator (axis-parallel boxes in boxes); case = one pair of points, whose lengths, segments, volumes and materials are compared with the exact intersection of the line and the boxes, or one history of queries of both services of one geometry, each answer compared with that of a geometry of which nothing else was asked";
const char* const mc::BOUNDS = "5 geometries (world only; world far larger than one navigation step; boxes nested 4 deep; neighbours sharing faces; layers 0.01 thick, with vacuum); all ordered pairs of 108 (thorough 455) points inside and outside the world; pieces shorter than 1e-4 are not demanded; all corners of all boxes of two geometries cut by 6 lengths from 3e-7 to 1e-3; every history of 2..4 (thorough 2..5) of 27 queries of the two services; all triples of descriptions (5 files, a missing one, none) read one after the other";
namespace {
struct Box { int parent; string name; double c[3], h[3]; int mat; }; // centre in the world
struct Mat { const char* name; double den, temp, pres, rad, inter; };
const Mat MAT[] = {{"Air", 0.0012, 293, 1, 30000, 70000}, {"Iron", 7.87, 290, 1.5, 1.76, 16.8}, {"Silicon", 2.33, 253, 2, 9.37, 46.5}, {"Vacuum", 0, 0, 0, 0, 0}, {"Lead", 11.35, 300, 3, 0.56, 18.2}};
typedef vector<Box> Geo;
const vector<Geo>& geos() { static vector<Geo> g{
  {{-1, "world", {0, 0, 0}, {10, 12, 14}, 1}},
  {{-1, "world", {0, 0, 0}, {2000, 1500, 1800}, 0}, {0, "calo", {100, 0, 0}, {700, 50, 60}, 1}},
  {{-1, "world", {0, 0, 0}, {10, 12, 14}, 0}, {0, "A", {1, 1, 1}, {6, 7, 8}, 1}, {1, "B", {2, 0, 1}, {4, 4, 5}, 2}, {2, "C", {3, 1, 2}, {1, 2, 1}, 4}},
  {{-1, "world", {0, 0, 0}, {10, 12, 14}, 0}, {0, "L", {-3, 0, 0}, {2, 5, 6}, 1}, {0, "M", {1, 0, 0}, {2, 5, 6}, 2}, {0, "R", {5, 0, 0}, {2, 5, 6}, 4}, {2, "N", {1, 1, 1}, {2, 1, 1}, 3}},
  {{-1, "world", {0, 0, 0}, {10, 12, 14}, 3}, {0, "S1", {-2, 0, 0}, {0.005, 8, 8}, 2}, {0, "S2", {0, 0, 0}, {0.005, 8, 8}, 4}, {0, "S3", {0.01, 0, 0}, {0.005, 8, 8}, 2}, {0, "S4", {4, 0, 0}, {0.05, 8, 8}, 1}}};
  return g; }
TGeoVolume* build(const Geo& g) { // belongs to a manager that lives as long as the program, as in ROOT
  TGeoManager* m = new TGeoManager; vector<TGeoVolume*> v; for (auto& b : g) { auto* t = new TGeoMaterial; const Mat& a = MAT[b.mat]; t->fName = a.name; t->den = a.den; t->temp = a.temp; t->pres = a.pres; t->rad = a.rad; t->inter = a.inter; auto* d = new TGeoMedium; d->fName = a.name; d->mat = t; auto* w = new TGeoVolume; w->fName = b.name; w->med = d; w->mgr = m; for (int i = 0; i < 3; ++i) w->half[i] = b.h[i]; v.push_back(w); if (b.parent >= 0) { auto* n = new TGeoNode; n->fName = b.name + "_1"; n->vol = w; for (int i = 0; i < 3; ++i) n->pos[i] = b.c[i] - g[b.parent].c[i]; v[b.parent]->kids.push_back(n); } }
  return v[0]; }
void drop(TGeoManager* m) { std::function<void(TGeoVolume*)> f = [&](TGeoVolume* v) { for (auto* k : v->kids) { f(k->vol); delete k; } delete v->med->mat; delete v->med; delete v; }; f(m->top); m->ClearTracks(); delete m; }
TGeoManager* manager(const Geo& g) { TGeoVolume* t = build(g); TGeoManager* m = t->mgr; m->SetTopVolume(t); m->CloseGeometry(); return m; }
bool within(const Box& b, const double* p) { for (int i = 0; i < 3; ++i) if (std::fabs(p[i] - b.c[i]) > b.h[i]) return false; return true; }
int where(const Geo& g, const double* p) { if (!within(g[0], p)) return -1; int at = 0; for (bool more = true; more;) { more = false; for (size_t i = 1; i < g.size() && !more; ++i) if (g[i].parent == at && within(g[i], p)) { at = (int)i; more = true; } } return at; }
struct Piece { int box; double len; };
vector<Piece> line(const Geo& g, const Vector3D& a, const Vector3D& b) { double A[3] = {a[0], a[1], a[2]}, D[3] = {b[0] - a[0], b[1] - a[1], b[2] - a[2]}, L = std::sqrt(D[0] * D[0] + D[1] * D[1] + D[2] * D[2]); vector<double> T{0, 1}; for (auto& x : g) for (int i = 0; i < 3; ++i) if (D[i] != 0) for (double s : {-1., 1.}) { double t = (x.c[i] + s * x.h[i] - A[i]) / D[i]; if (t > 0 && t < 1) T.push_back(t); } std::sort(T.begin(), T.end()); vector<Piece> r;
  for (size_t k = 0; k + 1 < T.size(); ++k) { double m = (T[k] + T[k + 1]) / 2, p[3]; for (int i = 0; i < 3; ++i) p[i] = A[i] + m * D[i]; double len = (T[k + 1] - T[k]) * L; if (len < 1e-9) continue; int w = where(g, p); if (w < 0) break; if (r.size() && r.back().box == w) r.back().len += len; else r.push_back({w, len}); } return r; }
bool clear(const vector<Piece>& p) { for (auto& x : p) if (x.len < 1e-4) return false; return true; } // no piece so short that a navigator may miss it
string show(const Vector3D& v) { return cat("(", v[0], ",", v[1], ",", v[2], ")"); }
}
// everything the two services say about a line or a point, as text; exceptions included
static string num9(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
static string ask(const TGeoGearDistanceProperties& d, int what, const Vector3D& a, const Vector3D& b) { try { string s; switch (what) { case 0: return num9(d.getNRadlen(a, b)); case 1: return num9(d.getNIntlen(a, b)); case 2: for (auto& x : d.getMaterialNames(a, b)) s += x + ";"; return s; case 3: for (double x : d.getMaterialThicknesses(a, b)) s += num9(x) + ";"; return s; case 4: for (auto& x : d.getVolumeNames(a, b)) s += x + ";"; return s; } } catch (OutsideGeometryException&) { return "outside"; } catch (NotImplementedException&) { return "not implemented"; } catch (gear::Exception& e) { return cat("exception ", e.what()); } return ""; }
static string ask(const TGeoGearPointProperties& p, int what, const Vector3D& a) { try { string s; switch (what) { case 0: return p.getMaterialName(a); case 1: return num9(p.getDensity(a)); case 2: return num9(p.getTemperature(a)); case 3: return num9(p.getPressure(a)); case 4: return num9(p.getRadlen(a)); case 5: return num9(p.getIntlen(a)); case 6: { Vector3D v = p.getLocalPosition(a); return num9(v[0] == 0 ? 0 : v[0]) + " " + num9(v[1]) + " " + num9(v[2]); } case 7: for (auto& x : p.getListOfLogicalVolumes(a)) s += x + ";"; return s; case 8: for (auto& x : p.getListOfPhysicalVolumes(a)) s += x + ";"; return s; } } catch (OutsideGeometryException&) { return "outside"; } catch (gear::Exception& e) { return cat("exception ", e.what()); } return ""; }
void mc::explore(Ctx& c) {
  for (size_t gi = 0; gi < geos().size(); ++gi) { const Geo& g = geos()[gi]; const double sx = g[0].h[0], sy = g[0].h[1], sz = g[0].h[2]; vector<Vector3D> P; vector<double> X{-1.31, -0.83, -0.203, 0.0123, 0.417, 0.941, -0.47, 0.2403, 0.6709}, Y{-0.71, 0.0311, 0.377, 0.953}, Z{0.0177, 0.613, -0.507}; if (c.thorough) { X.insert(X.end(), {-0.602, -0.331, 0.1107, 0.333}); Y.insert(Y.end(), {-0.32, 0.2, 0.66}); Z.insert(Z.end(), {-0.93, 0.31}); } for (double x : X) for (double y : Y) for (double z : Z) P.push_back(Vector3D(x * sx, y * sy, z * sz));
    if (gi == 1) for (auto& p : P) { p[1] = p[1] / 10; p[2] = p[2] / 20; }
    // points
    c.unit(cat("points of geometry ", gi), [&, gi] { for (auto& p : P) { TGeoManager* m = manager(g); TGeoGearPointProperties q(m); double x[3] = {p[0], p[1], p[2]}; int w = where(g, x); c.trace(); c.state(cat(gi, show(p))); string want[9]; if (w < 0) for (auto& s : want) s = "outside"; else { const Mat& a = MAT[g[w].mat]; want[0] = a.name; want[1] = num9(a.den); want[2] = num9(a.temp); want[3] = num9(a.pres); want[4] = num9(a.rad); want[5] = num9(a.inter); double l[3]; for (int i = 0; i < 3; ++i) l[i] = x[i] - g[w].c[i]; want[6] = num9(l[0] == 0 ? 0 : l[0]) + " " + num9(l[1]) + " " + num9(l[2]); for (int b = w; b >= 0; b = g[b].parent) { want[7] += g[b].name + ";"; want[8] += g[b].name + "_1;"; } }
        for (int k = 0; k < 9; ++k) { string r = ask(q, k, p); bool ok = r == want[k]; if (!ok && k == 6 && w >= 0) { double u[3] = {0}, v[3] = {0}; ok = sscanf(r.c_str(), "%lf %lf %lf", u, u + 1, u + 2) == 3 && sscanf(want[k].c_str(), "%lf %lf %lf", v, v + 1, v + 2) == 3; for (int i = 0; i < 3; ++i) ok = ok && std::fabs(u[i] - v[i]) < 1e-6; } if (!c.check(ok, "wrong-point-property", [&] { return cat("geometry ", gi, " ", show(p), " property ", k, " is ", r, " expected ", want[k]); })) break; } drop(m); } });
    // lines
    for (size_t i = 0; i < P.size(); ++i) c.unit(cat("lines of geometry ", gi, " from ", show(P[i])), [&, gi, i] { TGeoManager* m = manager(g); TGeoGearDistanceProperties d(m); double x[3] = {P[i][0], P[i][1], P[i][2]}; int w = where(g, x); for (size_t j = 0; j < P.size(); ++j) { const Vector3D &a = P[i], &b = P[j]; c.trace(); c.state(cat(gi, show(a), show(b))); auto at = [&] { return cat("geometry ", gi, " from ", show(a), " to ", show(b)); }; c.now(at());
        if (i == j) { string s; for (int k = 0; k < 5; ++k) s += ask(d, k, a, b); if (!c.check(s == "00" || s == "outsideoutsideoutsideoutsideoutside", "material-at-a-single-point", [&] { return at() + " " + s; })) break; continue; }
        if (w < 0) { bool ok = true; for (int k = 0; k < 5; ++k) ok = ok && ask(d, k, a, b) == "outside"; if (!c.check(ok, "start-outside-accepted", at)) break; continue; }
        auto want = line(g, a, b); double y[3] = {b[0], b[1], b[2]}; if (!clear(want)) continue; (void)y;
        double R = 0, I = 0; for (auto& p : want) { const Mat& t = MAT[g[p.box].mat]; if (t.rad) R += p.len / t.rad; if (t.inter) I += p.len / t.inter; }
        try { double r = d.getNRadlen(a, b), n = d.getNIntlen(a, b); vector<string> M = d.getMaterialNames(a, b), V = d.getVolumeNames(a, b); vector<double> T = d.getMaterialThicknesses(a, b);
          if (!c.check(std::fabs(r - R) < 1e-4 * (1 + R) && std::fabs(n - I) < 1e-4 * (1 + I), "wrong-budget", [&] { return cat(at(), ": ", r, " radiation and ", n, " interaction lengths, expected ", R, " and ", I); })) break;
          if (!c.check(M.size() == V.size() && M.size() == T.size(), "lists-not-parallel", at)) break; vector<Piece> got; bool ok = true; for (size_t k = 0; k < M.size(); ++k) { int box = -1; for (size_t q = 0; q < g.size(); ++q) if (g[q].name + "_1" == V[k]) box = (int)q; ok = ok && box >= 0 && M[k] == MAT[g[box].mat].name && T[k] > -1e-9; if (T[k] < 1e-5) continue; if (got.size() && got.back().box == box) got.back().len += T[k]; else got.push_back({box, T[k]}); }
          ok = ok && got.size() == want.size(); for (size_t k = 0; ok && k < got.size(); ++k) ok = got[k].box == want[k].box && std::fabs(got[k].len - want[k].len) < 1e-4 * (1 + want[k].len); if (!c.check(ok, "wrong-pieces", [&] { string s; for (size_t k = 0; k < V.size() && k < T.size(); ++k) s += cat(" ", V[k], " ", T[k]); s += " expected"; for (auto& p : want) s += cat(" ", g[p.box].name, " ", p.len); return at() + s; })) break;
        } catch (gear::Exception& e) { c.fail("line-refused", at() + " " + e.what()); break; } }
      if (i % 16 == 0) c.sample(cat("geometry ", gi, " from ", show(P[i]))); drop(m); }); }
  // lines that cut a corner of a box so closely that the navigator makes a step too short to go on from
  for (size_t gi : {size_t(2), size_t(3)}) c.unit(cat("corners of geometry ", gi), [&c, gi] { const Geo& g = geos()[gi]; TGeoManager* m = manager(g); TGeoGearDistanceProperties d(m); for (size_t b = 1; b < g.size(); ++b) for (int sx : {-1, 1}) for (int sy : {-1, 1}) for (double cut : {3e-7, 1e-6, 3e-6, 6e-6, 2e-5, 1e-3}) for (double len : {0.4, 1.3}) for (int back : {0, 1}) { const Box& x = g[b]; double X = x.c[0] + sx * (x.h[0] - cut), Y = x.c[1] + sy * x.h[1], Z = x.c[2] + 0.23; Vector3D p(X + sx * len, Y - sy * len, Z), q(X - sx * len, Y + sy * len, Z); if (back) std::swap(p, q); double u[3] = {p[0], p[1], p[2]}, v[3] = {q[0], q[1], q[2]}; if (where(g, u) < 0 || where(g, v) < 0) continue; c.trace(); c.state(cat(gi, b, sx, sy, cut, len, back)); double R = 0; for (auto& t : line(g, p, q)) if (MAT[g[t.box].mat].rad) R += t.len / MAT[g[t.box].mat].rad; double r = d.getNRadlen(p, q); string w; for (auto& t : line(g, p, q)) w += cat(" ", g[t.box].name, " ", t.len); if (!c.check(std::fabs(r - R) < 1e-3 * (R + 0.1), "wrong-budget-at-corner", [&] { return cat("geometry ", gi, " box ", x.name, " cut by ", cut, " from ", show(p), " to ", show(q), ": ", r, " radiation lengths, expected ", R, w); })) return; } drop(m); });
  // histories of queries of both services of one geometry
  { const Geo& g = geos()[2]; const Vector3D A(-9, 1.2, 1.3), B(8.5, 2.1, 3.2), Out(30, 1, 1), C(3.1, 1.2, 2.2), O2(-40, 0, 0); struct Op { int kind, what; Vector3D a, b; string name; }; vector<Op> ops; auto line2 = [&](int w, const Vector3D& a, const Vector3D& b, const char* n) { ops.push_back({0, w, a, b, cat("line ", w, " ", n, "; ")}); }; auto pt = [&](int w, const Vector3D& a, const char* n) { ops.push_back({1, w, a, a, cat("point ", w, " ", n, "; ")}); };
    for (int w = 0; w < 5; ++w) { line2(w, A, B, "AB"); line2(w, A, A, "AA"); line2(w, Out, A, "OutA"); } line2(0, B, A, "BA"); line2(3, A, C, "AC"); line2(4, O2, B, "O2B"); line2(2, A, C, "AC"); pt(6, A, "A"); pt(6, C, "C"); pt(6, Out, "Out"); pt(7, C, "C"); pt(8, B, "B"); pt(0, C, "C"); pt(0, A, "A"); pt(4, Out, "Out");
    static vector<string> fresh; for (auto& o : ops) { TGeoManager* m = manager(g); TGeoGearDistanceProperties d(m); TGeoGearPointProperties p(m); fresh.push_back(o.kind ? ask(p, o.what, o.a) : ask(d, o.what, o.a, o.b)); drop(m); }
    for (size_t f = 0; f < ops.size(); ++f) for (size_t f2 = 0; f2 < ops.size(); ++f2) c.unit(cat("history ", ops[f].name, ops[f2].name), [&c, &g, ops, f, f2] { vector<size_t> h{f, f2}; const size_t D = c.thorough ? 5 : 4; std::function<void()> go = [&] { TGeoManager* m = manager(g); { TGeoGearDistanceProperties d(m), e(m); TGeoGearPointProperties p(m); auto hs = [&] { string s; for (size_t q : h) s += ops[q].name; return s; }; for (size_t k = 0; k < h.size(); ++k) { const Op& o = ops[h[k]]; string r = o.kind ? ask(p, o.what, o.a) : ask(d, o.what, o.a, o.b); if (!c.check(r == fresh[h[k]], "answer-depends-on-history", [&] { return cat(hs(), "query ", k + 1, " answered '", r, "' instead of '", fresh[h[k]], "'"); })) break; }
          c.trace(); c.state(hs()); } drop(m); if (h.size() >= D) return; for (size_t q = 0; q < ops.size(); ++q) { h.push_back(q); go(); h.pop_back(); } }; go(); if (f == f2) c.sample(ops[f].name); }); }
  // the plugin that makes the services for a file
  c.unit("plugin", [&] { for (size_t i = 0; i < geos().size(); ++i) TGDMLParse::files()[cat("g", i, ".gdml")] = [i] { return build(geos()[i]); }; for (size_t i = 0; i <= geos().size(); ++i) for (size_t j = 0; j <= geos().size(); ++j) { c.trace(); c.state(cat("plugin", i, j)); auto make = [&](size_t k) { const GearMaterialPropertiesFactory* f = GearMaterialPropertiesFactory::instance(); GearMaterialProperties* p = f ? f->create() : nullptr; if (p) p->config()["GDMLFileName"] = cat("g", k, ".gdml"); return p; };
      GearMaterialProperties *a = make(i), *b = make(j); if (!c.check(a && b && a != b, "no-plugin", [] { return string(); })) return; c.check(!a->getGearPointProperties() && !a->getGearDistanceProperties(), "service-before-initialisation", [] { return string(); }); bool ra = false, rb = false; try { a->initialize(); } catch (gear::Exception&) { ra = true; } try { b->initialize(); } catch (gear::Exception&) { rb = true; }
      if (!c.check(ra == (i == geos().size()) && rb == (j == geos().size()), "missing-file", [&] { return cat(i, " ", j); })) return; auto look = [&](GearMaterialProperties* p, size_t k) { if (k == geos().size()) return; GearPointProperties* q = p->getGearPointProperties(); GearDistanceProperties* d = p->getGearDistanceProperties(); if (!c.check(q && d, "no-service", [&] { return cat(k); })) return; const Vector3D x(-4.5, 1.3, 1.1), y(3.3, 1.4, 1.2); double u[3] = {x[0], x[1], x[2]}; double R = 0; for (auto& s : line(geos()[k], x, y)) if (MAT[geos()[k][s.box].mat].rad) R += s.len / MAT[geos()[k][s.box].mat].rad; double r = d->getNRadlen(x, y); string n = q->getMaterialName(x); c.check(n == MAT[geos()[k][where(geos()[k], u)].mat].name && std::fabs(r - R) < 1e-4 * (1 + R), "service-of-another-file", [&] { return cat("file ", k, " material ", n, " budget ", r, " expected ", R); }); delete q; delete d; };
      look(a, i); look(b, j); look(a, i); } c.sample("plugin"); });
  // descriptions that name a file, read by the real reader, several of them alive
  c.unit("descriptions", [&] { size_t n = geos().size(); for (size_t i = 0; i < n; ++i) TGDMLParse::files()[cat("g", i, ".gdml")] = [i] { return build(geos()[i]); }; auto file = [&](size_t k) { string f = c.tmpdir + cat("/d", k, ".xml"); std::ofstream o(f); o << "<gear>"; if (k <= n) o << "<GDMLFile name=\"g" << k << ".gdml\"/>"; o << "<BField type=\"ConstantBField\" x=\"0\" y=\"0\" z=\"" << k << "\"/><detectors/></gear>\n"; o.close(); return f; };
    // 0..n-1: the geometries, n: a file that does not exist, n+1: no file named
    for (size_t i = 0; i < n + 2; ++i) for (size_t j = 0; j < n + 2; ++j) for (size_t k = 0; k < n + 2; ++k) { c.trace(); c.state(cat("desc", i, j, k)); std::vector<std::pair<size_t, std::unique_ptr<GearMgr>>> live; auto at = [&] { return cat("descriptions ", i, " ", j, " ", k); };
      for (size_t q : {i, j, k}) { try { auto m = rt::load(file(q)); if (!c.check(q != n && m, "missing-file-accepted", at)) return; live.emplace_back(q, std::move(m)); } catch (gear::Exception& e) { if (!c.check(q == n, "description-refused", [&] { return at() + " " + e.what(); })) return; }
        for (auto& l : live) { size_t g = l.first; const Vector3D x(-4.5, 1.3, 1.1), y(3.3, 1.4, 1.2); double r = -1; string name; bool none = false; try { r = l.second->getDistanceProperties().getNRadlen(x, y); name = l.second->getPointProperties().getMaterialName(x); } catch (gear::Exception&) { none = true; } if (g == n + 1) { if (!c.check(none, "service-without-file", at)) return; continue; }
          double u[3] = {x[0], x[1], x[2]}, R = 0; for (auto& s : line(geos()[g], x, y)) if (MAT[geos()[g][s.box].mat].rad) R += s.len / MAT[geos()[g][s.box].mat].rad; if (!c.check(!none && name == MAT[geos()[g][where(geos()[g], u)].mat].name && std::fabs(r - R) < 1e-4 * (1 + R) && l.second->getBField().at(x)[2] == double(g), "service-of-another-file", [&] { return at() + cat(" geometry ", g, " material ", name, " budget ", r, " expected ", R); })) return; } } } c.sample("descriptions"); });
}
