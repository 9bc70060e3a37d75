// C26: telescope planes report exactly the values of their plane.
#include "mc.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gear/SiPlanesLayerLayout.h"
#include <functional>
#include <memory>
using namespace mc; using std::vector; using std::string; using namespace gear;
const char* const mc::PROPERTY = "C26"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = list of planes with all their values; every history of additions, changes of single values and copies is a trace of the reference model (a table of numbers, all values distinct) replayed on the real telescope; after every operation every value of every plane, the device under test and the answers to unknown planes are compared; distinct = different history";
const char* const mc::BOUNDS = "SiPlanes: every history of up to 4 (quick) / 5 (thorough) operations over add (long form), add (short form), device under test, copy, assign, and changing each of the 33 values of any plane as last (thorough: last two) operations; TrackerPlanes: every list of up to 3 (thorough 4) planes over 3 identifiers x 0-2 material x 0-2 sensitive layers, also edited after adding, every value of a layer changed; plane numbers -1 to n+1; up to 3 or all but 3 (thorough: any) of the 17 groups of values zero, in both forms of adding and the device under test; every subset of the sensor values equal to the plane";
namespace {
typedef SiPlanesLayerLayoutImpl S; typedef double (S::*GD)(int) const; typedef int (S::*GI)(int) const; typedef void (S::*SD)(int, double); typedef void (S::*SI)(int, int);
#define D1(n) {#n, &S::get##n, &S::set##n}
struct FD { const char* n; GD g; SD s; }; const FD DB[] = {D1(LayerPositionX), D1(LayerPositionY), D1(LayerPositionZ), D1(LayerRotationXY), D1(LayerRotationZX), D1(LayerRotationZY), D1(LayerSizeX), D1(LayerSizeY), D1(LayerThickness), D1(LayerRadLength),
  D1(SensitivePositionX), D1(SensitivePositionY), D1(SensitivePositionZ), D1(SensitiveRotationXY), D1(SensitiveRotationZX), D1(SensitiveRotationZY), D1(SensitiveSizeX), D1(SensitiveSizeY), D1(SensitiveThickness), D1(SensitivePitchX), D1(SensitivePitchY), D1(SensitiveResolution), D1(SensitiveResolutionX), D1(SensitiveResolutionY), D1(SensitiveRotation1), D1(SensitiveRotation2), D1(SensitiveRotation3), D1(SensitiveRotation4), D1(SensitiveRadLength)};
struct FI { const char* n; GI g; SI s; }; const FI IN[] = {D1(ID), D1(SensitiveID), D1(SensitiveNpixelX), D1(SensitiveNpixelY)};
const int ND = 29, NI = 4; struct Plane { double d[ND]; int i[NI]; }; struct Model { vector<Plane> p; bool dut = false; Plane q; };
double val(int k, int f) { return 100 * k + f + 0.25; }
Plane fresh(int k) { Plane p; for (int f = 0; f < ND; ++f) p.d[f] = val(k, f); for (int f = 0; f < NI; ++f) p.i[f] = 1000 * k + 50 + f; return p; }
const int NOROT[] = {3, 4, 5, 13, 14, 15}; // values the short form does not give
struct Si { std::unique_ptr<SiPlanesParametersImpl> par; S lay; };
#define V(a) p.d[a]
void addLong(Si& s, const Plane& p) { for (int w = 0; w < 2; ++w) { auto f = [&](auto& x) { x.addLayer(p.i[0], V(0), V(1), V(2), V(3), V(4), V(5), V(6), V(7), V(8), V(9), p.i[1], V(10), V(11), V(12), V(13), V(14), V(15), V(16), V(17), V(18), p.i[2], p.i[3], V(19), V(20), V(21), V(22), V(23), V(24), V(25), V(26), V(27), V(28)); }; if (w) f(s.lay); else f(*s.par); } }
void addShort(Si& s, const Plane& p) { auto f = [&](auto& x) { x.addLayer(p.i[0], V(0), V(1), V(2), V(6), V(7), V(8), V(9), p.i[1], V(10), V(11), V(12), V(16), V(17), V(18), p.i[2], p.i[3], V(19), V(20), V(21), V(24), V(25), V(26), V(27), V(28)); }; f(*s.par); f(s.lay); }
void addDut(Si& s, const Plane& p) { auto f = [&](auto& x) { x.addDUT(p.i[0], V(0), V(1), V(2), V(6), V(7), V(8), V(9), p.i[1], V(10), V(11), V(12), V(16), V(17), V(18), p.i[2], p.i[3], V(19), V(20), V(21), V(24), V(25), V(26), V(27), V(28)); }; f(*s.par); f(s.lay); }
template <class F> bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
string wrongOne(const S& y, const Model& m, bool shortRes) { int n = m.p.size(); if (y.getNLayers() != n) return "number of planes"; const SiPlanesLayerLayout& a = y; (void)a;
  for (int l = 0; l < n; ++l) { for (int f = 0; f < ND; ++f) { if (shortRes && std::isnan(m.p[l].d[f])) continue; if (!((y.*DB[f].g)(l) == m.p[l].d[f])) return cat("plane ", l, " ", DB[f].n, " ", (y.*DB[f].g)(l), " instead of ", m.p[l].d[f]); } for (int f = 0; f < NI; ++f) if ((y.*IN[f].g)(l) != m.p[l].i[f]) return cat("plane ", l, " ", IN[f].n, " ", (y.*IN[f].g)(l), " instead of ", m.p[l].i[f]); }
  for (int l : {-1, n, n + 1}) { for (auto& f : DB) if (!refused([&] { (y.*f.g)(l); })) return cat("plane ", l, " of ", n, " was accepted: ", f.n); for (auto& f : IN) if (!refused([&] { (y.*f.g)(l); })) return cat("plane ", l, " of ", n, " was accepted: ", f.n); }
  if (m.dut) { const Plane& p = m.q; struct { const char* n; double g, w; } q[] = {{"position x", y.getDUTPositionX(), V(0)}, {"position y", y.getDUTPositionY(), V(1)}, {"position z", y.getDUTPositionZ(), V(2)}, {"size x", y.getDUTSizeX(), V(6)}, {"size y", y.getDUTSizeY(), V(7)}, {"thickness", y.getDUTThickness(), V(8)}, {"rad length", y.getDUTRadLength(), V(9)}, {"sensitive position x", y.getDUTSensitivePositionX(), V(10)}, {"sensitive position y", y.getDUTSensitivePositionY(), V(11)}, {"sensitive position z", y.getDUTSensitivePositionZ(), V(12)}, {"sensitive size x", y.getDUTSensitiveSizeX(), V(16)}, {"sensitive size y", y.getDUTSensitiveSizeY(), V(17)}, {"sensitive thickness", y.getDUTSensitiveThickness(), V(18)}, {"pitch x", y.getDUTSensitivePitchX(), V(19)}, {"pitch y", y.getDUTSensitivePitchY(), V(20)}, {"resolution", y.getDUTSensitiveResolution(), V(21)}, {"rotation 1", y.getDUTSensitiveRotation1(), V(24)}, {"rotation 2", y.getDUTSensitiveRotation2(), V(25)}, {"rotation 3", y.getDUTSensitiveRotation3(), V(26)}, {"rotation 4", y.getDUTSensitiveRotation4(), V(27)}, {"sensitive rad length", y.getDUTSensitiveRadLength(), V(28)}, {"ID", double(y.getDUTID()), double(p.i[0])}, {"sensitive ID", double(y.getDUTSensitiveID()), double(p.i[1])}, {"pixels x", double(y.getDUTSensitiveNpixelX()), double(p.i[2])}, {"pixels y", double(y.getDUTSensitiveNpixelY()), double(p.i[3])}};
    for (auto& x : q) if (!(x.g == x.w)) return cat("device under test ", x.n, " ", x.g, " instead of ", x.w); }
  return ""; }
struct Op { int k, l, f; };
string show(const Op& o) { static const char* n[] = {"add", "add short", "device under test", "copy", "assign", "set"}; return o.k < 5 ? cat(n[o.k], ", ") : cat("set plane ", o.l, " ", o.f < ND ? DB[o.f].n : IN[o.f - ND].n, ", "); }
void step(Si& s, Model& m, const Op& o, int k) { Plane p = fresh(k + 1); switch (o.k) {
  case 0: m.p.push_back(p); addLong(s, p); break; case 1: addShort(s, p); for (int f : NOROT) p.d[f] = 0; p.d[22] = p.d[23] = NAN; m.p.push_back(p); break; case 2: m.dut = true; m.q = p; addDut(s, p); break;
  case 3: { s.par.reset(new SiPlanesParametersImpl(*s.par)); S t(s.lay); t.setSensitiveID(t.getNLayers() ? 0 : 0, 5); break; } case 4: { std::unique_ptr<SiPlanesParametersImpl> q(new SiPlanesParametersImpl(1, 2, 3)); *q = *s.par; s.par.swap(q); S t; t = s.lay; s.lay = S(); s.lay = t; break; }
  case 5: if (o.f < ND) { (s.lay.*DB[o.f].s)(o.l, -val(k, 77)); m.p[o.l].d[o.f] = -val(k, 77); } else { (s.lay.*IN[o.f - ND].s)(o.l, -k - 9); m.p[o.l].i[o.f - ND] = -k - 9; } } }
}
void mc::explore(Ctx& c) {
  const int DA = c.thorough ? 5 : 4, TAIL = c.thorough ? 2 : 1;
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 5; ++b) for (int d = 0; d < 5; ++d) c.unit(cat("SiPlanes ", show({a, 0, 0}), show({b, 0, 0}), show({d, 0, 0})), [&, a, b, d] {
    vector<Op> h{{a, 0, 0}, {b, 0, 0}, {d, 0, 0}}; bool sets = false; std::function<bool(int)> rec = [&](int tail) -> bool { auto at = [&] { string s; for (auto& o : h) s += show(o); return s; }; c.now(at()); c.trace(); c.state(at()); Si s; s.par.reset(new SiPlanesParametersImpl(11, 1, 12)); Model m; int adds = 0;
      for (size_t k = 0; k < h.size(); ++k) { if (h[k].k == 3 && m.p.empty()) { s.par.reset(new SiPlanesParametersImpl(*s.par)); } else step(s, m, h[k], k); adds += h[k].k < 2; }
      if (!sets) for (int k = 0; k < 1; ++k) { string w = wrongOne(dynamic_cast<const S&>(s.par->getSiPlanesLayerLayout()), m, true); if (!c.check(w.empty(), "wrong-plane", [&] { return at() + "through the parameters: " + w; })) return false; }
      string w = wrongOne(s.lay, m, true); if (!c.check(w.empty(), "wrong-plane", [&] { return at() + w; })) return false;
      if (!c.check(s.par->getSiPlanesID() == 11 && s.par->getSiPlanesType() == 1 && s.par->getSiPlanesNumber() == 12, "wrong-setup", at)) return false;
      if (tail < TAIL) for (int l = 0; l < int(m.p.size()); ++l) for (int f = 0; f < ND + NI; ++f) { if (tail && (f + l) % 4) continue; bool keep = sets; sets = true; h.push_back({5, l, f}); bool ok = rec(tail + 1); h.pop_back(); sets = keep; if (!ok) return false; }
      if (!tail && int(h.size()) < DA) for (int k = 0; k < 5; ++k) { h.push_back({k, 0, 0}); bool ok = rec(0); h.pop_back(); if (!ok) return false; }
      return true; };
    rec(0); if (a == b) c.sample(cat(show(h[0]), show(h[1]), show(h[2]), "every continuation")); });
  c.unit("SiPlanes setup", [&] { SiPlanesParametersImpl p(4, 2, 6); c.trace(); c.state("setup"); Model m; string w = wrongOne(dynamic_cast<const S&>(p.getSiPlanesLayerLayout()), m, false); if (!c.check(w.empty(), "wrong-plane", [&] { return w; })) return; const SiPlanesParameters& q = p; bool ok = q.getSiPlanesID() == 4 && q.getSiPlanesType() == 2 && q.getSiPlanesNumber() == 6; p.setSiPlanesID(-7); ok = ok && q.getSiPlanesID() == -7 && q.getSiPlanesType() == 2 && q.getSiPlanesNumber() == 6; p.setSiPlanesType(1); p.setSiPlanesNumber(8); ok = ok && q.getSiPlanesID() == -7 && q.getSiPlanesType() == 1 && q.getSiPlanesNumber() == 8; c.check(ok, "wrong-setup", [] { return string("identifier, type, number"); }); });
  // tracker planes
  struct E { int id; string info; double d[10]; int nx, ny; double s[4]; }; struct T { int id; string info; vector<E> m, s; };
  auto elem = [](int k) { E e; e.id = 7 * k - 20; e.info = k % 3 ? cat("part ", k) : ""; for (int i = 0; i < 10; ++i) e.d[i] = 50 * k + i + 0.5; e.nx = 100 * k + 1; e.ny = 100 * k + 2; for (int i = 0; i < 4; ++i) e.s[i] = 0.01 * k + 0.001 * i; return e; };
  auto same = [](const auto& x, const E& e) { double g[] = {x.getPositionX(), x.getPositionY(), x.getPositionZ(), x.getRotationXY(), x.getRotationZX(), x.getRotationZY(), x.getSizeX(), x.getSizeY(), x.getThickness(), x.getRadLength()}; bool ok = x.getID() == e.id && x.getInfo() == e.info; for (int i = 0; i < 10; ++i) ok = ok && g[i] == e.d[i]; return ok; };
  auto sameS = [same](const TrackerPlanesSensitiveLayerImpl& x, const E& e) { return same(x, e) && x.getNpixelX() == e.nx && x.getNpixelY() == e.ny && x.getPitchX() == e.s[0] && x.getPitchY() == e.s[1] && x.getResolutionX() == e.s[2] && x.getResolutionY() == e.s[3]; };
  auto addM = [](TrackerPlanesLayerImpl& l, const E& e) { l.addMaterialLayer(e.id, e.info, e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5], e.d[6], e.d[7], e.d[8], e.d[9]); };
  auto addS = [](TrackerPlanesLayerImpl& l, const E& e) { l.addSensitiveLayer(e.id, e.info, e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5], e.d[6], e.d[7], e.d[8], e.d[9], e.nx, e.ny, e.s[0], e.s[1], e.s[2], e.s[3]); };
  auto sameLayer = [same, sameS](const TrackerPlanesLayerImpl* l, const T& t) { if (!l || l->getID() != t.id || l->getInfo() != t.info || l->getNMaterialLayers() != int(t.m.size()) || l->getNSensitiveLayers() != int(t.s.size())) return false; TrackerPlanesLayerImpl q(*l); if (q.getMaterialLayerVec().size() != t.m.size() || q.getSensitiveLayerVec().size() != t.s.size()) return false; for (size_t i = 0; i < t.m.size(); ++i) if (!same(q.getMaterialLayerVec()[i], t.m[i])) return false; for (size_t i = 0; i < t.s.size(); ++i) if (!sameS(q.getSensitiveLayerVec()[i], t.s[i])) return false; return true; };
  const int ID[] = {3, 0, -8}; const int DT = c.thorough ? 4 : 3;
  for (int a = 0; a < 27; ++a) for (int b = 0; b < 27; ++b) c.unit(cat("TrackerPlanes ", a, " ", b), [&, a, b] {
    vector<int> h{a, b}; std::function<bool()> rec = [&]() -> bool { auto at = [&] { string s = "planes"; for (int k : h) s += cat(" (id ", ID[k / 9], ", ", k / 3 % 3, " material, ", k % 3, " sensitive)"); return s; }; c.now(at()); c.trace(); c.state(at()); TrackerPlanesParametersImpl p(5, 6, 7); vector<T> m; int e = 1;
      for (int k : h) { T t; t.id = ID[k / 9]; t.info = cat("plane ", e); std::unique_ptr<TrackerPlanesLayerImpl> l(new TrackerPlanesLayerImpl); l->setID(t.id); l->setInfo(t.info); for (int i = 0; i < k / 3 % 3; ++i) { t.m.push_back(elem(e++)); addM(*l, t.m.back()); } for (int i = 0; i < k % 3; ++i) { t.s.push_back(elem(e++)); addS(*l, t.s.back()); } p.addLayer(l.get()); m.push_back(t); addM(*l, elem(99)); addS(*l, elem(98)); l->setID(77); l->setInfo("changed after adding"); }
      const TrackerPlanesLayerLayout& y = p.getTrackerPlanesLayerLayout(); bool ok = y.getNLayers() == int(m.size()) && p.getLayoutID() == 5 && p.getLayoutType() == 6 && p.getLayoutNumberOfLayers() == 7; string what = "numbers"; for (size_t i = 0; ok && i < m.size(); ++i) if (!sameLayer(y.getLayer(i), m[i])) { ok = false; what = cat("plane ", i); }
      for (unsigned i : {unsigned(m.size()), unsigned(m.size() + 1), 4000000000u}) if (ok && y.getLayer(i)) { ok = false; what = cat("plane ", i, " was answered"); }
      for (int id : {3, 0, -8, 77, 1}) { const T* f = 0; for (auto& t : m) if (t.id == id && !f) f = &t; if (ok && (f ? !sameLayer(y.getLayerByID(id), *f) : y.getLayerByID(id) != 0)) { ok = false; what = cat("identifier ", id); } }
      if (!c.check(ok, "wrong-tracker-plane", [&] { return at() + ": " + what; })) return false;
      TrackerPlanesParametersImpl q(p); std::unique_ptr<TrackerPlanesLayerImpl> l(new TrackerPlanesLayerImpl); q.addLayer(l.get()); if (!c.check(y.getNLayers() == int(m.size()) && q.getTrackerPlanesLayerLayout().getNLayers() == int(m.size()) + 1, "copy-changed-original", at)) return false;
      if (int(h.size()) >= DT) return true; for (int k = 0; k < 27; ++k) { h.push_back(k); bool r = rec(); h.pop_back(); if (!r) return false; } return true; }; rec(); if (a == b) c.sample(cat("TrackerPlanes alphabet ", a, " ", b, " and every continuation")); });
  c.unit("TrackerPlanes values", [&] { // every value of a layer changed on its own
    typedef TrackerPlanesMaterialLayerImpl M; typedef TrackerPlanesSensitiveLayerImpl N; typedef void (M::*PM)(double); typedef void (N::*PN)(double);
#define BOTH(n) {&M::set##n, &N::set##n}
    struct { PM m; PN n; } set[] = {BOTH(PositionX), BOTH(PositionY), BOTH(PositionZ), BOTH(RotationXY), BOTH(RotationZX), BOTH(RotationZY), BOTH(SizeX), BOTH(SizeY), BOTH(Thickness), BOTH(RadLength)};
    PN more[] = {&N::setPitchX, &N::setPitchY, &N::setResolutionX, &N::setResolutionY};
    for (int i = 0; i < 14; ++i) for (int j = 0; j < 14; ++j) { TrackerPlanesLayerImpl l; E x = elem(3), y = elem(4); addM(l, x); addS(l, y); M& m = l.getMaterialLayerVec()[0]; N& n = l.getSensitiveLayerVec()[0]; int o = 0; for (int k : {i, j}) { double v = -3.25 - k - 20 * o++; if (k < 10) { (m.*set[k].m)(v); x.d[k] = v; (n.*set[k].n)(v - 0.5); y.d[k] = v - 0.5; } else { (n.*more[k - 10])(v); y.s[k - 10] = v; } } n.setNpixelX(i + 1); n.setNpixelY(j + 2); y.nx = i + 1; y.ny = j + 2; m.setID(i); x.id = i; n.setID(j); y.id = j; m.setInfo("m"); n.setInfo("n"); x.info = "m"; y.info = "n"; c.trace(); c.state(cat("values ", i, " ", j)); if (!c.check(same(m, x) && sameS(n, y), "wrong-value-after-change", [&] { return cat("values ", i, " ", j); })) return; }
    TrackerPlanesMaterialLayerImplVec mv(1); mv[0].setPositionX(4); TrackerPlanesSensitiveLayerImplVec nv(2); nv[1].setPitchY(5); TrackerPlanesLayerImpl l(mv, nv); c.check(l.getNMaterialLayers() == 1 && l.getNSensitiveLayers() == 2 && l.getMaterialLayerVec()[0].getPositionX() == 4 && l.getSensitiveLayerVec()[1].getPitchY() == 5, "wrong-plane-from-lists", [] { return string("constructor"); });
    TrackerPlanesLayerLayoutImpl t; t.setID(12); t.setInfo("telescope"); c.check(t.getID() == 12 && t.getInfo() == "telescope" && t.getNLayers() == 0 && !t.getLayer(0) && !t.getLayerByID(0), "wrong-layout-identifier", [&] { return cat("setID(12), then getID() ", t.getID()); });
    TrackerPlanesParametersImpl p(1, 2, 3); p.setLayoutID(4); bool ok = p.getLayoutID() == 4 && p.getLayoutType() == 2 && p.getLayoutNumberOfLayers() == 3; p.setLayoutType(5); p.setLayoutNumberOfLayers(6); c.check(ok && p.getLayoutID() == 4 && p.getLayoutType() == 5 && p.getLayoutNumberOfLayers() == 6, "wrong-setup", [] { return string("layout identifier, type, number"); }); });
  // values that are zero, in every combination of groups of values; or equal to those of the plane
  const vector<vector<int>> GRP = {{0, 1, 2}, {3, 4, 5}, {6, 7}, {8}, {9}, {10, 11, 12}, {13, 14, 15}, {16, 17}, {18}, {28}, {19, 20}, {21}, {22, 23}, {24, 25}, {26, 27}, {100, 101}, {102, 103}};
  for (int top = 0; top < 128; ++top) c.unit(cat("zero groups ", top), [&, top] { for (int k = top; k < 1 << 17; k += 128) { if (!c.thorough) { int b = __builtin_popcount(k); if (b > 3 && b < 14) continue; } auto cut = [&](Plane p) { for (int g = 0; g < 17; ++g) if (k >> g & 1) for (int f : GRP[g]) { if (f < 100) p.d[f] = 0; else p.i[f - 100] = 0; } return p; };
      Si s; s.par.reset(new SiPlanesParametersImpl(1, 2, 3)); Model m; Plane a = cut(fresh(1)), b = cut(fresh(2)); addLong(s, fresh(4)); m.p.push_back(fresh(4)); addLong(s, a); m.p.push_back(a); addShort(s, b); for (int f : NOROT) b.d[f] = 0; b.d[22] = b.d[23] = NAN; m.p.push_back(b); m.dut = true; m.q = cut(fresh(3)); addDut(s, m.q); c.trace(); c.state(cat("zero ", k)); string w = wrongOne(s.lay, m, true); if (w.empty()) w = wrongOne(dynamic_cast<const S&>(s.par->getSiPlanesLayerLayout()), m, true); if (!c.check(w.empty(), "wrong-plane", [&] { return cat("zero groups ", k, ": ", w); })) return; } });
  c.unit("sensor as plane", [&] { for (int k = 0; k < 1 << 10; ++k) { auto eq = [&](Plane p) { const int to[] = {10, 11, 12, 13, 14, 15, 16, 17, 18, 28}; for (int i = 0; i < 10; ++i) if (k >> i & 1) p.d[to[i]] = p.d[i]; if (k & 1) p.i[1] = p.i[0]; return p; }; Si s; s.par.reset(new SiPlanesParametersImpl(1, 2, 3)); Model m; Plane a = eq(fresh(1)); addLong(s, a); m.p.push_back(a); m.dut = true; m.q = eq(fresh(3)); addDut(s, m.q); c.trace(); c.state(cat("equal ", k)); string w = wrongOne(s.lay, m, true); if (!c.check(w.empty(), "wrong-plane", [&] { return cat("equal to the plane ", k, ": ", w); })) return; } });
  c.unit("TrackerPlanes zero values", [&] { for (int k = 0; k < 1 << 17; ++k) { if (!c.thorough) { int b = __builtin_popcount(k); if (b > 3 && b < 14) continue; } auto cut = [&](E e) { for (int i = 0; i < 10; ++i) if (k >> i & 1) e.d[i] = 0; for (int i = 0; i < 4; ++i) if (k >> (10 + i) & 1) e.s[i] = 0; if (k >> 14 & 1) e.nx = e.ny = 0; if (k >> 15 & 1) e.id = 0; if (k >> 16 & 1) e.info = ""; return e; };
      TrackerPlanesLayerImpl l; l.setID(4); T t; t.id = 4; t.m = {elem(2), cut(elem(1))}; t.s = {elem(5), cut(elem(4))}; for (auto& e : t.m) addM(l, e); for (auto& e : t.s) addS(l, e); TrackerPlanesParametersImpl p(5, 6, 7); p.addLayer(&l); c.trace(); c.state(cat("tracker zero ", k)); if (!c.check(sameLayer(p.getTrackerPlanesLayerLayout().getLayer(0), t), "wrong-tracker-plane", [&] { return cat("zero values ", k); })) return; } });
}
