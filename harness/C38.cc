// C38: a query's answer depends on the object and the arguments only, not on the queries made before.
#include "full.h"
#include "modules.h"
#include "dump.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include <cstring>
#include <functional>
#include <memory>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C38"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = two objects of a class in places of their own, each with one of its contents; every sequence of queries (with arguments) and of replacing an object by another content in the same place; the answer to every query must be, bit for bit, the first answer of a new object of that content, and lists handed out must show the same after further queries";
const char* const mc::BOUNDS = "14 classes (4 pad layouts, module, TPC, calorimeter, planar barrel, forward disks, both telescopes, parameters, manager, measurement surface) x 3 contents x 10 to 50 queries with arguments on each of 2 objects; every sequence of 3 steps (thorough: 4 steps for the pad layouts, module, TPC and planar barrel with a third of the arguments)";
namespace {
struct Ans { double v[16]; int n = 0; void add(double d) { if (n < 16) v[n++] = d; } void add(const Vector3D& p) { add(p.x()); add(p.y()); add(p.z()); } void add(const Vector2D& p) { add(p[0]); add(p[1]); } void add(const vector<double>& w) { add(w.size()); for (double x : w) add(x); } void add(const vector<int>& w) { add(w.size()); double h = 0; for (int x : w) h = h * 31 + x; add(h); } void add(const string& s) { double h = s.size(); for (char x : s) h = std::fmod(h * 31 + (unsigned char)x, 1e9); add(h); } void add(const vector<string>& w) { add(w.size()); for (auto& s : w) add(s); }
  bool operator==(const Ans& o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (!(v[i] == o.v[i] || (v[i] != v[i] && o.v[i] != o.v[i]))) return false; return true; }
  string text() const { string s; for (int i = 0; i < n; ++i) s += cat(i ? " " : "", v[i]); return s; } };
template <class T> struct Q { string name; std::function<void(const T&, Ans&)> f; };
template <class T> struct Class { string name; vector<std::function<T*(void*)>> contents; vector<Q<T>> q; vector<std::function<const void*(const T&)>> refs; bool deep = false; };
template <class T> Ans ask(const Q<T>& q, const T& t) { Ans a; try { q.f(t, a); } catch (gear::UnknownParameterException&) { a.n = 0; a.add(-1e99); } catch (gear::Exception&) { a.n = 0; a.add(-2e99); } catch (std::exception&) { a.n = 0; a.add(-3e99); } return a; }
template <class T> struct Place { typename std::aligned_storage<sizeof(T), alignof(T)>::type mem; T* t = 0; int k = -1; void put(const Class<T>& c, int kind) { clear(); t = c.contents[kind](&mem); k = kind; } void clear() { if (t) t->~T(); t = 0; } ~Place() { clear(); } };
template <class T> void explore1(Ctx& c, const std::shared_ptr<Class<T>>& C) {
  const int K = C->contents.size(), NQ = C->q.size(), N = 2 * NQ + 2 * K;     // steps: query q on place 0 or 1; put content k in place 0 or 1
  for (int a = 0; a < N; ++a) c.unit(cat(C->name, " ", a), [&c, C, a, K, NQ, N] {
    vector<vector<Ans>> want(K); for (int k = 0; k < K; ++k) for (auto& q : C->q) { Place<T> p; p.put(*C, k); want[k].push_back(ask(q, *p.t)); }
    Place<T> P[2]; auto name = [&](int s) { return s < 2 * NQ ? cat(C->q[s % NQ].name, " of object ", s / NQ + 1) : cat("object ", (s - 2 * NQ) / K + 1, " becomes ", (s - 2 * NQ) % K); };
    vector<int> h; auto show = [&] { string s = C->name + ": "; for (int x : h) s += name(x) + "; "; return s; };
    auto step = [&](int s) -> bool { if (s >= 2 * NQ) { P[(s - 2 * NQ) / K].put(*C, (s - 2 * NQ) % K); return true; } Place<T>& p = P[s / NQ]; Ans r = ask(C->q[s % NQ], *p.t); const Ans& w = want[p.k][s % NQ]; return c.check(r == w, "depends-on-history", [&] { return show() + cat("gives ", r.text(), " instead of ", w.text()); }); };
    auto reset = [&](int k0, int k1) { if (P[0].k != k0 || !P[0].t) P[0].put(*C, k0); if (P[1].k != k1 || !P[1].t) P[1].put(*C, k1); };
    uint64_t n = 0;
    for (int k0 = 0; k0 < K; ++k0) { int k1 = (k0 + 1) % K; c.now(show());
      for (int b = 0; b < N; ++b) { c.state(cat(C->name, k0, " ", a, " ", b)); for (int d = 0; d < NQ * 2; ++d) {
        if (b >= 2 * NQ || b == 0 || d == 0) P[0].clear(), P[1].clear();      // new objects, else the ones queried so far
        reset(k0, k1); h = {a, b, d}; ++n; for (size_t i = 0; i < 3; ++i) { if (!step(h[i])) return; }
        if (b >= 2 * NQ || a >= 2 * NQ) P[0].clear(), P[1].clear();
        if (c.thorough && C->deep && a % 3 == 0 && b % 3 == 0 && d % 3 == 0) for (int e = 0; e < 2 * NQ; e += 3) { P[0].clear(); P[1].clear(); reset(k0, k1); h = {a, b, d, e}; ++n; for (size_t i = 0; i < 4; ++i) if (!step(h[i])) return; } } } }
    c.trace(n); if (a == 0) c.sample(C->name + ": " + name(a) + "; ... every continuation, for every content"); }); }
template <class T> std::shared_ptr<Class<T>> mk(const string& n, bool deep = false) { auto p = std::make_shared<Class<T>>(); p->name = n; p->deep = deep; return p; }
string xy(double x, double y) { return cat("(", x, ",", y, ")"); }
// queries of a pad plane at points and pads
template <class T> void padQueries(Class<T>& C, const vector<std::array<double, 2>>& pts) {
#define QQ(n, ...) C.q.push_back({n, [=](const T& l, Ans& o) { (void)l; __VA_ARGS__; }});
  for (auto p : pts) { double x = p[0], y = p[1]; QQ("nearest pad of " + xy(x, y), o.add(l.getNearestPad(x, y))) QQ("inside a pad " + xy(x, y), o.add(l.isInsidePad(x, y))) }
  for (auto p : {pts[0], pts[pts.size() / 2]}) { double x = p[0], y = p[1]; for (int i : {0, 1, 5}) { QQ(cat("inside pad ", i, xy(x, y)), o.add(l.isInsidePad(x, y, i))) QQ(cat("distance to pad ", i, xy(x, y)), o.add(l.getDistanceToPad(x, y, i))) } }
  for (int i : {0, 1, 5}) { QQ(cat("centre of pad ", i), o.add(l.getPadCenter(i))) QQ(cat("neighbours of pad ", i), o.add(l.getLeftNeighbour(i)); o.add(l.getRightNeighbour(i))) }
  for (int i : {0, 5}) QQ(cat("size of pad ", i), o.add(l.getPadWidth(i)); o.add(l.getPadHeight(i)); o.add(l.getPadPitch(i)); o.add(l.getRowNumber(i)); o.add(l.getPadNumber(i)))
  for (int r : {0, 1, 2}) QQ(cat("pads in row ", r), o.add(l.getPadsInRow(r)); o.add(l.getRowHeight(r))) QQ("pad (1,1)", o.add(l.getPadIndex(1, 1))) QQ("pad (0,2)", o.add(l.getPadIndex(0, 2))) QQ("plane extent", o.add(l.getPlaneExtent()); o.add(l.getNPads()); o.add(l.getNRows()))
  QQ("list of row 1 while asking for the others", const vector<int>& r = l.getPadsInRow(1); l.getPadsInRow(0); l.getPadsInRow(2); l.getPlaneExtent(); o.add(r)) QQ("extent while asking for pads", const vector<double>& e = l.getPlaneExtent(); l.getNearestPad(1, 1); l.isInsidePad(2, 2, 0); o.add(e))
#undef QQ
}
const vector<std::array<double, 2>> POLAR{{35.5, 0.2}, {35.5, 1.4}, {45, 0.75}, {52, -0.3}, {58.5, 3}, {20, 0.5}, {70, 0.5}}, CART{{1, 1}, {1.5, 6}, {-4.5, 7.25}, {7, 12}, {3, 16.5}, {-20, 8}, {40, 40}};
}
void mc::explore(Ctx& c) {
  { auto C = mk<FixedPadSizeDiskLayout>("fixed size disk", true); C->contents = {[](void* m) { return new (m) FixedPadSizeDiskLayout(30.5, 60.5, 10, 2, 3, 0.5); }, [](void* m) { return new (m) FixedPadSizeDiskLayout(31, 61, 9, 2.5, 3, 0.25, 1.5); }, [](void* m) { return new (m) FixedPadSizeDiskLayout(30.5, 60.5, 7.5, 3, 4, 0); }}; padQueries(*C, POLAR); explore1(c, C); }
  { auto C = mk<FixedPadAngleDiskLayout>("fixed angle disk", true); C->contents = {[](void* m) { return new (m) FixedPadAngleDiskLayout(30.5, 60.5, 3, 0.1, 0.9, 4); }, [](void* m) { return new (m) FixedPadAngleDiskLayout(30.5, 60.5, 3, 0, 2 * M_PI, 7); }, [](void* m) { return new (m) FixedPadAngleDiskLayout(31.5, 62.5, 4, -0.5, 1.5, 5); }}; padQueries(*C, POLAR); explore1(c, C); }
  { auto C = mk<RectangularPadRowLayout>("rectangular", true); auto add = [](RectangularPadRowLayout* r, int v) { r->addRow(1 + v, 5, 2, 1.5, 5, 0.25, 0.5); r->addRow(2, 4 - v, 2.5, 2, 6, 0.5); return r; }; C->contents = {[=](void* m) { return add(new (m) RectangularPadRowLayout(-5, 9, 0), 0); }, [=](void* m) { return add(new (m) RectangularPadRowLayout(-5, 9, 0), 1); }, [=](void* m) { return add(new (m) RectangularPadRowLayout(-4.5, 8, 0.5), 0); }}; padQueries(*C, CART); explore1(c, C); }
  { auto C = mk<VersatileDiskRowLayout>("versatile disk", true); auto add = [](VersatileDiskRowLayout* r, int v) { r->addRow(5 + v, 2, 8, 0.5, 1.5, 7.5); r->addRow(6, 3, 9, -0.25, 2.5, 8.5); r->addRow(40, 2.5, 7, 1, 2, 6); return r; }; C->contents = {[=](void* m) { return add(new (m) VersatileDiskRowLayout(32), 0); }, [=](void* m) { return add(new (m) VersatileDiskRowLayout(32), 3); }, [=](void* m) { return add(new (m) VersatileDiskRowLayout(30), 1); }}; padQueries(*C, POLAR); explore1(c, C); }
  { auto C = mk<TPCModuleImpl>("module", true); auto rows = [](int v) { RectangularPadRowLayout* r = new RectangularPadRowLayout(-5, 9, 0); r->addRow(1 + v, 5, 2, 1.5, 5, 0.25, 0.5); r->addRow(2, 4, 2.5, 2, 6, 0.5); return r; };
    C->contents = {[=](void* m) { auto* t = new (m) TPCModuleImpl(1, rows(0), PadRowLayout2D::CARTESIAN, 1e6); t->setOffset(1, 2); t->setAngle(0.25); return t; }, [=](void* m) { auto* t = new (m) TPCModuleImpl(1, new FixedPadAngleDiskLayout(30.5, 60.5, 3, 0.1, 0.9, 4), PadRowLayout2D::POLAR, 1e6); t->setOffset(0, 0.5); t->setBorderWidth(0.5); return t; }, [=](void* m) { auto* t = new (m) TPCModuleImpl(2, rows(1), PadRowLayout2D::CARTESIAN, 2e6); t->setOffset(1, 2); t->setAngle(-2); t->setBorderWidth(1); return t; }, [=](void* m) { auto* t = new (m) TPCModuleImpl(1, new FixedPadAngleDiskLayout(0.5, 12.5, 3, 0.1, 0.9, 4), PadRowLayout2D::CARTESIAN, 1e6); t->setOffset(1, 2); t->setAngle(0.25); return t; }};
    vector<std::array<double, 2>> P{{1, 1}, {2.5, 7}, {-3, 9}, {44, 0.5}, {50, 0.75}}; padQueries(*C, P); typedef TPCModuleImpl T;
#define QQ(n, ...) C->q.push_back({n, [=](const T& l, Ans& o) { (void)l; __VA_ARGS__; }});
    for (auto p : {P[1], P[3], P[4]}) { double x = p[0], y = p[1]; QQ("local point of " + xy(x, y), o.add(l.globalToLocal(x, y))) QQ("global point of " + xy(x, y), o.add(l.localToGlobal(x, y))) QQ("distance to the module " + xy(x, y), o.add(l.getDistanceToModule(x, y))) QQ("inside the module " + xy(x, y), o.add(l.isInsideModule(x, y))) }
    QQ("module extent", o.add(l.getModuleExtent())) QQ("local extent", o.add(l.getLocalModuleExtent())) QQ("offset", o.add(l.getOffset()); o.add(l.getAngle()); o.add(l.getZPosition()); o.add(l.getBorderWidth())) explore1(c, C); }
  { typedef TPCParametersImpl T; auto C = mk<T>("TPC", true); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* t = new (m) T(1000 + v, PadRowLayout2D::CARTESIAN); for (int i = 0; i < 4; ++i) { RectangularPadRowLayout* r = new RectangularPadRowLayout(-5, 9, 0); r->addRow(2, 4 + (i + v) % 2, 2.5, 2, 6, 0.5); auto* mo = new TPCModuleImpl(10 * i + v % 2, r, PadRowLayout2D::CARTESIAN, 1e6 + v); mo->setOffset(20 * (i == 3 ? 0 : v == 2 ? 2 - i : i), v); mo->setAngle(0.1 * v); mo->setZPosition(i >= 2 ? 100 : -50); t->addModule(mo); } t->setIntVal("v", v); return t; });
    for (auto p : vector<std::array<double, 3>>{{1, 1, 10}, {22, 4, -70}, {45, 6, 400}, {-30, 3, 0}, {16, 20, 100}}) { double x = p[0], y = p[1], z = p[2]; string at = cat(xy(x, y), " ", z);
      QQ("nearest pad of " + xy(x, y), auto g = l.getNearestPad(x, y); o.add(g.getModuleID()); o.add(g.getPadIndex())) QQ("nearest pad of " + at, auto g = l.getNearestPad(x, y, z); o.add(g.getModuleID()); o.add(g.getPadIndex())) QQ("inside pad " + xy(x, y), o.add(l.isInsidePad(x, y))) QQ("inside pad " + at, o.add(l.isInsidePad(x, y, z))) QQ("inside module " + at, o.add(l.isInsideModule(x, y)); o.add(l.isInsideModule(x, y, z))) QQ("nearest module of " + at, o.add(l.getNearestModule(x, y).getModuleID()); o.add(l.getNearestModule(x, y, z).getModuleID())) }
    for (int id : {0, 1, 10, 20, 31}) QQ(cat("module ", id), o.add(l.getModule(id).getModuleID()); o.add(l.getModule(id).getOffset())) QQ("extent", o.add(l.getPlaneExtent())) QQ("modules", for (auto* x : l.getModules()) o.add(x->getModuleID())) QQ("other", o.add(l.getMaxDriftLength()); o.add(l.getNModules()); o.add(l.getIntVal("v"))) QQ("pad layout", o.add(l.getPadLayout().getNPads())) QQ("frequency", o.add(l.getReadoutFrequency())) QQ("drift velocity", o.add(l.getDriftVelocity())) explore1(c, C); }
  { typedef CalorimeterParametersImpl T; auto C = mk<T>("calorimeter"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* t = v == 1 ? new (m) T(300, 900, 1000, 2, 0.25) : new (m) T(500 + v, 1000, 8, 0.125); t->layerLayout().positionLayer(500 + v, 3, 10, 11, 1.5); t->layerLayout().addLayer(3.5 + v, 12, 13, 2); t->layerLayout().addLayer(3, 14, 15, 1); t->setDoubleVal("d", v); return t; });
    for (int i : {0, 1, 2, -1, 3}) { QQ(cat("distance of layer ", i), if (i < 0 || i > 2) { l.getLayerLayout().getDistance(1); return; } o.add(l.getLayerLayout().getDistance(i))) QQ(cat("layer ", i), if (i < 0 || i > 2) return; const LayerLayout& y = l.getLayerLayout(); o.add(y.getThickness(i)); o.add(y.getAbsorberThickness(i)); o.add(y.getCellSize0(i)); o.add(y.getCellSize1(i))) } QQ("extent", o.add(l.getExtent())) QQ("rest", o.add(l.getLayoutType()); o.add(l.getSymmetryOrder()); o.add(l.getPhi0()); o.add(l.getLayerLayout().getNLayers())) QQ("parameter", o.add(l.getDoubleVal("d"))) QQ("no parameter", o.add(l.getDoubleVal("e"))) QQ("parameter names", o.add(l.getDoubleKeys()); o.add(l.getIntKeys())) explore1(c, C); }
  { typedef ZPlanarParametersImpl T; auto C = mk<T>("planar barrel", true); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T(1 + v % 2, 10.5, 40, 100, v == 1 ? 5 : 0, 0.25); p->addLayer(7 + v, 0.1, 15, -1.5, 0.5, 50, 12, 0.2, 15.5, -1.25, 0.25, 49, 11, 0.15); p->addLayer(9, 0.2 + v, 25, -2.5, 0.5, 60, 13, 0.2, 25.5, -2.25, 0.25, 59, 12, 0.15); return p; });
    for (auto q : vector<std::array<double, 6>>{{15.2, 1, 5, 1, 0.5, 0.1}, {0, 0, 0, 1, 0.25, 0.125}, {3, 25.25, -30, -1, -0.5, 0.5}, {-26, 2, 55, 0, 1, 0}, {14, -6, 2, 1, 0, 0}}) { Vector3D p(q[0], q[1], q[2]), d(q[3], q[4], q[5]); string at = cat("(", q[0], ",", q[1], ",", q[2], ")"); QQ("in a ladder " + at, o.add(static_cast<const ZPlanarParameters&>(l).isPointInLadder(p))) QQ("in a sensitive " + at, SensorID s; o.add(l.isPointInSensitive(p, &s)); if (l.isPointInSensitive(p)) { o.add(s.layer); o.add(s.module); o.add(s.side); }) QQ("way to the nearest ladder " + at, o.add(static_cast<const ZPlanarParameters&>(l).distanceToNearestLadder(p))) QQ("way to the nearest sensitive " + at, o.add(l.distanceToNearestSensitive(p))) QQ("ladder hit from " + at, o.add(static_cast<const ZPlanarParameters&>(l).intersectionLadder(p, d))) QQ("sensitive hit from " + at, o.add(l.intersectionSensitive(p, d))) }
    for (int i : {0, 1}) QQ(cat("layer ", i), const ZPlanarLayerLayout& y = l.getZPlanarLayerLayout(); o.add(y.getNLadders(i)); o.add(y.getPhi0(i)); o.add(y.getLadderDistance(i)); o.add(y.getLadderOffset(i)); o.add(y.getLadderWidth(i)); o.add(y.getLadderThickness(i)); o.add(y.getLadderLength(i)); o.add(y.getSensitiveDistance(i)); o.add(y.getSensitiveOffset(i))) QQ("shell", o.add(l.getShellHalfLength()); o.add(l.getShellGap()); o.add(l.getShellInnerRadius()); o.add(l.getType())) explore1(c, C); }
  { typedef FTDParametersImpl T; auto C = mk<T>("forward disks"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T; p->addLayer(5 + v, 2 + 2 * (v % 2), true, FTDParameters::STRIP, 0.2, 0.1, 0.01, 200 + v, 2.5, 1, 50.5, 1.5, 20, 40, 100.5, 0.2, 51.5, 0.5, 19, 39, 99.5, 0.1); p->addLayer(6, 1, false, FTDParameters::PIXEL, 0.25, 0.15 * v, 0, 300, 3.5, -1, 60.5, 1.5, 20, 40, 100.5, 0.2, 61.5, 0.5, 19, 39, 99.5, 0.1); return p; });
    for (int i = 0; i < 4; ++i) { QQ(cat("disk ", i), const FTDLayerLayout& y = l.getFTDLayerLayout(); o.add(y.getNPetals(i)); o.add(y.getNSensors(i)); o.add(y.isDoubleSided(i)); o.add(y.getZposition(i)); o.add(y.getZoffset(i)); o.add(y.getZoffsetSign0(i)); o.add(y.getPhi0(i)); o.add(y.getAlpha(i)); o.add(y.getSupportRinner(i)); o.add(y.getSensitiveWidth(i)); o.add(y.getMaxRadius(i)); o.add(y.getMaxRadius(i, true))) for (int p : {0, 1}) { QQ(cat("petal ", i, " ", p), const FTDLayerLayout& y = l.getFTDLayerLayout(); o.add(y.getSupportZposition(i, p)); o.add(y.getPhiPetalCd(i, p)); o.add(y.getStartPhi(i, p, 0)); o.add(y.getEndPhi(i, p, 0))) QQ(cat("sensor ", i, " ", p), o.add(l.getFTDLayerLayout().getSensitiveZposition(i, p, 1))) } QQ(cat("thickness ", i), o.add(l.getFTDLayerLayout().getThicknessForAngle(i, 0.2, 0.3))) } QQ("number", o.add(l.getFTDLayerLayout().getNLayers())) explore1(c, C); }
  { typedef SiPlanesParametersImpl T; auto C = mk<T>("telescope"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T(250 + v, SiPlanesParameters::TelescopeWithDUT, 2); for (int i = 0; i < 2; ++i) p->addLayer(i + v, 1, 2 + v, 100. * i + v, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, i + 10, 1.5, 2.5, 101. * i, 0.4, 0.5, 0.6 + v, 19, 9, 0.25, 1024, 512, 0.0184, 0.02, 0.003, 0.004, 0.005, 0.7, 0.8, 0.9, 0.6, 94); p->addDUT(9, 1, 2 + v, 50, 20, 10, 0.5, 93, 19, 1.5, 2.5, 51, 19, 9, 0.25, 64, 32, 0.1, 0.2, 0.03, 0.7, 0.8, 0.9, 0.6, 94); return p; });
    for (int i : {0, 1}) { QQ(cat("plane ", i), const SiPlanesLayerLayout& y = l.getSiPlanesLayerLayout(); o.add(y.getID(i)); o.add(y.getLayerPositionX(i)); o.add(y.getLayerPositionY(i)); o.add(y.getLayerPositionZ(i)); o.add(y.getLayerRotationXY(i)); o.add(y.getLayerSizeX(i)); o.add(y.getLayerThickness(i))) QQ(cat("sensitive ", i), const SiPlanesLayerLayout& y = l.getSiPlanesLayerLayout(); o.add(y.getSensitiveID(i)); o.add(y.getSensitivePositionZ(i)); o.add(y.getSensitiveRotationXY(i)); o.add(y.getSensitiveRotationZX(i)); o.add(y.getSensitiveRotationZY(i)); o.add(y.getSensitivePitchX(i)); o.add(y.getSensitiveResolution(i)); o.add(y.getSensitiveResolutionX(i)); o.add(y.getSensitiveNpixelX(i)); o.add(y.getSensitiveRotation1(i)); o.add(y.getSensitiveRotation4(i))) } QQ("device under test", const SiPlanesLayerLayout& y = l.getSiPlanesLayerLayout(); o.add(y.getDUTID()); o.add(y.getDUTPositionY()); o.add(y.getDUTSizeX()); o.add(y.getDUTSensitiveID()); o.add(y.getDUTSensitivePitchX())) QQ("rest", o.add(l.getSiPlanesID()); o.add(l.getSiPlanesType()); o.add(l.getSiPlanesNumber()); o.add(l.getSiPlanesLayerLayout().getNLayers())) explore1(c, C); }
  { typedef TrackerPlanesParametersImpl T; auto C = mk<T>("tracker planes"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T(33 + v, 1, 2); for (int i = 0; i < 2; ++i) { TrackerPlanesLayerImpl y; y.setID(v == 2 ? 2 - i : i + 1); y.setInfo(cat("lay", v)); y.addMaterialLayer(5 + i, "mat", 1, 2, 3 + v, 0.1, 0.2, 0.3, 20, 10, 0.5, 93); y.addSensitiveLayer(7 + i, "sen", 1, 2, 3 + v, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, 64, 32, 0.1, 0.2, 0.01, 0.02); p->addLayer(&y); } return p; });
    for (int i : {0, 1, 2, 3}) { QQ(cat("layer at ", i), auto* y = l.getTrackerPlanesLayerLayout().getLayer(i); if (!y) { o.add(-5); return; } o.add(y->getID()); o.add(y->getInfo()); auto& w = const_cast<TrackerPlanesLayerImpl*>(y)->getSensitiveLayerVec(); o.add(w.size()); for (auto& s : w) { o.add(s.getID()); o.add(s.getPositionZ()); }) QQ(cat("layer of ID ", i), auto* y = l.getTrackerPlanesLayerLayout().getLayerByID(i); if (!y) { o.add(-5); return; } o.add(y->getID()); auto& w = const_cast<TrackerPlanesLayerImpl*>(y)->getMaterialLayerVec(); for (auto& s : w) { o.add(s.getID()); o.add(s.getPositionZ()); }) } QQ("rest", o.add(l.getLayoutID()); o.add(l.getTrackerPlanesLayerLayout().getNLayers())) QQ("both layers", auto* a = l.getTrackerPlanesLayerLayout().getLayerByID(1); auto* b = l.getTrackerPlanesLayerLayout().getLayerByID(2); o.add(a->getID()); o.add(b->getID())) explore1(c, C); }
  { typedef GearParametersImpl T; auto C = mk<T>("parameters"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T; full::somePars(p, v); if (v == 1) p->setIntVal("more", 4); if (v == 2) p->setStringVals("anInt", {"x", "y"}); return p; });
    for (string k : {"anInt", "more", "aDouble"}) { QQ("int " + k, o.add(l.getIntVal(k))) QQ("double " + k, o.add(l.getDoubleVal(k))) } for (string k : {"aString", "anInt"}) QQ("string " + k, o.add(l.getStringVal(k))) for (string k : {"ints", "doubles", "no"}) { QQ("ints " + k, o.add(l.getIntVals(k))) QQ("doubles " + k, o.add(l.getDoubleVals(k))) } for (string k : {"strings", "anInt"}) QQ("strings " + k, o.add(l.getStringVals(k)))
    QQ("int names", o.add(l.getIntKeys())) QQ("double names", o.add(l.getDoubleKeys())) QQ("string names", o.add(l.getStringKeys())) QQ("ints names", o.add(l.getIntVecKeys())) QQ("doubles names", o.add(l.getDoubleVecKeys())) QQ("strings names", o.add(l.getStringVecKeys())) QQ("names while asking for values", auto& k = l.getIntKeys(); l.getStringKeys(); l.getIntVal("anInt"); l.getIntKeys(); o.add(k)) explore1(c, C); }
  { typedef GearMgrImpl T; auto C = mk<T>("manager"); for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { auto* p = new (m) T; if (v != 1) p->setDetectorName(cat("d", v)); full::addField(*p, 0, v, 3); full::addUser(*p, "a")->setIntVal("v", v); if (v) full::addUser(*p, cat("b", v))->setIntVal("v", v + 1); full::addMaterial(*p, "iron", 1 + v, 2, 3, 4, 5); if (v == 2) full::addMaterial(*p, "air", 6, 7, 8, 9, 10); for (int d : {1, 2, 13, 14}) if (v != 2 || d != 2) full::addDet(*p, d, v); full::addDet(*p, 0, v == 1 ? 2 : 0); return p; });
    QQ("name", o.add(l.getDetectorName())) QQ("field", o.add(l.getBField().at(Vector3D(1, 2, 3)))) QQ("section a", o.add(l.getGearParameters("a").getIntVal("v"))) QQ("section b1", o.add(l.getGearParameters("b1").getIntVal("v"))) QQ("section c", o.add(l.getGearParameters("c").getIntVal("v"))) QQ("sections", o.add(l.getGearParameterKeys())) QQ("materials", o.add(l.getMaterialNames())) QQ("iron", o.add(l.getSimpleMaterial("iron").getA()); o.add(l.getSimpleMaterial("iron").getDensity())) QQ("air", o.add(l.getSimpleMaterial("air").getA())) QQ("TPC", o.add(l.getTPCParameters().getMaxDriftLength()); o.add(l.getTPCParameters().getNModules())) QQ("barrel", o.add(l.getEcalBarrelParameters().getExtent())) QQ("endcap", o.add(l.getEcalEndcapParameters().getExtent())) QQ("plug", o.add(l.getEcalPlugParameters().getExtent())) QQ("VXD", o.add(l.getVXDParameters().getShellHalfLength()); o.add(l.getVXDParameters().getZPlanarLayerLayout().getNLadders(0))) QQ("SIT", o.add(l.getSITParameters().getZPlanarLayerLayout().getNLadders(0))) QQ("SET", o.add(l.getSETParameters().getShellGap())) QQ("points", o.add(&l.getPointProperties() != 0)) QQ("distances", o.add(&l.getDistanceProperties() != 0)) QQ("sections while asking", auto& k = l.getGearParameterKeys(); l.getMaterialNames(); l.getGearParameters("a"); o.add(k)) QQ("same objects", o.add(&l.getVXDParameters() == &l.getVXDParameters()); o.add(&l.getVXDParameters() != (const ZPlanarParameters*)&l.getSITParameters()); o.add(&l.getBField() == &l.getBField())) explore1(c, C); }
  { typedef MeasurementSurface T; auto C = mk<T>("measurement surface"); using CLHEP::Hep3Vector; for (int v = 0; v < 3; ++v) C->contents.push_back([v](void* m) { CLHEP::HepRotation R; R.rotateZ(0.3 + v); R.rotateX(0.2); IBoundary* b; if (v == 1) b = new BoundaryTrapezoid(10, 20, 30, 2, 0); else b = new BoundaryRectangle(10 + v, 20, 2); return new (m) T(5 + v % 2, new CartesianCoordinateSystem(Hep3Vector(1, 2, v), R), b); });
    for (auto q : vector<std::array<double, 3>>{{1, 2, 0}, {3, -4, 1}, {8, 8, 0.5}, {0, 5.5, 0}, {40, 1, 2}}) { Hep3Vector p(q[0], q[1], q[2]); string at = cat("(", q[0], ",", q[1], ",", q[2], ")"); QQ("local in boundary " + at, o.add(l.isLocalInBoundary(p))) QQ("global in boundary " + at, o.add(l.isGlobalInBoundary(p))) QQ("local point of " + at, auto r = const_cast<T&>(l).getCoordinateSystem()->getLocalPoint(p); o.add(r.x()); o.add(r.y()); o.add(r.z())) QQ("global point of " + at, auto r = const_cast<T&>(l).getCoordinateSystem()->getGlobalPoint(p); o.add(r.x()); o.add(r.y()); o.add(r.z())) } QQ("ID", o.add(const_cast<T&>(l).getID())) explore1(c, C); }
}
