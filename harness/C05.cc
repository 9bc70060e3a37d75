// C05: beam telescopes survive writing and reading.
#include "rt.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C05"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one telescope description; written, read back, every query of every plane, device under test, layer, ladder and sensor compared, written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "fixed-plane telescopes: both types x 0..9 planes x 3 set-up and plane numbers x named parameters; each of the 28 real and 4 integer values of a plane (and 20+4 of the device under test) over 7 numbers singly and in pairs, all others distinct; both ways of adding a plane.  multi-layer telescopes: type x identifiers; every sequence up to 3 (quick) / 4 (thorough) layers over 6 kinds of layer with 0..2 ladders and 0..2 sensors; each value over 7 numbers singly and in pairs; information texts with special characters; every subset (quick: up to 3 or all but 3) of the 15 groups of values of a plane and the device under test zero, of the 14 values of ladder and sensor zero or equal to each other; every subset of the 10 sensor values equal to the plane";
typedef vector<double> V;
namespace {
struct Plane { int id, sid, nx, ny; V v; bool old; };   // v: pos3 rot3 size2 thick X0 | spos3 srot3 ssize2 sthick sX0 | pitch2 res resX resY r1..r4  (29)
Plane plane(int s) { Plane p; p.id = 10 + s; p.sid = 20 + 3 * s; p.nx = 512 + s; p.ny = 256 - s; p.old = false; for (int i = 0; i < 29; ++i) p.v.push_back((i + 1.125) * (1 + 0.31 * s)); return p; }
void add(SiPlanesParametersImpl* q, const Plane& p) { const V& v = p.v;
  if (p.old) q->addLayer(p.id, v[0], v[1], v[2], v[6], v[7], v[8], v[9], p.sid, v[10], v[11], v[12], v[16], v[17], v[18], p.nx, p.ny, v[20], v[21], v[22], v[25], v[26], v[27], v[28], v[19]);
  else q->addLayer(p.id, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], p.sid, v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], p.nx, p.ny, v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[19]); }
void dut(SiPlanesParametersImpl* q, const Plane& p) { const V& v = p.v;
  q->addDUT(p.id, v[0], v[1], v[2], v[6], v[7], v[8], v[9], p.sid, v[10], v[11], v[12], v[16], v[17], v[18], p.nx, p.ny, v[20], v[21], v[22], v[25], v[26], v[27], v[28], v[19]); }
struct Part { int id; string info; V v; int nx, ny; };      // v: pos3 rot3 size2 thick X0 pitch2 res2 (14)
Part part(int s) { Part p; p.id = 100 + s; p.info = cat("part ", s); p.nx = 11 + s; p.ny = 7 * s + 3; for (int i = 0; i < 14; ++i) p.v.push_back((i + 1.375) * (1 + 0.23 * s)); return p; }
struct Layer { int id; string info; vector<Part> mat, sens; };
void addTo(TrackerPlanesParametersImpl* q, const Layer& l) { TrackerPlanesLayerImpl y; y.setID(l.id); y.setInfo(l.info);
  for (auto& p : l.mat) { const V& v = p.v; y.addMaterialLayer(p.id, p.info, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); }
  for (auto& p : l.sens) { const V& v = p.v; y.addSensitiveLayer(p.id, p.info, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], p.nx, p.ny, v[10], v[11], v[12], v[13]); }
  q->addLayer(&y); }
const int KIND[6][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}, {1, 2}};
Layer layer(int kind, int s) { Layer l; l.id = 40 + s; l.info = cat("layer", s); for (int i = 0; i < KIND[kind][0]; ++i) l.mat.push_back(part(s + 5 * i)); for (int i = 0; i < KIND[kind][1]; ++i) l.sens.push_back(part(s + 5 * i + 3)); return l; }
}
void mc::explore(Ctx& c) {
  auto si = [&](int id, int type, int num, const vector<Plane>& ps, const Plane* d, int par, const string& at) {
    GearMgrImpl m; m.setDetectorName("d"); SiPlanesParametersImpl* q = new SiPlanesParametersImpl(id, type, num); for (auto& p : ps) add(q, p); if (d) dut(q, *d);
    if (par & 1) { q->setDoubleVals("dv", V{1.5, -2}); q->setIntVal("i", 4); } if (par & 2) { q->setStringVal("s", "txt"); q->setDoubleVals("none", V()); } m.setSiPlanesParameters(q); rt::roundTrip(c, m, [&] { return at; }, 1e-13); };
  const int W = SiPlanesParameters::TelescopeWithDUT, O = SiPlanesParameters::TelescopeWithoutDUT;
  const V vals = {0, -1, 1. / 3, 1e-9, 1e7, 1234.567890123, 0.1};
  auto ok = [](int i, double a) { return a >= 0 || (i != 23 && i != 24); };   // a negative x or y resolution means "use the common resolution" in the file format
  for (int type : {W, O}) for (int old = 0; old < 2; ++old) c.unit(cat("planes ", type, " ", old), [&, type, old] { for (int n = 0; n <= 9; ++n) for (int num : {n, 0, 77}) for (int id : {0, -3, 12345}) for (int par = 0; par < 4; ++par) {
    vector<Plane> ps; for (int i = 0; i < n; ++i) { ps.push_back(plane(i)); ps.back().old = old; if (i % 3 == 2) ps.back().id = -i; } Plane d = plane(11); si(id, type, num, ps, type == W ? &d : 0, par, cat(n, " planes, type ", type, " old ", old, " id ", id, " number ", num, " par ", par)); } });
  for (int i = 0; i < 29; ++i) c.unit(cat("plane value ", i), [&, i] { for (double a : vals) if (ok(i, a)) { for (int pos = 0; pos < 3; ++pos) { vector<Plane> ps = {plane(1), plane(2)}; Plane d = plane(3); (pos < 2 ? ps[pos] : d).v[i] = a; si(5, W, 2, ps, &d, 0, cat("plane ", pos, " value ", i, " = ", a)); }
    for (int j = i + 1; j < 29; ++j) for (double b : vals) if (ok(j, b)) { Plane p = plane(1), d = plane(2); p.v[i] = d.v[i] = a; p.v[j] = d.v[j] = b; si(5, W, 1, {p}, &d, 0, cat("value ", i, " = ", a, ", ", j, " = ", b)); } } });
  c.unit("plane integers", [&] { for (int a : {0, 1, -1, 2147483647, 100000}) for (int b : {0, 3, -2}) for (int w = 0; w < 2; ++w) for (int x : {0, 1, 1024}) for (int y : {0, 1, 576}) { vector<Plane> ps = {plane(1)}; Plane d = plane(2), &p = w ? d : ps[0]; p.id = a; p.sid = b; p.nx = x; p.ny = y; si(1, W, 1, ps, &d, 0, cat("integers ", w, " ", a, " ", b, " ", x, " ", y)); } });
  // ---- multi-layer telescopes ----------------------------------------------------------------------------------------------
  auto tp = [&](int id, int type, int num, const vector<Layer>& ls, int par, const string& at) {
    GearMgrImpl m; m.setDetectorName("d"); TrackerPlanesParametersImpl* q = new TrackerPlanesParametersImpl(id, type, num); for (auto& l : ls) addTo(q, l);
    if (par & 1) { q->setDoubleVals("dv", V{1.5, -2}); q->setIntVal("i", 4); } if (par & 2) { q->setStringVal("s", "txt"); q->setDoubleVals("none", V()); } m.setTrackerPlanesParameters(q); rt::roundTrip(c, m, [&] { return at; }, 1e-13); };
  for (int type : {0, 1, 2, -1, 17}) c.unit(cat("layout ", type), [&, type] { for (int id : {0, 1, -3, 12345}) for (int num : {0, 2, 99}) for (int n = 0; n < 5; ++n) for (int par = 0; par < 4; ++par) { vector<Layer> ls; for (int i = 0; i < n; ++i) ls.push_back(layer((i + 3) % 6, i)); tp(id, type, num, ls, par, cat("layout type ", type, " id ", id, " number ", num, " layers ", n, " par ", par)); } });
  vector<vector<int>> seqs{{}}; size_t depth = c.thorough ? 4 : 3;
  for (size_t b = 0; b < seqs.size(); ++b) if (seqs[b].size() < depth) for (int k = 0; k < 6; ++k) { auto s = seqs[b]; s.push_back(k); seqs.push_back(s); }
  for (size_t b = 0; b < seqs.size(); b += 30) c.unit(cat("sequences ", b), [&, b] { for (size_t i = b; i < seqs.size() && i < b + 30; ++i) { vector<Layer> ls; string at; int s = 0; for (int k : seqs[i]) { ls.push_back(layer(k, s++)); at += cat(k, " "); } tp(i, 1, ls.size(), ls, i % 4, "layer kinds " + at); if (i % 60 == 0) c.sample(at); } });
  for (int i = 0; i < 14; ++i) c.unit(cat("part value ", i), [&, i] { for (double a : vals) for (int pos = 0; pos < 4; ++pos) { Layer l = layer(4, 1); l.sens.push_back(part(9)); auto at = [&]() -> Part& { return pos < 2 ? l.mat[pos] : l.sens[pos - 2]; }; at().v[i] = a; tp(1, 0, 1, {l}, 0, cat("part ", pos, " value ", i, " = ", a));
    for (int j = i + 1; j < 14; ++j) for (double b : vals) { at() = part(2); at().v[i] = a; at().v[j] = b; tp(1, 0, 1, {l}, 0, cat("part ", pos, " value ", i, " = ", a, ", ", j, " = ", b)); } } });
  c.unit("texts", [&] { const vector<string> T = {"", "x", "two words", " lead", "trail ", "a&b", "<t>", "\"q\"", "it's", "a=1;b", "\xc3\xa9t\xc3\xa9", "a  b", "l\ta"}; for (auto& a : T) for (auto& b : T) for (int w = 0; w < 3; ++w) for (int id : {0, 1, -1, 2147483647}) { Layer l = layer(3, 1); (w == 0 ? l.info : w == 1 ? l.mat[0].info : l.sens[0].info) = a; (w == 0 ? l.mat[0].info : w == 1 ? l.sens[0].info : l.info) = b; (w == 0 ? l.id : w == 1 ? l.mat[0].id : l.sens[0].id) = id; l.sens[0].nx = id; l.sens[0].ny = id / 3; tp(1, 0, 1, {l, layer(2, 2)}, 0, cat("texts '", a, "' '", b, "' at ", w, " id ", id)); } });
  // values that are zero or equal to others, in every combination of groups of values
  const int GRP[15][2] = {{0, 3}, {3, 6}, {6, 8}, {8, 9}, {9, 10}, {10, 13}, {13, 16}, {16, 18}, {18, 19}, {19, 20}, {20, 22}, {22, 23}, {23, 25}, {25, 27}, {27, 29}};
  auto few = [&](int k, int n, int q) { int b = __builtin_popcount(k); return c.thorough || b <= q || b >= n - q; };
  for (int top = 0; top < 64; ++top) c.unit(cat("zero groups ", top), [&, top] { for (int k = top; k < 1 << 15; k += 64) if (few(k, 15, 3)) for (int old = 0; old < 2; ++old) { Plane p = plane(1), d = plane(2); p.old = old; for (int g = 0; g < 15; ++g) if (k >> g & 1) for (int i = GRP[g][0]; i < GRP[g][1]; ++i) p.v[i] = d.v[i] = 0; si(5, W, 2, {plane(3), p}, &d, 0, cat("zero groups ", k, " old ", old)); } });
  for (int top = 0; top < 16; ++top) c.unit(cat("sensor as plane ", top), [&, top] { for (int k = top; k < 1 << 10; k += 16) { Plane p = plane(1), d = plane(2); for (int i = 0; i < 10; ++i) if (k >> i & 1) { p.v[10 + i] = p.v[i]; d.v[10 + i] = d.v[i]; } p.sid = k & 1 ? p.id : p.sid; si(5, W, 1, {p}, &d, 0, cat("equal to the plane ", k)); } });
  for (int top = 0; top < 64; ++top) c.unit(cat("zero part values ", top), [&, top] { for (int k = top; k < 1 << 14; k += 64) if (few(k, 14, 3)) { Layer l = layer(3, 1); for (int i = 0; i < 14; ++i) if (k >> i & 1) l.sens[0].v[i] = l.mat[0].v[i] = 0; tp(1, 0, 1, {l}, 0, cat("zero values ", k)); l = layer(4, 1); for (int i = 0; i < 14; ++i) if (k >> i & 1) { l.mat[1].v[i] = l.mat[0].v[i]; l.sens[0].v[i] = l.mat[0].v[i]; } tp(1, 0, 1, {l, layer(3, 2)}, 0, cat("equal values ", k)); } });
}
