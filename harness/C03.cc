// C03: planar silicon barrels survive writing and reading.
#include "rt.h"
#include "gearimpl/ZPlanarParametersImpl.h"
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C03"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one set of VXD/SIT/SET descriptions; written, read back, every query compared, written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "all 8 combinations of slots, 3 technologies; each of 5 shell and 14 layer values over 8 numbers singly and in pairs (3 numbers each) with all other values distinct; layer sequences up to length 3 (quick) / 5 (thorough) over 5 kinds, 0..12 layers; named parameters; every subset (quick: up to 4 or all but 4 / 3) of the 12 values of a layer zero, of the 6 sensor values equal to the ladder, of the 14 values equal to the previous layer";
typedef vector<double> V;
void mc::explore(Ctx& c) {
  // 0 nLadders 1 phi0 2.. ladder dist off thick len width X0, sens dist off thick len width X0
  auto base = [](int s) { V v; v.push_back(7 + s); for (int i = 1; i < 14; ++i) v.push_back((i + 1.25) * (1 + 0.37 * s)); return v; };
  auto add = [](ZPlanarParametersImpl* p, const V& v) { p->addLayer((int)v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]); };
  const V sh0 = {21.5, 33.25, 100.125, 1.75, 0.5}; const V vals = {0, -1, 1. / 3, 1e-12, 1e12, 123456.789012345, -M_PI, 0.1};
  auto set = [](GearMgrImpl& m, int slot, ZPlanarParametersImpl* p) { slot == 0 ? m.setVXDParameters(p) : slot == 1 ? m.setSITParameters(p) : m.setSETParameters(p); };
  auto mk = [&](int type, const V& sh, const vector<V>& ls) { ZPlanarParametersImpl* p = new ZPlanarParametersImpl(type, sh[0], sh[1], sh[2], sh[3], sh[4]); for (auto& l : ls) add(p, l); return p; };
  auto one = [&](int slot, int type, const V& sh, const vector<V>& ls, const string& at) { GearMgrImpl m; m.setDetectorName("d"); set(m, slot, mk(type, sh, ls)); rt::roundTrip(c, m, [&] { return cat("slot ", slot, " type ", type, " ", at); }, 1e-14); };
  for (int slot = 0; slot < 3; ++slot) {
    c.unit(cat("shell ", slot), [&, slot] { for (int type = 1; type <= 3; ++type) for (int i = 0; i < 5; ++i) for (double a : vals) for (int j = i; j < 5; ++j) for (double b : vals) { V sh = sh0; sh[i] = a; if (j != i) sh[j] = b; one(slot, type, sh, {base(0)}, cat("shell value ", i, " = ", a, ", ", j, " = ", b)); } });
    c.unit(cat("layer values ", slot), [&, slot] { for (int i = 0; i < 14; ++i) for (double a : vals) for (int pos = 0; pos < 2; ++pos) { vector<V> ls = {base(0), base(1)}; ls[pos][i] = i ? a : 1 + int(std::fabs(a)) % 100; one(slot, 1 + i % 3, sh0, ls, cat("layer ", pos, " value ", i, " = ", ls[pos][i])); } });
    for (int i = 1; i < 14; ++i) c.unit(cat("layer pairs ", slot, " ", i), [&, slot, i] { for (int j = i + 1; j < 14; ++j) for (double a : {0., -2.5, 1. / 3}) for (double b : {0., -2.5, 1. / 7}) { V l = base(0); l[i] = a; l[j] = b; one(slot, 1, sh0, {l}, cat("layer value ", i, " = ", a, ", ", j, " = ", b)); } });
    c.unit(cat("number of layers ", slot), [&, slot] { for (int n = 0; n <= 12; ++n) { vector<V> ls; for (int i = 0; i < n; ++i) ls.push_back(base(i)); one(slot, 2, sh0, ls, cat(n, " layers")); } });
  }
  vector<vector<int>> seqs{{}}; size_t depth = c.thorough ? 5 : 3;
  for (size_t b = 0; b < seqs.size(); ++b) if (seqs[b].size() < depth) for (int k = 0; k < 5; ++k) { auto s = seqs[b]; s.push_back(k); seqs.push_back(s); }
  for (size_t b = 0; b < seqs.size(); b += 60) c.unit(cat("sequences ", b), [&, b] { for (size_t i = b; i < seqs.size() && i < b + 60; ++i) { vector<V> ls; string at; for (int k : seqs[i]) { ls.push_back(base(k)); at += cat(k, " "); } one(i % 3, 1 + i % 3, sh0, ls, "sequence " + at); if (i % 50 == 0) c.sample(at); } });
  for (int mask = 0; mask < 8; ++mask) c.unit(cat("slots ", mask), [&, mask] { for (int t0 = 1; t0 <= 3; ++t0) for (int t1 = 1; t1 <= 3; ++t1) for (int par = 0; par < 4; ++par) { GearMgrImpl m; m.setDetectorName("d"); for (int s = 0; s < 3; ++s) if (mask >> s & 1) { V sh = sh0; sh[0] += s; auto* p = mk(s == 0 ? t0 : s == 1 ? t1 : 1 + (t0 + t1) % 3, sh, {base(s), base(s + 1)}); if (par & 1) { p->setDoubleVal("strip_angle_deg", 7. + s); p->setIntVals("n_sensors_per_ladder", vector<int>{1, 2, s}); } if (par & 2) { p->setStringVal("note", "x"); p->setDoubleVals("v", V{0.1, 1e-9 * s}); } set(m, s, p); }
    rt::roundTrip(c, m, [&] { return cat("slots ", mask, " types ", t0, t1, " par ", par); }, 1e-14); } });
  // values that are zero, or equal to those of the ladder or of the previous layer, in every combination
  auto few = [&](int k, int n, int q) { int b = __builtin_popcount(k); return c.thorough || b <= q || b >= n - q; };
  for (int top = 0; top < 64; ++top) c.unit(cat("zero values ", top), [&, top] { for (int k = top * 64; k < top * 64 + 64; ++k) if (few(k, 12, 4)) { V l = base(0); for (int i = 0; i < 12; ++i) if (k >> i & 1) l[2 + i] = 0; one(k % 3, 1 + k % 2, sh0, {base(1), l}, cat("zero values ", k)); } });
  c.unit("sensor as ladder", [&] { for (int k = 0; k < 64; ++k) for (int slot = 0; slot < 3; ++slot) { V l = base(0); for (int i = 0; i < 6; ++i) if (k >> i & 1) l[8 + i] = l[2 + i]; one(slot, 1, sh0, {base(2), l}, cat("equal to the ladder ", k)); } });
  for (int top = 0; top < 64; ++top) c.unit(cat("as the layer before ", top), [&, top] { for (int k = top * 256; k < top * 256 + 256; ++k) if (few(k, 14, 3)) { V l = base(1), o = base(0); for (int i = 0; i < 14; ++i) if (k >> i & 1) l[i] = o[i]; one(k % 3, 2, sh0, {o, l}, cat("equal to the layer before ", k)); } });
}
