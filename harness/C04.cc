// C04: forward tracking disks survive writing and reading.
#include "rt.h"
#include "gearimpl/FTDParametersImpl.h"
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C04"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one forward-tracking-disk description; written, read back, every query of positive and negative disks (all petals and sensors) compared, written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "0..9 disks; sensor type x double-sidedness x 0..4 sensors x 1..17 petals; each of 18 real values over 7 numbers singly and in pairs with all other values distinct; disk sequences up to length 3 (quick) / 4 (thorough) over 6 kinds; named parameters; up to 3 or all but 3 (thorough 5) of the 18 values of a disk zero, up to 2 or all but 2 (thorough 4) equal to the previous disk, every subset of the sensor values equal to the support";
typedef vector<double> V;
void mc::explore(Ctx& c) {
  // ints: petals sensors double type ; reals: half phi0 alpha z zoff sign0 | r t lmin lmax w X0 | sr st slmin slmax sw sX0
  struct D { int petals, sensors; bool dbl; int type; V v; };
  auto base = [](int s) { D d; d.petals = 3 + s; d.sensors = 1 + s % 4; d.dbl = d.sensors % 2 == 0; d.type = s % 2 ? FTDParameters::STRIP : FTDParameters::PIXEL; for (int i = 0; i < 18; ++i) d.v.push_back((i + 1.25) * (1 + 0.37 * s)); d.v[0] = 0.2 + 0.01 * s; d.v[1] = 0.1 * s; d.v[2] = 0.01 * s; d.v[3] = 100 + 57.25 * s; d.v[5] = s % 3 ? 1 : -1; return d; };
  auto add = [](FTDParametersImpl* p, const D& d) { const V& v = d.v; p->addLayer(d.petals, d.sensors, d.dbl, d.type, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]); };
  auto run = [&](const vector<D>& ds, int par, const string& at) { GearMgrImpl m; m.setDetectorName("d"); FTDParametersImpl* p = new FTDParametersImpl; for (auto& d : ds) add(p, d);
    if (par & 1) { p->setIntVals("iv", vector<int>{1, -2, 3}); p->setDoubleVal("strip_width_mm", 0.05); } if (par & 2) { p->setStringVal("s", "txt"); p->setIntVal("i", 4); p->setDoubleVals("none", vector<double>()); } m.setFTDParameters(p); rt::roundTrip(c, m, [&] { return cat(at, " par ", par); }, 1e-13); };
  c.unit("number of disks", [&] { for (int n = 0; n <= 9; ++n) for (int par = 0; par < 4; ++par) { vector<D> ds; for (int i = 0; i < n; ++i) ds.push_back(base(i)); run(ds, par, cat(n, " disks")); } });
  for (int type : {FTDParameters::PIXEL, FTDParameters::STRIP}) for (int dbl = 0; dbl < 2; ++dbl) c.unit(cat("integers ", type, " ", dbl), [&, type, dbl] { for (int pos = 0; pos < 2; ++pos) for (int sens = 0; sens <= 4; ++sens) { if (dbl && sens % 2) continue; for (int pet = 1; pet <= 17; ++pet) { vector<D> ds = {base(1), base(2)}; ds[pos].type = type; ds[pos].dbl = dbl; ds[pos].sensors = sens; ds[pos].petals = pet; run(ds, 0, cat("disk ", pos, " type ", type, " double ", dbl, " sensors ", sens, " petals ", pet)); } } });
  const V vals = {0, -1, 1. / 3, 1e-9, 1e7, 1234.567890123, 0.1};
  for (int i = 0; i < 18; ++i) c.unit(cat("values ", i), [&, i] { for (double a : vals) { for (int pos = 0; pos < 2; ++pos) { vector<D> ds = {base(1), base(2)}; ds[pos].v[i] = a; run(ds, 0, cat("disk ", pos, " value ", i, " = ", a)); }
    for (int j = i + 1; j < 18; ++j) for (double b : vals) { D d = base(1); d.v[i] = a; d.v[j] = b; run({d}, 0, cat("value ", i, " = ", a, ", ", j, " = ", b)); } } });
  vector<vector<int>> seqs{{}}; size_t depth = c.thorough ? 4 : 3;
  for (size_t b = 0; b < seqs.size(); ++b) if (seqs[b].size() < depth) for (int k = 0; k < 6; ++k) { auto s = seqs[b]; s.push_back(k); seqs.push_back(s); }
  for (size_t b = 0; b < seqs.size(); b += 30) c.unit(cat("sequences ", b), [&, b] { for (size_t i = b; i < seqs.size() && i < b + 30; ++i) { vector<D> ds; string at; for (int k : seqs[i]) { ds.push_back(base(k)); at += cat(k, " "); } run(ds, i % 4, "sequence " + at); if (i % 40 == 0) c.sample(at); } });
  // values that are zero, or equal to those of the support or of the previous disk, in every combination
  auto few = [&](int k, int n, int q, int t) { int b = __builtin_popcount(k); q = c.thorough ? t : q; return b <= q || b >= n - q; };
  for (int top = 0; top < 128; ++top) c.unit(cat("zero values ", top), [&, top] { for (int k = top; k < 1 << 18; k += 128) if (few(k, 18, 3, 5)) { D d = base(1); for (int i = 0; i < 18; ++i) if (k >> i & 1) d.v[i] = 0; run({base(2), d}, 0, cat("zero values ", k)); } });
  c.unit("sensor as support", [&] { for (int k = 0; k < 64; ++k) for (int s = 0; s < 6; ++s) { D d = base(s); for (int i = 0; i < 6; ++i) if (k >> i & 1) d.v[12 + i] = d.v[6 + i]; run({d}, 0, cat("equal to the support ", k, " kind ", s)); } });
  for (int top = 0; top < 128; ++top) c.unit(cat("as the disk before ", top), [&, top] { for (int k = top; k < 1 << 18; k += 128) if (few(k, 18, 2, 4)) { D d = base(1), o = base(2); for (int i = 0; i < 18; ++i) if (k >> i & 1) d.v[i] = o.v[i]; run({o, d}, 0, cat("equal to the disk before ", k)); } });
}
