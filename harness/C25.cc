// C25: forward-disk positions obey mirroring and stagger rules.
#include "mc.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gear/FTDLayerLayout.h"
#include <functional>
using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C25"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "state = one list of disks; after every addition every value of every disk on both sides, every petal and sensor is compared with the stated rules (mirror image at negative z, stagger with alternating sign, sensors on the face towards or away from the interaction point without overlap), every index outside is refused; the values of a petal must not depend on later additions; distinct = different list of disks";
const char* const mc::BOUNDS = "every list of up to 3 (quick) / 4 (thorough) disks over 10 disks (1 to 16 petals, 1 to 8 sensors, single and double sided, pixel and strip, positive and negative first stagger, zero and negative stagger, petals that do and do not fill the circle, different thicknesses of support and sensor, each value distinct); layer indices -2 to 2N+2, all petals, sensors -1 to n+1";
namespace {
struct Disk { int petals, sensors; bool two; int type; double half, phi0, alpha, z, off, sign, su[6], se[6]; };
Disk disk(int k) { static const int P[] = {1, 2, 16, 8, 3, 4, 16, 5, 10, 12}, S[] = {1, 2, 4, 3, 6, 8, 5, 1, 2, 7}; Disk d; d.petals = P[k]; d.sensors = S[k]; d.two = k % 3 != 0; d.type = k % 2 ? gear::FTDParameters::STRIP : gear::FTDParameters::PIXEL; d.half = M_PI / P[k] * (k % 3 == 1 ? 0.9 : 1); d.phi0 = k == 4 ? -2.5 : 0.1 * k; d.alpha = 0.01 * k; d.z = 200 + 37.5 * k; d.off = k == 5 ? 0 : k == 7 ? -2.75 : 1.25 + 0.5 * k; d.sign = k % 4 == 1 ? -1 : 1;
  for (int i = 0; i < 6; ++i) { d.su[i] = 10 + 3 * i + 0.5 * k; d.se[i] = 9 + 2 * i + 0.25 * k; } d.su[1] = 2 + 0.125 * k; d.se[1] = k == 9 ? 5 : 0.25 + 0.0625 * k; return d; }
void add(gear::FTDParametersImpl& p, const Disk& d) { p.addLayer(d.petals, d.sensors, d.two, d.type, d.half, d.phi0, d.alpha, d.z, d.off, d.sign, d.su[0], d.su[1], d.su[2], d.su[3], d.su[4], d.su[5], d.se[0], d.se[1], d.se[2], d.se[3], d.se[4], d.se[5]); }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
template <class F> bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// index of the first wrong answer, or ""
string wrong(const gear::FTDLayerLayout& y, const vector<Disk>& v) {
  int n = v.size(); if (y.getNLayers() != n) return "number of disks";
  for (int l = 0; l < 2 * n; ++l) { const Disk& d = v[l % n]; bool neg = l >= n; auto bad = [&](const string& s) { return cat("layer ", l, ": ", s); };
    if (y.getNPetals(l) != d.petals) return bad("number of petals"); if (y.getNSensors(l) != d.sensors) return bad("number of sensors"); if (y.isDoubleSided(l) != d.two) return bad("double sided"); if (y.getSensorType(l) != d.type) return bad("sensor type");
    struct { const char* n; double got, want; } q[] = {{"half opening angle", y.getPhiHalfDistance(l), d.half}, {"phi0", y.getPhi0(l), d.phi0}, {"alpha", y.getAlpha(l), d.alpha}, {"z position", y.getZposition(l), d.z}, {"z offset", y.getZoffset(l), d.off}, {"z sign", y.getZoffsetSign0(l), d.sign},
      {"support maximum radius", y.getMaxRadius(l), d.su[0] + d.su[4]}, {"sensitive maximum radius", y.getMaxRadius(l, true), d.se[0] + d.se[4]}, {"support inner radius", y.getSupportRinner(l), d.su[0]}, {"support thickness", y.getSupportThickness(l), d.su[1]}, {"support length min", y.getSupportLengthMin(l), d.su[2]}, {"support length max", y.getSupportLengthMax(l), d.su[3]}, {"support width", y.getSupportWidth(l), d.su[4]}, {"support radiation length", y.getSupportRadLength(l), d.su[5]},
      {"sensitive inner radius", y.getSensitiveRinner(l), d.se[0]}, {"sensitive thickness", y.getSensitiveThickness(l), d.se[1]}, {"sensitive length min", y.getSensitiveLengthMin(l), d.se[2]}, {"sensitive length max", y.getSensitiveLengthMax(l), d.se[3]}, {"sensitive width", y.getSensitiveWidth(l), d.se[4]}, {"sensitive radiation length", y.getSensitiveRadLength(l), d.se[5]}};
    for (auto& x : q) if (!near(x.got, x.want)) return bad(cat(x.n, " ", x.got, " instead of ", x.want));
    for (int p = 0; p < d.petals; ++p) { double z = d.z + (p % 2 ? -1 : 1) * d.sign * d.off; if (neg) z = -z; if (!near(y.getSupportZposition(l, p), z)) return bad(cat("petal ", p, " at z ", y.getSupportZposition(l, p), " instead of ", z)); if (!near(y.getPhiPetalCd(l, p), d.phi0 + 2 * d.half * p)) return bad(cat("petal ", p, " at phi ", y.getPhiPetalCd(l, p)));
      for (int s = 1; s <= d.sensors; ++s) { bool back = d.two && s > d.sensors / 2; double a = (d.su[1] + d.se[1]) / 2, w = std::fabs(z) + (back ? a : -a); if (z < 0) w = -w; double g = y.getSensitiveZposition(l, p, s); if (!near(g, w)) return bad(cat("petal ", p, " sensor ", s, " at z ", g, " instead of ", w)); }
      for (int s : {-1, 0, d.sensors + 1}) if (!refused([&] { y.getSensitiveZposition(l, p, s); })) return bad(cat("sensor ", s, " was accepted")); } }
  for (int l : {-2, -1, 2 * n, 2 * n + 1, 2 * n + 2}) { bool ok = true; const char* what = ""; auto test = [&](const char* w, bool r) { if (!r) { ok = false; what = w; } };
    test("number of petals", refused([&] { y.getNPetals(l); })); test("number of sensors", refused([&] { y.getNSensors(l); })); test("sides", refused([&] { y.isDoubleSided(l); })); test("type", refused([&] { y.getSensorType(l); })); test("z", refused([&] { y.getZposition(l); })); test("offset", refused([&] { y.getZoffset(l); })); test("petal z", refused([&] { y.getSupportZposition(l, 0); })); test("sensor z", refused([&] { y.getSensitiveZposition(l, 0, 1); })); test("petal phi", refused([&] { y.getPhiPetalCd(l, 0); })); test("maximum radius", refused([&] { y.getMaxRadius(l); })); test("support width", refused([&] { y.getSupportWidth(l); })); test("sensitive width", refused([&] { y.getSensitiveWidth(l); }));
    if (!ok) return cat("layer ", l, " of ", n, " disks was accepted: ", what); }
  return ""; }
}
void mc::explore(Ctx& c) {
  const int D = c.thorough ? 4 : 3, K = 10;
  for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) c.unit(cat("disks ", a, " ", b, " ..."), [&, a, b] {
    std::function<bool(vector<int>&)> rec = [&](vector<int>& h) -> bool { gear::FTDParametersImpl p; const gear::FTDLayerLayout& y = p.getFTDLayerLayout(); vector<Disk> v; auto at = [&] { string s = "disks"; for (int k : h) s += cat(" ", k); return s; }; c.now(at()); c.trace(); c.state(at());
      for (int k : h) { v.push_back(disk(k)); add(p, v.back()); string w = wrong(y, v); if (!c.check(w.empty(), "wrong-disk", [&] { return cat(at(), " after ", v.size(), ": ", w); })) return false; }
      gear::FTDParametersImpl q(p); string w = wrong(q.getFTDLayerLayout(), v); if (!c.check(w.empty(), "copy-differs", [&] { return at() + ": " + w; })) return false; add(q, disk(0)); w = wrong(y, v); if (!c.check(w.empty(), "copy-changed-original", [&] { return at() + ": " + w; })) return false;
      if (int(h.size()) >= D) return true; for (int k = 0; k < K; ++k) { h.push_back(k); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
    vector<int> h{a, b}; rec(h); if (a == b && a % 3 == 0) c.sample(cat("disks ", a, " ", b, " and every continuation")); });
  c.unit("one disk", [&] { for (int a = 0; a < K; ++a) { gear::FTDParametersImpl p; vector<Disk> v{disk(a)}; add(p, v[0]); c.trace(); c.state(cat("disk ", a)); string w = wrong(p.getFTDLayerLayout(), v); if (!c.check(w.empty(), "wrong-disk", [&] { return cat("disk ", a, ": ", w); })) return; } gear::FTDParametersImpl p; c.trace(); string w = wrong(p.getFTDLayerLayout(), {}); c.check(w.empty(), "wrong-disk", [&] { return cat("no disk: ", w); }); });
}
