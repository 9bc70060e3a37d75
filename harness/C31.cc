// C31: printing any geometry is total and does not change it.
#include "full.h"
#include "dump.h"
#include "gearimpl/Util.h"
#include <climits>
#include <iomanip>
#include <limits>
#include <memory>
#include <sstream>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C31"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one description (subset of parts, variant, values) or one history of changes and printing; printed twice to fresh streams and twice to one stream: no exception, the same text each time, stream formatting as before, all queries as before, the text of every part contained in the text of the whole and the numbers of every part found in its text; distinct = different description or history";
const char* const mc::BOUNDS = "all subsets of at most 2 (thorough: all) and at least 17 of the 19 detectors, all 4096 subsets of the calorimeters, all 128 of the others, x subsets of name, field, materials, own sections; 4 variants of each detector; each with parameters of every kind; empty detectors (no layers, modules, planes), up to 60 layers; values 0, negative, 1e-300 to 1.7e308, infinite and undefined, extreme integers, names and texts of 0 to 6000 characters incl. control and format characters; 8 stream formats; streams that fail; all histories of 4 (thorough 5) operations over 12 changes and printing";
namespace {
template <class T> string text(const T& t) { std::ostringstream o; o << t; return o.str(); }
vector<double> numbers(const string& s) { vector<double> v; for (size_t i = 0; i < s.size();) { char* e = 0; if ((isdigit((unsigned char)s[i]) || ((s[i] == '-' || s[i] == '+' || s[i] == '.') && i + 1 < s.size() && (isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.'))) && !(i && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_'))) { double d = strtod(s.c_str() + i, &e); if (e > s.c_str() + i) { v.push_back(d); i = e - s.c_str(); continue; } } ++i; } return v; }
string missing(const string& t, const vector<double>& want, double tol) { vector<double> n = numbers(t); for (double w : want) { bool f = false; for (double x : n) if (std::fabs(x - w) <= tol + 2e-5 * std::fabs(w)) { f = true; break; } if (!f) return cat("number ", w, " is not in the text: ", t); } return ""; }
string parts(const GearMgr& m, const string& all, int& n) { string bad;
#define PART(f, ...) try { const auto& p = m.f(); ++n; string t = text(p); if (t.empty() || all.find(t) == string::npos) return #f " is not in the text"; vector<double> w; double tol = 1e-9; __VA_ARGS__; bad = missing(t, w, tol); if (!bad.empty()) return #f + (": " + bad); } catch (const UnknownParameterException&) { }
#define CALO(f) PART(f, { w = {double(p.getSymmetryOrder()), p.getPhi0(), p.getExtent()[0], p.getExtent()[1], p.getExtent()[2], p.getExtent()[3], double(p.getLayerLayout().getNLayers())}; const LayerLayout& l = p.getLayerLayout(); for (int i = 0; i < l.getNLayers(); ++i) { w.push_back(l.getThickness(i)); w.push_back(l.getAbsorberThickness(i)); if (i + 1 == l.getNLayers()) { w.push_back(l.getDistance(i)); w.push_back(l.getCellSize0(i)); w.push_back(l.getCellSize1(i)); } } })
#define ZPL(f) PART(f, { tol = 0.0051; w = {p.getShellInnerRadius(), p.getShellOuterRadius(), p.getShellHalfLength(), p.getShellGap()}; const ZPlanarLayerLayout& l = p.getZPlanarLayerLayout(); for (int i = 0; i < l.getNLayers(); ++i) for (double x : {double(l.getNLadders(i)), l.getLadderDistance(i), l.getLadderWidth(i), l.getLadderLength(i), l.getLadderThickness(i), l.getSensitiveDistance(i), l.getSensitiveWidth(i), l.getSensitiveLength(i), l.getSensitiveThickness(i)}) w.push_back(x); })
  CALO(getEcalBarrelParameters) CALO(getEcalEndcapParameters) CALO(getEcalPlugParameters) CALO(getYokeBarrelParameters) CALO(getYokeEndcapParameters) CALO(getYokePlugParameters) CALO(getHcalBarrelParameters) CALO(getHcalEndcapParameters) CALO(getHcalRingParameters) CALO(getLcalParameters) CALO(getLHcalParameters) CALO(getBeamCalParameters)
  ZPL(getVXDParameters) ZPL(getSITParameters) ZPL(getSETParameters)
  PART(getFTDParameters, { tol = 0.0051; const FTDLayerLayout& l = p.getFTDLayerLayout(); for (int i = 0; i < l.getNLayers(); ++i) for (double x : {double(l.getNPetals(i)), l.getSupportLengthMin(i), l.getSupportLengthMax(i), l.getSupportWidth(i), l.getSupportThickness(i), l.getSensitiveLengthMin(i), l.getSensitiveLengthMax(i), l.getSensitiveWidth(i), l.getSensitiveThickness(i)}) w.push_back(x); })
  PART(getTPCParameters, { w = {p.getMaxDriftLength(), double(p.getNModules())}; for (auto* t : p.getModules()) { for (double x : {t->getReadoutFrequency(), double(t->getNPads()), double(t->getNRows()), t->getOffset()[0], t->getOffset()[1], t->getAngle(), t->getPlaneExtent()[0], t->getPlaneExtent()[1]}) w.push_back(x); try { w.push_back(t->getZPosition()); } catch (const TPCModule::NoZPositionException&) { } } })
  PART(getBField, { Vector3D b = p.at(Vector3D(1, 2, 3)); w = {b.x(), b.y(), b.z()}; })
  PART(getSiPlanesParameters, { tol = 0.0051; const SiPlanesLayerLayout& l = p.getSiPlanesLayerLayout(); w = {double(p.getSiPlanesID()), double(p.getSiPlanesNumber()), double(l.getNLayers())}; for (int i = 0; i < l.getNLayers(); ++i) for (double x : {double(l.getID(i)), l.getLayerPositionX(i), l.getLayerPositionZ(i), l.getLayerRotationXY(i), l.getLayerSizeX(i), l.getLayerThickness(i), double(l.getSensitiveID(i)), l.getSensitivePositionY(i), l.getSensitivePositionZ(i), l.getSensitiveSizeY(i), double(l.getSensitiveNpixelX(i)), double(l.getSensitiveNpixelY(i)), l.getSensitivePitchX(i), l.getSensitiveResolution(i), l.getSensitiveRotation1(i), l.getSensitiveRotation4(i)}) w.push_back(x); if (p.getSiPlanesType() == SiPlanesParameters::TelescopeWithDUT) for (double x : {double(l.getDUTID()), l.getDUTPositionZ(), l.getDUTSizeX(), double(l.getDUTSensitiveID()), l.getDUTSensitivePositionZ(), double(l.getDUTSensitiveNpixelX()), l.getDUTSensitivePitchX(), l.getDUTSensitiveRotation3()}) w.push_back(x); })
  PART(getTrackerPlanesParameters, { tol = 0.51; w = {double(p.getLayoutID()), double(p.getLayoutNumberOfLayers())}; })
  for (auto& k : m.getGearParameterKeys()) { ++n; const GearParameters& p = m.getGearParameters(k); if (all.find(k) == string::npos) return "section " + k + " is not in the text"; string t = text(p); if (all.find(t) == string::npos) return "parameters of " + k + " are not in the text"; }
  for (auto& k : m.getMaterialNames()) { ++n; string t = text(m.getSimpleMaterial(k)); if (t.find(k) == string::npos || all.find(t) == string::npos) return "material " + k + " is not in the text"; }
  try { ++n; if (all.find(m.getDetectorName()) == string::npos) return "the name is not in the text"; } catch (const UnknownParameterException&) { }
  return ""; }
string pars(const GearParameters& p, const string& t) { auto has = [&](const string& s) { return t.find(s) != string::npos; };
  for (auto& k : p.getIntKeys()) if (!has(k) || !has(cat(p.getIntVal(k)))) return k; for (auto& k : p.getDoubleKeys()) if (!has(k) || !has(text(p.getDoubleVal(k)))) return k; for (auto& k : p.getStringKeys()) if (!has(k) || !has(p.getStringVal(k))) return k;
  for (auto& k : p.getIntVecKeys()) { if (!has(k)) return k; for (int v : p.getIntVals(k)) if (!has(cat(v))) return k; } for (auto& k : p.getDoubleVecKeys()) { if (!has(k)) return k; for (double v : p.getDoubleVals(k)) if (!has(text(v))) return k; } for (auto& k : p.getStringVecKeys()) { if (!has(k)) return k; for (auto& v : p.getStringVals(k)) if (!has(v)) return k; } return ""; }
string state(const GearMgr& m) { dmp::Dump d; dmp::mgr(d, m); return d.canon(); }
// the whole property for one description
bool whole(Ctx& c, const GearMgr& m, const std::function<string()>& at, bool numbersToo = true) {
  string a, b; dmp::Dump before, after; dmp::mgr(before, m); try { a = text(m); b = text(m); } catch (const std::exception& e) { string w = e.what(); return c.check(false, "exception", [&] { return at() + ": " + w; }); }
  if (!c.check(!a.empty() && a == b, "different-text", [&] { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return cat(at(), " at character ", i, " ", a.substr(i > 20 ? i - 20 : 0, 60), " / ", b.substr(i > 20 ? i - 20 : 0, 60)); })) return false;
  std::ostringstream o; o << m; auto fl = o.flags(); auto pr = o.precision(); size_t n1 = o.str().size(); o << m; string two = o.str();
  if (!c.check(two.substr(0, n1) == a && two.substr(n1) == a && o.good(), "different-on-the-same-stream", [&] { size_t i = 0; string s = two.substr(n1); while (i < s.size() && i < a.size() && s[i] == a[i]) ++i; return cat(at(), " at character ", i, ": ", a.substr(i > 30 ? i - 30 : 0, 60), " then ", s.substr(i > 30 ? i - 30 : 0, 60)); })) return false;
  std::ostringstream fresh; if (!c.check(fl == fresh.flags() && pr == fresh.precision() && o.fill() == ' ' && o.width() == 0, "stream-format-changed", at)) return false;
  dmp::mgr(after, m); string d = dmp::diff(before, after, 0); if (!c.check(d.empty(), "description-changed", [&] { return at() + ": " + d; })) return false;
  int n = 0; string p; if (numbersToo) p = parts(m, a, n); return c.check(p.empty(), "not-shown", [&] { return at() + ": " + p; }); }
void extras(GearMgrImpl& m, int mask) { if (mask & 1) m.setDetectorName("the detector"); if (mask & 2) full::somePars(full::addField(m, 0.5, -1.25, 3.5), 0); if (mask & 4) { full::addMaterial(m, "iron", 55.8, 26, 7870, 17.6, 168); full::addMaterial(m, "argon", 39.9, 18, 1.66, 1.1e5, 7e5); } if (mask & 8) { full::somePars(full::addUser(m, "mine"), 1); full::addUser(m, "empty"); } }
string name(int mask) { string s; for (int d = 0; d < full::NDET; ++d) if (mask >> d & 1) s += string(full::detName(d)) + " "; return s; }
}
void mc::explore(Ctx& c) {
  vector<int> sub; for (int m = 0; m < 1 << full::NDET; ++m) { int n = __builtin_popcount(m); bool calo = !(m & ~0x1ffe), rest = !(m & 0x1ffe); if (c.thorough || n <= 2 || n >= 17 || calo || rest) sub.push_back(m); }
  const int B = c.thorough ? 2048 : 64; for (size_t i0 = 0; i0 < sub.size(); i0 += B) c.unit(cat("subsets ", i0), [&, i0] { for (size_t i = i0; i < std::min(sub.size(), i0 + B); ++i) { GearMgrImpl m; for (int d = 0; d < full::NDET; ++d) if (sub[i] >> d & 1) { auto* p = full::addDet(m, d, i % 4); if (i % 3 == 0) full::somePars(p, i % 2); } extras(m, i % 16); auto at = [&] { return cat(name(sub[i]), "extras ", i % 16, " variant ", i % 4); }; c.now(at()); c.state(at()); c.trace(); bool heavy = __builtin_popcount(sub[i]) <= 3 || i % 8 == 0; if (heavy) { if (!whole(c, m, at)) return; } else { string a, b; try { a = text(m); b = text(m); } catch (const std::exception& e) { c.fail("exception", at() + ": " + e.what()); return; } if (!c.check(a == b, "different-text", at)) return; } } });
  for (int e = 0; e < 16; ++e) for (int v = 0; v < 4; ++v) c.unit(cat("extras ", e, " variant ", v), [&, e, v] { for (int d = -1; d <= full::NDET; ++d) for (int pr = 0; pr < 3; ++pr) { GearMgrImpl m; extras(m, e); for (int k = 0; k < full::NDET; ++k) if (d == full::NDET || d == k) { auto* p = full::addDet(m, k, v); if (pr) full::somePars(p, pr - 1); string w = pars(*p, text(static_cast<const GearParameters&>(*p))); if (!c.check(w.empty(), "parameter-not-shown", [&] { return cat(full::detName(k), " ", w); })) return; } auto at = [&] { return cat(d < 0 ? "no detector" : d == full::NDET ? "all" : full::detName(d), " extras ", e, " variant ", v, " parameters ", pr); }; c.now(at()); c.state(at()); c.trace(); if (!whole(c, m, at)) return; } });
  // unusual contents
  const double inf = std::numeric_limits<double>::infinity(), X[] = {0, -0.0, -1, 1e-300, 123456789.123, 1e15, -1e100, 1e300, -1.7e308, inf, -inf, std::nan("")}; const int N[] = {0, -1, 1, INT_MAX, INT_MIN};
  vector<string> S{"", " ", "%s%s%n%d", "a\nb", "tab\t\x01\x7f", "\xc3\xa9", "<&>\""}; for (int n : {14, 15, 100, 900, 1000, 1023, 1024, 1025, 2000, 6000}) S.push_back(string(n, 'x'));
  for (double x : X) c.unit(cat("value ", x), [&, x] { for (int k = 0; k < 9; ++k) for (int n : N) { GearMgrImpl m; m.setDetectorName("d"); auto at = [&] { return cat("kind ", k, " value ", x, " integer ", n); }; c.now(at()); c.state(at()); c.trace();
      switch (k) { case 0: { auto* p = new CalorimeterParametersImpl(x, x, n, x); p->layerLayout().positionLayer(x, x, x, x, x); p->layerLayout().addLayer(x, x, x, x); p->layerLayout().addLayer(1, x, x, x); m.setEcalBarrelParameters(p); break; }
        case 1: { auto* p = new CalorimeterParametersImpl(x, x, x, n, x); p->layerLayout().addLayer(x, x, x, x); m.setBeamCalParameters(p); break; }
        case 2: { auto* p = new ZPlanarParametersImpl(n, x, x, x, x, x); p->addLayer(n, x, x, x, x, x, x, x, x, x, x, x, x, x); m.setVXDParameters(p); m.setSITParameters(new ZPlanarParametersImpl(n, x, x, x, x, x)); break; }
        case 3: { auto* p = new SiPlanesParametersImpl(n, n, n); p->addLayer(n, x, x, x, x, x, x, x, x, x, x, n, x, x, x, x, x, x, x, x, x, n, n, x, x, x, x, x, x, x, x, x, x); p->addDUT(n, x, x, x, x, x, x, x, n, x, x, x, x, x, x, n, n, x, x, x, x, x, x, x, x); m.setSiPlanesParameters(p); break; }
        case 4: { auto* p = new SiPlanesParametersImpl(n, SiPlanesParameters::TelescopeWithDUT, n); if (n) p->addDUT(n, x, x, x, x, x, x, x, n, x, x, x, x, x, x, n, n, x, x, x, x, x, x, x, x); m.setSiPlanesParameters(p); break; }
        case 5: { auto* p = new TrackerPlanesParametersImpl(n, n, n); TrackerPlanesLayerImpl y; y.setID(n); y.addMaterialLayer(n, "m", x, x, x, x, x, x, x, x, x, x); y.addSensitiveLayer(n, "s", x, x, x, x, x, x, x, x, x, x, n, n, x, x, x, x); p->addLayer(&y); m.setTrackerPlanesParameters(p); break; }
        case 6: { auto* p = full::addUser(m, "u"); p->setDoubleVal("x", x); p->setIntVal("n", n); p->setDoubleVals("xs", vector<double>{x, x}); p->setIntVals("ns", vector<int>{n, n}); full::addMaterial(m, "m", x, x, x, x, x); break; }
        case 7: { auto* p = full::addField(m, x, x, x); p->setDoubleVal("x", x); p->setIntVal("n", n); break; }
        default: { auto* p = new TPCParametersImpl(x, PadRowLayout2D::POLAR); p->setDoubleVal("x", x); m.setTPCParameters(p); } }
      if (!whole(c, m, at, false)) return; } });
  c.unit("disks with unusual values", [&] { for (double x : X) for (int n : {0, 1, 5, -1}) { if (std::isnan(x)) continue; GearMgrImpl m; auto* p = new FTDParametersImpl; auto at = [&] { return cat("FTD value ", x, " petals ", n); }; c.now(at()); c.state(at()); c.trace(); p->addLayer(n, n, n > 1, FTDParameters::PIXEL, x, x, x, x, x, 1, x, x, x, x, x, x, x, x, x, x, x, x); m.setFTDParameters(p); if (!whole(c, m, at, false)) return; } });
  for (size_t i = 0; i < S.size(); ++i) c.unit(cat("text ", i, " of ", S[i].size(), " characters"), [&, i] { const string& s = S[i]; for (int k = 0; k < 8; ++k) for (size_t j = 0; j < S.size(); ++j) { const string& t = S[j]; GearMgrImpl m; auto at = [&] { return cat("texts ", i, " and ", j, " kind ", k); }; c.now(at()); c.state(at()); c.trace();
      switch (k) { case 0: m.setDetectorName(s); full::addUser(m, t); break; case 1: { auto* p = full::addUser(m, s); p->setStringVal(s, t); p->setStringVals(t, vector<string>{s, t}); p->setIntVal(s, 1); p->setDoubleVal(t, 2); break; } case 2: full::addMaterial(m, s, 1, 2, 3, 4, 5); full::addMaterial(m, t + "2", 1, 2, 3, 4, 5); break;
        case 3: case 4: case 5: { auto* p = new TrackerPlanesParametersImpl(1, 2, 3); TrackerPlanesLayerImpl y; y.setID(1); y.setInfo(k == 3 ? s : "l"); y.addMaterialLayer(5, k == 4 ? s : t, 1, 2, 3, 0.1, 0.2, 0.3, 20, 10, 0.5, 93); y.addSensitiveLayer(7, k == 5 ? s : t, 1, 2, 3, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, 64, 32, 0.1, 0.2, 0.01, 0.02); p->addLayer(&y); m.setTrackerPlanesParameters(p); string a = text(static_cast<const TrackerPlanesParameters&>(*p)); if (!c.check(a.find(s) != string::npos && a.find(t) != string::npos, "info-not-shown", at)) return; break; }
        case 6: { auto* p = full::addField(m, 1, 2, 3); p->setStringVal(s, t); break; } default: { auto* p = full::addDet(m, j % full::NDET); p->setStringVal(s, t); } }
      if (!whole(c, m, at, k < 3)) return; } });
  c.unit("numbers of layers", [&] { for (int n : {0, 1, 2, 3, 10, 60}) for (int k = 0; k < 6; ++k) { GearMgrImpl m; auto at = [&] { return cat(n, " layers of kind ", k); }; c.now(at()); c.state(at()); c.trace();
      switch (k) { case 0: { auto* p = new CalorimeterParametersImpl(1., 2., 8, 0.); for (int i = 0; i < n; ++i) p->layerLayout().addLayer(1 + i / 2, 5, 6, 0.5); m.setHcalBarrelParameters(p); break; } case 1: { auto* p = new ZPlanarParametersImpl(1, 1, 2, 3, 4, 5); for (int i = 0; i < n; ++i) p->addLayer(5, 0, 10 + i, 0, 1, 50, 10, 1, 10 + i, 0, 1, 50, 10, 1); m.setSETParameters(p); break; } case 2: { auto* p = new FTDParametersImpl; for (int i = 0; i < n; ++i) p->addLayer(5, 2, true, FTDParameters::STRIP, 0.2, 0.1, 0.01, 200 + i, 2.5, 1, 50.5, 1.5, 20, 40, 100.5, 0.2, 51.5, 0.5, 19, 39, 99.5, 0.1); m.setFTDParameters(p); break; }
        case 3: { auto* p = new SiPlanesParametersImpl(1, SiPlanesParameters::TelescopeWithoutDUT, n); for (int i = 0; i < n; ++i) p->addLayer(i, 1, 2, 100. * i, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, i + 10, 1.5, 2.5, 101. * i, 0.4, 0.5, 0.6, 19, 9, 0.25, 1024, 512, 0.0184, 0.02, 0.003, 0.004, 0.005, 0.7, 0.8, 0.9, 0.6, 94); m.setSiPlanesParameters(p); break; } case 4: { auto* p = new TrackerPlanesParametersImpl(1, 1, n); for (int i = 0; i < n; ++i) { TrackerPlanesLayerImpl y; y.setID(i); for (int q = 0; q < i % 4; ++q) y.addMaterialLayer(q, "m", 1, 2, 3, 0, 0, 0, 1, 1, 1, 1); for (int q = 0; q < i % 3; ++q) y.addSensitiveLayer(q, "s", 1, 2, 3, 0, 0, 0, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1); p->addLayer(&y); } m.setTrackerPlanesParameters(p); break; }
        default: { auto* p = new TPCParametersImpl(5, PadRowLayout2D::CARTESIAN); for (int i = 0; i < n; ++i) { auto* t = new TPCModuleImpl(i, i % 2 ? static_cast<PadRowLayout2D*>(new FixedPadSizeDiskLayout(30.5, 60.5, 10, 2, 3, 0.5)) : new FixedPadAngleDiskLayout(30.5, 60.5, 0.1, 0.9, 3, 4), PadRowLayout2D::CARTESIAN, 4e7 + i); t->setOffset(100. * i, 7.5 + i); t->setAngle(0.125 * (i % 40)); if (i % 3) t->setZPosition(10 + i); p->addModule(t); } m.setTPCParameters(p); } }
      if (!whole(c, m, at)) return; } });
  // stream formats
  for (int f = 0; f < 8; ++f) c.unit(cat("stream format ", f), [&, f] { for (int d = 0; d <= full::NDET; ++d) { GearMgrImpl m; extras(m, 15); for (int k = 0; k < full::NDET; ++k) if (d == full::NDET || d == k) full::somePars(full::addDet(m, k), 0); auto at = [&] { return cat("format ", f, " with ", d == full::NDET ? "all" : full::detName(d)); }; c.now(at()); c.state(at()); c.trace();
      std::ostringstream o; switch (f) { case 0: o << std::hex << std::showbase; break; case 1: o << std::scientific << std::setprecision(3); break; case 2: o << std::fixed << std::setprecision(12); break; case 3: o << std::setfill('*') << std::left; break; case 4: o << std::showpos << std::uppercase << std::oct; break; case 5: o << std::setprecision(17); break; case 6: o << std::hexfloat; break; default: o << std::showpoint << std::internal << std::unitbuf << std::boolalpha; }
      auto fl = o.flags(); auto pr = o.precision(); char fi = o.fill(); string before = state(m); o << m; size_t n = o.str().size(); bool same = o.flags() == fl && o.precision() == pr && o.fill() == fi && o.width() == 0 && o.good(); if (!c.check(same, "stream-format-changed", at)) return; o << m; if (!c.check(o.str().substr(n) == o.str().substr(0, n) && state(m) == before, "different-on-the-same-stream", at)) return;
      { std::ostringstream q; q << full::NDET; const SimpleMaterial& sm = m.getSimpleMaterial("iron"); std::ostringstream r; r.flags(fl); r.precision(pr); r << sm; if (!c.check(r.flags() == fl && r.precision() == pr, "stream-format-changed", [&] { return at() + " material"; })) return; }
      std::ostringstream bad; bad.setstate(std::ios::badbit); bad << m; if (!c.check(bad.str().empty() && state(m) == before, "failing-stream", at)) return; } });
  // histories of changes and printing: the text always is the text of an equal description built anew
  const int OPS = 12, D = c.thorough ? 5 : 4; auto apply = [](GearMgrImpl& m, int o, int step) { switch (o) { case 0: break; /* print only */ case 1: m.setDetectorName(cat("n", step)); break; case 2: full::addDet(m, 0, step % 4); break; case 3: full::addDet(m, 1, step % 4); break; case 4: full::addDet(m, 13, step % 4); break; case 5: full::addDet(m, 16, step % 4); break; case 6: full::addDet(m, 17, step % 4); break; case 7: full::addDet(m, 18, step % 4); break; case 8: full::addField(m, step, 2, 3); break; case 9: try { full::addMaterial(m, cat("mat", step % 2), 1 + step, 2, 3, 4, 5); } catch (const gear::Exception&) { } break; case 10: full::somePars(full::addUser(m, cat("u", step % 2)), step % 2); break; default: m.setEcalBarrelParameters(0); m.setTPCParameters(0); m.setGearParameters("u0", 0); } };
  for (int a = 0; a < OPS; ++a) for (int b = 0; b < OPS; ++b) c.unit(cat("history ", a, " ", b), [&, a, b] { vector<int> h{a, b}; std::function<bool()> rec = [&] { if (int(h.size()) == D) { auto at = [&] { string s = "history"; for (int o : h) s += cat(" ", o); return s; }; c.now(at()); c.state(at()); c.trace(); GearMgrImpl m, w; string x, y; try { for (size_t i = 0; i < h.size(); ++i) { apply(m, h[i], i); x = text(m); } for (size_t i = 0; i < h.size(); ++i) apply(w, h[i], i); y = text(w); } catch (const std::exception& e) { string s = e.what(); c.fail("exception", at() + ": " + s); return false; } return c.check(x == y && state(m) == state(w), "printing-changed-it", at); } for (int o = 0; o < OPS; ++o) { h.push_back(o); bool ok = rec(); h.pop_back(); if (!ok) return false; } return true; }; rec(); });
}
