// Complete observable state of a geometry description as a list of labelled values, taken through the public
// query interface only.  Two descriptions are the same iff their dumps agree (numbers up to a tolerance).
#pragma once
#include "mc.h"
#include "gear/GEAR.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gear/GearMgr.h"
#include "gear/BField.h"
#include "gear/CalorimeterParameters.h"
#include "gear/LayerLayout.h"
#include "gear/PadRowLayout2D.h"
#include "gear/TPCParameters.h"
#include "gear/TPCModule.h"
#include "gear/ZPlanarParameters.h"
#include "gear/ZPlanarLayerLayout.h"
#include "gear/FTDParameters.h"
#include "gear/FTDLayerLayout.h"
#include "gear/SiPlanesParameters.h"
#include "gear/SiPlanesLayerLayout.h"
#include "gear/TrackerPlanesParameters.h"
#include "gear/TrackerPlanesLayerLayout.h"
#include "gearimpl/TrackerPlanesLayerLayoutImpl.h"
#include "gear/SimpleMaterial.h"
#include <array>
#include <cmath>
#include <map>

namespace dmp {
struct Item { std::string label; bool isNum; double d; std::string s; };
struct Dump {
  std::vector<Item> v; std::string pre;
  void n(const std::string& l, double d) { v.push_back({pre + l, true, d, ""}); }
  void s(const std::string& l, const std::string& t) { v.push_back({pre + l, false, 0, t}); }
  // run a query that may raise; record which kind of exception
  template <class F> void x(const std::string& l, F f) {
    try { f(); } catch (gear::UnknownParameterException&) { s(l, "<unknown-parameter>"); } catch (gear::Exception&) { s(l, "<gear-exception>"); } catch (std::exception&) { s(l, "<std-exception>"); }
  }
  struct Scope { Dump& d; size_t n; Scope(Dump& D, const std::string& p) : d(D), n(D.pre.size()) { d.pre += p + "."; } ~Scope() { d.pre.resize(n); } };
  std::string canon() const { std::string r; for (auto& i : v) r += i.label + "=" + (i.isNum ? mc::num(i.d) : i.s) + ";"; return r; }
};
// "" when equal, else the first difference; angle-like wraps are not tolerated
inline std::string diff(const Dump& a, const Dump& b, double tol = 1e-9) {
  size_t n = std::min(a.v.size(), b.v.size());
  for (size_t i = 0; i < n; ++i) {
    const Item &p = a.v[i], &q = b.v[i];
    if (p.label != q.label) return mc::cat("expected '", p.label, "' = ", p.isNum ? mc::num(p.d) : p.s, " but got '", q.label, "' = ", q.isNum ? mc::num(q.d) : q.s);
    bool same = p.isNum == q.isNum && (p.isNum ? (p.d == q.d || (std::isnan(p.d) && std::isnan(q.d)) || std::fabs(p.d - q.d) <= tol * std::fmax(std::fabs(p.d), std::fabs(q.d)) || (tol > 0 && std::fabs(p.d - q.d) <= tol * 1e-3)) : p.s == q.s);
    if (!same) return mc::cat("'", p.label, "' expected ", p.isNum ? mc::num(p.d) : "\"" + p.s + "\"", " got ", q.isNum ? mc::num(q.d) : "\"" + q.s + "\"");
  }
  if (a.v.size() != b.v.size()) return mc::cat("number of items: expected ", a.v.size(), " got ", b.v.size(), " first extra '", a.v.size() > n ? a.v[n].label : b.v[n].label, "'");
  return "";
}
inline const std::string& probe(double a, double b, double z = 1e300) { static std::map<std::array<double, 3>, std::string> m; std::string& s = m[{a, b, z}]; if (s.empty()) s = z == 1e300 ? mc::cat("(", a, ",", b, ")") : mc::cat("(", a, ",", b, ",", z, ")"); return s; }
inline std::string I(int i) { return "[" + std::to_string(i) + "]"; }
inline void vec(Dump& d, const std::string& l, const std::vector<double>& v) { d.n(l + "#", v.size()); for (size_t i = 0; i < v.size(); ++i) d.n(l + I(i), v[i]); }

// azimuth ranges that differ by full turns are the same range
inline std::vector<double> turn(std::vector<double> v, bool polar) {
  if (polar && v.size() == 4) { double w = v[3] - v[2]; v[2] = std::remainder(v[2], 2 * M_PI); if (std::fabs(std::fabs(v[2]) - M_PI) < 1e-9) v[2] = M_PI; v[3] = v[2] + w; }
  return v;
}
inline void extent(Dump& d, const std::string& l, const std::vector<double>& v, bool polar) { vec(d, l, turn(v, polar)); }

inline void params(Dump& d, const gear::GearParameters& p) {
  Dump::Scope sc(d, "par");
  { auto k = p.getIntKeys(); for (auto& n : k) d.n("int:" + n, p.getIntVal(n)); }
  { auto k = p.getDoubleKeys(); for (auto& n : k) d.n("double:" + n, p.getDoubleVal(n)); }
  { auto k = p.getStringKeys(); for (auto& n : k) d.s("string:" + n, p.getStringVal(n)); }
  { auto k = p.getIntVecKeys(); for (auto& n : k) { auto v = p.getIntVals(n); d.n("ivec:" + n + "#", v.size()); for (size_t i = 0; i < v.size(); ++i) d.n("ivec:" + n + I(i), v[i]); } }
  { auto k = p.getDoubleVecKeys(); for (auto& n : k) vec(d, "dvec:" + n, p.getDoubleVals(n)); }
  { auto k = p.getStringVecKeys(); for (auto& n : k) { auto v = p.getStringVals(n); d.n("svec:" + n + "#", v.size()); for (size_t i = 0; i < v.size(); ++i) d.s("svec:" + n + I(i), v[i]); } }
}
// all queries of a pad plane; probe: extra points in its own coordinates at fractions of the extent
inline void layout(Dump& d, const gear::PadRowLayout2D& l, bool probes = true) {
  Dump::Scope sc(d, "lay");
  d.n("type", l.getPadLayoutType()); d.n("impl", l.getPadLayoutImplType()); d.n("coord", l.getCoordinateType()); d.n("shape", l.getPadShape());
  if (auto f = dynamic_cast<const gear::FixedPadSizeDiskLayout*>(&l)) { d.n("padGap", f->getPadGap()); d.n("fixedPadWidth", f->getFixedPadWidth()); }
  if (auto f = dynamic_cast<const gear::FixedPadAngleDiskLayout*>(&l)) { d.n("padGap", f->getPadGap()); d.n("fixedPadAngle", f->getFixedPadAngle()); d.n("padsInEveryRow", f->getNPadsInRow()); }
  d.n("nPads", l.getNPads()); d.n("nRows", l.getNRows()); extent(d, "extent", l.getPlaneExtent(), l.getCoordinateType() == gear::PadRowLayout2D::POLAR);
  for (int r = 0; r < l.getNRows(); ++r) {
    d.n("rowHeight" + I(r), l.getRowHeight(r)); const std::vector<int> pads = l.getPadsInRow(r); d.n("padsInRow" + I(r), pads.size());
    for (size_t k = 0; k < pads.size(); ++k) { int p = pads[k]; std::string t = I(r) + I(k);
      d.n("idx" + t, p); d.n("row" + t, l.getRowNumber(p)); d.n("pad" + t, l.getPadNumber(p)); d.n("w" + t, l.getPadWidth(p)); d.n("h" + t, l.getPadHeight(p)); d.n("pitch" + t, l.getPadPitch(p));
      gear::Vector2D c = l.getPadCenter(p); d.n("c0" + t, c[0]); d.n("c1" + t, c[1]);
      d.x("right" + t, [&] { d.n("right" + t, l.getRightNeighbour(p)); }); d.x("left" + t, [&] { d.n("left" + t, l.getLeftNeighbour(p)); }); } }
  if (!probes || l.getNRows() == 0) return;
  const std::vector<double> e = turn(l.getPlaneExtent(), l.getCoordinateType() == gear::PadRowLayout2D::POLAR);
  static const double f[] = {-0.1137, 0.2291, 0.5173, 0.8719, 1.1327};
  for (double a : f) for (double b : f) { double x = e[0] + a * (e[1] - e[0]), y = e[2] + b * (e[3] - e[2]); if (l.getCoordinateType() == gear::PadRowLayout2D::POLAR && x < 0) x = 0.1;
    std::string t = probe(a, b); d.x("near" + t, [&] { int p = l.getNearestPad(x, y); d.n("near" + t, p); d.n("dist" + t, l.getDistanceToPad(x, y, p)); d.n("in" + t, l.isInsidePad(x, y)); d.n("inp" + t, l.isInsidePad(x, y, p)); }); }
}
inline void module(Dump& d, const gear::TPCModule& m) {
  Dump::Scope sc(d, "mod");
  d.n("id", m.getModuleID()); d.n("freq", m.getReadoutFrequency()); d.n("tpccoord", m.getTPCCoordinateType()); d.n("border", m.getBorderWidth()); d.n("angle", m.getAngle());
  d.n("off0", m.getOffset()[0]); d.n("off1", m.getOffset()[1]); d.x("z", [&] { try { d.n("z", m.getZPosition()); } catch (gear::TPCModule::NoZPositionException&) { d.s("z", "<no z>"); } });
  bool pol = m.getTPCCoordinateType() == gear::PadRowLayout2D::POLAR; extent(d, "plane", m.getPlaneExtent(), pol); extent(d, "module", m.getModuleExtent(), pol); vec(d, "local", m.getLocalModuleExtent());
  layout(d, m.getLocalPadLayout(), false); layout(d, m);
  const std::vector<double> e = turn(m.getModuleExtent(), pol);
  for (double a : {-0.3071, 0.2039, 0.6113, 1.4057}) for (double b : {-0.2953, 0.3719, 0.8087, 1.3931}) { double x = e[0] + a * (e[1] - e[0]), y = e[2] + b * (e[3] - e[2]); if (m.getTPCCoordinateType() == gear::PadRowLayout2D::POLAR && x < 0) x = 0.1;
    std::string t = probe(a, b); d.x("m" + t, [&] { d.n("inM" + t, m.isInsideModule(x, y)); d.n("dM" + t, m.getDistanceToModule(x, y)); gear::Vector2D g = m.globalToLocal(x, y); d.n("g0" + t, g[0]); d.n("g1" + t, g[1]); gear::Vector2D h = m.localToGlobal(g[0], g[1]); d.n("h0" + t, h[0]); d.n("h1" + t, h[1]); }); }
  const gear::GearParameters* p = dynamic_cast<const gear::GearParameters*>(&m); if (p) params(d, *p);
}
inline void tpc(Dump& d, const gear::TPCParameters& t) {
  Dump::Scope sc(d, "tpc");
  d.n("drift", t.getMaxDriftLength()); d.n("coord", t.getCoordinateType()); d.n("vdrift", t.getDriftVelocity()); d.n("nmod", t.getNModules());
  d.x("freq", [&] { d.n("freq", t.getReadoutFrequency()); }); d.x("padlayout", [&] { const gear::PadRowLayout2D& l = t.getPadLayout(); d.n("padlayout", l.getNPads()); });
  d.x("extent", [&] { extent(d, "extent", t.getPlaneExtent(), t.getCoordinateType() == gear::PadRowLayout2D::POLAR); });
  const auto& ms = t.getModules(); d.n("nvec", ms.size());
  for (size_t i = 0; i < ms.size(); ++i) { Dump::Scope s2(d, I(i)); module(d, *ms[i]); d.x("byid", [&] { d.n("byid", &t.getModule(ms[i]->getModuleID()) == ms[i]); }); }
  if (ms.size()) { const std::vector<double> e = turn(t.getPlaneExtent(), t.getCoordinateType() == gear::PadRowLayout2D::POLAR);
    for (double a : {-0.3071, 0.2039, 0.6113, 1.4057}) for (double b : {0.1733, 0.8087}) for (double z : {-1e4, 0., 1e4}) { double x = e[0] + a * (e[1] - e[0]), y = e[2] + b * (e[3] - e[2]); if (t.getCoordinateType() == gear::PadRowLayout2D::POLAR && x < 0) x = 0.1;
      std::string q = probe(a, b, z); d.x("q" + q, [&] { d.n("near" + q, t.getNearestModule(x, y, z).getModuleID()); d.n("in" + q, t.isInsideModule(x, y, z)); d.n("inp" + q, t.isInsidePad(x, y, z)); gear::GlobalPadIndex g = t.getNearestPad(x, y, z); d.n("pm" + q, g.getModuleID()); d.n("pp" + q, g.getPadIndex()); }); } }
  params(d, t);
}
inline void layers(Dump& d, const gear::LayerLayout& l) {
  Dump::Scope sc(d, "layers"); d.n("n", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) { d.n("d" + I(i), l.getDistance(i)); d.n("t" + I(i), l.getThickness(i)); d.n("a" + I(i), l.getAbsorberThickness(i)); d.n("c0" + I(i), l.getCellSize0(i)); d.n("c1" + I(i), l.getCellSize1(i)); }
}
inline void calo(Dump& d, const gear::CalorimeterParameters& c) {
  Dump::Scope sc(d, "calo"); d.n("type", c.getLayoutType()); d.n("sym", c.getSymmetryOrder()); d.n("phi0", c.getPhi0()); vec(d, "extent", c.getExtent()); layers(d, c.getLayerLayout()); params(d, c);
}
inline void zlayers(Dump& d, const gear::ZPlanarLayerLayout& l) {
  Dump::Scope sc(d, "zl"); d.n("n", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) { Dump::Scope s2(d, I(i)); d.n("ladders", l.getNLadders(i)); d.n("phi0", l.getPhi0(i));
    d.n("lX0", l.getLadderRadLength(i)); d.n("lD", l.getLadderDistance(i)); d.n("lT", l.getLadderThickness(i)); d.n("lO", l.getLadderOffset(i)); d.n("lW", l.getLadderWidth(i)); d.n("lL", l.getLadderLength(i));
    d.n("sX0", l.getSensitiveRadLength(i)); d.n("sD", l.getSensitiveDistance(i)); d.n("sT", l.getSensitiveThickness(i)); d.n("sO", l.getSensitiveOffset(i)); d.n("sW", l.getSensitiveWidth(i)); d.n("sL", l.getSensitiveLength(i)); }
}
inline void zplanar(Dump& d, const gear::ZPlanarParameters& z) {
  Dump::Scope sc(d, "zp"); d.n("type", z.getType()); d.n("shL", z.getShellHalfLength()); d.n("shG", z.getShellGap()); d.n("shI", z.getShellInnerRadius()); d.n("shO", z.getShellOuterRadius()); d.n("shX0", z.getShellRadLength());
  zlayers(d, z.getZPlanarLayerLayout()); params(d, z);
}
inline void ftdlayers(Dump& d, const gear::FTDLayerLayout& l) {
  Dump::Scope sc(d, "ftd"); int n = l.getNLayers(); d.n("n", n);
  for (int i = 0; i < 2 * n; ++i) { Dump::Scope s2(d, I(i)); d.x("layer", [&] {
    d.n("petals", l.getNPetals(i)); d.n("sensors", l.getNSensors(i)); d.n("double", l.isDoubleSided(i)); d.n("type", l.getSensorType(i)); d.n("half", l.getPhiHalfDistance(i)); d.n("z", l.getZposition(i)); d.n("zoff", l.getZoffset(i)); d.n("sign0", l.getZoffsetSign0(i)); d.n("phi0", l.getPhi0(i)); d.n("alpha", l.getAlpha(i));
    d.n("r", l.getSupportRinner(i)); d.n("X0", l.getSupportRadLength(i)); d.n("t", l.getSupportThickness(i)); d.n("lmin", l.getSupportLengthMin(i)); d.n("lmax", l.getSupportLengthMax(i)); d.n("w", l.getSupportWidth(i));
    d.n("sr", l.getSensitiveRinner(i)); d.n("sX0", l.getSensitiveRadLength(i)); d.n("st", l.getSensitiveThickness(i)); d.n("slmin", l.getSensitiveLengthMin(i)); d.n("slmax", l.getSensitiveLengthMax(i)); d.n("sw", l.getSensitiveWidth(i));
    for (int p = 0; p < l.getNPetals(i); ++p) { d.n("phi" + I(p), l.getPhiPetalCd(i, p)); d.n("supz" + I(p), l.getSupportZposition(i, p)); for (int s = 1; s <= l.getNSensors(i); ++s) d.n("senz" + I(p) + I(s), l.getSensitiveZposition(i, p, s)); }
    d.n("rmax", l.getMaxRadius(i)); d.n("srmax", l.getMaxRadius(i, true)); }); }
}
inline void ftd(Dump& d, const gear::FTDParameters& f) { ftdlayers(d, f.getFTDLayerLayout()); params(d, f); }
inline void silayers(Dump& d, const gear::SiPlanesLayerLayout& l, bool dut) {
  Dump::Scope sc(d, "si"); d.n("n", l.getNLayers());
#define Q(m) d.n(#m, l.get##m(i));
#define R(m) d.n(#m, l.get##m());
  for (int i = 0; i < l.getNLayers(); ++i) { Dump::Scope s2(d, I(i)); Q(ID) Q(LayerPositionX) Q(LayerPositionY) Q(LayerPositionZ) Q(LayerRotationXY) Q(LayerRotationZX) Q(LayerRotationZY) Q(LayerSizeX) Q(LayerSizeY) Q(LayerThickness) Q(LayerRadLength)
    Q(SensitiveID) Q(SensitivePositionX) Q(SensitivePositionY) Q(SensitivePositionZ) Q(SensitiveRotationXY) Q(SensitiveRotationZX) Q(SensitiveRotationZY) Q(SensitiveSizeX) Q(SensitiveSizeY) Q(SensitiveThickness) Q(SensitiveRadLength) Q(SensitiveNpixelX) Q(SensitiveNpixelY) Q(SensitivePitchX) Q(SensitivePitchY) Q(SensitiveResolution) Q(SensitiveResolutionX) Q(SensitiveResolutionY) Q(SensitiveRotation1) Q(SensitiveRotation2) Q(SensitiveRotation3) Q(SensitiveRotation4) }
  if (dut) { R(DUTID) R(DUTRadLength) R(DUTPositionX) R(DUTPositionY) R(DUTPositionZ) R(DUTSizeX) R(DUTSizeY) R(DUTThickness) R(DUTSensitiveID) R(DUTSensitiveRadLength) R(DUTSensitivePositionX) R(DUTSensitivePositionY) R(DUTSensitivePositionZ) R(DUTSensitiveSizeX) R(DUTSensitiveSizeY) R(DUTSensitiveThickness) R(DUTSensitiveNpixelX) R(DUTSensitiveNpixelY) R(DUTSensitivePitchX) R(DUTSensitivePitchY) R(DUTSensitiveResolution) R(DUTSensitiveRotation1) R(DUTSensitiveRotation2) R(DUTSensitiveRotation3) R(DUTSensitiveRotation4) }
}
inline void siplanes(Dump& d, const gear::SiPlanesParameters& s) {
  d.n("siID", s.getSiPlanesID()); d.n("siType", s.getSiPlanesType()); d.n("siNumber", s.getSiPlanesNumber());
  silayers(d, s.getSiPlanesLayerLayout(), s.getSiPlanesType() == gear::SiPlanesParameters::TelescopeWithDUT); params(d, s);
}
inline void trlayers(Dump& d, const gear::TrackerPlanesLayerLayout& L) {
  Dump::Scope sc(d, "tp"); d.n("n", L.getNLayers());
#define S(m) d.n(#m, l.get##m());
  for (int i = 0; i < L.getNLayers(); ++i) { Dump::Scope s2(d, I(i)); gear::TrackerPlanesLayerImpl y = *L.getLayer(i);
    d.n("ID", y.getID()); d.s("info", y.getInfo()); d.n("nmat", y.getNMaterialLayers()); d.n("nsens", y.getNSensitiveLayers());
    int k = 0; for (auto& l : y.getMaterialLayerVec()) { Dump::Scope s3(d, "m" + I(k++)); S(ID) d.s("info", l.getInfo()); S(PositionX) S(PositionY) S(PositionZ) S(RotationXY) S(RotationZX) S(RotationZY) S(SizeX) S(SizeY) S(Thickness) S(RadLength) }
    k = 0; for (auto& l : y.getSensitiveLayerVec()) { Dump::Scope s3(d, "s" + I(k++)); S(ID) d.s("info", l.getInfo()); S(PositionX) S(PositionY) S(PositionZ) S(RotationXY) S(RotationZX) S(RotationZY) S(SizeX) S(SizeY) S(Thickness) S(RadLength) S(NpixelX) S(NpixelY) S(PitchX) S(PitchY) S(ResolutionX) S(ResolutionY) } }
#undef S
#undef Q
#undef R
}
inline void tracker(Dump& d, const gear::TrackerPlanesParameters& t) {
  d.n("tpID", t.getLayoutID()); d.n("tpType", t.getLayoutType()); d.n("tpNumber", t.getLayoutNumberOfLayers()); trlayers(d, t.getTrackerPlanesLayerLayout()); params(d, t);
}
inline void bfield(Dump& d, const gear::BField& b) { gear::Vector3D v = b.at(gear::Vector3D(1, 2, 3)); d.n("Bx", v.x()); d.n("By", v.y()); d.n("Bz", v.z()); params(d, b); }
inline void material(Dump& d, const gear::SimpleMaterial& m) { d.s("name", m.getName()); d.n("A", m.getA()); d.n("Z", m.getZ()); d.n("dens", m.getDensity()); d.n("X0", m.getRadLength()); d.n("lI", m.getIntLength()); }

// everything a manager knows.  Missing slots are recorded as <unknown-parameter>
inline void mgr(Dump& d, const gear::GearMgr& m) {
  d.x("name", [&] { d.s("name", m.getDetectorName()); });
#define SLOT(n, f) { Dump::Scope sc(d, #n); d.x("slot", [&] { const auto& p = m.get##n(); d.s("slot", "present"); f(d, p); }); }
  SLOT(BField, bfield) SLOT(TPCParameters, tpc)
  SLOT(EcalBarrelParameters, calo) SLOT(EcalEndcapParameters, calo) SLOT(EcalPlugParameters, calo) SLOT(YokeBarrelParameters, calo) SLOT(YokeEndcapParameters, calo) SLOT(YokePlugParameters, calo)
  SLOT(HcalBarrelParameters, calo) SLOT(HcalEndcapParameters, calo) SLOT(HcalRingParameters, calo) SLOT(LcalParameters, calo) SLOT(LHcalParameters, calo) SLOT(BeamCalParameters, calo)
  SLOT(VXDParameters, zplanar) SLOT(SITParameters, zplanar) SLOT(SETParameters, zplanar) SLOT(FTDParameters, ftd) SLOT(TrackerPlanesParameters, tracker) SLOT(SiPlanesParameters, siplanes)
#undef SLOT
  const std::vector<std::string> k = m.getGearParameterKeys(); for (auto& n : k) { Dump::Scope sc(d, "user:" + n); params(d, m.getGearParameters(n)); d.s("here", "yes"); }
  const std::vector<std::string> t = m.getMaterialNames(); for (auto& n : t) { Dump::Scope sc(d, "mat:" + n); material(d, m.getSimpleMaterial(n)); }
}
}
