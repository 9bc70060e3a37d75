// Independent reader of description files: the documented format, from an xt tree to a geometry built through the public interface.
#pragma once
#include "xmlt.h"
#include "full.h"
#include <algorithm>
#include <cstdlib>
#include <memory>
namespace rr {
using namespace gear; using std::string; using std::vector; using xt::N;
struct Refused { string why; };
inline string unescape(const string& q) {
  string s = q.substr(1, q.size() - 2), o;
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '&') { o += s[i]; continue; } size_t e = s.find(';', i); string n = s.substr(i + 1, e - i - 1); i = e;
    if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else o += char(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10)); }
  return o; }
inline const N* el(const N* p, const string& n) { if (!p) throw Refused{"no element"}; for (auto& c : p->ch) if (c->name == n) return c.get(); return 0; }
inline vector<const N*> els(const N* p, const string& n) { vector<const N*> v; for (auto& c : p->ch) if (c->name == n) v.push_back(c.get()); return v; }
inline bool has(const N* p, const string& a) { if (!p) return false; for (auto& x : p->at) if (x.first == a) return true; return false; }
inline string S(const N* p, const string& a) { if (!p) throw Refused{"element missing for " + a}; for (auto& x : p->at) if (x.first == a) return unescape(x.second); throw Refused{"no " + a + " in " + p->name}; }
inline double D(const N* p, const string& a) { return strtod(S(p, a).c_str(), 0); }
inline int I(const N* p, const string& a) { return int(strtol(S(p, a).c_str(), 0, 10)); }
inline double D(const N* p, const string& a, double d) { return has(p, a) ? D(p, a) : d; }
inline int I(const N* p, const string& a, int d) { return has(p, a) ? I(p, a) : d; }
inline string S(const N* p, const string& a, const string& d) { return has(p, a) ? S(p, a) : d; }
inline string low(string s) { for (char& c : s) c = char(tolower(c)); return s; }
inline bool in(const string& s, const char* t) { return s.find(t) != string::npos; }
inline string text(const N* p) {      // first text, without the blanks around it, blanks in a row as one
  for (auto& c : p->ch) if (c->name.empty() && c->text[0] != '<') { string o, r = unescape("x" + c->text + "x"); for (char k : r) { bool sp = strchr(" \t\r\n", k); if (sp && (o.empty() || o.back() == ' ')) continue; o += sp ? ' ' : k; } while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
  return ""; }
inline vector<string> words(const string& s, const char* sep) { vector<string> v; size_t i = 0; for (;;) { i = s.find_first_not_of(sep, i); if (i == string::npos) return v; size_t e = s.find_first_of(sep, i); v.push_back(s.substr(i, e == string::npos ? e : e - i)); if (e == string::npos) return v; i = e; } }
inline void pars(const N* p, GearParametersImpl* g) {
  for (auto* q : els(p, "parameter")) { bool at = has(q, "value"); string v = at ? S(q, "value") : text(q);
    if (!at && words(v, " ").empty()) continue;
    string n = S(q, "name"), t = S(q, "type"); vector<string> num = words(v, " \t\r\n");
    if (t == "int") { if (num.size()) g->setIntVal(n, int(strtol(num[0].c_str(), 0, 10))); }
    else if (t == "double") { if (num.size()) g->setDoubleVal(n, strtod(num[0].c_str(), 0)); }
    else if (t == "string") g->setStringVal(n, v);
    else if (t == "IntVec") { vector<int> x; for (auto& s : num) x.push_back(int(strtol(s.c_str(), 0, 10))); g->setIntVals(n, x); }
    else if (t == "DoubleVec") { vector<double> x; for (auto& s : num) x.push_back(strtod(s.c_str(), 0)); g->setDoubleVals(n, x); }
    else if (t == "StringVec") g->setStringVals(n, words(v, " ")); } }
inline PadRowLayout2D* pads(const N* l) {
  string t = S(l, "type");
  if (t == "FixedPadSizeDiskLayout") return new FixedPadSizeDiskLayout(D(l, "rMin"), D(l, "rMax"), D(l, "padHeight"), D(l, "padWidth"), I(l, "maxRow"), D(l, "padGap"), D(l, "phiMax", 2 * M_PI));
  if (t == "FixedPadAngleDiskLayout") return new FixedPadAngleDiskLayout(D(l, "rMin"), D(l, "rMax"), I(l, "nRow"), D(l, "phiMin"), D(l, "phiMax"), I(l, "nPadsInRow"));
  if (t == "RectangularPadRowLayout") { std::unique_ptr<RectangularPadRowLayout> r(new RectangularPadRowLayout(D(l, "xMin"), D(l, "xMax"), D(l, "yMin")));
    // repeated rows and repeated sequences are written out one by one
    int all = I(l, "repeatRows", 1); for (int k = 0; k < std::max(all, 1); ++k) for (auto* w : els(l, "row")) { int n = I(w, "repeat", 1); if (n < 1) throw Refused{"no rows"}; for (int i = 0; i < n; ++i) r->addRow(1, I(w, "nPad"), D(w, "padWidth"), D(w, "padHeight"), D(w, "rowHeight", 0.), D(w, "leftOffset", 0.), D(w, "rightOffset", 0.)); }
    return r.release(); }
  if (t == "VersatileDiskRowLayout") { std::unique_ptr<VersatileDiskRowLayout> r(new VersatileDiskRowLayout(D(l, "rMin"))); for (auto* w : els(l, "row")) { int n = I(w, "repeat", 1); if (n < 1) throw Refused{"no rows"}; for (int i = 0; i < n; ++i) r->addRow(I(w, "nPad"), D(w, "padPitch"), D(w, "rowHeight"), D(w, "offset", 0.), D(w, "padWidth", 0.), D(w, "padHeight", 0.), 1); } return r.release(); }
  throw Refused{"pad layout " + t}; }
inline string child(const N* p, const string& n) { return S(el(p, n), "value"); }
inline double childD(const N* p, const string& n) { return strtod(child(p, n).c_str(), 0); }
inline void tpc(const N* d, GearMgrImpl& m) {
  double drift = childD(d, "maxDriftLength"); string co = el(d, "coordinateType") ? child(d, "coordinateType") : ""; std::unique_ptr<TPCParametersImpl> p;
  if (co.empty()) { const N* l = el(d, "PadRowLayout2D"); if (!l) throw Refused{"no layout"}; PadRowLayout2D* x = pads(l); p.reset(new TPCParametersImpl(drift, x->getCoordinateType())); TPCModuleImpl* t = new TPCModuleImpl(0, x, x->getCoordinateType(), childD(d, "readoutFrequency")); p->addModule(t); p->setDriftVelocity(childD(d, "driftVelocity")); }
  else { if (co != "polar" && co != "cartesian") throw Refused{"coordinates"}; int ct = co == "polar" ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN; p.reset(new TPCParametersImpl(drift, ct));
    if (el(d, "driftVelocity") && child(d, "driftVelocity") != "") p->setDriftVelocity(childD(d, "driftVelocity"));
    for (auto* ms : els(d, "modules")) { int id = I(ms, "moduleIDStartCount", 0); const N* def = el(ms, "default"); vector<int> seen;
      for (auto& c : ms->ch) { if (c->name == "default") def = c.get(); if (c->name != "module") continue; const N* mo = c.get();
        auto get = [&](const char* n) -> const N* { const N* e = el(mo, n); return e || !def ? e : el(def, n); };
        int my = get("moduleID") ? I(get("moduleID"), "value") : id; ++id; if (!get("readoutFrequency") || !get("PadRowLayout2D")) throw Refused{"incomplete module"};
        double f = D(get("readoutFrequency"), "value"); TPCModuleImpl* t = new TPCModuleImpl(my, pads(get("PadRowLayout2D")), ct, f);
        if (get("offset")) t->setOffset(D(get("offset"), "x_r"), D(get("offset"), "y_phi")); if (get("zPosition")) t->setZPosition(D(get("zPosition"), "value")); if (get("angle")) t->setAngle(D(get("angle"), "value")); if (get("enlargeActiveAreaBy")) t->setBorderWidth(D(get("enlargeActiveAreaBy"), "value"));
        pars(mo, t); p->addModule(t); } } }
  pars(d, p.get()); m.setTPCParameters(p.release()); }
inline void calo(const N* d, GearMgrImpl& m) {
  const N* l = el(d, "layout"); const N* z = el(d, "dimensions"); string t = low(S(l, "type")); if (!z || (t != "barrel" && t != "endcap")) throw Refused{"layout"}; bool barrel = t == "barrel"; int sy = I(l, "symmetry"); double ph = D(l, "phi0"), first;
  std::unique_ptr<CalorimeterParametersImpl> p; if (barrel) { first = D(z, "inner_r"); p.reset(new CalorimeterParametersImpl(first, D(z, "outer_z"), sy, ph)); } else { first = D(z, "inner_z"); p.reset(new CalorimeterParametersImpl(D(z, "inner_r"), D(z, "outer_r"), first, sy, ph)); }
  pars(d, p.get()); int k = 0; for (auto* y : els(d, "layer")) { int n = I(y, "repeat"); double th = D(y, "thickness"), ab = D(y, "absorberThickness"), c0 = D(y, "cellSize0"), c1 = D(y, "cellSize1"); for (int i = 0; i < n; ++i, ++k) { if (k) p->layerLayout().addLayer(th, c0, c1, ab); else p->layerLayout().positionLayer(first, th, c0, c1, ab); } }
  string nm = low(S(d, "name")); CalorimeterParametersImpl* q = p.release();
  if (in(nm, "ecal")) in(nm, "plug") ? m.setEcalPlugParameters(q) : barrel ? m.setEcalBarrelParameters(q) : m.setEcalEndcapParameters(q);
  else if (in(nm, "yoke")) in(nm, "plug") ? m.setYokePlugParameters(q) : barrel ? m.setYokeBarrelParameters(q) : m.setYokeEndcapParameters(q);
  else if (in(nm, "lcal")) m.setLcalParameters(q); else if (in(nm, "lhcal")) m.setLHcalParameters(q); else if (in(nm, "beamcal")) m.setBeamCalParameters(q);
  else if (in(nm, "hcal")) in(nm, "ring") ? m.setHcalRingParameters(q) : barrel ? m.setHcalBarrelParameters(q) : m.setHcalEndcapParameters(q);
  else delete q; }
inline void zplanar(const N* d, GearMgrImpl& m) {
  const N* t = el(d, "type"); if (!t) t = el(d, "vxdType"); string s = S(t, "technology"); int k = s == "CCD" ? ZPlanarParameters::CCD : s == "CMOS" ? ZPlanarParameters::CMOS : s == "HYBRID" ? ZPlanarParameters::HYBRID : throw Refused{"technology"};
  const N* h = el(d, "shell"); std::unique_ptr<ZPlanarParametersImpl> p(new ZPlanarParametersImpl(k, D(h, "innerRadius"), D(h, "outerRadius"), D(h, "halfLength"), D(h, "gap"), D(h, "radLength"))); const N* ls = el(d, "layers"); if (!ls) throw Refused{"layers"};
  for (auto* y : els(ls, "layer")) { const N *a = el(y, "ladder"), *b = el(y, "sensitive"); p->addLayer(I(y, "nLadders"), D(y, "phi0"), D(a, "distance"), D(a, "offset"), D(a, "thickness"), D(a, "length"), D(a, "width"), D(a, "radLength"), D(b, "distance"), D(b, "offset"), D(b, "thickness"), D(b, "length"), D(b, "width"), D(b, "radLength")); }
  pars(d, p.get()); string n = low(S(d, "name")); if (in(n, "vxd")) m.setVXDParameters(p.release()); else if (in(n, "sit")) m.setSITParameters(p.release()); else if (in(n, "set")) m.setSETParameters(p.release()); }
inline void ftd(const N* d, GearMgrImpl& m) {
  std::unique_ptr<FTDParametersImpl> p(new FTDParametersImpl); const N* ls = el(d, "layers"); if (!ls) throw Refused{"layers"};
  for (auto* y : els(ls, "layer")) { const N *a = el(y, "support"), *b = el(y, "sensitive"); string s = S(y, "sensorType"); if (s != "PIXEL" && s != "STRIP") throw Refused{"sensor"};
    p->addLayer(I(y, "nPetals"), I(y, "nSensors"), I(y, "isDoubleSided") != 0, s == "PIXEL" ? FTDParameters::PIXEL : FTDParameters::STRIP, D(y, "petalOpenningAngle"), D(y, "phi0"), D(y, "alpha"), D(y, "zposition"), D(y, "zoffset"), D(y, "zsign0"),
      D(a, "rInner"), D(a, "thickness"), D(a, "lengthMin"), D(a, "lengthMax"), D(a, "width"), D(a, "radLength"), D(b, "rInner"), D(b, "thickness"), D(b, "lengthMin"), D(b, "lengthMax"), D(b, "width"), D(b, "radLength")); }
  pars(d, p.get()); m.setFTDParameters(p.release()); }
inline void siplanes(const N* d, GearMgrImpl& m) {
  int id = I(el(d, "siplanesID"), "ID"); string t = S(el(d, "siplanesType"), "type"); if (t != "TelescopeWithDUT" && t != "TelescopeWithoutDUT") throw Refused{"type"}; bool dut = t == "TelescopeWithDUT";
  std::unique_ptr<SiPlanesParametersImpl> p(new SiPlanesParametersImpl(id, dut ? SiPlanesParameters::TelescopeWithDUT : SiPlanesParameters::TelescopeWithoutDUT, I(el(d, "siplanesNumber"), "number")));
  if (dut) { const N* u = el(d, "dut"); if (!u) throw Refused{"dut"}; const N *a = el(u, "dut_ladder"), *b = el(u, "dut_sensitive");
    p->addDUT(I(a, "ID"), D(a, "positionX"), D(a, "positionY"), D(a, "positionZ"), D(a, "sizeX"), D(a, "sizeY"), D(a, "thickness"), D(a, "radLength"), I(b, "ID"), D(b, "positionX"), D(b, "positionY"), D(b, "positionZ"), D(b, "sizeX"), D(b, "sizeY"), D(b, "thickness"), I(b, "npixelX"), I(b, "npixelY"), D(b, "pitchX"), D(b, "pitchY"), D(b, "resolution"), D(b, "rotation1", 1.), D(b, "rotation2", 0.), D(b, "rotation3", 0.), D(b, "rotation4", 1.), D(b, "radLength")); }
  const N* ls = el(d, "layers"); if (!ls) throw Refused{"layers"};
  for (auto* y : els(ls, "layer")) { const N *a = el(y, "ladder"), *b = el(y, "sensitive"); double r = D(b, "resolution"), rx = D(b, "resolutionX", -1.), ry = D(b, "resolutionY", -1.);
    p->addLayer(I(a, "ID"), D(a, "positionX"), D(a, "positionY"), D(a, "positionZ"), D(a, "rotationXY", 0.), D(a, "rotationZX", 0.), D(a, "rotationZY", 0.), D(a, "sizeX"), D(a, "sizeY"), D(a, "thickness"), D(a, "radLength"),
      I(b, "ID"), D(b, "positionX"), D(b, "positionY"), D(b, "positionZ"), D(b, "rotationXY", 0.), D(b, "rotationZX", 0.), D(b, "rotationZY", 0.), D(b, "sizeX"), D(b, "sizeY"), D(b, "thickness"), I(b, "npixelX"), I(b, "npixelY"), D(b, "pitchX"), D(b, "pitchY"), r, rx < 0 ? r : rx, ry < 0 ? r : ry, D(b, "rotation1", 1.), D(b, "rotation2", 0.), D(b, "rotation3", 0.), D(b, "rotation4", 1.), D(b, "radLength")); }
  pars(d, p.get()); m.setSiPlanesParameters(p.release()); }
inline void tracker(const N* d, GearMgrImpl& m) {
  int id = I(el(d, "LayoutID"), "ID"), ty = el(d, "LayoutType") ? I(el(d, "LayoutType"), "type") : 0; std::unique_ptr<TrackerPlanesParametersImpl> p(new TrackerPlanesParametersImpl(id, ty, I(el(d, "LayoutNumberOfLayers"), "number"))); const N* ls = el(d, "layers"); if (!ls) throw Refused{"layers"};
  for (auto* y : els(ls, "layer")) { TrackerPlanesLayerImpl l; l.setID(I(y, "ID")); l.setInfo(S(y, "info", ""));
    for (auto* a : els(y, "ladder")) l.addMaterialLayer(I(a, "ID"), S(a, "info", ""), D(a, "positionX", 0.), D(a, "positionY", 0.), D(a, "positionZ", 0.), D(a, "rotationXY", 0.), D(a, "rotationZX", 0.), D(a, "rotationZY", 0.), D(a, "sizeX", 1.), D(a, "sizeY", 1.), D(a, "thickness", 0.), D(a, "radLength", 0.));
    for (auto* b : els(y, "sensitive")) l.addSensitiveLayer(I(b, "ID"), S(b, "info", ""), D(b, "positionX", 0.), D(b, "positionY", 0.), D(b, "positionZ", 0.), D(b, "rotationXY", 0.), D(b, "rotationZX", 0.), D(b, "rotationZY", 0.), D(b, "sizeX", 1.), D(b, "sizeY", 1.), D(b, "thickness", 0.), D(b, "radLength", 0.), I(b, "npixelX", 1), I(b, "npixelY", 1), D(b, "pitchX", 0.), D(b, "pitchY", 0.), D(b, "resolutionX", 0.), D(b, "resolutionY", 0.));
    p->addLayer(&l); }
  pars(d, p.get()); m.setTrackerPlanesParameters(p.release()); }
// doc: the whole file
inline void read(const N* doc, GearMgrImpl& m) {
  const N* r = 0; for (auto& c : doc->ch) if (!c->name.empty() && !r) r = c.get(); if (!r) throw Refused{"no root"};
  if (el(r, "global")) m.setDetectorName(S(el(r, "global"), "detectorName"));
  const N* ds = el(r, "detectors"); if (!ds) throw Refused{"no detectors"};
  if (const N* f = el(r, "BField")) { GearParametersImpl* g = full::addField(m, D(f, "x"), D(f, "y"), D(f, "z")); pars(f, g); }
  for (auto* d : els(ds, "detector")) { S(d, "name"); if (!has(d, "geartype")) continue; string t = S(d, "geartype");
    if (t == "TPCParameters") tpc(d, m); else if (t == "CalorimeterParameters") calo(d, m); else if (t == "ZPlanarParameters" || t == "VXDParameters") zplanar(d, m); else if (t == "FTDParameters") ftd(d, m); else if (t == "SiPlanesParameters") siplanes(d, m); else if (t == "TrackerPlanesParameters") tracker(d, m); else if (t == "GearParameters") { std::unique_ptr<GearParametersImpl> g(new GearParametersImpl); pars(d, g.get()); m.setGearParameters(S(d, "name"), g.release()); } else throw Refused{"geartype"}; }
  if (const N* ms = el(r, "materials")) for (auto* q : els(ms, "material")) full::addMaterial(m, S(q, "name"), D(q, "A"), D(q, "Z"), D(q, "density"), D(q, "radLength"), D(q, "intLength")); }
}
