// A geometry description with any subset of detectors, every value distinct.  `v` selects one of several variants of each.
#pragma once
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/ConstantBField.h"
#include <string>
#include <vector>

namespace full {
using namespace gear;
enum { NDET = 19 };   // 0 TPC 1..12 calorimeters 13..15 VXD SIT SET 16 FTD 17 SiPlanes 18 TrackerPlanes
inline const char* detName(int d) { static const char* n[] = {"TPC", "EcalBarrel", "EcalEndcap", "EcalPlug", "YokeBarrel", "YokeEndcap", "YokePlug", "HcalBarrel", "HcalEndcap", "HcalRing", "Lcal", "LHcal", "BeamCal", "VXD", "SIT", "SET", "FTD", "SiPlanes", "TrackerPlanes"}; return n[d]; }
inline GearParametersImpl* addTPC(GearMgrImpl& m, int v) {
  bool polar = v % 4 < 2;
  TPCParametersImpl* p = new TPCParametersImpl(2250.5 + v, polar ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN);
  TPCModuleImpl* t; int co = polar ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN;
  if (v % 4 == 0) t = new TPCModuleImpl(1, new FixedPadSizeDiskLayout(30.5 + v, 60.5 + v, 10, 2, 3, 0.5), co, 4e7);
  else if (v % 4 == 1) t = new TPCModuleImpl(1, new FixedPadAngleDiskLayout(30.5 + v, 60.5 + v, 3, 0.1, 0.9, 4), co, 4e7);
  else if (v % 4 == 2) { RectangularPadRowLayout* r = new RectangularPadRowLayout(-10, 10 + v, 5); r->addRow(1, 5, 2, 1.5, 6, 5.5); r->addRow(2, 4, 2, 1.5, 6, 5.5); t = new TPCModuleImpl(1, r, co, 4e7); }
  else { VersatileDiskRowLayout* r = new VersatileDiskRowLayout(40 + v); r->addRow(5, 2, 6, 0.5, 1.5, 5.5); r->addRow(6, 2, 6.5, -0.25, 1.5, 5.5); t = new TPCModuleImpl(1, r, co, 4e7); }
  t->setZPosition(100 + v); t->setBorderWidth(0.25); p->addModule(t);
  p->setDriftVelocity(52.5); m.setTPCParameters(p); return p;
}
inline GearParametersImpl* addDet(GearMgrImpl& m, int d, int v = 0) {
  double x = d * 10 + v * 0.25;
  if (d == 0) return addTPC(m, v);
  if (d < 13) {
    static void (GearMgrImpl::*const set[])(CalorimeterParameters*) = {&GearMgrImpl::setEcalBarrelParameters, &GearMgrImpl::setEcalEndcapParameters, &GearMgrImpl::setEcalPlugParameters, &GearMgrImpl::setYokeBarrelParameters, &GearMgrImpl::setYokeEndcapParameters, &GearMgrImpl::setYokePlugParameters, &GearMgrImpl::setHcalBarrelParameters, &GearMgrImpl::setHcalEndcapParameters, &GearMgrImpl::setHcalRingParameters, &GearMgrImpl::setLcalParameters, &GearMgrImpl::setLHcalParameters, &GearMgrImpl::setBeamCalParameters};
    bool barrel = d == 1 || d == 4 || d == 7; double z = 1000 + x;
    CalorimeterParametersImpl* p = barrel ? new CalorimeterParametersImpl(500 + x, z, 8, 0.125) : new CalorimeterParametersImpl(300 + x, 900 + x, z, 2, 0.25);
    p->layerLayout().positionLayer(barrel ? 500 + x : z, 3, 10, 11, 1.5); p->layerLayout().addLayer(3, 10, 11, 1.5); p->layerLayout().addLayer(4.5, 12, 13, 2 + v);
    (m.*set[d - 1])(p); return p;
  }
  if (d < 16) { ZPlanarParametersImpl* p = new ZPlanarParametersImpl(1 + (d + v) % 3, 10.5 + x, 11.5 + x, 100, 1.5, 0.25); p->addLayer(7 + v, 0.1, 15 + x, -1.5, 0.5, 50, 12, 0.2, 15.1 + x, -1.25, 0.25, 49, 11, 0.15); p->addLayer(9, 0.2, 25 + x, -2.5, 0.5, 60, 13, 0.2, 25.1 + x, -2.25, 0.25, 59, 12, 0.15); d == 13 ? m.setVXDParameters(p) : d == 14 ? m.setSITParameters(p) : m.setSETParameters(p); return p; }
  if (d == 16) { FTDParametersImpl* p = new FTDParametersImpl; p->addLayer(5 + v, 2, true, FTDParameters::STRIP, 0.2, 0.1, 0.01, 200 + x, 2.5, 1, 50.5, 1.5, 20, 40, 100.5, 0.2, 51.5, 0.5, 19, 39, 99.5, 0.1); p->addLayer(6, 1, false, FTDParameters::PIXEL, 0.25, 0.15, 0, 300 + x, 3.5, -1, 60.5, 1.5, 20, 40, 100.5, 0.2, 61.5, 0.5, 19, 39, 99.5, 0.1); m.setFTDParameters(p); return p; }
  if (d == 17) { int type = v % 2 ? SiPlanesParameters::TelescopeWithoutDUT : SiPlanesParameters::TelescopeWithDUT; SiPlanesParametersImpl* p = new SiPlanesParametersImpl(250, type, 2); for (int i = 0; i < 2; ++i) p->addLayer(i, 1, 2, 100. * i + v, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, i + 10, 1.5, 2.5, 101. * i, 0.4, 0.5, 0.6, 19, 9, 0.25, 1024, 512, 0.0184, 0.02, 0.003, 0.004, 0.005, 0.7, 0.8, 0.9, 0.6, 94);
    if (!(v % 2)) p->addDUT(9, 1, 2, 50, 20, 10, 0.5, 93, 19, 1.5, 2.5, 51, 19, 9, 0.25, 64, 32, 0.1, 0.2, 0.03, 0.7, 0.8, 0.9, 0.6, 94); m.setSiPlanesParameters(p); return p; }
  TrackerPlanesParametersImpl* p = new TrackerPlanesParametersImpl(33, 1, 2); for (int i = 0; i < 2; ++i) { TrackerPlanesLayerImpl y; y.setID(i + 1); y.setInfo("lay"); y.addMaterialLayer(5 + i, "mat", 1, 2, 3 + v, 0.1, 0.2, 0.3, 20, 10, 0.5, 93); y.addSensitiveLayer(7 + i, "sen", 1, 2, 3, 0.1, 0.2, 0.3, 20, 10, 0.5, 93, 64, 32, 0.1, 0.2, 0.01, 0.02); p->addLayer(&y); } m.setTrackerPlanesParameters(p); return p;
}
inline GearParametersImpl* addField(GearMgrImpl& m, double x, double y, double z) { ConstantBField* b = new ConstantBField(Vector3D(x, y, z)); m.setBField(b); return b; }
inline GearParametersImpl* addUser(GearMgrImpl& m, const std::string& n) { GearParametersImpl* p = new GearParametersImpl; m.setGearParameters(n, p); return p; }
inline void addMaterial(GearMgrImpl& m, const std::string& n, double A, double Z, double d, double X, double L) { m.registerSimpleMaterial(new SimpleMaterialImpl(n, A, Z, d, X, L)); }
inline void somePars(GearParametersImpl* p, int v) { p->setIntVal("anInt", 3 + v); p->setDoubleVal("aDouble", 0.1 * (1 + v)); p->setStringVal("aString", v ? "other words" : "some words"); p->setIntVals("ints", std::vector<int>{1, -2, 3 + v}); p->setDoubleVals("doubles", std::vector<double>{1.5, 1. / (3 + v)}); p->setStringVals("strings", std::vector<std::string>{"a", "b&c"}); }
}
