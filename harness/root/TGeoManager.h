// A stand-in for the parts of ROOT's geometry package that GEAR uses: axis-parallel boxes in boxes, located and
// stepped through as ROOT documents it (FindNode, InitTrack, FindNextBoundaryAndStep, CdUp, MasterToLocal, ...).
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <set>
#include <functional>
#include <cmath>
#include <cstring>
typedef double Double_t; typedef int Int_t; typedef bool Bool_t; typedef char Char_t; typedef float Float_t; typedef unsigned UInt_t; typedef long Long_t;
const Bool_t kTRUE = true, kFALSE = false;
class TGeoManager; class TGeoNode;
struct TNamed { std::string fName; const char* GetName() const { return fName.c_str(); } const char* GetTitle() const { return ""; } virtual ~TNamed() {} };
class TGeoMaterial : public TNamed { public: double den = 0, temp = 0, pres = 0, rad = 0, inter = 0; Double_t GetDensity() const { return den; } Double_t GetTemperature() const { return temp; } Double_t GetPressure() const { return pres; } Double_t GetRadLen() const { return rad; } Double_t GetIntLen() const { return inter; } };
class TGeoMedium : public TNamed { public: TGeoMaterial* mat = nullptr; TGeoMaterial* GetMaterial() const { return mat; } };
class TGeoVolume : public TNamed { public: TGeoMedium* med = nullptr; TGeoManager* mgr = nullptr; double half[3] = {0, 0, 0}; std::vector<TGeoNode*> kids; TGeoMedium* GetMedium() const { return med; } TGeoMaterial* GetMaterial() const { return med ? med->mat : nullptr; } TGeoManager* GetGeoManager() const { return mgr; } Int_t GetNdaughters() const { return (Int_t)kids.size(); } TGeoNode* GetNode(Int_t i) const { return kids[i]; } };
class TGeoNode : public TNamed { public: TGeoVolume* vol = nullptr; double pos[3] = {0, 0, 0}; TGeoVolume* GetVolume() const { return vol; } TGeoMedium* GetMedium() const { return vol->med; } };
class TVirtualGeoTrack { public: int points = 0; void AddPoint(Double_t, Double_t, Double_t, Double_t) { ++points; } Int_t GetNpoints() const { return points; } };
class TGeoManager : public TNamed { public:
  TGeoManager() {} TGeoManager(const char*, const char*) {}
  // ---- construction (by the stand-in for the GDML reader)
  TGeoVolume* top = nullptr; TGeoNode topNode; std::vector<std::shared_ptr<void>> own; bool closed = false;
  // ---- navigation
  std::vector<TGeoNode*> path; bool outside = true; double point[3] = {0, 0, 0}, last[3] = {0, 0, 0}, dir[3] = {0, 0, 1}; double step = 0; std::vector<TVirtualGeoTrack*> tracks;
  void SetTopVolume(TGeoVolume* v) { top = v; topNode.vol = v; topNode.fName = v->fName + "_1"; } TGeoVolume* GetTopVolume() const { return top; } TGeoNode* GetTopNode() { return &topNode; } void CloseGeometry() { closed = true; outside = false; path = {&topNode}; }
  std::vector<TGeoNode*> locate(const double* p) { std::vector<TGeoNode*> r; double q[3] = {p[0], p[1], p[2]}; TGeoNode* n = &topNode; if (!top) return r; auto in = [&](TGeoNode* m, const double* x) { for (int i = 0; i < 3; ++i) if (std::fabs(x[i] - m->pos[i]) > m->vol->half[i]) return false; return true; }; if (!in(n, q)) return r;
    while (n) { r.push_back(n); for (int i = 0; i < 3; ++i) q[i] -= n->pos[i]; TGeoNode* next = nullptr; for (TGeoNode* k : n->vol->kids) if (!next && in(k, q)) next = k; n = next; } return r; }
  TGeoNode* FindNode(Bool_t = kTRUE) { auto r = locate(point); outside = r.empty(); if (outside) { path = {&topNode}; return nullptr; } path = r; return path.back(); }
  TGeoNode* FindNode(Double_t x, Double_t y, Double_t z) { SetCurrentPoint(x, y, z); return FindNode(); }
  void SetCurrentPoint(Double_t x, Double_t y, Double_t z) { point[0] = x; point[1] = y; point[2] = z; } void SetCurrentPoint(const Double_t* p) { SetCurrentPoint(p[0], p[1], p[2]); } void SetCurrentDirection(const Double_t* d) { for (int i = 0; i < 3; ++i) dir[i] = d[i]; } void SetCurrentDirection(Double_t x, Double_t y, Double_t z) { dir[0] = x; dir[1] = y; dir[2] = z; }
  TGeoNode* InitTrack(const Double_t* p, const Double_t* d) { SetCurrentPoint(p); SetCurrentDirection(d); return FindNode(); } TGeoNode* InitTrack(Double_t x, Double_t y, Double_t z, Double_t u, Double_t v, Double_t w) { double p[3] = {x, y, z}, d[3] = {u, v, w}; return InitTrack(p, d); }
  const Double_t* GetCurrentPoint() const { return point; } const Double_t* GetLastPoint() const { return last; } const Double_t* GetCurrentDirection() const { return dir; } Double_t GetStep() const { return step; } Bool_t IsOutside() const { return outside; }
  // the face planes of all boxes the line crosses, in order; the first behind which another node begins is the boundary
  TGeoNode* FindNextBoundaryAndStep(Double_t max = 1e30, Bool_t = kFALSE) { for (int i = 0; i < 3; ++i) last[i] = point[i]; std::set<double> T; double org[3] = {0, 0, 0}; std::function<void(TGeoNode*, const double*)> add = [&](TGeoNode* n, const double* o) { double q[3]; for (int i = 0; i < 3; ++i) { q[i] = o[i] + n->pos[i]; for (double s : {-1., 1.}) if (dir[i] != 0) { double t = (q[i] + s * n->vol->half[i] - point[i]) / dir[i]; if (t > -1e-7) T.insert(t > 0 ? t : 0); } } for (TGeoNode* k : n->vol->kids) add(k, q); }; add(&topNode, org);
    TGeoNode* here = outside ? nullptr : path.back(); for (double t : T) { if (t > max) break; double p[3]; for (int i = 0; i < 3; ++i) p[i] = point[i] + (t + 1e-7) * dir[i]; auto r = locate(p); TGeoNode* n = r.empty() ? nullptr : r.back(); if (n != here) { for (int i = 0; i < 3; ++i) point[i] += t * dir[i]; step = t; outside = !n; path = n ? r : std::vector<TGeoNode*>{&topNode}; return n; } }
    if (max > 1e29) { outside = true; return nullptr; } for (int i = 0; i < 3; ++i) point[i] += max * dir[i]; step = max; return here; }
  TGeoNode* FindNextBoundary(Double_t max = 1e30) { auto p = path; bool o = outside; double q[3] = {point[0], point[1], point[2]}; TGeoNode* n = FindNextBoundaryAndStep(max); path = p; outside = o; for (int i = 0; i < 3; ++i) point[i] = q[i]; return n; }
  TGeoNode* GetCurrentNode() const { return path.empty() ? nullptr : path.back(); } TGeoVolume* GetCurrentVolume() const { return path.empty() ? nullptr : path.back()->vol; } Int_t GetLevel() const { return (Int_t)path.size() - 1; } void CdUp() { if (path.size() > 1) path.pop_back(); } void CdTop() { path = {&topNode}; } TGeoNode* GetMother(Int_t up = 1) const { return (int)path.size() > up ? path[path.size() - 1 - up] : nullptr; }
  void MasterToLocal(const Double_t* m, Double_t* l) const { for (int i = 0; i < 3; ++i) { l[i] = m[i]; for (TGeoNode* n : path) l[i] -= n->pos[i]; } } void LocalToMaster(const Double_t* l, Double_t* m) const { for (int i = 0; i < 3; ++i) { m[i] = l[i]; for (TGeoNode* n : path) m[i] += n->pos[i]; } }
  Int_t AddTrack(Int_t, Int_t, void* = nullptr) { tracks.push_back(new TVirtualGeoTrack); return (Int_t)tracks.size() - 1; } TVirtualGeoTrack* GetLastTrack() { return tracks.empty() ? nullptr : tracks.back(); } void ClearTracks() { for (auto t : tracks) delete t; tracks.clear(); } void CleanGarbage() {} Int_t GetNtracks() const { return (Int_t)tracks.size(); }
};
class TGDMLParse { public: static std::map<std::string, std::function<TGeoVolume*()>>& files() { static std::map<std::string, std::function<TGeoVolume*()>> f; return f; } TGeoVolume* GDMLReadFile(const char* n) { auto i = files().find(n); return i == files().end() ? nullptr : i->second(); } };
