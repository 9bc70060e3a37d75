// C29: the surface store finds every surface by its identifier.
#include "mc.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearimpl/GearMgrImpl.h"
#include "gear/GEAR.h"
#include <climits>
#include <map>
#include <memory>
#include <vector>
using namespace mc; using std::vector; using std::string; using namespace gear;
const char* const mc::PROPERTY = "C29"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = what was accepted (identifier -> surface, filler name); every history of filling attempts, copies and destructions is a trace of the reference model replayed on the real store; after every operation every identifier of the alphabet and two others, the filled flag and the filler name are compared in every store alive; distinct = different history";
const char* const mc::BOUNDS = "fillers: every list of up to 3 (thorough 4) surfaces over the identifiers -2147483648, 0, 1, 7 (with repetitions and the same surface twice), fillers that throw after 0 to 2 surfaces or when asked for their name; every pair of filling attempts (thorough: triples over lists of up to 3), copying before, between and after them, the original or the copy destroyed first; the store of a geometry manager; lists of up to 300 surfaces in 5 orders";
namespace {
const int ID[] = {INT_MIN, 0, 1, 7}; const int ASK[] = {INT_MIN, 0, 1, 7, -1, INT_MAX};
struct Fill : MeasurementSurfaceStoreFiller { vector<MeasurementSurface*> v; string name; int thr = -1; bool throwName = false;
  void getMeasurementSurfaces(vector<MeasurementSurface*>& o) const { for (size_t i = 0; i < v.size(); ++i) { if (int(i) == thr) throw 42; o.push_back(v[i]); } if (thr == int(v.size())) throw 42; } string getName() const { if (throwName) throw 43; return name; } };
struct Spec { vector<int> ids; int thr; bool throwName, twice; };
string show(const Spec& s) { string o = "["; for (int i : s.ids) o += cat(ID[i], " "); o += "]"; if (s.thr >= 0) o += cat(" throwing after ", s.thr); if (s.throwName) o += " without name"; if (s.twice) o += " same surface"; return o; }
struct Model { std::map<int, MeasurementSurface*> m; bool filled = false; string name; };
// surfaces belong to the store: the harness never deletes them
MeasurementSurface* surf(int id) { return new MeasurementSurface(id, new CartesianCoordinateSystem(CLHEP::Hep3Vector(id % 1000, 1, 2), CLHEP::HepRotation())); }
string wrong(const MeasurementSurfaceStore& s, const Model& m) {
  if (s.isFilled() != m.filled) return "isFilled"; string n; bool thrown = false; try { n = s.getFillerName(); } catch (const gear::Exception&) { thrown = true; } if (thrown == m.filled || (m.filled && n != m.name)) return cat("filler name '", n, "' instead of '", m.name, "'");
  for (int id : ASK) { const MeasurementSurface* g = 0; try { g = s.GetMeasurementSurface(id); } catch (const gear::Exception&) { } auto it = m.m.find(id); const MeasurementSurface* w = it == m.m.end() ? 0 : it->second; if (g != w) return cat("surface ", id, w ? g ? ": another one" : ": not found" : ": found though not accepted"); if (g && const_cast<MeasurementSurface*>(g)->getID() != id) return cat("surface ", id, " has another identifier"); }
  return ""; }
struct Two { std::unique_ptr<MeasurementSurfaceStore> own; MeasurementSurfaceStore* s; };
}
void mc::explore(Ctx& c) {
  vector<Spec> S; int L = c.thorough ? 4 : 3; vector<int> cur; std::function<void()> rec = [&] { S.push_back({cur, -1, false, false}); if (cur.size() == 2 && cur[0] == cur[1]) S.push_back({cur, -1, false, true}); if (cur.size() <= 2 && !cur.empty()) for (int t = 0; t <= int(cur.size()); ++t) S.push_back({cur, t, false, false}); if (cur.size() == 1) S.push_back({cur, -1, true, false}); if (int(cur.size()) < L) for (int i = 0; i < 4; ++i) { cur.push_back(i); rec(); cur.pop_back(); } }; rec();
  auto attempt = [&](MeasurementSurfaceStore& s, Model& m, const Spec& f, int k, string& err) { Fill q; q.name = (f.ids.size() + k) % 3 == 0 ? string() : cat("filler", k); q.thr = f.thr; q.throwName = f.throwName; for (int i : f.ids) q.v.push_back(f.twice && !q.v.empty() ? q.v[0] : surf(ID[i]));
    bool dup = false; std::map<int, MeasurementSurface*> n; for (auto* x : q.v) dup = !n.insert({x->getID(), x}).second || dup; bool accept = !m.filled && !dup && f.thr < 0 && !f.throwName; int thrown = 0; try { s.FillStore(&q); } catch (const gear::Exception&) { thrown = 1; } catch (int) { thrown = 2; }
    if (accept) { if (thrown) { err = "refused"; return; } m.m = n; m.filled = true; m.name = q.name; } else if (!thrown) { err = "accepted"; return; } else if (thrown == 2 && (m.filled || (f.thr < 0 && !f.throwName))) { err = "unexpected exception"; return; } };
  for (size_t a = 0; a < S.size(); ++a) c.unit(show(S[a]), [&, a] {
    vector<size_t> h; std::function<bool(int)> go = [&](int depth) { h.clear(); return true; }; (void)go;
    size_t nb = S.size(); for (size_t b = 0; b < nb; ++b) for (int cp = 0; cp < 5; ++cp) { if (!c.thorough && cp && (a + b) % 4 != size_t(cp) - 1) continue; size_t third = c.thorough && S[a].ids.size() <= 3 && S[b].ids.size() <= 3 ? 7 : 1;
      for (size_t e = 0; e < third; ++e) { auto at = [&] { static const char* n[] = {"", " copied first", " copied between", " copied at the end", " moved on to the copy"}; return cat(show(S[a]), " then ", show(S[b]), third > 1 ? cat(" then ", show(S[(a + b * 7 + e * 31) % nb])) : string(), n[cp]); };
        c.now(at()); c.trace(); c.state(at()); std::unique_ptr<MeasurementSurfaceStore> s(new MeasurementSurfaceStore), k; Model m, km; string err; auto copy = [&] { k.reset(new MeasurementSurfaceStore(*s)); km = m; }; auto cmp = [&](const char* when) { string w = wrong(*s, m); if (w.empty() && k) { w = wrong(*k, km); if (!w.empty()) w = "copy: " + w; } return c.check(w.empty() && err.empty(), "wrong-store", [&] { return cat(at(), " ", when, ": ", err, w); }); };
        if (!cmp("empty")) return; if (cp == 1) copy(); attempt(*s, m, S[a], 1, err); if (!cmp("after the first")) return; if (cp == 2) copy(); if (cp == 4) { copy(); s.swap(k); k.reset(); if (!cmp("copy")) return; } attempt(*s, m, S[b], 2, err); if (!cmp("after the second")) return; if (third > 1) { attempt(*s, m, S[(a + b * 7 + e * 31) % nb], 3, err); if (!cmp("after the third")) return; } if (cp == 3) copy();
        if (k) { if (!cmp("copied")) return; if (cp != 1) { s.swap(k); std::swap(m, km); k.reset(); if (!cmp("after the original was destroyed")) return; } else { attempt(*k, km, S[b], 4, err); if (!cmp("copy filled")) return; k.reset(); if (!cmp("after the copy was destroyed")) return; } } } }
    c.sample(cat(show(S[a]), " then every other filler")); });
  c.unit("the store of a geometry manager", [&] { for (size_t a = 0; a < S.size(); ++a) { auto at = [&] { return show(S[a]); }; c.now(at()); c.trace(); c.state("mgr " + at()); GearMgrImpl g, other; Model m, none; string err; MeasurementSurfaceStore& s = g.getMeasurementSurfaceStore(); attempt(s, m, S[a], 1, err); string w = wrong(g.getMeasurementSurfaceStore(), m), o = wrong(other.getMeasurementSurfaceStore(), none); if (!c.check(err.empty() && w.empty() && o.empty() && &s == &g.getMeasurementSurfaceStore(), "wrong-store", [&] { return cat(at(), ": ", err, w, o); })) return; } });
  for (int n : {1, 2, 50, 300}) for (int ord = 0; ord < 5; ++ord) c.unit(cat(n, " surfaces in order ", ord), [&, n, ord] { static const int mul[] = {1, -1, 7, 11, 13}; Fill f; f.name = "many"; std::map<int, MeasurementSurface*> w; for (int i = 0; i < n; ++i) { int id = ord == 1 ? n - i : (i * mul[ord]) % 301 - 150 + (ord == 4 ? 1 << 30 : 0); if (w.count(id)) continue; f.v.push_back(w[id] = surf(id)); } c.trace(); c.state(cat(n, " ", ord)); MeasurementSurfaceStore s; s.FillStore(&f); for (int id = -200; id < 400; ++id) for (int big : {0, 1 << 30}) { const MeasurementSurface* g = 0; try { g = s.GetMeasurementSurface(id + big); } catch (const gear::Exception&) { } auto it = w.find(id + big); if (!c.check(g == (it == w.end() ? 0 : it->second), "wrong-store", [&] { return cat(n, " surfaces, identifier ", id + big); })) return; } });
}
