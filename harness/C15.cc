// C15: a TPC's module list is a faithful registry under every history of additions, legacy setters and rejected calls.
#include "dump.h"
#include "modules.h"
#include <map>
#include <set>
namespace mc {
const char* const PROPERTY = "C15";
const char* const LEVEL = "model_checking";
const char* const RULE = "every sequence of module additions (fresh, duplicate, wrong coordinate type, null, same object again), deprecated pad-layout/frequency/drift setters and copies up to the depth bound is executed on a real TPC next to a list model; after every operation list, lookups, single-module conveniences, extents and ownership are compared, and rejected operations must leave the complete observable state unchanged";
const char* const BOUNDS = "17 operations, every sequence of length 1..4 (quick) / 1..5 (thorough), for Cartesian and polar end plates; identifiers {-2,0,1,2,3,5}";
using namespace gear;
static int live = 0; static std::map<const void*, int> destroyed;
struct Lay : RectangularPadRowLayout { Lay() : RectangularPadRowLayout(-4, 8, 3) { addRow(1, 2, 2, 3, 0, 0, 0); ++live; } ~Lay() { --live; } };
struct PLay : FixedPadAngleDiskLayout { PLay() : FixedPadAngleDiskLayout(10, 12, 1, -0.3, 0.5, 2) { ++live; } ~PLay() { --live; } };
struct Mod : TPCModuleImpl { Mod(int id, PadRowLayout2D* l, int t, double f) : TPCModuleImpl(id, l, t, f) { ++live; } ~Mod() { --live; ++destroyed[this]; } };
struct Spec { int id; bool right; int z; bool shifted; };
static const Spec specs[] = { {1, true, 0, false}, {2, true, 1, false}, {3, true, -1, true}, {1, true, 1, true}, {0, true, -1, false}, {-2, true, 0, true}, {1, false, 0, false}, {5, false, 1, false}, {2, true, 1, true} };
enum { NSPEC = 9, PADLAYOUT = 9, PADLAYOUT_MOD, ADDNULL, SAME, FREQ, DRIFT, COPY, SELF, NOPS };
static const char* opName[] = {"add(1)", "add(2,z>0)", "add(3,z<0,shifted)", "add(1,z>0,shifted)", "add(0,z<0)", "add(-2,shifted)", "add(1,wrong type)", "add(5,wrong type,z>0)", "add(2,z>0,shifted)", "setPadLayout", "setPadLayout(module)", "addModule(null)", "addModule(same object)", "setReadoutFrequency", "setMaxDriftLength", "copy", "self-assign"};
struct Entry { int id; double freq; bool plain; std::vector<double> ext; };
static PadRowLayout2D* makeLayout(bool polar) { if (polar) return new PLay; return new Lay; }
void explore(Ctx& c) {
  int D = c.thorough ? 5 : 4;
  for (int polar = 0; polar < 2; ++polar) for (int o1 = 0; o1 < NOPS; ++o1) for (int o2 = -1; o2 < NOPS; ++o2) c.unit(cat(polar ? "polar " : "cartesian ", opName[o1], o2 < 0 ? "" : opName[o2]), [&] {
    int type = polar ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, other = polar ? PadRowLayout2D::CARTESIAN : PadRowLayout2D::POLAR;
    std::vector<int> h; h.push_back(o1); if (o2 >= 0) h.push_back(o2);
    std::function<void()> go = [&] {
      std::string hs = polar ? "polar: " : "cartesian: "; for (int o : h) hs += std::string(opName[o]) + "; ";
      c.now(hs); live = 0; destroyed.clear();
      TPCParametersImpl* t = new TPCParametersImpl(500, type); std::vector<Entry> model; std::vector<TPCModule*> mine; double drift = 500; bool cathodeUnique = true; (void)cathodeUnique;
      int expectLive = 0; bool pureZ = true; (void)pureZ;
      for (size_t i = 0; i < h.size(); ++i) {
        int o = h[i]; bool last = i + 1 == h.size(); c.transitions();
        auto at = [&] { return cat(hs, "after operation ", i + 1); };
        dmp::Dump before; if (last) dmp::tpc(before, *t);
        bool threw = false, expectThrow = false; 
        if (o < NSPEC) { const Spec& s = specs[o];
          Mod* m = new Mod(s.id, makeLayout(polar && s.right), s.right ? type : other, 10 + i);
          if (!s.right && !polar) { delete m; m = new Mod(s.id, new PLay, other, 10 + i); }
          if (s.z) m->setZPosition(s.z > 0 ? 300 : -200); if (s.shifted) { m->setOffset(3, 0.5); m->setAngle(0.3); }
          expectThrow = !s.right; for (auto& e : model) if (e.id == s.id) expectThrow = true;
          Entry e{s.id, 10. + i, !s.shifted, m->getModuleExtent()};
          try { t->addModule(m); } catch (gear::Exception&) { threw = true; }
          if (threw) { delete m; } else { mine.push_back(m); model.push_back(e); expectLive += 2; }
        } else switch (o) {
          case PADLAYOUT: { PadRowLayout2D* l = makeLayout(polar); expectThrow = !model.empty(); std::vector<double> x = l->getPlaneExtent();
            try { t->setPadLayout(l); } catch (gear::Exception&) { threw = true; } if (threw) delete l; else { model.push_back({0, 0, true, x}); mine.push_back(t->getModules().back()); expectLive += 1; } break; }
          case PADLAYOUT_MOD: { Mod* m = new Mod(9, makeLayout(polar), type, 0); expectThrow = true; try { t->setPadLayout(m); } catch (gear::Exception&) { threw = true; } if (threw) delete m; break; }
          case ADDNULL: expectThrow = true; try { t->addModule(0); } catch (gear::Exception&) { threw = true; } break;
          case SAME: if (mine.empty()) break; expectThrow = true; try { t->addModule(mine[0]); } catch (gear::Exception&) { threw = true; } break;
          case FREQ: expectThrow = model.size() != 1; try { t->setReadoutFrequency(77 + i); } catch (gear::Exception&) { threw = true; } if (!threw && model.size() == 1) model[0].freq = 77 + i; break;
          case DRIFT: drift = 1000 + i; t->setMaxDriftLength(drift); break;
          case COPY: { TPCParametersImpl* n = new TPCParametersImpl(*t); delete t; t = n; mine = t->getModules();
            // copies are plain library objects: the counting ones are all gone now
            if (last) c.check(live == 0, "module-not-destroyed-once", at); expectLive = 0; live = 0; destroyed.clear(); break; }
          case SELF: { const TPCParametersImpl& r = *t; *t = r; break; }
        }
        if (!last) continue;
        c.check(threw == expectThrow, expectThrow ? "invalid-operation-accepted" : "valid-operation-rejected", at);
        if (threw || o == SELF) { dmp::Dump after; dmp::tpc(after, *t); std::string df = dmp::diff(before, after, 0); c.check(df.empty(), "rejected-operation-changed-tpc", [&] { return at() + " " + df; }); }
        c.check(live == expectLive, "module-ownership", [&] { return cat(at(), " live objects ", live, " expected ", expectLive); });
        c.check(t->getNModules() == (int)model.size() && t->getModules().size() == model.size(), "module-count", at);
        c.check(t->getModules() == mine, "module-order", at);
        c.check(t->getMaxDriftLength() == drift && t->getCoordinateType() == type, "drift-or-type", at);
        for (size_t k = 0; k < model.size() && k < t->getModules().size(); ++k) {
          c.check(t->getModules()[k]->getModuleID() == model[k].id && t->getModules()[k]->getReadoutFrequency() == model[k].freq, "module-data", at);
          try { c.check(&t->getModule(model[k].id) == mine[k], "lookup-by-id", at); } catch (std::exception&) { c.fail("lookup-by-id", at()); }
        }
        for (int id : {-2, -1, 0, 1, 2, 3, 4, 5, 9, 1 << 20}) { bool known = false; for (auto& e : model) known = known || e.id == id; if (known) continue;
          bool ex = false; try { t->getModule(id); } catch (gear::Exception&) { ex = true; } catch (std::exception&) {} c.check(ex, "unknown-id-not-rejected", [&] { return cat(at(), " id ", id); }); }
        { bool ex = false; const PadRowLayout2D* l = 0; try { l = &t->getPadLayout(); } catch (gear::Exception&) { ex = true; } c.check(model.size() == 1 && model[0].plain ? (!ex && l == mine[0]) : ex, "pad-layout-convenience", at); }
        { bool ex = false; double f = 0; try { f = t->getReadoutFrequency(); } catch (gear::Exception&) { ex = true; } c.check(model.size() == 1 ? (!ex && f == model[0].freq) : ex, "frequency-convenience", at); }
        { bool ex = false; std::vector<double> e; try { e = t->getPlaneExtent(); } catch (gear::Exception&) { ex = true; }
          if (model.empty()) c.check(ex, "extent-of-empty-tpc", at);
          else { std::vector<double> w = model[0].ext; for (auto& m : model) { w[0] = std::min(w[0], m.ext[0]); w[1] = std::max(w[1], m.ext[1]); w[2] = std::min(w[2], m.ext[2]); w[3] = std::max(w[3], m.ext[3]); }
            c.check(!ex && e.size() == 4 && near(e[0], w[0]) && near(e[1], w[1]) && near(e[2], w[2]) && near(e[3], w[3]), "extent-not-envelope", at); } }
        std::string st = polar ? "P" : "C"; for (auto& e : model) st += cat("|", e.id, ",", e.freq, ",", e.plain); c.state(cat(st, " ", drift));
      }
      c.trace(); for (auto* m : mine) destroyed[m] = 0; delete t; c.check(live == 0, "module-not-destroyed-once", [&] { return hs + "at destruction"; });
      for (auto& d : destroyed) c.check(d.second <= 1, "module-not-destroyed-once", [&] { return hs + "at destruction"; });
      if (o2 < 0 || (int)h.size() >= D) return;
      for (int o = 0; o < NOPS; ++o) { h.push_back(o); go(); h.pop_back(); }
    };
    go(); c.sample(cat(polar ? "polar " : "cartesian ", opName[o1], "; ", o2 < 0 ? "" : opName[o2], " and all continuations"));
  });
}
}
