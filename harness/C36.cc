// C36: detector types of the user: the handler registered last for a type reads the detectors of that type.
#include "rt.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearxml/XMLHandlerMgr.h"
#include "gearxml/tinyxml.h"
#include <cstdlib>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C36"; const char* const mc::LEVEL = "model_checking";
const char* const mc::RULE = "state = for each type the handler registered last (reference model: a map) and which handlers have been deleted; every history of registrations, replacements, refused registrations and loads runs in a process of its own on the real handler manager; after every step all look-ups and the life of every handler are compared with the model, loads must call exactly the registered handlers in file order with the manager that is returned; at the end of the process every handler still registered must be deleted exactly once";
const char* const mc::BOUNDS = "every history up to length 3 (quick) / 4 (thorough) over 26 operations: for each of 4 types (2 built in, 2 new; one the empty text) register a good handler, register one whose reading fails, register none, register the present one again; register a handler that registers others while reading; load 8 files";
namespace {
const char* TYPES[] = {"GearParameters", "CalorimeterParameters", "My", "Mine too", "Late"}; const int NT = 4;
struct Shared { int dead[64]; char msg[400]; int ok; };
Shared* sh; vector<string> calls; int handlers = 0; int expectDead[64];
struct H : XMLHandler { int id, kind; mutable GearMgr* seen = 0; H(int k) : id(handlers++), kind(k) {} ~H() override { ++sh->dead[id]; }
  TiXmlElement toXML(const GearParameters&) const override { return TiXmlElement("detector"); }
  GearParameters* fromXML(const TiXmlElement* e, GearMgr* m) const override { string n = getXMLAttribute(e, "name"); calls.push_back(cat(id, ":", n)); if (kind == 1) throw gear::Exception("this handler fails"); if (kind == 3) throw std::runtime_error("this handler fails");
    if (kind == 2) XMLHandlerMgr::instance()->setHandler("Late", new H(0));
    GearParametersImpl* p = new GearParametersImpl; p->setIntVal("handler", id); if (m) m->setGearParameters(n, p); return p; } };
// files: detector types in order
const vector<vector<int>> FILES = {{0}, {2}, {2, 0, 2}, {3, 2}, {1}, {}, {4, 2, 4}, {2, 4, 0, 2, 4}};
string file(int k) { string s = "<gear><detectors>"; int i = 0; for (int t : FILES[k]) { s += cat("<detector name=\"", t == 1 ? "ecal" : "d", i++, "\" geartype=\"", TYPES[t], "\">"); s += t == 1 ? "<layout type=\"barrel\" symmetry=\"8\" phi0=\"0\"/><dimensions inner_r=\"3\" outer_z=\"4\"/>" : "<parameter name=\"handler\" type=\"int\" value=\"-1\"/>"; s += "</detector>"; } return s + "</detectors></gear>\n"; }
const char* OPN[] = {"register for ", "register a failing one for ", "register none for ", "register the present one again for ", "register one that registers for ", "load ", "register one failing otherwise for "};
struct Op { int kind, arg; };
vector<Op> ops() { vector<Op> v; for (int t = 0; t < NT; ++t) for (int k = 0; k < 4; ++k) v.push_back({k, t}); v.push_back({4, 2}); for (int f = 0; f < 8; ++f) v.push_back({5, f}); v.push_back({6, 3}); return v; }
string show(const vector<Op>& h) { string s; for (auto& o : h) s += string(OPN[o.kind]) + (o.kind == 5 ? cat("file ", o.arg) : string(TYPES[o.arg])) + "; "; return s; }
void atEnd() { for (int i = 0; i < handlers; ++i) if (sh->dead[i] != 1) { snprintf(sh->msg, sizeof sh->msg, "handler %d deleted %d times at the end of the program", i, sh->dead[i]); _exit(9); } sh->ok = 1; }
// runs in a process of its own; "" or what is wrong
string run(const vector<Op>& h, const string& f) {
  XMLHandlerMgr* M = XMLHandlerMgr::instance(); std::map<string, H*> reg; std::map<string, const XMLHandler*> builtin; for (const char* t : {"GearParameters", "TPCParameters", "CalorimeterParameters", "ZPlanarParameters", "FTDParameters", "SiPlanesParameters", "TrackerPlanesParameters"}) { builtin[t] = M->getHandler(t); if (!builtin[t]) return string("no handler for ") + t; }
  auto check = [&](const char* when) -> string { if (XMLHandlerMgr::instance() != M) return "another handler manager"; for (auto& b : builtin) if (!reg.count(b.first) && M->getHandler(b.first) != b.second) return string(when) + ": the handler of " + b.first + " changed"; for (auto& r : reg) if (M->getHandler(r.first) != r.second) return string(when) + ": not the registered handler for " + r.first; for (const char* t : {"My", "Mine too", "Late", "", "my", "GearParameter"}) if (!reg.count(t) && M->getHandler(t)) return string(when) + ": a handler for " + t; for (int i = 0; i < handlers; ++i) if (sh->dead[i] != expectDead[i]) return cat(when, ": handler ", i, " deleted ", sh->dead[i], " times instead of ", expectDead[i]); return ""; };
  for (auto& o : h) { string t = o.kind == 5 ? "" : TYPES[o.arg]; std::map<string, int> ids; for (auto& r : reg) ids[r.first] = r.second->id;
    auto set = [&](int kind) { H* n = new H(kind); M->setHandler(t, n); if (ids.count(t)) ++expectDead[ids[t]]; reg[t] = n; };
    switch (o.kind) { case 0: set(0); break; case 1: set(1); break; case 2: M->setHandler(t, 0); break; case 3: if (reg.count(t)) M->setHandler(t, reg[t]); else if (builtin.count(t)) M->setHandler(t, const_cast<XMLHandler*>(builtin[t])); break; case 4: set(2); break; case 6: set(3); break;
      case 5: { calls.clear(); vector<string> want; string refuse; bool late = false; int i = 0, next = handlers; std::map<string, int> par; std::map<string, std::pair<int, int>> cur; for (auto& r : reg) cur[r.first] = {r.second->id, r.second->kind};
        // the handlers registered while reading are read with from then on
        for (int k : FILES[o.arg]) { string ty = TYPES[k], nm = cat(k == 1 ? "ecal" : "d", i++); if (cur.count(ty)) { int id = cur[ty].first, kind = cur[ty].second; want.push_back(cat(id, ":", nm)); if (kind == 1 || kind == 3) { refuse = "handler fails"; break; } if (kind == 2) { late = true; if (cur.count("Late")) ++expectDead[cur["Late"].first]; cur["Late"] = {next++, 0}; } par[nm] = id; } else if (builtin.count(ty)) { if (k == 0) par[nm] = -1; } else { refuse = "no handler"; break; } }
        string err; std::unique_ptr<GearMgr> m; { rt::Quiet q; rt::spit(f, file(o.arg)); GearXML x(f); try { m.reset(x.createGearMgr()); } catch (gear::Exception& e) { err = e.what(); } catch (std::exception& e) { err = e.what(); } }
        if (late) { reg["Late"] = const_cast<H*>(static_cast<const H*>(M->getHandler("Late"))); if (!reg["Late"] || reg["Late"]->id != cur["Late"].first) return "not the handler registered while reading"; }
        if (next != handlers) return "not as many handlers registered while reading";
        if (calls != want) { string s = "calls:"; for (auto& w : calls) s += " " + w; s += " instead of"; for (auto& w : want) s += " " + w; return s; }
        if (!refuse.empty()) { if (m) return "loaded although " + refuse; break; } if (!m) return "refused: " + err;
        for (auto& p : par) { int v = -2; try { v = m->getGearParameters(p.first).getIntVal("handler"); } catch (gear::Exception&) { } if (v != p.second) return cat("section ", p.first, " comes from ", v, " instead of ", p.second); }
        if (m->getGearParameterKeys().size() != par.size()) return "wrong number of sections"; bool cal = false; for (int k : FILES[o.arg]) if (k == 1 && !reg.count(TYPES[1])) cal = true; bool got = true; try { m->getEcalBarrelParameters(); } catch (gear::Exception&) { got = false; } if (got != cal) return "calorimeter"; } }
    string e = check(OPN[o.kind]); if (!e.empty()) return e; }
  return ""; }
}
void mc::explore(Ctx& c) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); const vector<Op> O = ops(); const int L = c.thorough ? 4 : 3;
  for (size_t a = 0; a < O.size(); ++a) for (size_t b = 0; b < O.size(); ++b) c.unit(cat("history ", a, " ", b), [&, a, b] {
    std::function<bool(vector<Op>&)> rec = [&](vector<Op>& h) -> bool {
      c.now(show(h)); c.trace(); c.transitions(h.size()); c.state(show(h)); memset(sh, 0, sizeof *sh); pid_t p = fork();
      if (p == 0) { memset(expectDead, 0, sizeof expectDead); std::atexit(atEnd); string e; try { e = run(h, c.tmpdir + "/h.xml"); } catch (std::exception& x) { e = string("exception ") + x.what(); } if (!e.empty()) { snprintf(sh->msg, sizeof sh->msg, "%s", e.c_str()); _exit(9); } exit(0); }
      int st = 0; waitpid(p, &st, 0); if (!c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->ok, sh->msg[0] ? "wrong-handler" : "crash", [&] { return show(h) + sh->msg + (sh->msg[0] ? "" : cat("the program ended with status ", st)); })) return false;
      if (int(h.size()) >= L) return true; for (auto& o : O) { h.push_back(o); bool ok = rec(h); h.pop_back(); if (!ok) return false; } return true; };
    vector<Op> h{O[a], O[b]}; rec(h); if (a == 0 && b < 3) c.sample(show(h) + "... every continuation"); });
}
