// C17: named parameters behave as typed maps under every history of sets, copies and assignments.
#include "mc.h"
#include "gear/GEAR.h"
#include "gearimpl/GearParametersImpl.h"
#include <map>
#include <cstring>
#include <cmath>
#include <set>
#include <memory>
namespace mc {
const char* const PROPERTY = "C17";
const char* const LEVEL = "model_checking";
const char* const RULE = "every sequence of set operations (6 types x 2 names x 2 values, on either of two parameter objects) and copy / assign / self-assign operations is executed on real objects next to a model made of six maps; after every operation all lookups of set and unset names in all types and all six key lists of both objects are compared";
const char* const BOUNDS = "2 objects, 6 types, names {'' and 'a'} (group 1), {'a','A b'} (group 2) plus 2 never-set names, 2 values per type (zero/negative/empty ones included); every sequence of 1..3 (group 2 thorough: 1..4) of 52 operations; each type alone with 4 names, 3 values (not-a-number, -0, infinity, empty and long texts and lists) and copying: every sequence of 1..4 (thorough 1..5) of 13 operations; 0..40 names in all types at once, set in every rotation of two orders, also copied and assigned";
using namespace gear; using std::string; using std::vector;
struct M { std::map<string, int> i; std::map<string, double> d; std::map<string, string> s; std::map<string, vector<int>> iv; std::map<string, vector<double>> dv; std::map<string, vector<string>> sv; };
static const int IV[] = {0, -2147483647 - 1}; static const double DV[] = {-0.1, 1e308}; static const string SV[] = {"", "two words"};
static const vector<int> IVV[] = {{}, {3, -1, 3}}; static const vector<double> DVV[] = {{1.5, -2.5}, {}}; static const vector<string> SVV[] = {{}, {"b", "", "b c"}};
template <class T> static bool eq(const T& a, const T& b) { return a == b; }
static bool eq(const double& a, const double& b) { return std::memcmp(&a, &b, sizeof a) == 0; } // also for values that are no numbers, and for the sign of zero
static bool eq(const vector<double>& a, const vector<double>& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
template <class Map, class F> static bool same(const Map& m, const vector<string>& names, F get, std::string& why, const char* t) {
  for (auto& n : names) { auto it = m.find(n); try { auto v = get(n); if (it == m.end()) { why = cat(t, " '", n, "' answered although never set"); return false; } if (!eq(v, it->second)) { why = cat(t, " '", n, "' wrong value"); return false; } }
    catch (UnknownParameterException&) { if (it != m.end()) { why = cat(t, " '", n, "' not found"); return false; } } catch (std::exception&) { why = cat(t, " '", n, "' wrong exception"); return false; } }
  return true;
}
template <class Map> static bool keys(const Map& m, vector<string> k, std::string& why, const char* t) {
  std::set<string> u(k.begin(), k.end()); if (u.size() != k.size() || k.size() != m.size()) { why = cat(t, " keys: ", k.size(), " listed, ", m.size(), " set"); return false; }
  for (auto& e : m) if (!u.count(e.first)) { why = cat(t, " key '", e.first, "' not listed"); return false; } return true;
}
static string compare(const GearParametersImpl& r, const M& m, const vector<string>& names) {
  string w; const GearParameters& g = r;
  same(m.i, names, [&](const string& n) { return g.getIntVal(n); }, w, "int") && same(m.d, names, [&](const string& n) { return g.getDoubleVal(n); }, w, "double") && same(m.s, names, [&](const string& n) { return g.getStringVal(n); }, w, "string") &&
  same(m.iv, names, [&](const string& n) { return g.getIntVals(n); }, w, "ints") && same(m.dv, names, [&](const string& n) { return g.getDoubleVals(n); }, w, "doubles") && same(m.sv, names, [&](const string& n) { return g.getStringVals(n); }, w, "strings") &&
  keys(m.i, g.getIntKeys(), w, "int") && keys(m.d, g.getDoubleKeys(), w, "double") && keys(m.s, g.getStringKeys(), w, "string") && keys(m.iv, g.getIntVecKeys(), w, "ints") && keys(m.dv, g.getDoubleVecKeys(), w, "doubles") && keys(m.sv, g.getStringVecKeys(), w, "strings");
  return w;
}
static string canon(const M& m) { std::ostringstream o; for (auto& e : m.i) o << "i" << e.first << e.second; for (auto& e : m.d) o << "d" << e.first << e.second; for (auto& e : m.s) o << "s" << e.first << e.second; for (auto& e : m.iv) o << "I" << e.first << e.second.size(); for (auto& e : m.dv) o << "D" << e.first << e.second.size(); for (auto& e : m.sv) o << "S" << e.first << e.second.size(); return o.str(); }
void explore(Ctx& c) {
  const int NSET = 24, NOPS = 2 * NSET + 4;
  for (int grp = 0; grp < 2; ++grp) { int D = c.thorough && grp == 1 ? 4 : 3;
    vector<string> nm = grp ? vector<string>{"a", "A b"} : vector<string>{"", "a"}; vector<string> all = {"", "a", "A b", "b", "A"};
    auto setBoth = [=](int o, GearParametersImpl& r, M& m) { int t = o / 4, v = o & 1; const string& n = nm[(o >> 1) & 1];
      switch (t) { case 0: r.setIntVal(n, IV[v]); m.i[n] = IV[v]; break; case 1: r.setDoubleVal(n, DV[v]); m.d[n] = DV[v]; break; case 2: r.setStringVal(n, SV[v]); m.s[n] = SV[v]; break;
        case 3: r.setIntVals(n, IVV[v]); m.iv[n] = IVV[v]; break; case 4: r.setDoubleVals(n, DVV[v]); m.dv[n] = DVV[v]; break; case 5: r.setStringVals(n, SVV[v]); m.sv[n] = SVV[v]; break; } };
    auto opStr = [=](int o) { static const char* T[] = {"Int", "Double", "String", "Ints", "Doubles", "Strings"}; if (o >= 2 * NSET) { static const char* X[] = {"B=copy(A)", "B=A", "A=B", "A=A"}; return string(X[o - 2 * NSET]); } int q = o % NSET; return cat(o < NSET ? "A" : "B", ".set", T[q / 4], "('", nm[(q >> 1) & 1], "',v", q & 1, ")"); };
    for (int o1 = 0; o1 < NOPS; ++o1) for (int o2 = -1; o2 < (D > 3 ? NOPS : 0); ++o2) c.unit(cat("group ", grp, " ", opStr(o1), o2 < 0 ? "" : opStr(o2)), [&] {
      vector<int> h{o1}; if (o2 >= 0) h.push_back(o2);
      std::function<void()> go = [&] {
        std::unique_ptr<GearParametersImpl> a(new GearParametersImpl), b(new GearParametersImpl); M ma, mb;
        for (int o : h) { c.transitions(); if (o < NSET) setBoth(o, *a, ma); else if (o < 2 * NSET) setBoth(o - NSET, *b, mb); else switch (o - 2 * NSET) { case 0: b.reset(new GearParametersImpl(*a)); mb = ma; break; case 1: *b = *a; mb = ma; break; case 2: *a = *b; ma = mb; break; case 3: { const GearParametersImpl& r = *a; *a = r; break; } } }
        auto hs = [&] { string s; for (int o : h) s += opStr(o) + "; "; return s; };
        string w = compare(*a, ma, all); c.check(w.empty(), "object-A-differs-from-model", [&] { return hs() + w; });
        string x = compare(*b, mb, all); c.check(x.empty(), "object-B-differs-from-model", [&] { return hs() + x; });
        a.reset(); x = compare(*b, mb, all); c.check(x.empty(), "object-B-affected-by-destruction-of-A", [&] { return hs() + x; });
        c.trace(); c.state(canon(ma) + "|" + canon(mb));
        if ((int)h.size() >= D || (D > 3 && o2 < 0)) return;
        for (int o = 0; o < NOPS; ++o) { h.push_back(o); go(); h.pop_back(); }
      };
      go(); c.sample(opStr(o1) + " and all continuations");
    });
  }
  // one type at a time, more names and values (special numbers and texts among them), deeper
  const vector<string> N4{"b", "", "A b", "aa"}; vector<string> all4 = N4; all4.insert(all4.end(), {"a", "B", "zz", "A  b"});
  static const int I4[] = {7, 0, -2147483647 - 1}; static const double D4[] = {std::nan(""), -0.0, HUGE_VAL}; static const string S4[] = {"", " x\n", string(300, 'y')};
  static const vector<int> IV4[] = {{}, {0}, vector<int>(40, 5)}; static const vector<double> DV4[] = {{}, {-0.0, std::nan("")}, vector<double>(33, 0.1)}; static const vector<string> SV4[] = {{}, {""}, {"q", "q"}};
  auto put = [&](GearParametersImpl& r, M& m, int t, const string& n, int v) { switch (t) { case 0: r.setIntVal(n, I4[v]); m.i[n] = I4[v]; break; case 1: r.setDoubleVal(n, D4[v]); m.d[n] = D4[v]; break; case 2: r.setStringVal(n, S4[v]); m.s[n] = S4[v]; break;
      case 3: r.setIntVals(n, IV4[v]); m.iv[n] = IV4[v]; break; case 4: r.setDoubleVals(n, DV4[v]); m.dv[n] = DV4[v]; break; case 5: r.setStringVals(n, SV4[v]); m.sv[n] = SV4[v]; break; } };
  for (int t = 0; t < 6; ++t) for (int o1 = 0; o1 < 13; ++o1) c.unit(cat("one type ", t, " first ", o1), [&, t, o1] { vector<int> h{o1}; const int D = c.thorough ? 5 : 4;
    std::function<void()> go = [&] { std::unique_ptr<GearParametersImpl> a(new GearParametersImpl); M m; for (int o : h) { c.transitions(); if (o < 12) put(*a, m, t, N4[o / 3], o % 3); else a.reset(new GearParametersImpl(*a)); }
      string w = compare(*a, m, all4); c.check(w.empty(), "object-A-differs-from-model", [&] { string s; for (int o : h) s += o < 12 ? cat("set(", N4[o / 3], ",v", o % 3, "); ") : string("copy; "); return cat("type ", t, ": ", s, w); });
      c.trace(); c.state(cat(t, canon(m))); if ((int)h.size() >= D) return; for (int o = 0; o < 13; ++o) { h.push_back(o); go(); h.pop_back(); } }; go(); c.sample(cat("one type ", t, " first ", o1)); });
  // many names at once: every number of names from 0 to 40 and every rotation of the order they are set in, in all types together
  for (int k = 0; k <= 40; ++k) c.unit(cat("many names ", k), [&, k] { for (int rot = 0; rot < std::max(1, k); ++rot) for (int step : {1, 7}) { c.trace(); GearParametersImpl r; M m; vector<string> names{"never", ""}; for (int j = 0; j < k; ++j) { int x = (rot + j * step) % k; string n = cat("n", x * x % 97, "_", x); names.push_back(n); for (int t = 0; t < 6; ++t) { put(r, m, t, n, (x + t) % 3); c.transitions(); } }
      GearParametersImpl q(r), z; z.setStringVal("gone", "x"); z = r; for (const GearParametersImpl* g : {(const GearParametersImpl*)&r, (const GearParametersImpl*)&q, (const GearParametersImpl*)&z}) { string w = compare(*g, m, names); if (!c.check(w.empty(), "object-A-differs-from-model", [&] { return cat(k, " names, rotation ", rot, " step ", step, " ", w); })) return; } c.state(cat(k, rot, step)); } });
}
}
