// C06: global items and named parameters survive writing and reading.
#include "rt.h"
#include "full.h"
#include <climits>
#include <limits>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C06"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one description; written, read back, every query compared (name, field, materials, user sections, all six kinds of named parameters of every detector), written again and compared byte by byte; distinct = different complete query results";
const char* const mc::BOUNDS = "detector-name, section, parameter and material names and texts from 35 texts plus all texts up to length 2 (quick) / 3 (thorough) over 12 characters; integers over 7, reals over 17 extreme numbers (incl. infinities), vectors up to length 3 over 4 numbers / 6 words; all subsets of 6 parameter kinds in each of 21 places; presence combinations of 22 items: all with at most 2 present or at most 2 absent, and every 6101st (quick) / 701st (thorough) of the rest; up to 4 materials and sections in any order";
static string show(const string& s) { string r; for (unsigned char ch : s) { if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; } return "'" + r + "'"; }
void mc::explore(Ctx& c) {
  using namespace full;
  vector<string> T = {"", " ", "  ", "x", "two words", "three  gap words", " lead", "trail ", "a&b", "&amp;", "&lt;", "&", ";", "<tag>", "</parameter>", "\"", "'", "\"'", "it's \"so\"", "--", "<!-- c -->", "]]>", "a=b", "line\nbreak", "tab\tbed", "cr\rx", "\x01\x1f", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac", "&#x41;", "&#65;", "1.5", "%s%n", "\\n", "name with = \"all\" <kinds> & 'signs'"};
  const string A = "a \"'&<>#x;\n\t"; 
  { vector<string> w{""}; size_t depth = c.thorough ? 3 : 2; for (size_t i = 0; i < w.size(); ++i) if (w[i].size() < depth) for (char ch : A) w.push_back(w[i] + ch); for (auto& s : w) T.push_back(s); }
  const size_t B = 40;
  for (size_t b = 0; b < T.size(); b += B) c.unit(cat("texts ", b), [&, b] { for (size_t i = b; i < T.size() && i < b + B; ++i) { const string& t = T[i];
    for (int w = 0; w < 7; ++w) { if (w == 6 && t.find_first_of(" ") != string::npos) continue; if ((w == 6 || w == 0) && t.empty()) continue; GearMgrImpl m; m.setDetectorName(w == 0 ? t : "d"); GearParametersImpl* u = addUser(m, w == 1 ? t : "user");
      if (w == 2) u->setIntVal(t, 5); if (w == 3) u->setStringVal(t, "v"); if (w == 4) u->setStringVal("p", t); if (w == 5) addMaterial(m, t, 1, 2, 3, 4, 5); if (w == 6) u->setStringVals("q", vector<string>{"a", t, t});
      addUser(m, "zz")->setStringVal("after", "still here"); rt::roundTrip(c, m, [&] { return cat("text ", show(t), " as ", w == 0 ? "detector name" : w == 1 ? "section name" : w == 2 ? "integer parameter name" : w == 3 ? "text parameter name" : w == 4 ? "text value" : w == 5 ? "material name" : "list element"); }, 0); } if (i % 30 == 0) c.sample(show(t)); } });
  // text lists whose elements contain blanks or are empty
  c.unit("text lists with blanks", [&] { for (auto& l : vector<vector<string>>{{"two words"}, {""}, {"a", ""}, {"", "a"}, {"a", " b"}, {"a b", "c d"}}) { GearMgrImpl m; m.setDetectorName("d"); addUser(m, "u")->setStringVals("q", l); string s; for (auto& x : l) s += show(x) + ","; rt::roundTrip(c, m, [&] { return "text list [" + s + "]"; }, 0); } });
  const vector<int> iv = {0, 1, -1, 42, INT_MAX, INT_MIN, 1000000}; const double inf = std::numeric_limits<double>::infinity();
  const vector<double> dv = {0, 1, -1, 0.1, 1. / 3, 1e-300, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 123456789.123456789, 1e22, 1 + 2.220446049250313e-16, M_PI, 3e-9, inf, -inf, 1e15 + 0.3};
  for (int w = 0; w < 2 + NDET; ++w) {
    auto host = [w](GearMgrImpl& m) -> GearParametersImpl* { m.setDetectorName("d"); return w == 0 ? addUser(m, "u") : w == 1 ? addField(m, 0.1, 0.2, 3.5) : addDet(m, w - 2); };
    string hn = w == 0 ? "user" : w == 1 ? "field" : detName(w - 2);
    auto one = [&c, host, hn](const std::function<void(GearParametersImpl*)>& f, const string& at) { GearMgrImpl m; f(host(m)); rt::roundTrip(c, m, [&] { return hn + ": " + at; }, 0); };
    c.unit("parameters of " + hn, [&, one] {
      for (int i : iv) one([&](GearParametersImpl* p) { p->setIntVal("n", i); }, cat("int ", i));
      for (double d : dv) one([&](GearParametersImpl* p) { p->setDoubleVal("n", d); }, cat("double ", num(d)));
      for (int k = 0; k < 64; ++k) for (int same = 0; same < 2; ++same) one([&](GearParametersImpl* p) { auto n = [&](const char* x) { return same ? string("n") : string(x); };
        if (k & 1) p->setIntVal(n("a"), 1); if (k & 2) p->setDoubleVal(n("b"), 2.5); if (k & 4) p->setStringVal(n("c"), "t t"); if (k & 8) p->setIntVals(n("d"), vector<int>{3, 4}); if (k & 16) p->setDoubleVals(n("e"), vector<double>{5.5, 1. / 3}); if (k & 32) p->setStringVals(n("f"), vector<string>{"g", "h"}); }, cat("kinds ", k, " same name ", same));
      for (int n = 0; n <= 3; ++n) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int kind = 0; kind < 3; ++kind) one([&](GearParametersImpl* p) { vector<int> x; vector<double> y; vector<string> z; const char* words[] = {"a", "7", "<&\"'>", "\xc3\xa9"};
        for (int i = 0; i < n; ++i) { int s = i == 0 ? a : i == 1 ? b : (a + b) % 4; x.push_back(vector<int>{0, -7, INT_MAX, INT_MIN}[s]); y.push_back(dv[(s * 5 + 3) % dv.size()]); z.push_back(words[s]); }
        if (kind == 0) p->setIntVals("v", x); else if (kind == 1) p->setDoubleVals("v", y); else p->setStringVals("v", z); }, cat("vector kind ", kind, " length ", n, " values ", a, b)); });
  }
  // field and materials
  c.unit("field values", [&] { for (double x : dv) for (double y : {0., 1. / 3, -3.5}) for (double z : dv) { GearMgrImpl m; m.setDetectorName("d"); addField(m, x, y, z); rt::roundTrip(c, m, [&] { return cat("field ", x, " ", y, " ", z); }, 0); } });
  for (int i = 0; i < 5; ++i) c.unit(cat("material values ", i), [&, i] { for (double a : dv) for (int j = 0; j < 5; ++j) for (double b : dv) { if (i == j && a != b) continue; double v[5] = {1.25, 2.5, 3.75, 5.125, 6.375}; v[i] = a; v[j] = b; GearMgrImpl m; m.setDetectorName("d"); addMaterial(m, "iron", v[0], v[1], v[2], v[3], v[4]); rt::roundTrip(c, m, [&] { return cat("material value ", i, " = ", a, ", ", j, " = ", b); }, 0); } });
  c.unit("several materials and sections", [&] { vector<int> o = {0, 1, 2, 3}; const char* N[] = {"zinc", "Air", "iron", "a b"}; do for (int n = 0; n <= 4; ++n) for (int named = 0; named < 2; ++named) { GearMgrImpl m; if (named) m.setDetectorName("d"); else m.setDetectorName("Unknown"); for (int i = 0; i < n; ++i) { addMaterial(m, N[o[i]], o[i], o[i] + 1, o[i] + 2, o[i] + 3, o[i] + 4); somePars(addUser(m, N[o[i]]), o[i]); } rt::roundTrip(c, m, [&] { return cat("order ", o[0], o[1], o[2], o[3], " first ", n); }, 0); } while (std::next_permutation(o.begin(), o.end())); });
  // presence: 19 detectors, field, user section, material
  const int ALL = NDET + 3; vector<int> masks;
  for (int k = 0; k < (1 << ALL); ++k) { int bits = __builtin_popcount(k); if (bits <= 2 || bits >= ALL - 2 || (c.thorough ? k % 701 == 0 : k % 6101 == 0)) masks.push_back(k); }
  for (size_t b = 0; b < masks.size(); b += 30) c.unit(cat("presence ", b), [&, b] { for (size_t i = b; i < masks.size() && i < b + 30; ++i) { int k = masks[i]; GearMgrImpl m; m.setDetectorName("det"); for (int d = 0; d < NDET; ++d) if (k >> d & 1) { auto* p = addDet(m, d, k % 3); if ((d + k) % 2) somePars(p, d % 2); } if (k >> NDET & 1) somePars(addField(m, 0, 0, 3.5), 0); if (k >> (NDET + 1) & 1) somePars(addUser(m, "TPC"), 1); if (k >> (NDET + 2) & 1) addMaterial(m, "x", 1, 2, 3, 4, 5); rt::roundTrip(c, m, [&] { return cat("present ", k); }, 1e-13); } });
}
