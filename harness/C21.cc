// C21: text survives the XML layer whatever characters it contains.
#include "rt.h"
#include "xmodel.h"
#include <sstream>
using namespace gear; using namespace mc; using std::vector; using std::string; using xm::M;
const char* const mc::PROPERTY = "C21"; const char* const mc::LEVEL = "exploration";
const char* const mc::RULE = "case = one document; it is built with the library, saved, loaded and read back through the navigation functions, compared with the reference tree (character data with white-space runs condensed and blank text dropped, as the reader documents), saved again and compared byte by byte; distinct = different documents";
const char* const mc::BOUNDS = "every string of up to 3 (quick) / 4 (thorough) of 19 characters (& < > \" ' tab newline carriage-return blank ; # x a 1 SOH DEL / and two non-ASCII sequences) as attribute value, as second attribute, as element text and (without '--') as comment, without declaration and declared as UTF-8, plus every single byte value and every character reference look-alike of up to 5 of {& # x 4 1 ; a}; every element tree of up to 5 (quick) / 6 (thorough) nodes over {element with no, one, two or three attributes, text, comment, unknown tag}; every choice of white space at every place of 6 hand-written documents with up to 2 (quick) / 3 (thorough) deviations; numbers: all of 29 values of a double and 12 of an int; strings of length 2^k-1, 2^k, 2^k+1 around the 2048-byte reading buffer";
namespace {
struct Dir { string d; };
bool roundTrip(Ctx& c, const vector<M>& doc, const std::function<string()>& at, TiXmlEncoding enc = TIXML_DEFAULT_ENCODING) {
  const string f1 = c.tmpdir + "/x1.xml", f2 = c.tmpdir + "/x2.xml"; c.now(at()); c.trace(); const string want0 = xm::canon(doc), want = xm::canon(xm::asRead(doc)); c.state(want0);
  TiXmlDocument d(f1); for (auto& m : doc) d.LinkEndChild(xm::make(m));
  string err; string got = xm::readDoc(d, err); if (!c.check(got == want0 && err.empty(), "tree-not-as-built", [&] { return at() + ": " + got + " " + err; })) return false;
  if (!c.check(d.SaveFile(), "cannot-be-written", at)) return false;
  string again = xm::readDoc(d, err); if (!c.check(again == want0, "writing-changed-the-tree", at)) return false;
  TiXmlDocument r(f1); if (!c.check(r.LoadFile(enc) && !r.Error(), "cannot-be-read-back", [&] { return at() + ": " + r.ErrorDesc() + " in " + xm::show(rt::slurp(f1)).substr(0, 300); })) return false;
  err.clear(); got = xm::readDoc(r, err); if (!c.check(got == want && err.empty(), "differs-after-reading", [&] { return at() + ": " + got.substr(0, 300) + " instead of " + want.substr(0, 300) + " " + err; })) return false;
  if (!c.check(r.SaveFile(f2), "cannot-be-written", at)) return false;
  TiXmlDocument r2(f2); if (!c.check(r2.LoadFile(enc), "cannot-be-read-back", at)) return false; got = xm::readDoc(r2, err);
  bool ok = c.check(got == want, "differs-after-second-reading", at);
  if (xm::canon(doc) == want) ok = c.check(rt::slurp(f1) == rt::slurp(f2), "second-file-differs", at) && ok; else { const string f3 = c.tmpdir + "/x3.xml"; r2.SaveFile(f3); ok = c.check(rt::slurp(f2) == rt::slurp(f3), "second-file-differs", at) && ok; }
  return ok;
}
M elem(const string& n) { return M{xm::ELEM, n, {}, {}}; }
const vector<string>& atoms() { static const vector<string> a = {"&", "<", ">", "\"", "'", "\t", "\n", "\r", " ", ";", "#", "x", "a", "1", "\x01", "\x7f", "/", "\xc3\xa9", "\xe2\x82\xac"}; return a; }
bool textCase(Ctx& c, const string& s, int how) {     // how: 0 attributes, 1 text, 2 comment; +4: declared as UTF-8
  M e = elem("gear"); M k = elem("k"); auto what = [&] { static const char* n[] = {"attribute", "text", "comment"}; return cat(n[how % 4], " {", xm::show(s), "}", how >= 4 ? " declared UTF-8" : ""); };
  if (how % 4 == 0) { k.at = {{"v", s}, {"w", "1"}, {"u", s}}; } else if (how % 4 == 1) { k.ch.push_back(M{xm::TEXT, s, {}, {}}); e.ch.push_back(k); k.ch.push_back(elem("in")); } else { if (s.find("--") != string::npos) return true; k.ch.push_back(M{xm::COMM, s, {}, {}}); }
  e.ch.push_back(k); vector<M> doc; if (how >= 4) doc.push_back(M{xm::DECL, "1.0|UTF-8|yes", {}, {}}); doc.push_back(e);
  return roundTrip(c, doc, what);
}
// all ordered trees with n nodes below the root, node kinds by the alphabet
void forests(int n, int depth, const std::function<void(vector<M>&)>& f, vector<M>& acc, bool lastText) {
  if (n == 0) { f(acc); return; }
  for (int k = 0; k < 4; ++k) { M m; switch (k) { case 0: if (lastText) continue; m = M{xm::TEXT, n % 2 ? "two words" : "x<y", {}, {}}; break; case 1: m = M{xm::COMM, n % 2 ? " a & b " : "a", {}, {}}; break; case 2: m = M{xm::UNKN, "!DOCTYPE z", {}, {}}; break; case 3: m = elem(n % 2 ? "a" : "b"); break; }
    if (k != 3) { acc.push_back(m); forests(n - 1, depth, f, acc, k == 0); acc.pop_back(); continue; }
    for (int in = 0; in <= (depth > 0 ? n - 1 : 0); ++in) { vector<M> inner; forests(in, depth - 1, [&](vector<M>& ch) { for (int a = 0; a < 3; ++a) { M e = m; if (a) e.at.push_back({"z", "1"}); if (a > 1) { e.at.push_back({"a", ""}); e.at.push_back({"z.y-x:w", "\""}); } e.ch = ch; acc.push_back(e); forests(n - 1 - in, depth, f, acc, false); acc.pop_back(); } }, inner, false); } }
}
}
void mc::explore(Ctx& c) {
  const auto& A = atoms(); const int L = c.thorough ? 4 : 3;
  for (int how : {0, 1, 2, 4, 5, 6}) { c.unit(cat("strings up to 1 how ", how), [&, how] { textCase(c, "", how); for (auto& a : A) textCase(c, a, how); });
    for (size_t first = 0; first < A.size(); ++first) for (size_t second = 0; second < A.size(); ++second) if (how < 4 || c.thorough || second % 3 == first % 3) c.unit(cat("strings ", xm::show(A[first] + A[second]), "* how ", how), [&, how, first, second] {
      vector<string> level{A[first] + A[second]}; for (int n = 2; n <= L; ++n) { for (auto& s : level) if (!textCase(c, s, how)) return; if (n == L) break; vector<string> next; for (auto& s : level) for (auto& a : A) next.push_back(s + a); level.swap(next); } c.sample(cat("how ", how, " {", xm::show(level.back()), "}")); }); }
  for (int how = 0; how < 3; ++how) c.unit(cat("every byte how ", how), [&, how] { for (int b = 1; b < 256; ++b) { if (!textCase(c, string(1, char(b)), how) || !textCase(c, string("a") + char(b) + "b", how)) return; } });
  for (int how : {0, 1, 4, 5}) for (int first = 0; first < 7; ++first) c.unit(cat("look-alikes how ", how, " first ", first), [&, how, first] { const char* R = "&#x41;a"; const int n = c.thorough ? 6 : 5; vector<string> level{string(1, R[first])}; for (int k = 1; k <= n; ++k) { for (auto& s : level) if (!textCase(c, s, how)) return; if (k == n) break; vector<string> next; for (auto& s : level) for (int i = 0; i < 7; ++i) next.push_back(s + R[i]); level.swap(next); } });
  for (int how : {0, 1, 2, 4, 5, 6}) c.unit(cat("long strings how ", how), [&, how] { for (int k = 0; k < 15; ++k) for (int d = -1; d <= 1; ++d) for (const char* unit : {"a", "<", "\xc3\xa9", "\n"}) { string s; for (int i = 0; i < (1 << k) + d; ++i) s += unit; textCase(c, s, how); textCase(c, "z" + s + "z", how); }
    for (int d = 1900; d < 2100; ++d) for (const char* unit : {"&", "\xe2\x82\xac", "'", "\t"}) textCase(c, string(d, 'a') + unit + "b", how); });
  for (int n = 0; n <= (c.thorough ? 6 : 5); ++n) for (int part = 0; part < (n < 4 ? 1 : 24); ++part) c.unit(cat("trees ", n, " part ", part), [&, n, part] { int i = 0; bool stop = false; vector<M> acc; forests(n, 3, [&](vector<M>& ch) { if (stop || i++ % (n < 4 ? 1 : 24) != part) return; M r = elem("gear"); r.ch = ch; vector<M> doc{r}; if (n < 5) { doc.insert(doc.begin(), M{xm::DECL, n % 2 ? "1.0|UTF-8|" : "1.0||no", {}, {}}); doc.insert(doc.begin() + 1, M{xm::COMM, "head", {}, {}}); } stop = !roundTrip(c, doc, [&] { return "tree " + xm::canon(doc); }); }, acc, false); });
  // the same document written by hand with other white space, quotes and empty-element notation
  const vector<vector<string>> hand = {
    {"<?xml", "+", "version", "~", "=", "~", "\"1.0\"", "~", "encoding", "=", "'UTF-8'", "~", "?>", "~", "<!--c-->", "~", "<gear", "+", "k", "~", "=", "~", "\"v w\"", "~", ">", "~", "<a", "~", "/>", "~", "</gear>", "~"},
    {"~", "<gear", "~", ">", "~", "<a", "+", "x", "~", "=", "~", "'1'", "+", "y", "=", "\"2\"", "~", "/>", "~", "<!-- c -->", "~", "<b", "~", ">", "~", "text", "+", "more", "~", "</b>", "~", "<c", "~", ">", "~", "</c>", "~", "</gear>", "~"},
    {"<gear>", "~", "one", "~", "<b", "~", "/>", "~", "two", "+", "three", "~", "<!-- -->", "~", "four", "~", "</gear>", "~"},
    {"~", "<!DOCTYPE gear>", "~", "<gear", "~", ">", "~", "<d", "+", "n", "~", "=", "~", "\"a  b\"", "~", "/>", "~", "<d", "+", "n", "=", "'<>'", "~", "/>", "~", "</gear>", "~", "<!--end-->", "~"},
    {"<gear", "+", "a", "=", "\"&#65;&#x42;&lt;&amp;&quot;\"", "~", ">", "~", "&gt;", "+", "&#67;", "+", "&apos;", "~", "</gear>"},
    {"<gear>", "<detectors>", "~", "<detector", "+", "name", "~", "=", "~", "\"T\"", "+", "geartype", "~", "=", "~", "'G'", "~", ">", "~", "<p", "+", "value", "=", "\"\"", "~", "/>", "~", "</detector>", "~", "</detectors>", "~", "</gear>"} };
  const char* WS[] = {"", " ", "\n", "\t", "\r\n", "  \n ", "\r"};
  for (size_t h = 0; h < hand.size(); ++h) for (size_t first = 0; first < hand[h].size(); ++first) if (hand[h][first] == "~" || hand[h][first] == "+") c.unit(cat("white space document ", h, " place ", first), [&, h, first] {
    const auto& T = hand[h]; vector<int> ch(T.size(), -1); string base; auto text = [&] { string s; for (size_t i = 0; i < T.size(); ++i) s += T[i] == "~" ? (ch[i] < 0 ? "" : WS[ch[i]]) : T[i] == "+" ? (ch[i] < 1 ? " " : WS[ch[i]]) : T[i]; return s; };
    auto load = [&](const string& s, string& err) { string f = c.tmpdir + "/h.xml"; rt::spit(f, s); TiXmlDocument d(f); if (!d.LoadFile()) { err = d.ErrorDesc(); return string("not loaded"); } return xm::readDoc(d, err); };
    string e0; base = load(text(), e0); if (!c.check(e0.empty(), "hand-written-document-refused", [&] { return cat("document ", h, ": ", e0); })) return;
    std::function<bool(size_t, int)> rec = [&](size_t i, int left) -> bool { { string s = text(), err; auto at = [&] { return "document " + xm::show(s); }; c.now(at()); c.state(s); c.trace(); string got = load(s, err); if (!c.check(got == base && err.empty(), "layout-of-the-file-matters", [&] { return at() + ": " + got + " instead of " + base + " " + err; })) return false; }
      if (!left) return true; for (size_t j = i; j < T.size(); ++j) if (T[j] == "~" || T[j] == "+") { for (int w = 1; w < 7; ++w) { ch[j] = w; if (!rec(j + 1, left - 1)) return false; } ch[j] = -1; } return true; };
    for (int w = 1; w < 7; ++w) { ch[first] = w; if (!rec(first + 1, c.thorough ? 2 : 1)) return; } });
  c.unit("numbers", [&] { vector<double> D = {0, 1, -1, 0.1, 1. / 3, 2. / 3, 1e-300, 1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789, 4e7, 1e15, 1e16, 1e17, 9007199254740993., 0.30000000000000004, -0.1, 3.141592653589793, 1e-5, 12345678901234567890., 100, 1e6, 999999.9999999999, 1.0000000000000002, 2.5, 1e22, 1e23}; int I[] = {0, 1, -1, 7, 10, 100, 65535, 65536, 2147483647, -2147483647, -2147483647 - 1, 123456789};
    string f = c.tmpdir + "/n.xml"; for (double d : D) { c.now("double " + num(d)); c.state("d" + cat(std::hexfloat, d)); TiXmlDocument x(f); TiXmlElement e("gear"); e.SetDoubleAttribute("v", d); x.InsertEndChild(e); c.check(x.SaveFile(), "cannot-be-written", [&] { return "double"; }); TiXmlDocument r(f); double g = 0, g2 = 0; bool ok = r.LoadFile() && r.RootElement() && r.RootElement()->Attribute("v", &g) && r.RootElement()->QueryDoubleAttribute("v", &g2) == TIXML_SUCCESS; c.check(ok && g == d && g2 == d && r.RootElement()->FirstAttribute()->DoubleValue() == d, "number-changed", [&] { return cat("double ", num(d), " read as ", num(g)); });
      TiXmlElement e2("gear"); TiXmlDocument x2(f); e2.SetAttribute("w", "x"); e2.SetAttribute("v", "old"); e2.SetDoubleAttribute("v", d); x2.InsertEndChild(e2); x2.SaveFile(); TiXmlDocument r2(f); g = 0; c.check(r2.LoadFile() && r2.RootElement()->Attribute("v", &g) && g == d, "number-changed", [&] { return cat("double over text ", num(d)); }); }
    for (int d : I) { c.now(cat("int ", d)); c.state(cat("i", d)); TiXmlDocument x(f); TiXmlElement e("gear"); e.SetAttribute("v", d); x.InsertEndChild(e); x.SaveFile(); TiXmlDocument r(f); int g = 0, g2 = 0; bool ok = r.LoadFile() && r.RootElement() && r.RootElement()->Attribute("v", &g) && r.RootElement()->QueryIntAttribute("v", &g2) == TIXML_SUCCESS; c.check(ok && g == d && g2 == d, "number-changed", [&] { return cat("int ", d, " read as ", g); }); } });
  c.unit("streams", [&] { auto trees = [&](const vector<M>& doc) { TiXmlDocument d; for (auto& m : doc) d.LinkEndChild(xm::make(m)); std::ostringstream o; o << d; string s1; s1 << d; auto at = [&] { return "stream of " + xm::canon(doc); }; c.now(at()); c.state("stream" + xm::canon(doc)); c.check(o.str() == s1, "stream-and-string-differ", at);
      TiXmlDocument r; r.Parse(s1.c_str()); string err, got = xm::readDoc(r, err); c.check(!r.Error() && got == xm::canon(xm::asRead(doc)), "differs-after-reading", [&] { return at() + ": " + got; }); };
    vector<M> acc; for (int n = 0; n <= 3; ++n) forests(n, 3, [&](vector<M>& ch) { M r = elem("gear"); r.ch = ch; trees({r}); }, acc, false); for (auto& a : A) for (auto& b : A) { M e = elem("gear"); e.at = {{"v", a + b}}; e.ch.push_back(M{xm::TEXT, a + b, {}, {}}); trees({M{xm::DECL, "1.0|UTF-8|yes", {}, {}}, e}); } });
}
