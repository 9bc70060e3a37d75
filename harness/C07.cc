// C07: pad numbering is a bijection in every pad layout.
#include "layouts.h"
#include <set>
namespace mc {
const char* const PROPERTY = "C07";
const char* const LEVEL = "exploration";
const char* const RULE = "every layout configuration of the grid (four layout types); a case is one (configuration, row, column) triple with row and column from below to above the valid range; all are non-trivial because each is compared with the reference row model";
const char* const BOUNDS = "row lists up to length 3 (quick) / 4 (thorough) over 5-6 row kinds, repeat counts 0..3; rows -2..n+1, columns -2..n+1; largest layouts: 11 numbers of rows up to 70000 and 9 numbers of pads up to 200000 around the limits of the index";
using namespace lay; using namespace gear;
static bool throws(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return true; } return false; }
void explore(Ctx& c) {
  for (auto& cfg : configs(c.thorough ? 2 : 1)) c.unit(cfg.key, [&] {
    std::unique_ptr<PadRowLayout2D> l(cfg.make()); const Model& m = cfg.m;
    c.trace();
    c.check(l->getNRows() == (int)m.rows.size(), "number-of-rows", [&] { return cat(l->getNRows(), " expected ", m.rows.size()); });
    c.check(l->getNPads() == m.nPads(), "number-of-pads", [&] { return cat(l->getNPads(), " expected ", m.nPads()); });
    c.check(l->getPadLayoutImplType() == m.type && l->getCoordinateType() == (m.polar ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN) && l->getPadLayoutType() == l->getCoordinateType() && l->getPadShape() == PadRowLayout2D::RECTANGLE, "layout-type", [&] { return std::string("type"); });
    std::set<int> seen; int listed = 0; int prev = -1;
    for (int row = 0; row < (int)m.rows.size(); ++row) {
      const MRow& r = m.rows[row];
      // listing twice: the second call uses the cached list
      for (int pass = 0; pass < 2; ++pass) {
        const std::vector<int> pads = l->getPadsInRow(row);
        c.check((int)pads.size() == r.n, "pads-in-row-count", [&] { return cat("row ", row, " lists ", pads.size(), " expected ", r.n); });
        if (pass == 0) { listed += pads.size(); for (int p : pads) { c.check(seen.insert(p).second, "duplicate-index", [&] { return cat("row ", row, " index ", p); }); } }
        for (int k = 0; k < (int)pads.size(); ++k)
          c.check(l->getRowNumber(pads[k]) == row && l->getPadNumber(pads[k]) == k, "listed-index-row-column", [&] { return cat("row ", row, " pos ", k, " -> ", l->getRowNumber(pads[k]), ",", l->getPadNumber(pads[k])); });
      }
      c.check(near(l->getRowHeight(row), r.height(), 1e-9), "row-height", [&] { return cat("row ", row, " ", l->getRowHeight(row), " expected ", r.height()); });
      for (int k = -2; k <= r.n + 1; ++k) {
        c.state(cat(cfg.key, "/", row, "/", k));
        if (k >= 0 && k < r.n) {
          int idx = l->getPadIndex(row, k);
          c.check(l->getRowNumber(idx) == row && l->getPadNumber(idx) == k, "index-round-trip", [&] { return cat("(", row, ",", k, ") -> ", idx, " -> (", l->getRowNumber(idx), ",", l->getPadNumber(idx), ")"); });
          c.check(seen.count(idx) == 1, "index-not-listed", [&] { return cat("(", row, ",", k, ") -> ", idx); });
          c.check(idx > prev, "index-order", [&] { return cat("(", row, ",", k, ") -> ", idx, " after ", prev); }); prev = idx;
          Vector2D ctr = l->getPadCenter(idx);
          double a = m.polar ? ctr[0] : ctr[1], b = m.polar ? ctr[1] : ctr[0];
          c.check(near(a, r.mid(), 1e-8) && near(b, r.center(k), 1e-8), "pad-centre", [&] { return cat("(", row, ",", k, ") centre ", ctr[0], ",", ctr[1], " expected ", r.mid(), " ", r.center(k)); });
          c.check(near(l->getPadPitch(idx), r.pitch, 1e-8), "pad-pitch", [&] { return cat("(", row, ",", k, ") ", l->getPadPitch(idx), " expected ", r.pitch); });
          c.check(near(l->getPadWidth(idx), r.width, 1e-8), "pad-width", [&] { return cat("(", row, ",", k, ") ", l->getPadWidth(idx), " expected ", r.width); });
          c.check(near(l->getPadHeight(idx), r.padH, 1e-8), "pad-height", [&] { return cat("(", row, ",", k, ") ", l->getPadHeight(idx), " expected ", r.padH); });
        } else {
          int got = 0;
          c.check(throws([&] { got = l->getPadIndex(row, k); }), "bad-column-accepted", [&] { return cat("(", row, ",", k, ") -> ", got); });
        }
      }
    }
    c.check(listed == l->getNPads(), "listed-total", [&] { return cat(listed, " vs ", l->getNPads()); });
    for (int row : {-3, -1, (int)m.rows.size(), (int)m.rows.size() + 1, 40000}) for (int k : {0, -1, 1}) {
      c.state(cat(cfg.key, "/", row, "/", k)); int got = 0;
      c.check(throws([&] { got = l->getPadIndex(row, k); }), "bad-row-accepted", [&] { return cat("(", row, ",", k, ") -> ", got); });
      c.check(l->getPadsInRow(row).empty(), "bad-row-lists-pads", [&] { return cat("row ", row); });
    }
    c.sample(cat(cfg.key, ": ", m.rows.size(), " rows, ", listed, " pads"));
  });
  // empty layouts and rejected rows
  for (int kind = 0; kind < 2; ++kind) c.unit(cat("empty", kind), [&] {
    std::unique_ptr<PadRowLayout2D> l(kind ? (PadRowLayout2D*)new VersatileDiskRowLayout(10) : new RectangularPadRowLayout(0, 10, 0));
    c.state(cat("empty", kind));
    c.check(l->getNRows() == 0 && l->getNPads() == 0, "empty-layout-counts", [&] { return std::string("empty"); });
    for (int r : {-1, 0, 1}) { c.check(throws([&] { l->getPadIndex(r, 0); }), "bad-row-accepted", [&] { return cat("empty layout row ", r); });
      c.check(l->getPadsInRow(r).empty(), "bad-row-lists-pads", [&] { return cat("empty layout row ", r); }); }
  });
  c.unit("rejected-rect-row", [&] {
    for (int before = 0; before < 3; ++before) for (int bad = 0; bad < 2; ++bad) {
      RectangularPadRowLayout l(0, 10, 0);
      for (int i = 0; i < before; ++i) l.addRow(2, 3, 2, 2, 0, 0, 0);
      std::string k = cat("rect before=", before, " bad=", bad); c.state(k);
      bool t = throws([&] { bad ? l.addRow(1, 3, 2, 4, 3, 0, 0) : l.addRow(1, 6, 2, 2, 0, 0, 0); });
      c.check(t, "impossible-row-accepted", [&] { return k; });
      c.check(l.getNRows() == 2 * before && l.getNPads() == 6 * before, "rejected-row-changed-counts", [&] { return cat(k, " rows ", l.getNRows(), " pads ", l.getNPads()); });
      c.check(near(l.getPlaneExtent()[3], 4. * before), "rejected-row-changed-extent", [&] { return k; });
    }
  });
  c.unit("rejected-versatile-row", [&] {
    for (int before = 0; before < 3; ++before) for (int bad = 0; bad < 6; ++bad) {
      VersatileDiskRowLayout l(10);
      for (int i = 0; i < before; ++i) l.addRow(3, 2, 2, 0, 0, 0, 2);
      std::string k = cat("vers before=", before, " bad=", bad); c.state(k);
      bool t = throws([&] { switch (bad) { case 0: l.addRow(0, 1, 1); break; case 1: l.addRow(1, -1, 1); break; case 2: l.addRow(2, 1, 0); break;
        case 3: l.addRow(2, 1, 1, 0, 2); break; case 4: l.addRow(2, 1, 1, 0, 0, 0, 0); break; default: l.addRow(5, 60, 2, 0, 0, 0, 1); } });
      c.check(t, "impossible-row-accepted", [&] { return k; });
      c.check(l.getNRows() == 2 * before && l.getNPads() == 6 * before, "rejected-row-changed-counts", [&] { return cat(k, " rows ", l.getNRows(), " pads ", l.getNPads()); });
      c.check(near(l.getPlaneExtent()[1], 10 + 4. * before), "rejected-row-changed-extent", [&] { return k; });
    }
  });
  // the largest layouts: the index has room for a limited number of rows and pads; what does not fit must be refused
  struct Big { const char* name; std::function<PadRowLayout2D*(int rows, int pads)> make; };
  std::vector<Big> bigs = {
    {"rect", [](int r, int n) { auto l = new RectangularPadRowLayout(0, n, 0); try { l->addRow(r, n, 0.5, 1); } catch (...) { delete l; throw; } return l; }},
    {"rect one by one", [](int r, int n) { auto l = new RectangularPadRowLayout(0, n, 0); try { for (int i = 0; i < r; ++i) l->addRow(1, n, 0.5, 1); } catch (...) { delete l; throw; } return l; }},
    {"rect repeated", [](int r, int n) { auto l = new RectangularPadRowLayout(0, n, 0); try { l->addRow(1, n, 0.5, 1); l->repeatRows(r); } catch (...) { delete l; throw; } return l; }},
    {"versatile", [](int r, int n) { auto l = new VersatileDiskRowLayout(10); try { l->addRow(n, 1e-4, 1, 0, 0, 0, r); } catch (...) { delete l; throw; } return l; }},
    {"fixed angle", [](int r, int n) { return new FixedPadAngleDiskLayout(10, 10. + r, r, 0, 6, n); }},
    {"fixed size", [](int r, int n) { return n > 1000 ? new FixedPadSizeDiskLayout(10, 11, 1, 2 * M_PI * 10.5 / (n + 0.5), 1, 0) : new FixedPadSizeDiskLayout(1000, 1000. + r, 1, 2 * M_PI * (1000. + r) / n, r, 0); }} };
  for (auto& b : bigs) for (int kind = 0; kind < 2; ++kind) c.unit(cat("largest ", b.name, kind ? " rows" : " pads"), [&] {
    for (int n : kind ? std::vector<int>{1000, 32000, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000} : std::vector<int>{1000, 60000, 65535, 65536, 65537, 65538, 70000, 131072, 200000}) {
      int rows = kind ? n : 1, pads = kind ? 3 : n; std::string key = cat(b.name, " ", rows, " rows ", pads, " pads"); c.state(key); c.now(key);
      std::unique_ptr<PadRowLayout2D> l; try { l.reset(b.make(rows, pads)); } catch (std::exception&) { c.check(rows > 32000 || pads > 60000, "possible-layout-refused", [&] { return key; }); continue; }
      int nr = l->getNRows(); c.check(nr == rows, "number-of-rows", [&] { return cat(key, " got ", nr); });
      std::set<int> seen; long total = 0; int shown = 0;
      for (int r = 0; r < nr && shown < 3; ++r) { int np = 0; bool few = r == 0 || r == nr / 2 || r >= nr - 2; if (few || nr < 100) { const std::vector<int>& v = l->getPadsInRow(r); np = v.size(); } else { for (int k = 4; k >= 0 && np == 0; --k) try { l->getPadIndex(r, k); np = k + 1; } catch (std::exception&) {} }
        total += np;
        for (int k = 0; k < np && shown < 3; ++k) { if (!few && k != 0 && k != np - 1) continue; int i = l->getPadIndex(r, k); bool ok = seen.insert(i).second && l->getRowNumber(i) == r && l->getPadNumber(i) == k;
          if (few) ok = ok && l->getPadsInRow(r)[k] == i;
          c.check(ok, "index-round-trip", [&] { return cat(key, " (", r, ",", k, ") -> ", i, " -> (", l->getRowNumber(i), ",", l->getPadNumber(i), ")"); }); if (!ok) ++shown; } }
      if (shown < 3) c.check(l->getNPads() == total, "number-of-pads", [&] { return cat(key, " got ", l->getNPads(), " listed ", total); });
    }
    c.sample(cat(b.name, kind ? " with up to 70000 rows" : " with up to 200000 pads in a row"));
  });
}
}
