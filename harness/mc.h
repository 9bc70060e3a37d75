// Bounded exhaustive exploration framework shared by all property harnesses.
//
// A harness enumerates *units* (a unit is one configuration, or one operation-history prefix).  Units are
// distributed over forked worker processes; a unit that crashes, aborts under a sanitizer or hangs is
// reported as a violation of the property at that unit and exploration resumes with the next unit.
// Everything is deterministic: the same unit key always executes the same calls.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <typeinfo>

namespace mc {

struct Ctx {
  bool thorough = false;
  std::string tmpdir;                 // private scratch directory of this worker
  // ---- enumeration -------------------------------------------------------------------------------
  void unit(const std::string& key, const std::function<void()>& body);
  // ---- counting ----------------------------------------------------------------------------------
  void state(const std::string& canon);          // a canonical state / case; distinct ones are counted
  void transitions(uint64_t n = 1);              // operations executed on the real code and compared
  void trace(uint64_t n = 1);                    // complete histories / configurations replayed on the real code
  void sample(const std::string& text);          // keep a few written-out cases for the evidence file
  // ---- verdict -----------------------------------------------------------------------------------
  // kind: short stable label of what is broken (one VIOLATION line per kind); at: the case inside the unit
  void fail(const std::string& kind, const std::string& at);
  bool check(bool ok, const std::string& kind, const std::function<std::string()>& at) {
    transitions();
    if (!ok) fail(kind, at());
    return ok;
  }
  // label of what is executing now; shown when the unit crashes
  void now(const std::string& what);
};

// Each harness defines these.
extern const char* const PROPERTY;
extern const char* const LEVEL;      // exploration | fault_enumeration | model_checking
extern const char* const RULE;       // how cases are made, what makes one non-trivial
extern const char* const BOUNDS;     // stated bounds
void explore(Ctx& c);

// ---- small helpers ---------------------------------------------------------------------------------
inline bool near(double a, double b, double tol = 1e-6) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1.0 + std::fmax(std::fabs(a), std::fabs(b)));
}
inline bool nearAbs(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.10g", d == 0 ? 0.0 : d); return b; }

template <class... A> std::string cat(const A&... a) {
  std::ostringstream s; s.precision(12);
  (void)std::initializer_list<int>{((s << a), 0)...};
  return s.str();
}
}
