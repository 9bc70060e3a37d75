#include "mc.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <cstdlib>
#include <map>
#include <set>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace {

const size_t NSLOT = size_t(1) << 24;   // distinct-state table (lazily backed)
struct alignas(128) Worker {
  std::atomic<uint64_t> unitIndex;      // unit being executed (index + 1), 0 = none
  std::atomic<uint64_t> progress;       // changes whenever the unit gets on
  std::atomic<uint64_t> transitions, traces, stateCalls;
  std::atomic<uint64_t> done;           // units finished
  char key[1536];
  char now[1024];
};
const size_t NUNIT = size_t(1) << 22;
struct Shared {
  std::atomic<uint64_t> units, distinct, overflow, failCount, samples;
  Worker w[64];
  std::atomic<unsigned char> claimed[NUNIT];   // unit taken by a worker
  std::atomic<uint64_t> table[NSLOT];
};
Shared* S = nullptr;
int me = -1, nworkers = 1;
uint64_t unitCounter = 0;
std::string onlyUnit; bool haveOnly = false;
std::string rundir;
int failFd = -1, sampleFd = -1;
std::map<std::string, int> localKinds;

// only the worker itself writes its counters
void bump(std::atomic<uint64_t>& a, uint64_t n = 1) { a.store(a.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
uint64_t nowMs() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h ? h : 1;
}
void copyTo(char* d, size_t n, const std::string& s) {
  size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0;
}
std::string oneline(std::string s) { for (char& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
std::string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
}

void Ctx::unit(const std::string& key, const std::function<void()>& body) {
  uint64_t idx = ++unitCounter;
  if (haveOnly) { if (key != onlyUnit) return; }
  else {
    if (idx >= NUNIT) { fprintf(stderr, "too many units\n"); _exit(3); }
    unsigned char z = 0; if (S->claimed[idx].load(std::memory_order_relaxed) || !S->claimed[idx].compare_exchange_strong(z, 1)) return;
  }
  Worker& w = S->w[me];
  copyTo(w.key, sizeof w.key, key);
  w.now[0] = 0;
  w.progress++;
  w.unitIndex = idx;
  S->units++;
  try { body(); }
  catch (std::exception& e) { fail(std::string("unexpected-exception"), cat(w.now, " : ", typeid(e).name(), " ", e.what())); }
  catch (...) { fail("unexpected-exception", cat(w.now, " : unknown type")); }
  w.unitIndex = 0;
  w.done++;
}
void Ctx::state(const std::string& canon) {
  Worker& w = S->w[me]; bump(w.stateCalls); bump(w.progress);
  uint64_t h = fnv(canon);
  for (size_t i = 0; i < 64; ++i) {
    std::atomic<uint64_t>& a = S->table[(h + i) & (NSLOT - 1)];
    uint64_t v = a.load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) { if (a.compare_exchange_strong(v, h)) { S->distinct++; return; } if (v == h) return; }
  }
  S->overflow++;
}
void Ctx::transitions(uint64_t n) { bump(S->w[me].transitions, n); }
void Ctx::trace(uint64_t n) { bump(S->w[me].traces, n); }
void Ctx::sample(const std::string& t) {
  if (S->samples.fetch_add(1) >= 12) return;
  std::string l = oneline(t).substr(0, 1500) + "\n";
  if (write(sampleFd, l.data(), l.size())) {}
}
void Ctx::fail(const std::string& kind, const std::string& at) {
  S->failCount++;
  if (localKinds[kind]++ >= 50) return;
  std::string l = oneline(kind) + "\t" + oneline(S->w[me].key) + "\t" + oneline(at) + "\n";
  if (write(failFd, l.data(), l.size())) {}
}
void Ctx::now(const std::string& what) { copyTo(S->w[me].now, sizeof S->w[me].now, what); bump(S->w[me].progress); }

namespace {
struct Fail { std::string kind, unit, at; };

void rmrf(const std::string& dir) {   // only ever called on our own scratch directories below rundir
  if (dir.compare(0, rundir.size(), rundir) != 0) return;
  std::string cmd = "rm -rf -- '" + dir + "'";
  if (system(cmd.c_str())) {}
}

int spawn(int idx, bool thorough) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p) return p;
  me = idx;
  std::string d = rundir + "/w" + std::to_string(idx);
  mkdir(d.c_str(), 0755);
  int e = open((rundir + "/stderr." + std::to_string(idx)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (e >= 0) dup2(e, 2);
  int o = open("/dev/null", O_WRONLY);
  if (o >= 0) dup2(o, 1);
  failFd = open((rundir + "/fails").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  sampleFd = open((rundir + "/samples").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  Ctx c; c.thorough = thorough; c.tmpdir = d;
  explore(c);
  _exit(0);
}

std::string tail(const std::string& f, size_t n) {
  std::ifstream in(f); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error");
  if (p == std::string::npos) p = s.find("Assertion");
  if (p != std::string::npos && p > 60) p -= 60; else if (p == std::string::npos) p = s.size() > n ? s.size() - n : 0;
  return s.substr(p, n);
}
void addFail(const Fail& f) {
  std::ofstream o(rundir + "/fails", std::ios::app);
  o << oneline(f.kind) << "\t" << oneline(f.unit) << "\t" << oneline(f.at) << "\n";
}
}
}  // namespace mc

int main(int argc, char** argv) {
  using namespace mc;
  bool thorough = false; std::string evidence, replayFile, replayDir = ".", known; int seed = 1;
  double unitLimit = 60; const bool failFast = getenv("MC_FAILFAST");   // stop at the first failure: only for testing the checks themselves
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough") thorough = true;
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay") replayFile = next();
    else if (a == "--replay-dir") replayDir = next();
    else if (a == "--known") known = next();
    else if (a == "--rundir") rundir = next();
    else if (a == "--seed") seed = atoi(next().c_str());
    else if (a == "--unit") { onlyUnit = next(); haveOnly = true; }
    else if (a == "--jobs") nworkers = atoi(next().c_str());
    else if (a == "--unit-limit") unitLimit = atof(next().c_str());
  }
  if (nworkers < 1) nworkers = 1;
  if (nworkers > 64) nworkers = 64;
  if (!replayFile.empty()) {
    std::ifstream in(replayFile); std::string l;
    while (std::getline(in, l)) if (l.compare(0, 6, "unit: ") == 0) { onlyUnit = l.substr(6); haveOnly = true; }
  }
  if (haveOnly) nworkers = 1;
  auto t0 = std::chrono::steady_clock::now();
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }

  std::vector<pid_t> pid(nworkers, 0);
  for (int i = 0; i < nworkers; ++i) pid[i] = spawn(i, thorough);
  int alive = nworkers, crashes = 0; bool stopped = false;
  std::set<std::string> hung; std::vector<uint64_t> seen(nworkers, 0), since(nworkers, nowMs());
  while (alive) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(20000);
      if (failFast && S->failCount) { for (pid_t q : pid) if (q) kill(q, SIGKILL); stopped = true; break; }
      for (int i = 0; i < nworkers; ++i) {
        Worker& w = S->w[i];
        uint64_t pr = w.progress + w.transitions; if (pr != seen[i]) { seen[i] = pr; since[i] = nowMs(); }
        if (pid[i] && w.unitIndex && nowMs() - since[i] > uint64_t(unitLimit * 1000) * (hung.count(w.key) ? 3 : 1)) kill(pid[i], SIGKILL);
      }
      continue;
    }
    if (p < 0) break;
    int i = -1; for (int k = 0; k < nworkers; ++k) if (pid[k] == p) i = k;
    if (i < 0) continue;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (ok) { pid[i] = 0; --alive; continue; }
    Worker& w = S->w[i];
    uint64_t idx = w.unitIndex;
    if (idx == 0) { std::cerr << "worker died outside a unit\n" << tail(rundir + "/stderr." + std::to_string(i), 3000) << "\n"; return 2; }
    bool timedOut = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    if (timedOut && !hung.count(w.key)) {     // run it again with three times the limit before calling it a hang
      hung.insert(w.key); S->claimed[idx] = 0; since[i] = nowMs(); S->units--; pid[i] = spawn(i, thorough); continue;
    }
    std::string why = timedOut ? "hang" : "crash";
    addFail({why, w.key, cat("while: ", w.now, " | ", timedOut ? "no progress" : tail(rundir + "/stderr." + std::to_string(i), 1200))});
    S->failCount++;
    ++crashes;
    if (timedOut) { std::cerr << "a unit never finishes; stopping early\n"; stopped = true; for (pid_t q : pid) if (q && q != p) kill(q, SIGKILL); break; }
    rmrf(rundir + "/w" + std::to_string(i));
    if (crashes > 200) { std::cerr << "too many crashing units; stopping early\n"; for (pid_t q : pid) if (q && q != p) kill(q, SIGKILL); break; }
    w.unitIndex = 0;
    since[i] = nowMs(); pid[i] = spawn(i, thorough);
  }

  // ---- collect ------------------------------------------------------------------------------------
  std::vector<Fail> fails;
  { std::ifstream in(rundir + "/fails"); std::string l;
    while (std::getline(in, l)) {
      size_t a = l.find('\t'), b = a == std::string::npos ? a : l.find('\t', a + 1);
      if (b == std::string::npos) continue;
      fails.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
    } }
  std::sort(fails.begin(), fails.end(), [](const Fail& x, const Fail& y) {
    if (x.kind != y.kind) return x.kind < y.kind;
    if (x.unit.size() != y.unit.size()) return x.unit.size() < y.unit.size();
    if (x.unit != y.unit) return x.unit < y.unit; return x.at < y.at; });
  // known findings: "KNOWN property=<id> kind=<kind> unit=<substring> at=<substring> :: text"
  struct Known { std::string kind, unit, at, text; bool hit; }; std::vector<Known> kf;
  { std::ifstream in(known); std::string l, head = std::string("KNOWN property=") + PROPERTY + " ";
    while (std::getline(in, l)) {
      if (l.compare(0, head.size(), head) != 0) continue;
      Known k; k.hit = false; size_t t = l.find(" :: "); k.text = t == std::string::npos ? "" : l.substr(t + 4);
      std::string b = l.substr(0, t);
      auto get = [&](const char* f, const char* g) { size_t s = b.find(f); if (s == std::string::npos) return std::string(); s += strlen(f);
        size_t e = g ? b.find(g, s) : std::string::npos; return b.substr(s, e == std::string::npos ? e : e - s); };
      k.kind = get(" kind=", " unit="); k.unit = get(" unit=", " at="); k.at = get(" at=", nullptr);
      kf.push_back(k);
    } }
  std::vector<Fail> rep; std::map<std::string, int> perKind; uint64_t unlisted = 0, listed = 0;
  for (auto& f : fails) {
    bool isKnown = false;
    for (auto& k : kf) if (k.kind == f.kind && f.unit.find(k.unit) != std::string::npos && f.at.find(k.at) != std::string::npos) { k.hit = true; isKnown = true; }
    if (isKnown) { ++listed; continue; }
    ++unlisted;
    if (perKind[f.kind]++ == 0) rep.push_back(f);
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  for (auto& k : kf) if (k.hit) std::cout << "KNOWN-FINDING: property=" << PROPERTY << " " << k.text << "\n";
  int n = 0;
  for (auto& f : rep) {
    if (++n > 12) break;
    std::string path = replayDir + "/" + PROPERTY + "-" + std::to_string(n) + ".replay";
    std::ofstream o(path);
    o << "property: " << PROPERTY << "\nkind: " << f.kind << "\nunit: " << f.unit << "\nat: " << f.at
      << "\nrerun: ./check.py " << PROPERTY << " --replay " << path << "\n";
    o.close();
    std::cout << "  [" << f.kind << "] unit=" << f.unit << " at=" << f.at.substr(0, 1500) << " (" << perKind[f.kind] << " recorded)\n";
    std::cout << "VIOLATION property=" << PROPERTY << " replay=" << path << "\n";
  }
  uint64_t nUnits = S->units, nSt = S->distinct, nTr = 0, nTraces = 0, nEval = 0;
  for (int i = 0; i < nworkers; ++i) { nTr += S->w[i].transitions; nTraces += S->w[i].traces; nEval += S->w[i].stateCalls; }
  std::cout << PROPERTY << ": units=" << nUnits << " cases=" << nEval << " distinct_states=" << nSt << " transitions=" << nTr << " traces=" << nTraces
            << " failures=" << unlisted << " known=" << listed << " wall=" << wall << "s\n";
  if (S->overflow) std::cout << "note: distinct-state table overflow " << S->overflow << " (count is a lower bound)\n";
  if (haveOnly && nUnits == 0) std::cout << "note: no such unit\n";
  if (!haveOnly && (nUnits == 0 || nSt == 0)) { std::cerr << "vacuous exploration\n"; return 2; }
  if (!evidence.empty() && !haveOnly) {
    std::ostringstream e; e.precision(6);
    std::vector<std::string> samples; { std::ifstream in(rundir + "/samples"); std::string l; while (std::getline(in, l)) samples.push_back(l); }
    e << "{\n \"property\": " << jstr(PROPERTY) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << seed
      << ",\n \"level\": " << jstr(LEVEL) << ",\n \"coverage\": {\n  \"units\": " << nUnits;
    if (std::string(LEVEL) == "model_checking")
      e << ",\n  \"states\": " << nSt << ",\n  \"transitions\": " << nTr << ",\n  \"traces_validated_against_impl\": " << nTraces;
    else
      e << ",\n  \"evaluations\": " << nEval << ",\n  \"distinct_nontrivial\": " << nSt << ",\n  \"comparisons\": " << nTr;
    e << ",\n  \"exhaustive\": " << (crashes > 200 || stopped ? "false" : "true")
      << ",\n  \"rule\": " << jstr(RULE) << ",\n  \"bounds\": " << jstr(BOUNDS) << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) e << (i ? ", " : "") << jstr(samples[i]);
    e << "]\n },\n \"violations\": " << unlisted << ",\n \"known_findings\": " << listed << ",\n \"wall_s\": " << wall << "\n}\n";
    std::ofstream(evidence) << e.str();
  }
  return rep.empty() ? 0 : 1;
}
