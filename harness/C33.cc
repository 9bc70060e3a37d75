// C33: a description is written completely or the failure is reported.
#include "rt.h"
#include "full.h"
#include "gearxml/MergeXML.h"
#include "gearimpl/GearParametersImpl.h"
#include <limits>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace gear; using namespace mc; using std::vector; using std::string;
const char* const mc::PROPERTY = "C33"; const char* const mc::LEVEL = "fault_enumeration";
const char* const mc::RULE = "case = one description (or pair of files to merge), one fault and its position; the real writer runs under the fault; if it reports success the file must be exactly the bytes of the fault-free write; afterwards the description is compared completely with its state before and written again without fault; distinct = different (description, fault, position)";
const char* const mc::BOUNDS = "descriptions: 21 (every detector type, empty, everything together); faults: file size limit of the kernel at every byte of the file (quick: every 16th for files above 8000 bytes), stream accepting no more after every (quick: every 5th to 9th) byte with buffers of 0, 64 and 4096 bytes, every single write call failing once and the following ones succeeding, every write call accepting only a part, closing failing, opening failing for 5 reasons, full device, missing directory, directory, empty and over-long name, no free descriptor; 18 items the file format does not know or can hardly express (fields, pad layouts and technologies of own types, values that are no numbers, empty names) and all pairs of them, alone and before or after each detector; all pairs of successive faults at 60 (quick: 12) positions each; the same for the merger";
// ---- fault injection below the code under test: a stream under our control ---------------------------------------------------
namespace flt {
enum Kind { NONE, CUT, ONCE, SHORT, CLOSE, OPEN };
Kind kind = NONE; long pos = 0; int err = ENOSPC; int buf = 4096; bool fired = false;
struct File { int fd; long done, calls; };
ssize_t wr(void* c, const char* p, size_t n) { File* f = static_cast<File*>(c); long call = f->calls++;
  if (kind == ONCE && call == pos) { fired = true; errno = err; return 0; }
  if (kind == CUT && f->done + long(n) > pos) { n = f->done < pos ? pos - f->done : 0; fired = true; if (!n) { errno = err; return 0; } }
  if (kind == SHORT && call == pos && n > 1) { fired = true; n /= 2; }
  ssize_t w = n ? ::write(f->fd, p, n) : 0; if (w > 0) f->done += w; return w < 0 ? 0 : w; }
int cl(void* c) { File* f = static_cast<File*>(c); int r = ::close(f->fd); delete f; if (kind == CLOSE) { fired = true; errno = err; return -1; } return r; }
static char space[4096];
FILE* open(const char* name, const char* mode) { if (kind == OPEN) { fired = true; errno = err; return 0; }
  int fd = ::open(name, O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC), 0644); if (fd < 0) return 0;
  cookie_io_functions_t io = {0, wr, 0, cl}; FILE* f = fopencookie(new File{fd, 0, 0}, "w", io); if (f) setvbuf(f, buf ? space : 0, buf ? _IOFBF : _IONBF, buf); return f; }
}
extern "C" FILE* fopen(const char* name, const char* mode) { typedef FILE* (*F)(const char*, const char*); static F real = (F)dlsym(RTLD_NEXT, "fopen");
  if (flt::kind != flt::NONE && name && mode && (mode[0] == 'w' || mode[0] == 'a')) return flt::open(name, mode); return real(name, mode); }
extern "C" FILE* fopen64(const char* name, const char* mode) { return fopen(name, mode); }

namespace {
const int NDESC = 21, SLICES = 6;
std::unique_ptr<GearMgrImpl> desc(int i) { std::unique_ptr<GearMgrImpl> m(new GearMgrImpl); m->setDetectorName("det & co");
  if (i < full::NDET) full::somePars(full::addDet(*m, i, i % 3), 0);
  else if (i == full::NDET) { for (int d = 0; d < full::NDET; ++d) full::addDet(*m, d); full::somePars(full::addField(*m, 1, 2, 3), 0); full::somePars(full::addUser(*m, "user"), 1); full::addMaterial(*m, "iron", 1, 2, 3, 4, 5); }
  return m; }
// items of types the file format does not know: the write has to say so, or the file has to describe them
struct VaryingField : GearParametersImpl, BField { double s; VaryingField(double f) : s(f) {} Vector3D at(Vector3D p) const { return Vector3D(s * p.x(), 1 + s * p.y(), 3.5 - s * p.z()); } };
struct OwnRows : RectangularPadRowLayout { int t; OwnRows(int type) : RectangularPadRowLayout(-10, 10, 5), t(type) { addRow(1, 5, 2, 1.5, 6, 5.5); addRow(2, 4, 2, 1.5, 6, 5.5); } PadRowLayout2D* clone() const { return new OwnRows(*this); } int getPadLayoutImplType() const { return t; } };
const int NODD = 18;
const char* odd(GearMgrImpl& m, int i) {
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  auto module = [&](PadRowLayout2D* l) { TPCParametersImpl* p = new TPCParametersImpl(2250.5, PadRowLayout2D::CARTESIAN); TPCModuleImpl* t = new TPCModuleImpl(3, l, PadRowLayout2D::CARTESIAN, 4e7); p->addModule(t); p->setDriftVelocity(52.5); m.setTPCParameters(p); };
  auto zplanar = [&](int type) { ZPlanarParametersImpl* p = new ZPlanarParametersImpl(type, 1.5, 2.5, 100, 1, 0); p->addLayer(7, 0.1, 15, -1.5, 0.5, 50, 12, 0.2, 15.1, -1.25, 0.25, 49, 11, 0.15); return p; };
  switch (i) {
  case 0: m.setBField(new VaryingField(0)); return "uniform field of an own type";
  case 1: m.setBField(new VaryingField(0.25)); return "varying field";
  case 2: module(new OwnRows(99)); return "pad layout of an own type";
  case 3: module(new OwnRows(PadRowLayout2D::FIXEDPADANGLEDISKLAYOUT)); return "pad layout of a wrong type";
  case 4: module(new OwnRows(PadRowLayout2D::TPCMODULE)); return "pad layout that says it is a module";
  case 5: { TPCModuleImpl inner(4, new OwnRows(PadRowLayout2D::RECTANGULARPADROWLAYOUT), PadRowLayout2D::CARTESIAN, 1); module(inner.clone()); return "module in a module"; }
  case 6: { TPCParametersImpl* p = new TPCParametersImpl(2250.5, 77); p->setDriftVelocity(2); m.setTPCParameters(p); return "TPC of unknown coordinates"; }
  case 7: m.setVXDParameters(zplanar(0)); return "vertex detector of unknown technology";
  case 8: m.setSITParameters(zplanar(7)); return "silicon tracker of unknown technology";
  case 9: m.setSETParameters(zplanar(-1)); return "outer silicon tracker of unknown technology";
  case 10: { FTDParametersImpl* p = new FTDParametersImpl; for (int s : {int(FTDParameters::PIXEL), 99}) p->addLayer(5, 2, true, s, 0.2, 0.1, 0.01, 200, 2.5, 1, 50.5, 1.5, 20, 40, 100.5, 0.2, 51.5, 0.5, 19, 39, 99.5, 0.1); m.setFTDParameters(p); return "forward disks with unknown sensors"; }
  case 11: { SiPlanesParametersImpl* p = new SiPlanesParametersImpl(250, 9, 0); m.setSiPlanesParameters(p); return "telescope of unknown type"; }
  case 12: full::addField(m, nan, inf, -inf); return "field that is not a number";
  case 13: full::addMaterial(m, "odd", nan, inf, -inf, 1, 2); return "material without numbers";
  case 14: full::addUser(m, "odd")->setDoubleVals("v", vector<double>{nan, inf, -inf, 5e-324, 1.7976931348623157e308, -0.}); return "parameters that are no numbers";
  case 15: full::addUser(m, ""); return "section without name";
  case 16: full::addMaterial(m, "", 1, 2, 3, 4, 5); return "material without name";
  default: full::addUser(m, "odd")->setIntVals("v", vector<int>{std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 0}); return "extreme integers"; } }
struct Limit { rlimit old; int what; Limit(int w, rlim_t n) : what(w) { getrlimit(__rlimit_resource_t(w), &old); rlimit r = old; r.rlim_cur = n; setrlimit(__rlimit_resource_t(w), &r); } ~Limit() { setrlimit(__rlimit_resource_t(what), &old); } };
struct Fault { int kind; long pos; int err, buf; };   // kind 6: kernel file size limit
string show(const Fault& f) { static const char* n[] = {"no fault", "stream full after byte", "failing write call", "partial write call", "failing close", "failing open", "file size limit"}; return cat(n[f.kind], " ", f.pos, " (errno ", f.err, ", buffer ", f.buf, ")"); }
// true: success reported
template <class W> bool under(const Fault& f, W write) { struct Off { ~Off() { flt::kind = flt::NONE; } } off; flt::fired = false;
  if (f.kind == 6) { Limit l(RLIMIT_FSIZE, f.pos); return write(); }
  flt::kind = flt::Kind(f.kind); flt::pos = f.pos; flt::err = f.err; flt::buf = f.buf; return write(); }
}
void mc::explore(Ctx& c) {
  signal(SIGXFSZ, SIG_IGN);
  auto out = [&] { return c.tmpdir + "/w.xml"; };
  // write: performs one write to a file name, returns whether success was reported; full: the fault-free bytes; same: nothing else changed
  typedef std::function<bool(const string&)> Write;
  auto faults = [&](size_t size, int part, int slice) { vector<Fault> v; const size_t wide = c.thorough ? 1 : size > 8000 ? 16 : 1;
    if (part == 0) for (size_t k = slice * wide; k < size; k += SLICES * wide) v.push_back({6, long(k), 0, 0});
    if (part == 1) for (int buf : {0, 64, 4096}) for (size_t k = slice; k < size; k += SLICES * wide * (c.thorough ? 1 : buf == 0 ? 5 : buf == 64 ? 7 : 9)) v.push_back({flt::CUT, long(k), ENOSPC, buf});
    if (part == 2 && slice == 0) { for (int buf : {0, 64, 4096}) for (long k = 0; k <= (buf ? long(size) / buf + 1 : long(size) / 2); k += buf ? 1 : wide) { v.push_back({flt::ONCE, k, k % 2 ? EIO : ENOSPC, buf}); v.push_back({flt::SHORT, k, 0, buf}); }
      for (int e : {EIO, ENOSPC, EDQUOT}) for (int buf : {0, 64, 4096}) v.push_back({flt::CLOSE, 0, e, buf}); for (int e : {EACCES, ENOENT, ENOSPC, EMFILE, EROFS}) v.push_back({flt::OPEN, 0, e, 0}); }
    return v; };
  auto verify = [&](const string& what, bool ok, const string& bytes, const string& file) { string got; if (ok) { got = rt::slurp(file); } return c.check(!ok || got == bytes, "incomplete-file-reported-as-written", [&] { return cat(what, ": ", got.size(), " of ", bytes.size(), " bytes in the file"); }); };
  auto single = [&](const string& name, const Write& write, const string& bytes, int part, int slice, const std::function<bool(const std::function<string()>&)>& same) {
    bool first = slice == 0;
    for (const Fault& f : faults(bytes.size(), part, slice)) { auto at = [&] { return name + ", " + show(f); }; c.now(at()); c.state(at()); c.trace(); if (first) c.sample(at()); first = false;
      rt::spit(out(), "what was there before"); bool ok = under(f, [&] { return write(out()); });
      if (!verify(at(), ok, bytes, out()) || !same(at)) return;
      if (f.pos % 16 == 0 || f.kind >= flt::CLOSE) { ok = write(out()); if (!c.check(ok && rt::slurp(out()) == bytes, "cannot-be-written-after-a-failure", at)) return; } } };
  auto pairs = [&](const string& name, const Write& write, const string& bytes, const std::function<bool(const std::function<string()>&)>& same) { const long step = std::max<long>(c.thorough ? 29 : 149, bytes.size() / (c.thorough ? 60 : 12));
    for (int k1 : {6, int(flt::CUT)}) for (int k2 : {6, int(flt::CUT), int(flt::CLOSE)}) for (long a = 0; a < long(bytes.size()); a += step) for (long b = 0; b < (k2 == flt::CLOSE ? 1 : long(bytes.size())); b += step) {
      Fault f{k1, a, ENOSPC, 64}, g{k2, b, ENOSPC, 64}; auto at = [&] { return name + ", " + show(f) + ", then " + show(g); }; c.now(at()); c.state(at()); c.trace();
      bool ok = under(f, [&] { return write(out()); }); if (!verify(at(), ok, bytes, out())) return; ok = under(g, [&] { return write(out()); }); if (!verify(at(), ok, bytes, out())) return;
      ok = write(out()); if (!c.check(ok && rt::slurp(out()) == bytes, "cannot-be-written-after-a-failure", at)) return; } same([&] { return name + " after pairs"; }); };
  auto targets = [&](const string& name, const Write& write, const string& bytes, const std::function<bool(const std::function<string()>&)>& same) {
    string dir = c.tmpdir + "/dir"; mkdir(dir.c_str(), 0755); string longName(5000, 'x');
    for (string t : {string("/dev/full"), dir, c.tmpdir + "/none/o.xml", string(""), c.tmpdir + "/" + longName, c.tmpdir + "/w.xml/o.xml"}) { rt::spit(out(), "x"); auto at = [&] { return name + ", target " + (t.size() > 200 ? "over-long name" : t.substr(0, 8) == "/dev/ful" ? t : t.substr(std::min(t.size(), c.tmpdir.size()))); }; c.now(at()); c.state(at()); c.trace();
      if (!c.check(!write(t), "unwritable-target-reported-as-written", at) || !same(at)) return; }
    { auto at = [&] { return name + ", no free descriptor"; }; bool ok; int fd = dup(0); { Limit l(RLIMIT_NOFILE, fd < 0 ? 0 : fd + 0); if (fd >= 0) close(fd); ok = write(out()); } c.check(!ok || rt::slurp(out()) == bytes, "incomplete-file-reported-as-written", at); }
    rt::spit(out(), string(2 * bytes.size(), 'z')); bool ok = write(out()); c.check(ok && rt::slurp(out()) == bytes, "incomplete-file-reported-as-written", [&] { return name + ", over a longer file"; }); };
  for (int i = 0; i < NDESC; ++i) for (int part = 0; part < 5; ++part) for (int slice = 0; slice < (part < 2 ? SLICES : 1); ++slice) c.unit(cat("description ", i, " part ", part, ".", slice), [&, i, part, slice] {
    std::unique_ptr<GearMgrImpl> m = desc(i); dmp::Dump before; dmp::mgr(before, *m); rt::save(*m, out()); const string bytes = rt::slurp(out()); std::remove(out().c_str()); string name = cat("description ", i);
    if (!c.check(bytes.size() > 20 && bytes.find("</gear>") != string::npos, "nothing-written", [&] { return name; })) return;
    Write w = [&](const string& f) { try { rt::save(*m, f); return true; } catch (gear::Exception&) { return false; } };
    int n = 0; auto same = [&](const std::function<string()>& at) { if (n++ % 64) return true; dmp::Dump now; dmp::mgr(now, *m); string d = dmp::diff(before, now, 0); return c.check(d.empty(), "failed-write-changed-the-description", [&] { return at() + ": " + d; }); };
    if (part < 3) single(name, w, bytes, part, slice, same); else if (part == 3) pairs(name, w, bytes, same); else targets(name, w, bytes, same);
    n = 0; same([&] { return name + " at the end"; }); });
  for (int i = 0; i < NODD; ++i) for (int j = i; j < NODD; ++j) c.unit(cat("odd ", i, ",", j), [&, i, j] {
    for (int d = -1; d < full::NDET; ++d) for (int late = 0; late < 2; ++late) { std::unique_ptr<GearMgrImpl> m(new GearMgrImpl); m->setDetectorName("odd"); string what;
      if (d >= 0 && !late) full::addDet(*m, d);
      try { what = odd(*m, i); if (j != i) what += cat(" and ", odd(*m, j)); } catch (gear::Exception& e) { c.state(cat("refused ", i, ",", j)); continue; }
      if (d >= 0 && late) full::addDet(*m, d);
      auto at = [&] { return cat(what, d < 0 ? "" : cat(late ? ", later " : ", before that ", full::detName(d))); }; c.now(at()); c.trace();
      dmp::Dump before, after; dmp::mgr(before, *m); c.state(cat(at())); rt::spit(out(), "what was there before"); bool ok; try { rt::save(*m, out()); ok = true; } catch (gear::Exception&) { ok = false; }
      dmp::mgr(after, *m); string diff = dmp::diff(before, after, 0); if (!c.check(diff.empty(), "failed-write-changed-the-description", [&] { return at() + ": " + diff; })) return;
      if (!ok) continue;
      std::unique_ptr<gear::GearMgr> r; try { r = rt::load(out()); } catch (gear::Exception& e) { c.fail("written-without-complaint-but-unreadable", cat(at(), ": ", e.what())); return; }
      dmp::Dump back; dmp::mgr(back, *r); diff = dmp::diff(before, back, 1e-9); if (!c.check(diff.empty(), "incomplete-file-reported-as-written", [&] { return at() + ": " + diff; })) return; } });
  for (int i = 0; i < 4; ++i) for (int part = 0; part < 5; ++part) for (int slice = 0; slice < (part < 2 ? SLICES : 1); ++slice) c.unit(cat("merge ", i, " part ", part, ".", slice), [&, i, part, slice] {
    rt::Quiet q; string a = c.tmpdir + "/a.xml", b = c.tmpdir + "/b.xml"; const int A[] = {1, 13, 17, 0}, B[] = {4, 0, 16, 20}; rt::save(*desc(A[i]), a); rt::save(*desc(B[i]), b); const string a0 = rt::slurp(a), b0 = rt::slurp(b); string name = cat("merge ", i);
    Write w = [&](const string& f) { rt::Quiet q2; MergeXML x; if (!x.setFile1(a) || !x.setFile2(b)) return false; try { return x.mergeFiles(f); } catch (gear::Exception&) { return false; } };
    bool ok = w(out()); const string bytes = rt::slurp(out()); if (!c.check(ok && bytes.find("</gear>") != string::npos, "nothing-written", [&] { return name; })) return;
    auto same = [&](const std::function<string()>& at) { return c.check(rt::slurp(a) == a0 && rt::slurp(b) == b0, "failed-write-changed-the-inputs", at); };
    if (part < 3) single(name, w, bytes, part, slice, same); else if (part == 3) pairs(name, w, bytes, same); else targets(name, w, bytes, same); });
}
