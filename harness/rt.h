// Write a geometry description to a file, read it back, compare every observable value, write it again and compare the bytes.
#pragma once
#include "dump.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearxml/GearXML.h"
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>

namespace rt {
struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(0)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), s.size()); }
inline void save(gear::GearMgr& m, const std::string& f) { Quiet q; gear::GearXML::createXMLFile(&m, f); }
inline std::unique_ptr<gear::GearMgr> load(const std::string& f) { Quiet q; gear::GearXML x(f); return std::unique_ptr<gear::GearMgr>(x.createGearMgr()); }
inline std::string firstDiff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t s = i > 60 ? i - 60 : 0; return "..." + a.substr(s, 120) + "... vs ..." + b.substr(s, 120) + "...";
}
// m: the description; at: text naming it.  Returns false after the first reported difference.
inline bool roundTrip(mc::Ctx& c, gear::GearMgr& m, const std::function<std::string()>& at, double tol = 1e-9) {
  const std::string f1 = c.tmpdir + "/rt1.xml", f2 = c.tmpdir + "/rt2.xml";
  std::remove(f1.c_str()); std::remove(f2.c_str());
  c.now(at()); c.trace();
  dmp::Dump before, after, again; dmp::mgr(before, m); c.state(before.canon()); c.transitions(before.v.size());
  try { save(m, f1); } catch (gear::Exception& e) { c.fail("cannot-be-written", mc::cat(at(), ": ", e.what())); return false; }
  dmp::mgr(again, m); std::string d = dmp::diff(before, again, 0);
  if (!c.check(d.empty(), "writing-changed-the-description", [&] { return at() + ": " + d; })) return false;
  std::unique_ptr<gear::GearMgr> r;
  try { r = load(f1); } catch (gear::Exception& e) { c.fail("cannot-be-read-back", mc::cat(at(), ": ", e.what())); return false; }
  dmp::mgr(after, *r); d = dmp::diff(before, after, tol);
  if (!c.check(d.empty(), "differs-after-round-trip", [&] { return at() + ": " + d; })) return false;
  try { save(*r, f2); } catch (gear::Exception& e) { c.fail("cannot-be-written-again", mc::cat(at(), ": ", e.what())); return false; }
  std::string a = slurp(f1), b = slurp(f2);
  return c.check(a == b && !a.empty(), "second-file-differs", [&] { return at() + ": " + firstDiff(a, b); });
}
}
