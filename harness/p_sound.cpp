#include "ops.hpp"
static void sound_case(Src& s, const vector<Dom>& ds, std::function<void(Ops&)> tune) {
  const Dom& d = ds[s.draw(ds.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str());
  Ops w(s, d); int dimw = s.weighted({1, 3, 6, 6, 4, 2}); int mode = s.weighted({5, 3, 2});
  static const int dims[] = {0, 1, 2, 3, 4, 5}; int n = std::min(dims[dimw], d.maxdim); w.id = mode == 0 ? 0 : mode == 1 ? s.draw(n + 1) : n; w.rd = n - w.id; w.useU = w.id == 0 && d.convex;
  int lev = s.weighted({4, 4, 2}); if (d.small) lev = 0; w.lc.num.level = lev; w.pc.level = lev; w.tc.num.level = lev; w.tc.depth = s.range(1, 3); if (d.small) { w.lc.num.frac = false; w.tc.num.frac = false; w.tc.flround = false; }
  w.lc.density = s.coin() ? 50 : 80; if (s.chance(1, 3)) w.lc.itv = 0;
  if (tune) tune(w);
  TR(d.name << " dims (" << w.id << "," << w.rd << ")"); w.run(d.small ? 6 : 12); label("steps:" + std::to_string(w.steps / 4 * 4)); }

static const char* RULE = "random histories of 0-12 operations on 2-3 abstract values (dimensions 0-5, integer and real), numbers from small integers to huge and tiny rationals in all three scalar types; witness points and, without integer dimensions, a polyhedron are pushed through the concrete semantics and must stay inside everything observable; non-trivial: at least two operations and an observation made while some concrete point was known to be inside";
// taylor1plus is a beta domain: only the operations it implements, on real variables, in rational arithmetic
static void t1tune(Ops& o) { o.nodest = o.keepman = true; o.rd = o.n() ? o.n() : 1; o.id = 0; o.useU = true; o.tc.round = false; o.tc.nomod = o.tc.nopow = true; o.obsmask = 0xf;
  for (const char* x : {"substitute_lin", "substitute_te", "intern", "add_ray", "expand", "fold", "serialize", "meet_tcons", "meet_lincons", "order", "lattice"}) o.noops.insert(x); }
int main(int argc, char** argv) {
  vector<Prop> P; auto add = [&](const char* id, vector<Dom> ds, long q, long t, std::function<void(Ops&)> tune = nullptr) { Prop p; p.id = id; p.rule = RULE; p.quick = q; p.thorough = t; p.fn = [ds, tune](Src& s) { sound_case(s, ds, tune); }; P.push_back(p); };
  add("box", doms_named({"boxMPQ", "boxD", "boxMPFR"}), 60000, 1000000);
  add("oct", doms_named({"octMPQ", "octD"}), 60000, 1000000);
  add("pk", doms_named({"pkMPQ", "pkstrictMPQ", "pkRll", "pkstrictRll"}), 40000, 800000);
  add("pkeq", doms_named({"pkeqMPQ", "pkeqRll"}), 40000, 800000);
  add("ppl", doms_named({"pplpoly", "pplstrict", "pplgrid"}), 40000, 800000);
  add("pkgrid", doms_named({"pkgrid"}), 40000, 800000);
  add("t1p", doms_named({"t1pMPQ", "t1pD", "t1pMPFR"}), 30000, 200000, t1tune); P.back().mem_mb = 6000;
  add("avo", doms_named({"avoMPQ", "avoD"}), 40000, 800000);
  add("fpp", doms_named({"fppD", "fppDl"}), 40000, 800000);
  return engine_main(argc, argv, P); }
