#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <cstdlib>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_set>

long leak_live() __attribute__((weak)); void leak_record(bool) __attribute__((weak)); std::pair<std::string, std::string> leak_report() __attribute__((weak));   // leak.cpp, when linked
Src* CUR = nullptr;
static const size_t CAP = 1 << 16;
static const int NLAB = 1024, LABLEN = 72, MAXF = 64;
static const size_t NHASH = 1 << 20;

struct FailRec { char sig[256]; char msg[3072]; uint64_t index; uint32_t n; uint32_t ch[CAP]; };
struct Shm {                     // one per worker
  volatile uint64_t index; volatile uint32_t running; volatile uint32_t nout; uint32_t out[CAP];
  char crumb[128];
  volatile uint64_t done, nontriv; volatile uint32_t nhash; uint64_t hashes[NHASH];
  uint32_t nlab; struct { char l[LABLEN]; uint64_t n; } lab[NLAB];
  uint32_t nsamp; char samp[4][6000];
  volatile uint32_t nfail; FailRec f[MAXF];
};
static bool MEMONLY = false;     // only memory errors count (the other properties judge the results)
static Shm* SH = nullptr;        // current worker's

bool getenv_trace() { static int t = -1; if (t < 0) t = getenv("VERIF_TRACE") ? 1 : 0; return t; }
void fail(const std::string& sig, const std::string& msg) { throw Fail{sig, msg}; }
void crumb(const char* w) { if (SH) { strncpy(SH->crumb, w, sizeof SH->crumb - 1); } if (getenv_trace()) fprintf(stderr, "  @%s\n", w); }
void label(const std::string& l) {
  if (!SH) return;
  for (uint32_t i = 0; i < SH->nlab; i++) if (!strncmp(SH->lab[i].l, l.c_str(), LABLEN - 1)) { SH->lab[i].n++; return; }
  if (SH->nlab < NLAB) { strncpy(SH->lab[SH->nlab].l, l.c_str(), LABLEN - 1); SH->lab[SH->nlab].n = 1; SH->nlab++; }
}
static std::vector<Known> KNOWN;
void add_known(const std::string& prop, const std::string& what, std::function<bool()> still) { KNOWN.push_back({prop, what, what, still}); }

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; return z ^ (z >> 32); }
static void arm(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }
static void on_prof(int) { _exit(97); }
static void limits(const Prop& p) {
  struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__)
  if (p.mem_mb) { r.rlim_cur = r.rlim_max = (rlim_t)p.mem_mb << 20; setrlimit(RLIMIT_AS, &r); }
#endif
  signal(SIGPROF, on_prof);
}
static void quiet() { if (getenv_trace() || getenv("VERIF_STDERR")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); close(fd); }

// Runs one case; returns true if it failed (semantic failure), crash/hang end the process.
static bool run_case(const Prop& p, Src& src, Fail& out) {
  CUR = &src; SH->crumb[0] = 0; SH->nout = 0; src.out = SH->out; src.nout = &SH->nout; src.capout = CAP;
  SH->running = 1; arm(p.cpu_limit);
  bool failed = false;
  try { p.fn(src); } catch (Fail& f) { failed = true; out = f; }
  catch (std::bad_alloc&) { label("inconclusive:out-of-memory"); }
  catch (std::exception& e) { failed = true; out = {"exception", e.what()}; }
  if (failed && MEMONLY) { failed = false; label("wrong-result:left-to-the-other-properties"); }
  else if (!failed && leak_live) {
    static std::vector<uint32_t> ch; ch.assign(SH->out, SH->out + SH->nout); bool nt = src.nontrivial; uint64_t hs = src.hash; (void)nt; (void)hs; uint32_t nl = SH->nlab;
    for (int k = 0; k < 4 && !failed; k++) {   // the same blocks again and again: not a cache that grows to its final size
      Src s2; s2.gen = false; s2.in = ch.data(); s2.nin = ch.size(); CUR = &s2; bool bad = false; long live = leak_live(); if (k == 3) leak_record(true);
      try { p.fn(s2); } catch (Fail&) { bad = true; } catch (std::bad_alloc&) { bad = true; }
      if (k == 3) leak_record(false); long d = leak_live() - live; if (bad || d <= 0) break;
      if (k == 3) { auto r = leak_report(); if (r.first.empty()) break; failed = true; out = {"leak:" + r.first, r.second}; }
    }
    (void)nl;
  }
  arm(0); SH->running = 0; CUR = nullptr;
  return failed;
}

static void worker(const Prop& p, uint64_t seed, uint64_t from, uint64_t step, uint64_t total, double deadline) {
  limits(p); quiet(); if (p.init) p.init();
  std::unordered_set<uint64_t> seen; for (uint32_t i = 0; i < SH->nhash; i++) seen.insert(SH->hashes[i]);
  for (uint64_t i = from; i < total; i += step) {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); if (ts.tv_sec > deadline) { label("inconclusive:wall-cap-reached"); break; }
    SH->index = i; Src src; src.s = mix(mix(seed, i), 77); std::string tr;
    bool want = SH->nsamp < 4 && (i / step) % 37 == 5; if (want) src.trace = &tr;
    Fail f;
    if (run_case(p, src, f)) {
      if (SH->nfail < MAXF) { FailRec& r = SH->f[SH->nfail]; strncpy(r.sig, f.sig.c_str(), sizeof r.sig - 1); strncpy(r.msg, f.msg.c_str(), sizeof r.msg - 1); r.index = i; r.n = SH->nout; memcpy(r.ch, SH->out, r.n * 4); SH->nfail = SH->nfail + 1; }
      if (SH->nfail >= MAXF) break;
    } else {
      SH->done = SH->done + 1;
      if (src.nontrivial) { if (seen.insert(src.hash).second) { SH->nontriv = SH->nontriv + 1; if (SH->nhash < NHASH) { SH->hashes[SH->nhash] = src.hash; SH->nhash = SH->nhash + 1; } }
        if (want) { strncpy(SH->samp[SH->nsamp], tr.c_str(), 5999); SH->nsamp++; } }
    }
  }
  _exit(0);
}

static Shm* mkshm() { void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (Shm*)p; }

static std::string deathsig(int st, const char* crumbtxt) {
  std::string s;
  if (WIFSIGNALED(st)) s = std::string("crash:") + (WTERMSIG(st) == SIGSEGV ? "SIGSEGV" : WTERMSIG(st) == SIGABRT ? "SIGABRT" : WTERMSIG(st) == SIGFPE ? "SIGFPE" : WTERMSIG(st) == SIGKILL ? "SIGKILL" : "SIG" + std::to_string(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 97) s = "hang";
  else s = "exit" + std::to_string(WEXITSTATUS(st));
  return s + "@" + crumbtxt;
}

// replay of a choice sequence in a forked child; returns signature ("" = passed)
static std::string replay_once(const Prop& p, const std::vector<uint32_t>& ch, std::string* msg, std::string* trace, std::vector<uint32_t>* used) {
  static Shm* sh = nullptr; static char* tb = nullptr; const size_t TB = 1 << 18;
  if (!sh) { sh = mkshm(); tb = (char*)mmap(nullptr, TB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  sh->nfail = 0; sh->nlab = 0; sh->crumb[0] = 0; sh->nout = 0; tb[0] = 0; memset(sh->f[0].sig, 0, sizeof sh->f[0].sig); memset(sh->f[0].msg, 0, sizeof sh->f[0].msg);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    SH = sh; limits(p); quiet(); if (p.init) p.init();
    Src src; src.gen = false; src.in = ch.data(); src.nin = ch.size(); std::string tr; if (trace) src.trace = &tr;
    Fail f; bool bad = run_case(p, src, f);
    if (trace) { strncpy(tb, tr.c_str(), TB - 1); }
    if (bad) { strncpy(sh->f[0].sig, f.sig.c_str(), 255); strncpy(sh->f[0].msg, f.msg.c_str(), 3071); sh->nfail = 1; }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0) {}
  if (used) used->assign(sh->out, sh->out + sh->nout);
  if (trace) *trace = tb;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (sh->nfail) { if (msg) *msg = sh->f[0].msg; return sh->f[0].sig; } return ""; }
  if (msg) *msg = "process ended abnormally";
  return deathsig(st, sh->crumb);
}

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::vector<uint32_t> shrink(const Prop& p, std::vector<uint32_t> best, const std::string& sig, double budget) {
  double end = now() + budget; int tries = 0;
  auto ok = [&](const std::vector<uint32_t>& c) -> bool {
    if (now() > end || tries > 6000) return false; tries++;
    std::vector<uint32_t> used; if (replay_once(p, c, nullptr, nullptr, &used) == sig) {
      if (used.size() > c.size()) used.resize(c.size());
      while (!used.empty() && used.back() == 0) used.pop_back();
      best = used; return true; } return false; };
  bool hang = sig.compare(0, 4, "hang") == 0; if (hang) return best;
  bool progress = true;
  while (progress && now() < end) {
    progress = false; size_t before = best.size(); std::vector<uint32_t> b0 = best;
    for (size_t len : {256, 128, 64, 32, 16, 12, 8, 6, 5, 4, 3, 2, 1})
      for (size_t i = best.size(); i-- > 0;) {
        if (now() > end) break; if (i + len > best.size()) continue;
        std::vector<uint32_t> c = best; c.erase(c.begin() + i, c.begin() + i + len); ok(c); }
    for (size_t len : {8, 4, 2, 1}) for (size_t i = 0; i + len <= best.size(); i++) {
        bool nz = false; for (size_t j = 0; j < len; j++) nz |= best[i + j] != 0; if (!nz) continue; if (now() > end) break;
        std::vector<uint32_t> c = best; for (size_t j = 0; j < len; j++) c[i + j] = 0; ok(c); }
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      uint32_t lo = 0; while (i < best.size() && best[i] > lo + 1) { std::vector<uint32_t> c = best; uint32_t m = lo + (best[i] - lo) / 2; c[i] = m; if (!ok(c)) lo = m; if (now() > end) break; }
      if (i < best.size() && best[i] > 0) { std::vector<uint32_t> c = best; c[i]--; ok(c); } }
    if (best.size() < before || best != b0) progress = true;
  }
  return best;
}

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int engine_main(int argc, char** argv, const std::vector<Prop>& props) {
  std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  const Prop* P = nullptr; for (auto& p : props) if (p.id == o["--prop"]) P = &p;
  if (!P) { fprintf(stderr, "unknown property %s\n", o["--prop"].c_str()); return 3; }
  const Prop& p = *P; std::string id = o.count("--as") ? o["--as"] : p.id;
  MEMONLY = o.count("--memonly");
  if (o.count("--replay")) {
    FILE* f = fopen(o["--replay"].c_str(), "r"); if (!f) { perror("replay"); return 3; }
    std::vector<uint32_t> ch; char line[1 << 16]; while (fgets(line, sizeof line, f)) { if (strncmp(line, "choices:", 8)) continue; char* q = line + 8; char* e; for (;;) { unsigned long v = strtoul(q, &e, 10); if (e == q) break; ch.push_back(v); q = e; } }
    fclose(f); std::string msg, tr; std::string sig = replay_once(p, ch, &msg, &tr, nullptr);
    printf("%s\nsignature: %s\n%s\n", tr.c_str(), sig.empty() ? "(passes)" : sig.c_str(), msg.c_str());
    if (!sig.empty()) { printf("VIOLATION property=%s replay=%s\n", id.c_str(), o["--replay"].c_str()); return 1; }
    return 0;
  }
  std::string tier = o.count("--tier") ? o["--tier"] : "quick"; uint64_t seed = o.count("--seed") ? strtoull(o["--seed"].c_str(), 0, 10) : 1;
  long total = o.count("--cases") ? atol(o["--cases"].c_str()) : tier == "thorough" ? p.thorough : p.quick;
  int nw = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8; double wallcap = o.count("--wall") ? atof(o["--wall"].c_str()) : 420;
  if (o.count("--case")) { // run one generated case with trace, in-process
    SH = mkshm(); uint64_t i = strtoull(o["--case"].c_str(), 0, 10); Src src; src.s = mix(mix(seed, i), 77); std::string tr; src.trace = &tr; Fail f; if (p.init) p.init();
    bool b = run_case(p, src, f); printf("%s\n%s %s\n%s\n", tr.c_str(), b ? "FAIL" : "ok", f.sig.c_str(), f.msg.c_str()); return b; }
  double t0 = now(), deadline = t0 + wallcap;
  std::vector<Shm*> sh; for (int w = 0; w < nw; w++) sh.push_back(mkshm());
  struct F { std::string sig, msg; uint64_t index; std::vector<uint32_t> ch; };
  std::vector<F> fails; uint64_t crashes = 0;
  fflush(stdout); std::map<pid_t, int> pids; std::vector<int> deaths(nw, 0);
  auto spawn = [&](int w, uint64_t from) { fflush(stdout); pid_t pid = fork(); if (pid == 0) { SH = sh[w]; worker(p, seed, from, nw, total, deadline); } pids[pid] = w; };
  for (int w = 0; w < nw; w++) spawn(w, w);
  while (!pids.empty()) {
    int st; pid_t pid = waitpid(-1, &st, 0); if (pid < 0) continue; if (!pids.count(pid)) continue; int w = pids[pid]; pids.erase(pid);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    F f; f.index = sh[w]->index; f.ch.assign(sh[w]->out, sh[w]->out + sh[w]->nout); f.sig = deathsig(st, sh[w]->crumb); f.msg = "process ended abnormally"; fails.push_back(f); crashes++;
    deaths[w] += f.sig.compare(0, 4, "hang") == 0 ? 14 : 1; if (deaths[w] < 40) spawn(w, sh[w]->index + nw);
  }
  uint64_t evals = crashes; std::map<std::string, uint64_t> labs; std::set<uint64_t> H; uint64_t extra = 0; std::vector<std::string> samples;
  for (auto s : sh) { evals += s->done + s->nfail; for (uint32_t i = 0; i < s->nlab; i++) labs[s->lab[i].l] += s->lab[i].n; for (uint32_t i = 0; i < s->nhash; i++) H.insert(s->hashes[i]);
    extra += s->nontriv - s->nhash; for (uint32_t i = 0; i < s->nsamp && samples.size() < 3; i++) samples.push_back(s->samp[i]);
    for (uint32_t i = 0; i < s->nfail; i++) { F f; f.sig = s->f[i].sig; f.msg = s->f[i].msg; f.index = s->f[i].index; f.ch.assign(s->f[i].ch, s->f[i].ch + s->f[i].n); fails.push_back(f); } }
  std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.index < b.index; });
  std::map<std::string, std::vector<const F*>> bysig; std::vector<std::string> order; for (auto& f : fails) { if (!bysig.count(f.sig)) order.push_back(f.sig); bysig[f.sig].push_back(&f); }
  bool dev = o.count("--dev"); int violations = 0, maxshow = o.count("--maxshow") ? atoi(o["--maxshow"].c_str()) : dev ? 20 : 3;
  std::string rdir = o.count("--replaydir") ? o["--replaydir"] : "/verif/replays"; mkdir(rdir.c_str(), 0755);
  for (auto& sg : order) {
    if (violations >= maxshow) break;
    // the smallest failing case is the starting point of the shrinking
    auto& v = bysig[sg]; const F* f = v[0]; for (auto x : v) if (x->ch.size() < f->ch.size()) f = x;
    int again = 0; std::string m; int reps = sg.compare(0, 4, "hang") == 0 ? 1 : 3; for (int k = 0; k < reps; k++) if (replay_once(p, f->ch, &m, nullptr, nullptr) == sg) again++;
    if (again < reps) { printf("UNREPRODUCED sig=%s index=%lu (%d/%d replays) - not reported\n", sg.c_str(), (unsigned long)f->index, again, reps); labs["unreproduced:" + sg]++; continue; }
    std::vector<uint32_t> best = shrink(p, f->ch, sg, dev ? 6 : 25);
    std::string tr; replay_once(p, best, &m, &tr, nullptr);
    violations++; std::string path = rdir + "/" + id + (o.count("--part") && o["--part"] != p.id ? "-" + o["--part"] : "") + "-" + tier + "-" + std::to_string(seed) + "-" + std::to_string(violations) + ".replay";
    FILE* rf = fopen(path.c_str(), "w"); if (rf) { if (o.count("--part")) fprintf(rf, "part: %s\n", o["--part"].c_str()); fprintf(rf, "property: %s\nseed: %lu\nindex: %lu\nsignature: %s\nmessage: %s\nchoices:", id.c_str(), (unsigned long)seed, (unsigned long)f->index, sg.c_str(), m.c_str()); for (auto c : best) fprintf(rf, " %u", c); fprintf(rf, "\n--- trace ---\n%s\n", tr.c_str()); fclose(rf); }
    printf("failure: %s (%zu cases)\n%s\n%s\n", sg.c_str(), v.size(), tr.c_str(), m.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str()); fflush(stdout);
  }
  // known findings
  std::vector<std::string> kf;
  for (auto& k : KNOWN) if (k.prop == id || k.prop == p.id) {
    fflush(stdout); pid_t pid = fork(); if (pid == 0) { SH = mkshm(); limits(p); quiet(); arm(p.cpu_limit); bool b = false; try { b = k.still(); } catch (Fail&) { b = true; } _exit(b ? 42 : 0); }
    int st; waitpid(pid, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.what.c_str()); kf.push_back(k.what); } else printf("note: listed finding no longer fails: %s\n", k.what.c_str());
  }
  double wall = now() - t0;
  if (o.count("--evidence")) {
    FILE* e = fopen(o["--evidence"].c_str(), "w"); if (!e) { perror("evidence"); return 3; }
    fprintf(e, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"%s\",\n \"coverage\": {\n  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %lu,\n  \"rule\": \"%s\",\n  \"labels\": {", id.c_str(), tier.c_str(), (unsigned long)seed, p.level.c_str(), (unsigned long)evals, (unsigned long)(H.size() + extra), jesc(p.rule).c_str());
    bool first = true; for (auto& l : labs) { fprintf(e, "%s\n   \"%s\": %lu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long)l.second); first = false; }
    fprintf(e, "\n  },\n  \"known_findings\": ["); first = true; for (auto& k : kf) { fprintf(e, "%s\"%s\"", first ? "" : ", ", jesc(k).c_str()); first = false; }
    fprintf(e, "],\n  \"samples\": ["); first = true; for (auto& s : samples) { fprintf(e, "%s\n   \"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(e, "\n  ]\n },\n \"assumptions\": ["); first = true; for (auto& a : p.assumptions) { fprintf(e, "%s\n  \"%s\"", first ? "" : ",", jesc(a).c_str()); first = false; }
    fprintf(e, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations); fclose(e);
  }
  printf("%s %s seed=%lu: %lu cases, %lu distinct non-trivial, %zu failing, %d violation(s), %.1fs\n", id.c_str(), tier.c_str(), (unsigned long)seed, (unsigned long)evals, (unsigned long)(H.size() + extra), fails.size(), violations, wall);
  if (dev) for (auto& l : labs) printf("   %-60s %lu\n", l.first.c_str(), (unsigned long)l.second);
  if (violations && !dev) return 1;
  return violations ? 1 : 0;
}
