// Leak oracle: counts live heap blocks (malloc family interposed). A case is run again with its memory caches warm; what it then
// leaves allocated it has leaked. A third run records where the blocks left were allocated.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <algorithm>
#include <cxxabi.h>
#include <execinfo.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long LIVE = 0; static bool REC = false, BUSY = false;
struct Ent { void* p; size_t n; int nf; void* f[24]; };
static const size_t NE = 1 << 15; static Ent* TAB = nullptr;
static void rec_add(void* p, size_t n) { if (!REC || BUSY || !p) return; BUSY = true; size_t h = ((uintptr_t)p >> 4) * 2654435761u % NE; for (size_t k = 0; k < NE; k++) { Ent& e = TAB[(h + k) % NE]; if (!e.p || e.p == (void*)1) { e.p = p; e.n = n; e.nf = backtrace(e.f, 24); break; } } BUSY = false; }
static void rec_del(void* p) { if (!REC || BUSY || !p) return; size_t h = ((uintptr_t)p >> 4) * 2654435761u % NE; for (size_t k = 0; k < NE; k++) { Ent& e = TAB[(h + k) % NE]; if (!e.p) return; if (e.p == p) { e.p = (void*)1; return; } } }
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) LIVE++; rec_add(p, n); return p; }
void free(void* p) { if (p) LIVE--; rec_del(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) LIVE++; rec_add(p, a * b); return p; }
void* realloc(void* q, size_t n) { if (!q) return malloc(n); if (!n) { free(q); return nullptr; } rec_del(q); void* p = __libc_realloc(q, n); if (p) rec_add(p, n); else rec_add(q, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) LIVE++; rec_add(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
}
static std::vector<std::pair<uintptr_t, std::pair<size_t, std::string>>> SYM; static uintptr_t BASE = 0;
static void load_syms() {
  if (!SYM.empty()) return;
  dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { BASE = i->dlpi_addr; return 1; }, nullptr);
  int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return; char* m = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (m == MAP_FAILED) return;
  Elf64_Ehdr* eh = (Elf64_Ehdr*)m; Elf64_Shdr* sh = (Elf64_Shdr*)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { const char* str = m + sh[sh[i].sh_link].sh_offset; Elf64_Sym* s = (Elf64_Sym*)(m + sh[i].sh_offset); for (size_t k = 0; k < sh[i].sh_size / sizeof *s; k++) if ((s[k].st_info & 15) == STT_FUNC && s[k].st_value) SYM.push_back({s[k].st_value, {s[k].st_size, str + s[k].st_name}}); }
  std::sort(SYM.begin(), SYM.end()); munmap(m, st.st_size);
}
static std::string name_of(void* a, bool* c = nullptr) { uintptr_t x = (uintptr_t)a - BASE - 1; auto it = std::upper_bound(SYM.begin(), SYM.end(), std::make_pair(x, std::make_pair((size_t)-1, std::string()))); if (it == SYM.begin()) return ""; --it; if (x >= it->first + std::max<size_t>(it->second.first, 1)) return ""; std::string n = it->second.second; int st; if (c && n.compare(0, 2, "_Z") && n != "main" && n != "_start") *c = true; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); if (d) { n = d; free(d); size_t k = n.find('('); if (k != std::string::npos && k) n.resize(k); } return n; }
long leak_live() { return LIVE; }
void leak_record(bool on) { if (on) { if (!TAB) TAB = (Ent*)mmap(nullptr, NE * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(TAB, 0, NE * sizeof(Ent)); void* f[4]; backtrace(f, 4); } REC = on; }
// (blocks allocated without any function of the library, which are C functions, on the stack are the harness's and PPL's own)
// allocation sites of the blocks left: signature (two innermost functions of the program of the first one) and full chains
std::pair<std::string, std::string> leak_report() {
  REC = false; load_syms(); std::vector<std::string> sigs; std::string msg; int cnt = 0;
  for (size_t i = 0; i < NE; i++) { Ent& e = TAB[i]; if (!e.p || e.p == (void*)1) continue; std::string sig, chain; int k = 0; bool lib = false;
    for (int j = 1; j < e.nf; j++) { bool c = false; std::string n = name_of(e.f[j], &c); if (n.empty() || n == "malloc" || n == "calloc" || n == "realloc" || n == "rec_add" || n.compare(0, 7, "leak_re") == 0) continue; lib |= c; if (k++ < 2) sig += (sig.empty() ? "" : "<") + n; chain += (chain.empty() ? "" : " < ") + n; }
    if (!lib) continue; cnt++; sigs.push_back(sig + "\x01" + std::to_string(e.n) + " bytes from " + chain); }
  std::sort(sigs.begin(), sigs.end()); sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end()); if (sigs.empty()) return {"", ""};
  // the outermost object is the one whose chain is the shortest: prefer it
  std::string best = sigs[0]; for (auto& s : sigs) { if (s.size() < best.size()) best = s; }
  for (size_t i = 0; i < sigs.size() && i < 6; i++) msg += sigs[i].substr(sigs[i].find('\x01') + 1) + "\n";
  return {best.substr(0, best.find('\x01')), std::to_string(cnt) + " block(s) still allocated after the case freed everything\n" + msg};
}
