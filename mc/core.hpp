// Core of the explicit-state explorer: one fixed-address arena ("world") that holds every
// byte of the system under test (containers, tree blocks, elements, allocator state), so a
// state can be saved and restored by copying memory; plus fault injection and reporting.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <initializer_list>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
#if defined(__clang__) && !defined(__SANITIZE_ADDRESS__)
#if __has_feature(address_sanitizer)
#define __SANITIZE_ADDRESS__ 1
#endif
#if __has_feature(memory_sanitizer)
#define MC_MSAN 1
#include <sanitizer/msan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define MC_RAW __attribute__((no_sanitize("address")))
#else
#define MC_RAW
#endif

namespace mc {

#ifdef MC_MSAN
constexpr uintptr_t kBase = 0x520000000000ull;
inline void indeterminate(void* p, size_t n) { __msan_poison(p, n); }
inline void determinate(const void* p, size_t n) { __msan_unpoison(p, n); }
constexpr bool kSamples = false;                  // (made by library code that is not instrumented)
#else
constexpr bool kSamples = true;
constexpr uintptr_t kBase = 0x200000000000ull;
inline void indeterminate(void*, size_t) {}
inline void determinate(const void*, size_t) {}
#endif
constexpr size_t kArena = size_t(4) << 30;
constexpr uint64_t kLive = 0x11f3b10c11f3b10cull, kDead = 0xdeadb10cdeadb10cull;
constexpr unsigned char kFreshByte = 0xA5, kFreeByte = 0xDD, kCanary = 0xC3;
constexpr int kSeg = 0, kNode = 1, kOther = 2;

struct Fault { int site; };                       // the exception the harness injects
enum FaultSite : uint32_t { F_ALLOC = 1, F_COPY = 2, F_VALUE = 4, F_ASSIGN = 8, F_PRED = 16, F_ITER = 32,
                            F_MOVE = 64, F_MASSIGN = 128 };

struct BlockHdr {
  uint64_t magic, size, n, opid;
  uint32_t kind, tag;
  uint64_t next_free;                             // offset, 0 = none
  uint64_t total, bytes;                          // header + payload + canary; what was asked for
};

struct World {
  uint64_t hw;                                    // first unused offset
  uint64_t opid;
  struct Cls { uint64_t size, head, tail; } cls[24];
  uint32_t ncls;
  int64_t live_blocks[3], live_bytes[3];
  uint64_t allocs[3], deallocs[3];
  int64_t live_elems;
  uint64_t max_bytes[3];                          // largest request so far
  uint64_t dflt, valctor, copies, moves, cassigns, massigns, dtors;
  uint64_t aconstruct, adestroy;                  // calls through the allocator
  uint32_t fault_mask;
  int32_t deny_alloc;                             // every allocation fails
  int64_t fault_at;                               // index of the point that fails, -1 none
  int64_t fault_count;                            // points passed so far
  int64_t live_ptrs;                              // pointer objects in blocks
  alignas(64) unsigned char slot[4][192];         // the containers
};
#ifdef MC_PAGE_BLOCKS                                // blocks start on a page of their own, so that access can be withdrawn
constexpr uint64_t kFirstBlock = (sizeof(World) + 4095) / 4096 * 4096;
#else
constexpr uint64_t kFirstBlock = (sizeof(World) + 63) / 64 * 64;
#endif
inline World& W() { return *reinterpret_cast<World*>(kBase); }
inline char* at_off(uint64_t o) { return reinterpret_cast<char*>(kBase + o); }

// ---------------------------------------------------------------- errors
struct Err { bool set; char key[64]; char msg[600]; };
inline Err g_err;
// Undefined behaviour (bad memory, dead elements) voids every property.  The other monitors
// speak only in the checks of the properties they belong to.
inline std::vector<std::string> g_focus;
inline void focus(std::initializer_list<const char*> l) { for (auto p : l) g_focus.push_back(p); }
inline bool relevant(const char* key) {
  static const char* specific[] = {"alloc-null", "alloc-type", "alloc-count", "alloc-other", "life-leak", "life-count", "hostile-", "mem-", "a-"};
  for (auto p : specific)
    if (!strncmp(key, p, strlen(p))) {
      for (auto& f : g_focus) if (!strncmp(key, f.c_str(), f.size())) return true;
      return false;
    }
  return true;
}
__attribute__((format(printf, 2, 3))) inline void err(const char* key, const char* fmt, ...) {
  if (g_err.set || !relevant(key)) return;
  g_err.set = true;
  snprintf(g_err.key, sizeof g_err.key, "%s", key);
  va_list ap; va_start(ap, fmt); vsnprintf(g_err.msg, sizeof g_err.msg, fmt, ap); va_end(ap);
}

// ---------------------------------------------------------------- faults
inline void (*g_interrupt)() = nullptr;             // what happens at the chosen point instead of a failure
inline void fault_point(uint32_t site) {
  World& w = W();
  if (!(w.fault_mask & site)) return;
  int64_t k = w.fault_count++;
  if (k != w.fault_at) return;
  if (!g_interrupt) throw Fault{int(site)};
  w.fault_mask = 0;
  g_interrupt();
  w.fault_mask = 0;
}
inline void faults_off() { W().fault_mask = 0; W().fault_at = -1; W().fault_count = 0; }
inline void faults_on(uint32_t mask, int64_t at) { W().fault_mask = mask; W().fault_at = at; W().fault_count = 0; }

// ---------------------------------------------------------------- arena
inline void unfence();
inline void world_init() {
  static bool done = false;
  if (done) unfence();
  if (!done) {
    void* p = mmap(reinterpret_cast<void*>(kBase), kArena, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(kBase)) { fprintf(stderr, "cannot map the arena\n"); _exit(3); }
    done = true;
  }
  memset(&W(), 0, sizeof(World));
  W().hw = kFirstBlock;
  W().fault_at = -1;
  W().opid = 1;
  memset(W().slot, kFreshByte, sizeof W().slot);
}

// Under AddressSanitizer, everything in the arena but the bytes that were asked for can be put off
// limits while an operation runs: headers, slack, returned blocks and what lies beyond.
inline bool g_fenced = false;
#ifdef __SANITIZE_ADDRESS__
inline uint64_t g_fence_end = 0;
MC_RAW inline void fence_block(BlockHdr* h, uint64_t bytes) {
  char* p = reinterpret_cast<char*>(h + 1);
  char* end = reinterpret_cast<char*>(h) + h->total;
  __asan_poison_memory_region(h, sizeof(BlockHdr));
  if (bytes) __asan_poison_memory_region(p + bytes, size_t(end - p) - bytes); else __asan_poison_memory_region(p, size_t(end - p));
}
inline void unfence_block(BlockHdr* h, uint64_t total) { __asan_unpoison_memory_region(h, total); }
MC_RAW inline void fence() {
  uint64_t hw = W().hw, o = kFirstBlock;
  while (o < hw) { auto* h = reinterpret_cast<BlockHdr*>(at_off(o)); uint64_t next = o + h->total; fence_block(h, h->magic == kLive ? h->bytes : 0); o = next; }
  g_fence_end = hw + 65536;
  __asan_poison_memory_region(at_off(hw), 65536);
  g_fenced = true;
}
inline void unfence() {
  if (!g_fenced) return;
  uint64_t end = W().hw + 65536;
  __asan_unpoison_memory_region(at_off(kFirstBlock), (end > g_fence_end ? end : g_fence_end) - kFirstBlock);
  g_fenced = false;
}
#else
inline void fence() {}
inline void unfence() {}
inline void fence_block(BlockHdr*, uint64_t) {}
inline void unfence_block(BlockHdr*, uint64_t) {}
#endif

MC_RAW inline void* arena_alloc(size_t n, size_t elem, int kind, uint32_t tag) {
  World& w = W();
  if (w.deny_alloc) throw Fault{F_ALLOC};
  fault_point(F_ALLOC);
  size_t size = (n * elem + 15) / 16 * 16;
  World::Cls* c = nullptr;
  for (uint32_t i = 0; i < w.ncls; ++i) if (w.cls[i].size == size) c = &w.cls[i];
  if (!c) {
    if (w.ncls == 24) { fprintf(stderr, "too many size classes\n"); _exit(3); }
    c = &w.cls[w.ncls++];
    c->size = size; c->head = c->tail = 0;
  }
  BlockHdr* h;
  // A block freed during the current operation is not reused in it (quarantine).
  if (c->head && reinterpret_cast<BlockHdr*>(at_off(c->head))->opid < w.opid) {
    h = reinterpret_cast<BlockHdr*>(at_off(c->head));
    if (g_fenced) unfence_block(h, h->total);
    c->head = h->next_free;
    if (!c->head) c->tail = 0;
    auto* p = reinterpret_cast<unsigned char*>(h + 1);
    for (size_t i = 0; i < size; ++i)
      if (p[i] != kFreeByte) { err("write-after-free", "a returned %s block was written at byte %zu", h->kind == kSeg ? "element" : "index", i); break; }
  } else {
    h = reinterpret_cast<BlockHdr*>(at_off(w.hw));
    size_t total = sizeof(BlockHdr) + size + 16;
    total = (total + 15) / 16 * 16;
    if (w.hw + total > kArena) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    w.hw += total;
    if (g_fenced) unfence_block(h, total);
    h->total = total;
  }
  h->magic = kLive; h->size = size; h->n = n; h->opid = w.opid; h->kind = kind; h->tag = tag; h->next_free = 0; h->bytes = n * elem;
  memset(h + 1, kFreshByte, size);
  indeterminate(h + 1, size);
  memset(reinterpret_cast<char*>(h + 1) + size, kCanary, 16);
  w.live_blocks[kind]++; w.live_bytes[kind] += n * elem; w.allocs[kind]++;
  if (n * elem > w.max_bytes[kind]) w.max_bytes[kind] = n * elem;
  if (g_fenced) fence_block(h, h->bytes);
  return h + 1;
}
inline void (*g_block_free_hook)(void*, size_t, int) = nullptr;   // element liveness on free
MC_RAW inline void arena_free(void* p, size_t n, size_t elem, int kind, uint32_t tag) {
  World& w = W();
  if (!p) { err("alloc-null", "deallocate was given a null pointer"); return; }
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a < kBase + kFirstBlock || a >= kBase + w.hw || a % 16) { err("alloc-foreign", "deallocate was given a pointer that allocate never returned"); return; }
  BlockHdr* h = reinterpret_cast<BlockHdr*>(p) - 1;
  if (h->magic == kDead) { err("alloc-double", "a block was deallocated twice"); return; }
  if (h->magic != kLive) { err("alloc-foreign", "deallocate was given a pointer that allocate never returned"); return; }
  if (h->kind != uint32_t(kind)) err("alloc-type", "a block was returned as the wrong type");
  if (h->n != n) err("alloc-count", "a block of %llu was returned as a block of %zu", (unsigned long long)h->n, n);
  if (h->tag != tag) err("alloc-other", "a block of allocator %u was returned to allocator %u", h->tag, tag);
  for (int i = 0; i < 16; ++i)
    if ((reinterpret_cast<unsigned char*>(h + 1) + h->size)[i] != kCanary) { err("overflow", "a block was written past its end"); break; }
  if (g_block_free_hook) g_block_free_hook(p, n, kind);
  w.live_blocks[kind]--; w.live_bytes[kind] -= h->n * elem; w.deallocs[kind]++;
  if (g_fenced) unfence_block(h, h->total);
  h->magic = kDead; h->opid = w.opid; h->next_free = 0;
  memset(h + 1, kFreeByte, h->size);
  for (uint32_t i = 0; i < w.ncls; ++i)
    if (w.cls[i].size == h->size) {
      uint64_t off = reinterpret_cast<uintptr_t>(h) - kBase;
      if (w.cls[i].tail) reinterpret_cast<BlockHdr*>(at_off(w.cls[i].tail))->next_free = off; else w.cls[i].head = off;
      w.cls[i].tail = off;
    }
  if (g_fenced) fence_block(h, 0);
}
// Checks guard bytes of every block and the filler of every returned block.
inline void arena_check() {
  unfence();
  World& w = W();
  for (uint64_t o = kFirstBlock; o < w.hw;) {
    auto* h = reinterpret_cast<BlockHdr*>(at_off(o));
    if (h->magic != kLive && h->magic != kDead) { err("overflow", "a block header was overwritten"); return; }
    auto* p = reinterpret_cast<unsigned char*>(h + 1);
    for (int i = 0; i < 16; ++i) if (p[h->size + i] != kCanary) { err("overflow", "a block was written past its end"); return; }
    if (h->magic == kDead)
      for (size_t i = 0; i < h->size; ++i)
        if (p[i] != kFreeByte) { err("write-after-free", "a returned block was written at byte %zu", i); return; }
    o += h->total;
  }
}
template <class F> void for_live_blocks(F f) {
  unfence();
  for (uint64_t o = kFirstBlock; o < W().hw;) {
    auto* h = reinterpret_cast<BlockHdr*>(at_off(o));
    if (h->magic == kLive) f(h);
    o += h->total;
  }
}

inline const char* volatile g_guarded = nullptr;    // what is withheld while an operation runs
// Withdraws access to every block (PROT_NONE), or to the whole arena for writing.
struct Withhold {
  char* at; size_t len;
  Withhold(uint64_t from, int prot, const char* what) : at(at_off(from)), len((W().hw + 4095) / 4096 * 4096 - from) {
    if (len) mprotect(at, len, prot);
    g_guarded = what;
  }
  ~Withhold() { if (len) mprotect(at, len, PROT_READ | PROT_WRITE); g_guarded = nullptr; }
};

struct Snapshot {
  std::vector<char> bytes;
  void save() { unfence(); bytes.resize(W().hw); memcpy(bytes.data(), at_off(0), W().hw); }
  void restore() const { unfence(); memcpy(at_off(0), bytes.data(), bytes.size()); }
  bool same() const { unfence(); return W().hw == bytes.size() && !memcmp(bytes.data(), at_off(0), bytes.size()); }
};

// ---------------------------------------------------------------- run context
struct Run {
  std::string prop, tier = "quick", out, replay_out = "violation.txt", replay_cfg, replay_hist;
  double budget = 1e9;
  bool thorough() const { return tier == "thorough"; }
  // what is being explored right now
  std::string cfg, hist;
  const char* op = "";
  long a[5] = {0, 0, 0, 0, 0}; int na = 0;
  char extra[200] = "";
  volatile uint64_t progress = 0;
  // statistics
  uint64_t states = 0, transitions = 0, checks = 0;
  bool truncated = false;
  std::map<std::string, uint64_t> counts, cfg_states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known;        // findings hit: key -> message
  std::vector<std::string> known_keys;             // listed in the known-findings file
};
inline Run R;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double g_start = now();

inline void set_op(const char* op) { R.progress = R.progress + 1; R.op = op; R.na = 0; R.extra[0] = 0; }
template <class... A> void set_op(const char* op, A... a) {
  long v[] = {long(a)...}; R.progress = R.progress + 1; R.op = op; R.na = sizeof...(A); R.extra[0] = 0;
  for (int i = 0; i < R.na && i < 5; ++i) R.a[i] = v[i];
}
inline std::string op_text() {
  std::string s = R.op; char b[32];
  for (int i = 0; i < R.na; ++i) { snprintf(b, sizeof b, " %ld", R.a[i]); s += b; }
  if (R.extra[0]) { s += " "; s += R.extra; }
  return s;
}
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}
inline void write_result(const char* status, const std::string& key, const std::string& msg) {
  if (R.out.empty()) return;
  FILE* f = fopen(R.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"status\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"cfg\":\"%s\",\"hist\":\"%s\",\"op\":\"%s\",", status, jesc(key).c_str(),
          jesc(msg).c_str(), jesc(R.cfg).c_str(), jesc(R.hist).c_str(), jesc(op_text()).c_str());
  fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,\"truncated\":%s,\"wall\":%.3f,", (unsigned long long)R.states,
          (unsigned long long)R.transitions, (unsigned long long)R.checks, R.truncated ? "true" : "false", now() - g_start);
  auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
    fprintf(f, "\"%s\":{", n); bool first = true;
    for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},");
  };
  dump("counts", R.counts); dump("cfg_states", R.cfg_states); dump("outcomes", R.outcomes);
  fprintf(f, "\"known\":{"); bool first = true;
  for (auto& kv : R.known) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(kv.first).c_str(), jesc(kv.second).c_str()); first = false; }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < R.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(R.samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
}
[[noreturn]] inline void finish(int code) { fflush(stdout); fflush(stderr); _exit(code); }
inline void (*g_at_violation)() = nullptr;
[[noreturn]] inline void violation(const std::string& key, const std::string& msg) {
  if (g_at_violation) g_at_violation();
  write_result("violation", key, msg);
  fprintf(stderr, "VIOL %s: %s\n  cfg %s\n  hist %s\n  op %s\n", key.c_str(), msg.c_str(), R.cfg.c_str(), R.hist.c_str(), op_text().c_str());
  finish(1);
}
// An error recorded by a monitor ends the run, unless the known-findings file lists its key.
// Returns true when a listed finding was hit (the caller abandons the transition).
inline bool settle(const char* suffix = "") {
  R.progress = R.progress + 1;
  if (!g_err.set) return false;
  std::string key = std::string(g_err.key) + suffix;
  std::string msg = g_err.msg;
  g_err.set = false;
  for (auto& k : R.known_keys) if (k == key) { if (!R.known.count(key)) R.known[key] = msg + " [" + R.cfg + " | " + R.hist + " | " + op_text() + "]"; return true; }
  violation(key, msg);
}

#ifdef MC_MSAN
// The harness's own heap and the parts of the library that are not instrumented count as determinate.
}  // namespace mc
extern "C" __attribute__((used)) const char* __msan_default_options() {
  return "poison_in_malloc=0:poison_in_free=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:use_sigaltstack=0:allow_user_segv_handler=1";
}
inline void mc_indeterminate_used() { mc::violation("indeterminate", "MemorySanitizer: an indeterminate value was used"); }
namespace mc {
#endif
#ifdef MC_UBSAN
}  // namespace mc
extern "C" void __ubsan_get_current_report_data(const char**, const char**, const char**, unsigned*, unsigned*, char**);
extern "C" inline __attribute__((used)) void __ubsan_on_report() {
  const char *kind = "", *text = "", *file = ""; unsigned line = 0, col = 0; char* at = nullptr;
  __ubsan_get_current_report_data(&kind, &text, &file, &line, &col, &at);
  char b[400];
  snprintf(b, sizeof b, "UndefinedBehaviorSanitizer: %s: %s (%s:%u)", kind, text, file ? file : "", line);
  mc::violation("undefined", b);
}
namespace mc {
#endif
#ifdef __SANITIZE_ADDRESS__
}  // namespace mc
extern "C" inline __attribute__((used)) const char* __asan_default_options() {
  return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:use_sigaltstack=0:allow_user_segv_handler=1";
}
extern "C" inline __attribute__((used)) void __asan_on_error() {
  char b[200];
  snprintf(b, sizeof b, "AddressSanitizer: %s, %s of %zu bytes", __asan_get_report_description(), __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size());
  mc::unfence();
  mc::violation("memory", b);
}
namespace mc {
#endif
inline char g_altstack[1 << 16];
inline volatile uint64_t g_last_progress = 0;
inline volatile int g_stalled = 0;
inline void on_signal(int sig) {
  if (g_at_violation) g_at_violation();          // (before anything here asks for memory)
  if (sig == SIGVTALRM) {
    if (R.progress != g_last_progress) { g_last_progress = R.progress; g_stalled = 0; return; }
    if (++g_stalled < 3) return;
    violation("hang", "the operation did not finish within 20 s of CPU time");
  }
  static volatile int nested = 0;
  if (nested++) finish(1);
  if (g_guarded && (sig == SIGSEGV || sig == SIGBUS)) violation("touched", g_guarded);
  char b[160];
  snprintf(b, sizeof b, "the operation ended the program with signal %d (%s)", sig, sig == SIGSEGV ? "bad memory access" : sig == SIGABRT ? "abort: assertion or exception from a no-throw function" : "fatal");
  violation(sig == SIGABRT ? "abort" : "crash", g_err.set ? std::string(b) + "; before that: " + g_err.msg : b);
}
inline void install_signals() {
#ifdef MC_MSAN
  __sanitizer_set_death_callback(mc_indeterminate_used);
#endif
  stack_t ss{}; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  itimerval t{}; t.it_interval.tv_sec = 8; t.it_value.tv_sec = 8; setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
inline void parse_args(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") R.prop = v; else if (k == "--tier") R.tier = v; else if (k == "--out") R.out = v;
    else if (k == "--cfg") R.replay_cfg = v; else if (k == "--hist") R.replay_hist = v;
    else if (k == "--budget") R.budget = atof(v.c_str());
    else if (k == "--known") R.known_keys.push_back(v);
  }
}
inline void sample(const std::string& s) { if (R.samples.size() < 6) R.samples.push_back(s); }

}  // namespace mc
