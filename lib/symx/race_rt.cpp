// Deterministic replay of OpenMP regions: the threads of a region run one after
// another and every instrumented access is recorded; two threads that touch the
// same byte in the same barrier phase, one of them writing without atomicity, race.
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <cstdio>
typedef uintptr_t uptr;
static int g_threads = 4, g_tid = 0, g_n = 1, g_lock = 0, g_phase = 0;
static bool g_on = false;
static char *g_frame = nullptr;
struct Acc { uptr a; uint32_t n; bool w, at; int tid, phase; };
static std::vector<Acc> *g_acc = nullptr;
static std::string *g_report = nullptr;

static inline void rec(void *p, unsigned n, bool w, bool at) {
    if (!g_on) return;
    char *a = (char *) p;
    char here;
    if (a < g_frame && a > &here - (1 << 22)) return;   // thread-private stack
    g_acc->push_back({(uptr) a, n, w, at || g_lock > 0, g_tid, g_phase});
}
static void analyse() {
    struct S { int wt = -1, rt = -1; bool wmulti = false, wplain = false, rplain = false, rmulti = false; };
    std::unordered_map<uint64_t, std::unordered_map<int, int>> m;   // (phase,byte) -> tid -> flags 1 w plain 2 r plain 4 w atomic 8 r atomic
    for (auto &x : *g_acc)
        for (unsigned k = 0; k < x.n; k++)
            m[((uint64_t) x.phase << 56) ^ (x.a + k)][x.tid] |= (x.w ? 1 : 2) << (x.at ? 2 : 0);
    for (auto &e : m) {
        for (auto &s : e.second)
            for (auto &t : e.second)
                if (s.first != t.first && (s.second & 5)) {
                    bool atom = !(s.second & 1) && !(t.second & 3);
                    if (!atom && t.second) {
                        if (g_report->empty()) {
                            char b[200];
                            snprintf(b, sizeof b, "threads %d and %d access the same byte (flags %d/%d) in a parallel region", s.first, t.first, s.second, t.second);
                            *g_report = b;
                        }
                        return;
                    }
                }
    }
}
struct Loop { long lo, hi, inc, chunk, next; };
static Loop g_loop;
static void run_region(void (*fn)(void *), void *data, unsigned nt) {
    if (g_on) { fn(data); return; }
    if (!g_acc) { g_acc = new std::vector<Acc>; g_report = new std::string; }
    g_acc->clear();
    g_n = nt ? (int) nt : g_threads;
    for (g_tid = 0; g_tid < g_n; g_tid++) {
        g_phase = 0;
        g_loop.next = -1;
        g_on = true;
        fn(data);
        g_on = false;
    }
    g_tid = 0; g_n = 1;
    analyse();
}
extern "C" {
void race_threads(int n) { g_threads = n; }
const char *race_report() { return g_report ? g_report->c_str() : ""; }
void race_clear() { if (g_report) g_report->clear(); }
__attribute__((noinline)) void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    if (!g_on) g_frame = (char *) __builtin_frame_address(0);
    run_region(fn, data, nt);
}
int omp_get_num_threads() { return g_n; }
int omp_get_thread_num() { return g_tid; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
int omp_in_parallel() { return g_on; }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
void GOMP_barrier() { g_phase++; }
void GOMP_critical_start() { g_lock++; }
void GOMP_critical_end() { g_lock--; }
void GOMP_critical_name_start(void **) { g_lock++; }
void GOMP_critical_name_end(void **) { g_lock--; }
void GOMP_atomic_start() { g_lock++; }
void GOMP_atomic_end() { g_lock--; }
bool GOMP_single_start() { return g_tid == 0; }
static bool nxt(long *a, long *b) {
    // chunks are dealt out in turn
    long total = g_loop.inc > 0 ? (g_loop.hi - g_loop.lo + g_loop.inc - 1) / g_loop.inc : (g_loop.lo - g_loop.hi - g_loop.inc - 1) / -g_loop.inc;
    long c = g_loop.chunk > 0 ? g_loop.chunk : 1;
    long k = g_loop.next < 0 ? g_tid : g_loop.next;
    if (k * c >= total) return false;
    *a = g_loop.lo + k * c * g_loop.inc;
    long e = (k + 1) * c < total ? (k + 1) * c : total;
    *b = g_loop.lo + e * g_loop.inc;
    g_loop.next = k + g_n;
    return true;
}
static bool start(long lo, long hi, long inc, long ch, long *a, long *b) {
    g_loop = {lo, hi, inc, ch, -1};
    return nxt(a, b);
}
#define LOOP(n) bool GOMP_loop_##n##_start(long l, long h, long i, long c, long *a, long *b) { return start(l, h, i, c, a, b); } \
                bool GOMP_loop_##n##_next(long *a, long *b) { return nxt(a, b); } \
                void GOMP_parallel_loop_##n(void (*fn)(void *), void *d, unsigned nt, long l, long h, long i, long c, unsigned) { \
                    if (!g_on) g_frame = (char *) __builtin_frame_address(0); g_loop = {l, h, i, c, -1}; run_region(fn, d, nt); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
void GOMP_loop_end() { g_phase++; }
void GOMP_loop_end_nowait() {}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define RW(n) void __tsan_read##n(void *p) { rec(p, n, false, false); } void __tsan_write##n(void *p) { rec(p, n, true, false); } \
  void __tsan_unaligned_read##n(void *p) { rec(p, n, false, false); } void __tsan_unaligned_write##n(void *p) { rec(p, n, true, false); } \
  void __tsan_volatile_read##n(void *p) { rec(p, n, false, false); } void __tsan_volatile_write##n(void *p) { rec(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { rec(p, n, false, false); }
void __tsan_write_range(void *p, unsigned long n) { rec(p, n, true, false); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { rec((void *) p, sizeof(T), false, true); return *p; } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { rec((void *) p, sizeof(T), true, true); T o = *p; *p = o & v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { rec((void *) p, sizeof(T), true, true); \
      if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { rec((void *) p, sizeof(T), true, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
