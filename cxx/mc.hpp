// Shared harness support: sharding, counters, state hashing, violation lines, "current case" on crash.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

namespace mc {
static char cur_[4096] = "";
static char* cur = cur_;   // mapped onto the file $MC_CUR, so that it survives any death of the process
static long shard = 0, nshard = 1, case_id = 0, ran = 0;
static long claimed = -1, *next_ = nullptr;
static bool thorough = false;
static std::string only;
static std::unordered_set<uint64_t> states;
static long long transitions = 0, traces = 0;
static int nviol = 0;

inline void init(int argc, char** argv) {
    if (argc > 2) { shard = atol(argv[1]); nshard = atol(argv[2]); }
    if (argc > 3) thorough = !strcmp(argv[3], "thorough");
    for (int i = 4; i + 1 < argc; i++) if (!strcmp(argv[i], "--only")) { only = argv[i+1]; }
    if (const char* f = getenv("MC_CUR")) {
        std::string p = std::string(f) + "." + std::to_string(shard);
        int fn = open((std::string(f) + ".next").c_str(), O_RDWR, 0600);
        if (fn >= 0) { void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fn, 0); if (m != MAP_FAILED) next_ = (long*)m; }
        int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) { void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) cur = (char*)m; }
    }
}
// Announce a case; returns true when this shard has to run it.
inline bool begin(const char* fmt, ...) {
    long id = case_id++;
    if (only.empty()) {   // cases are handed out to the shards from a shared counter, in enumeration order
        if (claimed < 0) claimed = next_ ? __atomic_fetch_add(next_, 1, __ATOMIC_SEQ_CST) : shard;
        if (id != claimed) return false;
        claimed = next_ ? __atomic_fetch_add(next_, 1, __ATOMIC_SEQ_CST) : claimed + nshard;
    }
    if (nviol >= 10) return false;
    va_list ap; va_start(ap, fmt); vsnprintf(cur, 4096, fmt, ap); va_end(ap);
    if (!only.empty()) { if (only != cur) return false; if (shard != 0) return false; }
    ran++;
    if (ran == 1 || ran == 100) printf("SAMPLE\t%s\n", cur);
    return true;
}
inline void viol(const char* key, const char* fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char* p = b; *p; ++p) if (*p == '\t' || *p == '\n') *p = ' ';
    printf("VIOL\t%s\t%s\t%s\n", key ? key : "", b, cur); fflush(stdout);
    nviol++;
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
struct H { uint64_t h = 1469598103934665603ULL;
    H& d(double x) { long long q = llround(x * 1e6); h = fnv(&q, sizeof q, h); return *this; }
    H& i(long long x) { h = fnv(&x, sizeof x, h); return *this; }
    H& s(const std::string& x) { h = fnv(x.data(), x.size(), h); return *this; } };
inline bool state(const H& k) { return states.insert(k.h).second; }
inline bool state_cur() { H k; k.s(cur); return state(k); }
inline void step(long long n = 1) { transitions += n; }
inline void validated(long long n = 1) { traces += n; }
inline bool near(double a, double b, double tol) { if (!(std::isfinite(a) && std::isfinite(b))) return false; return std::fabs(a-b) <= tol*(1+std::fabs(b)); }
inline int done() {
    if (const char* f = getenv("MC_CUR")) if (FILE* o = fopen((std::string(f) + "." + std::to_string(shard) + ".states").c_str(), "wb")) { for (uint64_t h : states) fwrite(&h, 8, 1, o); fclose(o); }
    printf("STAT\t%zu\t%lld\t%lld\t%ld\n", states.size(), transitions, traces, ran); fflush(stdout); return 0; }
}
#define MC_CHECK(cond, ...) do { if (!(cond)) { mc::viol(nullptr, __VA_ARGS__); return; } } while (0)
