// Allocator for the code under test: all memory it owns lives in one region that can be
// saved, restored, hashed and inspected. Interposes malloc & co. for the whole process.
#include "mc.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}

namespace arena {
bool on = false;
uint64_t allocs = 0;
int64_t failAt = -1, failFrom = -1;
uint8_t fillByte = 0xCD;
bool badFree = false;
int openFiles = 0;

static const size_t CAP = 1 << 20;
static const size_t RZ = 64;            // red zone before and after each block
uint8_t GAP = 0xFD;                     // content of everything that is not a live block
struct Block { uint32_t off, size; };   // sorted by off
static const int MAXB = 256;
struct Meta { uint32_t n; uint32_t used; Block b[MAXB]; };
static Meta M;
static char *base = nullptr;

void init() {
    if (base) return;
    base = (char *)mmap((void *)0x200000000000ull, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _exit(2); }
    memset(base, GAP, CAP);
}
static uint32_t high = 0;               // no block was ever beyond this
void setGap(uint8_t g) { init(); if (g == GAP) return; GAP = g; memset(base + M.used, GAP, std::min(CAP - M.used, (size_t)(high - M.used) + 8192)); }
void reset() { init(); memset(base, GAP, M.used + RZ); M.n = 0; M.used = 0; badFree = false; openFiles = 0; }
bool owns(const void *p) { return base && (char *)p >= base && (char *)p < base + CAP; }
size_t live() { return M.n; }
size_t liveBytes() { size_t s = 0; for (uint32_t i = 0; i < M.n; i++) s += M.b[i].size; return s; }
std::string liveDump() {
    std::string s;
    for (uint32_t i = 0; i < M.n; i++) s += strf(" [%u bytes]", M.b[i].size);
    return s;
}

static void *alloc(size_t n, bool zero) {
    int64_t idx = (int64_t)allocs++;
    if (idx == failAt || (failFrom >= 0 && idx >= failFrom)) { errno = ENOMEM; return nullptr; }
    size_t need = (n + 15) & ~(size_t)15;
    if (need > CAP / 2) { errno = ENOMEM; return nullptr; }
    uint32_t pos = 0, prevEnd = 0;
    for (pos = 0; pos < M.n; pos++) {
        if (M.b[pos].off >= prevEnd + RZ + need + RZ) break;
        prevEnd = M.b[pos].off + ((M.b[pos].size + 15) & ~15u);
    }
    size_t off = prevEnd + RZ;
    if (off + need + RZ > CAP || M.n >= MAXB) { fprintf(stderr, "arena exhausted\n"); _exit(2); }
    memmove(&M.b[pos + 1], &M.b[pos], (M.n - pos) * sizeof(Block));
    M.b[pos].off = (uint32_t)off; M.b[pos].size = (uint32_t)n; M.n++;
    if (off + need > M.used) M.used = (uint32_t)(off + need);
    if (M.used > high) high = M.used;
    memset(base + off, zero ? 0 : fillByte, n);
    return base + off;
}
static int find(void *p) {
    uint32_t off = (uint32_t)((char *)p - base);
    for (uint32_t i = 0; i < M.n; i++) if (M.b[i].off == off) return (int)i;
    return -1;
}
static void release(void *p) {
    int i = find(p);
    if (i < 0) { badFree = true; return; }
    memset(base + M.b[i].off, GAP, M.b[i].size);
    memmove(&M.b[i], &M.b[i + 1], (M.n - i - 1) * sizeof(Block));
    M.n--;
    uint32_t used = 0;
    if (M.n) used = M.b[M.n - 1].off + ((M.b[M.n - 1].size + 15) & ~15u);
    M.used = used;
}
bool intact(std::string &why) {
    if (badFree) { why = "free of an address that is not allocated"; return false; }
    uint32_t pos = 0;
    for (uint32_t i = 0; i <= M.n; i++) {
        uint32_t end = i < M.n ? M.b[i].off : (uint32_t)std::min((size_t)M.used + 4096, CAP);
        for (uint32_t k = pos; k < end; k++)
            if ((uint8_t)base[k] != GAP) { why = strf("memory outside allocated blocks changed at offset %u (%u bytes after block %d)", k, k - pos, (int)i - 1); return false; }
        if (i < M.n) pos = M.b[i].off + M.b[i].size;
    }
    return true;
}
void save(std::string &out) {
    out.append((const char *)&M, 8 + M.n * sizeof(Block));
    out.append(base, M.used);
}
void load(const char *p, size_t n) {
    init();
    uint32_t oldUsed = M.used;
    uint32_t nb; memcpy(&nb, p, 4);
    memcpy(&M, p, 8 + nb * sizeof(Block));
    p += 8 + nb * sizeof(Block);
    memcpy(base, p, M.used);
    if (oldUsed > M.used) memset(base + M.used, GAP, oldUsed - M.used);
    (void)n;
}
// content of everything reachable from root, independent of addresses
static int blockOf(uint64_t v) {
    if (v < (uint64_t)base || v >= (uint64_t)base + CAP) return -1;
    uint32_t off = (uint32_t)(v - (uint64_t)base);
    for (uint32_t i = 0; i < M.n; i++) if (off >= M.b[i].off && off <= M.b[i].off + M.b[i].size) return (int)i;
    return -1;
}
void canon(const void *root, std::string &out, uint64_t (*map)(uint64_t)) {
    std::vector<int> order; std::vector<int> idx(M.n, -1);
    auto ref = [&](uint64_t v) -> bool {
        int b = blockOf(v); if (b < 0) return false;
        if (idx[(size_t)b] < 0) { idx[(size_t)b] = (int)order.size(); order.push_back(b); }
        uint64_t t[2] = {0xB10CB10C00000000ull + (uint64_t)idx[(size_t)b], v - (uint64_t)(base + M.b[b].off)}; out.append((char *)t, 16); return true;
    };
    if (!ref((uint64_t)root)) { out += root ? "?" : "0"; return; }
    for (size_t k = 0; k < order.size(); k++) {
        Block b = M.b[order[k]]; out.append((char *)&b.size, 4);
        uint32_t i = 0;
        for (; i + 8 <= b.size; i += 8) { uint64_t v; memcpy(&v, base + b.off + i, 8); if (!ref(v)) { v = map(v); out.append((char *)&v, 8); } }
        out.append(base + b.off + i, b.size - i);
    }
}
}  // namespace arena

#ifndef MC_ASAN
extern "C" {
void *malloc(size_t n) { return arena::on ? arena::alloc(n, false) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
    if (!arena::on) return __libc_calloc(a, b);
    return arena::alloc(a * b, true);
}
void free(void *p) {
    if (!p) return;
    if (arena::owns(p)) arena::release(p); else __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (p && arena::owns(p)) {
        int i = arena::find(p);
        if (i < 0) { arena::badFree = true; return nullptr; }
        uint32_t old = arena::M.b[i].size;
        if (n <= old && n > 0 && ((n + 15) & ~(size_t)15) == ((old + 15) & ~15u)) {
            // still counts as an allocation attempt that may fail
            int64_t idx = (int64_t)arena::allocs++;
            if (idx == arena::failAt || (arena::failFrom >= 0 && idx >= arena::failFrom)) { errno = ENOMEM; return nullptr; }
            memset(arena::base + arena::M.b[i].off + n, arena::GAP, old - n);
            arena::M.b[i].size = (uint32_t)n;
            return p;
        }
        bool was = arena::on; arena::on = true;
        void *q = arena::alloc(n, false);
        arena::on = was;
        if (!q) return nullptr;
        memcpy(q, p, n < old ? n : old);
        arena::release(p);
        return q;
    }
    if (arena::on) return arena::alloc(n, false);
    return __libc_realloc(p, n);
}
FILE *fopen(const char *path, const char *mode) {
    static FILE *(*real)(const char *, const char *) = nullptr;
    bool was = arena::on; arena::on = false;
    if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    FILE *f = real(path, mode);
    if (f && was) { setvbuf(f, nullptr, _IONBF, 0); arena::openFiles++; }
    arena::on = was;
    return f;
}
int fclose(FILE *f) {
    static int (*real)(FILE *) = nullptr;
    bool was = arena::on; arena::on = false;
    if (!real) real = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
    int r = real(f);
    if (was) arena::openFiles--;
    arena::on = was;
    return r;
}
}
#endif
