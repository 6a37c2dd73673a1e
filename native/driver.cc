// Runs the real functions of the library on concrete cases, with every array
// allocated at exactly the size the contract gives it (AddressSanitizer and
// UndefinedBehaviorSanitizer are on), every output pre-filled with a sentinel,
// and every allocation counted and, on request, refused.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>

typedef double R;
struct ti_stream { int index; int progress; };
typedef int (*start_f)(R const *);
typedef int (*batch_f)(int, R const *const *, R const *, R *const *);
typedef int (*new_f)(R const *, ti_stream **);
typedef int (*run_f)(ti_stream *, int, R const *const *, R *const *);
typedef void (*free_f)(ti_stream *);

static bool counting = false;
static long nalloc = 0, live = 0, failat = -1, refused = 0;
static int fill = 0xA5;      // what fresh memory contains
static int noise = 0;        // other calls and streams run in between

static void *get(size_t n, bool zero) {
    if (counting) {
        if (nalloc++ == failat) { refused++; return nullptr; }
        // absurd requests are refused the way an out-of-memory system would
        if (n > (size_t(1) << 31)) { refused++; return nullptr; }
    }
    char *p = (char *)(zero ? calloc(1, n) : malloc(n));
    if (p && !zero) memset(p, fill, n);
    if (p && counting) live++;
    return p;
}

extern "C" {
void *__wrap_malloc(size_t n) { return get(n, false); }
void *__wrap_calloc(size_t a, size_t b) { return b && a > SIZE_MAX / b ? nullptr : get(a * b, true); }
void __wrap_free(void *p) { if (p && counting) live--; free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return get(n, false);
    if (counting && nalloc++ == failat) { refused++; return nullptr; }
    return realloc(p, n);
}
}
void *operator new(size_t n) { void *p = get(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return get(n, false); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return get(n, false); }
void operator delete(void *p) noexcept { if (p && counting) live--; free(p); }
void operator delete[](void *p) noexcept { if (p && counting) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p && counting) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && counting) live--; free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { if (p && counting) live--; free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { if (p && counting) live--; free(p); }

static void rd(void *p, size_t n) {
    char *c = (char *)p;
    while (n) {
        size_t k = fread(c, 1, n, stdin);
        if (k == 0) _exit(0);
        c += k; n -= k;
    }
}
static int rdi() { int32_t v; rd(&v, 4); return v; }
static void wr(const void *p, size_t n) { fwrite(p, 1, n, stdout); }
static void wri(int v) { int32_t x = v; wr(&x, 4); }

static const uint64_t SENT = 0x7ff8dead0000beefull;
static R *sentinels(long n) {
    R *p = (R *)malloc(n > 0 ? n * 8 : 1);
    if (n <= 0) { free(p); return (R *)malloc(0); }
    for (long i = 0; i < n; i++) memcpy(p + i, &SENT, 8);
    return p;
}

struct Lib {
    void *h = nullptr; start_f start; batch_f batch, ref; new_f snew; run_f run; free_f sfree;
} L;

template <class F> static void sym(F &f, std::string n) { f = (F)dlsym(L.h, n.c_str()); }

static std::vector<std::vector<R>> reversed(int size, R *const *in, int nin) {
    std::vector<std::vector<R>> v;
    for (int i = 0; i < nin; i++) {
        v.emplace_back(in[i], in[i] + size);
        for (int j = 0; j < size; j++) v[i][j] = in[i][size - 1 - j] * 1.7 + 3;
    }
    return v;
}
// unrelated calls whose effects must not be seen by the call under test
static void other(int size, R *const *in, int nin, R const *opt, int nout, long n) {
    auto v = reversed(size, in, nin);
    std::vector<R *> ip; for (auto &x : v) ip.push_back(x.data());
    for (batch_f f : {L.batch, L.ref}) {
        if (!f) continue;
        std::vector<R *> op; for (int i = 0; i < nout; i++) op.push_back(sentinels(n));
        try { f(size, ip.data(), opt, op.data()); } catch (...) {}
        for (auto p : op) free(p);
    }
}
// a second stream with the same options, fed other data between the calls
struct Second {
    ti_stream *s = nullptr; int prog = 0, nin, nout;
    Second(R const *opt, int a, int b) : nin(a), nout(b) { if (!L.snew || L.snew(opt, &s) != 0) s = nullptr; else prog = s->progress; }
    void feed(int m, R *const *in) {
        if (!s) return;
        auto v = reversed(m, in, nin);
        std::vector<R *> ip, op; for (auto &x : v) ip.push_back(x.data());
        long before = prog > 0 ? prog : 0, after = (long)prog + m > 0 ? (long)prog + m : 0;
        for (int i = 0; i < nout; i++) op.push_back(sentinels(after - before));
        try { L.run(s, m, ip.data(), op.data()); } catch (...) {}
        for (auto p : op) free(p);
        prog += m;
    }
    ~Second() { if (s) L.sfree(s); }
};

int main() {
    for (;;) {
        int op = rdi();
        alarm(20);
        if (op == 'L') {
            int n = rdi(); std::string path(n, 0); rd(&path[0], n);
            n = rdi(); std::string nm(n, 0); rd(&nm[0], n);
            L.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!L.h) { fprintf(stderr, "%s\n", dlerror()); wri(-1); fflush(stdout); continue; }
            sym(L.start, "ti_" + nm + "_start"); sym(L.batch, "ti_" + nm); sym(L.ref, "ti_" + nm + "_ref");
            sym(L.snew, "ti_" + nm + "_stream_new"); sym(L.run, "ti_" + nm + "_stream_run"); sym(L.sfree, "ti_" + nm + "_stream_free");
            wri((L.batch ? 1 : 0) | (L.ref ? 2 : 0) | (L.snew && L.run && L.sfree ? 4 : 0));
        } else if (op == 'F') {
            fill = rdi(); noise = rdi();
            continue;
        } else if (op == 'B' || op == 'R') {
            int size = rdi(), nin = rdi(), nopt = rdi(), nout = rdi(); failat = rdi();
            R *opt = (R *)malloc(nopt * 8); rd(opt, nopt * 8);
            std::vector<R *> in(nin), out(nout);
            for (auto &p : in) { p = (R *)malloc(size * 8L); rd(p, size * 8L); }
            std::vector<std::vector<R>> keep;
            for (auto p : in) keep.emplace_back(p, p + size);
            std::vector<R> keepo(opt, opt + nopt);
            int start = L.start(opt);
            long n = (long)size - start; if (n < 0) n = 0;
            if (n > (1 << 26)) n = 1 << 26;
            for (auto &p : out) p = sentinels(n);
            R **ip = (R **)malloc(nin * 8), **opp = (R **)malloc(nout * 8);
            for (int i = 0; i < nin; i++) ip[i] = in[i];
            for (int i = 0; i < nout; i++) opp[i] = out[i];
            if (noise) other(size, ip, nin, opt, nout, n);
            nalloc = live = refused = 0; int rc = -100, exc = 0;
            counting = true;
            try { rc = (op == 'B' ? L.batch : L.ref)(size, ip, opt, opp); } catch (...) { exc = 1; }
            counting = false;
            int changed = 0;
            for (int i = 0; i < nin; i++) if (ip[i] != in[i] || memcmp(in[i], keep[i].data(), size * 8L)) changed = 1;
            if (memcmp(opt, keepo.data(), nopt * 8)) changed = 1;
            for (int i = 0; i < nout; i++) if (opp[i] != out[i]) changed = 1;
            wri(rc); wri(start); wri((int)n); wri((int)nalloc); wri((int)live); wri((int)refused); wri(exc | changed << 1);
            for (auto p : out) { wr(p, n * 8); free(p); }
            for (auto p : in) free(p);
            free(opt); free(ip); free(opp);
        } else if (op == 'S') {
            // stream: chunks of the same series, state between calls is the stream's
            int size = rdi(), nin = rdi(), nopt = rdi(), nout = rdi(); failat = rdi(); int nch = rdi();
            std::vector<int> ch(nch); for (auto &c : ch) c = rdi();
            R *opt = (R *)malloc(nopt * 8); rd(opt, nopt * 8);
            std::vector<std::vector<R>> in(nin);
            for (auto &v : in) { v.resize(size); if (size) rd(v.data(), size * 8L); }
            int start = L.start(opt);
            nalloc = live = refused = 0; int exc = 0, rc = -100;
            ti_stream *s = nullptr;
            Second *sec = noise ? new Second(opt, nin, nout) : nullptr;
            counting = true;
            try { rc = L.snew(opt, &s); } catch (...) { exc = 1; }
            counting = false;
            wri(rc); wri(start); wri(exc);
            free(opt);
            if (rc != 0 || exc) { delete sec; wri((int)nalloc); wri((int)live); wri((int)refused); fflush(stdout); continue; }
            wri(s->progress); wri(s->index);
            int pos = 0, prog = s->progress, na0 = nalloc;
            for (int c = 0; c < nch; c++) {
                int m = ch[c];
                R **ip = (R **)malloc(nin * 8), **opp = (R **)malloc(nout * 8);
                std::vector<R *> out(nout);
                for (int i = 0; i < nin; i++) { ip[i] = (R *)malloc(m * 8L); if (m) memcpy(ip[i], in[i].data() + pos, m * 8L); }
                long before = prog > 0 ? prog : 0, after = (long)prog + m > 0 ? (long)prog + m : 0;
                long n = after - before; if (n > (1 << 26)) n = 1 << 26;
                for (int i = 0; i < nout; i++) { out[i] = sentinels(n); opp[i] = out[i]; }
                int r = -100, x = 0;
                if (sec) sec->feed(m, ip);
                counting = true;
                try { r = L.run(s, m, ip, opp); } catch (...) { x = 1; }
                counting = false;
                int changed = 0;
                for (int i = 0; i < nin; i++) if (m && memcmp(ip[i], in[i].data() + pos, m * 8L)) changed = 1;
                wri(r); wri(x | changed << 1); wri(s->progress); wri((int)n);
                for (int i = 0; i < nout; i++) { wr(out[i], n * 8); free(out[i]); }
                for (int i = 0; i < nin; i++) free(ip[i]);
                free(ip); free(opp);
                pos += m; prog += m;
                if (r != 0 || x) nch = c + 1;
            }
            delete sec;
            counting = true;
            L.sfree(s);
            counting = false;
            wri((int)nalloc); wri((int)live); wri((int)refused);
            (void)na0;
        } else return 3;
        fflush(stdout);
    }
}
