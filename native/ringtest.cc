// Concrete check of the containers in utils/ against a list of pushed values.
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "indicators.h"
#include "utils/ringbuf.hh"
#include "utils/buffer.h"
static unsigned long long seed = 88172645463325252ull;
static unsigned rnd(unsigned n) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return (seed >> 11) % n; }
static std::string hist;
#define FAIL(...) do { printf(__VA_ARGS__); printf(" after pushing %s\n", hist.c_str()); exit(1); } while (0)

template<int N, class B> void run(B &b, int n, const char *op) {
    std::vector<double> v;              // newest first
    hist = "";
    bool all = !*op;
    auto want = [&](const char *o) { return all || !strcmp(op, o) || !strcmp(op, "push") || !strcmp(op, "step") || !strcmp(op, "put") || !strcmp(op, "new") || !strcmp(op, "resize"); };
    for (int t = 0; t < 4 * n + 6; ++t) {
        for (int k = 0; k < n && want("get"); ++k) {
            double e = k < (int)v.size() ? v[k] : 0, g = b[k];
            if (g != e) FAIL("ringbuf<%d> of capacity %d: the value of age %d is %g, expected %g,", N, n, k, g, e);
        }
        if (want("cur") && (double)b != (v.empty() ? 0 : v[0])) FAIL("ringbuf<%d> of capacity %d: current value %g,", N, n, (double)b);
        if (!v.empty())
        for (int m = 1; m <= n; ++m) for (int s = 0; s < 2; ++s) {
            if (!want(s ? "min" : "max") && !want("age")) continue;
            double *p = s ? b.find_min(m) : b.find_max(m);
            double e = v[0];
            for (int k = 1; k < m; ++k) { double x = k < (int)v.size() ? v[k] : 0; if (s ? x < e : x > e) e = x; }
            if (*p != e) FAIL("ringbuf<%d> of capacity %d: %s of the last %d values is %g, expected %g,", N, n, s ? "minimum" : "maximum", m, *p, e);
            int a = b.iterator_to_age(p);
            if (a < 0 || a >= m || (a < (int)v.size() ? v[a] : 0) != e) FAIL("ringbuf<%d> of capacity %d: %s of the last %d values reported at age %d,", N, n, s ? "minimum" : "maximum", m, a);
        }
        if (want("begin") || want("end")) if (b.phend() - b.phbegin() != n) FAIL("ringbuf<%d>: storage of %d values,", N, (int)(b.phend() - b.phbegin()));
        double x = (int)rnd(9) - 4;
        step(b);
        b = x;
        v.insert(v.begin(), x);
        if ((int)v.size() > n) v.pop_back();
        hist += std::to_string((int)x) + " ";
    }
}
template<int N> void fixed(const char *op) {
    for (int r = 0; r < 20; ++r) {
        void *p = malloc(sizeof(ringbuf<N>));
        memset(p, 0x55, sizeof(ringbuf<N>));
        auto *b = new (p) ringbuf<N>();
        run<N>(*b, N, op);
        free(p);
    }
}
static void heap(const char *op) {
    for (int n = 1; n < 12; ++n) for (int r = 0; r < 6; ++r) {
        ringbuf<0> b(n);
        run<0>(b, n, op);
        int m = 1 + rnd(9);
        b.resize(m);
        run<0>(b, m, op);
    }
}
static void tibuf(const char *op) {
    for (int n = 1; n < 12; ++n) for (int q = 0; q < 2; ++q) for (int r = 0; r < 6; ++r) {
        if ((q && !strcmp(op, "push")) || (!q && !strcmp(op, "qpush"))) continue;
        ti_buffer *b = ti_buffer_new(n);
        std::vector<double> v;
        hist = "";
        for (int t = 0; t < 4 * n + 5; ++t) {
            double x = (int)rnd(9) - 4, s = 0;
            if (q) ti_buffer_qpush(b, x); else ti_buffer_push(b, x);
            hist += std::to_string((int)x) + " ";
            v.insert(v.begin(), x);
            if ((int)v.size() > n) v.pop_back();
            for (double y : v) s += y;
            for (int k = 0; k < (int)v.size(); ++k) if (ti_buffer_get(b, -k) != v[k]) FAIL("ti_buffer of capacity %d: the value of age %d is %g, expected %g,", n, k, ti_buffer_get(b, -k), v[k]);
            if ((int)v.size() == n && ti_buffer_get(b, 1) != v[n - 1]) FAIL("ti_buffer of capacity %d: the oldest value is %g, expected %g,", n, ti_buffer_get(b, 1), v[n - 1]);
            if (!q && b->sum != s) FAIL("ti_buffer of capacity %d: the running sum is %g, expected %g,", n, b->sum, s);
        }
        ti_buffer_free(b);
    }
}
int main(int c, char **a) {
    int n = c > 1 ? atoi(a[1]) : -2;
    const char *op = c > 2 ? a[2] : "";
    if (n == -2 || n == 1) fixed<1>(op);
    if (n == -2 || n == 2) fixed<2>(op);
    if (n == -2 || n == 3) fixed<3>(op);
    if (n == -2 || n == 4) fixed<4>(op);
    if (n == -2 || n == 5) fixed<5>(op);
    if (n == -2 || n == 7) fixed<7>(op);
    if (n == -2 || n == 13) fixed<13>(op);
    if (n == -2 || n == 0) heap(op);
    if (n == -2 || n == -1) tibuf(op);
    puts("ok");
}
