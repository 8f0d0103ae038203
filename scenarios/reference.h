// An independent integrator (Gragg extrapolation in long double, plain arrays) used as oracle for one step of a
// trajectory. No library code.
#pragma once
#include <cmath>
#include <cstring>

namespace ref {
struct Law {
    double drag = 0;  // acceleration -drag * v
    double trap = 0;  // acceleration -trap * x
};
struct Sys {
    static constexpr int MAX = 8;
    int n = 0;
    double m[MAX];
    Law law;
};
typedef long double real;
#define REF_PLAIN __attribute__((no_sanitize("thread"), noinline))

// y: x0 y0 z0 .. then velocities
REF_PLAIN inline void deriv(Sys const &s, real const *y, real *f) {
    int n3 = 3 * s.n;
    for (int i = 0; i < n3; ++i) {
        f[i] = y[n3 + i];
        f[n3 + i] = -s.law.drag * y[n3 + i] - s.law.trap * y[i];
    }
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j) {
            real dx = y[3 * j] - y[3 * i], dy = y[3 * j + 1] - y[3 * i + 1], dz = y[3 * j + 2] - y[3 * i + 2];
            real r2 = dx * dx + dy * dy + dz * dz, w = 1 / (r2 * sqrtl(r2));
            f[n3 + 3 * i] += s.m[j] * w * dx, f[n3 + 3 * i + 1] += s.m[j] * w * dy, f[n3 + 3 * i + 2] += s.m[j] * w * dz;
            f[n3 + 3 * j] -= s.m[i] * w * dx, f[n3 + 3 * j + 1] -= s.m[i] * w * dy, f[n3 + 3 * j + 2] -= s.m[i] * w * dz;
        }
}
REF_PLAIN inline bool gragg(Sys const &s, real *y, real H) {
    constexpr int K = 12, N = 6 * Sys::MAX;
    real T[K][N], f[N], a[N], b[N], c[N];
    int n = 6 * s.n;
    real best = 1e300L;
    for (int k = 0; k < K; ++k) {
        int steps = 2 * (k + 1);
        real h = H / steps;
        deriv(s, y, f);
        for (int i = 0; i < n; ++i) a[i] = y[i], b[i] = y[i] + h * f[i];
        for (int q = 1; q < steps; ++q) {
            deriv(s, b, f);
            for (int i = 0; i < n; ++i) c[i] = a[i] + 2 * h * f[i], a[i] = b[i], b[i] = c[i];
        }
        deriv(s, b, f);
        for (int i = 0; i < n; ++i) T[k][i] = (a[i] + b[i] + h * f[i]) / 2;
        for (int j = k; j > 0; --j) {
            real r = (real)(k + 1) / j, w = 1 / (r * r - 1);
            for (int i = 0; i < n; ++i) T[j - 1][i] = T[j][i] + (T[j][i] - T[j - 1][i]) * w;
        }
        // now T[0] is the best of order k; compare with the previous one kept in f
        static thread_local real last[N];
        if (k) {
            real err = 0, sx = 1e-30L, sv = 1e-30L;
            for (int i = 0; i < n / 2; ++i) sx = fmaxl(sx, fabsl(T[0][i])), sv = fmaxl(sv, fabsl(T[0][n / 2 + i]));
            for (int i = 0; i < n / 2; ++i) {
                err = fmaxl(err, fabsl(T[0][i] - last[i]) / sx);
                err = fmaxl(err, fabsl(T[0][n / 2 + i] - last[n / 2 + i]) / sv);
            }
            if (!(err < 1e300L)) return false;
            best = err;
            if (err < 2e-17L) {
                for (int i = 0; i < n; ++i) y[i] = T[0][i];
                return true;
            }
        }
        for (int i = 0; i < n; ++i) last[i] = T[0][i];
    }
    if (best < 1e-15L) {
        for (int i = 0; i < n; ++i) y[i] = T[0][i];
        return true;
    }
    return false;
}
// Advance y by dt; false when the problem is too hard (collision).
REF_PLAIN inline bool advance(Sys const &s, real *y, real dt, int depth = 0) {
    real z[6 * Sys::MAX];
    memcpy(z, y, sizeof(real) * 6 * s.n);
    if (gragg(s, z, dt)) {
        memcpy(y, z, sizeof(real) * 6 * s.n);
        return true;
    }
    if (depth > 14) return false;
    return advance(s, y, dt / 2, depth + 1) && advance(s, y, dt / 2, depth + 1);
}
REF_PLAIN inline real max_acc(Sys const &s, real const *y) {
    real f[6 * Sys::MAX], r = 0;
    deriv(s, y, f);
    for (int i = 3 * s.n; i < 6 * s.n; ++i) r = fmaxl(r, fabsl(f[i]));
    return r;
}
}  // namespace ref
