// Small gravitating systems, snapshots of simulation state, and the method list shared by the simulation scenarios.
#pragma once
#include <cmath>
#include <cstring>
#include <sstream>
#include "common.h"
#include "spaceHub.hpp"

namespace nb {
template <typename T>
double num(T const &x) {
    return static_cast<double>(x);
}
template <typename P>
std::vector<double> snap(P const &p) {
    std::vector<double> v;
    v.push_back(num(p.time()));
    for (size_t i = 0; i < p.number(); ++i) {
        v.push_back(num(p.pos(i).x)), v.push_back(num(p.pos(i).y)), v.push_back(num(p.pos(i).z));
        v.push_back(num(p.vel(i).x)), v.push_back(num(p.vel(i).y)), v.push_back(num(p.vel(i).z));
    }
    return v;
}
inline bool same(std::vector<double> const &a, std::vector<double> const &b) {
    return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
}
inline int first_diff(std::vector<double> const &a, std::vector<double> const &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (std::memcmp(&a[i], &b[i], sizeof(double))) return (int)i;
    return a.size() == b.size() ? -1 : (int)std::min(a.size(), b.size());
}
// Initial conditions: kind selects the layout, seed perturbs it. Plain numbers, no library code.
struct Ic {
    struct B {
        double m, x[3], v[3];
    };
    std::vector<B> b;
    double period = 2 * M_PI;
};
inline Ic ic(int kind, double e = 0.1, double twist = 0.3) {
    Ic r;
    auto two = [&](double m1, double m2, double a, double ecc) {
        double m = m1 + m2, rp = a * (1 + ecc), v = std::sqrt(m * (1 - ecc) / (a * (1 + ecc)));
        double c = std::cos(twist), s = std::sin(twist);
        r.b.push_back({m1, {-rp * m2 / m, 0, 0}, {0, -v * c * m2 / m, -v * s * m2 / m}});
        r.b.push_back({m2, {rp * m1 / m, 0, 0}, {0, v * c * m1 / m, v * s * m1 / m}});
        r.period = 2 * M_PI * std::sqrt(a * a * a / m);
    };
    switch (kind) {
        case 0: two(1, 0.5, 1, e); break;
        case 1:  // hierarchical triple
            two(1, 0.8, 1, e);
            r.b.push_back({0.6, {9, 1, 0.5}, {-0.05, 0.5, 0.02}});
            break;
        case 2:  // a planet system
            two(1, 1e-3, 1, e);
            r.b.push_back({3e-4, {0, 2.1, 0.05}, {-0.69, 0, 0.01}});
            r.b.push_back({5e-5, {-3.2, 0.2, 0}, {0.02, -0.56, 0.03}});
            break;
        default:  // three comparable bodies meeting
            r.b.push_back({1, {-1.1, 0.1, 0}, {0.3, 0.2, 0.1}});
            r.b.push_back({1.2, {1.3, -0.2, 0.1}, {-0.2, -0.3, 0}});
            r.b.push_back({0.7, {0.2, 1.7, -0.3}, {0.1, 0.05, -0.1}});
            r.period = 4;
    }
    return r;
}
// Bodies with a size, tides, or a gas around them.
template <typename Q>
auto set_size(Q &q, double m, int) -> decltype((void)q.radius) {
    q.radius = 0.01 * std::cbrt(m);
}
template <typename Q>
auto set_tides(Q &q, double m, int) -> decltype((void)q.tide_lag_time) {
    q.tide_apsidal_const = m > 0.01 ? 0.014 : 0, q.tide_lag_time = 0.02 * m;
}
template <typename Q>
auto set_gas(Q &q, double m, int) -> decltype((void)q.local_cs) {
    q.sub_sonic_coef = 1e-3 * m, q.local_cs = 0.6;
}
template <typename Q>
void set_size(Q &, double, long) {}
template <typename Q>
void set_tides(Q &, double, long) {}
template <typename Q>
void set_gas(Q &, double, long) {}
template <typename Sim>
std::vector<typename Sim::Particle> particles(Ic const &c) {
    std::vector<typename Sim::Particle> p;
    for (auto &b : c.b) {
        typename Sim::Particle q;
        q.mass = b.m;
        q.pos.x = b.x[0], q.pos.y = b.x[1], q.pos.z = b.x[2];
        q.vel.x = b.v[0], q.vel.y = b.v[1], q.vel.z = b.v[2];
        set_size(q, b.m, 0), set_tides(q, b.m, 0), set_gas(q, b.m, 0);
        p.push_back(q);
    }
    return p;
}
template <typename P>
double energy(P const &p) {
    double e = 0;
    for (size_t i = 0; i < p.number(); ++i) {
        double vx = num(p.vel(i).x), vy = num(p.vel(i).y), vz = num(p.vel(i).z);
        e += 0.5 * num(p.mass(i)) * (vx * vx + vy * vy + vz * vz);
        for (size_t j = 0; j < i; ++j) {
            double dx = num(p.pos(i).x) - num(p.pos(j).x), dy = num(p.pos(i).y) - num(p.pos(j).y), dz = num(p.pos(i).z) - num(p.pos(j).z);
            e -= num(p.mass(i)) * num(p.mass(j)) / std::sqrt(dx * dx + dy * dy + dz * dz);
        }
    }
    return e;
}
template <template <typename, template <typename> typename> typename M>
using Sim = M<hub::DefaultForce, hub::DefaultParticles>;
}  // namespace nb
