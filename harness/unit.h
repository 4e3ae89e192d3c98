// Unit-level scaffolding: a hand-filled SystemState and bodies for evaluating one constraint or generator.
#pragma once
#include "scene.h"
namespace unit {
using namespace scene;
inline int genSlots(Source &s) { return s.chance(1, 400) ? s.range(10, 60) : s.chance(1, 4000) ? s.range(250, 700) : s.chance(1, 40000) ? s.range(32000, 70000) : s.range(0, 3); }   // slots of bodies that have nothing to do with the case
struct Bench {                                  // bodies, their slots in a state snapshot, everything else junk
    std::vector<RigidBody *> b; SystemState st; int n = 0;
    Bench(Source &s, const ref::World &w, int extraSlots) {
        std::vector<int> slots; int reg = w.nreg(); n = reg + extraSlots; for (int i = 0; i < n; ++i) slots.push_back(i);
        if (n <= 64) for (int i = n - 1; i > 0; --i) std::swap(slots[i], slots[s.draw(i + 1)]); else for (int i = 0; i < reg; ++i) std::swap(slots[i], slots[s.chance(1, 2) ? n - 1 - (int)s.draw(8) : i + (int)s.draw(n - i)]);
        st.resize(n, s.range(0, 3));
        double *a[] = { st.a_theta, st.v_theta, st.theta, st.a_x, st.a_y, st.v_x, st.v_y, st.p_x, st.p_y, st.f_x, st.f_y, st.t, st.m };
        for (auto *x : a) for (int i = 0; i < n; ++i) x[i] = i < 64 ? s.real(-5, 5) : x[i - 61] + 0.125;
        for (int i = 0; i < n; ++i) st.m[i] = i < 64 ? s.logreal(0.1, 10) : st.m[i - 61] * 1.01;
        for (int i = 0; i < st.n_c; ++i) { st.indexMap[i] = i; for (int k = 0; k < 2; ++k) st.r_x[2 * i + k] = st.r_y[2 * i + k] = st.r_t[2 * i + k] = 1.5 + i; }
        st.dt = s.logreal(1e-3, 0.1); int k = 0;
        for (auto &q : w.bodies) { RigidBody *r = new RigidBody; r->m = q.m; r->I = q.I; r->index = q.reg ? slots[k++] : -1; b.push_back(r); set((int)b.size() - 1, q, s); }
    }
    // registered bodies: the snapshot is what counts, the body itself holds other values
    void set(int i, const ref::BSpec &q, Source &s, bool same = false) {
        RigidBody *r = b[i]; int k = r->index;
        if (k >= 0) { st.p_x[k] = q.x; st.p_y[k] = q.y; st.theta[k] = q.th; st.v_x[k] = q.vx; st.v_y[k] = q.vy; st.v_theta[k] = q.w; st.m[k] = q.m; }
        if (k < 0 || same) { r->p_x = q.x; r->p_y = q.y; r->theta = q.th; } else { r->p_x = s.real(-5, 5); r->p_y = s.real(-5, 5); r->theta = s.real(-5, 5); }
        if (k >= 0 && same) { r->v_x = q.vx; r->v_y = q.vy; r->v_theta = q.w; } else { r->v_x = s.real(-5, 5); r->v_y = s.real(-5, 5); r->v_theta = s.real(-5, 5); }
    }
    double *coord(int body, int k) { RigidBody *r = b[body]; if (r->index < 0) return k == 0 ? &r->p_x : k == 1 ? &r->p_y : &r->theta; return (k == 0 ? st.p_x : k == 1 ? st.p_y : st.theta) + r->index; }
    double rate(int body, int k) { RigidBody *r = b[body]; if (r->index < 0) return 0; return (k == 0 ? st.v_x : k == 1 ? st.v_y : st.v_theta)[r->index]; }
    void destroy() { for (auto *x : b) delete x; b.clear(); st.destroy(); }
};
// a snapshot of every byte a generator or constraint could change
inline std::vector<double> dump(const Bench &B, bool withForces) {
    std::vector<double> v; const SystemState &s = B.st; const double *a[] = { s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.m, s.f_x, s.f_y, s.t };
    for (int k = 0; k < (withForces ? 13 : 10); ++k) for (int i = 0; i < s.n; ++i) v.push_back(a[k][i]);
    for (int i = 0; i < 2 * s.n_c; ++i) { v.push_back(s.r_x[i]); v.push_back(s.r_y[i]); v.push_back(s.r_t[i]); }
    for (int i = 0; i < s.n_c; ++i) v.push_back(s.indexMap[i]);
    v.push_back(s.n); v.push_back(s.n_c); v.push_back(s.dt);
    for (auto *r : B.b) { double t[] = { r->p_x, r->p_y, r->theta, r->v_x, r->v_y, r->v_theta, r->m, r->I, (double)r->index }; v.insert(v.end(), t, t + 9); }
    return v;
}
// one random constraint of a kind over one or two bodies (an anchor where the library supports it)
inline ref::World oneConstraint(Source &s, int kind, bool anchors, bool limits) {
    Opt o; o.pos = s.chance(1, 6) ? 50 : 5; o.vel = 6; if (s.chance(1, 10)) { int f = s.range(1, 7); if (f & 1) o.pos = s.logreal(50, 1e6); if (f & 2) o.angle = s.logreal(50, 1e6); if (f & 4) o.vel = s.logreal(10, 1e4); } o.limits = limits; o.neutral = true; ref::World w; int nb = ref::bodiesOf(kind);
    for (int i = 0; i < nb; ++i) w.bodies.push_back(genBody(s, o));
    if (anchors && nb == 2 && s.chance(1, 3)) w.bodies[s.range(0, 1)].reg = false;
    ref::CSpec c; c.kind = kind; c.b[0] = 0; if (nb > 1) { c.b[1] = 1; if (s.chance(1, 2)) std::swap(c.b[0], c.b[1]); }
    genParams(s, o, w, c, s.chance(1, 2));
    if (s.chance(1, 5)) { static const int N[] = { 4, 1, 4, 4, 2 }; if (kind <= ref::Roll) for (int i = 0; i < N[kind]; ++i) if (s.chance(1, 2)) c.p[i] = coord(s, s.chance(1, 6) ? 1e5 : 100); }      // far from being met
    if (s.chance(1, 10)) { static const int N[] = { 4, 1, 4, 4, 2, 1, 0, 0, 0 }; if (kind <= ref::Gear) for (int i = 0; i < N[kind]; ++i) if (s.chance(2, 3)) c.p[i] = 0; if (kind == ref::Gear && s.chance(2, 3)) c.p[0] = 1; if (s.chance(2, 3)) c.ks = 10; if (s.chance(2, 3)) c.kd = 1; }      // left at the defaults
    if (s.chance(1, 10)) { c.ks = s.logreal(10, 1e6); c.kd = s.logreal(10, 1e6); }
    w.cons.push_back(c); return w;
}
const double SENTINEL = 8.7654321e77;
inline void poison(Constraint::Output &o) { double *p = (double *)&o; for (size_t i = 0; i < sizeof o / sizeof(double); ++i) p[i] = SENTINEL; }
} // namespace unit
