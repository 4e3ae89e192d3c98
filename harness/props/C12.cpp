// Integrators driven through their protocol with synthetic acceleration laws, against the textbook schemes.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C12";
const char *PROPERTY_RULE = "1-4 integrations of systems of varying size with one solver object (possibly left in the middle of an earlier step), a random smooth coupled acceleration law and step length, 1-4 steps each, compared with the scheme restated in long double; plus closed-form convergence order of RK4; non-trivial = at least one body with non-zero acceleration";
extern const long QUICK_CASES = 300000, THOROUGH_CASES = 6000000;
namespace { struct Law { double c[9][7]; }; }
static LD law(const Law &L, int k, const LD *q, const LD *v, const LD *qo, LD off) { const double *a = L.c[k % 9]; return a[0] + a[1] * q[k % 3] + a[2] * v[k % 3] + a[3] * std::sin(q[(k + 1) % 3]) + a[4] * v[(k + 2) % 3] * std::cos(q[k % 3]) + a[5] * std::sin(qo[k % 3]) + a[6] * off; }
static void drive(OdeSolver *o, SystemState &S, const Law &L, double dt, int scheme, bool abandon) {
    o->start(&S, dt); int stages = 0;
    while (true) {
        bool done = o->step(&S); ++stages; REQUIRE(stages <= 4, "the integrator does not complete its step");
        for (int i = 0; i < S.n; ++i) { int j = (i + 1) % S.n; LD q[3] = { S.p_x[i], S.p_y[i], S.theta[i] }, v[3] = { S.v_x[i], S.v_y[i], S.v_theta[i] }, qo[3] = { S.p_x[j], S.p_y[j], S.theta[j] }; double *A[3] = { S.a_x, S.a_y, S.a_theta }; for (int d = 0; d < 3; ++d) A[d][i] = (double)law(L, 3 * (i % 3) + d, q, v, qo, S.dt); }
        for (int i = 0; i < 2 * S.n_c; ++i) S.r_x[i] = S.r_y[i] = S.r_t[i] = 1;
        o->solve(&S);
        if (abandon && !done) return;
        if (done) break;
    }
    o->end(); REQUIRE(stages == (scheme == ref::Rk4 ? 4 : 1), "the step took %d stages", stages);
}
static void refStep(std::vector<LD> &q, std::vector<LD> &v, const Law &L, LD h, int scheme) {
    int n = (int)q.size() / 3; auto acc = [&](const std::vector<LD> &Q, const std::vector<LD> &V, LD off) { std::vector<LD> a(Q.size()); for (int i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) a[3 * i + d] = law(L, 3 * (i % 3) + d, &Q[3 * i], &V[3 * i], &Q[3 * ((i + 1) % n)], off); return a; };
    size_t N = q.size();
    if (scheme != ref::Rk4) { auto a = acc(q, v, h); if (scheme == ref::Euler) for (size_t k = 0; k < N; ++k) { q[k] += h * v[k]; v[k] += h * a[k]; } else for (size_t k = 0; k < N; ++k) { v[k] += h * a[k]; q[k] += h * v[k]; } return; }
    auto at = [&](const std::vector<LD> &kq, const std::vector<LD> &kv, LD f, std::vector<LD> &Q, std::vector<LD> &V) { Q = q; V = v; for (size_t k = 0; k < N; ++k) { Q[k] += f * h * kq[k]; V[k] += f * h * kv[k]; } };
    std::vector<LD> Q2, V2, Q3, V3, Q4, V4, a1 = acc(q, v, 0); at(v, a1, 0.5L, Q2, V2); auto a2 = acc(Q2, V2, h / 2); at(V2, a2, 0.5L, Q3, V3); auto a3 = acc(Q3, V3, h / 2); at(V3, a3, 1, Q4, V4); auto a4 = acc(Q4, V4, h);
    for (size_t k = 0; k < N; ++k) { LD dq = v[k] + 2 * V2[k] + 2 * V3[k] + V4[k], dv = a1[k] + 2 * a2[k] + 2 * a3[k] + a4[k]; q[k] += h / 6 * dq; v[k] += h / 6 * dv; }
}
static void order(Case &c) {                        // damped oscillators in closed form: global error falls as the fourth power
    Source &s = c.s; OdeSolver *o = makeOde(ref::Rk4); double om[3], ga[3], x0[3], v0[3]; for (int d = 0; d < 3; ++d) { om[d] = s.uniform(0.5, 2); ga[d] = s.uniform(0, 0.3); x0[d] = 1 + s.uniform(0, 2); v0[d] = s.uniform(-1, 1); }
    double T = s.uniform(0.8, 1.6), err[2][3]; 
    for (int l = 0; l < 2; ++l) { int N = l ? 32 : 16; SystemState S; S.resize(1, 0); S.p_x[0] = x0[0]; S.p_y[0] = x0[1]; S.theta[0] = x0[2]; S.v_x[0] = v0[0]; S.v_y[0] = v0[1]; S.v_theta[0] = v0[2]; S.a_x[0] = S.a_y[0] = S.a_theta[0] = S.m[0] = 0;
        for (int k = 0; k < N; ++k) { o->start(&S, T / N); while (true) { bool d = o->step(&S); S.a_x[0] = -om[0] * om[0] * S.p_x[0] - 2 * ga[0] * S.v_x[0]; S.a_y[0] = -om[1] * om[1] * S.p_y[0] - 2 * ga[1] * S.v_y[0]; S.a_theta[0] = -om[2] * om[2] * S.theta[0] - 2 * ga[2] * S.v_theta[0]; o->solve(&S); if (d) break; } o->end(); }
        double got[3] = { S.p_x[0], S.p_y[0], S.theta[0] }; for (int d = 0; d < 3; ++d) { double wd = std::sqrt(om[d] * om[d] - ga[d] * ga[d]), ex = std::exp(-ga[d] * T) * (x0[d] * std::cos(wd * T) + (v0[d] + ga[d] * x0[d]) / wd * std::sin(wd * T)); err[l][d] = std::fabs(got[d] - ex); } S.destroy(); }
    c.note("T=%.9g om=%.6g,%.6g,%.6g", T, om[0], om[1], om[2]);
    for (int d = 0; d < 3; ++d) { double h = T / 16 * std::max(om[d], 1.0); pbt::near(c, "fourth_order_error", err[0][d], 0, 3 * (std::fabs(x0[d]) + std::fabs(v0[d])) * h * h * h * h * T + 1e-13, "global error of coordinate %d", d);
        if (err[0][d] > 1e-7 && err[1][d] > 1e-9) { c.label("order_ratio_checked"); double ratio = err[0][d] / err[1][d]; /* leading error terms may cancel: only slower than fourth order is an error */ REQUIRE(ratio > 9 || err[1][d] < 0.02 * (std::fabs(x0[d]) + 1) * std::pow(h / 2, 4), "halving the step shrinks the error of coordinate %d only %.4g times", d, ratio); } }
    delete o; c.nontrivial();
}
void run_case(Case &c) {
    Source &s = c.s; if (s.chance(1, 20)) { c.label("order"); order(c); return; }
    int scheme = s.range(0, 2), count = s.range(1, 4); OdeSolver *o = makeOde(scheme); c.label(ONAME[scheme]); SystemState S; bool nt = false;
    for (int t = 0; t < count; ++t) {
        int n = s.chance(1, 12) ? 0 : s.chance(1, 10) ? s.range(6, 40) : s.range(1, 5), nc = s.range(0, 4); if (t && s.chance(1, 2)) { n = S.n; nc = S.n_c; c.label("same_size_again"); } S.resize(n, nc); Law L; for (auto &r : L.c) for (double &x : r) x = s.chance(1, 4) ? 0 : s.real(-3, 3); double dt = s.chance(1, 12) ? s.logreal(1e-9, 1e-3) : s.logreal(1e-3, 0.3); if (s.chance(1, 25)) { dt = -dt; c.label("backward_in_time"); } int steps = s.chance(1, 20) ? s.range(5, 60) : s.range(1, 4); bool abandon = scheme == ref::Rk4 && s.chance(1, 8);
        double *A[] = { S.p_x, S.p_y, S.theta, S.v_x, S.v_y, S.v_theta }, *Z[] = { S.a_x, S.a_y, S.a_theta, S.m, S.f_x, S.f_y, S.t }; double wide = s.chance(1, 10) ? s.logreal(1e-9, 1e6) : 1; if (wide != 1) c.label(wide < 1 ? "small_values" : "large_values"); if (wide > 1) for (auto &r : L.c) r[3] = r[4] = r[5] = 0; /* a linear law: no chaos */ int one = s.range(0, 5); bool only = s.chance(1, 2); for (int q = 0; q < 6; ++q) for (int i = 0; i < n; ++i) A[q][i] = s.real(-4, 4) * (!only || q == one ? wide : 1); for (auto *a : Z) for (int i = 0; i < n; ++i) a[i] = 50 + i; for (int i = 0; i < nc; ++i) { S.indexMap[i] = i; for (int k = 0; k < 2; ++k) S.r_x[2 * i + k] = S.r_y[2 * i + k] = S.r_t[2 * i + k] = 3; }
        std::vector<LD> q, v; for (int i = 0; i < n; ++i) { LD x[3] = { S.p_x[i], S.p_y[i], S.theta[i] }, y[3] = { S.v_x[i], S.v_y[i], S.v_theta[i] }; q.insert(q.end(), x, x + 3); v.insert(v.end(), y, y + 3); }
        c.note("integration %d: %s, %d bodies, dt=%.9g, %d steps%s", t, ONAME[scheme], n, dt, steps, abandon ? ", then abandoned inside a step" : ""); S.dt = 77; LD peak = 1;
        for (int k = 0; k < steps; ++k) {
            std::vector<LD> pq = q, pv = v; drive(o, S, L, dt, scheme, false); LD mag = peak; if (n) refStep(q, v, L, dt, scheme); for (size_t i = 0; i < q.size(); ++i) mag = std::max({ mag, std::fabs(q[i]), std::fabs(v[i]) });
            if (steps > 4) { if (!k) c.label("many_steps"); }
            peak = mag; if (mag > 1e3 * std::max(1.0, wide)) { c.label("grew_out_of_range"); break; }
            for (int i = 0; i < n; ++i) { double g[6] = { S.p_x[i], S.p_y[i], S.theta[i], S.v_x[i], S.v_y[i], S.v_theta[i] }; static const char *const N[] = { "p_x", "p_y", "theta", "v_x", "v_y", "v_theta" };
                for (int d = 0; d < 6; ++d) pbt::near(c, d < 3 ? "position" : "velocity", g[d], (double)(d < 3 ? q[3 * i + d] : v[3 * i + d - 3]), (double)(2e-12L * mag), "integration %d step %d body %d %s", t, k, i, N[d]); REQUIRE(S.m[i] == 50 + i, "the integrator changed a mass"); }
            if (steps > 4) for (int i = 0; i < n; ++i) { LD x[3] = { S.p_x[i], S.p_y[i], S.theta[i] }, y[3] = { S.v_x[i], S.v_y[i], S.v_theta[i] }; for (int d = 0; d < 3; ++d) { q[3 * i + d] = x[d]; v[3 * i + d] = y[d]; } }
            REQUIRE(S.n == n && S.n_c == nc, "the integrator changed the size of the state"); if (n) nt = true;
        }
        if (abandon) { c.label("abandoned_step"); drive(o, S, L, dt, scheme, true); }
    }
    if (count > 1) c.label("solver_reused"); if (nt) c.nontrivial();
    S.destroy(); delete o;
}
