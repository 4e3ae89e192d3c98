// J = dC/dq and J_dot = dJ/dt, checked on the constraint's own outputs by extrapolated central differences.
#include "unit.h"
using namespace unit;
const char *PROPERTY_ID = "C09";
const char *PROPERTY_RULE = "one constraint of a random kind with random parameters at a random configuration and velocity (bodies in arbitrary state slots, one of two bodies possibly an anchor); J is compared with 6th-order extrapolated differences of C and J_dot with those of J along the velocity, in an output prefilled with a sentinel; non-trivial = a position-level constraint with a non-zero angle and angular speed";
extern const long QUICK_CASES = 1600000, THOROUGH_CASES = 8000000;
void run_case(Case &c) {
    Source &s = c.s; int kind = s.range(0, ref::Gear); ref::World w = oneConstraint(s, kind, true, true); describe(c, w); c.label(ref::CNAME[kind]);
    Bench B(s, w, genSlots(s)); if (B.n > 250) c.label(B.n > 30000 ? "slots_over_30000" : "slots_over_250"); Constraint *k = makeConstraint(w.cons[0], B.b); int R = ref::rowsOf(kind), nb = ref::bodiesOf(kind); const int *bi = w.cons[0].b;
    for (int i = 0; i < nb; ++i) if (!w.bodies[bi[i]].reg) c.label("anchor");
    std::vector<double> before = dump(B, true); Constraint::Output o; poison(o); k->calculate(&o, &B.st);
    REQUIRE(dump(B, true) == before, "evaluating the constraint changed the state or a body");
    for (int r = 0; r < R; ++r) {
        for (int i = 0; i < 3 * nb; ++i) { REQUIRE(o.J[r][i] != SENTINEL, "J[%d][%d] was not written", r, i); REQUIRE(o.J_dot[r][i] != SENTINEL, "J_dot[%d][%d] was not written", r, i); }
        REQUIRE(o.C[r] != SENTINEL && o.ks[r] != SENTINEL && o.kd[r] != SENTINEL && o.v_bias[r] != SENTINEL && o.limits[r][0] != SENTINEL && o.limits[r][1] != SENTINEL, "an output of row %d was not written", r);
    }
    { Constraint::Output z; memset(&z, 0x41, sizeof z); k->calculate(&z, &B.st); for (int r = 0; r < R; ++r) for (int i = 0; i < 3 * nb; ++i) REQUIRE(z.J[r][i] == o.J[r][i] && z.J_dot[r][i] == o.J_dot[r][i] && z.C[r] == o.C[r], "evaluating twice gives different outputs"); }
    auto fd = [&](const std::function<void(double)> &move, const std::function<double(const Constraint::Output &, int)> &get, double h, double *out) {      // derivative of R values at once
        double d[3][3]; Constraint::Output a, b; for (int l = 0; l < 3; ++l) { double hh = h / (1 << l); move(hh); k->calculate(&a, &B.st); move(-hh); k->calculate(&b, &B.st); for (int r = 0; r < R; ++r) d[l][r] = (get(a, r) - get(b, r)) / (2 * hh); }
        move(0); for (int r = 0; r < R; ++r) { double e0 = (4 * d[1][r] - d[0][r]) / 3, e1 = (4 * d[2][r] - d[1][r]) / 3; out[r] = (16 * e1 - e0) / 15; } };
    double scale = 1; for (int i = 0; i < 8; ++i) scale = std::max(scale, std::fabs(w.cons[0].p[i])); for (auto &b : w.bodies) scale = std::max(scale, std::fabs(b.x) + std::fabs(b.y));
    // how far lever arms and separations reach, and how coarse the rounding of the coordinates is
    double coarse = 0, arm = 1; for (auto &b : w.bodies) coarse = std::max({ coarse, std::fabs(b.x), std::fabs(b.y), std::fabs(b.th) }); for (int i = 0; i < 8; ++i) arm = std::max(arm, std::fabs(w.cons[0].p[i])); coarse += arm; if (nb > 1) arm += std::hypot(w.bodies[0].x - w.bodies[1].x, w.bodies[0].y - w.bodies[1].y); if (coarse > 200) c.label("far_or_turned"); double tolJ = coarse > 200 ? 1e-8 * arm + 3e-13 * coarse * arm : 2e-10 * scale * scale * 4;
    if (ref::positional(kind)) {
        for (int i = 0; i < nb; ++i) for (int q = 0; q < 3; ++q) {
            double *x = B.coord(bi[i], q), x0 = *x, d[3]; fd([&](double h) { *x = x0 + h; }, [](const Constraint::Output &z, int r) { return z.C[r]; }, 0.02, d);
            for (int r = 0; r < R; ++r) pbt::near(c, "jacobian", o.J[r][3 * i + q], d[r], tolJ, "%s row %d: dC/dq of body %d coordinate %d", ref::CNAME[kind], r, i, q);
        }
        double v[6] = { 0 }, x0[6] = { 0 }, vm = 1; for (int i = 0; i < nb; ++i) for (int q = 0; q < 3; ++q) { v[3 * i + q] = B.rate(bi[i], q); x0[3 * i + q] = *B.coord(bi[i], q); vm = std::max(vm, std::fabs(v[3 * i + q])); }
        for (int q = 0; q < 3 * nb; ++q) { double d[3]; fd([&](double h) { for (int i = 0; i < 3 * nb; ++i) *B.coord(bi[i / 3], i % 3) = x0[i] + h * v[i]; }, [q](const Constraint::Output &z, int r) { return z.J[r][q]; }, 0.02 / vm, d);
            for (int r = 0; r < R; ++r) pbt::near(c, "jacobian_rate", o.J_dot[r][q], d[r], tolJ * vm, "%s row %d: time derivative of J entry %d", ref::CNAME[kind], r, q); }
        const ref::BSpec &b0 = w.bodies[bi[0]]; if (b0.th != 0 && b0.w != 0) c.nontrivial();
    } else {
        for (int r = 0; r < R; ++r) for (int i = 0; i < 3 * nb; ++i) REQUIRE(o.J_dot[r][i] == 0, "%s: Jacobian rate entry %d of a velocity-level constraint is %.9g", ref::CNAME[kind], i, o.J_dot[r][i]);
        for (int r = 0; r < R; ++r) for (int i = 0; i < nb; ++i) for (int q = 0; q < 3; ++q) { double *x = B.coord(bi[i], q), x0 = *x; *x = x0 + 0.37; Constraint::Output z; k->calculate(&z, &B.st); *x = x0; for (int t = 0; t < 3 * nb; ++t) REQUIRE(z.J[r][t] == o.J[r][t], "%s: Jacobian depends on the configuration", ref::CNAME[kind]); }
        c.nontrivial();
    }
    delete k; B.destroy();
}
