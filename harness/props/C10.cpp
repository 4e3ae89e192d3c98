// Outputs of every constraint against independently written geometry, gains, bias and limits.
#include "unit.h"
using namespace unit;
const char *PROPERTY_ID = "C10";
const char *PROPERTY_RULE = "one constraint of a random kind, parameters, configuration and velocity; row and body counts, C, J, gains, bias and limits are compared with the reference geometry, and the relation's meaning is checked directly on constructed configurations that satisfy it; non-trivial = every case with a non-zero pose";
extern const long QUICK_CASES = 3000000, THOROUGH_CASES = 10000000;
static void wheel(Case &c) {                         // roll a wheel along a base without slipping: both errors stay zero
    Source &s = c.s; Opt o; o.pos = 5; ref::World w; w.bodies.push_back(genBody(s, o)); w.bodies.push_back(genBody(s, o)); if (s.chance(1, 4)) w.bodies[0].reg = false;
    ref::CSpec k; k.kind = ref::Roll; k.b[0] = 0; k.b[1] = 1; double a = s.uniform(-3.2, 3.2), R = s.chance(1, 4) ? 1 : s.logreal(0.2, 4); k.p[0] = s.real(-2, 2); k.p[1] = s.real(-2, 2); k.p[2] = std::cos(a); k.p[3] = std::sin(a); k.p[4] = R; k.ks = s.uniform(0, 9); k.kd = s.uniform(0, 9);
    double d = s.real(-8, 8), lx = k.p[0] + d * k.p[2] - R * k.p[3], ly = k.p[1] + d * k.p[3] + R * k.p[2]; ref::BSpec &base = w.bodies[0], &roll = w.bodies[1];
    worldPoint(base, lx, ly, &roll.x, &roll.y); double turn = -d / R; roll.th = base.th + turn;      // turned, relative to the base, by minus the travelled distance over the radius
    // velocities of a rolling wheel on the moving base
    if (!base.reg) base.vx = base.vy = base.w = 0;
    double ddot = s.real(-3, 3), dx = roll.x - base.x, dy = roll.y - base.y, tx = std::cos(base.th + a), ty = std::sin(base.th + a);
    roll.vx = base.vx - base.w * dy + ddot * tx; roll.vy = base.vy + base.w * dx + ddot * ty; roll.w = base.w - ddot / R;
    w.cons.push_back(k); describe(c, w); c.note("wheel at distance %.9g, rolling at %.9g", d, ddot); Bench B(s, w, 1); Constraint *x = makeConstraint(k, B.b); Constraint::Output out; poison(out); x->calculate(&out, &B.st);
    for (int r = 0; r < 2; ++r) { pbt::near(c, "rolling_error", out.C[r], 0, 1e-10 * (20 + 10 * R), "row %d of a wheel that has rolled without slipping", r);
        double jv = 0; for (int i = 0; i < 2; ++i) { const ref::BSpec &b = w.bodies[i]; if (!b.reg) continue; jv += out.J[r][3 * i] * b.vx + out.J[r][3 * i + 1] * b.vy + out.J[r][3 * i + 2] * b.w; }
        pbt::near(c, "rolling_rate", jv, 0, 1e-10 * (100 + 50 * R), "rate of row %d of a wheel that rolls without slipping", r); }
    delete x; B.destroy(); c.nontrivial();
}
void run_case(Case &c) {
    Source &s = c.s; if (s.chance(1, 8)) { c.label("rolled_wheel"); wheel(c); return; }
    int kind = s.range(0, ref::Gear); ref::World w = oneConstraint(s, kind, true, true); describe(c, w); c.label(ref::CNAME[kind]); const ref::CSpec &k = w.cons[0];
    Bench B(s, w, genSlots(s)); if (B.n > 250) c.label(B.n > 30000 ? "slots_over_30000" : "slots_over_250"); Constraint *x = makeConstraint(k, B.b); int R = ref::rowsOf(kind), nb = ref::bodiesOf(kind);
    REQUIRE(x->getConstraintCount() == R, "%s has %d rows instead of %d", ref::CNAME[kind], x->getConstraintCount(), R); REQUIRE(x->m_bodyCount == nb, "%s has %d bodies instead of %d", ref::CNAME[kind], x->m_bodyCount, nb);
    for (int i = 0; i < nb; ++i) REQUIRE(x->m_bodies[i] == B.b[k.b[i]], "%s: body %d is not the one that was set", ref::CNAME[kind], i);
    Constraint::Output o; poison(o); x->calculate(&o, &B.st);
    LD q[6] = { 0 }, v[6] = { 0 }; double sc = 1; for (int i = 0; i < nb; ++i) { const ref::BSpec &b = w.bodies[k.b[i]]; LD t[3] = { b.x, b.y, b.th }, u[3] = { b.vx, b.vy, b.w }; for (int d = 0; d < 3; ++d) { q[3 * i + d] = t[d]; v[3 * i + d] = b.reg ? u[d] : 0; } sc += std::fabs(b.x) + std::fabs(b.y) + std::fabs(b.th); }
    double pp = 1; for (int i = 0; i < 8; ++i) pp += std::fabs(k.p[i]); sc = (sc + pp) * pp;
    ref::Row r[3]; ref::conRows(k, q, v, r);
    for (int i = 0; i < R; ++i) {
        pbt::near(c, "error", o.C[i], (double)r[i].C, 1e-12 * sc, "%s: error of row %d", ref::CNAME[kind], i);
        for (int j = 0; j < 3 * nb; ++j) pbt::near(c, "jacobian", o.J[i][j], (double)r[i].J[j], 1e-12 * sc, "%s: Jacobian [%d][%d]", ref::CNAME[kind], i, j);
        if (ref::positional(kind)) { REQUIRE(o.ks[i] == (double)r[i].ks, "%s row %d: ks is %.9g, configured %.9g", ref::CNAME[kind], i, o.ks[i], (double)r[i].ks); }
        REQUIRE(o.kd[i] == (double)r[i].kd, "%s row %d: kd is %.9g, configured %.9g", ref::CNAME[kind], i, o.kd[i], (double)r[i].kd);
        if (!ref::positional(kind)) REQUIRE(o.ks[i] * o.C[i] == 0 && o.ks[i] == k.ks, "%s row %d: ks is %.9g, configured %.9g (a velocity-level relation has no position error)", ref::CNAME[kind], i, o.ks[i], k.ks);
        REQUIRE(o.v_bias[i] == (double)r[i].bias, "%s row %d: bias is %.9g instead of %.9g", ref::CNAME[kind], i, o.v_bias[i], (double)r[i].bias);
        REQUIRE(o.limits[i][0] == (double)r[i].lo && o.limits[i][1] == (double)r[i].hi, "%s row %d: limits are [%.9g, %.9g] instead of [%.9g, %.9g]", ref::CNAME[kind], i, o.limits[i][0], o.limits[i][1], (double)r[i].lo, (double)r[i].hi);
    }
    for (auto &b : w.bodies) if (b.x != 0 && b.th != 0) { c.nontrivial(); break; }
    delete x; B.destroy();
}
