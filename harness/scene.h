// Generated scenes: a ref::World specification, the real library objects built from it, and helpers.
#pragma once
#include "engine.h"
#include "ref.h"
#include "scs.h"
#include <memory>
#include <functional>

namespace scene {
using namespace atg_scs;
using pbt::Case; using pbt::Source;

// ---------------------------------------------------------------- user-defined objects
inline void poseOf(RigidBody *b, SystemState *s, LD *q, LD *v) {
    int i = b->index;
    if (i == -1) { q[0] = b->p_x; q[1] = b->p_y; q[2] = b->theta; v[0] = v[1] = v[2] = 0; }
    else { q[0] = s->p_x[i]; q[1] = s->p_y[i]; q[2] = s->theta[i]; v[0] = s->v_x[i]; v[1] = s->v_y[i]; v[2] = s->v_theta[i]; }
}
class UserConstraint : public Constraint {                     // any constraint kind, evaluated by the reference
public:
    ref::CSpec spec; long calls = 0;
    UserConstraint(const ref::CSpec &s) : Constraint(ref::rowsOf(s.kind), ref::bodiesOf(s.kind)), spec(s) {}
    virtual void calculate(Output *o, SystemState *s) {
        ++calls; LD q[6] = { 0 }, v[6] = { 0 }; for (int i = 0; i < m_bodyCount; ++i) poseOf(m_bodies[i], s, q + 3 * i, v + 3 * i);
        ref::Row r[3]; ref::conRows(spec, q, v, r);
        for (int k = 0; k < getConstraintCount(); ++k) {
            for (int i = 0; i < 3 * m_bodyCount; ++i) { o->J[k][i] = (double)r[k].J[i]; o->J_dot[k][i] = (double)r[k].Jd[i]; }
            o->C[k] = (double)r[k].C; o->ks[k] = (double)r[k].ks; o->kd[k] = (double)r[k].kd; o->v_bias[k] = (double)r[k].bias;
            o->limits[k][0] = (double)r[k].lo; o->limits[k][1] = (double)r[k].hi;
        }
    }
};
class UserField : public ForceGenerator {
public:
    double p[8]; RigidBody *body; long calls = 0;
    virtual void apply(SystemState *s) {
        ++calls; int b = body->index; if (b == -1) return;
        s->f_x[b] += -p[0] * s->p_x[b] - p[1] * s->v_x[b] + p[2] * std::sin(p[3] * s->p_y[b]) + p[6] * s->dt;
        s->f_y[b] += -p[0] * s->p_y[b] - p[1] * s->v_y[b] + p[2] * std::cos(p[3] * s->p_x[b]);
        s->t[b] += -p[4] * std::sin(s->theta[b]) - p[5] * s->v_theta[b] + p[6] * s->dt;
    }
};

// ---------------------------------------------------------------- real objects
inline Constraint *newConstraint(const ref::CSpec &c) {
    switch (c.kind) {
    case ref::FixPos: return new FixedPositionConstraint; case ref::FixRot: return new FixedRotationConstraint; case ref::Line: return new LineConstraint; case ref::Link: return new LinkConstraint; case ref::Roll: return new RollingConstraint;
    case ref::ConstRot: return new ConstantRotationConstraint; case ref::Clutch: return new ClutchConstraint; case ref::Friction: return new RotationFrictionConstraint; case ref::Gear: return new SimpleGearConstraint; default: return new UserConstraint(c);
    }
}
// writes a specification into a constraint object (a new one, or one that is already in use)
// a new object keeps its default wherever the wanted value is the default, so that defaults are part of every check
inline bool &fresh() { static thread_local bool f = false; return f; }
template <class T, class U, class D> inline void put(T &field, U value, D def) { if (!fresh() || !(value == (U)def)) field = value; }
struct Fresh { bool old; Fresh() { old = fresh(); fresh() = true; } ~Fresh() { fresh() = old; } };
inline void configure(Constraint *k, const ref::CSpec &c, const std::vector<RigidBody *> &B) {
    RigidBody *b0 = B[c.b[0]], *b1 = ref::bodiesOf(c.kind) > 1 ? B[c.b[1]] : nullptr; const double *p = c.p;
    switch (c.kind) {
    case ref::FixPos: { auto *x = (FixedPositionConstraint *)k; x->setBody(b0); if (!fresh() || p[0] != 0 || p[1] != 0) x->setLocalPosition(p[0], p[1]); if (!fresh() || p[2] != 0 || p[3] != 0) x->setWorldPosition(p[2], p[3]); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::FixRot: { auto *x = (FixedRotationConstraint *)k; x->setBody(b0); put(x->m_rotation, p[0], 0); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Line: { auto *x = (LineConstraint *)k; x->setBody(b0); put(x->m_local_x, p[0], 0); put(x->m_local_y, p[1], 0); put(x->m_p0_x, p[2], 0); put(x->m_p0_y, p[3], 0); put(x->m_dx, p[4], 0); put(x->m_dy, p[5], 0); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Link: { auto *x = (LinkConstraint *)k; x->setBody1(b0); x->setBody2(b1); if (!fresh() || p[0] != 0 || p[1] != 0) x->setLocalPosition1(p[0], p[1]); if (!fresh() || p[2] != 0 || p[3] != 0) x->setLocalPosition2(p[2], p[3]); put(x->m_maxForce, c.hi, DBL_MAX); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Roll: { auto *x = (RollingConstraint *)k; x->setBaseBody(b0); x->setRollingBody(b1); put(x->m_local_x, p[0], 0); put(x->m_local_y, p[1], 0); put(x->m_dx, p[2], 0); put(x->m_dy, p[3], 0); put(x->m_radius, p[4], 0); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::ConstRot: { auto *x = (ConstantRotationConstraint *)k; x->setBody(b0); put(x->m_rotationSpeed, p[0], 0); put(x->m_minTorque, c.lo, -DBL_MAX); put(x->m_maxTorque, c.hi, DBL_MAX); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Clutch: { auto *x = (ClutchConstraint *)k; x->setBody1(b0); x->setBody2(b1); put(x->m_minTorque, c.lo, -DBL_MAX); put(x->m_maxTorque, c.hi, DBL_MAX); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Friction: { auto *x = (RotationFrictionConstraint *)k; x->setBody(b0); put(x->m_minTorque, c.lo, -DBL_MAX); put(x->m_maxTorque, c.hi, DBL_MAX); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    case ref::Gear: { auto *x = (SimpleGearConstraint *)k; x->setBody1(b0); x->setBody2(b1); put(x->m_ratio, p[0], 1); put(x->m_neutral, c.neutral, false); put(x->m_ks, c.ks, 10); put(x->m_kd, c.kd, 1); break; }
    default: { auto *x = (UserConstraint *)k; x->spec = c; x->m_bodies[0] = b0; x->m_bodies[1] = b1; break; }
    }
}
inline Constraint *makeConstraint(const ref::CSpec &c, const std::vector<RigidBody *> &B) { Constraint *k = newConstraint(c); Fresh F; configure(k, c, B); return k; }
inline void configure(ForceGenerator *g, const ref::FSpec &f, const std::vector<RigidBody *> &B) {
    const double *p = f.p;
    switch (f.kind) {
    case ref::FGravity: { auto *x = (GravityForceGenerator *)g; put(x->m_g, p[0], 9.81); break; }
    case ref::FStatic: { auto *x = (StaticForceGenerator *)g; x->m_body = B[f.b[0]]; if (!fresh() || p[0] != 0 || p[1] != 0) x->setPosition(p[0], p[1]); if (!fresh() || p[2] != 0 || p[3] != 0) x->setForce(p[2], p[3]); break; }
    case ref::FSpring: { auto *x = (Spring *)g; x->m_body1 = B[f.b[0]]; x->m_body2 = B[f.b[1]]; put(x->m_p1_x, p[0], 0); put(x->m_p1_y, p[1], 0); put(x->m_p2_x, p[2], 0); put(x->m_p2_y, p[3], 0); put(x->m_restLength, p[4], 1); put(x->m_ks, p[5], 0); put(x->m_kd, p[6], 0); break; }
    case ref::FMotor: { auto *x = (ConstantSpeedMotor *)g; x->m_body0 = B[f.b[0]]; x->m_body1 = B[f.b[1]]; put(x->m_ks, p[0], 1); put(x->m_kd, p[1], 1); put(x->m_maxTorque, p[2], 500); put(x->m_speed, p[3], 1); break; }
    default: { auto *x = (UserField *)g; x->body = B[f.b[0]]; for (int i = 0; i < 8; ++i) x->p[i] = p[i]; break; }
    }
}
inline ForceGenerator *makeForce(const ref::FSpec &f, const std::vector<RigidBody *> &B) {
    ForceGenerator *g; switch (f.kind) { case ref::FGravity: g = new GravityForceGenerator; break; case ref::FStatic: g = new StaticForceGenerator; break; case ref::FSpring: g = new Spring; break; case ref::FMotor: g = new ConstantSpeedMotor; break; default: g = new UserField; }
    Fresh F; configure(g, f, B); return g;
}
struct Real {
    std::vector<RigidBody *> b; std::vector<Constraint *> c; std::vector<ForceGenerator *> f;
    void setBody(int i, const ref::BSpec &s) { RigidBody *r = b[i]; r->p_x = s.x; r->p_y = s.y; r->theta = s.th; r->v_x = s.vx; r->v_y = s.vy; r->v_theta = s.w; r->m = s.m; r->I = s.I; }
    explicit Real(const ref::World &w) {
        for (size_t i = 0; i < w.bodies.size(); ++i) { b.push_back(new RigidBody); setBody((int)i, w.bodies[i]); }
        for (auto &x : w.cons) c.push_back(makeConstraint(x, b));
        for (auto &x : w.forces) f.push_back(makeForce(x, b));
    }
    void registerAll(RigidBodySystem &s, const ref::World &w) {
        for (size_t i = 0; i < b.size(); ++i) if (w.bodies[i].reg) s.addRigidBody(b[i]);
        for (auto *x : c) s.addConstraint(x);
        for (auto *x : f) s.addForceGenerator(x);
    }
    void destroy() { for (auto *x : c) delete x; for (auto *x : f) delete x; for (auto *x : b) delete x; c.clear(); f.clear(); b.clear(); }
};
// reference state from the bodies (registered bodies move, others are anchors at rest)
inline ref::State stateOf(const ref::World &w, const Real &r) {
    ref::State s; for (size_t i = 0; i < r.b.size(); ++i) { RigidBody *x = r.b[i]; double q[3] = { x->p_x, x->p_y, x->theta }, v[3] = { x->v_x, x->v_y, x->v_theta };
        for (int k = 0; k < 3; ++k) { s.q.push_back(q[k]); s.v.push_back(w.bodies[i].reg ? v[k] : 0); s.aprev.push_back(0); } }
    return s;
}
inline void pullWorld(ref::World &w, const Real &r) { for (size_t i = 0; i < r.b.size(); ++i) { RigidBody *x = r.b[i]; auto &s = w.bodies[i]; s.x = x->p_x; s.y = x->p_y; s.th = x->theta; s.vx = x->v_x; s.vy = x->v_y; s.w = x->v_theta; } }

// ---------------------------------------------------------------- solvers
enum SolverKind { GE, CG, GS, NSOLVER };
static const char *const SNAME[] = { "direct", "conjugate_gradient", "gauss_seidel" };
inline SleSolver *makeSolver(int kind, bool tight = true) {
    switch (kind) {
    case CG: { auto *s = new ConjugateGradientSleSolver; if (tight) { s->setMaxIterations(4000); s->setMaxError(1e-10); s->setMinError(1e-9); } return s; }
    case GS: { auto *s = new GaussSeidelSleSolver; if (tight) { s->m_maxIterations = 60000; s->m_minDelta = 1e-9; } return s; }
    default: return new GaussianEliminationSleSolver;
    }
}
static const char *const ONAME[] = { "euler", "semi_implicit", "rk4" };
inline OdeSolver *makeOde(int scheme) { if (scheme == ref::Euler) return new EulerOdeSolver; if (scheme == ref::Nsv) return new NsvOdeSolver; return new Rk4OdeSolver; }
// relative accuracy expected of a solver kind on problems whose normalised smallest eigenvalue is >= e
inline double relTol(int kind, double e) { return kind == GE ? 1e-11 / e : kind == CG ? 1e-6 / e : 2e-7 / e; }

// ---------------------------------------------------------------- generator
struct Opt {
    int minBodies = 1, maxBodies = 5, maxCons = 6, maxForces = 4;
    bool statics = true, user = true, limits = false, motorKd = true, neutral = false, attachments = true, gravity = true, external = true, field = true;
    int assembled = 0;               // 0 mixed, 1 always, 2 never
    double minEig = 0.02, pos = 4, vel = 4, massLo = 0.2, massHi = 8, arm = 2;
    unsigned kinds = ~0u; unsigned fkinds = ~0u;
    bool bias = true; bool bigAngles = true; bool staticMassless = true;
    double springKs = 60, springKd = 3;
    double maxGain = 40, maxDamp = 8;
    double force = 20, g = 12, motorKs = 20, motorTorque = 30, motorSpeed = 10, speed = 6;
    bool large = true;               // now and then a scene of 7-16 bodies
    double far = 1, angle = 0;       // how far outside the everyday range frames are still compared; range of all angles when not zero
    bool motorDefaults = false;      // motors left as constructed (their damping is unstable on light bodies, so only where they are applied once)
    double unit = 1;                 // unit of mass: masses, inertias, forces, stiffnesses and limits are multiplied by it
};
inline double coord(Source &s, double a) { return s.real(-a, a); }
inline ref::BSpec genBody(Source &s, const Opt &o) {
    ref::BSpec b; b.x = coord(s, o.pos); b.y = coord(s, o.pos);
    b.th = o.angle ? coord(s, o.angle) : (o.bigAngles && s.chance(1, 12)) ? coord(s, 80) : coord(s, 4);
    if (s.chance(1, 16)) { static const double E[] = { 0, 0, 1e-12, -1e-9, 1e-7, -1e-5, 1e-3 }; b.th = 1.5707963267948966 * s.range(-4, 4) + s.pick(E); }   // at and next to a quarter turn
    if (!s.chance(1, 8)) { b.vx = coord(s, o.vel); b.vy = coord(s, o.vel); b.w = coord(s, o.vel); }
    b.m = s.logreal(o.massLo, o.massHi); b.I = s.chance(1, 16) ? b.m : s.logreal(o.massLo, o.massHi); if (s.chance(1, 16)) b.m = 1; if (s.chance(1, 16)) b.I = 1;
    return b;
}
inline void worldPoint(const ref::BSpec &b, double x, double y, double *wx, double *wy) { *wx = b.x + std::cos(b.th) * x - std::sin(b.th) * y; *wy = b.y + std::sin(b.th) * x + std::cos(b.th) * y; }
inline void localPoint(const ref::BSpec &b, double x, double y, double *lx, double *ly) { double dx = x - b.x, dy = y - b.y; *lx = std::cos(b.th) * dx + std::sin(b.th) * dy; *ly = -std::sin(b.th) * dx + std::cos(b.th) * dy; }

// fills in parameters; the relation is met exactly (up to rounding) at the current poses when assembled is true
inline void genParams(Source &s, const Opt &o, const ref::World &w, ref::CSpec &c, bool assembled) {
    double *p = c.p; const ref::BSpec &A = w.bodies[c.b[0]]; const ref::BSpec *B = ref::bodiesOf(c.kind) > 1 ? &w.bodies[c.b[1]] : nullptr;
    c.lo = -DBL_MAX; c.hi = DBL_MAX; c.neutral = false; for (int r = 0; r < 3; ++r) { c.ulo[r] = -DBL_MAX; c.uhi[r] = DBL_MAX; }
    c.ks = s.chance(1, 6) ? 0 : s.uniform(0, o.maxGain); c.kd = s.chance(1, 6) ? 0 : s.uniform(0, o.maxDamp);
    if (o.maxGain >= 10 && o.maxDamp >= 1 && s.chance(1, 12)) { c.ks = 10; c.kd = 1; }                 // what a new constraint has
    if (s.chance(1, 60)) { if (s.chance(1, 2)) c.ks = -s.uniform(0, 2); else c.kd = -s.uniform(0, 1); }
    auto off = [&]() { return assembled ? 0.0 : coord(s, 1.0); };
    double wx, wy;
    switch (c.kind) {
    case ref::FixPos: p[0] = coord(s, o.arm); p[1] = coord(s, o.arm); worldPoint(A, p[0], p[1], &wx, &wy); p[2] = wx + off(); p[3] = wy + off(); break;
    case ref::FixRot: p[0] = A.th + off(); break;
    case ref::Line: { p[0] = coord(s, o.arm); p[1] = coord(s, o.arm); double a = s.chance(1, 8) ? 1.5707963267948966 * s.range(-2, 2) : s.uniform(-3.2, 3.2), l = s.chance(1, 3) ? s.logreal(0.3, 3) : 1; p[4] = l * std::cos(a); p[5] = l * std::sin(a);
        worldPoint(A, p[0], p[1], &wx, &wy); double t = coord(s, 2); p[2] = wx - t * p[4] + off(); p[3] = wy - t * p[5] + off(); break; }
    case ref::Link: case ref::UWeld: case ref::UDist: {
        p[0] = coord(s, o.arm); p[1] = coord(s, o.arm); worldPoint(A, p[0], p[1], &wx, &wy);
        if (c.kind == ref::UDist) { p[2] = coord(s, o.arm); p[3] = coord(s, o.arm); double x2, y2; worldPoint(*B, p[2], p[3], &x2, &y2); p[4] = std::sqrt((wx - x2) * (wx - x2) + (wy - y2) * (wy - y2)) + 0.3 * off(); }
        else { localPoint(*B, wx + off(), wy + off(), &p[2], &p[3]); if (c.kind == ref::UWeld) { p[4] = A.th - B->th + off(); p[5] = s.chance(1, 3) ? 1.0 : s.logreal(0.3, 3); } }
        break; }
    case ref::UPin: p[0] = coord(s, o.arm); p[1] = coord(s, o.arm); worldPoint(A, p[0], p[1], &wx, &wy); p[2] = wx + off(); p[3] = wy + off(); p[4] = A.th + off(); p[5] = s.chance(1, 3) ? 1.0 : s.logreal(0.3, 3); break;
    case ref::Roll: { double a = s.chance(1, 8) ? 1.5707963267948966 * s.range(-2, 2) : s.uniform(-3.2, 3.2); p[2] = std::cos(a); p[3] = std::sin(a); p[4] = s.chance(1, 4) ? 1.0 : s.chance(1, 12) ? s.logreal(0.02, 20) : s.logreal(0.2, 4);
        double bx, by; localPoint(A, B->x, B->y, &bx, &by); double along = p[4] * (A.th - B->th) + off(), across = p[4] + off();
        p[0] = bx - along * p[2] + across * p[3]; p[1] = by - along * p[3] - across * p[2]; break; }
    case ref::ConstRot: p[0] = o.bias && !s.chance(1, 10) ? coord(s, o.speed) : 0; break;
    case ref::Gear: if (s.chance(1, 10)) { p[0] = 1; break; } if (s.chance(1, 10)) { static const double G[] = { 0, 1, -1, 0.5, 2, -2, 1e-3, 100, 0.01 }; p[0] = s.pick(G); break; } p[0] = s.chance(1, 4) ? -s.logreal(0.2, 4) : s.logreal(0.2, 4); break;
    }
    if (ref::userKind(c.kind)) for (int r = 0; r < 3; ++r) { c.uks[r] = s.uniform(0, o.maxGain); c.ukd[r] = s.uniform(0, o.maxDamp); c.ubias[r] = o.bias && s.chance(1, 2) ? coord(s, 2) : 0; }
    if (o.limits) {
        auto lim = [&](double &lo, double &hi) { switch (s.range(0, 5)) { case 0: break; case 5: lo = hi = s.chance(1, 2) ? 0 : coord(s, 5); break; case 1: lo = -s.logreal(0.05, 50); hi = s.logreal(0.05, 50); break; case 2: hi = s.logreal(0.05, 30); lo = -hi; break; case 3: if (s.chance(1, 2)) { lo = 0; hi = s.logreal(0.05, 50); } else { hi = 0; lo = -s.logreal(0.05, 50); } break; default: lo = coord(s, 10); hi = lo + s.logreal(0.05, 20); } };
        if (c.kind == ref::Link) { if (s.chance(1, 2)) { c.hi = s.logreal(0.05, 60); c.lo = -c.hi; } }
        else if (c.kind == ref::ConstRot || c.kind == ref::Clutch || c.kind == ref::Friction) lim(c.lo, c.hi);
        else if (c.kind == ref::Gear) c.neutral = o.neutral && s.chance(1, 3);
        else if (ref::userKind(c.kind)) for (int r = 0; r < 3; ++r) lim(c.ulo[r], c.uhi[r]);
    }
}
inline ref::FSpec genForce(Source &s, const Opt &o, const ref::World &w) {
    ref::FSpec f; int n = (int)w.bodies.size(); double *p = f.p;
    std::vector<int> kinds; for (int k = 0; k < ref::NFKIND; ++k) if (o.fkinds >> k & 1) { if (k == ref::FGravity && !o.gravity) continue; if (k == ref::FStatic && !o.external) continue; if (k == ref::FField && !o.field) continue; kinds.push_back(k); }
    f.kind = s.pick(kinds);
    auto anyReg = [&]() { std::vector<int> r; for (int i = 0; i < n; ++i) if (w.bodies[i].reg) r.push_back(i); return r[s.draw(r.size())]; };
    auto other = [&](int a) { std::vector<int> r; for (int i = 0; i < n; ++i) if (i != a && (o.attachments || w.bodies[i].reg)) r.push_back(i); return r.empty() ? a : r[s.draw(r.size())]; };
    switch (f.kind) {
    case ref::FGravity: p[0] = s.chance(1, 3) && o.g == 12 ? 9.81 : coord(s, o.g); break;
    case ref::FStatic: f.b[0] = anyReg(); p[0] = coord(s, o.arm); p[1] = coord(s, o.arm); p[2] = coord(s, o.force); p[3] = coord(s, o.force); break;
    case ref::FSpring: f.b[0] = anyReg(); f.b[1] = s.chance(1, 12) ? f.b[0] : other(f.b[0]); if (s.chance(1, 2)) std::swap(f.b[0], f.b[1]);
        for (int i = 0; i < 4; ++i) p[i] = coord(s, o.arm); p[4] = s.chance(1, 6) ? 0 : s.chance(1, 8) ? 1 : s.uniform(0, 4); p[5] = s.chance(1, 8) ? 0 : s.uniform(0, o.springKs); p[6] = s.chance(1, 4) ? 0 : s.uniform(0, o.springKd); break;
    case ref::FMotor: f.b[0] = anyReg(); f.b[1] = other(f.b[0]); if (s.chance(1, 2)) std::swap(f.b[0], f.b[1]);
        if (o.motorDefaults && s.chance(1, 12)) { p[0] = p[1] = p[3] = 1; p[2] = 500; break; }
        p[0] = s.uniform(0, o.motorKs); p[1] = o.motorKd && s.chance(1, 2) ? s.uniform(0, 0.3) : 0; p[2] = s.chance(1, 2) ? std::max(500.0, o.motorTorque) : s.chance(1, 12) ? 0 : s.logreal(0.05, o.motorTorque); p[3] = coord(s, o.motorSpeed); break;
    default: f.b[0] = anyReg(); p[0] = coord(s, 5); p[1] = s.uniform(0, 1); p[2] = coord(s, 5); p[3] = coord(s, 2); p[4] = coord(s, 5); p[5] = s.uniform(0, 1); p[6] = s.chance(1, 2) ? coord(s, 30) : 0; break;
    }
    return f;
}
inline void rescale(ref::World &w, double k) {
    auto sc = [&](double &x) { if (std::fabs(x) < DBL_MAX) x *= k; };
    for (auto &b : w.bodies) { b.m *= k; b.I *= k; }
    for (auto &q : w.cons) { sc(q.lo); sc(q.hi); for (int i = 0; i < 3; ++i) { sc(q.ulo[i]); sc(q.uhi[i]); } }
    for (auto &f : w.forces) { double *p = f.p; switch (f.kind) { case ref::FGravity: break; case ref::FStatic: p[2] *= k; p[3] *= k; break; case ref::FSpring: p[5] *= k; p[6] *= k; break; case ref::FMotor: p[0] *= k; p[1] *= k; p[2] *= k; break; default: p[0] *= k; p[1] *= k; p[2] *= k; p[4] *= k; p[5] *= k; p[6] *= k; } }
}
inline ref::World genWorld(Case &cs, const Opt &o) {
    Source &s = cs.s; ref::World w; bool big = o.large && o.maxBodies > 1 && s.chance(1, 30); bool huge = big && s.chance(1, 6); int n = huge ? s.range(17, 40) : big ? s.range(7, 16) : s.range(o.minBodies, o.maxBodies); if (big) cs.label(huge ? "very_large_scene" : "large_scene");
    for (int i = 0; i < n; ++i) w.bodies.push_back(genBody(s, o));
    if (n > 1 && s.chance(1, 20)) { int i = s.range(1, n - 1); w.bodies[i].x = w.bodies[i - 1].x; w.bodies[i].y = w.bodies[i - 1].y; if (s.chance(1, 2)) w.bodies[i].th = w.bodies[i - 1].th; cs.label("coincident_bodies"); }
    if (o.statics && s.chance(1, 2)) { int k = s.range(1, 2); for (int i = 0; i < k; ++i) { ref::BSpec b = genBody(s, o); b.reg = false; if (o.staticMassless && s.chance(1, 2)) b.m = b.I = 0; w.bodies.insert(w.bodies.begin() + s.range(0, (int)w.bodies.size()), b); } }
    int nb = (int)w.bodies.size();
    int want = o.maxCons ? s.range(0, huge ? 10 : big ? 18 : o.maxCons) : 0;
    std::vector<int> kinds; for (int k = 0; k < ref::NCKIND; ++k) if (o.kinds >> k & 1) { if (ref::userKind(k) && !o.user) continue; if (!o.attachments && (k == ref::FixPos || k == ref::FixRot || k == ref::Line || k == ref::UPin || k == ref::ConstRot || k == ref::Friction)) continue; kinds.push_back(k); }
    for (int t = 0; t < want && n && !kinds.empty(); ++t) {
        ref::CSpec c; c.kind = s.pick(kinds);
        c.b[0] = s.range(0, nb - 1);
        if (ref::bodiesOf(c.kind) > 1) { if (nb < 2) continue; c.b[1] = s.range(0, nb - 2); if (c.b[1] >= c.b[0]) ++c.b[1]; }
        bool anyReg = w.bodies[c.b[0]].reg || (c.b[1] >= 0 && w.bodies[c.b[1]].reg);
        bool assembled = o.assembled == 1 || (o.assembled == 0 && s.chance(1, 2));
        genParams(s, o, w, c, assembled);
        if (!anyReg) continue;
        w.cons.push_back(c);
        ref::State st = ref::initial(w); std::vector<ref::Row> R = ref::rowsFor(w, st);
        if (ref::minEig(ref::gram(w, R)) < o.minEig) { w.cons.pop_back(); cs.label("candidate_constraint_dropped_dependent"); }
    }
    int nf = n && o.maxForces ? s.range(0, huge ? 24 : big ? 12 : o.maxForces) : 0;
    for (int t = 0; t < nf; ++t) { ref::FSpec f = genForce(s, o, w); if (!o.attachments && (f.kind == ref::FSpring || f.kind == ref::FMotor) && f.b[0] == f.b[1]) continue; if (f.kind == ref::FMotor && f.b[0] == f.b[1]) continue; w.forces.push_back(f); }
    if (o.unit != 1) rescale(w, o.unit);
    return w;
}
// a unit of mass for a solver kind (conjugate gradient and Gauss-Seidel have absolute tolerances, so only moderate ones)
inline double genUnit(Source &s, int solver) { if (!s.chance(1, 6)) return 1; return solver == GE ? s.logreal(1e-14, 1e12) : solver == CG ? s.logreal(1e-6, 1e9) : s.logreal(0.1, 10); }
inline void describe(Case &c, const ref::World &w) {
    for (size_t i = 0; i < w.bodies.size(); ++i) { auto &b = w.bodies[i]; c.note("body %zu%s p=(%.6g,%.6g) th=%.6g v=(%.6g,%.6g) w=%.6g m=%.6g I=%.6g", i, b.reg ? "" : " [not registered]", b.x, b.y, b.th, b.vx, b.vy, b.w, b.m, b.I); }
    for (size_t i = 0; i < w.cons.size(); ++i) { auto &k = w.cons[i]; c.note("constraint %zu %s bodies=(%d,%d) p=(%.6g,%.6g,%.6g,%.6g,%.6g,%.6g) ks=%.6g kd=%.6g limits=(%.4g,%.4g)%s", i, ref::CNAME[k.kind], k.b[0], k.b[1], k.p[0], k.p[1], k.p[2], k.p[3], k.p[4], k.p[5], k.ks, k.kd, k.lo, k.hi, k.neutral ? " neutral" : ""); }
    for (size_t i = 0; i < w.forces.size(); ++i) { auto &k = w.forces[i]; c.note("force %zu %s bodies=(%d,%d) p=(%.6g,%.6g,%.6g,%.6g,%.6g,%.6g,%.6g)", i, ref::FNAME[k.kind], k.b[0], k.b[1], k.p[0], k.p[1], k.p[2], k.p[3], k.p[4], k.p[5], k.p[6]); }
}
inline void labelWorld(Case &c, const ref::World &w) {
    for (auto &k : w.cons) c.label(std::string("has_") + ref::CNAME[k.kind]);
    for (auto &k : w.forces) c.label(std::string("has_") + ref::FNAME[k.kind]);
    bool st = false; for (auto &b : w.bodies) st |= !b.reg; if (st) c.label("has_unregistered_body");
    int r = w.rows(); c.label(r == 0 ? "rows_0" : r <= 3 ? "rows_1_3" : r <= 6 ? "rows_4_6" : "rows_7_plus");
}
// changes the scene between two frames, in the specification and in every set of real objects built from it: new masses, poses and velocities, new parameters and other bodies for constraints and generators in use
inline void mutate(Case &c, const Opt &o, ref::World &w, std::initializer_list<Real *> rs) {
    Source &s = c.s; const Real &r0 = **rs.begin(); int n = s.range(1, 3), nb = (int)w.bodies.size(); if (!nb) return; pullWorld(w, r0);
    auto independent = [&]() { return w.cons.empty() || ref::minEig(ref::gram(w, ref::rowsFor(w, ref::initial(w)))) >= o.minEig; };
    for (int t = 0; t < n; ++t) switch (s.range(0, 5)) {
    case 0: { int i = s.range(0, nb - 1); ref::BSpec &b = w.bodies[i], old = b; if (!b.reg) break; if (s.chance(2, 3)) b.m = o.unit * s.logreal(o.massLo, o.massHi); if (s.chance(2, 3)) b.I = o.unit * s.logreal(o.massLo, o.massHi); if (!independent()) { b = old; break; } for (Real *r : rs) { r->b[i]->m = b.m; r->b[i]->I = b.I; } c.note("body %d gets m=%.17g I=%.17g", i, b.m, b.I); c.label("mass_changed"); break; }
    case 1: { int i = s.range(0, nb - 1); ref::BSpec &b = w.bodies[i], old = b; if (s.chance(1, 2)) { b.x += s.sym(0.5); b.y += s.sym(0.5); } if (s.chance(1, 2)) b.th += s.chance(1, 4) ? 6.283185307179586 * s.range(-3, 3) : s.sym(1); b.vx = s.sym(o.vel); b.vy = s.sym(o.vel); b.w = s.sym(o.vel); if (!independent()) { b = old; break; } for (Real *r : rs) r->setBody(i, b); c.note("body %d moved to (%.17g,%.17g) %.17g v=(%.17g,%.17g) w=%.17g", i, b.x, b.y, b.th, b.vx, b.vy, b.w); c.label("body_moved"); break; }
    case 2: case 3: { if (w.cons.empty() || o.unit != 1) break; size_t k = s.draw(w.cons.size()); ref::CSpec &q = w.cons[k], old = q; if (s.chance(1, 3)) { q.b[0] = s.range(0, nb - 1); if (ref::bodiesOf(q.kind) > 1 && nb > 1) { q.b[1] = s.range(0, nb - 2); if (q.b[1] >= q.b[0]) ++q.b[1]; } else if (ref::bodiesOf(q.kind) > 1) q.b[0] = old.b[0]; if (!w.bodies[q.b[0]].reg && (q.b[1] < 0 || !w.bodies[q.b[1]].reg)) { q = old; break; } c.label("constraint_retargeted"); }
        genParams(s, o, w, q, o.assembled == 1 || s.chance(1, 2)); if (!independent()) { q = old; break; } for (Real *r : rs) configure(r->c[k], q, r->b); c.note("constraint %zu %s becomes bodies=(%d,%d) p=(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g) ks=%.9g kd=%.9g limits=(%.9g,%.9g)%s", k, ref::CNAME[q.kind], q.b[0], q.b[1], q.p[0], q.p[1], q.p[2], q.p[3], q.p[4], q.p[5], q.ks, q.kd, q.lo, q.hi, q.neutral ? " neutral" : ""); c.label("constraint_changed"); break; }
    default: { if (w.forces.empty() || o.unit != 1) break; size_t k = s.draw(w.forces.size()); Opt f = o; f.fkinds = 1u << w.forces[k].kind; ref::FSpec g = genForce(s, f, w); if (g.kind == ref::FMotor && g.b[0] == g.b[1]) break; w.forces[k] = g; for (Real *r : rs) configure(r->f[k], g, r->b); c.note("force %zu %s becomes bodies=(%d,%d) p=(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g,%.9g)", k, ref::FNAME[g.kind], g.b[0], g.b[1], g.p[0], g.p[1], g.p[2], g.p[3], g.p[4], g.p[5], g.p[6]); c.label("force_changed"); break; }
    }
}
// error bounds for one frame, from the magnitudes the reference saw
struct Tol { double v, p, f; };
inline Tol tolFor(const ref::World &w, const ref::StepInfo &i, double rel, double T) {
    double M = 0; for (auto &b : w.bodies) if (b.reg) M = std::max(M, std::max(b.m, b.I));
    if (i.pmag > 1e3) rel *= 1 + (double)i.pmag * 1e-3;          // lever arms and spring lengths are differences of coordinates
    double a = (double)i.amag, v = (double)i.vmag + T * a + 1, p = (double)i.pmag + T * v + 1;
    double e = std::max((double)i.err, T * (double)i.erra); return Tol{ rel * v + e, rel * p + T * e, rel * (M * (a + v + 1)) + M * (double)i.erra };
}
inline bool usable(const ref::StepInfo &i, double minEig, double far = 1, bool soft = false) { return !i.singular && !i.ambiguous && i.mineig >= minEig && i.vmag < 300 * far && i.amag < 1e5 * (soft ? 1 : far * far) && i.pmag < 1e3 * far; }
inline void requireBodies(Case &c, const char *what, const ref::World &w, const Real &r, const ref::State &s, const Tol &t) {
    for (size_t i = 0; i < r.b.size(); ++i) { if (!w.bodies[i].reg) continue; RigidBody *x = r.b[i];
        pbt::near(c, "velocity", x->v_x, (double)s.v[3 * i], t.v, "%s: body %zu v_x", what, i); pbt::near(c, "velocity", x->v_y, (double)s.v[3 * i + 1], t.v, "%s: body %zu v_y", what, i);
        pbt::near(c, "velocity", x->v_theta, (double)s.v[3 * i + 2], t.v, "%s: body %zu v_theta", what, i);
        pbt::near(c, "position", x->p_x, (double)s.q[3 * i], t.p, "%s: body %zu p_x", what, i); pbt::near(c, "position", x->p_y, (double)s.q[3 * i + 1], t.p, "%s: body %zu p_y", what, i);
        pbt::near(c, "position", x->theta, (double)s.q[3 * i + 2], t.p, "%s: body %zu theta", what, i); }
}
inline void requireReactions(Case &c, const char *what, const ref::World &w, const Real &r, const std::vector<LD> &react, double tol) {
    size_t j = 0;
    for (size_t k = 0; k < r.c.size(); ++k) for (int row = 0; row < ref::rowsOf(w.cons[k].kind); ++row, ++j) for (int b = 0; b < ref::bodiesOf(w.cons[k].kind); ++b) {
        double *F[3] = { &r.c[k]->F_x[row][b], &r.c[k]->F_y[row][b], &r.c[k]->F_t[row][b] }; static const char *const N[3] = { "F_x", "F_y", "F_t" };
        for (int d = 0; d < 3; ++d) pbt::near(c, "reaction", *F[d], (double)react[6 * j + 3 * b + d], tol, "%s: constraint %zu (%s) %s[%d][%d]", what, k, ref::CNAME[w.cons[k].kind], N[d], row, b);
    }
}
// one of the two systems with its solver and integrator
struct Sys {
    bool generic; int solver, scheme; GenericRigidBodySystem *g = nullptr; OptimizedNsvRigidBodySystem *o = nullptr; RigidBodySystem *s = nullptr; SleSolver *sle = nullptr; OdeSolver *ode = nullptr; double beta = 1;
    Sys(bool gen, int solverKind, int sch, double bias = 1, bool tight = true) : generic(gen), solver(solverKind), scheme(gen ? sch : ref::Nsv), beta(bias) {
        sle = makeSolver(solver, tight);
        if (gen) { ode = makeOde(scheme); g = new GenericRigidBodySystem; g->initialize(sle, ode); s = g; }
        else { o = new OptimizedNsvRigidBodySystem; o->initialize(sle); o->m_biasFactor = beta; s = o; }
    }
    bool limited() const { return !generic && solver == GS; }
    void destroy() { delete g; delete o; delete sle; delete ode; g = nullptr; o = nullptr; s = nullptr; sle = nullptr; ode = nullptr; }
    std::string name() const { return std::string(generic ? "general/" : "velocity-level/") + SNAME[solver] + (generic ? std::string("/") + ONAME[scheme] : ""); }
};
// the reference's frame of dt with k steps for this system
inline void refFrame(const ref::World &w, const Sys &y, ref::State &s, double dt, int steps, std::vector<LD> &react, ref::StepInfo &info) {
    LD h = (LD)(dt / steps);
    for (int i = 0; i < steps; ++i) { if (y.generic) ref::genericStep(w, s, y.scheme, h, react, info); else ref::nsvStep(w, s, h, y.beta, y.limited(), react, info); }
}
// how far the reactions of a frame of several evaluations move when its start moves by a relative amount: chaotic scenes (anchors that nearly meet, say) amplify rounding
inline LD reactionSensitivity(const ref::World &w, const Sys &y, const ref::State &s0, double dt, int steps, double rel, const std::vector<LD> &react) {
    LD worst = 0;
    for (int sign = -1; sign <= 1; sign += 2) {
        ref::State s = s0; unsigned h = 12345; for (size_t i = 0; i < s.v.size(); ++i) { LD k = ((h = h * 1664525u + 1013904223u) >> 16 & 1 ? rel : -rel) * sign; s.v[i] += k * (1 + std::fabs(s.v[i])); s.q[i] += 1e-4 * k * (1 + std::fabs(s.q[i])); }
        std::vector<LD> r; ref::StepInfo i; refFrame(w, y, s, dt, steps, r, i); for (size_t k = 0; k < r.size() && k < react.size(); ++k) worst = std::max(worst, std::fabs(r[k] - react[k])); }
    return worst;
}
// an occasional scene outside the everyday range (only for the direct solver: the iterative ones have absolute tolerances)
inline void widen(Case &c, Opt &o, int solver, bool farToo = true) {
    Source &s = c.s; if (!s.chance(1, 8)) return;
    static const int EVERYDAY[] = { 0, 1, 2, 9, 10 }, NEAR[] = { 0, 1, 2, 3, 4, 5, 9, 10 }, ALL[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
    switch (solver != GE ? EVERYDAY[s.range(0, 4)] : farToo ? ALL[s.range(0, 10)] : NEAR[s.range(0, 7)]) {
    case 0: o.vel = 40; c.label("wide_velocities"); break;
    case 1: o.pos = 150; c.label("wide_positions"); break;
    case 2: o.arm = 12; c.label("wide_arms"); break;
    case 3: o.maxGain = s.logreal(100, 1e4); o.maxDamp = s.logreal(10, 500); c.label("wide_gains"); break;
    case 4: o.massLo = 0.01; o.massHi = 200; c.label("wide_masses"); break;
    case 9: { double k = s.logreal(3, solver == GS ? 20 : 500); o.force *= k; o.g *= std::min(k, 100.0); o.motorKs *= std::min(k, 50.0); o.motorTorque *= k; o.motorSpeed *= std::min(k, 100.0); if (farToo && solver == GE) o.far = 100; c.label("wide_forces"); break; }
    case 10: o.speed = s.logreal(10, 1000); if (farToo && solver == GE) o.far = 10; c.label("wide_motor_speeds"); break;
    case 6: o.pos = s.logreal(1e3, 1e6); o.far = 1e4; c.label("far_positions"); break;
    case 7: o.vel = s.logreal(100, 1e4); o.far = 1e3; c.label("far_velocities"); break;
    case 8: o.angle = s.logreal(1e2, 1e6); o.far = 1e4; c.label("far_angles"); break;
    default: o.springKs = 3000; o.springKd = 50; c.label("wide_springs"); break;
    }
}
inline int genSteps(Source &s, int many) { return s.chance(1, 250) ? s.range(60, 300) : s.chance(1, 30) ? s.range(5, 40) : s.chance(1, many) ? s.range(2, 4) : 1; }
inline double genDt(Source &s) { static const double d[] = { 0.01, 1.0 / 60, 0.001, 0.1, 1.0 / 128 }; return s.chance(1, 2) ? s.pick(d) : s.chance(1, 5) ? s.logreal(1e-4, 0.5) : s.chance(1, 40) ? (s.chance(1, 2) ? s.logreal(0.5, 20) : s.logreal(1e-6, 1e-4)) : s.logreal(1e-3, 0.1); }
inline double genBeta(Source &s) { static const double B[] = { 1, 0, 0.5, 0.1, 1.5, 2 }; return s.chance(1, 12) ? s.logreal(1.5, 30) : s.chance(1, 3) ? s.uniform(0, 2) : s.pick(B); }
inline Sys genSys(Source &s, bool generic) { int sol = s.range(0, 2); int sch = generic ? s.range(0, 2) : 1; double beta = generic ? 1 : genBeta(s); return Sys(generic, sol, sch, beta); }
// many small independent scenes in one system, each compared with its own reference (which shares nothing with the others)
inline void crowd(Case &c, Opt o, Sys &y, bool reactions) {
    Source &s = c.s; o.gravity = false; o.large = false; o.minBodies = 1; o.maxBodies = 3; o.maxCons = 4; o.maxForces = 1; o.minEig = 0.05; int groups = s.range(8, 40), frames = s.range(1, 2); c.label("crowd"); c.note("crowd of %d scenes, %s beta=%.9g", groups, y.name().c_str(), y.beta);
    std::vector<ref::World> w; std::vector<Real> r; int rows = 0; for (int g = 0; g < groups; ++g) { w.push_back(genWorld(c, o)); r.emplace_back(w.back()); rows += w.back().rows(); if (c.verbose) describe(c, w.back()); }
    bool back = s.chance(1, 2), mixed = s.chance(1, 2); auto at = [&](int g) { return back ? groups - 1 - g : g; };
    if (mixed) { for (int g = 0; g < groups; ++g) { auto &W = w[at(g)]; auto &R = r[at(g)]; for (size_t i = 0; i < R.b.size(); ++i) if (W.bodies[i].reg) y.s->addRigidBody(R.b[i]); } for (size_t k = 0; k < 4; ++k) for (int g = 0; g < groups; ++g) { auto &R = r[g]; if (k < R.c.size()) y.s->addConstraint(R.c[k]); } for (int g = 0; g < groups; ++g) for (auto *f : r[g].f) y.s->addForceGenerator(f); }
    else for (int g = 0; g < groups; ++g) r[at(g)].registerAll(*y.s, w[at(g)]);
    c.label(rows > 64 ? "rows_over_64" : rows > 32 ? "rows_33_64" : "rows_up_to_32"); bool ok = true;
    for (int f = 0; f < frames && ok; ++f) {
        double dt = genDt(s); int steps = s.chance(1, 4) ? 2 : 1; std::vector<ref::State> st; std::vector<std::vector<LD>> re(groups); std::vector<ref::StepInfo> in(groups); LD mine = 1;
        for (int g = 0; g < groups; ++g) { st.push_back(stateOf(w[g], r[g])); refFrame(w[g], y, st[g], dt, steps, re[g], in[g]); if (!usable(in[g], 0.02) || in[g].amag * dt / steps > 300) ok = false; mine = std::min(mine, in[g].mineig); }
        if (!ok) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps); y.s->process(dt, steps); if (rows > 1) c.nontrivial();
        for (int g = 0; g < groups; ++g) { char nm[40]; snprintf(nm, sizeof nm, "scene %d of the crowd", g); double rel = relTol(y.solver, (double)mine); Tol t = tolFor(w[g], in[g], rel, dt); requireBodies(c, nm, w[g], r[g], st[g], t);
            if (reactions) requireReactions(c, nm, w[g], r[g], re[g], t.f + rel * (1 + (y.generic ? 0 : steps / dt)) * (1 + (double)in[g].vmag + (double)in[g].amag * dt)); }
    }
    for (auto &q : r) q.destroy(); y.destroy();
}
} // namespace scene
