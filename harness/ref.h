// Independent reference model. Shares no code with the library: constraint errors are written from
// geometry and differentiated automatically (hyper-dual numbers), linear systems are solved densely in
// long double, integrators and the velocity-level step are restated from their definitions.
#pragma once
#include <cmath>
#include <cfloat>
#include <vector>
#include <algorithm>
typedef long double LD;

namespace ref {

// f + a e1 + b e2 + ab e1 e2 : a = derivative along direction 1, b along 2, ab mixed second derivative
struct HD { LD f, a, b, ab; HD(LD v = 0, LD A = 0, LD B = 0, LD AB = 0) : f(v), a(A), b(B), ab(AB) {} };
inline HD operator+(const HD &x, const HD &y) { return HD(x.f + y.f, x.a + y.a, x.b + y.b, x.ab + y.ab); }
inline HD operator-(const HD &x, const HD &y) { return HD(x.f - y.f, x.a - y.a, x.b - y.b, x.ab - y.ab); }
inline HD operator-(const HD &x) { return HD(-x.f, -x.a, -x.b, -x.ab); }
inline HD operator*(const HD &x, const HD &y) { return HD(x.f * y.f, x.f * y.a + x.a * y.f, x.f * y.b + x.b * y.f, x.f * y.ab + x.a * y.b + x.b * y.a + x.ab * y.f); }
inline HD chain(const HD &x, LD f, LD d, LD dd) { return HD(f, d * x.a, d * x.b, d * x.ab + dd * x.a * x.b); }
inline HD sin(const HD &x) { LD s = std::sin(x.f), c = std::cos(x.f); return chain(x, s, c, -s); }
inline HD cos(const HD &x) { LD s = std::sin(x.f), c = std::cos(x.f); return chain(x, c, -s, -c); }

enum CKind { FixPos, FixRot, Line, Link, Roll, ConstRot, Clutch, Friction, Gear, UDist, UWeld, UPin, NCKIND };
static const char *const CNAME[] = { "fixed_position", "fixed_rotation", "line", "link", "rolling", "constant_rotation", "clutch", "friction", "gear", "user_distance", "user_weld", "user_pin" };
inline int rowsOf(int k) { static const int r[] = { 2, 1, 1, 2, 2, 1, 1, 1, 1, 1, 3, 3 }; return r[k]; }
inline int bodiesOf(int k) { static const int r[] = { 1, 1, 1, 2, 2, 1, 2, 1, 2, 2, 2, 1 }; return r[k]; }
inline bool positional(int k) { return k == FixPos || k == FixRot || k == Line || k == Link || k == Roll || k >= UDist; }
inline bool userKind(int k) { return k >= UDist; }

struct CSpec {
    int kind = FixPos; int b[2] = { -1, -1 };
    double p[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };    // FixPos lx ly wx wy | FixRot rot | Line lx ly p0x p0y dx dy | Link l1x l1y l2x l2y | Roll lx ly dx dy R | ConstRot speed | Gear ratio
    double ks = 10, kd = 1;
    double lo = -DBL_MAX, hi = DBL_MAX;          // torque range, or -/+ link maximum force
    bool neutral = false;
    double uks[3] = { 0, 0, 0 }, ukd[3] = { 0, 0, 0 }, ubias[3] = { 0, 0, 0 }, ulo[3] = { -DBL_MAX, -DBL_MAX, -DBL_MAX }, uhi[3] = { DBL_MAX, DBL_MAX, DBL_MAX };
};

// Errors of the position-level relations, from geometry. q = x0 y0 th0 x1 y1 th1
template <class T> void conError(const CSpec &c, const T *q, T *C) {
    const double *p = c.p;
    auto wx = [&](int i, double x, double y) { return q[3 * i] + cos(q[3 * i + 2]) * T(x) - sin(q[3 * i + 2]) * T(y); };
    auto wy = [&](int i, double x, double y) { return q[3 * i + 1] + sin(q[3 * i + 2]) * T(x) + cos(q[3 * i + 2]) * T(y); };
    switch (c.kind) {
    case FixPos: C[0] = wx(0, p[0], p[1]) - T(p[2]); C[1] = wy(0, p[0], p[1]) - T(p[3]); break;
    case FixRot: C[0] = q[2] - T(p[0]); break;
    case Line: C[0] = (wx(0, p[0], p[1]) - T(p[2])) * T(-p[5]) + (wy(0, p[0], p[1]) - T(p[3])) * T(p[4]); break;
    case Link: C[0] = wx(0, p[0], p[1]) - wx(1, p[2], p[3]); C[1] = wy(0, p[0], p[1]) - wy(1, p[2], p[3]); break;
    case Roll: {
        // express the wheel's centre in the base's frame, then along / across the track
        T dx = q[3] - q[0], dy = q[4] - q[1];
        T bx = cos(q[2]) * dx + sin(q[2]) * dy - T(p[0]), by = cos(q[2]) * dy - sin(q[2]) * dx - T(p[1]);
        T along = bx * T(p[2]) + by * T(p[3]), across = by * T(p[2]) - bx * T(p[3]);
        C[0] = T(p[4]) * (q[2] - q[5]) - along;
        C[1] = T(p[4]) - across; break; }
    case UDist: { T dx = wx(0, p[0], p[1]) - wx(1, p[2], p[3]), dy = wy(0, p[0], p[1]) - wy(1, p[2], p[3]);
        C[0] = (dx * dx + dy * dy - T(p[4] * p[4])) * T(0.5); break; }
    case UWeld: C[0] = wx(0, p[0], p[1]) - wx(1, p[2], p[3]); C[1] = wy(0, p[0], p[1]) - wy(1, p[2], p[3]); C[2] = T(p[5]) * (q[2] - q[5] - T(p[4])); break;
    case UPin: C[0] = wx(0, p[0], p[1]) - T(p[2]); C[1] = wy(0, p[0], p[1]) - T(p[3]); C[2] = T(p[5]) * (q[2] - T(p[4])); break;
    }
}
struct Row { int con, r, b[2], nb; LD J[6], Jd[6], C, ks, kd, bias, lo, hi; };

// q, v: coordinates and velocities of the (up to two) bodies
inline void conRows(const CSpec &c, const LD *q, const LD *v, Row *out) {
    const int nb = bodiesOf(c.kind), R = rowsOf(c.kind);
    for (int r = 0; r < R; ++r) {
        Row &o = out[r]; o.r = r; o.nb = nb; o.C = 0; o.bias = 0; o.lo = -DBL_MAX; o.hi = DBL_MAX; o.ks = c.ks; o.kd = c.kd;
        for (int i = 0; i < 6; ++i) o.J[i] = o.Jd[i] = 0;
    }
    if (positional(c.kind)) {
        for (int i = 0; i < 3 * nb; ++i) {
            HD h[6], C[3];
            for (int k = 0; k < 6; ++k) h[k] = HD(k < 3 * nb ? q[k] : 0, k == i ? 1 : 0, k < 3 * nb ? v[k] : 0, 0);
            conError(c, h, C);
            for (int r = 0; r < R; ++r) { out[r].J[i] = C[r].a; out[r].Jd[i] = C[r].ab; out[r].C = C[r].f; }
        }
    }
    switch (c.kind) {
    case Link: for (int r = 0; r < 2; ++r) { out[r].lo = c.lo; out[r].hi = c.hi; } break;
    case Roll: out[0].ks = out[0].kd = 0; break;
    case ConstRot: out[0].J[2] = 1; out[0].bias = c.p[0]; out[0].lo = c.lo; out[0].hi = c.hi; break;
    case Clutch: out[0].J[2] = -1; out[0].J[5] = 1; out[0].lo = c.lo; out[0].hi = c.hi; break;
    case Friction: out[0].J[2] = 1; out[0].lo = c.lo; out[0].hi = c.hi; break;
    case Gear: out[0].J[2] = 1; out[0].J[5] = -c.p[0]; if (c.neutral) out[0].lo = out[0].hi = 0; break;
    case UDist: case UWeld: case UPin:
        for (int r = 0; r < R; ++r) { out[r].ks = c.uks[r]; out[r].kd = c.ukd[r]; out[r].bias = c.ubias[r]; out[r].lo = c.ulo[r]; out[r].hi = c.uhi[r]; } break;
    }
}

enum FKind { FGravity, FStatic, FSpring, FMotor, FField, NFKIND };
static const char *const FNAME[] = { "gravity", "static_force", "spring", "motor", "user_field" };
struct FSpec {
    int kind = FGravity; int b[2] = { -1, -1 };
    double p[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };   // Gravity g | Static px py fx fy | Spring p1x p1y p2x p2y L0 ks kd | Motor ks kd max speed | Field k c A om tk tc tdt
};
struct BSpec { double x = 0, y = 0, th = 0, vx = 0, vy = 0, w = 0, m = 1, I = 1; bool reg = true; };

struct State { std::vector<LD> q, v, aprev; };  // 3 per body; bodies that are not registered keep v = 0

struct World {
    std::vector<BSpec> bodies; std::vector<CSpec> cons; std::vector<FSpec> forces;
    int rows() const { int n = 0; for (auto &c : cons) n += rowsOf(c.kind); return n; }
    int nreg() const { int n = 0; for (auto &b : bodies) n += b.reg; return n; }
};
inline State initial(const World &w) {
    State s; for (auto &b : w.bodies) { LD q[3] = { b.x, b.y, b.th }, v[3] = { b.vx, b.vy, b.w }; for (int k = 0; k < 3; ++k) { s.q.push_back(q[k]); s.v.push_back(b.reg ? v[k] : 0); s.aprev.push_back(0); } }
    return s;
}
inline void pointOf(const State &s, int b, LD x, LD y, LD *wx, LD *wy, LD *vx = nullptr, LD *vy = nullptr) {
    LD c = std::cos(s.q[3 * b + 2]), n = std::sin(s.q[3 * b + 2]); LD ax = c * x - n * y, ay = n * x + c * y;
    *wx = s.q[3 * b] + ax; *wy = s.q[3 * b + 1] + ay;
    if (vx) { *vx = s.v[3 * b] - s.v[3 * b + 2] * ay; *vy = s.v[3 * b + 1] + s.v[3 * b + 2] * ax; }
}
inline void addForce(const World &w, const State &s, std::vector<LD> &F, int b, LD px, LD py, LD fx, LD fy) {
    if (!w.bodies[b].reg) return;
    LD wx, wy; pointOf(s, b, px, py, &wx, &wy);
    F[3 * b] += fx; F[3 * b + 1] += fy; F[3 * b + 2] += (wx - s.q[3 * b]) * fy - (wy - s.q[3 * b + 1]) * fx;
}
// ambiguous is set when a spring sits on its minimum-length threshold
inline void applyForce(const World &w, const FSpec &f, const State &s, LD dtoff, std::vector<LD> &F, bool *ambiguous = nullptr) {
    const double *p = f.p;
    switch (f.kind) {
    case FGravity: for (size_t i = 0; i < w.bodies.size(); ++i) if (w.bodies[i].reg) F[3 * i + 1] -= (LD)w.bodies[i].m * p[0]; break;
    case FStatic: addForce(w, s, F, f.b[0], p[0], p[1], p[2], p[3]); break;
    case FSpring: {
        LD x1, y1, u1, w1, x2, y2, u2, w2; pointOf(s, f.b[0], p[0], p[1], &x1, &y1, &u1, &w1); pointOf(s, f.b[1], p[2], p[3], &x2, &y2, &u2, &w2);
        LD dx = x2 - x1, dy = y2 - y1, l = std::sqrt(dx * dx + dy * dy), ex = 0, ey = 0;
        if (std::fabs(l - 1e-2L) < 1e-9L * (1 + std::fabs(x1) + std::fabs(y1)) && ambiguous) *ambiguous = true;
        if (l >= 1e-2L) { ex = p[5] * (l - p[4]) * dx / l; ey = p[5] * (l - p[4]) * dy / l; }
        LD gx = ex + p[6] * (u2 - u1), gy = ey + p[6] * (w2 - w1);
        addForce(w, s, F, f.b[0], p[0], p[1], gx, gy); addForce(w, s, F, f.b[1], p[2], p[3], -gx, -gy); break; }
    case FMotor: {
        LD rv = s.v[3 * f.b[1] + 2] - s.v[3 * f.b[0] + 2], ra = s.aprev[3 * f.b[1] + 2] - s.aprev[3 * f.b[0] + 2];
        LD t = (p[3] - rv) * p[0] - ra * p[1]; if (t > p[2]) t = p[2]; if (t < -(LD)p[2]) t = -(LD)p[2];
        if (w.bodies[f.b[0]].reg) F[3 * f.b[0] + 2] -= t;
        if (w.bodies[f.b[1]].reg) F[3 * f.b[1] + 2] += t; break; }
    case FField: { int b = f.b[0]; if (!w.bodies[b].reg) break;
        F[3 * b] += -p[0] * s.q[3 * b] - p[1] * s.v[3 * b] + p[2] * std::sin(p[3] * s.q[3 * b + 1]) + p[6] * dtoff;
        F[3 * b + 1] += -p[0] * s.q[3 * b + 1] - p[1] * s.v[3 * b + 1] + p[2] * std::cos(p[3] * s.q[3 * b]);
        F[3 * b + 2] += -p[4] * std::sin(s.q[3 * b + 2]) - p[5] * s.v[3 * b + 2] + p[6] * dtoff; break; }
    }
}
inline std::vector<LD> forces(const World &w, const State &s, LD dtoff, bool *ambiguous = nullptr) {
    std::vector<LD> F(3 * w.bodies.size(), 0); for (auto &f : w.forces) applyForce(w, f, s, dtoff, F, ambiguous); return F;
}
inline LD invM(const World &w, int coord) { const BSpec &b = w.bodies[coord / 3]; if (!b.reg) return 0; return 1 / (LD)(coord % 3 == 2 ? b.I : b.m); }

inline std::vector<Row> rowsFor(const World &w, const State &s) {
    std::vector<Row> out;
    for (size_t j = 0; j < w.cons.size(); ++j) {
        const CSpec &c = w.cons[j]; LD q[6] = { 0 }, v[6] = { 0 }; int nb = bodiesOf(c.kind);
        for (int i = 0; i < nb; ++i) for (int k = 0; k < 3; ++k) { q[3 * i + k] = s.q[3 * c.b[i] + k]; v[3 * i + k] = w.bodies[c.b[i]].reg ? s.v[3 * c.b[i] + k] : 0; }
        Row r[3]; conRows(c, q, v, r);
        for (int k = 0; k < rowsOf(c.kind); ++k) { r[k].con = (int)j; for (int i = 0; i < 2; ++i) r[k].b[i] = i < nb ? c.b[i] : -1; out.push_back(r[k]); }
    }
    return out;
}
typedef std::vector<std::vector<LD>> Mat;
inline LD dotRow(const Row &r, const std::vector<LD> &x) { LD t = 0; for (int i = 0; i < r.nb; ++i) for (int k = 0; k < 3; ++k) t += r.J[3 * i + k] * x[3 * r.b[i] + k]; return t; }
inline LD dotRowD(const Row &r, const std::vector<LD> &x) { LD t = 0; for (int i = 0; i < r.nb; ++i) for (int k = 0; k < 3; ++k) t += r.Jd[3 * i + k] * x[3 * r.b[i] + k]; return t; }
inline void addT(const Row &r, LD s, std::vector<LD> &x) { for (int i = 0; i < r.nb; ++i) for (int k = 0; k < 3; ++k) x[3 * r.b[i] + k] += r.J[3 * i + k] * s; }
inline Mat gram(const World &w, const std::vector<Row> &R) {
    size_t n = R.size(); Mat A(n, std::vector<LD>(n, 0));
    for (size_t i = 0; i < n; ++i) { std::vector<LD> t(3 * w.bodies.size(), 0); addT(R[i], 1, t); for (size_t k = 0; k < t.size(); ++k) t[k] *= invM(w, (int)k); for (size_t j = 0; j < n; ++j) A[j][i] = dotRow(R[j], t); }
    return A;
}
// smallest eigenvalue of the diagonally normalised matrix (0 when a diagonal entry vanishes)
inline LD minEig(Mat A) {
    size_t n = A.size(); if (!n) return 1;
    std::vector<LD> d(n); LD top = 0; for (size_t i = 0; i < n; ++i) top = std::max(top, A[i][i]); for (size_t i = 0; i < n; ++i) { if (!(A[i][i] > 1e-12L * top)) return 0; d[i] = std::sqrt(A[i][i]); }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A[i][j] /= d[i] * d[j];
    for (int sweep = 0; sweep < 30; ++sweep) {
        LD off = 0; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) off += A[i][j] * A[i][j];
        if (off < 1e-20L) break;
        for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
            if (std::fabs(A[p][q]) < 1e-18L) continue;
            LD th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (size_t k = 0; k < n; ++k) { LD x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
            for (size_t k = 0; k < n; ++k) { LD x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
        }
    }
    LD m = A[0][0]; for (size_t i = 1; i < n; ++i) m = std::min(m, A[i][i]); return m;
}
// dense solve with complete pivoting; returns false when numerically singular
inline bool solve(Mat A, std::vector<LD> b, std::vector<LD> &x) {
    int n = (int)b.size(); std::vector<int> col(n); for (int i = 0; i < n; ++i) col[i] = i;
    for (int k = 0; k < n; ++k) {
        int pr = k, pc = k; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(A[i][j]) > std::fabs(A[pr][pc])) { pr = i; pc = j; }
        if (!(std::fabs(A[pr][pc]) > 0)) return false;
        std::swap(A[k], A[pr]); std::swap(b[k], b[pr]); if (pc != k) { for (int i = 0; i < n; ++i) std::swap(A[i][k], A[i][pc]); std::swap(col[k], col[pc]); }
        for (int i = k + 1; i < n; ++i) { LD f = A[i][k] / A[k][k]; if (f == 0) continue; for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; }
    }
    std::vector<LD> y(n); for (int i = n - 1; i >= 0; --i) { LD t = b[i]; for (int j = i + 1; j < n; ++j) t -= A[i][j] * y[j]; y[i] = t / A[i][i]; }
    x.assign(n, 0); for (int i = 0; i < n; ++i) x[col[i]] = y[i]; return true;
}
// box-limited problem  lo <= x <= hi,  A x - b complementary;  projected sweeps to machine accuracy
inline bool solveBox(const Mat &A, const std::vector<LD> &b, const std::vector<LD> &lo, const std::vector<LD> &hi, std::vector<LD> &x) {
    size_t n = b.size(); x.assign(n, 0); for (size_t i = 0; i < n; ++i) x[i] = std::max(lo[i], std::min(hi[i], (LD)0));
    for (int it = 0; it < 200000; ++it) {
        LD ch = 0, mg = 0;
        for (size_t i = 0; i < n; ++i) { LD t = b[i]; for (size_t j = 0; j < n; ++j) if (j != i) t -= A[i][j] * x[j]; t /= A[i][i]; t = std::max(lo[i], std::min(hi[i], t)); ch = std::max(ch, std::fabs(t - x[i]) * std::sqrt(A[i][i])); mg = std::max(mg, std::fabs(t) * std::sqrt(A[i][i])); x[i] = t; }
        if (ch <= 1e-16L * mg || ch == 0) return true;
    }
    return false;
}
// err, erra: velocity / acceleration error that the rounding of the position errors alone can cause (they are divided by the step length)
struct StepInfo { LD mineig = 1; bool ambiguous = false, singular = false; LD amag = 0, vmag = 0, pmag = 0, err = 0, erra = 0; int steps = 0; LD T = 0; };
inline LD errorMagnitude(const World &w, const State &s) {
    LD top = 0;
    for (auto &c : w.cons) { if (!positional(c.kind)) continue; LD t = 0, len = 1; for (double x : c.p) t += std::fabs(x); for (int i = 0; i < bodiesOf(c.kind); ++i) t += std::fabs(s.q[3 * c.b[i]]) + std::fabs(s.q[3 * c.b[i] + 1]) + std::fabs(s.q[3 * c.b[i] + 2]);
        if (c.kind == Roll) { for (int i = 0; i < 2; ++i) t += std::fabs(c.p[4] * s.q[3 * c.b[i] + 2]); } if (c.kind == Line) len += std::fabs(c.p[4]) + std::fabs(c.p[5]); if (c.kind == UWeld || c.kind == UPin) len += std::fabs(c.p[5]); top = std::max(top, t * len); }
    return top;
}

// general system: acceleration and reactions (force units) at a state
inline void acceleration(const World &w, const State &s, LD dtoff, std::vector<LD> &a, std::vector<LD> &lam, std::vector<Row> &R, StepInfo &info) {
    std::vector<LD> F = forces(w, s, dtoff, &info.ambiguous); R = rowsFor(w, s); size_t n3 = F.size();
    std::vector<LD> WF(n3); for (size_t k = 0; k < n3; ++k) WF[k] = F[k] * invM(w, (int)k);
    std::vector<LD> b; for (auto &r : R) b.push_back(-dotRowD(r, s.v) - dotRow(r, WF) - r.ks * r.C - r.kd * dotRow(r, s.v));
    Mat A = gram(w, R); info.mineig = std::min(info.mineig, minEig(A));
    if (info.mineig < 1e-8L || !solve(A, b, lam)) { info.singular = true; lam.assign(R.size(), 0); }
    { LD ks = 0; for (auto &r : R) ks = std::max(ks, std::fabs(r.ks)); info.erra = std::max(info.erra, 2e-15L * ks * errorMagnitude(w, s) / std::max(info.mineig, (LD)1e-4)); }
    std::vector<LD> mag(n3); for (size_t k = 0; k < n3; ++k) mag[k] = std::fabs(F[k]);
    a = F; for (size_t j = 0; j < R.size(); ++j) { addT(R[j], lam[j], a); for (int i = 0; i < R[j].nb; ++i) for (int k = 0; k < 3; ++k) mag[3 * R[j].b[i] + k] += std::fabs(R[j].J[3 * i + k] * lam[j]); }
    for (size_t k = 0; k < n3; ++k) { a[k] *= invM(w, (int)k); info.amag = std::max(info.amag, mag[k] * invM(w, (int)k)); info.vmag = std::max(info.vmag, std::fabs(s.v[k])); info.pmag = std::max(info.pmag, std::fabs(s.q[k])); }
}
enum Scheme { Euler, Nsv, Rk4 };
// one step of length h of the general system; lamOut: per row the (stage-weighted) J^T lambda, 6 numbers per row
inline void genericStep(const World &w, State &s, int scheme, LD h, std::vector<LD> &react, StepInfo &info) {
    size_t n3 = s.q.size(); std::vector<LD> a, lam; std::vector<Row> R;
    info.T += h; if ((info.steps++ || scheme == Rk4) && info.T > 0.51) info.ambiguous = true;       // rounding errors grow from step to step and from stage to stage
    auto add = [&](LD wt) { react.resize(R.size() * 6, 0); for (size_t j = 0; j < R.size(); ++j) for (int k = 0; k < 6; ++k) { int bi = k / 3; bool ok = bi < R[j].nb && w.bodies[R[j].b[bi]].reg; if (ok) react[6 * j + k] += wt * R[j].J[k] * lam[j]; } };
    react.assign(w.rows() * 6, 0);
    if (scheme != Rk4) {
        acceleration(w, s, h, a, lam, R, info); add(1); s.aprev = a;
        if (scheme == Euler) { for (size_t k = 0; k < n3; ++k) { s.q[k] += h * s.v[k]; s.v[k] += h * a[k]; } }
        else for (size_t k = 0; k < n3; ++k) { s.v[k] += h * a[k]; s.q[k] += h * s.v[k]; }
        return;
    }
    State s0 = s, st = s; std::vector<LD> kq[4], kv[4];
    static const LD off[4] = { 0, 0.5L, 0.5L, 1 }, wt[4] = { 1.0L / 6, 2.0L / 6, 2.0L / 6, 1.0L / 6 };
    for (int g = 0; g < 4; ++g) {
        if (g) for (size_t k = 0; k < n3; ++k) { st.q[k] = s0.q[k] + off[g] * h * kq[g - 1][k]; st.v[k] = s0.v[k] + off[g] * h * kv[g - 1][k]; }
        acceleration(w, st, off[g] * h, a, lam, R, info); add(wt[g]); st.aprev = a; kq[g] = st.v; kv[g] = a;
    }
    for (size_t k = 0; k < n3; ++k) for (int g = 0; g < 4; ++g) { s.q[k] += h * wt[g] * kq[g][k]; s.v[k] += h * wt[g] * kv[g][k]; }
    s.aprev = a;
}
// velocity-level system: one step; limited: box limits are honoured
inline void nsvStep(const World &w, State &s, LD h, LD beta, bool limited, std::vector<LD> &react, StepInfo &info, std::vector<LD> *lamOut = nullptr, std::vector<Row> *rowsOut = nullptr) {
    info.T += h; if (info.steps++ && (info.T > 0.51 || (beta > 2 && std::pow(beta - 1, info.steps - 1) > 4))) info.ambiguous = true;   // so strong a correction overshoots and amplifies rounding errors from step to step
    std::vector<LD> F = forces(w, s, h, &info.ambiguous); std::vector<Row> R = rowsFor(w, s); size_t n3 = F.size();
    std::vector<LD> u(n3), mag(n3); for (size_t k = 0; k < n3; ++k) { u[k] = s.v[k] + h * F[k] * invM(w, (int)k); mag[k] = std::fabs(F[k]); info.vmag = std::max(info.vmag, std::fabs(s.v[k])); info.pmag = std::max(info.pmag, std::fabs(s.q[k])); }
    std::vector<LD> b, lo, hi, lam; for (auto &r : R) { b.push_back(-(dotRow(r, u) + r.bias + beta / h * r.C)); lo.push_back(r.lo * h); hi.push_back(r.hi * h); }
    Mat A = gram(w, R); info.mineig = std::min(info.mineig, minEig(A));
    { LD e = 2e-15L * std::max(beta, (LD)1) / h * errorMagnitude(w, s) / std::max(info.mineig, (LD)1e-4); info.err = std::max(info.err, e); info.erra = std::max(info.erra, e / h); }
    bool ok = info.mineig > 1e-8L && (limited ? solveBox(A, b, lo, hi, lam) : solve(A, b, lam));
    if (!ok) { info.singular = true; lam.assign(R.size(), 0); }
    react.assign(R.size() * 6, 0); std::vector<LD> a = F;
    for (size_t j = 0; j < R.size(); ++j) for (int i = 0; i < R[j].nb; ++i) for (int k = 0; k < 3; ++k) {
        LD f = R[j].J[3 * i + k] * lam[j] / h; int c = 3 * R[j].b[i] + k; if (!w.bodies[R[j].b[i]].reg) continue;
        react[6 * j + 3 * i + k] = f; a[c] += f; mag[c] += std::fabs(f);
    }
    for (size_t k = 0; k < n3; ++k) { a[k] *= invM(w, (int)k); info.amag = std::max(info.amag, mag[k] * invM(w, (int)k)); s.v[k] += h * a[k]; s.q[k] += h * s.v[k]; }
    s.aprev = a;
    if (lamOut) *lamOut = lam; if (rowsOut) *rowsOut = R;
}
} // namespace ref
