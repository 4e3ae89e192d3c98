// Generated linear problems  J W J^T x = b : a block-sparse J, weights W, and the exact operator in long double.
#pragma once
#include "engine.h"
#include "ref.h"
#include "scs.h"
#include <memory>
#include <cstring>
namespace lin {
using namespace atg_scs;
using pbt::Case; using pbt::Source;
struct Prob {
    int nb = 1, n = 0;                                 // bodies (blocks), rows
    struct R { int blk[2] = { -1, -1 }; double v[2][3] = { { 0, 0, 0 }, { 0, 0, 0 } }; };
    std::vector<R> rows; std::vector<double> w, b;
    std::vector<LD> dense(int i) const { std::vector<LD> d(3 * nb, 0); for (int e = 0; e < 2; ++e) if (rows[i].blk[e] >= 0) for (int k = 0; k < 3; ++k) d[3 * rows[i].blk[e] + k] += rows[i].v[e][k]; return d; }
    ref::Mat A(bool absolute = false) const {
        ref::Mat a(n, std::vector<LD>(n, 0)); std::vector<std::vector<LD>> D; for (int i = 0; i < n; ++i) D.push_back(dense(i));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < 3 * nb; ++k) { LD t = D[i][k] * w[k] * D[j][k]; a[i][j] += absolute ? std::fabs(t) : t; }
        return a;
    }
    void note(Case &c) const {
        for (int i = 0; i < n; ++i) c.note("row %d: block %d (%.17g %.17g %.17g) block %d (%.17g %.17g %.17g)  b=%.17g", i, rows[i].blk[0], rows[i].v[0][0], rows[i].v[0][1], rows[i].v[0][2], rows[i].blk[1], rows[i].v[1][0], rows[i].v[1][1], rows[i].v[1][2], b[i]);
        std::string s = "W:"; char t[40]; for (double x : w) { snprintf(t, sizeof t, " %.17g", x); s += t; } c.note("%s", s.c_str());
    }
};
struct Problem {                                       // the library objects of one problem
    SparseMatrix<3> J; Matrix W, right;
    explicit Problem(const Prob &p) {
        J.initialize(3 * p.nb, p.n); W.initialize(1, 3 * p.nb); right.initialize(1, p.n);
        for (int i = 0; i < p.n; ++i) { for (int e = 0; e < 2; ++e) { if (p.rows[i].blk[e] < 0) continue; J.setBlock(i, e, p.rows[i].blk[e]); for (int k = 0; k < 3; ++k) J.set(i, e, k, p.rows[i].v[e][k]); } right.set(0, i, p.b[i]); }
        for (int k = 0; k < 3 * p.nb; ++k) W.set(0, k, p.w[k]);
    }
    ~Problem() { J.destroy(); W.destroy(); right.destroy(); }
};
struct Mx : Matrix { ~Mx() { destroy(); } };            // releases itself
enum WKind { Positive, Signed, Cancelling };
struct Opt { int maxRows = 7, maxBodies = 5; int wkind = Positive; bool grid = false; double wscale = 1, jscale = 1; int chain = 0; /* a chain of up to this many links, each coupled to the next */ int hub = 0; /* up to this many rows, all coupled through one body */ };
inline Prob gen(Source &s, const Opt &o) {
    Prob p; int lastChain = 0; p.nb = s.range(1, o.maxBodies); p.n = s.range(0, o.maxRows);
    auto val = [&]() { return o.grid ? (double)s.range(-2, 2) : s.chance(1, 5) ? 0.0 : s.real(-2, 2); };
    for (int i = 0; i < p.n; ++i) {
        Prob::R r; r.blk[0] = s.range(0, p.nb - 1);
        if (p.nb > 1 && s.chance(1, 2)) { r.blk[1] = s.range(0, p.nb - 2); if (r.blk[1] >= r.blk[0]) ++r.blk[1]; if (s.chance(1, 6)) r.blk[0] = -1; }   // first body may be the unregistered one
        double sc = s.chance(1, 8) ? s.logreal(0.05, 20) : 1;
        for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) r.v[e][k] = r.blk[e] >= 0 ? sc * val() : 0;
        p.rows.push_back(r);
    }
    for (int k = 0; k < 3 * p.nb; ++k) { double w = o.grid ? s.range(1, 3) : s.logreal(0.1, 10); if (o.wkind != Positive && s.chance(1, 2)) w = -w; p.w.push_back(w); }
    if (o.wkind == Cancelling) { static const double e[] = { 0, 1e-15, 1e-13, 1e-10, 1e-7 }; for (int k = 1; k < 3 * p.nb; ++k) if (s.chance(2, 3)) p.w[k] = -p.w[k - 1] * (1 + s.pick(e)); }
    if (o.chain) { p = Prob(); p.n = s.range(4, o.chain); p.nb = p.n + 1; double e = s.chance(1, 2) ? 1 : s.uniform(0.8, 1.25); for (int i = 0; i < p.n; ++i) { Prob::R r; r.blk[0] = i; r.blk[1] = i + 1; int k = s.range(0, 2); r.v[0][i ? lastChain : k] = 1; r.v[1][k] = s.chance(1, 4) ? e : -e; lastChain = k; p.rows.push_back(r); } for (int k = 0; k < 3 * p.nb; ++k) p.w.push_back(s.uniform(0.8, 1.25)); }
    if (o.hub) { p = Prob(); p.n = s.range(o.hub / 2, o.hub); p.nb = p.n + 1; double g = s.uniform(0.05, 0.3); for (int i = 0; i < p.n; ++i) { Prob::R r; r.blk[0] = 0; r.blk[1] = i + 1; int k = s.range(0, 2); r.v[0][s.chance(1, 4) ? k : 0] = s.chance(1, 2) ? g : -g; r.v[1][k] = 1; p.rows.push_back(r); } for (int k = 0; k < 3 * p.nb; ++k) p.w.push_back(s.uniform(0.8, 1.25)); }
    if (o.wscale != 1) for (double &w : p.w) w *= o.wscale;
    if (o.jscale != 1) for (auto &r : p.rows) for (auto &e : r.v) for (double &x : e) x *= o.jscale;
    for (int i = 0; i < p.n; ++i) p.b.push_back(s.chance(1, 6) ? 0 : s.real(-10, 10) * (s.chance(1, 8) ? s.logreal(1e-3, 1e3) : 1));
    return p;
}
inline LD normInf(const ref::Mat &A) { LD m = 0; for (auto &r : A) { LD s = 0; for (LD x : r) s += std::fabs(x); m = std::max(m, s); } return m; }
// inf-norm of the inverse, or -1 when singular
inline LD invNorm(const ref::Mat &A) { int n = (int)A.size(); std::vector<LD> s(n, 0); for (int j = 0; j < n; ++j) { std::vector<LD> e(n, 0), x; e[j] = 1; if (!ref::solve(A, e, x)) return -1; for (int i = 0; i < n; ++i) s[i] += std::fabs(x[i]); } LD m = 0; for (LD x : s) { if (!(x == x)) return -1; m = std::max(m, x); } return m; }
// 2-norm extreme eigenvalues of a symmetric matrix
inline void eigRange(ref::Mat A, LD *mn, LD *mx) {
    int n = (int)A.size(); *mn = *mx = 1; if (!n) return;
    for (int sw = 0; sw < 40; ++sw) { LD off = 0, dg = 0; for (int i = 0; i < n; ++i) { dg += A[i][i] * A[i][i]; for (int j = i + 1; j < n; ++j) off += A[i][j] * A[i][j]; } if (!(off > 1e-26L * dg)) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { if (!(A[p][q] * A[p][q] > 1e-34L * std::fabs(A[p][p] * A[q][q]))) continue; LD th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { LD x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
            for (int k = 0; k < n; ++k) { LD x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; } } }
    *mn = *mx = A[0][0]; for (int i = 1; i < n; ++i) { *mn = std::min(*mn, A[i][i]); *mx = std::max(*mx, A[i][i]); }
}
inline LD vmax(const std::vector<LD> &v) { LD m = 0; for (LD x : v) m = std::max(m, std::fabs(x)); return m; }
// arbitrary starting guess: absent, wrong size, junk of the right size; kind returned for aliasing decisions
enum Guess { NoGuess, WrongSize, Junk, Zero, Alias, NGUESS };
inline int genGuess(Source &s, int n, Matrix *prev, double mag) {
    int g = s.range(0, NGUESS - 1);
    if (g == NoGuess) return g;
    if (g == WrongSize) { int w = s.range(1, 2), h = s.range(0, n + 3); if (h == n) ++h; prev->initialize(w, h, 7.5); return g; }
    prev->initialize(1, n); if (g != Zero) for (int i = 0; i < n; ++i) prev->set(0, i, s.real(-mag, mag));
    return g;
}
} // namespace lin
