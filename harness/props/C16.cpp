// Dense matrices: random operation histories against an exact model.
#include "engine.h"
#include "scs.h"
using namespace atg_scs; using pbt::Case; using pbt::Source; typedef long double LD;
const char *PROPERTY_ID = "C16";
const char *PROPERTY_RULE = "history of up to 60 operations on five dense matrices of sizes 0..7 (rarely 40), each result and every matrix after every operation compared with a model; non-trivial = at least one product or accumulation after a resize, row swap or destroy";
extern const long QUICK_CASES = 800000, THOROUGH_CASES = 6000000;
namespace { struct Mod { int w = 0, h = 0; std::vector<double> v; double &at(int c, int r) { return v[(size_t)r * w + c]; } double at(int c, int r) const { return v[(size_t)r * w + c]; } void size(int W, int H, double x) { w = W; h = H; v.assign((size_t)W * H, x); } }; }
void run_case(Case &c) {
    Source &s = c.s; const int K = 5; Matrix *m[K]; Mod o[K];
    { for (int i = 0; i < K; ++i) { if (s.chance(1, 3)) { int w = s.range(0, 5), h = s.range(0, 5); double x = s.real(-3, 3); m[i] = new Matrix(w, h, x); o[i].size(w, h, x); } else m[i] = new Matrix; } }
    bool disturbed = false, nt = false; bool large = s.chance(1, 12), huge = large && s.chance(1, 12); if (large) c.label("large_matrices"); auto dim = [&]() { return huge && s.chance(1, 2) ? s.range(41, 140) : s.chance(1, large ? 2 : 60) ? s.range(8, 40) : s.chance(1, 4) ? 1 : s.range(0, 7); }; auto val = [&]() { return s.chance(1, 6) ? 0.0 : s.real(-9, 9) * (s.chance(1, 10) ? s.chance(1, 8) ? s.logreal(1e-30, 1e30) : s.logreal(1e-6, 1e6) : 1); };
    auto same = [&](int i, const char *op, const std::vector<LD> *mag) {
        REQUIRE(m[i]->getWidth() == o[i].w && m[i]->getHeight() == o[i].h, "after %s: matrix %d is %dx%d instead of %dx%d", op, i, m[i]->getWidth(), m[i]->getHeight(), o[i].w, o[i].h);
        for (int r = 0; r < o[i].h; ++r) for (int k = 0; k < o[i].w; ++k) { double g = m[i]->get(k, r), w = o[i].at(k, r);
            if (mag) { pbt::near(c, op, g, w, (double)(1e-13L * (*mag)[(size_t)r * o[i].w + k] + 1e-300L), "%s: result element (column %d, row %d)", op, k, r); o[i].at(k, r) = g; }
            else REQUIRE(g == w, "after %s: matrix %d element (column %d, row %d) is %.17g instead of %.17g", op, i, k, r, g, w); } };
    if (huge) c.label("very_large_matrices"); int ops = huge ? s.range(2, 5) : large ? s.range(3, 10) : s.range(5, 60);
    for (int t = 0; t < ops; ++t) {
        int a = s.range(0, K - 1), b = s.range(0, K - 1), d = s.range(0, K - 1); Mod &A = o[a], &B = o[b], &D = o[d]; const char *op = nullptr; std::vector<LD> mag; bool withMag = false;
        int kind = s.range(0, 23); if (kind >= 7 && kind <= 18 && (d == a || (kind <= 14 && d == b))) d = -1;
        auto shape = [&](Mod &X, Matrix *x, int W, int H) { if (X.w == W && X.h == H) return; x->initialize(W, H); X.size(W, H, 0); for (int r = 0; r < H; ++r) for (int k = 0; k < W; ++k) { double z = val(); x->set(k, r, z); X.at(k, r) = z; } };
        if (kind >= 7 && kind <= 18 && d < 0) continue;
        Mod &R = d >= 0 ? o[d] : D; auto begin = [&](int W, int H) { R.size(W, H, 0); mag.assign((size_t)W * H, 0); withMag = true; nt |= disturbed; };
        switch (kind) {
        case 0: { int W = dim(), H = dim(); double x = val(); op = "initialize with a value"; m[a]->initialize(W, H, x); A.size(W, H, x); break; }
        case 1: { int W = dim(), H = dim(); op = "initialize"; m[a]->initialize(W, H); A.size(W, H, 0); break; }
        case 2: { int W = dim(), H = dim(); op = "resize"; disturbed = true; bool keep = W == A.w && H == A.h; m[a]->resize(W, H); if (!keep) { A.size(W, H, 0); for (int r = 0; r < H; ++r) for (int k = 0; k < W; ++k) { double z = val(); m[a]->set(k, r, z); A.at(k, r) = z; } } break; }
        case 3: op = "destroy"; disturbed = true; m[a]->destroy(); A.size(0, 0, 0); break;
        case 4: { op = "set from data"; std::vector<double> x((size_t)A.w * A.h); for (double &z : x) z = val(); x.push_back(0); m[a]->set(x.data()); x.pop_back(); A.v = x; break; }
        case 5: op = "set from a matrix"; m[a]->set(m[b]); if (a != b) A = B; break;
        case 6: { if (!A.w || !A.h) continue; int k = s.range(0, A.w - 1), r = s.range(0, A.h - 1); double z = val(); if (s.chance(1, 2)) { op = "set element"; m[a]->set(k, r, z); A.at(k, r) = z; } else { op = "add to element"; m[a]->add(k, r, z); A.at(k, r) += z; } break; }
        case 7: case 8: { op = "multiply"; shape(B, m[b], s.chance(1, 2) ? 1 : s.range(0, huge ? 80 : large ? 24 : 6), A.w); if (a == b && A.w != A.h) continue; begin(B.w, A.h); for (int r = 0; r < A.h; ++r) for (int k = 0; k < B.w; ++k) { LD t = 0; for (int j = 0; j < A.w; ++j) { t += (LD)A.at(j, r) * B.at(k, j); mag[(size_t)r * R.w + k] += std::fabs((LD)A.at(j, r) * B.at(k, j)); } R.at(k, r) = (double)t; } m[a]->multiply(*m[b], m[d]); break; }
        case 9: { op = "component product"; shape(B, m[b], A.w, A.h); begin(A.w, A.h); for (size_t i = 0; i < A.v.size(); ++i) { R.v[i] = A.v[i] * B.v[i]; mag[i] = std::fabs(R.v[i]); } m[a]->componentMultiply(*m[b], m[d]); break; }
        case 10: { op = "transposed product"; shape(B, m[b], s.range(0, huge ? 80 : large ? 24 : 6), A.h); if (a == b && B.h != A.h) continue; begin(B.w, A.w); for (int i = 0; i < A.w; ++i) for (int k = 0; k < B.w; ++k) { LD t = 0; for (int j = 0; j < A.h; ++j) { t += (LD)A.at(i, j) * B.at(k, j); mag[(size_t)i * R.w + k] += std::fabs((LD)A.at(i, j) * B.at(k, j)); } R.at(k, i) = (double)t; } m[a]->transposeMultiply(*m[b], m[d]); break; }
        case 11: { op = "left scaling"; if (a == b && A.w != 1) continue; shape(B, m[b], 1, A.h); begin(A.w, A.h); for (int r = 0; r < A.h; ++r) for (int k = 0; k < A.w; ++k) { R.at(k, r) = B.at(0, r) * A.at(k, r); mag[(size_t)r * R.w + k] = std::fabs(R.at(k, r)); } m[a]->leftScale(*m[b], m[d]); break; }
        case 12: { op = "right scaling"; if (a == b) continue; shape(B, m[b], 1, A.w); begin(A.w, A.h); for (int r = 0; r < A.h; ++r) for (int k = 0; k < A.w; ++k) { R.at(k, r) = B.at(0, k) * A.at(k, r); mag[(size_t)r * R.w + k] = std::fabs(R.at(k, r)); } m[a]->rightScale(*m[b], m[d]); break; }
        case 13: { op = "subtract"; shape(B, m[b], A.w, A.h); begin(A.w, A.h); for (size_t i = 0; i < A.v.size(); ++i) { R.v[i] = A.v[i] - B.v[i]; mag[i] = std::fabs(A.v[i]) + std::fabs(B.v[i]); } m[a]->subtract(*m[b], m[d]); break; }
        case 14: { op = "sum"; shape(B, m[b], A.w, A.h); begin(A.w, A.h); for (size_t i = 0; i < A.v.size(); ++i) { R.v[i] = A.v[i] + B.v[i]; mag[i] = std::fabs(A.v[i]) + std::fabs(B.v[i]); } m[a]->add(*m[b], m[d]); break; }
        case 15: { op = "scalar multiple"; double z = val(); begin(A.w, A.h); for (size_t i = 0; i < A.v.size(); ++i) { R.v[i] = z * A.v[i]; mag[i] = std::fabs(R.v[i]); } m[a]->scale(z, m[d]); break; }
        case 16: { op = "negation"; begin(A.w, A.h); for (size_t i = 0; i < A.v.size(); ++i) { R.v[i] = -A.v[i]; mag[i] = 0; } m[a]->negate(m[d]); break; }
        case 17: case 18: { op = "transposition"; begin(A.h, A.w); for (int r = 0; r < A.h; ++r) for (int k = 0; k < A.w; ++k) R.at(r, k) = A.at(k, r); m[a]->transpose(m[d]); break; }
        case 19: { if (a == b) continue; op = "scaled accumulation"; shape(B, m[b], A.w, A.h); double z = val(); bool p = s.chance(1, 2); mag.assign(A.v.size(), 0); for (size_t i = 0; i < A.v.size(); ++i) { LD x = p ? (LD)z * A.v[i] + B.v[i] : (LD)A.v[i] + (LD)B.v[i] * z; mag[i] = (p ? std::fabs((LD)z * A.v[i]) + std::fabs(B.v[i]) : std::fabs(A.v[i]) + std::fabs((LD)B.v[i] * z)); A.v[i] = (double)x; } if (p) m[a]->pmadd(*m[b], z); else m[a]->madd(*m[b], z); d = a; withMag = true; nt |= disturbed; break; }
        case 20: { op = "dot product"; if (A.w != 1) { shape(A, m[a], 1, s.range(0, huge ? 300 : large ? 70 : 7)); } shape(B, m[b], 1, A.h); LD t = 0, q = 0; for (int r = 0; r < A.h; ++r) { t += (LD)A.at(0, r) * B.at(0, r); q += std::fabs((LD)A.at(0, r) * B.at(0, r)); } pbt::near(c, op, m[a]->dot(*m[b]), (double)t, (double)(1e-13L * q + 1e-300L), "dot product of matrices %d and %d", a, b); nt |= disturbed; break; }
        case 21: { op = "squared magnitude"; if (A.w != 1) shape(A, m[a], 1, s.range(0, huge ? 300 : large ? 70 : 7)); LD t = 0; for (int r = 0; r < A.h; ++r) t += (LD)A.at(0, r) * A.at(0, r); pbt::near(c, op, m[a]->vectorMagnitudeSquared(), (double)t, (double)(1e-13L * t + 1e-300L), "of matrix %d", a); break; }
        case 22: { op = "comparison"; if (s.chance(2, 3) && a != b) { m[b]->set(m[a]); B = A; if (B.w && B.h) { int k = s.range(0, B.w - 1), r = s.range(0, B.h - 1); double e = s.pick(std::vector<double>{ 0, 5e-7, -5e-7, 2e-6, -2e-6, 1e-3, -1e-3, 1, -1 }); m[b]->add(k, r, e); B.at(k, r) += e; } }
            double err = s.chance(1, 2) ? 1e-6 : s.logreal(1e-8, 10); bool want = A.w == B.w && A.h == B.h, amb = false; if (want) for (size_t i = 0; i < A.v.size(); ++i) { double df = std::fabs(A.v[i] - B.v[i]); if (std::fabs(df - err) < 1e-9 * err + 1e-14 * (std::fabs(A.v[i]) + std::fabs(B.v[i]))) amb = true; if (df > err) want = false; }
            if (!amb) { bool got = err == 1e-6 ? m[a]->equals(*m[b]) : m[a]->equals(*m[b], err); REQUIRE(got == want, "comparison of matrices %d and %d with tolerance %.3g gives %d instead of %d", a, b, err, got, want); c.label(want ? "comparison_equal" : "comparison_different"); } break; }
        default: { if (A.h < 1 || !A.w) continue; op = "row swap"; disturbed = true; int r0 = s.range(0, A.h - 1), r1 = s.range(0, A.h - 1); m[a]->fastRowSwap(r0, r1); for (int k = 0; k < A.w; ++k) std::swap(A.at(k, r0), A.at(k, r1)); break; }
        }
        c.note("op %d: %s on matrix %d (%dx%d), other %d (%dx%d), target %d", t, op, a, A.w, A.h, b, B.w, B.h, d);
        if (withMag) { same(d, op, &mag); }
        for (int i = 0; i < K; ++i) same(i, op, nullptr);
        for (int i = 0; i < K; ++i) { bool wild = false; for (double x : o[i].v) wild |= !(std::fabs(x) < 1e60); if (wild) { m[i]->initialize(o[i].w, o[i].h, 1.5); std::fill(o[i].v.begin(), o[i].v.end(), 1.5); } }   // products of products of large values: stay far from overflow
    }
    for (int i = 0; i < K; ++i) { m[i]->destroy(); REQUIRE(m[i]->getWidth() == 0 && m[i]->getHeight() == 0, "a destroyed matrix has size %dx%d", m[i]->getWidth(), m[i]->getHeight()); delete m[i]; }
    if (nt) c.nontrivial();
}
