// Block-sparse matrices: random operation histories against the dense matrix they stand for.
#include "engine.h"
#include "scs.h"
#include <type_traits>
#include <utility>
using namespace atg_scs; using pbt::Case; using pbt::Source; typedef long double LD;
const char *PROPERTY_ID = "C17";
const char *PROPERTY_RULE = "history of up to 40 operations on three block-sparse matrices (stride 3 with 2 entries, or stride 1/2/3/4 with 1-3 entries) of widths up to 12 blocks, 300 blocks or 70000 blocks, each result compared with the dense model; non-trivial = at least one product, scaling or expansion of a matrix with a set block";
extern const long QUICK_CASES = 240000, THOROUGH_CASES = 3000000;
namespace {
struct Dx : Matrix { ~Dx() { destroy(); } };
struct Mod { int blocks = 0, h = 0; struct E { int blk = -1; double v[4] = { 0, 0, 0, 0 }; bool readable = false; }; std::vector<std::vector<E>> r; };
template <int S, int E> struct Run {
    Case &c; Source &s; SparseMatrix<S, E> m[3]; Mod o[3]; bool nt = false; int maxBlocks;
    Run(Case &cc, int mb) : c(cc), s(cc.s), maxBlocks(mb) { tall = mb <= 12 && s.chance(1, 60); }
    double val() { return s.chance(1, 6) ? 0.0 : s.real(-9, 9); }
    LD dense(const Mod &x, int row, int col) { LD t = 0; for (auto &e : x.r[row]) if (e.blk >= 0 && col / S == e.blk) t += e.v[col % S]; return t; }
    void setBlock(int i, int row, int e) {
        std::vector<char> used; int b = s.range(0, o[i].blocks - 1); if (maxBlocks > 100 && s.chance(1, 2)) { int near_ = o[i].r[row][e ? 0 : E - 1].blk; static const int off[] = { 256, 65536, 255, 32768, 128 }; int p = near_ >= 0 ? (near_ + s.pick(off)) % o[i].blocks : o[i].blocks - 1; b = p; }
        for (int k = 0; k < E; ++k) if (k != e && o[i].r[row][k].blk == b) return;                                            // a block index appears once per row
        m[i].setBlock(row, e, b); o[i].r[row][e].blk = b; o[i].r[row][e].readable = true; for (int k = 0; k < S; ++k) { double v = val(); m[i].set(row, e, k, v); o[i].r[row][e].v[k] = v; }
        c.note("matrix %d row %d entry %d: block %d", i, row, e, b);
    }
    void setEmpty(int i, int row, int e) { m[i].setEmpty(row, e); o[i].r[row][e] = typename Mod::E(); o[i].r[row][e].readable = true; }
    void reset(int i, int blocks, int h) { o[i].blocks = blocks; o[i].h = h; o[i].r.assign(h, std::vector<typename Mod::E>(E)); }
    void fillAll(int i) { for (int r = 0; r < o[i].h; ++r) for (int e = 0; e < E; ++e) { if (o[i].blocks && s.chance(3, 4)) { setBlock(i, r, e); if (o[i].r[r][e].blk >= 0) continue; } setEmpty(i, r, e); } }
    void structure(int i, const char *op) {
        REQUIRE(m[i].getWidth() == o[i].blocks * S && m[i].getHeight() == o[i].h, "after %s: matrix %d is %dx%d instead of %dx%d", op, i, m[i].getWidth(), m[i].getHeight(), o[i].blocks * S, o[i].h);
        for (int r = 0; r < o[i].h; ++r) for (int e = 0; e < E; ++e) if (o[i].r[r][e].readable) for (int k = 0; k < S; ++k) REQUIRE(m[i].get(r, e, k) == o[i].r[r][e].v[k], "after %s: matrix %d row %d entry %d slice %d reads %.17g instead of %.17g", op, i, r, e, k, m[i].get(r, e, k), o[i].r[r][e].v[k]);
    }
    bool set(int i) { for (auto &r : o[i].r) for (auto &e : r) if (e.blk >= 0) return true; return false; }
    template <class T> void scaledIs(T &t, int i, const std::vector<double> &sc, bool right, const char *op) {          // the scaled matrix, entry by entry and expanded
        REQUIRE(t.getWidth() == o[i].blocks * S && t.getHeight() == o[i].h, "%s: target is %dx%d instead of %dx%d", op, t.getWidth(), t.getHeight(), o[i].blocks * S, o[i].h);
        for (int r = 0; r < o[i].h; ++r) for (int e = 0; e < E; ++e) { auto &x = o[i].r[r][e]; for (int k = 0; k < S; ++k) { double want = x.blk < 0 ? 0 : (right ? sc[x.blk * S + k] : sc[r]) * x.v[k]; pbt::near(c, op, t.get(r, e, k), want, 1e-14 * std::fabs(want), "row %d entry %d slice %d", r, e, k); } }
        if (o[i].blocks <= 300) { Dx d; t.expand(&d); for (int r = 0; r < o[i].h; ++r) for (int q = 0; q < o[i].blocks * S; ++q) { LD want = dense(o[i], r, q) * (right ? sc[q] : sc[r]); pbt::near(c, op, d.get(q, r), (double)want, (double)(1e-14L * std::fabs(want)), "expanded row %d column %d", r, q); } }
    }
    template <class T> static auto takes(int) -> decltype(std::declval<SparseMatrix<S, E> &>().leftScale(std::declval<Matrix &>(), std::declval<T *>()), std::true_type()); template <class T> static std::false_type takes(...);
    typedef typename std::conditional<decltype(takes<SparseMatrix<S, E>>(0))::value, SparseMatrix<S, E>, SparseMatrix<S>>::type Scaled;   // a matrix of the same shape (the original accepts two-entry targets only)
    void scaling(int i) {
        bool right = s.chance(1, 2); const char *op = right ? "right scaling" : "left scaling"; int n = right ? o[i].blocks * S : o[i].h; Dx w; w.initialize(1, n); std::vector<double> sc; for (int k = 0; k < n; ++k) { sc.push_back(n > 1000 && k % 97 ? 1.25 : val()); w.set(0, k, sc.back()); }
        c.note("%s of matrix %d", op, i); Scaled *t = s.chance(1, 2) ? &target : new Scaled; if (right) m[i].rightScale(w, t); else m[i].leftScale(w, t); scaledIs(*t, i, sc, right, op); if (t != &target) { t->destroy(); delete t; }
        c.label(op);
    }
    Scaled target; Dx dtarget;                                                                                   // reused targets with old contents
    void go() {
        for (int i = 0; i < 3; ++i) { int b = blocks(), h = height(5); m[i].initialize(b * S, h); reset(i, b, h); if (s.chance(2, 3)) fillAll(i); structure(i, "initialize"); }
        int ops = s.range(3, maxBlocks > 1000 || tall ? 8 : 40); if (tall) c.label("tall_matrices");
        for (int t = 0; t < ops; ++t) {
            int i = s.range(0, 2), j = s.range(0, 2); const char *op = ""; Mod &A = o[i], &B = o[j]; bool any = set(i); Dx loc; Matrix *tg = s.chance(1, 2) ? (Matrix *)&dtarget : &loc;
            switch (s.range(0, 13)) {
            case 0: { int b = blocks(), h = height(s.chance(1, 10) ? 12 : 6); op = "initialize"; m[i].initialize(b * S, h); reset(i, b, h); c.note("initialize matrix %d to %d blocks, %d rows", i, b, h); break; }
            case 1: { int b = blocks(), h = height(6); op = "resize"; bool keep = b == A.blocks && h == A.h; m[i].resize(b * S, h); c.note("resize matrix %d to %d blocks, %d rows", i, b, h); if (!keep) { reset(i, b, h); fillAll(i); } break; }
            case 2: op = "destroy"; m[i].destroy(); REQUIRE(m[i].getHeight() == 0, "a destroyed matrix has %d rows", m[i].getHeight()); { int w = m[i].getWidth(); reset(i, A.h == 0 && w == A.blocks * S ? A.blocks : 0, 0); }   /* a matrix without rows may have had nothing to release */ c.note("destroy matrix %d", i); break;
            case 3: case 4: if (A.h && A.blocks) { op = "set block"; setBlock(i, s.range(0, A.h - 1), s.range(0, E - 1)); } break;
            case 5: if (A.h) { op = "set empty"; int r = s.range(0, A.h - 1), e = s.range(0, E - 1); setEmpty(i, r, e); c.note("matrix %d row %d entry %d set empty", i, r, e); } break;
            case 6: if (A.h) { int r = s.range(0, A.h - 1), e = s.range(0, E - 1), k = s.range(0, S - 1); if (A.r[r][e].blk >= 0) { op = "set slice"; double v = val(); m[i].set(r, e, k, v); A.r[r][e].v[k] = v; } } break;
            case 7: if (A.blocks <= 300) { op = "expansion"; m[i].expand(tg); REQUIRE(tg->getWidth() == A.blocks * S && tg->getHeight() == A.h, "expansion is %dx%d", tg->getWidth(), tg->getHeight()); for (int r = 0; r < A.h; ++r) for (int q = 0; q < A.blocks * S; ++q) REQUIRE(tg->get(q, r) == (double)dense(A, r, q), "expansion of matrix %d: row %d column %d is %.17g instead of %.17g", i, r, q, tg->get(q, r), (double)dense(A, r, q)); nt |= any; } break;
            case 8: if (A.blocks <= 300) { op = "transposed expansion"; m[i].expandTransposed(tg); REQUIRE(tg->getWidth() == A.h && tg->getHeight() == A.blocks * S, "transposed expansion is %dx%d", tg->getWidth(), tg->getHeight()); for (int r = 0; r < A.h; ++r) for (int q = 0; q < A.blocks * S; ++q) REQUIRE(tg->get(r, q) == (double)dense(A, r, q), "transposed expansion of matrix %d: row %d column %d is %.17g instead of %.17g", i, r, q, tg->get(r, q), (double)dense(A, r, q)); nt |= any; } break;
            case 9: { if (A.blocks != B.blocks) { j = i; } Mod &Q = o[j]; op = "product with a transposed sparse matrix"; m[i].multiplyTranspose(m[j], tg); REQUIRE(tg->getWidth() == Q.h && tg->getHeight() == A.h, "%s is %dx%d", op, tg->getWidth(), tg->getHeight());
                for (int r = 0; r < A.h; ++r) for (int q = 0; q < Q.h; ++q) { LD x = 0, mg = 0; for (auto &e : A.r[r]) if (e.blk >= 0) for (int k = 0; k < S; ++k) { LD p = e.v[k] * dense(Q, q, e.blk * S + k); x += p; mg += std::fabs(p); } pbt::near(c, op, tg->get(q, r), (double)x, (double)(1e-13L * mg), "rows %d and %d of matrices %d and %d", r, q, i, j); } nt |= any; break; }
            case 10: case 11: { op = "product with a dense matrix"; int w = A.blocks > 300 || s.chance(1, 2) ? 1 : A.blocks <= 12 && s.chance(1, 12) ? s.range(5, 40) : s.range(0, 4); Dx b; b.initialize(w, A.blocks * S); std::vector<double> v((size_t)w * A.blocks * S); for (int r = 0; r < A.blocks * S; ++r) for (int q = 0; q < w; ++q) { v[(size_t)r * w + q] = A.blocks > 300 && s.mode != Source::Replay && r % 61 ? 0.5 + r % 7 : A.blocks > 300 ? 0.5 + r % 7 : val(); b.set(q, r, v[(size_t)r * w + q]); }
                m[i].multiply(b, tg); REQUIRE(tg->getWidth() == w && tg->getHeight() == A.h, "%s is %dx%d", op, tg->getWidth(), tg->getHeight()); for (int r = 0; r < A.h; ++r) for (int q = 0; q < w; ++q) { LD x = 0, mg = 0; for (auto &e : A.r[r]) if (e.blk >= 0) for (int k = 0; k < S; ++k) { LD p = (LD)e.v[k] * v[(size_t)(e.blk * S + k) * w + q]; x += p; mg += std::fabs(p); } pbt::near(c, op, tg->get(q, r), (double)x, (double)(1e-13L * mg), "row %d column %d", r, q); } nt |= any; break; }
            case 12: { op = "transposed product with a vector"; Dx b; b.initialize(1, A.h); std::vector<double> v; for (int r = 0; r < A.h; ++r) { v.push_back(val()); b.set(0, r, v[r]); } m[i].transposeMultiplyVector(b, tg); REQUIRE(tg->getWidth() == 1 && tg->getHeight() == A.blocks * S, "%s is %dx%d", op, tg->getWidth(), tg->getHeight());
                std::vector<LD> x((size_t)A.blocks * S, 0), mg(x); for (int r = 0; r < A.h; ++r) for (auto &e : A.r[r]) if (e.blk >= 0) for (int k = 0; k < S; ++k) { LD p = (LD)e.v[k] * v[r]; x[e.blk * S + k] += p; mg[e.blk * S + k] += std::fabs(p); } for (size_t q = 0; q < x.size(); ++q) pbt::near(c, op, tg->get(0, (int)q), (double)x[q], (double)(1e-13L * mg[q]), "element %zu", q); nt |= any; break; }
            case 13: op = "scaling"; scaling(i); nt |= any; break;
            }
            for (int k = 0; k < 3; ++k) structure(k, op);
        }
        for (int k = 0; k < 3; ++k) m[k].destroy(); target.destroy(); dtarget.destroy();
    }
    bool tall = false; int height(int most) { return tall && s.chance(2, 3) ? s.range(20, 120) : s.range(0, most); }
    int blocks() { if (maxBlocks > 1000) return s.chance(1, 2) ? maxBlocks : s.range(1, maxBlocks); if (maxBlocks > 100) return s.chance(1, 2) ? s.range(250, maxBlocks) : s.range(1, 20); return s.range(0, maxBlocks); }
};
template <int S, int E> void run(Case &c, int mb) { Run<S, E> *r = new Run<S, E>(c, mb); r->go(); if (r->nt) c.nontrivial(); delete r; }
}
void run_case(Case &c) {
    Source &s = c.s; { int mb = s.chance(1, 400) ? 70000 : s.chance(1, 12) ? 300 : 12; c.label(mb == 70000 ? "width_70000_blocks" : mb == 300 ? "width_300_blocks" : "width_up_to_12_blocks");
    if (mb > 1000) { run<3, 2>(c, mb); }
    else switch (s.weighted({ 8, 1, 1, 2, 1, 2 })) { case 0: run<3, 2>(c, mb); break; case 1: run<1, 2>(c, mb); break; case 2: run<3, 1>(c, mb); break; case 3: run<2, 3>(c, mb); break; case 4: run<4, 2>(c, mb); break; default: run<3, 3>(c, mb); } }
}
