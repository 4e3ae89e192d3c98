// Histories of resize, fill, copy, destroy over several state snapshots against plain vectors.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C26";
const char *PROPERTY_RULE = "history of up to 30 resize/fill/copy/change/destroy operations over four snapshots, body and constraint counts from zero up (occasionally hundreds), every array of every snapshot compared with its model after every operation, allocations attributed to the snapshot that made them; non-trivial = at least one copy of a filled snapshot into one of another size, followed by a change of one of the two";
extern const long QUICK_CASES = 300000, THOROUGH_CASES = 4000000;
namespace {
template <class F> void lib(F f) { pbt::Track t; f(); }
struct Model { int n = 0, nc = 0; bool filled = true; std::vector<double> b[13], r[3]; std::vector<int> map; };
struct Snap { SystemState *s = nullptr; Model m; long owned = 0; };
double **arrays(SystemState *s, int k) { double **a[] = { &s->a_theta, &s->v_theta, &s->theta, &s->a_x, &s->a_y, &s->v_x, &s->v_y, &s->p_x, &s->p_y, &s->f_x, &s->f_y, &s->t, &s->m, &s->r_x, &s->r_y, &s->r_t }; return a[k]; }
const char *const NAME[] = { "a_theta", "v_theta", "theta", "a_x", "a_y", "v_x", "v_y", "p_x", "p_y", "f_x", "f_y", "t", "m", "r_x", "r_y", "r_t" };
}
void run_case(Case &c) {
    Source &s = c.s; Snap S[4]; bool nt = false; int pendA = -1, pendB = -1; double next = 1; auto val = [&]() { next += 1; return s.chance(1, 4) ? s.sym(1e6) : next + 0.25; };
    auto run = [&](int i, auto f) { long a = pbt::tracked_live(); lib(f); S[i].owned += pbt::tracked_live() - a; };
    auto check = [&](const char *what) { for (int i = 0; i < 4; ++i) if (S[i].s) { SystemState *x = S[i].s; Model &m = S[i].m; REQUIRE(x->n == m.n && x->n_c == m.nc, "after %s: snapshot %d has counts (%d,%d) instead of (%d,%d)", what, i, x->n, x->n_c, m.n, m.nc); if (!m.filled) continue;
        for (int k = 0; k < 13; ++k) for (int j = 0; j < m.n; ++j) REQUIRE((*arrays(x, k))[j] == m.b[k][j], "after %s: %s[%d] of snapshot %d is %.17g instead of %.17g", what, NAME[k], j, i, (*arrays(x, k))[j], m.b[k][j]);
        for (int k = 0; k < 3; ++k) for (int j = 0; j < 2 * m.nc; ++j) REQUIRE((*arrays(x, 13 + k))[j] == m.r[k][j], "after %s: %s[%d] of snapshot %d is %.17g instead of %.17g", what, NAME[13 + k], j, i, (*arrays(x, 13 + k))[j], m.r[k][j]);
        for (int j = 0; j < m.nc; ++j) REQUIRE(x->indexMap[j] == m.map[j], "after %s: indexMap[%d] of snapshot %d is %d instead of %d", what, j, i, x->indexMap[j], m.map[j]); } };
    auto fill = [&](int i) { SystemState *x = S[i].s; Model &m = S[i].m; for (int k = 0; k < 13; ++k) { m.b[k].resize(m.n); for (int j = 0; j < m.n; ++j) (*arrays(x, k))[j] = m.b[k][j] = m.n > 30 ? (next += 1) : val(); } for (int k = 0; k < 3; ++k) { m.r[k].resize(2 * m.nc); for (int j = 0; j < 2 * m.nc; ++j) (*arrays(x, 13 + k))[j] = m.r[k][j] = m.nc > 30 ? (next += 1) : val(); } m.map.resize(m.nc); for (int j = 0; j < m.nc; ++j) x->indexMap[j] = m.map[j] = (int)(next += 1); m.filled = true; };
    auto dim = [&]() { return s.chance(1, 1000) ? s.range(600, 3000) : s.chance(1, 60) ? s.range(100, 600) : s.chance(1, 4) ? 0 : s.range(1, 8); };
    int ops = s.range(3, 30);
    for (int t = 0; t < ops; ++t) {
        int i = s.range(0, 3), j = s.range(0, 2); if (j >= i) ++j; if (!S[i].s) run(i, [&] { S[i].s = new SystemState; }); if (!S[j].s) run(j, [&] { S[j].s = new SystemState; }); Snap &a = S[i], &b = S[j]; char what[80];
        switch (s.weighted({ 4, 4, 3, 1, 1 })) {
        case 0: { int n = s.chance(1, 5) ? a.m.n : dim(), nc = s.chance(1, 5) ? a.m.nc : dim(); c.note("resize snapshot %d from (%d,%d) to (%d,%d)", i, a.m.n, a.m.nc, n, nc); snprintf(what, sizeof what, "resizing snapshot %d to (%d,%d)", i, n, nc); run(i, [&] { a.s->resize(n, nc); }); a.m.n = n; a.m.nc = nc; a.m.filled = false; check(what); if (s.chance(7, 8)) { fill(i); check("filling it"); } c.label(n == 0 || nc == 0 ? "resize_with_zero_count" : "resize"); break; }
        case 1: { if (!b.m.filled) fill(j); c.note("copy snapshot %d (%d,%d) into snapshot %d (%d,%d)", j, b.m.n, b.m.nc, i, a.m.n, a.m.nc); snprintf(what, sizeof what, "copying snapshot %d into %d", j, i); bool other = a.m.n != b.m.n || a.m.nc != b.m.nc; bool bigger = a.m.n > b.m.n || a.m.nc > b.m.nc; run(i, [&] { a.s->copy(b.s); }); a.m = b.m; check(what); c.label(!other ? "copy_same_size" : bigger ? "copy_into_larger" : "copy_into_smaller"); if (b.m.n + b.m.nc == 0) c.label("copy_of_empty"); if (other && b.m.n + b.m.nc) { pendA = i; pendB = j; } break; }
        case 2: { if (!a.m.n && !a.m.nc) break; c.note("change snapshot %d", i); fill(i); snprintf(what, sizeof what, "changing snapshot %d", i); check(what); if (i == pendA || i == pendB) nt = true; break; }
        case 3: c.note("destroy snapshot %d", i); run(i, [&] { a.s->destroy(); }); a.m = Model(); check("destroying it"); { long self = 1; REQUIRE(a.owned == self, "snapshot %d still owns %ld blocks after destroy()", i, a.owned - self); } c.label("destroy"); if (s.chance(1, 4)) run(i, [&] { a.s->destroy(); }); if (i == pendA || i == pendB) nt = true; break;
        default: c.note("delete and create snapshot %d", i); run(i, [&] { a.s->destroy(); delete a.s; }); REQUIRE(a.owned == 0, "snapshot %d leaves %ld blocks behind", i, a.owned); run(i, [&] { a.s = new SystemState; }); a.m = Model(); check("creating a snapshot"); if (i == pendA || i == pendB) nt = true; break;
        }
    }
    for (int i = 0; i < 4; ++i) if (S[i].s) { run(i, [&] { S[i].s->destroy(); delete S[i].s; }); REQUIRE(S[i].owned == 0, "snapshot %d leaves %ld blocks behind", i, S[i].owned); }
    REQUIRE(pbt::tracked_live() == 0, "%ld blocks are still allocated after every snapshot was destroyed", pbt::tracked_live()); if (nt) c.nontrivial();
}
