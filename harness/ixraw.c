// index rectangles hold their segments whatever the coordinates (one vertex from a table of hard doubles, the rest normal, tiny or huge)
#include "tg.h"
#include "ref.h"
#define N 6
static const double T[16] = { 0, 1, 1e-10, 1e-37, 1.17549435e-38, 1.4e-45, 7e-46, 1e-50, 4.9e-324, 16777217, 1e30, 3.4028234e38, 3.4028235677973366e38, 3.5e38, 1e60, 1.7976931348623157e308 };
static double hard(int i) { return i & 16 ? -T[i & 15] : T[i & 15]; }
void harness(void) {
    tg_env_set_index_spread(2); int v = sx_choose(N - 1, "vertex"), ring = sx_choose(2, "ring"), other = sx_choose(3, "scale"); double sc = other == 0 ? 1 : other == 1 ? 1e-50 : 1e60;
    struct tg_point q[N]; for (int i = 0; i < N; i++) q[i] = (struct tg_point){ sc * (i * 5 % 7), sc * (i * 3 % 8) };
    double x = hard(sx_int(5, "x")), y = hard(sx_int(5, "y")); q[v].x = x; q[v].y = y; q[N - 1] = q[0];
    struct tg_ring *g = ring ? tg_ring_new(q, N) : (struct tg_ring *)tg_line_new(q, N); sx_assert(g && tg_ring_index_num_levels(g) == 2, "indexed");
    for (int l = 0; l < 2; l++) for (int j = 0; j < tg_ring_index_level_num_rects(g, l); j++) { struct tg_rect r = tg_ring_index_level_rect(g, l, j); int k = l ? 2 : 4, in = 1, tx = 0, ty = 0;
        for (int t = j * k; t < N && t <= j * k + k; t++) in &= (r.min.x <= q[t].x) & (r.max.x >= q[t].x) & (r.min.y <= q[t].y) & (r.max.y >= q[t].y);
        sx_assert(in, "an index rectangle holds its segments"); }
    sx_reach("end"); tg_ring_free(g); sx_assert(sx_live() == 0, "leak"); }
