// point against a ring with NV symbolic vertices on a BITS x BITS grid
#include "tg.h"
#include "ref.h"
#ifndef NV
#define NV 3
#endif
#ifndef BITS
#define BITS 2
#endif
#ifndef IX
#define IX TG_NONE
#endif
void harness(void) {
    ip r[NV + 1]; for (int i = 0; i < NV; i++) r[i] = sym_ip(BITS, "v"); r[NV] = r[0];
    ip p = sym_ip(BITS, "p");
#ifdef CUBE
    p.x = (int)sx_concretize(p.x); p.y = (int)sx_concretize(p.y);
#endif
    struct tg_ring *ring = mk_ring(r, NV + 1, IX);
    struct tg_geom *pt = tg_geom_new_point(P(p)), *pg = tg_geom_new_polygon((struct tg_poly *)ring);
    sx_assume(ref_simple(r, NV + 1));
    int want = ref_pip(r, NV + 1, p);
    sx_assert(tg_geom_intersects(pg, pt) == (want != 0), "intersects");
    sx_assert(tg_geom_contains(pg, pt) == (want == 1), "contains");
    sx_reach("end");
    tg_geom_free(pg); tg_geom_free(pt); tg_ring_free(ring);
    sx_assert(sx_live() == 0, "leak");
}
