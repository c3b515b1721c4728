// Independent reference geometry on small integer coordinates (exact arithmetic).
#ifndef REF_H
#define REF_H
#include "sx.h"
typedef struct { int x, y; } ip;
static inline int ref_cross(ip a, ip b, ip c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static inline int ref_between(int a, int b, int v) { return (a <= v) & (v <= b) | (b <= v) & (v <= a); }
static inline int ref_eq(ip a, ip b) { return (a.x == b.x) & (a.y == b.y); }
static inline int ref_on(ip a, ip b, ip p) { return (ref_cross(a, b, p) == 0) & ref_between(a.x, b.x, p.x) & ref_between(a.y, b.y, p.y); }
// closed segments share a point
static inline int ref_isect(ip a, ip b, ip c, ip d) {
    int d1 = ref_cross(a, b, c), d2 = ref_cross(a, b, d), d3 = ref_cross(c, d, a), d4 = ref_cross(c, d, b);
    int proper = (((d1 > 0) & (d2 < 0)) | ((d1 < 0) & (d2 > 0))) & (((d3 > 0) & (d4 < 0)) | ((d3 < 0) & (d4 > 0)));
    return proper | ref_on(a, b, c) | ref_on(a, b, d) | ref_on(c, d, a) | ref_on(c, d, b);
}
// 0 outside, 1 inside, 2 on the boundary. r[n] closed ring (r[n-1]==r[0]); even-odd rule
static inline int ref_pip(const ip *r, int n, ip p) {
    int in = 0, on = 0;
    for (int i = 0; i + 1 < n; i++) {
        ip a = r[i], b = r[i + 1];
        on |= ref_on(a, b, p);
        int up = (a.y <= p.y) & (b.y > p.y), dn = (b.y <= p.y) & (a.y > p.y);
        int c = ref_cross(a, b, p);
        in ^= (up & (c > 0)) | (dn & (c < 0));
    }
    return on ? 2 : in;
}
static inline int ref_area2(const ip *r, int n) { int s = 0; for (int i = 0; i + 1 < n; i++) s += r[i].x * r[i + 1].y - r[i + 1].x * r[i].y; return s; }
// simple ring: distinct consecutive vertices, edges meet only at shared vertices, no spikes, area != 0
static inline int ref_simple(const ip *r, int n) {
    int m = n - 1, ok = ref_area2(r, n) != 0;
    for (int i = 0; i < m; i++) {
        ok &= !ref_eq(r[i], r[i + 1]);
        for (int j = i + 1; j < m; j++) {
            if (j == i + 1 || (i == 0 && j == m - 1)) { // adjacent: share exactly one end
                ip s = j == i + 1 ? r[j] : r[0], u = j == i + 1 ? r[i] : r[1], v = j == i + 1 ? r[j + 1] : r[m - 1];
                ok &= !((ref_cross(u, s, v) == 0) & ((u.x - s.x) * (v.x - s.x) + (u.y - s.y) * (v.y - s.y) > 0));
            } else ok &= !ref_isect(r[i], r[i + 1], r[j], r[j + 1]);
        }
    }
    return ok;
}
#ifdef TG_H
#ifndef GSC // grid step and origin
#define GSC 1.0
#endif
#ifndef GORG
#define GORG 0.0
#endif
static inline struct tg_point P(ip p) { return (struct tg_point){ p.x * GSC + GORG, p.y * GSC - GORG }; }
static inline ip sym_ip(int bits, const char *n) { ip p; p.x = sx_int(bits, n); p.y = sx_int(bits, n); return p; }
#ifdef SP // index spread: with 2, rings of 4 points already have an index
#define SPREAD() tg_env_set_index_spread(SP)
#else
#define SPREAD() ((void)0)
#endif
static inline struct tg_ring *mk_ring(const ip *r, int n, enum tg_index ix) { SPREAD(); struct tg_point q[64]; for (int i = 0; i < n; i++) q[i] = P(r[i]); return tg_ring_new_ix(q, n, ix); }
static inline struct tg_line *mk_line(const ip *r, int n, enum tg_index ix) { SPREAD(); struct tg_point q[64]; for (int i = 0; i < n; i++) q[i] = P(r[i]); return tg_line_new_ix(q, n, ix); }
#endif
#endif
