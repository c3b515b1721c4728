From e370bc8498d866d6528dd0495ea91bf8b5fa6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 01/34] fix: 32-bit overflow of the WKB position count check

A position count such as 0x10000000 made count*2*8 wrap to zero, so the
bounds check passed and the parser read far beyond the input buffer.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..65f7336 100644
--- a/tg.c
+++ b/tg.c
@@ -13333,11 +13333,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From 90eca1883ddec141f733e3753b79a21c78aa7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 02/34] fix: off-by-one bounds of the multi geometry accessors

---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 65f7336..889e793 100644
--- a/tg.c
+++ b/tg.c
@@ -5407,7 +5407,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5424,7 +5424,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5441,7 +5441,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5463,7 +5463,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 04deb60d9a6994da0f3151277aecac7b8b33c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 03/34] fix: reference counting with TG_NOATOMICS

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 889e793..f243e2b 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From 6c3708b6ba1f8be35247bdc353e54ff8ee7ea677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 04/34] fix: tg_poly_new with NULL holes or out of memory

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index f243e2b..6e346b4 100644
--- a/tg.c
+++ b/tg.c
@@ -3772,6 +3772,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
     poly->head.base = BASE_POLY;
     poly->head.type = TG_POLYGON;
     poly->exterior = tg_ring_clone(exterior);
+    if (!poly->exterior) {
+        goto fail;
+    }
     if (nholes > 0) {
         poly->holes = tg_malloc(sizeof(struct tg_ring*)*nholes);
         if (!poly->holes) {
@@ -3781,6 +3784,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
-- 
2.43.0


From fe8440ec9a318800b96b6366f802c7b6b6c70d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 05/34] fix: WKT depth limit counted parens instead of nesting

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 6e346b4..4e4acce 100644
--- a/tg.c
+++ b/tg.c
@@ -12025,7 +12025,7 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) maxdepth = depth;
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From e004d164516e4bf594d75818ec8dda789a1aa2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 06/34] fix: copied indexes must not point into the original

---
 tg.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tg.c b/tg.c
index 4e4acce..01b61b6 100644
--- a/tg.c
+++ b/tg.c
@@ -2140,6 +2140,17 @@ static void fill_index_struct(struct index *index, int nlevels, int nsegs,
     }
 }
 
+// rebase_index makes the level pointers of an index, which was copied 
+// verbatim from another memory location, point into itself.
+static void rebase_index(struct index *index) {
+    size_t np = sizeof(struct index);
+    np += index->nlevels*sizeof(struct level);
+    for (int i = 0; i < index->nlevels; i++) {
+        index->levels[i].rects = (void*)&(((char*)index)[np]);
+        np += index->levels[i].nrects*sizeof(struct ixrect);
+    }
+}
+
 static struct tg_ring *series_new(const struct tg_point *points, int npoints, 
     bool closed, enum tg_index ix) 
 {
@@ -15073,6 +15084,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        // The index shares same allocation as the ring.
+        ring2->index = (struct index*)((char*)ring2 + 
+            ((size_t)ring->index - (size_t)ring));
+        rebase_index(ring2->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15080,6 +15097,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            ring2->ystripes->stripes[i].indexes = (void*)(
+                (char*)ring2->ystripes + 
+                ((size_t)ring->ystripes->stripes[i].indexes - 
+                (size_t)ring->ystripes));
+        }
     }
     return ring2;
 }
@@ -15205,6 +15228,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 }
                 memcpy(geom2->multi->index, geom->multi->index, 
                     geom->multi->index->memsz);
+                rebase_index(geom2->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From d482b91236bbec25c464a738ac7cd14f8e0de30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 07/34] fix: tg_geobin_fullrect out of bounds write and
 unfilled result

---
 tg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 01b61b6..a05d7af 100644
--- a/tg.c
+++ b/tg.c
@@ -15885,13 +15885,17 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 2001: dims = 3; break;
             case 3001: dims = 4; break;
             }
-            if (dims > 0 && len >= 5+8*dims) {
-                memcpy(min, geobin+5, 8*dims);
-                memcpy(max, geobin+5, 8*dims);
+            if (len < 5+8*dims) {
+                return 0;
             }
+            memcpy(min, geobin+5, 8*dims);
+            memcpy(max, geobin+5, 8*dims);
         } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
             // Read MBR
             dims = geobin[1];
+            if (dims < 2 || dims > 4) {
+                return 0;
+            }
             memcpy(min, geobin+2, 8*dims);
             memcpy(max, geobin+2+8*dims, 8*dims);
         }
-- 
2.43.0


From 6a255741edb9f04c24f508964b57fd30ff91d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 08/34] fix: crash on WKB multi geometry with empty child

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index a05d7af..96ec225 100644
--- a/tg.c
+++ b/tg.c
@@ -13606,6 +13606,7 @@ static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
+        if (tg_geom_is_empty(point)) goto invalid;
         struct tg_point pt = tg_geom_point(point);
         if (!dvec_append(&posns, pt.x) || !dvec_append(&posns, pt.y)) goto fail;
         if (z || m) {
@@ -13685,6 +13686,7 @@ static size_t parse_wkb_multilinestring(const uint8_t *wkb, size_t len,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
+        if (!tg_geom_line(child)) goto invalid;
         struct tg_line *line = tg_line_clone(tg_geom_line(child));
         if (!lvec_append(&lines, line)) {
             tg_line_free(line);
@@ -13766,6 +13768,7 @@ static size_t parse_wkb_multipolygon(const uint8_t *wkb, size_t len,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
+        if (!tg_geom_poly(child)) goto invalid;
         struct tg_poly *poly = tg_poly_clone(tg_geom_poly(child));
         if (!pvec_append(&polys, poly)) {
             tg_poly_free(poly);
-- 
2.43.0


From 72716a07e9274324ab1c7f676cc8c976d06072c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 09/34] fix: WKB polygon with a ring that has no positions

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 96ec225..d384a91 100644
--- a/tg.c
+++ b/tg.c
@@ -13349,7 +13349,7 @@ static size_t parse_wkb_posns(enum base base, int dims,
     double posn[4];
     uint32_t count;
     read_uint32(count);
-    if (count == 0) return i;
+    if (count == 0 && base != BASE_RING) return i;
     if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
-- 
2.43.0


From 2da2897a72034893511b3097d65403b32006b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 10/34] fix: GeoBIN feature count bounds and out of memory

---
 tg.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index d384a91..84b9bf3 100644
--- a/tg.c
+++ b/tg.c
@@ -15543,11 +15543,16 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
+        if (nfeats > len-i) {
+            // Each feature needs at least one byte.
+            goto invalid;
+        }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
-        if (!feats) {
-            return 0;
+        if (!feats && nfeats > 0) {
+            *g = 0;
+            return PARSE_FAIL;
         }
-        memset(feats, 0, nfeats*sizeof(struct tg_geom*));
+        if (nfeats > 0) memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
         uint32_t j = 0;
         for (; j < nfeats; j++) {
-- 
2.43.0


From 71f3ee806d0d7417c0bae3a4ea01d716762bc342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 11/34] fix: GeoBIN accepted a feature whose WKB is an error

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 84b9bf3..8e0b60f 100644
--- a/tg.c
+++ b/tg.c
@@ -15557,7 +15557,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t j = 0;
         for (; j < nfeats; j++) {
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat || tg_geom_error(feat)) {
                 break;
             }
             feats[j] = feat;
@@ -15581,7 +15581,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     } else {
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From e71ae1779c02f6a24cd4cda1a395d1172356d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 12/34] fix: tg_line_covers_line hang and wrong results

---
 tg.c | 80 +++++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/tg.c b/tg.c
index 8e0b60f..1bef12d 100644
--- a/tg.c
+++ b/tg.c
@@ -3469,6 +3469,51 @@ bool tg_line_intersects_rect(const struct tg_line *line, struct tg_rect rect) {
     return tg_rect_intersects_line(rect, line);
 }
 
+struct line_covers_segment_ctx {
+    struct tg_segment seg; // target segment
+    struct tg_point at;    // seg is covered from seg.a to this point
+    struct tg_point next;  // furthest point reachable from 'at'
+    bool done;             // seg is covered entirely
+};
+
+static bool line_covers_segment_iter(struct tg_segment aseg, int index,
+    void *udata)
+{
+    (void)index;
+    struct line_covers_segment_ctx *ctx = udata;
+    if (!tg_segment_covers_point(aseg, ctx->at)) {
+        return true;
+    }
+    if (tg_segment_covers_point(aseg, ctx->seg.b)) {
+        ctx->done = true;
+        return false;
+    }
+    // Advance to the endpoints that are on the remaining part of the target.
+    struct tg_segment rest = { ctx->next, ctx->seg.b };
+    if (tg_segment_covers_point(rest, aseg.a)) {
+        rest.a = aseg.a;
+    }
+    if (tg_segment_covers_point(rest, aseg.b)) {
+        rest.a = aseg.b;
+    }
+    ctx->next = rest.a;
+    return true;
+}
+
+// line_covers_segment returns true if the segment is covered by one segment
+// of the line or by a chain of overlapping ones.
+static bool line_covers_segment(const struct tg_line *line, 
+    struct tg_segment seg)
+{
+    struct line_covers_segment_ctx ctx = { .seg = seg, .next = seg.a };
+    do {
+        ctx.at = ctx.next;
+        struct tg_rect rect = { ctx.at, ctx.at };
+        tg_line_search(line, rect, line_covers_segment_iter, &ctx);
+    } while (!ctx.done && !pteq(ctx.next, ctx.at));
+    return ctx.done;
+}
+
 /// Tests whether a line contains another line
 /// @see LineFuncs
 bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
@@ -3477,38 +3522,11 @@ bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
     if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
         return false;
     }
-    // locate the first "other" segment that contains the first "line" segment.
-    int ansegs = tg_line_num_segments(a);
-    int j = -1;
-    for (int k = 0; k < ansegs; k++) {
-        if (tg_segment_covers_segment(tg_line_segment_at(a, k),
-            tg_line_segment_at(b, 0)))
-        {
-            j = k;
-            break;
-        }
-    }
-    if (j == -1) {
-        return false;
-    }
+    // every segment of the other line must be covered.
     int bnsegs = tg_line_num_segments(b);
-    for (int i = 1; i < bnsegs && j < ansegs; i++) {
-        struct tg_segment aseg = tg_line_segment_at(a, j);
-        struct tg_segment bseg = tg_line_segment_at(b, i);
-        if (tg_segment_covers_segment(aseg, bseg)) {
-            continue;
-        }
-        if (pteq(bseg.a, aseg.a)) {
-            // reverse it
-            if (j == 0) {
-                return false;
-            }
-            j--;
-            i--;
-        } else if (pteq(bseg.a, aseg.b)) {
-            // forward it
-            j++;
-            i--;
+    for (int i = 0; i < bnsegs; i++) {
+        if (!line_covers_segment(a, tg_line_segment_at(b, i))) {
+            return false;
         }
     }
     return true;
-- 
2.43.0


From 1f2eb76c632e31d4e7b2af65389e531626eb4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 13/34] fix: ystripes with flat rings and horizontal top edges

---
 tg.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tg.c b/tg.c
index 1bef12d..7d50c5a 100644
--- a/tg.c
+++ b/tg.c
@@ -1671,10 +1671,21 @@ struct ystripes {
     struct ystripe stripes[];
 };
 
+// ystripes_index returns the stripe for a y coordinate.
+static int ystripes_index(const struct tg_ring *ring, double height, 
+    int nstripes, double y)
+{
+    double idx = (y - ring->rect.min.y) / height * (double)nstripes;
+    // The negated comparison is for NaN, such as when the height is zero.
+    return !(idx > 0) ? 0 : idx < nstripes-1 ? (int)idx : nstripes-1;
+}
+
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
-    int nstripes = ring->nsegs * score;
-    nstripes = fmax0(nstripes, 32);
+    int nstripes = 32;
+    if (ring->nsegs * score > nstripes) {
+        nstripes = fmin0(ring->nsegs * score, ring->nsegs);
+    }
     double height = ring->rect.max.y - ring->rect.min.y;
 
     // ycounts is used to log the number of segments in each stripe.
@@ -1694,10 +1705,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripes_index(ring, height, nstripes, ymin);
+        int max = ystripes_index(ring, height, nstripes, ymax);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
             nmap++;
@@ -1727,10 +1736,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripes_index(ring, height, nstripes, ymin);
+        int max = ystripes_index(ring, height, nstripes, ymax);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
             stripe->indexes[stripe->count++] = i;
@@ -2709,8 +2716,7 @@ static struct ring_result ystripes_pip(const struct tg_ring *ring,
     int idx = -1;
     struct ystripes *ystripes = ring->ystripes;
     double height = ring->rect.max.y-ring->rect.min.y;
-    int y = (point.y - ring->rect.min.y) / height * (double)ystripes->nstripes;
-    y = fclamp0(y, 0, ystripes->nstripes-1);
+    int y = ystripes_index(ring, height, ystripes->nstripes, point.y);
     struct ystripe *ystripe = &ystripes->stripes[y];
     for (int i = 0; i < ystripe->count; i++) {
         int j = ystripe->indexes[i];
-- 
2.43.0


From ceae3b96992bb461c9f2c2d4a81cb912d76a767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 14/34] fix: concave ring reported as convex depending on its
 starting point

---
 tg.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 7d50c5a..66f8e25 100644
--- a/tg.c
+++ b/tg.c
@@ -1889,6 +1889,29 @@ static void fill_in_upper_index_levels(struct index *index) {
 #define stack_ring() \
 (struct tg_ring*)(&(char[sizeof(struct tg_ring)+sizeof(struct tg_point)*5]){0})
 
+// corners_concave returns true if the corners of a series turn in different 
+// directions. Repeated points, such as the closing one, are skipped.
+static bool corners_concave(const struct tg_point *points, int npoints) {
+    int dir = 0;
+    int n = npoints;
+    while (n > 1 && pteq(points[n-1], points[0])) n--;
+    struct tg_point a = points[n-1];
+    struct tg_point b = points[0];
+    for (int i = 1; i <= n; i++) {
+        struct tg_point c = points[i == n ? 0 : i];
+        if (pteq(b, c)) continue;
+        double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x);
+        int d = z_cross_product < 0 ? -1 : z_cross_product > 0;
+        if (d != 0) {
+            if (dir == -d) return true;
+            dir = d;
+        }
+        a = b;
+        b = c;
+    }
+    return false;
+}
+
 static struct tg_rect process_points(const struct tg_point *points,
     int npoints, struct tg_point *ring_points, struct index *index,
     bool *convex, bool *clockwise, double *area)
@@ -1974,7 +1997,7 @@ static struct tg_rect process_points(const struct tg_point *points,
     #define step_calc_concave(label) { \
         double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); \
         if (dir == 0) { \
-            dir = z_cross_product < 0 ? -1 : 1; \
+            dir = z_cross_product < 0 ? -1 : z_cross_product > 0; \
         } else if (z_cross_product < 0) { \
             if (dir == 1) { \
                 concave = true; \
@@ -2099,7 +2122,7 @@ lconcave:
     }
 
     *area = fabs(cwc / 2.0);
-    *convex = !concave;
+    *convex = !concave && !corners_concave(points, npoints);
     *clockwise = cwc > 0;
 
     return rect;
-- 
2.43.0


From d701e223ce5a37d8e1750212516eb31d2f66eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 15/34] fix: WKT data after EMPTY was ignored

---
 tg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tg.c b/tg.c
index 66f8e25..6dfec6a 100644
--- a/tg.c
+++ b/tg.c
@@ -12766,6 +12766,10 @@ static struct tg_geom *parse_wkt(const char *wkt, long len, enum tg_index ix) {
         }
     }
     if (is_empty) {
+        if (i < len) {
+            return make_parse_error(
+                wkt_invalid_err("too much data after 'EMPTY'"));
+        }
         switch (type) {
         case TG_POINT: return tg_geom_new_point_empty();
         case TG_LINESTRING: return tg_geom_new_linestring_empty();
-- 
2.43.0


From 032eeeeee36873abd27d0d4923f73e8c19216df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 16/34] fix: tg_geom_copy of an empty linestring or polygon

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 6dfec6a..6c748c3 100644
--- a/tg.c
+++ b/tg.c
@@ -15238,13 +15238,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From 6df9de96f913eaa4a82db98ce460e7c979f0d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 17/34] fix: JSON strings with an invalid escape were accepted

---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..a9beb73 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -138,7 +138,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
diff --git a/tg.c b/tg.c
index 6c748c3..dc60cab 100644
--- a/tg.c
+++ b/tg.c
@@ -6938,7 +6938,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
-- 
2.43.0


From be540e9662fdd4ac896959d8dae2b6f17332c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 18/34] fix: JSON strings with U+10FFFF were rejected

---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index a9beb73..de5b49f 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -65,7 +65,7 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
diff --git a/tg.c b/tg.c
index dc60cab..1a2868a 100644
--- a/tg.c
+++ b/tg.c
@@ -6865,7 +6865,7 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
-- 
2.43.0


From 6e27971522328634e620b7248c74059afbf7ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 19/34] fix: empty children pulled the rect of a collection to
 the origin

---
 tg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 1a2868a..e11851f 100644
--- a/tg.c
+++ b/tg.c
@@ -4616,7 +4616,6 @@ static bool multi_geom_inflate_index(struct multi *multi) {
     int k = 0;
     for (int i = 1; i < multi->ngeoms; i++) {
         struct tg_rect rect = tg_geom_rect(multi->geoms[multi->ixgeoms[i]]);
-        multi->rect = tg_rect_expand(multi->rect, rect);
         struct ixrect ixrect2;
         tg_rect_to_ixrect(&rect, &ixrect2);
         if (j == spread) {
@@ -4662,10 +4661,15 @@ static struct tg_geom *multi_geom_inflate_rect(struct tg_geom *geom) {
         geom->multi->rect = (struct tg_rect){ 0 };
         return geom;
     }
-    geom->multi->rect = tg_geom_rect(geom->multi->geoms[0]);
-    for (int i = 1; i < geom->multi->ngeoms; i++) {
+    // empty children have no extent
+    bool first = true;
+    geom->multi->rect = (struct tg_rect){ 0 };
+    for (int i = 0; i < geom->multi->ngeoms; i++) {
+        if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
         struct tg_rect rect = tg_geom_rect(geom->multi->geoms[i]);
-        geom->multi->rect = tg_rect_expand(geom->multi->rect, rect);
+        geom->multi->rect = first ? rect : 
+            tg_rect_expand(geom->multi->rect, rect);
+        first = false;
     }
     if (geom->multi->index) {
         if (!multi_geom_inflate_index(geom->multi)) {
-- 
2.43.0


From 37eba560d08da507c719386aaa9ce200d4635833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 20/34] fix: undefined conversion of NaN when indexing a flat
 multi geometry

---
 tg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index e11851f..5e9c5ed 100644
--- a/tg.c
+++ b/tg.c
@@ -4570,9 +4570,15 @@ static uint32_t hilbert_xy_to_index(uint32_t x, uint32_t y) {
     return (i1 << 1) | i0;
 }
 
+static uint32_t hilbert_scale(double val, double min, double max) {
+    double d = (val - min) / (max - min) * 0xFFFF;
+    // not a number when the extent is flat or not finite
+    return d > 0 ? (d < 0xFFFF ? (uint32_t)d : 0xFFFF) : 0;
+}
+
 uint32_t tg_point_hilbert(struct tg_point point, struct tg_rect rect) {
-    uint32_t ix = ((point.x - rect.min.x) / (rect.max.x - rect.min.x)) * 0xFFFF;
-    uint32_t iy = ((point.y - rect.min.y) / (rect.max.y - rect.min.y)) * 0xFFFF;
+    uint32_t ix = hilbert_scale(point.x, rect.min.x, rect.max.x);
+    uint32_t iy = hilbert_scale(point.y, rect.min.y, rect.max.y);
     return hilbert_xy_to_index(ix, iy);
 }
 
-- 
2.43.0


From e48a7e0fea5622d8192ae601b8984d6d2fed58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 21/34] fix: GeoJSON multi geometry without coordinates got Z
 and M dimensions

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 5e9c5ed..96f35ad 100644
--- a/tg.c
+++ b/tg.c
@@ -8390,7 +8390,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
     case 3: 
@@ -8440,7 +8440,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
         break;
@@ -8499,7 +8499,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
         break;
-- 
2.43.0


From 1b467bf953aa885667a46400ff39baf5a8715f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 22/34] fix: JSON strings with overlong UTF-8 were accepted

---
 deps/json.c | 3 ++-
 tg.c        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index de5b49f..f9e9a6b 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -64,7 +64,8 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
     } else {
         goto fail;
     }
-    if (cp < 128) goto fail; // don't allow multibyte ascii characters
+    // don't allow overlong encodings, such as multibyte ascii characters
+    if (cp < (n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u)) goto fail;
     if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
diff --git a/tg.c b/tg.c
index 96f35ad..efc2ebd 100644
--- a/tg.c
+++ b/tg.c
@@ -6874,7 +6874,8 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
     } else {
         goto fail;
     }
-    if (cp < 128) goto fail; // don't allow multibyte ascii characters
+    // don't allow overlong encodings, such as multibyte ascii characters
+    if (cp < (n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u)) goto fail;
     if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
-- 
2.43.0


From ab5ea0f5d80072c551059abcfbda0bd977f7c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 23/34] fix: concave rings and segments that touch their
 boundary

Whether a segment is covered by a concave ring, or meets the interior of a
ring, was guessed from the ring segments at its endpoints. The segment is now
taken apart at the ring vertices that it passes through.
---
 tg.c | 247 +++++++++++++++++++----------------------------------------
 1 file changed, 77 insertions(+), 170 deletions(-)

diff --git a/tg.c b/tg.c
index efc2ebd..e3457ba 100644
--- a/tg.c
+++ b/tg.c
@@ -2856,62 +2856,90 @@ bool tg_ring_clockwise(const struct tg_ring *ring) {
     return ring->clockwise;
 }
 
-struct contsegiterctx {
-    struct tg_segment seg;
-    bool intersects;
+// The parts of a segment that are strictly inside or outside of a ring.
+enum ring_sides { RING_SIDE_IN = 1, RING_SIDE_OUT = 2 };
+
+struct ring_sides_ctx {
+    struct tg_segment seg; // the segment that remains
+    struct tg_point stop;  // closest ring vertex that is inside of seg
+    bool splits;           // there is a such vertex
+    bool on_edge;          // seg is on a ring segment, up to stop
+    bool crosses;          // seg crosses a ring segment away from vertices
 };
 
-static bool contsegiter1(struct tg_segment seg2, int index, void *udata) {
+static bool ring_sides_iter(struct tg_segment edge, int index, void *udata) {
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON && 
-            tg_raycast(seg2, ctx->seg.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
-        }
-    }
-    return true;
-}
-
-static bool contsegiter4(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON) {
-            ctx->intersects = true;
-            return false;
-        }
+    struct ring_sides_ctx *ctx = udata;
+    bool vertex = false;
+    for (int i = 0; i < 2; i++) {
+        struct tg_point p = i == 0 ? edge.a : edge.b;
+        struct tg_segment part = { ctx->seg.a, ctx->stop };
+        if (tg_segment_covers_point(ctx->seg, p)) {
+            vertex = true;
+            if (!pteq(p, ctx->seg.a) && !pteq(p, ctx->seg.b) &&
+                tg_rect_covers_point(tg_segment_rect(part), p))
+            {
+                ctx->stop = p;
+                ctx->splits = true;
+            }
+        }
+    }
+    if (!vertex && !tg_segment_covers_point(edge, ctx->seg.a) && 
+        !tg_segment_covers_point(edge, ctx->seg.b) &&
+        tg_segment_intersects_segment(ctx->seg, edge))
+    {
+        ctx->crosses = true;
+        return false;
     }
     return true;
 }
 
-static bool contsegiter2(struct tg_segment seg2, int index, void *udata) {
+static bool ring_sides_edge_iter(struct tg_segment edge, int index, void *udata)
+{
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.b) != TG_ON) {
-            ctx->intersects = true;
-            return false;
+    struct ring_sides_ctx *ctx = udata;
+    struct tg_segment part = { ctx->seg.a, ctx->stop };
+    ctx->on_edge = tg_segment_covers_segment(edge, part);
+    return !ctx->on_edge;
+}
+
+// ring_segment_has_side returns true if some part of the segment is strictly
+// on the provided side of the ring. The segment is taken apart at the ring 
+// vertices that it passes through.
+static bool ring_segment_has_side(const struct tg_ring *ring, 
+    struct tg_segment seg, enum ring_sides side)
+{
+    struct ring_sides_ctx ctx = { .seg = seg, .splits = true };
+    for (int i = 0; ctx.splits && i <= ring->nsegs; i++) {
+        ctx.stop = seg.b;
+        ctx.splits = false;
+        ctx.on_edge = false;
+        tg_ring_search(ring, tg_segment_rect(ctx.seg), ring_sides_iter, &ctx);
+        if (ctx.crosses) {
+            return true;
         }
-    }
-    return true;
-}
-static bool contsegiter5(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(ctx->seg, seg2.a) != TG_ON && 
-            tg_raycast(ctx->seg, seg2.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
+        struct tg_rect rect = { ctx.seg.a, ctx.seg.a };
+        tg_ring_search(ring, rect, ring_sides_edge_iter, &ctx);
+        if (!ctx.on_edge) {
+            // No part of seg, up to the stop point, is on the boundary.
+            struct tg_point a = ctx.seg.a;
+            struct tg_point b = ctx.stop;
+            struct tg_point mid = { a.x*0.5 + b.x*0.5, a.y*0.5 + b.y*0.5 };
+            bool in = tg_ring_contains_point(ring, mid, false).hit;
+            if (in == (side == RING_SIDE_IN)) {
+                return true;
+            }
         }
+        ctx.seg.a = ctx.stop;
     }
-    return true;
+    return false;
 }
 
+struct contsegiterctx {
+    struct tg_segment seg;
+    bool intersects;
+};
+
 static bool contsegiter3(struct tg_segment seg2, int index, void *udata) {
     (void)index;
     struct contsegiterctx *ctx = udata;
@@ -2952,93 +2980,7 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
     // The ring is concave so it's possible that the segment crosses over the
     // edge of the ring.
     if (allow_on_edge) {
-        // do some logic around seg points that are on the edge of the ring.
-        if (res_a.idx != -1) {
-           // seg A is on a ring segment
-            if (res_b.idx != -1) {
-                // seg B is on a ring segment
-                if (res_b.idx == res_a.idx) {
-                    // seg A and B share the same ring segment, so it must be
-                    // on the inside.
-                    return true;
-                }
-
-                // seg A and seg B are on different segments.
-                // determine if the space that the seg passes over is inside or
-                // outside of the ring. To do so we create a ring from the two
-                // ring segments and check if that ring winding order matches
-                // the winding order of the ring.
-                // -- create a ring
-
-                struct tg_segment r_seg_a = ring_segment_at(ring, res_a.idx);
-                struct tg_segment r_seg_b = ring_segment_at(ring, res_b.idx);
-                if (pteq(r_seg_a.a, seg.a) || pteq(r_seg_a.b, seg.a) ||
-                    pteq(r_seg_b.a, seg.a) || pteq(r_seg_b.b, seg.a) ||
-                    pteq(r_seg_a.a, seg.b) || pteq(r_seg_a.b, seg.b) ||
-                    pteq(r_seg_b.a, seg.b) || pteq(r_seg_b.b, seg.b))
-                {
-                    return true;
-                }
-
-                // fix the order of the
-                if (res_b.idx < res_a.idx) {
-                    struct tg_segment tmp = r_seg_a;
-                    r_seg_a = r_seg_b;
-                    r_seg_b = tmp;
-                }
-
-                struct tg_point pts[] = {
-                    r_seg_a.a, r_seg_a.b, r_seg_b.a, r_seg_b.b, r_seg_a.a
-                };
-                // -- calc winding order
-                double cwc = 0.0;
-                for (int i = 0; i < 4; i++) {
-                    struct tg_point a = pts[i];
-                    struct tg_point b = pts[i+1];
-                    cwc += (b.x - a.x) * (b.y + a.y);
-                }
-                bool clockwise = cwc > 0;
-                if (clockwise != ring->clockwise) {
-                    // -- on the outside
-                    return false;
-                }
-                // the passover space is on the inside of the ring.
-                // check if seg intersects any ring segments where A and B are
-                // not on.
-                struct contsegiterctx ctx = {
-                    .intersects = false,
-                    .seg = seg,
-                };
-                tg_ring_search(ring, tg_segment_rect(seg), contsegiter1, &ctx);
-                return !ctx.intersects;
-            }
-            // case (4)
-            // seg A is on a ring segment, but seg B is not.
-            // check if seg intersects any ring segments where A is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter4, &ctx);
-            return !ctx.intersects;
-        } else if (res_b.idx != -1) {
-            // case (2)
-            // seg B is on a ring segment, but seg A is not.
-            // check if seg intersects any ring segments where B is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter2, &ctx);
-            return !ctx.intersects;
-        }
-        // case (5) (15)
-        struct contsegiterctx ctx = {
-            .intersects = false,
-            .seg = seg,
-        };
-        tg_ring_search(ring, tg_segment_rect(seg), contsegiter5, &ctx);
-        return !ctx.intersects;
+        return !ring_segment_has_side(ring, seg, RING_SIDE_OUT);
     }
     // allow_on_edge is false. (not allow on edge)
     struct contsegiterctx ctx = {
@@ -3052,50 +2994,12 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
 struct intersegiterctx {
     struct tg_segment seg;
     int count;
-    bool allow_on_edge;
-    bool seg_a_on;
-    bool seg_b_on;
-    // bool yes;
 };
 
 static bool intersegiter(struct tg_segment seg, int index, void *udata) {
     (void)index;
     struct intersegiterctx *ctx = udata;
-
-    if (!tg_segment_intersects_segment(ctx->seg, seg)) {
-        return true;
-    }
-    if (ctx->allow_on_edge) {
-        ctx->count++;
-        return ctx->count < 2;
-    }
-
-    struct tg_point a = ctx->seg.a;
-    struct tg_point b = ctx->seg.b;
-    struct tg_point c = seg.a;
-    struct tg_point d = seg.b;
-
-    // bool acol = collinear(c.x, c.y, d.x, d.y, a.x, a.y);
-    // bool bcol = collinear(c.x, c.y, d.x, d.y, b.x, b.y);
-    bool ccol = collinear(a.x, a.y, b.x, b.y, c.x, c.y);
-    bool dcol = collinear(a.x, a.y, b.x, b.y, d.x, d.y);
-
-    if (ccol && dcol) {
-        // lines are parallel.
-        ctx->count = 0;
-    } else if (!ccol || !dcol) {
-        if (!ctx->seg_a_on) {
-            if (pteq(a, c) || pteq(a, d)) {
-                ctx->seg_a_on = true;
-                return true;
-            }
-        }
-        if (!ctx->seg_b_on) {
-            if (pteq(b, c) || pteq(b, d)) {
-                ctx->seg_b_on = true;
-                return true;
-            }
-        }
+    if (tg_segment_intersects_segment(ctx->seg, seg)) {
         ctx->count++;
     }
     return ctx->count < 2;
@@ -3114,12 +3018,15 @@ bool tg_ring_intersects_segment(const struct tg_ring *ring,
         return true;
     }
 
+    if (!allow_on_edge) {
+        return ring_segment_has_side(ring, seg, RING_SIDE_IN);
+    }
+
     // Neither point A or B is inside of the ring. It's possible that both
     // are on the outside and are passing over segments. If the segment passes
     // over at least two ring segments then it's intersecting.
     struct intersegiterctx ctx = { 
         .seg = seg,
-        .allow_on_edge = allow_on_edge,
     };
     tg_ring_search(ring, tg_segment_rect(seg), intersegiter, &ctx);
     return ctx.count >= 2;
-- 
2.43.0


From 68a8ef37fc2a029c88b79298b11e927c3d80044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 24/34] fix: line that touches a polygon between its vertices

Only the line vertices were considered for touching the boundary, not the
polygon vertices on the line.
---
 tg.c | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/tg.c b/tg.c
index e3457ba..8e71edf 100644
--- a/tg.c
+++ b/tg.c
@@ -4085,34 +4085,18 @@ bool tg_poly_touches_line(const struct tg_poly *a, const struct tg_line *b) {
     }
 
     // Check if the line is inside any of the polygon holes
-    int npoints = tg_line_num_points(b);
     int nholes = tg_poly_num_holes(a);
     for (int i = 0; i < nholes; i++) {
         const struct tg_ring *hole = tg_poly_hole_at(a, i);
         if (tg_ring_contains_line(hole, b, true, false)) {
-            // Yes, now check if any of the points touch the hole boundary.
-            for (int j = 0; j < npoints; j++) {
-                struct tg_point point = tg_line_point_at(b, j);
-                if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                    return true;
-                }
-            }
-            return false;
+            // Yes, now check if the line touches the hole boundary.
+            return tg_line_intersects_line((struct tg_line*)hole, b);
         }
     }
 
-    // Check if at least one line point touches the polygon exterior.
+    // Check if the line touches the polygon exterior.
     const struct tg_ring *ring = tg_poly_exterior(a);
-    bool touches = false;
-    for (int i = 0; i < npoints; i++) {
-        struct tg_point point = tg_line_point_at(b, i);
-        // Cast the exterior ring to a polygon to avoid holes.
-        if (tg_poly_touches_point((struct tg_poly*)ring, point)) {
-            touches = true;
-            break;
-        }
-    }
-    if (!touches) {
+    if (!tg_ring_intersects_line(ring, b, true)) {
         return false;
     }
     int nsegs = tg_line_num_segments(b);
-- 
2.43.0


From 81d2f67815b84eafc301d6bbc1332ebaf0cba935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 25/34] fix: polygon contained lines on the boundary of a hole

---
 tg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 8e71edf..db5c616 100644
--- a/tg.c
+++ b/tg.c
@@ -3950,9 +3950,19 @@ bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
     }
     int nholes = tg_poly_num_holes(a);
     for (int i = 0; i < nholes; i++) {
-        if (tg_ring_intersects_line(tg_poly_hole_at(a, i), b, false)) {
+        const struct tg_ring *hole = tg_poly_hole_at(a, i);
+        if (tg_ring_intersects_line(hole, b, false)) {
             return false;
         }
+        // A segment that is on the boundary of a hole is not in the interior.
+        int nsegs = tg_line_num_segments(b);
+        for (int j = 0; j < nsegs; j++) {
+            if (line_covers_segment((struct tg_line*)hole, 
+                tg_line_segment_at(b, j)))
+            {
+                return false;
+            }
+        }
     }
     return true;
 }
-- 
2.43.0


From 9e3e12ac9f1d789630dec92ed3665fa1f3eef25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 26/34] fix: polygons that share an edge did not always touch

Two triangles sharing an edge were taken for equal polygons. A hole vertex, or
a polygon vertex, in the middle of an edge was not seen. A polygon covered
another whose hole is inscribed in it.
---
 tg.c | 59 ++++++++++++++++++-----------------------------------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/tg.c b/tg.c
index db5c616..630f0ce 100644
--- a/tg.c
+++ b/tg.c
@@ -3110,6 +3110,17 @@ bool tg_ring_intersects_ring(const struct tg_ring *ring,
             return true;
         }
     }
+    if (!allow_on_edge && a1 == a2) {
+        // The interiors may also intersect when the first ring is covered by 
+        // the other one.
+        for (int i = 0; i < ring->nsegs; i++) {
+            if (tg_ring_intersects_segment(other, ring_segment_at(ring, i),
+                allow_on_edge))
+            {
+                return true;
+            }
+        }
+    }
     return false;
 }
 
@@ -4136,53 +4147,19 @@ bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
         for (int i = 0; i < nholes; i++) {
             const struct tg_ring *hole = tg_poly_hole_at(poly, i);
             if (tg_ring_contains_ring(hole, ring, true)) {
-                // Yes, now check if any exterior points are on the other 
-                // hole boundary.
-                int npoints = tg_ring_num_points(ring);
-                for (int j = 0; j < npoints; j++) {
-                    struct tg_point point = tg_ring_point_at(ring, j);
-                    if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                        // Touching
-                        return true;
-                    }
-                }
-                // Not touching and full enclosed in a hole.
-                return false;
+                // Yes, now check if the exterior is touching the other hole
+                // boundary.
+                return tg_line_intersects_line((struct tg_line*)hole, 
+                    (struct tg_line*)ring);
             }
         }
     }
     
     // Now we can work with the exterior rings only.
     // Check if one polygon is touching the other
-    int ansegs = tg_ring_num_segments(aext);
-    int bnsegs = tg_ring_num_segments(bext);
-    int atouches = 0;
-    int btouches = 0;
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_ring *a = ii == 0 ? aext : bext; 
-        const struct tg_ring *b = ii == 0 ? bext : aext; 
-        int nsegs = ii == 0 ? bnsegs : ansegs;
-        int touches = 0;
-        for (int i = 0; i < nsegs; i++) {
-            struct tg_segment seg = tg_ring_segment_at(b, i);
-            bool isects0 = tg_ring_intersects_segment(a, seg, true);
-            bool isects1 = tg_ring_intersects_segment(a, seg, false);
-            if (isects0 && !isects1) {
-                touches++;
-            } else if (isects0 || isects1) {
-                return false;
-            }
-        }
-        if (ii == 0) {
-            btouches = touches;
-        } else {
-            atouches = touches;
-        }
-    }
-    if (atouches > 0 || btouches > 0) {
-        return !(atouches == ansegs && btouches == bnsegs);
-    }
-    return false;
+    return tg_ring_intersects_ring(aext, bext, true) &&
+           !tg_ring_intersects_ring(aext, bext, false) &&
+           !tg_ring_contains_ring(aext, bext, true); // equal rings
 }
 
 struct tg_poly *tg_poly_move(const struct tg_poly *poly, double delta_x, 
-- 
2.43.0


From 1d0a8c3eec3ec345e30a5b332a69b739b3239c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 27/34] fix: overlapping lines that share an end were touching

Two lines in the same direction from a common end overlap, whichever is the
longer one.
---
 tg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tg.c b/tg.c
index 630f0ce..41ee6ba 100644
--- a/tg.c
+++ b/tg.c
@@ -3506,6 +3506,10 @@ static bool segment_touches0(struct tg_segment seg,
     if (!collinear(seg.a.x, seg.a.y, seg.b.x, seg.b.y, b.x, b.y)) {
         return true;
     }
+    if (tg_segment_covers_point(seg, b)) {
+        // overlapping
+        return false;
+    }
     if (pteq(seg.a, a)) {
         return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.b);
     }
-- 
2.43.0


From 56055296bfe429fbf3529260ff42ab5ed9e41eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 28/34] fix: points and lines touched collections whose
 interior they meet

---
 tg.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index 41ee6ba..22fb56b 100644
--- a/tg.c
+++ b/tg.c
@@ -6264,16 +6264,20 @@ static bool point_touches_base_geom(struct tg_point point,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION:
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (point_touches_geom(point, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (point_touches_geom(point, child)) {
+                        touches = true;
+                    } else if (point_intersects_geom(point, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
@@ -6316,16 +6320,20 @@ static bool line_touches_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (line_touches_geom(line, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (line_touches_geom(line, child)) {
+                        touches = true;
+                    } else if (line_intersects_geom(line, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
-- 
2.43.0


From 920ccde46d76b3c42506ea029f30a11426b01ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 29/34] fix: an empty part kept a geometry from covering a
 collection

---
 tg.c | 96 +++++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/tg.c b/tg.c
index 22fb56b..8bdc909 100644
--- a/tg.c
+++ b/tg.c
@@ -5710,15 +5710,21 @@ static bool point_covers_base_geom(struct tg_point point,
         case TG_MULTIPOINT:
         case TG_MULTILINESTRING:
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!point_covers_geom(point, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!point_covers_geom(point, child)) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5761,15 +5767,21 @@ static bool line_covers_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!line_covers_geom(line, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!line_covers_geom(line, child)) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5812,15 +5824,21 @@ static bool poly_covers_base_geom(struct tg_poly *poly,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!poly_covers_geom(poly, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!poly_covers_geom(poly, child)) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5998,13 +6016,15 @@ static bool poly_contains_base_geom(struct tg_poly *poly,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!poly_contains_geom(poly, geom->multi->geoms[i])) {
-                        contains = false;
-                        break;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!poly_contains_geom(poly, child)) {
+                        return false;
                     }
+                    contains = true;
                 }
             }
             return contains;
@@ -6053,13 +6073,15 @@ static bool line_contains_base_geom(struct tg_line *line,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!line_contains_geom(line, geom->multi->geoms[i])) {
-                        contains = false;
-                        break;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!line_contains_geom(line, child)) {
+                        return false;
                     }
+                    contains = true;
                 }
             }
             return contains;
@@ -6109,13 +6131,15 @@ static bool point_contains_base_geom(struct tg_point point,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!point_contains_geom(point, geom->multi->geoms[i])) {
-                        contains = false;
-                        break;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    // skip empty geometries
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!point_contains_geom(point, child)) {
+                        return false;
                     }
+                    contains = true;
                 }
             }
             return contains;
-- 
2.43.0


From 0647bfa9a348e62993ff45ace1b2360ca8e996de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 30/34] fix: index boxes lost coordinates too large or too
 small for a float

---
 tg.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 8bdc909..a02cc72 100644
--- a/tg.c
+++ b/tg.c
@@ -1525,13 +1525,31 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// ixdown/ixup converts to a float that is never above/below d, even when d is
+// outside of the range of normal floats.
+static float ixdown(double d) {
+    float f = fdown(d);
+    if (f > d) {
+        f = d > FLT_MAX ? FLT_MAX : d > 0 ? 0 : -FLT_MIN;
+    }
+    return f;
+}
+
+static float ixup(double d) {
+    float f = fup(d);
+    if (f < d) {
+        f = d < -FLT_MAX ? -FLT_MAX : d < 0 ? 0 : FLT_MIN;
+    }
+    return f;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = ixdown(rect->min.x);
+    ixrect->min.y = ixdown(rect->min.y);
+    ixrect->max.x = ixup(rect->max.x);
+    ixrect->max.y = ixup(rect->max.y);
 }
 
 #else
-- 
2.43.0


From a2ef73d0eccb41223d9c2ce4234cb198393d1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 31/34] fix: coordinates below the normal range were written as
 zero

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index a02cc72..55aec35 100644
--- a/tg.c
+++ b/tg.c
@@ -11330,7 +11330,7 @@ FP_EXTERN bool fp_atof(const char *data, size_t len, float *x) {
 #endif
 
 static void write_string_double(struct writer *wr, double f) {
-    if (!isnormal(f)) {
+    if (!isfinite(f) || f == 0) {
         write_char(wr, '0');
         return;
     }
-- 
2.43.0


From 67011e13f953d42aca755fa2ab827cf9e9a7b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 32/34] fix: WKT type name followed by a zero byte was accepted

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 55aec35..0067063 100644
--- a/tg.c
+++ b/tg.c
@@ -11956,7 +11956,7 @@ static enum tg_geom_type wkt2type(const char *wkt, long len,
     long j = 0;
     int nws = 0;
     for (; i < len; i++) {
-        if (j == sizeof(name)-1) {
+        if (j == sizeof(name)-1 || wkt[i] == '\0') {
             goto bad_type;
         }
         if (isws(wkt[i])) {
-- 
2.43.0


From 3d6f93e34d5f7e5c61b1131e338f1e6b36aab32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 33/34] fix: GeoJSON type with a zero character was accepted

---
 tg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 0067063..0bcfbaf 100644
--- a/tg.c
+++ b/tg.c
@@ -8608,9 +8608,11 @@ static struct tg_geom *parse_geojson(struct json json, bool req_geom,
         return make_parse_error("'type' is required");
     }
     char type[24];
-    json_string_copy(jtype, type, sizeof(type));
+    size_t typelen = json_string_copy(jtype, type, sizeof(type));
     struct tg_geom *geom = NULL;
-    if (strcmp(type, "Point") == 0) {
+    if (strlen(type) != typelen) {
+        geom = make_parse_error("unknown type '%s'", type);
+    } else if (strcmp(type, "Point") == 0) {
         geom = parse_geojson_point(json, req_geom, ix);
     } else if (strcmp(type, "LineString") == 0) {
         geom = parse_geojson_linestring(json, req_geom, ix);
-- 
2.43.0


From 8871d8928939e9c2f228e31aaabd4003a57c5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 34/34] fix: GeoJSON numbers of 512 or more characters were
 read as zero

---
 tg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 0bcfbaf..6eaa53d 100644
--- a/tg.c
+++ b/tg.c
@@ -7530,7 +7530,13 @@ static double stod(const uint8_t *str, size_t len, char *buf) {
 
 static double parse_double_big(const uint8_t *str, size_t len) {
     char buf[512];
-    if (len >= sizeof(buf)) return 0;
+    if (len >= sizeof(buf)) {
+        // Read the number in place. It's followed by a delimiter because only
+        // the elements of arrays and objects are converted.
+        char *ptr;
+        double x = strtod((char*)str, &ptr);
+        return (size_t)(ptr-(char*)str) == len ? x : 0;
+    }
     return stod(str, len, buf);
 }
 
-- 
2.43.0

