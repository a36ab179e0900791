From 291e853ab0f87b783159bee1c2bc05887e794248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:45 +0000
Subject: [PATCH 001/150] fix: keep the old chunk when a memory region grows

aa_mem_region_grow() freed an empty top chunk.  That chunk may hold a
temporary allocation (aa_mem_region_tmprealloc() copied from the freed
chunk) and may be the target of a mark taken with aa_mem_region_ptr();
popping such a mark freed every older chunk, live data included.
---
 src/mem.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..7e8d3d1 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -169,11 +169,11 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    //
+    // Keep the old chunk even when nothing is allocated in it: it may
+    // hold a temporary allocation, and a pointer previously returned
+    // by aa_mem_region_ptr() may refer to it and be popped later.
+    reg->node = aa_mem_region_node_alloc( nsize, reg->node );
     aa_mem_region_align(reg, reg->node->d);
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
-- 
2.43.0


From 6c23c3eb392604e4530e09d673e0657a0cb47b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:04 +0000
Subject: [PATCH 002/150] fix: popping a mark at the end of a full chunk freed
 the whole region

The head of a completely used chunk equals its end (rounded up for
alignment), which aa_mem_region_pop() did not consider part of any
chunk: it freed all chunks, including those holding live data.
---
 src/mem.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 7e8d3d1..851e45c 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -129,7 +129,10 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // The head of a full chunk is its end, rounded up for alignment.
+    // That is still below the data of any other chunk, because the
+    // chunk header precedes the data.
+    return ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end);
 }
 
 
@@ -147,10 +150,10 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
             n += (p->end - p->d);
             p = aa_mem_region_node_free( p );
         }
-        assert( !p || (ptr8 >= p->d && ptr8 <= p->end));
+        assert( !p || aa_mem_region_pop_in_node(ptr8, p) );
         // now realloc a replacement node
         // how much of the last chunk is now unused
-        ptrdiff_t popsize = p ? (p->end  - ptr8) : 0;
+        ptrdiff_t popsize = (p && ptr8 < p->end) ? (p->end  - ptr8) : 0;
         assert( ( !p || ptr8 > p->d ) ?
                 // popped in middle of chunk, keep it
                 (!p || popsize < p->end - p->d ) :
-- 
2.43.0


From f6126e8c2fdbf0b72a4c380cf1f2a39c6bee1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 003/150] fix: popping to the start of a chunk invalidated
 outer marks

aa_mem_region_pop() replaced the chunk when ptr was its start.  An
enclosing scope whose mark has the same address then popped a pointer
that is in no chunk, which freed all older chunks and their live data.
---
 src/mem.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 851e45c..e148c5c 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -154,16 +154,10 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
         // now realloc a replacement node
         // how much of the last chunk is now unused
         ptrdiff_t popsize = (p && ptr8 < p->end) ? (p->end  - ptr8) : 0;
-        assert( ( !p || ptr8 > p->d ) ?
-                // popped in middle of chunk, keep it
-                (!p || popsize < p->end - p->d ) :
-                // poppsed start of chunk, realloc it
-                ( (ptr8 == p->d) &&
-                  (popsize == p->end - p->d) ) );
-        reg->node =
-            aa_mem_region_node_alloc( (size_t)(n+popsize),
-                                  (p && aa_mem_region_alignptr(p->d) == ptr8) ?
-                                  aa_mem_region_node_free(p) : p );
+        assert( !p || popsize <= p->end - p->d );
+        // Keep chunk p, even if ptr is its start: the caller may pop
+        // the same pointer again.
+        reg->node = aa_mem_region_node_alloc( (size_t)(n+popsize), p );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     }
 }
-- 
2.43.0


From 50c8ddb796daaea6438b83e339872f2c25e7778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:32 +0000
Subject: [PATCH 004/150] fix: repeatedly popping the same mark grew a memory
 region without bound

Popping a mark in the chunk below the top replaced the top chunk by
one larger by the unused part of the lower chunk, each time.  Reuse
the top chunk instead.
---
 src/mem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mem.c b/src/mem.c
index e148c5c..db0c499 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -141,6 +141,11 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
     if( aa_mem_region_pop_in_node( ptr8, reg->node ) ){
         // fast path, in the top node
         aa_mem_region_align( reg, ptr8 );
+    } else if( reg->node->next &&
+               aa_mem_region_pop_in_node( ptr8, reg->node->next ) )
+    {
+        // in the chunk below the top, the top chunk is empty now
+        reg->head = aa_mem_region_alignptr(reg->node->d);
     } else {
         // ugly case, iterate through nodes
         ptrdiff_t n = reg->node->end - reg->node->d;
-- 
2.43.0


From 507816fa05cdd1765ea829efba3ff946d7999f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:47 +0000
Subject: [PATCH 005/150] fix: aa_mem_region_tmprealloc() copied a negative
 size from a full chunk

The aligned head may lie past the end of the chunk; the unsigned
difference then wrapped around.
---
 src/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.c b/src/mem.c
index db0c499..b475304 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -193,7 +193,7 @@ void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
 AA_API void *aa_mem_region_tmprealloc( aa_mem_region_t *region, size_t size )
 {
     void *old_ptr = region->head;
-    size_t old_size = (size_t)(region->node->end - region->head);
+    size_t old_size = aa_mem_region_freesize(region);
     void *new_ptr = aa_mem_region_tmpalloc(region, size);
 
     if( old_ptr != new_ptr ) {
-- 
2.43.0


From 53679b60b0f0e85f437a786a9825a72d902ed8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 006/150] fix: merge a fully popped chunk while keeping its
 start a valid mark

Popping to the start of a chunk merges it with the chunks above again
(as before the previous fixes), but the chunk header stays so that an
outer mark with the same address can still be popped.
---
 src/mem.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index b475304..b043127 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -135,6 +135,11 @@ static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_
     return ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end);
 }
 
+/// If all of the chunk was popped, leave only the start of its data as
+/// an address that can be popped again.
+static inline void aa_mem_region_node_retire( uint8_t *ptr, struct aa_mem_region_node *node ) {
+    if( aa_mem_region_alignptr(node->d) == ptr ) node->end = node->d;
+}
 
 AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
     uint8_t *ptr8 = (uint8_t*)ptr;
@@ -145,6 +150,7 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
                aa_mem_region_pop_in_node( ptr8, reg->node->next ) )
     {
         // in the chunk below the top, the top chunk is empty now
+        aa_mem_region_node_retire( ptr8, reg->node->next );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     } else {
         // ugly case, iterate through nodes
@@ -162,6 +168,7 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
         assert( !p || popsize <= p->end - p->d );
         // Keep chunk p, even if ptr is its start: the caller may pop
         // the same pointer again.
+        if( p ) aa_mem_region_node_retire( ptr8, p );
         reg->node = aa_mem_region_node_alloc( (size_t)(n+popsize), p );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     }
@@ -236,8 +243,8 @@ AA_API char *aa_mem_region_strdup( aa_mem_region_t *region, const char *str )
 
 AA_API size_t aa_mem_region_chunk_count( aa_mem_region_t *region ) {
     size_t i = 1;
-    for( struct aa_mem_region_node *p = region->node; p->next; p = p->next )
-        i++;
+    for( struct aa_mem_region_node *p = region->node->next; p; p = p->next )
+        if( p->end > p->d ) i++; // skip retired chunks
     return i;
 }
 
-- 
2.43.0


From 7c7f2a72f66ce0ce96623ba33b680abf5718848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 007/150] fix: aa_io_getline() lost the line when it exactly
 filled the chunk

The final allocation needs one more byte than the temporary buffer; if
that byte did not fit, it came from a new chunk without the contents.
---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 722c6db..7ecc090 100644
--- a/src/io.c
+++ b/src/io.c
@@ -68,7 +68,8 @@ char *aa_io_getline( FILE *fin, struct aa_mem_region *reg )
             return str;
         }
         n++;
-        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n);
+        // leave room for the terminator, so the final allocation cannot move
+        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n+1);
         ptr[n-1] = (char)i;
     } while(1);
 }
-- 
2.43.0


From bbc714cf5465abea3954c22f1adba189b1fa2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 008/150] fix: matrix reader overflowed a caller buffer smaller
 than a line

Doubling the capacity need not make room for another n elements.
---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 7ecc090..21ab8c2 100644
--- a/src/io.c
+++ b/src/io.c
@@ -192,7 +192,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-            *elts *= 2;
+            *elts = AA_MAX( 2*(*elts), read_elts + n );
             *A = (double*) realloc(*A, *elts * sizeof(double) );
         }
 
-- 
2.43.0


From 86875e12369f7bc8cf642d2295dfb23c42d2bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 009/150] fix: matrix reader left blank and comment lines in
 the thread-local region

---
 src/io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 21ab8c2..670a509 100644
--- a/src/io.c
+++ b/src/io.c
@@ -188,7 +188,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
         if( NULL == line ) continue;
 
         char *line2 = aa_io_skipblank(line);
-        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) continue;
+        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) {
+            aa_mem_region_pop(reg, line);
+            continue;
+        }
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-- 
2.43.0


From cc3fe111aa4b76dbedd9f776256e7c8ccc49a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 010/150] fix: matrix reader left the erroneous line in the
 thread-local region

---
 src/io.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 670a509..3183eef 100644
--- a/src/io.c
+++ b/src/io.c
@@ -201,11 +201,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // parse
         size_t i = aa_io_parsevector( line2, n, (*A)+read_elts, 1, NULL );
+        aa_mem_region_pop(reg, line);
         if( i != n ) return -(ssize_t)lineno;
 
         read_elts += i;
-
-        aa_mem_region_pop(reg, line);
     }
     return (ssize_t)(read_elts / n);
 }
-- 
2.43.0


From c3299aeaaa68ba405d445c0bcb0df8aa83cd801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 011/150] fix: matrix reader looped forever on a read error

Only end-of-file ended the loop; with a stream error every line is
empty and the loop keeps allocating.  Report the line as erring.
---
 src/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io.c b/src/io.c
index 3183eef..f2cb788 100644
--- a/src/io.c
+++ b/src/io.c
@@ -188,6 +188,11 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
         if( NULL == line ) continue;
 
         char *line2 = aa_io_skipblank(line);
+        if( ferror(fin) ) {
+            // line may be incomplete
+            aa_mem_region_pop(reg, line);
+            return -(ssize_t)lineno;
+        }
         if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) {
             aa_mem_region_pop(reg, line);
             continue;
-- 
2.43.0


From b8aa75ff3352e0a8f51bc44b4bf52a1ed8c4acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 012/150] fix: wavefront numbers with an exponent or a long
 fraction were misread

---
 src/wavefront/wf_obj.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2438538..47f141f 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -120,29 +120,31 @@ aa_rx_wf_parse_float( const char *str )
     /* skip blanks */
     while( *str &&  isblank(*str) ) str++;
 
-    char *e, *g;
-    double r = (double)strtol( str, &e, 10 );
-    long f = ('.' == *e)
-        ? strtol( e+1, &g, 10 )
-        : 0;
-
-    if( f ) {
-        long k = g - e - 1;
-        if( k ) {
-            double x = (double)f;
-            while(k--) x/=10;
-            if( r < 0 || ('-' == *str) )
-                r -= x;
-            else
-                r += x;
+    int neg = ('-' == *str);
+    if( neg ) str++;
+
+    /* mantissa */
+    double r = 0;
+    long k = 0; /* decimal exponent */
+    for( ; isdigit((unsigned char)*str); str++ ) {
+        r = 10*r + (*str - '0');
+    }
+    if( '.' == *str ) {
+        for( str++; isdigit((unsigned char)*str); str++, k-- ) {
+            r = 10*r + (*str - '0');
         }
     }
 
-    /* printf("t: %s\n", str); */
-    /* printf("r: %f\n", r); */
-    /* printf("a: %f\n", atof(str)); */
+    /* exponent */
+    if( 'e' == *str || 'd' == *str || 's' == *str ) {
+        k += strtol( str+1, NULL, 10 );
+    }
+
+    r = (k < 0)
+        ? r / pow( 10, (double)(-k) )
+        : r * pow( 10, (double)k );
 
-    return r;
+    return neg ? -r : r;
 }
 
 AA_API void
-- 
2.43.0


From 1e11374f625f0bface38d7adee8412810ccea456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 013/150] fix: wavefront texture vertices were never freed

---
 src/wavefront/wf_obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 47f141f..d3e13d0 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -152,6 +152,7 @@ aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
     free( obj->vertex.data );
     free( obj->normal.data );
+    free( obj->texture_vertex.data );
     free( obj->vertex_indices.data );
     free( obj->normal_indices.data );
     free( obj->uv_indices.data );
-- 
2.43.0


From 2d56c63b654e83f02be6343901af417641d64322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 014/150] fix: wavefront MTL accessors read one element past
 the end

---
 src/wavefront/wf_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index d3e13d0..2377903 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -242,7 +242,7 @@ aa_rx_wf_obj_mtl_count( struct aa_rx_wf_obj *obj )
 AA_API const char *
 aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl_files.size ) {
+    if( i < obj->mtl_files.size ) {
         return obj->mtl_files.data[i];
     } else {
         return NULL;
@@ -252,7 +252,7 @@ aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 AA_API const struct aa_rx_wf_mtl *
 aa_rx_wf_obj_get_mtl( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl.size ) {
+    if( i < obj->mtl.size ) {
         return obj->mtl.data[i];
     } else {
         return NULL;
-- 
2.43.0


From 4cfcdc881b3ec62982fcd064a50fd8aaec089a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 015/150] fix: wavefront parsers accepted statements broken by
 a newline

---
 src/wavefront/mtl.l       | 2 +-
 src/wavefront/wavefront.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 30f22ce..8e8d58f 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -229,7 +229,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n", yytext, yyextra->mtl->filename, yylineno);
     return -1;
 }
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 0f62478..99d3077 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -313,7 +313,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n",
                     yytext,
                     aa_rx_wf_obj_get_filename(yyextra->wf_obj),
-- 
2.43.0


From 453c9a5499fd6cec4969412f6908905ee3271022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 016/150] fix: wavefront parsers accepted a file cut off inside
 a statement

---
 src/wavefront/mtl.l       | 12 ++++++++++++
 src/wavefront/wavefront.l | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 8e8d58f..f8d0f4e 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -226,6 +226,18 @@ START {MAYBE_BLANKS}
     /* TODO */
 }
 
+    /* End of file: only valid between statements */
+
+<*><<EOF>> {
+    if( INITIAL != YY_START && EOL != YY_START ) {
+        fprintf(stderr, "Unexpected end of file (%s:%d)\n",
+                        yyextra->mtl->filename,
+                        yylineno);
+        return -1;
+    }
+    yyterminate();
+}
+
     /* Error */
     /* This rule needs to be last */
 
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 99d3077..4fa087b 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -310,6 +310,18 @@ START {MAYBE_BLANKS}
 "l"{BLANKS}.* {
 }
 
+    /* End of file: only valid between statements */
+
+<*><<EOF>> {
+    if( INITIAL != YY_START && EOL != YY_START ) {
+        fprintf(stderr, "Unexpected end of file (%s:%d)\n",
+                        aa_rx_wf_obj_get_filename(yyextra->wf_obj),
+                        yylineno);
+        return -1;
+    }
+    yyterminate();
+}
+
     /* Error */
     /* This rule needs to be last */
 
-- 
2.43.0


From 1e0009abc087a50c21d5238007e909c88883d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 017/150] fix: MTL property before the first newmtl
 dereferenced NULL

---
 src/wavefront/mtl.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index f8d0f4e..a5ea08f 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,14 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Material properties must follow a newmtl */
+#define WF_MTL_REQUIRE_CURRENT                                          \
+    if( NULL == WF_MTL_CURRENT ) {                                      \
+        fprintf(stderr, "Property before newmtl (%s:%d)\n",             \
+                yyextra->mtl->filename, yylineno);                      \
+        return -1;                                                      \
+    }
+
 %}
 
 %x EOL
@@ -119,6 +127,7 @@ START {MAYBE_BLANKS}
 
     /* Specular Weight */
 {START}"Ns"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     BEGIN(NS);
 }
 
@@ -129,6 +138,7 @@ START {MAYBE_BLANKS}
 }
     /* Index of Refraction */
 {START}"Ni"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     BEGIN(NI);
 }
 
@@ -157,6 +167,7 @@ START {MAYBE_BLANKS}
 
     /* Ambient */
 {START}"Ka"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     yyextra->v = WF_MTL_CURRENT->ambient;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
@@ -170,6 +181,7 @@ START {MAYBE_BLANKS}
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     yyextra->v = WF_MTL_CURRENT->diffuse;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
@@ -182,6 +194,7 @@ START {MAYBE_BLANKS}
 
     /* Specular */
 {START}"Ks"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     yyextra->v = WF_MTL_CURRENT->specular;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
@@ -195,6 +208,7 @@ START {MAYBE_BLANKS}
 
     /* Emission */
 {START}"Ke"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     yyextra->v = WF_MTL_CURRENT->emission;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
@@ -209,6 +223,7 @@ START {MAYBE_BLANKS}
 
     /* alpha */
 {START}"d"{BLANKS} {
+    WF_MTL_REQUIRE_CURRENT;
     BEGIN(D);
 }
 
-- 
2.43.0


From 4b6d4a16194871071381c438a8e2304218f26ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 018/150] fix: a read error in a wavefront file ended the
 process

---
 include/wavefront_internal.h | 10 ++++++++++
 src/wavefront/mtl.l          |  9 +++++++++
 src/wavefront/wavefront.l    |  9 +++++++++
 src/wavefront/wf_obj.c       | 17 +++++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/include/wavefront_internal.h b/include/wavefront_internal.h
index 7027ede..fe8696f 100644
--- a/include/wavefront_internal.h
+++ b/include/wavefront_internal.h
@@ -55,6 +55,7 @@ struct aa_rx_wf_obj_face {
 struct wf_extra {
     struct aa_rx_wf_obj *wf_obj;
     struct aa_rx_wf_obj_face face;
+    int io_error;
 };
 
 
@@ -157,6 +158,7 @@ struct aa_rx_wf_mtl {
 struct wf_mtl_extra {
     struct aa_rx_wf_mtl *mtl;
     double *v;
+    int io_error;
 };
 
 
@@ -170,4 +172,12 @@ aa_rx_wf_mtl_push( struct aa_rx_wf_mtl *mtl, const char *name );
 AA_API double
 aa_rx_wf_parse_float( const char *str );
 
+/**
+ * Read input for the scanners.
+ *
+ * @return number of bytes read, zero at end of file or on error
+ */
+AA_API size_t
+aa_rx_wf_input( FILE *in, char *buf, size_t max_size, int *error );
+
 #endif //AMINO_WAVEFRONT_H
diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index a5ea08f..32c84e5 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,10 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Report read errors to the caller, instead of exiting */
+#define YY_INPUT(buf,result,max_size) \
+    result = aa_rx_wf_input( yyin, buf, max_size, &yyextra->io_error )
+
 /* Material properties must follow a newmtl */
 #define WF_MTL_REQUIRE_CURRENT                                          \
     if( NULL == WF_MTL_CURRENT ) {                                      \
@@ -244,6 +248,10 @@ START {MAYBE_BLANKS}
     /* End of file: only valid between statements */
 
 <*><<EOF>> {
+    if( yyextra->io_error ) {
+        fprintf(stderr, "Error reading '%s'\n", yyextra->mtl->filename);
+        return -1;
+    }
     if( INITIAL != YY_START && EOL != YY_START ) {
         fprintf(stderr, "Unexpected end of file (%s:%d)\n",
                         yyextra->mtl->filename,
@@ -277,6 +285,7 @@ aa_rx_wf_mtl_parse(const char *filename)
     aa_rx_wf_mtl_set_in(in, scanner);
 
     struct wf_mtl_extra e;
+    e.io_error = 0;
     e.mtl = aa_rx_wf_mtl_create();
     e.mtl->filename = strdup(filename);
     aa_rx_wf_mtl_set_extra(&e, scanner);
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 4fa087b..840d77a 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -58,6 +58,10 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Report read errors to the caller, instead of exiting */
+#define YY_INPUT(buf,result,max_size) \
+    result = aa_rx_wf_input( yyin, buf, max_size, &yyextra->io_error )
+
 %}
 
 
@@ -313,6 +317,10 @@ START {MAYBE_BLANKS}
     /* End of file: only valid between statements */
 
 <*><<EOF>> {
+    if( yyextra->io_error ) {
+        fprintf(stderr, "Error reading '%s'\n", aa_rx_wf_obj_get_filename(yyextra->wf_obj));
+        return -1;
+    }
     if( INITIAL != YY_START && EOL != YY_START ) {
         fprintf(stderr, "Unexpected end of file (%s:%d)\n",
                         aa_rx_wf_obj_get_filename(yyextra->wf_obj),
@@ -349,6 +357,7 @@ aa_rx_wf_parse(const char *filename)
     aa_rx_wf_set_in(in, scanner);
 
     struct wf_extra we;
+    we.io_error = 0;
     we.wf_obj = aa_rx_wf_obj_create();
     aa_rx_wf_obj_set_filename(we.wf_obj, filename);
 
diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2377903..0bbe7c3 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -43,6 +43,8 @@
 
 
 #include <ctype.h>
+#include <errno.h>
+#include <unistd.h>
 
 AA_VECTOR_DEF( double, dvec_type )
 AA_VECTOR_DEF( int32_t, ivec_type )
@@ -114,6 +116,21 @@ aa_rx_wf_obj_create()
     return obj;
 }
 
+AA_API size_t
+aa_rx_wf_input( FILE *in, char *buf, size_t max_size, int *error )
+{
+    ssize_t r;
+    do {
+        r = read( fileno(in), buf, max_size );
+    } while( r < 0 && EINTR == errno );
+
+    if( r < 0 ) {
+        *error = 1;
+        return 0;
+    }
+    return (size_t)r;
+}
+
 AA_API double
 aa_rx_wf_parse_float( const char *str )
 {
-- 
2.43.0


From 7a2111b55ee75cddd1de8448eb44ce6dc10dd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 019/150] fix: aa_rx_mesh_set_texture() leaked the previous
 texture coordinates

---
 src/rx/scene_geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index f1cc395..1c83b67 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -431,7 +431,7 @@ void aa_rx_mesh_set_texture (
     aa_rx_mesh_set_rgba( mesh, 1, 1, rgba, 1 );
 
     // indices
-    /* if( mesh->uv_data ) free(mesh->uv_data); */
+    aa_checked_free(mesh->uv_data);
     mesh->uv = mesh->uv_data = AA_NEW0_AR(float, 2*mesh->n_vertices);
 }
 
-- 
2.43.0


From a1d92f0d71c668caeb30ac002a3a8efeb1cd3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 020/150] fix: adding a frame with default rotation or
 translation dereferenced NULL

---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..684eb43 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From 9645b5aa20f179f68158f170d7ad2b9cecfc6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 021/150] fix: scene graph state was used uninitialised before
 aa_rx_sg_init()

---
 src/rx/scenegraph.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 684eb43..359c313 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -65,7 +65,9 @@ SceneFrame::SceneFrame(
     type(type_),
     name(_name),
     parent(_parent),
-    inertial(NULL)
+    inertial(NULL),
+    frame_id(AA_RX_FRAME_NONE),
+    parent_id(AA_RX_FRAME_NONE)
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
@@ -267,8 +269,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(0),
+      dirty_gl(0)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From 4183f271a69817a8aee0c93dffc4abeb6d3ad284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 022/150] fix: aa_rx_sg_init() accepted a cycle of parent
 frames

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 359c313..552c6c6 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -315,10 +315,14 @@ int SceneGraph::index()
     // Check parents
     for( auto itr = frame_map.begin(); itr != frame_map.end(); itr++ ) {
         SceneFrame *f = itr->second;
-        if( 0 != f->parent.size() ) {
-            if( frame_map.end() == frame_map.find(f->parent) ) {
+        size_t depth = 0;
+        while( 0 != f->parent.size() ) {
+            auto parent = frame_map.find(f->parent);
+            // missing parent or cycle
+            if( frame_map.end() == parent || ++depth > frame_map.size() ) {
                 return AA_RX_INVALID_FRAME;
             }
+            f = parent->second;
         }
     }
 
-- 
2.43.0


From bbcc3a9ae11c47bc77fe2dfb392b7a3b0bae5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 023/150] fix: fixed frame transformation matrix wrote past its
 end

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 552c6c6..6cf1307 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -166,7 +166,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From 9d31229d716927e5b37ac083490a9e7ea59cb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 024/150] fix: prismatic frame matrix and dual quaternion
 ignored the joint orientation

---
 src/rx/scenegraph.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 6cf1307..108a04b 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -194,21 +194,24 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
     double qo = q[this->config_index] + this->offset;
+    double x[3];
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
 
+    aa_tf_rotmat_rot( R, this->axis, x );
     for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*x[i];
     }
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
     double qo = q[this->config_index] + this->offset;
-    double v[3];
+    double v[3], x[3];
+    aa_tf_rotmat_rot( R, this->axis, x );
     for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        v[i] = E[AA_TF_QUTR_V+i] + qo*x[i];
     }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,_S);
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From 7868de417c3deac3f526e56244664d466ceef7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 025/150] fix: reparenting a frame left its old rotation matrix
 and dual quaternion

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..b167264 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -733,6 +733,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat(f->E+AA_TF_QUTR_Q, f->R);
+    aa_tf_qv2duqu(f->E+AA_TF_QUTR_Q, f->E+AA_TF_QUTR_V, f->S);
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From d70024fc84c17db6b29f80be532cbbfb7c1ec764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 026/150] fix: aa_rx_sg_config_name() read past the
 configuration names

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index b167264..85f113f 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From dbceaed958b7de5e038ea7a55024b591d031e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 027/150] fix: aa_rx_fk_get_abs_qutr() accepted the id one past
 the last frame

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 85f113f..947652a 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -898,7 +898,7 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
         fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
         abort();
         exit(EXIT_FAILURE);
-- 
2.43.0


From a824c83fe4ac6b5d766a33a0abb47026a318ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 028/150] fix: aa_rx_fk_all() ignored the increment of the
 configuration vector

---
 src/rx/sg_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 947652a..a5bd2bb 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -966,13 +966,21 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    // frames index a contiguous configuration
+    double q_copy[q->len], *q_data = q->data;
+    if( 1 != q->inc ) {
+        struct aa_dvec vq = AA_DVEC_INIT(q->len, q_copy, 1);
+        aa_dvec_copy(q, &vq);
+        q_data = q_copy;
+    }
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
          i_frame++, E_abs += AA_RX_FK_LD )
     {
         amino::SceneFrame *f = sg->frames[i_frame];
-        f->tf_rel( q->data, E_rel );
+        f->tf_rel( q_data, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
 }
-- 
2.43.0


From f710faadcfb4e34f2142b86085a72c238f194e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 029/150] fix: limits set after aa_rx_sg_init() were not
 visible

---
 src/rx/sg_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index a5bd2bb..19f4456 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -554,6 +554,11 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        // make visible if already indexed
+        auto itr = sg->config_map.find(config_name);
+        if( ! sg->dirty_indices && sg->config_map.end() != itr ) {
+            sg->limits[(size_t)itr->second] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From 343ed2f9cf9d8de85050df31c45a5a148997c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 030/150] fix: aa_rx_sg_copy() allocated limits with new that
 are released with free()

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 19f4456..24fb575 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -791,7 +791,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW0(struct aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From ae46f225bf0d00034ac509022ff4e65563e9910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 031/150] fix: aa_rx_sg_copy() dropped the inertial parameters

---
 src/rx/sg_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 24fb575..548d924 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -785,6 +785,9 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
             } break;
         }
         assert(f_new);
+        if( f->inertial ) {
+            f_new->inertial = AA_MEM_DUP(struct aa_rx_inertial, f->inertial, 1);
+        }
         dest->sg->add(f_new);
     }
 
-- 
2.43.0


From 2bdc1cb0af43c1be1a3528d126ef6295e479661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 032/150] fix: allowed collisions kept pointers to the names of
 removed frames

---
 include/amino/rx/scenegraph_internal.h |  2 +-
 src/rx/amino_fcl.cpp                   |  8 ++++++--
 src/rx/sg_api.cpp                      | 14 +++-----------
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..84ae1ff 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,7 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     /** List of allowable collisions by indices */
     std::vector<size_t> allowed_indices1;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..a58c5ab 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -230,8 +230,12 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
     sg->allowed_indices2.clear();
 
     for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
+        aa_rx_frame_id id1 = aa_rx_sg_frame_id(scene_graph, it->first.c_str());
+        aa_rx_frame_id id2 = aa_rx_sg_frame_id(scene_graph, it->second.c_str());
+        // frames may have been removed
+        if( id1 < 0 || id2 < 0 ) continue;
+        sg->allowed_indices1.push_back(id1);
+        sg->allowed_indices2.push_back(id2);
     }
 
     aa_rx_sg_clean_collision(scene_graph);
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 548d924..9204f01 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -810,7 +810,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
     // initialize sg
@@ -833,16 +833,8 @@ AA_API void
 aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
                                const char* frame0, const char* frame1, const int allowed )
 {
-    bool order = strcmp(frame0, frame1) <0;
-    const char *string0, *string1;
-    if (strcmp(frame0, frame1)<0){
-        string0 = scene_graph->sg->frame_map[frame0]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame1]->name.c_str();
-    } else {
-        string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
-    }
-    std::pair<const char*, const char*> p(string0, string1);
+    std::pair<std::string, std::string> p(frame0, frame1);
+    if( p.second < p.first ) std::swap(p.first, p.second);
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From 514ee9dd1878f639f8b7307cbbae8df5a6a542ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 033/150] fix: allowed collisions kept stale frame indices
 after re-initialisation

---
 include/amino/rx/scenegraph_internal.h |  1 +
 src/rx/amino_fcl.cpp                   | 12 +-----------
 src/rx/scenegraph.cpp                  | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index 84ae1ff..dece0e4 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -177,6 +177,7 @@ struct SceneGraph  {
     ~SceneGraph();
 
     int index();
+    void index_allowed();
     void add(SceneFrame *f);
 
     /** Map from frame name to frame */
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index a58c5ab..d49404d 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -226,17 +226,7 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
     aa_rx_sg_map_geom( scene_graph, &cl_init_helper, scene_graph );
 
     amino::SceneGraph *sg = scene_graph->sg;
-    sg->allowed_indices1.clear();
-    sg->allowed_indices2.clear();
-
-    for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        aa_rx_frame_id id1 = aa_rx_sg_frame_id(scene_graph, it->first.c_str());
-        aa_rx_frame_id id2 = aa_rx_sg_frame_id(scene_graph, it->second.c_str());
-        // frames may have been removed
-        if( id1 < 0 || id2 < 0 ) continue;
-        sg->allowed_indices1.push_back(id1);
-        sg->allowed_indices2.push_back(id2);
-    }
+    sg->index_allowed();
 
     aa_rx_sg_clean_collision(scene_graph);
 }
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 108a04b..05d02db 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -384,10 +384,28 @@ int SceneGraph::index()
         }
     }
 
+    // Renumber allowed collisions
+    index_allowed();
+
     dirty_indices = 0;
     return 0;
 }
 
+void SceneGraph::index_allowed()
+{
+    allowed_indices1.clear();
+    allowed_indices2.clear();
+
+    for( auto &pair : allowed ) {
+        auto itr1 = frame_map.find(pair.first);
+        auto itr2 = frame_map.find(pair.second);
+        // frames may have been removed
+        if( frame_map.end() == itr1 || frame_map.end() == itr2 ) continue;
+        allowed_indices1.push_back((size_t)itr1->second->frame_id);
+        allowed_indices2.push_back((size_t)itr2->second->frame_id);
+    }
+}
+
 
 void SceneGraph::add(SceneFrame *f)
 {
-- 
2.43.0


From d716af09cb7a889c4c58f756a3e7179f9c13d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 034/150] fix: a chain with multiple tips was always empty

---
 src/rx/scene_sub.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From 1b1cdb1a99ef9413138d818e718d1e291d7b30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 035/150] fix: a chain with multiple tips leaked and had no end
 effectors

---
 src/rx/scene_kin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..d3b39c3 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -359,6 +359,7 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     ssg->frame_count = aa_rx_sg_chain_multiple_frames( sg, root, n_tips,
                                                        tips, tmp, tmp_arr);
     ssg->frames = AA_MEM_DUP(aa_rx_frame_id, tmp_arr, ssg->frame_count);
+    free(tmp_arr);
 
 
     ssg->config_count = aa_rx_sg_chain_config_count( sg,
@@ -368,6 +369,9 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
     return ssg;
 }
 
-- 
2.43.0


From 434882bbe98dfdc03aba1b287c3f6d423b7d27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 036/150] fix: every octree leaf got the size of the first one

---
 src/rx/sg_octree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/sg_octree.cpp b/src/rx/sg_octree.cpp
index 9abf481..c1c2e2b 100644
--- a/src/rx/sg_octree.cpp
+++ b/src/rx/sg_octree.cpp
@@ -67,8 +67,8 @@ AA_API void aa_rx_sg_add_octree(
                                      aa_tf_quat_ident, v);
 
             if ( opt ){
-                double s_len = cbrt(it.getSize());
-                static const double dimension[3] = {s_len, s_len, s_len};
+                double s_len = it.getSize();
+                const double dimension[3] = {s_len, s_len, s_len};
                 struct aa_rx_geom* geom = aa_rx_geom_box(opt, dimension);
 
                 aa_rx_geom_attach(scene_graph, sub_name, geom);
-- 
2.43.0


From 13eab471e7d6d56b7d369e6d5e53896c287f9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 037/150] fix: rendering a scene graph raced with threads
 reading it

The dirty flags shared one word, so marking the GL data clean rewrote the
flag every reader checks.
---
 include/amino/rx/scenegraph_internal.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index dece0e4..f0558dd 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -211,10 +211,13 @@ struct SceneGraph  {
     void (*destructor)(void *);
     void *destructor_context;
 
-    /** Are the indices invalid? */
-    unsigned dirty_indices : 1;
-    unsigned dirty_collision : 1;
-    unsigned dirty_gl : 1;
+    /** Are the indices invalid?
+     *
+     * Not bitfields: the rendering thread marks the GL data clean
+     * while other threads read the scene graph. */
+    unsigned dirty_indices;
+    unsigned dirty_collision;
+    unsigned dirty_gl;
 };
 
 }
-- 
2.43.0


From 5b799c836363b432894501471071329189a6c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 038/150] fix: a display loop started before the window existed
 never woke up

---
 src/rx/sdl_win.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index ce8d2d6..25a69cc 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -237,6 +237,8 @@ aa_rx_win_create(
     s_lock();
     s_thread_win = pthread_self();
     s_win = win;
+    /* Wake a display loop that waits for the window */
+    s_broadcast();
     s_unlock();
 
     return win;
-- 
2.43.0


From f25b69d6eb0fbe0b09575845dbeef7093c04294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 039/150] fix: concurrent window calls lost results, raced and
 could deadlock

A second caller could install its call before the first had collected its
result, the display loop read the call without the mutex, and calls ran with
the mutex held so that nested calls deadlocked.
---
 src/rx/sdl_win.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 25a69cc..f117a08 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -75,6 +75,7 @@ static void *(*s_handler)(void*) = NULL;
 static void *s_handler_arg = NULL;
 static void *s_handler_result = NULL;
 static unsigned s_handler_done = 0;
+static unsigned s_handler_busy = 0;
 
 static void s_lock(void);
 static void s_unlock(void);
@@ -128,17 +129,19 @@ aa_rx_win_call( void *(*function)(void*),
         || (s_loop_running && pthread_equal(s_thread_run, self_thread))
         )
     {
-        void *result = function(context);
+        /* Function may make nested calls or lock the window */
         s_unlock();
-        return result;
+        return function(context);
     }
 
     /* Else, install the handler for the window thread */
 
-    while( NULL != s_handler ) {
+    /* The previous caller must also have collected its result */
+    while( s_handler_busy ) {
         s_wait();
     }
 
+    s_handler_busy = 1;
     s_handler = function;
     s_handler_arg = context;
     s_handler_result = NULL;
@@ -156,6 +159,10 @@ aa_rx_win_call( void *(*function)(void*),
     void *result = s_handler_result;
     s_handler_result = NULL;
     s_handler_done = 0;
+    s_handler_busy = 0;
+
+    /* Wake the next caller */
+    s_broadcast();
 
     s_unlock();
 
@@ -165,11 +172,18 @@ aa_rx_win_call( void *(*function)(void*),
 static void
 s_handle_call( )
 {
-    /* Must hold the window lock */
+    /* Must hold s_mutex, which is released during the call */
     if( s_handler ) {
-        s_handler_result = s_handler(s_handler_arg);
+        void *(*handler)(void*) = s_handler;
+        void *arg = s_handler_arg;
         s_handler = NULL;
         s_handler_arg = NULL;
+
+        s_unlock();
+        void *result = handler(arg);
+        s_lock();
+
+        s_handler_result = result;
         s_handler_done = 1;
         s_broadcast();
     }
@@ -545,7 +559,9 @@ static int win_display( void *cx_, struct aa_sdl_display_params *params )
 
     aa_rx_win_lock(win);
 
+    s_lock();
     s_handle_call();
+    s_unlock();
 
     r = win->display(win, win->display_cx, params );
 
-- 
2.43.0


From d1b1e175f953e23f6a9cd89298249a1f78d489b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 040/150] fix: replacing the display function raced with the
 display loop

---
 src/rx/sdl_win.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index f117a08..b224efc 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -581,12 +581,14 @@ aa_rx_win_set_display( struct aa_rx_win * win,
                        void *context,
                        void (*destructor)(void*) )
 {
+    aa_rx_win_lock(win);
     if( win->destroy_cx ) {
         win->destroy_cx( win->display_cx );
     }
     win->display = display;
     win->display_cx = context;
     win->destroy_cx = destructor;
+    aa_rx_win_unlock(win);
 }
 
 struct mp_seq_display_cx {
-- 
2.43.0


From 468ac1c3347566a2d30c37ef159138620e273fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 041/150] fix: growing the frame mask wrote out of bounds and
 left it uninitialised

---
 src/amino_gl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index bbe3f96..eca7f7e 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1751,7 +1751,7 @@ aa_gl_globals_mask( struct aa_gl_globals *globals, size_t i, int value ) {
 
         globals->frame_mask_size = new_size;
         globals->frame_mask = (aa_bits*)realloc( globals->frame_mask, new_size );
-        memset( globals->frame_mask + old_size, 0, new_size - old_size );
+        memset( (char*)globals->frame_mask + old_size, 0, new_size - old_size );
     }
 
     aa_bits_set(globals->frame_mask, i, value);
-- 
2.43.0


From 60512591af760441225ec81e986bb76c1df32433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 042/150] fix: destroying the GL globals leaked the frame mask

---
 src/amino_gl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index eca7f7e..02195c3 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1555,6 +1555,7 @@ aa_gl_globals_create()
 void
 aa_gl_globals_destroy( struct aa_gl_globals *globals )
 {
+    aa_checked_free(globals->frame_mask);
     free(globals);
 }
 
-- 
2.43.0


From ec8c3a263bbad5522c53857aa0850b53aa97008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 043/150] fix: destroying a window did not wait for its
 asynchronous display loop

There is no way to join the loop that aa_rx_win_run_async starts, so it kept
using the window after aa_rx_win_destroy freed it.
---
 src/rx/sdl_win.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index b224efc..2b087bb 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -276,6 +276,19 @@ aa_rx_win_destroy( struct aa_rx_win *  win)
 {
     if( NULL == win ) return;
 
+    /* Stop the display loop, unless we are called from it, and wait
+     * until it no longer uses the window */
+    s_lock();
+    if( win == s_win && s_loop_running
+        && !pthread_equal(s_thread_run, pthread_self()) )
+    {
+        s_unlock();
+        aa_rx_win_stop(win);
+        s_lock();
+        while( s_loop_running ) s_wait();
+    }
+    s_unlock();
+
     aa_rx_win_set_display( win, NULL, NULL, NULL );
 
     aa_gl_globals_destroy( win->gl_globals );
@@ -930,6 +943,7 @@ AA_API void aa_rx_win_run( )
 
     s_lock();
     s_loop_running = 0;
+    s_broadcast();
     s_unlock();
 }
 
-- 
2.43.0


From e3df9a467d42b0e640b86c1bf637faa592586b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:23 +0000
Subject: [PATCH 044/150] fix: an asynchronous display loop was not counted
 until its thread ran

Stopping and destroying the window, or starting another loop, right after
aa_rx_win_run_async did not see the loop.
---
 src/rx/sdl_win.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 2b087bb..35c540c 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -845,16 +845,24 @@ aa_rx_win_set_display_plan( struct aa_rx_win * win,
     aa_rx_win_set_display( win, mp_seq_display, cx, destroy_plan_cx );
 }
 
+static void s_run_loop( void );
+
 static void *s_win_run_fun(void* arg)
 {
     (void)arg;
-    aa_rx_win_run();
+    s_run_loop();
     return NULL;
 }
 
 AA_API void aa_rx_win_run_async( )
 {
     s_lock();
+    if( s_loop_running ) {
+        fprintf(stderr, "Display loop already running\n");
+        s_unlock();
+        return;
+    }
+
     if( s_win && s_win->window ) {
         if( SDL_GL_MakeCurrent(s_win->window, 0) ) {
             fprintf(stderr, "SDL_GL_MakeCurrent() failed to release: %s\n",
@@ -863,7 +871,6 @@ AA_API void aa_rx_win_run_async( )
             exit(EXIT_FAILURE);
         }
     }
-    s_unlock();
 
     if( pthread_create( &s_thread_async, NULL, s_win_run_fun, NULL ) ) {
         fprintf(stderr, "pthread_create failed\n");
@@ -871,6 +878,12 @@ AA_API void aa_rx_win_run_async( )
         exit(EXIT_FAILURE);
 
     }
+
+    /* The loop runs from now on, even if its thread was not yet
+     * scheduled */
+    s_loop_running = 1;
+    s_thread_run = s_thread_async;
+    s_unlock();
 }
 
 AA_API void aa_rx_win_run( )
@@ -887,6 +900,11 @@ AA_API void aa_rx_win_run( )
     s_thread_run = pthread_self();
     s_unlock();
 
+    s_run_loop();
+}
+
+static void s_run_loop( void )
+{
     /* Wait for window creation */
     s_lock();
     while( NULL == s_win )
-- 
2.43.0


From 189bccd288927b225078f0ec009557a9d7c56f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:23 +0000
Subject: [PATCH 045/150] fix: a finished display loop kept the GL context
 bound to its thread

---
 src/rx/sdl_win.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 35c540c..9c8127c 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -957,6 +957,11 @@ static void s_run_loop( void )
     aa_rx_win_lock(win);
     win->running = 0;
     win->stop = 1;
+    /* Another thread may use the context next */
+    if( SDL_GL_MakeCurrent(win->window, 0) ) {
+        fprintf(stderr, "SDL_GL_MakeCurrent() failed to release: %s\n",
+                SDL_GetError());
+    }
     aa_rx_win_unlock(win);
 
     s_lock();
-- 
2.43.0


From 45dca8bb2ebc040738164fe9ac03c6a0c90c3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 046/150] fix: the configuration shown by a window leaked

---
 src/rx/sdl_win.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 9c8127c..3697c7e 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -293,7 +293,7 @@ aa_rx_win_destroy( struct aa_rx_win *  win)
 
     aa_gl_globals_destroy( win->gl_globals );
 
-    /* TODO: free display_cx */
+    aa_checked_free(win->q);
 
     pthread_mutex_destroy( &win->mutex );
     pthread_mutexattr_destroy( &win->mattr );
@@ -498,6 +498,7 @@ set_sg( struct aa_rx_win * win,
     cx->sg = sg;
     cx->sg_sub = sg_sub;
     win->n_q = aa_rx_sg_config_count(sg);
+    aa_checked_free(win->q);
     /* TODO: fill q with something reasonable */
     win->q = AA_NEW0_AR( double, win->n_q );
 
-- 
2.43.0


From 1dbe298da7c4b782399fbb0c7d52d4b7da237f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 047/150] fix: workspace control wrote past the end of a dual
 quaternion

---
 src/rx/sdl_win.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 3697c7e..04bb13e 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -420,7 +420,7 @@ workspace_control(
 
         // position feedback
         {
-            double Sr[7], Sa[8];
+            double Sr[8], Sa[8];
             aa_tf_qutr2duqu(cx->E_ref, Sr);
             aa_tf_qutr2duqu(Ea, Sa);
 
-- 
2.43.0


From b8295a23faafe635527787ed6c3912caad2762f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 048/150] fix: destroying a plan sequence leaked its elements

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From 438f8221a112364d9ed2a0c354c31da562efaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 049/150] fix: drawing a grid left its indices in the local
 memory region

---
 src/amino_gl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index 02195c3..d10e6c5 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -883,7 +883,8 @@ AA_API void aa_geom_gl_buffers_init_grid (
 
     tri_mesh( &geom->base, mesh );
 
-    aa_mem_region_local_pop(values);
+    /* indices were allocated first */
+    aa_mem_region_local_pop(indices);
     aa_rx_mesh_destroy(mesh);
 }
 
-- 
2.43.0


From a336711ca60f846b893178e0fbff57196bf75c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:19 +0000
Subject: [PATCH 050/150] fix: camera input raced with threads that use the
 window's camera

---
 include/amino/rx/scene_sdl_internal.h | 14 ++++++++++++++
 src/amino_sdl.c                       | 17 +++++++++++++++++
 src/rx/sdl_win.c                      | 15 +++++++++++++--
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/amino/rx/scene_sdl_internal.h b/include/amino/rx/scene_sdl_internal.h
index bbcfc3b..f3cab8f 100644
--- a/include/amino/rx/scene_sdl_internal.h
+++ b/include/amino/rx/scene_sdl_internal.h
@@ -55,6 +55,20 @@ aa_sdl_handle_event( const SDL_Event *event,
 AA_API void
 aa_sdl_ui_setup();
 
+/**
+ * Display loop that holds a lock while an input event changes the
+ * globals.
+ */
+AA_API void
+aa_sdl_display_loop_lock(
+    SDL_Window* window,
+    struct aa_gl_globals * globals,
+    aa_sdl_display_fun display,
+    void *context,
+    void (*lock)(void *lock_cx),
+    void (*unlock)(void *lock_cx),
+    void *lock_cx );
+
 
 AA_API void
 aa_sdl_dx( const double dx[6], int enable );
diff --git a/src/amino_sdl.c b/src/amino_sdl.c
index dea0fb9..cb8df20 100644
--- a/src/amino_sdl.c
+++ b/src/amino_sdl.c
@@ -479,6 +479,19 @@ AA_API void aa_sdl_display_loop(
     struct aa_gl_globals * globals,
     aa_sdl_display_fun display,
     void *context )
+{
+    aa_sdl_display_loop_lock( window, globals, display, context,
+                              NULL, NULL, NULL );
+}
+
+AA_API void aa_sdl_display_loop_lock(
+    SDL_Window* window,
+    struct aa_gl_globals * globals,
+    aa_sdl_display_fun display,
+    void *context,
+    void (*lock)(void *lock_cx),
+    void (*unlock)(void *lock_cx),
+    void *lock_cx )
 {
     struct timespec delta = aa_tm_sec2timespec( 1.0 / globals->fps );
     struct timespec next;
@@ -524,7 +537,9 @@ AA_API void aa_sdl_display_loop(
             params.event = &e;
             if( r ) {
                 if( aa_sdl_handle_event( &e, &params) ) {
+                    if( lock ) lock(lock_cx);
                     aa_sdl_scroll_event(globals, &params.update, &e);
+                    if( unlock ) unlock(lock_cx);
                 }
             }
         }
@@ -544,7 +559,9 @@ AA_API void aa_sdl_display_loop(
 
             /* Only use the spnav if focused */
             if( focus && f_key ) {
+                if( lock ) lock(lock_cx);
                 aa_spnav_scroll(spnav_axis, globals, &params.update);
+                if( unlock ) unlock(lock_cx);
             }
 
             if( focus && x_key ) {
diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 04bb13e..45d88eb 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -904,6 +904,16 @@ AA_API void aa_rx_win_run( )
     s_run_loop();
 }
 
+static void win_lock_cb( void *win )
+{
+    aa_rx_win_lock( (struct aa_rx_win*)win );
+}
+
+static void win_unlock_cb( void *win )
+{
+    aa_rx_win_unlock( (struct aa_rx_win*)win );
+}
+
 static void s_run_loop( void )
 {
     /* Wait for window creation */
@@ -944,8 +954,9 @@ static void s_run_loop( void )
         int stop = 0;
         int stop_on_quit = 0;
         do {
-            aa_sdl_display_loop( win->window, win->gl_globals,
-                                 win_display, win );
+            aa_sdl_display_loop_lock( win->window, win->gl_globals,
+                                      win_display, win,
+                                      win_lock_cb, win_unlock_cb, win );
             aa_rx_win_lock(win);
             stop = win->stop;
             stop_on_quit = win->stop_on_quit;
-- 
2.43.0


From 3230cfd1ad34b6f0827672a5d0986d0a0605cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 051/150] fix: workspace control of a new scene started from an
 unset reference pose

---
 src/rx/sdl_win.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 45d88eb..5022d11 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -369,6 +369,7 @@ struct default_display_cx {
     const struct aa_rx_sg_sub *sg_sub;
     struct aa_rx_win *win;
     double E_ref[7];
+    int have_ref;
 };
 
 static void destroy_default ( void *cx_ ) {
@@ -399,6 +400,12 @@ workspace_control(
     aa_rx_frame_id id_ee = aa_rx_sg_sub_frame( ssg, n_sq - 1 );
     double *Ea = TF_abs + 7*id_ee;
 
+    /* No reference yet in a new scene */
+    if( ! cx->have_ref ) {
+        AA_MEM_CPY(cx->E_ref, Ea, 7);
+        cx->have_ref = 1;
+    }
+
     if( s_dx_enable ) {
         double *J = AA_MEM_REGION_NEW_N(reg, double, 6*n_sq);
         double *J_star = AA_MEM_REGION_NEW_N(reg, double, 6*n_sq);
-- 
2.43.0


From f3bcbe35e0860d6cc473b75feaf28fd4e21680fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 052/150] fix: collision geometry of scaled cylinders was
 misplaced

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index d49404d..7ed5ab5 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -395,7 +395,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(geom));
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 28dbfbdf9261793fb23a1b70dbcff0f53c7db57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 053/150] fix: collision checks used the bounding boxes of the
 initial poses

---
 src/rx/amino_fcl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 7ed5ab5..80a9490 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -403,6 +403,8 @@ s_update_tf( const struct aa_rx_cl *cl,
         } else {
             obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );
         }
+        /* The broadphase uses the bounding box */
+        obj->computeAABB();
     }
     cl->manager->update();
 
-- 
2.43.0


From 9a555ad9928ea1db76a35521b427c86d85f46ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 054/150] fix: filling a collision set cleared entries missing
 from the source

---
 src/rx/collision_set.cpp                   | 6 ++++--
 src/rx/mp/scene_state_validity_checker.cpp | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..14348c9 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,10 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    assert( dst->v->size() == src->v->size() );
+    for( size_t i = 0; i < src->v->size(); i ++ ) {
+        if( (*src->v)[i] ) (*dst->v)[i] = 1;
+    }
 }
 
 AA_API int
diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1ad7daf..1594d8f 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -95,7 +95,14 @@ void sgStateValidityChecker::set_start( size_t n_q, double *q_initial)
 
 void sgStateValidityChecker::allow( )
 {
-    aa_rx_cl_allow_set( cl, getTypedStateSpace()->allowed );
+    /* Entries may be both newly allowed and no longer allowed */
+    const struct aa_rx_cl_set *allowed = getTypedStateSpace()->allowed;
+    aa_rx_frame_id n = (aa_rx_frame_id)getTypedStateSpace()->frame_count();
+    for( aa_rx_frame_id i = 0; i < n; i ++ ) {
+        for( aa_rx_frame_id j = 0; j < i; j ++ ) {
+            aa_rx_cl_allow( cl, i, j, aa_rx_cl_set_get(allowed, i, j) );
+        }
+    }
 }
 
 } /* namespace amino */
-- 
2.43.0


From 6ae7a837476b951179db40aeb56a74812ea7d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:18 +0000
Subject: [PATCH 055/150] fix: initialising collisions of scene graphs that
 share geometry raced

---
 src/rx/amino_fcl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 80a9490..b56c09e 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -57,6 +57,7 @@
 
 
 static pthread_once_t cl_once = PTHREAD_ONCE_INIT;
+static pthread_mutex_t cl_geom_mutex = PTHREAD_MUTEX_INITIALIZER;
 
 static void
 cl_init_once( void )
@@ -223,7 +224,10 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
 
     aa_rx_cl_init();
 
+    /* Copied scene graphs share geometry */
+    pthread_mutex_lock( &cl_geom_mutex );
     aa_rx_sg_map_geom( scene_graph, &cl_init_helper, scene_graph );
+    pthread_mutex_unlock( &cl_geom_mutex );
 
     amino::SceneGraph *sg = scene_graph->sg;
     sg->index_allowed();
-- 
2.43.0


From ad89a88be3f55a53ea1ef9d5635c13cc2dcbe36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:59 +0000
Subject: [PATCH 056/150] fix: distance of overlapping spheres and meshes was
 undefined

---
 src/rx/amino_fcl.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index b56c09e..72f5434 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -657,17 +657,27 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
 
     struct dist_ent *ent = s_get_dist_ent(data, id1, id2);
 
-    ::amino::fcl::DistanceRequest request(true);
-    ::amino::fcl::DistanceResult result;
-    ::fcl::distance(o1, o2, request, result);
-
-    double min_dist = result.min_distance;
-    double p0[3];
-    double p1[3];
-
-    for( size_t i = 0; i < 3; i ++){
-        p0[i]= result.nearest_points[0][i];
-        p1[i]= result.nearest_points[1][i];
+    double min_dist = 0;
+    double p0[3] = {0};
+    double p1[3] = {0};
+
+    // FCL leaves the distance of colliding objects undefined, so check
+    // for collision first.
+    ::amino::fcl::CollisionRequest colRequest(1, true);
+    ::amino::fcl::CollisionResult colResult;
+    ::fcl::collide(o1, o2, colRequest, colResult);
+
+    if( ! colResult.isCollision() ) {
+        ::amino::fcl::DistanceRequest request(true);
+        ::amino::fcl::DistanceResult result;
+        ::fcl::distance(o1, o2, request, result);
+
+        min_dist = result.min_distance;
+
+        for( size_t i = 0; i < 3; i ++){
+            p0[i]= result.nearest_points[0][i];
+            p1[i]= result.nearest_points[1][i];
+        }
     }
 
     if( min_dist <= 0 ) {
@@ -675,10 +685,6 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
         data->in_collision = 1;
 
         // If we're in collision lets figure out where we are colliding
-        ::amino::fcl::CollisionRequest colRequest(1, true);
-        ::amino::fcl::CollisionResult colResult;
-        ::fcl::collide(o1, o2, colRequest, colResult);
-
         size_t numContacts = colResult.numContacts();
         for( size_t i = 0; i < numContacts; i++ ){
 
-- 
2.43.0


From 4fad5f64ab91e212b0c5a67e6d960d7b1385f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 057/150] fix: allowing a configuration moved the joints that
 are not planned for

---
 src/rx/mp/scene_ompl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6e0acd9..ab633df 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -109,6 +109,7 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
 {
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
+    mp->validity_checker->set_start(n_all, q_all);
 
     // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
@@ -134,7 +135,7 @@ aa_rx_mp_allow_config( struct aa_rx_mp *mp,
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     ss->allow_config(q_all);
 
-    mp->validity_checker->set_start(n_all, q_all);
+    mp->validity_checker->allow();
 }
 
 
-- 
2.43.0


From 20f7bff042773d2dc23d3d1a2cfcc912d61e6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 058/150] fix: planning again returned paths of earlier starts
 and goals

---
 src/rx/mp/scene_ompl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index ab633df..687180d 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -111,13 +111,13 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
     aa_rx_mp_allow_config(mp, n_all, q_all);
     mp->validity_checker->set_start(n_all, q_all);
 
-    // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
 
-    /* Add Start State */
+    /* Set Start State, replacing any previous one */
     amino::sgSpaceInformation::ScopedStateType state(si);
     ss->extract_state( q_all, state.get() );
+    mp->problem_definition->clearStartStates();
     mp->problem_definition->addStartState(state);
 
 
@@ -221,6 +221,10 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
         ompl::base::PlannerPtr(new ompl::geometric::RRTConnect(si)) :
         mp->planner;
 
+    /* Discard the results of previous plans */
+    pdef->clearSolutionPaths();
+    planner->clear();
+
     planner->setProblemDefinition(pdef);
     try {
         if( mp->lazy_samples ) {
-- 
2.43.0


From 0b8015d7976e884a2c0b8dd924b76c8c5b67ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 059/150] fix: a joint goal after a workspace goal left a
 dangling sampler

---
 src/rx/mp/scene_ompl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 687180d..0b9cd47 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -166,6 +166,7 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     mp->validity_checker->allow();
     if( si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
+        mp->lazy_samples = NULL;
         return AA_RX_OK;
     } else {
         return AA_RX_INVALID_STATE;
-- 
2.43.0


From 939c5e5b76add3f248ebccc6725e686bc5b49b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:22 +0000
Subject: [PATCH 060/150] fix: the planner and the sampling thread shared one
 scratch region

---
 include/amino/rx/ompl/scene_state_space.h | 4 +---
 src/rx/mp/scene_state_space.cpp           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/amino/rx/ompl/scene_state_space.h b/include/amino/rx/ompl/scene_state_space.h
index b3776eb..0cbfd98 100644
--- a/include/amino/rx/ompl/scene_state_space.h
+++ b/include/amino/rx/ompl/scene_state_space.h
@@ -75,7 +75,6 @@ public:
      * Destroy the state space.
      */
     virtual ~sgStateSpace() {
-        aa_mem_region_destroy(&reg);
         aa_rx_cl_set_destroy(allowed);
     }
 
@@ -147,13 +146,12 @@ public:
     double * get_tf_abs( const ompl::base::State *state);
 
     void region_pop( void * ptr) {
-        aa_mem_region_pop(&this->reg, ptr);
+        aa_mem_region_pop(aa_mem_region_local_get(), ptr);
     }
 
     const aa_rx_sg *scene_graph;
     const aa_rx_sg_sub *sub_scene_graph;
     struct aa_rx_cl_set *allowed;
-    struct aa_mem_region reg;
 };
 
 typedef ::ompl::base::TypedSpaceInformation<amino::sgStateSpace> sgSpaceInformation;
diff --git a/src/rx/mp/scene_state_space.cpp b/src/rx/mp/scene_state_space.cpp
index 0d6596a..020ca1a 100644
--- a/src/rx/mp/scene_state_space.cpp
+++ b/src/rx/mp/scene_state_space.cpp
@@ -56,8 +56,6 @@ sgStateSpace::sgStateSpace( const struct aa_rx_sg_sub *sub_sg ) :
         ompl::base::RealVectorStateSpace((unsigned)aa_rx_sg_sub_config_count(sub_sg)),
         allowed(aa_rx_cl_set_create(scene_graph)) {
 
-        aa_mem_region_init(&reg, 4000);
-
         // TODO: get actual bounds
         size_t n_configs = config_count_subset();
         ompl::base::RealVectorBounds vb( (unsigned int)n_configs );
@@ -110,7 +108,7 @@ double * sgStateSpace::get_tf_abs( const ompl::base::State *state_, const double
 
     // Find TFs
     double TF_rel[7*n_f];
-    double *TF_abs = AA_MEM_REGION_NEW_N(&this->reg, double, 7*n_f);
+    double *TF_abs = AA_MEM_REGION_LOCAL_NEW_N(double, 7*n_f);
     aa_rx_sg_tf( this->scene_graph, n_q, q,
                  n_f,
                  TF_rel, 7,
-- 
2.43.0


From c5c0dd661fafdc568ece8ed3dca1b1d85399918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:52 +0000
Subject: [PATCH 061/150] fix: planning to a workspace goal without a start
 dereferenced NULL

---
 src/rx/mp/scene_ompl.cpp     | 5 +++++
 src/rx/mp/workspace_goal.cpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 0b9cd47..3c32478 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -216,6 +216,10 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
     *n_path = 0;
     *p_path_all = NULL;
 
+    if( NULL == mp->config_start ) {
+        return AA_RX_NO_SOLUTION;
+    }
+
     ompl::base::ProblemDefinitionPtr &pdef = mp->problem_definition;
 
     ompl::base::PlannerPtr planner = (NULL == mp->planner.get()) ?
@@ -240,6 +244,7 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
             mp->lazy_samples->stopSampling();
         }
     } catch(...) {
+        if( mp->lazy_samples ) mp->lazy_samples->stopSampling();
         return AA_RX_NO_SOLUTION;
     }
     if( pdef->hasExactSolution() ) {
diff --git a/src/rx/mp/workspace_goal.cpp b/src/rx/mp/workspace_goal.cpp
index 38176af..bccd9f7 100644
--- a/src/rx/mp/workspace_goal.cpp
+++ b/src/rx/mp/workspace_goal.cpp
@@ -139,6 +139,8 @@ sgWorkspaceGoal::sgWorkspaceGoal (const sgSpaceInformation::Ptr &si,
 
 sgWorkspaceGoal::~sgWorkspaceGoal ()
 {
+    /* The sampling thread uses everything released here */
+    stopSampling();
     typed_si->freeState(this->seed);
     aa_rx_ik_parm_destroy(this->ko);
     aa_rx_ik_cx_destroy(this->ik_cx);
-- 
2.43.0


From 41587f6a65e7491916fb2d0b1747ab9f41b90722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 062/150] fix: goals set before the start were checked at
 uninitialised joints

---
 src/rx/mp/scene_state_validity_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1594d8f..107400c 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -52,7 +52,7 @@ namespace amino {
 sgStateValidityChecker::sgStateValidityChecker(sgSpaceInformation *si)
     :
     TypedStateValidityChecker(si),
-    q_all(new double[getTypedStateSpace()->config_count_all()]),
+    q_all(new double[getTypedStateSpace()->config_count_all()]()),
     cl(aa_rx_cl_create(getTypedStateSpace()->scene_graph)),
     collisions(NULL)
 {
-- 
2.43.0


From c6d5431139123727ae4745dba4086654f4c37f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 063/150] fix: the SQP inverse kinematics ignored
 max_iterations

---
 src/rx/ik_nlopt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..4088b30 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -46,6 +46,7 @@
  *
  */
 
+#include <limits.h>
 #include <nlopt.h>
 #include "amino.h"
 #include "amino/diffeq.h"
@@ -606,6 +607,13 @@ s_ik_nlopt( struct kin_solve_cx *cx,
     if( cx->opts->tol_dq >= 0 )
         nlopt_set_xtol_rel(opt, cx->opts->tol_dq );
 
+    /* Bound the work: the line search may creep on a poorly
+     * conditioned or unreachable goal.  (For NLOPT, <=0 means no limit) */
+    {
+        size_t max = AA_MAX( cx->opts->max_iterations, (size_t)1 );
+        nlopt_set_maxeval(opt, (int)AA_MIN(max, (size_t)INT_MAX) );
+    }
+
     double *lb = AA_MEM_REGION_NEW_N(reg,double,n_sub);
     double *ub = AA_MEM_REGION_NEW_N(reg,double,n_sub);
     { // bounds
-- 
2.43.0


From 854fa205d06bcdf74300ae63728bab5b94cf5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 064/150] fix: aa_rx_ik_parm_set_algo was declared but not
 defined

---
 src/rx/ik_opt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..ffa6bef 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -98,6 +98,13 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 
 AA_DEF_SETTER( aa_rx_ik_parm, enum aa_rx_ik_algo, ik_algo )
 
+AA_API void
+aa_rx_ik_parm_set_algo( struct aa_rx_ik_parm *parm,
+                        enum aa_rx_ik_algo algo )
+{
+    aa_rx_ik_parm_set_ik_algo(parm, algo);
+}
+
 AA_DEF_SETTER( aa_rx_ik_parm, double, dt )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_angle )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_trans )
-- 
2.43.0


From eb43abb33e7519f8ce4106afa08a4d60ebdec1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 065/150] fix: refusing an inverse kinematics request kept
 scratch memory

---
 src/rx/scene_ik.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..aab1dc4 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -223,6 +223,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
 {
     if( aa_rx_sg_sub_config_count(context->ssg) != q->len
         || AA_RX_TF_LEN != TF->rows
+        || 1 != TF->cols  /* only chains */
         )
     {
         return AA_RX_INVALID_PARAMETER;
@@ -232,10 +233,6 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
     struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
                                                      aa_mem_region_local_get() );
 
-    if( 1 != TF->cols )
-    {   /* only chains */
-        return AA_RX_INVALID_PARAMETER;
-    }
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From 0c1534671f4d54ffcb505c0cd39a1635cdf1b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 066/150] fix: checking a solution used poses that were never
 computed

---
 src/rx/scene_ik.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index aab1dc4..98ebe45 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -395,7 +395,7 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
 
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
-    aa_rx_fk_sub(fk, cx->ssg, q_sub);
+    aa_rx_fk_all(fk, q_all);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
     int r = s_check(cx,TF, E_act);
-- 
2.43.0


From a9428910f14299a1c1904d3c41f91d84b63f8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 067/150] fix: the seed of inverse kinematics parameters was
 never released

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index ffa6bef..80dce11 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0


From 7b4d28b36cffc260233d83144b7466821bc9bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 068/150] fix: a seed beyond the joint limits could be returned
 as the solution

---
 src/rx/ik_nlopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 4088b30..c3f8646 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -624,6 +624,9 @@ s_ik_nlopt( struct kin_solve_cx *cx,
                 lb[i] = -DBL_MAX;
                 ub[i] = DBL_MAX;
             }
+            /* The optimizer starts within the bounds */
+            double *q_i = cx->q_sub->data + i;
+            *q_i = aa_fclamp( *q_i, lb[i], ub[i] );
         }
     }
 
-- 
2.43.0


From 48c9660a7414b31488110747b565dd4f338fea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 069/150] fix: the finite difference pose error overran its
 quaternions

---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index c3f8646..24e7943 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -324,7 +324,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From 46c1cf74db8d19949249d91141a4542fe4881bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 070/150] fix: restarting the Jacobian inverse kinematics ended
 after one iteration

---
 src/rx/ik_jacobian.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/ik_jacobian.c b/src/rx/ik_jacobian.c
index 0685d93..af3677b 100644
--- a/src/rx/ik_jacobian.c
+++ b/src/rx/ik_jacobian.c
@@ -130,6 +130,9 @@ s_ik_jpinv( struct kin_solve_cx *cx,
         return AA_RX_INVALID_PARAMETER;
     }
 
+    /* Iterations are counted anew after a restart */
+    cx->iteration = 0;
+
     struct aa_ode_sol_opts sol_opts;
     sol_opts.adapt_tol_dec = cx->opts->tol_dq / 16;
     sol_opts.adapt_tol_inc = cx->opts->tol_dq / 2;
-- 
2.43.0


From 5e49c2f6370797f6c5a8b9bc31365cbe73636002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 071/150] fix: the Jacobian of the dual quaternion logarithm
 cancelled at small angles

---
 src/tf/quat_pde.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tf/quat_pde.c b/src/tf/quat_pde.c
index e7efbd3..1eada98 100644
--- a/src/tf/quat_pde.c
+++ b/src/tf/quat_pde.c
@@ -132,7 +132,8 @@ aa_tf_duqu_ln_jac(const double S[8], struct aa_dmat *J )
     double theta = atan2(v_norm,w);
 
     double zeta, eta, mu;
-    if( theta < DBL_EPSILON )  {
+    /* The closed forms cancel: zeta to (theta^2) and mu to (theta^4) */
+    if( theta < 1e-2 )  {
         double q3 = qq*q_norm;
         double q5 = q4*q_norm;
         eta = aa_tf_invsinc_series2(theta*theta)/q_norm;
-- 
2.43.0


From fc23900567dfe1ae0037bb48edab34f5f5fea9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:31 +0000
Subject: [PATCH 072/150] fix: aa_opt_lp_clp was declared for C but defined
 with C++ linkage

---
 src/opt/opt_clp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..bc793fa 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -37,7 +37,7 @@
 
 
 #include "amino.h"
-//#include "amino/opt/lp.h"
+#include "amino/opt/lp.h"
 #include "amino/opt/opt.h"
 #include "opt_internal.h"
 
-- 
2.43.0


From 09dc0e06c1eb9c9164a640d0b3887601a9b1b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:14 +0000
Subject: [PATCH 073/150] fix: the sparse GLPK constructor leaked a context

---
 src/opt/opt_glpk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..4b81480 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -347,7 +347,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
-- 
2.43.0


From 96cfd2754cad79846003d64c14cc119c1ac00ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:14 +0000
Subject: [PATCH 074/150] fix: GLPK contexts reported infeasible and unbounded
 programs as solved

---
 src/opt/opt_glpk.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 4b81480..bfad4bf 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -71,12 +71,20 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     if( nb + ni > 0 ) {
         glp_simplex( lp, NULL );
         r = glp_intopt( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_mip_status(lp) ) {
+            /* infeasible or unbounded */
+            r = glp_mip_status(lp);
+        }
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
         r = glp_simplex( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) {
+            /* infeasible or unbounded */
+            r = glp_get_status(lp);
+        }
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_get_col_prim( lp, j+1 );
-- 
2.43.0


From f2bc7bf6e172b1bcfd52400411e698078d725d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 075/150] fix: lp_solve contexts could not change, free or
 equate constraint bounds

---
 src/opt/opt_lpsolve.c | 138 ++++++++++--------------------------------
 1 file changed, 33 insertions(+), 105 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..be0d524 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -180,41 +180,31 @@ s_set_bnd( struct aa_opt_cx *cx, size_t n,
     return 0;
 }
 
-static int s_count_rows( size_t m,
-                         const double *b_lower, const double *b_upper )
+/* Set type and bounds of row ilp.  Each constraint is one row, whatever
+ * its bounds are, so that the bounds can change later. */
+static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
 {
-    int row_count = 0;
-    /* Count constraints */
-    for( size_t i = 0; i < m; i ++ ) {
-        int lb = aa_opt_is_lbound(b_lower[i]);
-        int ub = aa_opt_is_ubound(b_upper[i]);
-        if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
-                row_count += 2;
-            } else {
-                row_count ++;
-            }
-        }
-    }
-    return row_count;
-}
-
-static int s_set_row( lprec *lp, int con_type,
-                      size_t n, const double *A, size_t incA,
-                      int ilp, double val )
-{
-    // fill row
-    for( size_t j = 0; j < n; j ++ ) {
-        double v = A[j*incA];
-        int col = 1 + (int)j;
-        set_mat( lp, ilp, col, v );
+    int lb = aa_opt_is_lbound(l);
+    int ub = aa_opt_is_ubound(u);
+    if( lb && ub && aa_feq(l,u,0) ) {
+        // equality
+        return set_constr_type(lp, ilp, EQ) && set_rh(lp, ilp, u);
+    } else if ( aa_opt_is_leq(lb,ub) ) {
+        // less than
+        return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, u);
+    } else if ( aa_opt_is_geq(lb,ub) ) {
+        // greater than
+        return set_constr_type(lp, ilp, GE) && set_rh(lp, ilp, l);
+    } else if ( aa_opt_is_bound(lb,ub) ) {
+        return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, u)
+            && set_rh_range(lp, ilp, u - l);
+    } else {
+        // free
+        return set_constr_type(lp, ilp, LE)
+            && set_rh(lp, ilp, get_infinite(lp));
     }
-    // set cstr
-    set_rh(lp,ilp,val);
-    return  set_constr_type( lp, ilp, con_type );
 }
 
-
 static int
 s_set_cstr_gm( struct aa_opt_cx *cx,
                size_t m, size_t n,
@@ -222,60 +212,20 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
                const double *b_lower, const double *b_upper )
 {
     lprec *lp = (lprec*)cx->data;
-    int row_count = s_count_rows(m, b_lower, b_upper);
-
 
-    int ilp = 1;
     for( size_t i = 0; i < m; i ++ ) {
-        double rh = 0;
-        int con_type = 0;
-        {
-            double l=b_lower[i], u=b_upper[i];
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if( !aa_opt_is_free(lb,ub) ) {
-                if( aa_feq(l,u,0) ) {
-                    // equality
-                    rh = u;
-                    con_type = EQ;
-                } else if ( aa_opt_is_leq(lb,ub) ) {
-                    // less than
-                    rh = u;
-                    con_type = LE;
-                } else if ( aa_opt_is_geq(lb,ub) ) {
-                    // greater than
-                    rh = l;
-                    con_type = GE;
-                } else if (aa_opt_is_bound(lb,ub) ) {
-                    // leq
-                    if( ! s_set_row( lp, LE,
-                                     n, A+i, ldA,
-                                     ilp, u ) ) {
-                        goto ERROR;
-                    }
-                    ilp++;
-                    // ge
-                    rh = l;
-                    con_type = GE;
-                } else {
-                    assert(0);
-                    goto ERROR;
-                }
-            }
+        int ilp = 1 + (int)i;
+        if( ! s_set_row_bnd( lp, ilp, b_lower[i], b_upper[i] ) ) {
+            return -1;
         }
-        if( ! s_set_row( lp, con_type,
-                         n, A+i, ldA,
-                         ilp, rh ) ) {
-            goto ERROR;
+        for( size_t j = 0; j < n; j ++ ) {
+            if( ! set_mat( lp, ilp, 1 + (int)j, AA_MATREF(A,ldA,i,j) ) ) {
+                return -1;
+            }
         }
-        ilp++;
     }
-    assert( ilp == row_count + 1 );
 
     return 0;
-
-ERROR:
-    return -1;
 }
 
 
@@ -325,8 +275,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     //int mi = (int)m;
     int ni = (int)n;
 
-    int row_count = s_count_rows(m, b_lower, b_upper);
-    lprec *lp = make_lp(row_count, ni);
+    lprec *lp = make_lp((int)m, ni);
     if( NULL == lp ) goto ERROR;
     set_verbose(lp, 1);
 
@@ -371,7 +320,6 @@ aa_opt_lpsolve_crscreate (
     /* A, b_l, b_u */
     set_add_rowmode(lp, TRUE);
     for( int i = 0; i < mi; i ++ ) {
-        double l=b_lower[i], u=b_upper[i];
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
         int count = end - start;
@@ -381,32 +329,12 @@ aa_opt_lpsolve_crscreate (
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
         }
-        double rh;
-        int con_type;
-        if( aa_feq(l,u,0) ) {
-            // equality
-            con_type = EQ;
-            rh = u;
-        } else {
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if ( aa_opt_is_leq(lb,ub) )  {
-                // less than
-                con_type = LE;
-                rh = u;
-            } else if ( aa_opt_is_geq(lb,ub) )  {
-                rh = l;
-                con_type = GE;
-            } else {
-                // leq
-                add_constraintex(lp, count, vals, inds, LE, u);
-                con_type = GE;
-                rh = l;
-            }
-        }
-        add_constraintex(lp, count, vals, inds, con_type, rh);
+        add_constraintex(lp, count, vals, inds, LE, get_infinite(lp));
     }
     set_add_rowmode(lp, FALSE);
+    for( int i = 0; i < mi; i ++ ) {
+        s_set_row_bnd( lp, i+1, b_lower[i], b_upper[i] );
+    }
 
     return s_finish(m,n,lp,
                     c, x_lower, x_upper);
-- 
2.43.0


From 65d037041c26b790e42320d062cc3ee4abc3ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 076/150] fix: the dense lp_solve constructor leaked a context

---
 src/opt/opt_lpsolve.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index be0d524..010c983 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -288,9 +288,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_obj(cx, n, c );
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
-
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
-- 
2.43.0


From 36abbda35d450deb490532662b8ccaff0d5add87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 077/150] fix: GLPK contexts printed from all threads but the
 first

---
 src/opt/opt_glpk.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index bfad4bf..1ab44a3 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -51,6 +51,15 @@ static void s_glp_init_once(void)
     glp_term_out(GLP_OFF);
 }
 
+static int s_simplex( glp_prob *lp )
+{
+    /* The terminal setting of s_glp_init_once() is thread-local */
+    glp_smcp parm;
+    glp_init_smcp(&parm);
+    parm.msg_lev = GLP_MSG_OFF;
+    return glp_simplex( lp, &parm );
+}
+
 static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
     glp_prob *lp = (glp_prob*)(cx->data);
@@ -69,8 +78,11 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int nb = glp_get_num_bin(lp);
     int ni = glp_get_num_int(lp);
     if( nb + ni > 0 ) {
-        glp_simplex( lp, NULL );
-        r = glp_intopt( lp, NULL );
+        glp_iocp parm;
+        glp_init_iocp(&parm);
+        parm.msg_lev = GLP_MSG_OFF;
+        s_simplex( lp );
+        r = glp_intopt( lp, &parm );
         if( 0 == r && GLP_OPT != glp_mip_status(lp) ) {
             /* infeasible or unbounded */
             r = glp_mip_status(lp);
@@ -80,7 +92,7 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
-        r = glp_simplex( lp, NULL );
+        r = s_simplex( lp );
         if( 0 == r && GLP_OPT != glp_get_status(lp) ) {
             /* infeasible or unbounded */
             r = glp_get_status(lp);
-- 
2.43.0


From 25bc818bcf2a0681c85e43ac58b12b3e9e08456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 078/150] fix: GLPK contexts failed when new constraints made
 the old basis singular

---
 src/opt/opt_glpk.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 1ab44a3..275c696 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -57,7 +57,13 @@ static int s_simplex( glp_prob *lp )
     glp_smcp parm;
     glp_init_smcp(&parm);
     parm.msg_lev = GLP_MSG_OFF;
-    return glp_simplex( lp, &parm );
+    int r = glp_simplex( lp, &parm );
+    if( GLP_EBADB == r || GLP_ESING == r || GLP_ECOND == r ) {
+        /* The constraints changed and the old basis is of no use */
+        glp_std_basis( lp );
+        r = glp_simplex( lp, &parm );
+    }
+    return r;
 }
 
 static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
-- 
2.43.0


From 6bca328710bf4ac7bf2d67152ba702162c2299e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:49 +0000
Subject: [PATCH 079/150] fix: the sparse lp_solve constructor reordered the
 caller's matrix

---
 src/opt/opt_lpsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 010c983..ee04de5 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -321,11 +321,12 @@ aa_opt_lpsolve_crscreate (
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
         int count = end - start;
-        double *vals = (double*)A_values + start;
+        double vals[count];
         int *raw_inds = (int*)A_cols + start;
         int inds[count];
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
+            vals[j] = A_values[start + j]; // lp_solve sorts in place
         }
         add_constraintex(lp, count, vals, inds, LE, get_infinite(lp));
     }
-- 
2.43.0


From d4a3efc1636bda902684b6b0419d4cd47b01b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 080/150] fix: GLPK aborted on an old basis that new
 constraints made singular

---
 src/opt/opt_glpk.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 275c696..7ef564a 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -57,13 +57,7 @@ static int s_simplex( glp_prob *lp )
     glp_smcp parm;
     glp_init_smcp(&parm);
     parm.msg_lev = GLP_MSG_OFF;
-    int r = glp_simplex( lp, &parm );
-    if( GLP_EBADB == r || GLP_ESING == r || GLP_ECOND == r ) {
-        /* The constraints changed and the old basis is of no use */
-        glp_std_basis( lp );
-        r = glp_simplex( lp, &parm );
-    }
-    return r;
+    return glp_simplex( lp, &parm );
 }
 
 static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
@@ -257,6 +251,9 @@ s_set_cstr_mat_gm( struct aa_opt_cx *cx,
                          rows-1, AA_MATCOL(A,ldA,(size_t)j) - 1 );
     }
 
+    /* The old basis may be singular for the new constraints, which
+     * glp_simplex() reports as an error or even aborts on. */
+    glp_std_basis( lp );
 
     return 0;
 }
-- 
2.43.0


From a388ade396c884b36b1f7769863113d65c6aa271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 081/150] fix: lp_solve contexts reported some unbounded
 programs as solved

---
 src/opt/opt_lpsolve.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index ee04de5..8db2c96 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -94,6 +94,13 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     /* result */
     get_variables(lp,x);
 
+    if( OPTIMAL == r ) {
+        /* lp_solve may present its infinity as an optimal value */
+        for( size_t j = 0; j < n; j ++ ) {
+            if( is_infinite(lp, x[j]) ) r = UNBOUNDED;
+        }
+    }
+
     return r;
 }
 int s_destroy( struct aa_opt_cx *cx )
-- 
2.43.0


From c003a5e16dd4a8ab431390dd9a160fd575c21feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:53 +0000
Subject: [PATCH 082/150] fix: CLP and lp_solve contexts missed the optimum
 after changes

---
 src/opt/opt_clp.cpp   | 14 ++++++++++++--
 src/opt/opt_lpsolve.c | 23 +++++++++++++++--------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index bc793fa..901a44c 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -54,8 +54,18 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int r;
 
 
+    /* Solve afresh: what Clp keeps from previous solves makes it miss the
+     * optimum after constraints, bounds, or objective have changed */
+    SolverType S;
+    S.setLogLevel( M->logLevel() );
+
     try {
-        r = M->initialSolve();
+        S.loadProblem( *M->matrix(),
+                       M->getColLower(), M->getColUpper(),
+                       M->getObjCoefficients(),
+                       M->getRowLower(), M->getRowUpper() );
+        S.setOptimizationDirection( M->optimizationDirection() );
+        r = S.initialSolve();
     } catch (CoinError e) {
         e.print();
         return -1;
@@ -64,7 +74,7 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     }
 
     /* Result */
-    AA_MEM_CPY( x, M->getColSolution(), n );
+    AA_MEM_CPY( x, S.getColSolution(), n );
 
     return r;
 }
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 8db2c96..2cb3469 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -88,6 +88,9 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
     lprec *lp = (lprec*)cx->data;
+    /* Start afresh: bounds and constraints may have changed, and the old
+     * basis can hold variables at bounds that are gone */
+    default_basis(lp);
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
@@ -206,9 +209,8 @@ static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
         return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, u)
             && set_rh_range(lp, ilp, u - l);
     } else {
-        // free
-        return set_constr_type(lp, ilp, LE)
-            && set_rh(lp, ilp, get_infinite(lp));
+        // free, the row has no coefficients
+        return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, 0);
     }
 }
 
@@ -225,8 +227,11 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
         if( ! s_set_row_bnd( lp, ilp, b_lower[i], b_upper[i] ) ) {
             return -1;
         }
+        int is_free = aa_opt_is_free( aa_opt_is_lbound(b_lower[i]),
+                                      aa_opt_is_ubound(b_upper[i]) );
         for( size_t j = 0; j < n; j ++ ) {
-            if( ! set_mat( lp, ilp, 1 + (int)j, AA_MATREF(A,ldA,i,j) ) ) {
+            double v = is_free ? 0 : AA_MATREF(A,ldA,i,j);
+            if( ! set_mat( lp, ilp, 1 + (int)j, v ) ) {
                 return -1;
             }
         }
@@ -327,15 +332,17 @@ aa_opt_lpsolve_crscreate (
     for( int i = 0; i < mi; i ++ ) {
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
-        int count = end - start;
-        double vals[count];
+        int is_free = aa_opt_is_free( aa_opt_is_lbound(b_lower[i]),
+                                      aa_opt_is_ubound(b_upper[i]) );
+        int count = is_free ? 0 : end - start;
+        double vals[count+1];
         int *raw_inds = (int*)A_cols + start;
-        int inds[count];
+        int inds[count+1];
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
             vals[j] = A_values[start + j]; // lp_solve sorts in place
         }
-        add_constraintex(lp, count, vals, inds, LE, get_infinite(lp));
+        add_constraintex(lp, count, vals, inds, LE, 0);
     }
     set_add_rowmode(lp, FALSE);
     for( int i = 0; i < mi; i ++ ) {
-- 
2.43.0


From 0dd48c0d0366ebc4480a99541cea569b0d251b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:20 +0000
Subject: [PATCH 083/150] fix: sparse lp_solve and CLP contexts printed solver
 reports

---
 src/opt/opt_clp.cpp   | 1 +
 src/opt/opt_lpsolve.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 901a44c..b95d031 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -326,6 +326,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 {
     ClpSimplex *pM = new ClpSimplex();
     ClpSimplex &M = *pM;
+    pM->setLogLevel(0); // shut up
     int rows[m];
     int mi = (int)m;
     int ni = (int)n;
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 2cb3469..7a60f69 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -325,6 +325,7 @@ aa_opt_lpsolve_crscreate (
     lprec *lp = make_lp(0, ni);
 
     if( NULL == lp ) return NULL;
+    set_verbose(lp, 1);
     set_maxim(lp);
 
     /* A, b_l, b_u */
-- 
2.43.0


From ccd8eab5703fd70b82ee930ecb9d9b77185b4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 084/150] fix: LC3 added the null space term to the wrong
 number of joints

---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From cd37a30728c6c7aa320012b843e62b2c4f4aa18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:14 +0000
Subject: [PATCH 085/150] fix: lp_solve contexts ignored contradictory bounds

---
 src/opt/opt_lpsolve.c | 52 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 7a60f69..292b2d9 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -88,11 +88,15 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
     lprec *lp = (lprec*)cx->data;
+    assert((int)n == get_Ncolumns(lp));
+    for( int j = 1; j <= (int)n; j ++ ) {
+        if( get_lowbo(lp,j) > get_upbo(lp,j) ) return INFEASIBLE;
+    }
+
     /* Start afresh: bounds and constraints may have changed, and the old
      * basis can hold variables at bounds that are gone */
     default_basis(lp);
     int r = solve(lp);
-    assert((int)n == get_Ncolumns(lp));
 
     /* result */
     get_variables(lp,x);
@@ -185,11 +189,25 @@ s_set_bnd( struct aa_opt_cx *cx, size_t n,
 {
     lprec *lp = (lprec*)cx->data;
     for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
+        if( x_lower[j] <= x_upper[j] ) {
+            set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
+        } else {
+            // set_bounds() refuses contradictory bounds
+            set_lowbo( lp, 1+(int)j, x_lower[j] );
+            set_upbo( lp, 1+(int)j, x_upper[j] );
+        }
     }
     return 0;
 }
 
+/* Rows with no bounds or contradictory bounds have no coefficients. */
+static int s_row_is_empty( double l, double u )
+{
+    int lb = aa_opt_is_lbound(l);
+    int ub = aa_opt_is_ubound(u);
+    return aa_opt_is_free(lb,ub) || (aa_opt_is_bound(lb,ub) && l > u);
+}
+
 /* Set type and bounds of row ilp.  Each constraint is one row, whatever
  * its bounds are, so that the bounds can change later. */
 static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
@@ -199,6 +217,9 @@ static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
     if( lb && ub && aa_feq(l,u,0) ) {
         // equality
         return set_constr_type(lp, ilp, EQ) && set_rh(lp, ilp, u);
+    } else if ( aa_opt_is_bound(lb,ub) && l > u ) {
+        // contradictory: 0 <= -1, set_rh_range() would exchange the bounds
+        return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, -1);
     } else if ( aa_opt_is_leq(lb,ub) ) {
         // less than
         return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, u);
@@ -209,7 +230,7 @@ static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
         return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, u)
             && set_rh_range(lp, ilp, u - l);
     } else {
-        // free, the row has no coefficients
+        // free
         return set_constr_type(lp, ilp, LE) && set_rh(lp, ilp, 0);
     }
 }
@@ -227,10 +248,9 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
         if( ! s_set_row_bnd( lp, ilp, b_lower[i], b_upper[i] ) ) {
             return -1;
         }
-        int is_free = aa_opt_is_free( aa_opt_is_lbound(b_lower[i]),
-                                      aa_opt_is_ubound(b_upper[i]) );
+        int is_empty = s_row_is_empty( b_lower[i], b_upper[i] );
         for( size_t j = 0; j < n; j ++ ) {
-            double v = is_free ? 0 : AA_MATREF(A,ldA,i,j);
+            double v = is_empty ? 0 : AA_MATREF(A,ldA,i,j);
             if( ! set_mat( lp, ilp, 1 + (int)j, v ) ) {
                 return -1;
             }
@@ -260,17 +280,10 @@ s_finish (
     const double *x_lower, const double *x_upper )
 {
     (void)m;
-    /* c */
-    for( size_t j = 0; j < n; j ++ ) {
-        set_obj( lp, 1+(int)j, c[j] );
-    }
-
-    /* l/u */
-    for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
-    }
-
-    return cx_finish( &vtab, lp );
+    struct aa_opt_cx *cx = cx_finish( &vtab, lp );
+    s_set_obj( cx, n, c );
+    s_set_bnd( cx, n, x_lower, x_upper );
+    return cx;
 }
 
 
@@ -333,9 +346,8 @@ aa_opt_lpsolve_crscreate (
     for( int i = 0; i < mi; i ++ ) {
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
-        int is_free = aa_opt_is_free( aa_opt_is_lbound(b_lower[i]),
-                                      aa_opt_is_ubound(b_upper[i]) );
-        int count = is_free ? 0 : end - start;
+        int is_empty = s_row_is_empty( b_lower[i], b_upper[i] );
+        int count = is_empty ? 0 : end - start;
         double vals[count+1];
         int *raw_inds = (int*)A_cols + start;
         int inds[count+1];
-- 
2.43.0


From 2a7f76465db0e6a5a5f6290d11e96275a715f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:31 +0000
Subject: [PATCH 086/150] fix: LC3 passed rounding noise to the solvers, which
 then missed the optimum

---
 src/rx/lc3.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index d179ff3..7e68915 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -141,6 +141,15 @@ lc3_constraints (
                   1, N, dq_rn,
                   0, &vAn );
 
+    // Rounding noise in A makes simplex solvers miss the optimum
+    double a_max = 0;
+    for( size_t i = 0; i < n_q*(n_x+1); i ++ ) {
+        a_max = fmax( a_max, fabs(A[i]) );
+    }
+    for( size_t i = 0; i < n_q*(n_x+1); i ++ ) {
+        if( fabs(A[i]) < 1e-12 * a_max ) A[i] = 0;
+    }
+
     // Fill C
     // actual workspace velocity
     aa_dmat_gemv( CblasNoTrans,
-- 
2.43.0


From a3358920e7b1fdac776d791fddfc39057230498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:05 +0000
Subject: [PATCH 087/150] fix: solving with lp_solve could cycle forever

---
 src/opt/opt_lpsolve.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 292b2d9..80234f4 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -84,6 +84,25 @@ AA_API int aa_opt_lp_crs_lpsolve (
 }
 
 
+/* lp_solve may cycle forever: give up on a node of the search after too
+ * many calls, which lp_solve makes in every step */
+struct s_progress {
+    COUNTER nodes;
+    COUNTER calls;
+};
+
+static int __WINAPI s_abort( lprec *lp, void *handle )
+{
+    struct s_progress *p = (struct s_progress*)handle;
+    COUNTER nodes = get_total_nodes(lp);
+    if( nodes != p->nodes ) {
+        p->nodes = nodes;
+        p->calls = 0;
+    }
+    p->calls++;
+    return p->calls > 100000 + 1000 * (get_Nrows(lp) + get_Ncolumns(lp));
+}
+
 int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
@@ -96,7 +115,10 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     /* Start afresh: bounds and constraints may have changed, and the old
      * basis can hold variables at bounds that are gone */
     default_basis(lp);
+    struct s_progress progress = {-1,0};
+    put_abortfunc(lp, s_abort, &progress);
     int r = solve(lp);
+    put_abortfunc(lp, NULL, NULL);
 
     /* result */
     get_variables(lp,x);
-- 
2.43.0


From 7933db8aff0ba05dd42c7a0153767a16ca454e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 088/150] fix: trajectories could not be evaluated at an
 earlier time than before

---
 include/amino/ct/traj_internal.hpp |  4 ++++
 src/ct/traj.cpp                    | 11 ++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/amino/ct/traj_internal.hpp b/include/amino/ct/traj_internal.hpp
index de2eb1f..c8cff71 100644
--- a/include/amino/ct/traj_internal.hpp
+++ b/include/amino/ct/traj_internal.hpp
@@ -104,6 +104,7 @@ struct aa_ct_seg_list {
     amino::RegionList<struct aa_ct_seg *>::type list;        ///< List
     amino::RegionList<struct aa_ct_seg *>::iterator it;      ///< Iterator
     int it_on;                                               ///< Iterator init?
+    double it_t;                                             ///< Last evaluated time
 
     size_t n_q;
     double duration;
@@ -114,6 +115,9 @@ struct aa_ct_seg_list {
     {
         aa_mem_region_init(&reg, 512);
         it_on = 0;
+        it_t = 0;
+        n_q = 0;
+        duration = 0;
     }
 
     ~aa_ct_seg_list(void) {
diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..9210b1b 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -209,20 +209,21 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
+    /* Segments are in order of time.  Continue from the previous segment,
+     * unless time went back. */
+    if (!list->it_on || t < list->it_t ) {
         list->it = list->list.begin();
         list->it_on = 1;
     }
+    list->it_t = t;
 
-    do {
+    for (; list->it != list->list.end(); list->it++) {
         struct aa_ct_seg *seg = *list->it;
 
         int r;
         if ((r = seg->eval(seg, state, t)))
             return r;
-
-        list->it++;
-    } while (list->it != list->list.end());
+    }
 
     list->it_on = 0;
     return AA_CT_SEG_OUT;
-- 
2.43.0


From e4d65ef10a6ac11e4b11a3071e0b1d3a9b905f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 089/150] fix: trajectories could not be evaluated for part of
 the state

---
 src/ct/traj.cpp | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9210b1b..a47e11c 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -231,11 +231,7 @@ aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
 
 int aa_ct_seg_list_eval_q(struct aa_ct_seg_list *list, double t, size_t n, double *q)
 {
-    struct aa_ct_state state;
-    AA_MEM_ZERO(&state,1);
-    state.n_q = n;
-    state.q = q;
-    return aa_ct_seg_list_eval(list,&state,t);
+    return aa_ct_seg_list_eval_dq(list,t,n,q,NULL);
 }
 
 int aa_ct_seg_list_eval_dq(struct aa_ct_seg_list *list, double t, size_t n, double *q, double *dq)
@@ -245,7 +241,21 @@ int aa_ct_seg_list_eval_dq(struct aa_ct_seg_list *list, double t, size_t n, doub
     state.n_q = n;
     state.q = q;
     state.dq = dq;
-    return aa_ct_seg_list_eval(list,&state,t);
+    if( n >= list->n_q ) return aa_ct_seg_list_eval(list,&state,t);
+
+    /* The arrays are smaller than the trajectory */
+    struct aa_mem_region *reg = aa_mem_region_local_get();
+    double *x = AA_MEM_REGION_NEW_N(reg, double, 2*list->n_q);
+    state.n_q = list->n_q;
+    state.q = x;
+    state.dq = x + list->n_q;
+    int r = aa_ct_seg_list_eval(list,&state,t);
+    if( AA_CT_SEG_IN == r ) {
+        if( q ) AA_MEM_CPY(q, state.q, n);
+        if( dq ) AA_MEM_CPY(dq, state.dq, n);
+    }
+    aa_mem_region_pop(reg, x);
+    return r;
 }
 
 AA_API void
@@ -366,9 +376,11 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
 
         return AA_CT_SEG_IN;
     } else {
-        tt = cx->t1 - cx->t0;
-        for( size_t i = 0; i < n; i++ ) {
-            state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+        if( state->q ) {
+            tt = cx->t1 - cx->t0;
+            for( size_t i = 0; i < n; i++ ) {
+                state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+            }
         }
         return AA_CT_SEG_OUT;
     }
@@ -734,19 +746,21 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
         for (size_t i = 0; i < c_cx->n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
-                c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if( state->q ) {
+                state->q[i] = c_cx->q[i] + p_dq * dt + \
+                    c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
+            }
+            if( state->dq ) state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if( state->ddq ) state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
         for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+            if( state->q ) state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if( state->dq ) state->dq[i] = c_cx->dq[i];
+            if( state->ddq ) state->ddq[i] = 0;
         }
 
     } else {
-- 
2.43.0


From 8467c7ce45e90adcca7bf61631e9d37a1ef6caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 090/150] fix: trajectories over a single waypoint crashed,
 those over none too

---
 src/ct/traj.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index a47e11c..9c7a529 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -304,6 +304,7 @@ aa_ct_seg_list_plot(struct aa_ct_seg_list *list, size_t n_q, double dt)
     FILE *dqtemp = fopen(dqfile, "w");
 
     struct aa_ct_state state;
+    AA_MEM_ZERO(&state,1);
     double q[n_q], dq[n_q];
     state.n_q = n_q;
     state.q = q;
@@ -373,6 +374,9 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
         if( state->dq ) {
             AA_MEM_CPY(state->dq, cx->dq, n);
         }
+        if( state->ddq ) {
+            AA_MEM_ZERO(state->ddq, n);
+        }
 
         return AA_CT_SEG_IN;
     } else {
@@ -429,7 +433,7 @@ aa_ct_seg_dq_new( struct aa_mem_region *reg,
 
     /* Compute velocity */
     for( size_t i = 0; i < cx->n_q; i ++ ) {
-        cx->dq[i] /= dt;
+        cx->dq[i] = (dt > 0) ? cx->dq[i] / dt : 0;
     }
     cx->t1 = cx->t0 + dt;
 
@@ -441,6 +445,11 @@ struct aa_ct_seg_list *aa_ct_tjq_lin_generate(struct aa_mem_region *reg,
                                               struct aa_ct_pt_list *list,
                                               struct aa_ct_limit *limits)
 {
+    if( list->list.empty() ) {
+        fprintf(stderr, "Cannot generate a trajectory without points\n");
+        return NULL;
+    }
+
     struct aa_ct_seg_list *segs = new(reg) aa_ct_seg_list(reg);
 
     auto itr0 = list->list.begin();
@@ -449,6 +458,11 @@ struct aa_ct_seg_list *aa_ct_tjq_lin_generate(struct aa_mem_region *reg,
     segs->n_q = (*itr0)->state.n_q;
 
     segs->duration = 0;
+    if( itr1 == list->list.end() ) {
+        /* Rest at the only waypoint */
+        aa_ct_seg_list_add( segs,
+                            aa_ct_seg_dq_new( reg, 0, &(*itr0)->state, &(*itr0)->state, limits ) );
+    }
     for( ; itr1 != list->list.end(); itr0++, itr1++ ) {
 
         if( segs->n_q != (*itr1)->state.n_q ) {
@@ -662,6 +676,11 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
                                                 struct aa_ct_pt_list *list,
                                                 struct aa_ct_limit *limits )
 {
+    if( list->list.empty() ) {
+        fprintf(stderr, "Cannot generate a trajectory without points\n");
+        return NULL;
+    }
+
     struct aa_ct_seg_list *segs = new(reg) aa_ct_seg_list(reg);
 
     auto itr0 = list->list.begin();
@@ -671,6 +690,11 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
     segs->n_q = (*itr0)->state.n_q;
     segs->duration = 0;
 
+    if( itr1 == list->list.end() ) {
+        /* Rest at the only waypoint */
+        aa_ct_seg_list_add( segs,
+                            aa_ct_seg_dq_new( reg, 0, &(*itr0)->state, &(*itr0)->state, limits ) );
+    }
     for( ; itr1 !=list->list.end(); itr0++, itr1++){
 
         if(segs->n_q != (*itr1)->state.n_q){
@@ -871,6 +895,11 @@ AA_API struct aa_ct_seg_list *
 aa_ct_tjq_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
                       struct aa_ct_limit *limits)
 {
+    if( pt_list->list.empty() ) {
+        fprintf(stderr, "Cannot generate a trajectory without points\n");
+        return NULL;
+    }
+
     struct aa_ct_seg_list *list = new(reg) struct aa_ct_seg_list(reg);
 
     // Populate segment list with one segment per point
@@ -977,6 +1006,11 @@ AA_API struct aa_ct_seg_list *
 aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
                       struct aa_ct_limit *limits)
 {
+    if( pt_list->list.empty() ) {
+        fprintf(stderr, "Cannot generate a trajectory without points\n");
+        return NULL;
+    }
+
     struct aa_ct_pt_list *Xpt_list = aa_ct_pt_list_create(reg);
 
     struct aa_ct_pt *c_pt = pt_list->list.front();
-- 
2.43.0


From 2f51b25b6ddfe99d33a9591b09c1f827664ed032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 091/150] fix: trapezoidal trajectories moved the wrong way and
 exceeded the limits

---
 src/ct/traj.cpp | 78 ++++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 43 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9c7a529..13057e0 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -518,14 +518,15 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
     if( t >= cx->t0 && t <= cx->t1 ) {
         size_t n = AA_MIN( cx->n_q, state->n_q );
         double tt = t - cx->t0;
-        double q, dq, ddq, q0, dq0;
+        double q, dq, ddq;
         for( size_t i = 0; i < n; i ++ ) {
             ddq = cx->ddq[i];
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            if( state->ddq ) state->ddq[i] = ddq;
+            if( state->dq ) state->dq[i] = dq + tt * ddq;
+            if( state->q ) state->q[i] = q + tt * dq + tt * tt * ddq/2;
         }
         return AA_CT_SEG_IN;
     } else {
@@ -550,42 +551,37 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
     double dt = 0;
     double ta = 0;
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
-    double dqmax, ddqmax, dti, q0, q1;
-    double sign;
 
-
-    /* We make a lot of assumtions here to make the math easy. Current assumtions:
-       abs(limits->max->ddq) == abs(limits->min->ddq)
+    /* We make some assumtions here to make the math easy. Current assumtions:
        state0->dq = 0;
-       state1->dq = 0; */
-    for( size_t i = 0; i < n_q; i ++ ) {
-        q1 = state1->q[i];
-        q0 = state0->q[i];
-
-        if(q1 >= q0){
-            sign = 1;
-            dqmax  = limits->max->dq[i];
-            ddqmax = limits->max->ddq[i];
-
-        }else{
-            sign = -1;
-            dqmax  = limits->min->dq[i];
-            ddqmax = limits->min->ddq[i];
-        }
+       state1->dq = 0;
 
-        double tai = sqrt((q1-q0)/ddqmax);
+       All joints move along the straight line together.  Find the limits on
+       the motion along the line, from zero at the start to one at the end. */
+    double dsmax = INFINITY, ddsmax = INFINITY;
+    for( size_t i = 0; i < n_q; i ++ ) {
+        double d = state1->q[i] - state0->q[i];
+        if( 0 == d ) continue;
+        double dqmax = (d > 0) ? limits->max->dq[i] : limits->min->dq[i];
+        /* Acceleration and deceleration have opposite signs */
+        double ddqmax = AA_MIN( fabs(limits->max->ddq[i]), fabs(limits->min->ddq[i]) );
+
+        dsmax  = AA_MIN( dsmax, dqmax / d );
+        ddsmax = AA_MIN( ddsmax, ddqmax / fabs(d) );
+    }
 
-        if(tai*ddqmax*sign > dqmax*sign){
-            //To do a triangle we went too fast, need to do a trapazoid
-            tai = dqmax/ddqmax;
-            double tb = ((q1-q0) - dqmax*tai)/dqmax;
-            dti = tb+2*tai;
-        }else{
-            dti = 2*tai;
+    if( std::isfinite(ddsmax) ) {
+        if( dsmax*dsmax >= ddsmax ) {
+            /* Triangle */
+            ta = sqrt( 1 / ddsmax );
+            dt = 2*ta;
+        } else {
+            ta = dsmax / ddsmax;
+            dt = 1/dsmax + ta;
         }
-
-        dt = AA_MAX(dt, dti);
-        ta = AA_MAX(ta, tai);
+    } else if( std::isfinite(dsmax) ) {
+        /* No limit on acceleration */
+        dt = 1/dsmax;
     }
 
     /* Allocate */
@@ -651,18 +647,14 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
 
     /* Compute blend times and velocities now that we know the segment time */
     for( size_t i = 0; i < n_q; i ++ ) {
-        q1 = state1->q[i];
-        q0 = state0->q[i];
-
-        double q_diff = (q1-q0);
-        double denom = ta * ta + ta * ( dt - 2 * ta );
-
-        double ddq = q_diff/denom;
+        double q_diff = state1->q[i] - state0->q[i];
+        double dq = (dt > ta) ? q_diff / (dt - ta) : 0;
+        double ddq = (ta > 0) ? dq / ta : 0;
 
         a_cx->ddq[i] = ddq;
 
 
-        c_cx->dq[i] = ddq * ta;
+        c_cx->dq[i] = dq;
         c_cx->q0[i] = a_cx->q0[i] + ddq * ta * ta / 2;
 
         d_cx->q0[i] = c_cx->q0[i] + c_cx->dq[i] * (dt - 2 * ta);
@@ -701,7 +693,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From 8a97d142e0950540835ac70f9f3f7b861a758319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 092/150] fix: workspace trajectories did not give the velocity

---
 src/ct/traj.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 13057e0..3631c9d 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -971,8 +971,10 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     double *tq = state->q;
     double *tdq = state->dq;
     double *tddq = state->ddq;
+    size_t tn_q = state->n_q;
 
     double X[6], dX[6], ddX[6];
+    state->n_q = 6;
     state->q = X;
     state->dq = dX;
     state->ddq = ddX;
@@ -980,12 +982,35 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     int r = aa_ct_tj_pb_eval(seg, state, t);
 
     if (r) {
-        aa_tf_rotvec2quat(&state->q[3], state->X);
-        state->X[4] = state->q[0];
-        state->X[5] = state->q[1];
-        state->X[6] = state->q[2];
+        if( state->X ) {
+            aa_tf_rotvec2quat(&X[3], state->X);
+            state->X[4] = X[0];
+            state->X[5] = X[1];
+            state->X[6] = X[2];
+        }
+        if( state->dX ) {
+            /* Angular velocity from derivative of the rotation vector */
+            double *v = X+3, *dv = dX+3, c[3], cc[3];
+            double theta = sqrt( aa_la_dot(3,v,v) );
+            double theta2 = theta*theta;
+            double a, b;
+            if( theta < 1e-3 ) {
+                a = .5 - theta2/24;
+                b = 1.0/6 - theta2/120;
+            } else {
+                a = (1-cos(theta)) / theta2;
+                b = (theta - sin(theta)) / (theta2*theta);
+            }
+            aa_la_cross(v, dv, c);
+            aa_la_cross(v, c, cc);
+            for( size_t i = 0; i < 3; i ++ ) {
+                state->dX[AA_TF_DX_V+i] = dX[i];
+                state->dX[AA_TF_DX_W+i] = dv[i] + a*c[i] + b*cc[i];
+            }
+        }
     }
 
+    state->n_q = tn_q;
     state->q = tq;
     state->dq = tdq;
     state->ddq = tddq;
-- 
2.43.0


From 3d4f106ca4f8016ee8132f4e0f5926a1b27dae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 093/150] fix: generating a workspace trajectory leaked its
 waypoints

---
 src/ct/traj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 3631c9d..2abc865 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1074,6 +1074,8 @@ aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
         c_seg->eval = aa_ct_tjX_pb_eval;
     }
 
+    aa_ct_pt_list_destroy(Xpt_list);
+
     return Xseg_list;
 }
 
-- 
2.43.0


From 9f9c850fdabbefe166a5797e95e8fd0f3213c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 094/150] fix: slerp trajectories referred to the waypoints
 after these were destroyed

---
 src/ct/traj.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 2abc865..968ac8b 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1188,8 +1188,8 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
 
 // TODO: non-unit time
 struct aa_ct_slerp_seg {
-    double *E0;
-    double *E1;
+    double E0[7];
+    double E1[7];
     double dx[6];
     double dt;
 };
@@ -1237,9 +1237,9 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
         s->dt = 1;
 
         auto itr = list->list.begin();
-        s->E0 = (*itr)->state.X;
+        AA_MEM_CPY(s->E0, (*itr)->state.X, 7);
         itr++;
-        s->E1 = (*itr)->state.X;
+        AA_MEM_CPY(s->E1, (*itr)->state.X, 7);
 
         // omega
         double qt[4], ql[4];
-- 
2.43.0


From 480499f0dc1e94ddfe6fa0f2d55571aa3e0c2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 095/150] fix: slerp trajectories wrote efforts out of bounds
 and were never inside their time

---
 src/ct/traj.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 968ac8b..8d97ed3 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -199,6 +199,7 @@ void aa_ct_seg_list_add_cx( struct aa_ct_seg_list *list,
                             void *cx )
 {
     struct aa_ct_seg *seg = AA_MEM_REGION_NEW(&list->reg, aa_ct_seg);
+    AA_MEM_ZERO(seg,1);
     seg->cx = cx;
     seg->eval = eval;
     aa_ct_seg_list_add( list, seg );
@@ -1219,8 +1220,8 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    if( state->eff ) AA_MEM_ZERO(state->eff,state->n_q);
+    return (t >= 0 && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
-- 
2.43.0


From 158de97c5332ea95b295693fe2a8e8d990f8a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 096/150] fix: continuity of trapezoidal trajectories was not
 checked, the check kept scratch memory

---
 src/ct/traj.cpp | 115 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 40 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 8d97ed3..1448779 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1100,72 +1100,94 @@ int aa_ct_seg_list_check( struct aa_ct_seg_list * segs, double dt,
 }
 
 
-int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
-                             double tol, double eps )
+/**
+ * Find the time span of a segment.
+ *
+ * @return zero if the segment has a known type.
+ */
+static int
+seg_span( struct aa_ct_seg *seg, double *t0, double *t1 )
+{
+    switch( seg->type ) {
+    case AA_CT_LIN_SEG: {
+        struct aa_ct_seg_dq *cx = (struct aa_ct_seg_dq *)seg->cx;
+        *t0 = cx->t0;
+        *t1 = cx->t1;
+        return 0;
+    }
+    case AA_CT_ACCL_SEG: {
+        struct aa_ct_seg_ddq *cx = (struct aa_ct_seg_ddq *)seg->cx;
+        *t0 = cx->t0;
+        *t1 = cx->t1;
+        return 0;
+    }
+    case AA_CT_PB_SEG: {
+        struct aa_ct_seg_pb_cx *p_cx, *c_cx, *n_cx;
+        aa_ct_tj_pb_nbrs(seg, &p_cx, &c_cx, &n_cx);
+        *t0 = c_cx->t - c_cx->b / 2;
+        *t1 = n_cx ? (c_cx->t + c_cx->dt - n_cx->b / 2) : (c_cx->t + c_cx->b / 2);
+        return 0;
+    }
+    default:
+        return -1;
+    }
+}
+
+static double
+seg_state_diff( size_t n_q, const struct aa_ct_state *a, const struct aa_ct_state *b )
+{
+    double state_diff = 0.0;
+    for (size_t i = 0; i < n_q; i++)
+    {
+        state_diff += fabs(b->q[i] - a->q[i]);
+    }
+    return state_diff;
+}
+
+static int
+seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
+                   double tol, double eps,
+                   struct aa_ct_state *state0, struct aa_ct_state *state1 )
 {
     // This function checks two aspects of trajectories:
     //   1. The max dist between two steps
     //   2. The max dist between end of one trajectory and beginning of another
-    struct aa_mem_region *reg = aa_mem_region_local_get();
     size_t n_q = aa_ct_seg_list_n_q(segs);
-    struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
-    struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
-    struct aa_ct_state *temp;
 
-    aa_ct_seg_list_eval(segs, state1, dt);
+    aa_ct_seg_list_eval(segs, state0, 0);
     for( double t0 = 0, t1 = dt; aa_ct_seg_list_eval(segs, state1, t1); t0 += dt, t1 += dt )
     {
-        aa_ct_seg_list_eval(segs, state0, t0);
-
-        double state_diff = 0.0;
-        for (size_t i = 0; i < n_q; i++)
-        {
-            state_diff += fabs(state1->q[i] - state0->q[i]);
-        }
+        double state_diff = seg_state_diff(n_q, state0, state1);
         if (state_diff > tol)
         {
             // The max distance between two steps exceeded to given tolerance.
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
-            fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
             return 1;
         }
 
         // Swap state0 to become state1, next loop will overwrite the old state0.
-        temp = state0;
+        struct aa_ct_state *temp = state0;
         state0 = state1;
         state1 = temp;
     }
 
+    if (segs->list.empty()) return 0;
+
     struct aa_ct_seg *c_seg = segs->list.front();
     for (; c_seg->next != NULL; c_seg = c_seg->next)
     {
-        if (c_seg->type == AA_CT_LIN_SEG)
-        {
-            struct aa_ct_seg_dq *p_cx, *c_cx, *n_cx;
-            aa_ct_tj_dq_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t1);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t0);
-
-        }
-        else if (c_seg->type == AA_CT_PB_SEG)
-        {
-            struct aa_ct_seg_pb_cx *p_cx, *c_cx, *n_cx;
-            aa_ct_tj_pb_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t + c_cx->dt - n_cx->b / 2);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t - n_cx->b / 2);
-        }
-        else
+        double c_t0, c_t1, n_t0, n_t1;
+        if( seg_span(c_seg, &c_t0, &c_t1) || seg_span(c_seg->next, &n_t0, &n_t1) )
         {
             // Why does the segment have a weird type?
             return 3;
         }
-        double state_diff = 0.0;
-        for (size_t i = 0; i < n_q; i++)
-        {
-            state_diff += fabs(state1->q[i] - state0->q[i]);
-        }
 
+        c_seg->eval(c_seg, state0, c_t1);
+        c_seg->next->eval(c_seg->next, state1, n_t0);
+
+        double state_diff = seg_state_diff(n_q, state0, state1);
         if (state_diff > eps)
         {
             // Max distance between two segment endpoints exceed the given epsilon.
@@ -1175,13 +1197,26 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         }
     }
 
-    aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
-
     // All good!
     return 0;
 }
 
+int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
+                             double tol, double eps )
+{
+    struct aa_mem_region *reg = aa_mem_region_local_get();
+    void *ptrtop = aa_mem_region_ptr(reg);
+    size_t n_q = aa_ct_seg_list_n_q(segs);
+    struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
+    struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
+
+    int r = seg_list_check_c0( segs, dt, tol, eps, state0, state1 );
+
+    aa_mem_region_pop(reg, ptrtop);
+
+    return r;
+}
+
 
 /*********/
 /* SLERP */
-- 
2.43.0


From 5b53beb755219c35537c8fca7e7a3ed51d0b18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 097/150] fix: Dormand-Prince steps evaluated a stage at the
 wrong time

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..82db3d6 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From 36d2dcafc559630c25d48c1c88c60915b6a28bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 098/150] fix: Cash-Karp steps confused two stages

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 82db3d6..1485335 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -441,7 +441,7 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
                  dt, k, (int)n,
                  v1, 1,
                  1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+    static const double v2[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
                  (int)n, (int)5,
                  dt, k, (int)n,
-- 
2.43.0


From 4a5ca4de259c9765f57ed332ea1e5ada101bdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 099/150] fix: adaptive integration did not advance time and
 mixed states with derivatives of others

---
 src/sigsys.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 1485335..69aa9b0 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -601,6 +601,7 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
     aa_odestep_fixed *fixed_integrator = aa_odestep_rk4;
     aa_odestep_adaptive *adaptive_integrator = NULL;
     size_t n_k = 0;
+    int fsal = 0; /* last column of k is the derivative of the first result */
 
     /* Select Integration Function */
     switch( integrator ) {
@@ -623,10 +624,12 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
         break;
     case AA_ODE_RK45_DP:
         n_k = 6;
+        fsal = 1;
         adaptive_integrator = aa_odestep_dorpri45;
         break;
     case AA_ODE_RK23_BS:
         n_k = 4;
+        fsal = 1;
         adaptive_integrator = aa_odestep_rkbs23;
         break;
     }
@@ -650,9 +653,11 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
         sys( sys_cx, t0, x0, k );
 
         for(;;) {
+            double h; /* size of the accepted step */
             for(;;) { /* adaptive loop */
+                h = dt;
                 adaptive_integrator( n, sys, sys_cx,
-                                     t, dt,
+                                     t, h,
                                      px0, k, px1, px2 );
                 double err = aa_la_ssd( n, px1, px2 );
                 // adapt the step size
@@ -665,12 +670,26 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             }
 
+            /* Advance to the new state, with its derivative in kn */
+            t += h;
+            double *tmp = px0;
+            if( fsal ) {
+                px0 = px1;
+                px1 = tmp;
+            } else {
+                px0 = px2;
+                px2 = tmp;
+                sys( sys_cx, t, px0, kn );
+            }
+
             /* Check if complete */
-            if( (check_result = check( check_cx, t, px2, kn)) ) {
-                AA_MEM_CPY(x1, px2, n);
+            AA_MEM_CPY(px1, px0, n);
+            if( (check_result = check( check_cx, t, px0, kn)) ) {
+                AA_MEM_CPY(x1, px0, n);
                 break;
+            } else if( memcmp(px0, px1, n*sizeof(*px0)) ) {
+                sys( sys_cx, t, px0, k ); // check moved the state
             } else {
-                double *tmp = px0; px0 = px2; px2 = tmp;
                 AA_MEM_CPY(k, kn, n); // extract dx to k0
             }
         }
-- 
2.43.0


From 18fe8713900366df584c77ec592ed25a5698c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 100/150] fix: trajectory states had room for a seventh of
 their frames and uninitialized poses

---
 src/ct/state.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ct/state.c b/src/ct/state.c
index 833c634..a851e2a 100644
--- a/src/ct/state.c
+++ b/src/ct/state.c
@@ -58,13 +58,20 @@ aa_ct_state_alloc(struct aa_mem_region *reg, size_t n_q, size_t n_tf )
     AA_MEM_ZERO(s->ddq, n_q);
 
     s->eff = AA_MEM_REGION_NEW_N(reg, double, s->n_q);
+    AA_MEM_ZERO(s->eff, n_q);
 
     s->X = AA_MEM_REGION_NEW_N(reg, double, 7);
     s->dX = AA_MEM_REGION_NEW_N(reg, double, 6);
     s->ddX = AA_MEM_REGION_NEW_N(reg, double, 6);
+    AA_MEM_ZERO(s->X, 7);
+    AA_MEM_ZERO(s->dX, 6);
+    AA_MEM_ZERO(s->ddX, 6);
 
-    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
-    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
+    /* Quaternion-translation per frame */
+    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
+    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
+    AA_MEM_ZERO(s->TF_abs, 7*n_tf);
+    AA_MEM_ZERO(s->TF_rel, 7*n_tf);
 
     return s;
 }
@@ -99,9 +106,9 @@ aa_ct_state_clone(struct aa_mem_region *reg, struct aa_ct_state *dest,
 
     dest->eff = state_clone_helper(reg, src->eff, src->n_q);
 
-    dest->TF_abs = state_clone_helper(reg, src->TF_abs, src->n_tf);
+    dest->TF_abs = state_clone_helper(reg, src->TF_abs, 7*src->n_tf);
 
-    dest->TF_rel = state_clone_helper(reg, src->TF_rel, src->n_tf);
+    dest->TF_rel = state_clone_helper(reg, src->TF_rel, 7*src->n_tf);
 }
 
 // TODO: Finish this
@@ -125,7 +132,7 @@ aa_ct_state_dump(FILE *stream, struct aa_ct_state *state)
 
     if (state->eff) {
         fputs("eff: ", stream);
-        aa_dump_vec(stream, state->ddq, state->n_q);
+        aa_dump_vec(stream, state->eff, state->n_q);
     }
 
     if (state->X) {
-- 
2.43.0


From 87e2d21837d2b801c234efd668e1b8e4d031bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 101/150] fix: joint paths were clamped to garbage where a
 joint has no limits

---
 src/rx/rx_ct.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..21fbc6f 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -299,14 +299,18 @@ aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
     lim->max = aa_ct_state_alloc(region, n_q, 0);
 
     for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
+        if( aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
+                                   lim->min->q+i, lim->max->q+i) )
+            set_inf( lim->min->q+i, lim->max->q+i );
+        if( aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
+                                   lim->min->dq+i, lim->max->dq+i) )
+            set_inf( lim->min->dq+i, lim->max->dq+i );
+        if( aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
+                                   lim->min->ddq+i, lim->max->ddq+i) )
+            set_inf( lim->min->ddq+i, lim->max->ddq+i );
+        if( aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
+                                   lim->min->eff+i, lim->max->eff+i) )
+            set_inf( lim->min->eff+i, lim->max->eff+i );
     }
 
     return lim;
-- 
2.43.0


From 21e2cb84c61015d50f60ff08ee569bc9cba69459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 102/150] fix: a joint path in the thread's own region was
 released with the temporaries

---
 src/rx/rx_ct.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 21fbc6f..7050c4d 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -197,7 +197,11 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
 
     assert( aa_rx_sg_sub_all_config_count(ssg) == n_q_all );
 
-    struct aa_mem_region *local_region = aa_mem_region_local_get();
+    /* The path must survive our temporaries */
+    int is_local = (aa_mem_region_local_get() == region);
+    struct aa_mem_region *local_region = is_local
+        ? aa_mem_region_create(4096)
+        : aa_mem_region_local_get();
 
     struct path_cx *cx = AA_MEM_REGION_NEW( local_region, struct path_cx );
     {
@@ -275,8 +279,11 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
                            cx->limits->max->q[config_id]);
         }
     }
-    aa_mem_region_pop(local_region, cx);
-
+    if( is_local ) {
+        aa_mem_region_destroy(local_region);
+    } else {
+        aa_mem_region_pop(local_region, cx);
+    }
 
     return r;
     /* aa_mem_region_pop(cx.reg, cx.TF_rel0); */
-- 
2.43.0


From df1c69d1f560657a04c0e204cda3f5a4f35b84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 103/150] fix: a plugin without the symbol looked up stayed
 loaded

---
 src/rx/plugin.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/rx/plugin.c b/src/rx/plugin.c
index aa940b3..8737f5b 100644
--- a/src/rx/plugin.c
+++ b/src/rx/plugin.c
@@ -67,12 +67,7 @@ rx_dlopen( const char *filename, const char *sym, void **handle )
     if( (err = dlerror()) ) {
         fprintf(stderr, "ERROR: %s\n", err );
 
-        /* dlcose() throws error:
-         *  `Inconsistency detected by ld.so: dl-close.c: 762: _dl_close: Assertion `map->l_init_called' failed!'
-         * Better to leak than crash.
-         */
-
-        /* dlclose(handle); */
+        dlclose(*handle);
         return NULL;
     }
     return result;
-- 
2.43.0


From c598f6aadc562fe33190083a6c6f7fda9f90467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 104/150] fix: a plugin that could not create its object was
 dereferenced

---
 src/rx/plugin.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rx/plugin.c b/src/rx/plugin.c
index 8737f5b..9b7b7a6 100644
--- a/src/rx/plugin.c
+++ b/src/rx/plugin.c
@@ -99,6 +99,10 @@ aa_rx_dl_mesh( const char *filename, const char *name )
     aa_rx_dl_mesh_fun fun = (aa_rx_dl_mesh_fun) rx_dlopen(filename, buf, &handle);
     if(fun) {
         struct aa_rx_mesh *mesh = fun();
+        if( NULL == mesh ) {
+            dlclose(handle);
+            return NULL;
+        }
         mesh->destructor = plugin_destructor;
         mesh->destructor_context = handle;
         return mesh;
@@ -121,6 +125,10 @@ aa_rx_dl_sg_at( const char *filename, const char *name,
 
     if(fun){
         sg = fun(sg, root);
+        if( NULL == sg ) {
+            dlclose(handle);
+            return NULL;
+        }
         aa_rx_sg_set_destructor(sg, plugin_destructor, handle);
         return sg;
     } else {
-- 
2.43.0


From 8d7c1c99408282a34cbab3a6ea0ad59b36332409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 105/150] fix: a plugin was unloaded under copies of its scene
 graph, and never if another followed

---
 include/amino/rx/scenegraph_internal.h | 12 ++++++++++--
 src/rx/scenegraph.cpp                  | 10 +++-------
 src/rx/sg_api.cpp                      |  6 ++++--
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index f0558dd..6d115c1 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -80,6 +80,7 @@ struct aa_rx_fk {
 #include <string>
 #include <map>
 #include <set>
+#include <memory>
 
 
 
@@ -208,8 +209,11 @@ struct SceneGraph  {
     std::vector<size_t> allowed_indices1;
     std::vector<size_t> allowed_indices2;
 
-    void (*destructor)(void *);
-    void *destructor_context;
+    /** Contexts of the user destructors.
+     *
+     * Copies of the scene graph share the contexts: each destructor is
+     * called when the last of them is destroyed. */
+    std::vector<std::shared_ptr<void> > destructor_contexts;
 
     /** Are the indices invalid?
      *
@@ -267,6 +271,10 @@ aa_rx_sg_ensure_clean_gl( const struct aa_rx_sg *scene_graph );
 AA_API void
 aa_rx_sg_ensure_clean_collision( const struct aa_rx_sg *scene_graph );
 
+/**
+ * Register a function to call after the scene graph and all its
+ * copies are destroyed.  Functions registered earlier are kept.
+ */
 AA_API void
 aa_rx_sg_set_destructor(
     const struct aa_rx_sg *scene_graph,
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 05d02db..ebaa801 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -273,8 +273,6 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 
 SceneGraph::SceneGraph()
     : config_size(0),
-      destructor(NULL),
-      destructor_context(NULL),
       dirty_indices(0),
       dirty_collision(0),
       dirty_gl(0)
@@ -282,16 +280,14 @@ SceneGraph::SceneGraph()
 
 SceneGraph::~SceneGraph()
 {
-    /* User destructor(s) */
-    if( destructor ) {
-        destructor(destructor_context);
-    }
-
     /* Delete Frames */
     for( auto &pair : frame_map ) delete pair.second;
 
     /* Delete Limits */
     for( auto &pair : limits_map ) free(pair.second);
+
+    /* User destructor(s) */
+    destructor_contexts.clear();
 }
 
 static void sort_frame_helper( std::list<SceneFrame*> &list,
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 9204f01..252782e 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -679,8 +679,7 @@ aa_rx_sg_set_destructor(
     void (*destructor)(void*),
     void *context )
 {
-    scene_graph->sg->destructor = destructor;
-    scene_graph->sg->destructor_context = context;
+    scene_graph->sg->destructor_contexts.push_back( std::shared_ptr<void>(context, destructor) );
 }
 
 AA_API void aa_rx_sg_rel_tf (
@@ -813,6 +812,9 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
         aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
+    // keep what the geometries refer to
+    dest->sg->destructor_contexts = orig->sg->destructor_contexts;
+
     // initialize sg
     dest->sg->index();
 
-- 
2.43.0


From a991ca2700afb4cd976e23d7ee6cbfed9691f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 106/150] fix: svd passes LAPACK the leading dimensions of the
 arrays it gives it

---
 src/la_impl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..3e8c4d1 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -553,11 +553,14 @@ AA_API int AA_NAME(la,svd)
         const char *jobu = (U && ldu > 0) ? "A" : "N";
         const char *jobvt = (Vt && ldvt > 0) ? "A" : "N";
 
+        int ldui = (U && ldu > 0) ? (int)ldu : 1;
+        int ldvti = (Vt && ldvt > 0) ? (int)ldvt : 1;
+
         LA_WORK( reg, work, lwork,
                  AA_LAPACK_NAME(gesvd)( jobu, jobvt, &mi, &ni,
                                         Ap, &mi,
-                                        S, U, &mi,
-                                        Vt, &ni,
+                                        S, U, &ldui,
+                                        Vt, &ldvti,
                                         &work[0], &lwork, &info ) );
     }
 
-- 
2.43.0


From 1c0d62cb01314610a61f993969cae5a49f87a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 107/150] fix: qr reads its contiguous copy with the copy's
 leading dimension

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 3e8c4d1..8576079 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
-- 
2.43.0


From 9b9b30d220206883ad48a601b2dfb89f1018e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 108/150] fix: eev reads its contiguous copy with the copy's
 leading dimension

---
 src/la_impl.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 8576079..00682c6 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -580,7 +580,6 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
@@ -593,7 +592,7 @@ AA_API int AA_NAME(la,eev)
 
     LA_WORK( reg, work, lwork,
              AA_LAPACK_NAME(geev)( jobvl, jobvr,
-                                   &ni, Ap, &ldai,
+                                   &ni, Ap, &ni,
                                    wr, wi,
                                    Vl, &ldvli,
                                    Vr, &ldvri,
-- 
2.43.0


From 79d7692b5aa905b3a0754094a4944a21082417a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 109/150] fix: colcov honours the leading dimension of its
 result

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 00682c6..88cb4c3 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -422,13 +422,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From 4487fe9852c09252844f72c017de7baeff4dcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 110/150] fix: single-precision medians compare
 single-precision elements

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 88cb4c3..0884a96 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -632,8 +632,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(const AA_TYPE*)_a;
+    AA_TYPE b = *(const AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From 03d2870e760a66c50c85aecdf9166d35ae1fc1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 111/150] fix: aa_dmat_inc honours the leading dimension of
 square matrices

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..9233732 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -504,7 +504,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From c0319d23a8ddd1196ad61485604b247f04aa1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 112/150] fix: pseudo-inverses honour the leading dimension of
 their result

---
 src/mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 9233732..5bf7043 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -646,7 +646,7 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -833,7 +833,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -843,7 +843,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
-- 
2.43.0


From 8fbcac2739c5d1421f1444424857ec81659c75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 113/150] fix: aa_dmat_gemm takes its dimensions from the
 transposed operands

---
 src/mat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 5bf7043..24ef86d 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,15 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    const int noA = (CblasNoTrans == transA), noB = (CblasNoTrans == transB);
+    const size_t m  = noA ? A->rows : A->cols;
+    const size_t k  = noA ? A->cols : A->rows;
+    const size_t kB = noB ? B->rows : B->cols;
+    const size_t n  = noB ? B->cols : B->rows;
+
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( k, kB );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +412,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)k,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From dc0c7e86b1a66eec8874ba64e24e204689b2440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 114/150] fix: aa_la_trace adds the diagonal elements, not
 their absolute values

---
 src/la.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..6896eaf 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,9 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double t = 0;
+    for( size_t i = 0; i < n; i ++ ) t += A[i*(n+1)];
+    return t;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From fabd28a866cb54fa26dec0f31efe81d6fce4c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 115/150] fix: aa_la_quadterp_dx is the derivative of
 aa_la_quadterp

---
 src/la.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la.c b/src/la.c
index 6896eaf..d27aeee 100644
--- a/src/la.c
+++ b/src/la.c
@@ -484,12 +484,10 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
-
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
         double c = M20*X0[i] + M21*X1[i] + M22*X2[i];
-        dXi[i] = b + c*ti_2;
+        dXi[i] = b + 2*c*ti;
     }
 }
 
-- 
2.43.0


From 4d97bc7caec426f4006fb1dc6f81a56eab6c926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 116/150] fix: circular standard deviation is sqrt(-2 ln R), R
 the resultant length

---
 src/math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..7cc7228 100644
--- a/src/math.c
+++ b/src/math.c
@@ -131,8 +131,8 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     }
     as = as / (double)n;
     ac = ac / (double)n;
-    double r = (as*as + ac*ac);
-    return sqrt( -2 * log(r) );
+    double r = (as*as + ac*ac); // square of the resultant length
+    return sqrt( fmax(0, -log(r)) );
 }
 
 
@@ -197,8 +197,8 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         as /= (double)j;
         ac /= (double)j;
         mu = atan2(as,ac);
-        double r = (as*as + ac*ac);
-        sigma = sqrt( -2 * log(r) );
+        double r = (as*as + ac*ac); // square of the resultant length
+        sigma = sqrt( fmax(0, -log(r)) );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
     *psigma = sigma;
-- 
2.43.0


From c9fee085ca6efc8847b01a648d0774758a64099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 117/150] fix: Hungarian assignment terminates for negative
 costs

---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 0884a96..1442430 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -256,7 +254,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From bcc7d913b23ffa521c3eeb111b9d5454c7b64d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 118/150] fix: Hungarian augmenting path looks at every row for
 the next star

---
 src/la_impl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la_impl.c b/src/la_impl.c
index 1442430..b7f6476 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -225,6 +225,7 @@ static void AA_NAME(la,opt_hungarian) (
                                     break;
                                 }
                             }
+                            break; // look for a star in the new column
                         }
                     }
                 }
-- 
2.43.0


From fff07e7f9a8b9be0a2bd09bd1ec9dc7dbec90be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 119/150] fix: (1-cos)/theta^2 of small angles in exponentials
 of matrices

The series had a factor theta too much: the exponential of a twist with a
small rotation moved the origin wrongly.
---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From 591131800b4e02bb3585466968e2c16a46a91310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 120/150] fix: Euler angles at and near gimbal lock

The arcsine of a product rounded to more than one gave NaN, and the first and
last angle, rounded independently, did not make up the rotation.
---
 src/tf.c      |  6 ++++--
 src/tf/conv.c | 16 ++++------------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/tf.c b/src/tf.c
index 2788a71..558aacb 100644
--- a/src/tf.c
+++ b/src/tf.c
@@ -425,8 +425,10 @@ void aa_tf_rotmat2eulerzyx( const double R[restrict 9],
     cb = cos(b);
     a = atan2( AA_MATREF( R,3,1,0) / cb,
                AA_MATREF( R,3,0,0) / cb );
-    g = atan2( AA_MATREF( R,3,2,1) / cb,
-               AA_MATREF( R,3,2,2) / cb );
+    /* consistent with a, also where cb vanishes */
+    double sa = sin(a), ca = cos(a);
+    g = atan2( sa*AA_MATREF(R,3,0,2) - ca*AA_MATREF(R,3,1,2),
+               ca*AA_MATREF(R,3,1,1) - sa*AA_MATREF(R,3,0,1) );
     e[0] = a;
     e[1] = b;
     e[2] = g;
diff --git a/src/tf/conv.c b/src/tf/conv.c
index 5c7737e..d38e4b3 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -218,18 +218,10 @@ aa_tf_axang2quat( const double _aa[AA_RESTRICT 4],
 void aa_tf_quat2eulerzyx( const double q[restrict 4],
                           double e[restrict 3] )
 {
-    double n = aa_tf_qnorm( q );
-    double x = q[AA_TF_QUAT_X] / n;
-    double y = q[AA_TF_QUAT_Y] / n;
-    double z = q[AA_TF_QUAT_Z] / n;
-    double w = q[AA_TF_QUAT_W] / n;
-
-    /* roll*/
-    e[2] = atan2( 2.0*(w*x + y*z), 1.0 - 2.0*(x*x + y*y) );
-    /* pitch*/
-    e[1] = asin( 2.0*(w*y - x*z) );
-    /* yaw*/
-    e[0] = atan2( 2*(w*z + x*y), 1.0 - 2.0*(y*y+z*z) );
+    double u[4], R[9];
+    aa_tf_qnormalize2( q, u );
+    aa_tf_quat2rotmat( u, R );
+    aa_tf_rotmat2eulerzyx( R, e );
 }
 
 AA_API void
-- 
2.43.0


From c20b5c60d0dc0bc9b0bbde77de1e756b32bf3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 121/150] fix: slerp from a quaternion to nearly its negative

The sine was taken of the angle before it was reduced, and differed from the
sines of its parts.
---
 src/tf/quat_ord.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..3c251d2 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -568,11 +568,12 @@ aa_tf_qslerp_param( const double q1[AA_RESTRICT 4], const double q2[AA_RESTRICT
                     double *theta, double *d1, double *d2 )
 {
     *theta = fabs(aa_tf_quhypangle2(q1,q2));
-    *d1 = sin(*theta);
     if( *theta > M_PI_2 ) {
         *theta = M_PI - *theta;
+        *d1 = sin(*theta);
         *d2 = -*d1;
     } else {
+        *d1 = sin(*theta);
         *d2 = *d1;
     }
 }
-- 
2.43.0


From 508c2403e05a8f6e9d7a24e578488cb05c433c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 122/150] fix: derivative of slerp between moving orientations

It had the derivative of the arccosine wrong, and was zero where both
orientations agree.
---
 src/tf/quat_ord.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 3c251d2..774c073 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -881,6 +881,20 @@ AA_API void aa_tf_qslerpdiffalg(
 }
 
 
+/* sin(w*theta)/sin(theta), and its derivative by cos(theta) */
+static double slerpchain( double w, double theta, double *d_c )
+{
+    const double f = w * aa_tf_sinc(w*theta) / aa_tf_sinc(theta);
+    const double ww = w*w;
+    if( theta < 1e-3 ) {
+        *d_c = -w*(1-ww) * (1./3 + theta*theta * ((7-3*ww)/90 + 1./18));
+    } else {
+        const double s = sin(theta);
+        *d_c = (f*cos(theta) - w*cos(w*theta)) / (s*s);
+    }
+    return f;
+}
+
 AA_API void aa_tf_qslerpchaindiff(
     double u, double du,
     const double q1[AA_RESTRICT 4], const double dq1[AA_RESTRICT 4],
@@ -890,29 +904,18 @@ AA_API void aa_tf_qslerpchaindiff(
     // TODO: test case
     double theta, d1, d2;
     aa_tf_qslerp_param(q1, q2, &theta, &d1, &d2);
-    if( aa_feq(theta, 0, 0) ) {
-        AA_MEM_ZERO(dq, 4);
-        AA_MEM_CPY(q, q1, 4);
-        return;
-    }
-    //const double s = sin(theta);
-    const double c = cos(theta);
-    const double sa = sin((1-u)*theta);
-    const double ca = cos((1-u)*theta);
-    const double sb = sin(u*theta);
-    const double cb = cos(u*theta);
-
-    const double dtheta_c = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
-    const double dtheta =  dtheta_c / c;
+    const double sign = d2 < 0 ? -1 : 1;
+    const double sinc = aa_tf_sinc(theta);
 
-    const double a = sa / d1;
-    const double b = sb / d2;
+    /* derivative of cos(theta) */
+    const double dc = sign * (aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2));
 
-    const double da = ( ca * (dtheta*(1-u) - du*theta) ) / d1
-        - ( dtheta_c * sa ) / (d1*d1);
+    double da_c, db_c;
+    const double a = slerpchain( 1-u, theta, &da_c );
+    const double b = sign * slerpchain( u, theta, &db_c );
 
-    const double db = ( (dtheta*u + theta*du) * cb ) / d2
-        - ( dtheta_c * b ) / d1;
+    const double da = da_c*dc - du * cos((1-u)*theta) / sinc;
+    const double db = sign * (db_c*dc + du * cos(u*theta) / sinc);
 
     FOR_QUAT(i) {
         q[i] = q1[i]*a + q2[i]*b;
-- 
2.43.0


From b5b6508caa8cce9673c52f07feae8e016c997120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 123/150] fix: Jacobian of the quaternion logarithm at the
 identity

It divided zero by zero.
---
 src/tf/quat_ord.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 774c073..a914315 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -683,6 +683,19 @@ static void qjuln(
     double s2 = aa_tf_vdot(q,q);
     double s = sqrt(s2);
     double phi = atan2(s, w); // always positive
+
+    if( phi < sqrt_sqrt_epsilon ) {
+        /* as in aa_tf_qduln() */
+        double alpha = aa_tf_invsinc_series(phi);
+        double beta = aa_horner3( phi*phi, -1.0/3, 2.0/15, -2.0/63 );
+        AA_MEM_ZERO(J, 3*4);
+        J[0] = J[4] = J[8] = alpha;
+        J[9]  = beta*x;
+        J[10] = beta*y;
+        J[11] = beta*z;
+        return;
+    }
+
     double isc = phi/s;
     double a = isc/s2;
 
-- 
2.43.0


From 463ec7c7c63bc16445a03a8703246be8d5ac6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 124/150] fix: rotation between nearly parallel vectors

The test for parallel vectors depended on their lengths, the axis then taken
was arbitrary though the angle was not zero, and the angle was wrong.
---
 src/tf/quat_ord.c | 51 +++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index a914315..166b446 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -964,17 +964,16 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
                  const double v[AA_RESTRICT 3],
                  double q[AA_RESTRICT 4] )
 {
+    /* u and the direction halfway between u and v */
+    double nu = sqrt(aa_tf_vdot(u,u));
+    double nv = sqrt(aa_tf_vdot(v,v));
+    double e[3], h[3];
+    FOR_VEC(i) e[i] = u[i]/nu;
+    FOR_VEC(i) h[i] = e[i] + v[i]/nv;
+    double hh = aa_tf_vdot(h,h);
 
-    aa_tf_cross( u, v, &q[AA_TF_QUAT_X] );
-
-    double nu = aa_tf_vdot(u,u);
-    double nv = aa_tf_vdot(v,v);
-    double nuv = sqrt(nu*nv);
-    double uv = aa_tf_vdot(u,v);
-
-    double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
-
-    if( cc / nuv < sqrt_epsilon ) {
+    if( hh < 1e-20 ) {
+        /* Opposite directions: half a turn about any normal axis */
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -989,33 +988,11 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
             (fy > fz ? a_z : a_y) :
             (fx > fz ? a_z : a_x);
 
-        /* Get the quaternion axis */
-        /* TODO: verify axis direction */
-        double au[3];
-        double av[3];
-        aa_tf_cross( u, ar, au);
-        if( uv > 0 ) {
-            aa_tf_cross( v, ar, av);
-        } else {
-            aa_tf_cross( ar, v, av);
-        }
-        /* average axis from u and v */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
-
-        /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
-        double qtheta = theta/2;
-
-        double s = sin( qtheta );
-        double m = s / sqrt(aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]));
-
-        /* scale axis by sign / magnitude */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] *= m;
-
-        q[AA_TF_QUAT_W] = cos(qtheta);
-
+        aa_tf_cross( e, ar, &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = 0;
     } else {
-        q[AA_TF_QUAT_W] = uv + nuv;
-        aa_tf_qnormalize(q);
+        aa_tf_cross( e, h, &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = hh/2;
     }
+    aa_tf_qnormalize(q);
 }
-- 
2.43.0


From 3bd18e6719aecc50953155697a7f4b3a70fd16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 125/150] fix: rotation vector of the negated identity

It was infinity times zero.
---
 src/tf/conv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index d38e4b3..76a2154 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -237,8 +237,10 @@ aa_tf_quat2rotvec( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 3] )
     double a;
     if (theta < sqrt(sqrt(DBL_EPSILON))) {
         a = 2*aa_tf_invsinc_series(theta);
-    } else {
+    } else if (qs > 0) {
         a = 2*theta/qs;
+    } else {
+        a = 2;  /* negated identity */
     }
 
     FOR_VEC(i) r[i] = a*q_v[i];
-- 
2.43.0


From 691d1201e5c066f2ab247103003709a888f08d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:05 +0000
Subject: [PATCH 126/150] fix: nearest rotation vector more than three turns
 away

---
 src/tf.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/tf.c b/src/tf.c
index 558aacb..148d21b 100644
--- a/src/tf.c
+++ b/src/tf.c
@@ -203,22 +203,14 @@ void aa_tf_rotvec_permute( const double rv[restrict 3], int k,
 void aa_tf_rotvec_near( const double rv[restrict 3],
                         const double rv_near[restrict 3],
                         double rv_p[restrict 3] ) {
-    // FIXME: probably a more efficient solution
-    double ssd[7];
-    double arv[sizeof(ssd)/sizeof(double)][3];
-
-    AA_MEM_CPY(arv[0],rv,3);
-    aa_tf_rotvec_permute( rv, 1, arv[1] );
-    aa_tf_rotvec_permute( rv, 2, arv[2] );
-    aa_tf_rotvec_permute( rv, 3, arv[3] );
-    aa_tf_rotvec_permute( rv, -1, arv[4] );
-    aa_tf_rotvec_permute( rv, -2, arv[5] );
-    aa_tf_rotvec_permute( rv, -3, arv[6] );
-
-    for( size_t i = 0; i < sizeof(ssd)/sizeof(double); i++ ) {
-        ssd[i] = aa_la_ssd( 3, rv_near, arv[i] );
+    double n = sqrt(dot3(rv,rv));
+    if( n > 0 ) {
+        /* whole turns from rv to the projection of rv_near on the axis */
+        double turns = round( (dot3(rv,rv_near)/n - n) / (2*M_PI) );
+        FOR_VEC(i) rv_p[i] = rv[i] + turns*2*M_PI*(rv[i]/n);
+    } else {
+        AA_MEM_CPY(rv_p, rv, 3);
     }
-    AA_MEM_CPY( rv_p, arv[ aa_fminloc(7, ssd) ], 3 );
 }
 
 void aa_tf_axang2rotvec( const double axang[restrict 4],
-- 
2.43.0


From a6e4ce45dd879367d61d371cea03f4086c0e8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 127/150] fix: the Jacobian of a chain without joints aborted
 or read before its frames

---
 src/rx/scene_kin.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d3b39c3..9bbc39a 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -458,6 +458,9 @@ aa_rx_sg_sub_jac_twist_fill( const struct aa_rx_sg_sub *ssg,
                              const struct aa_rx_fk *fk,
                              struct aa_dmat *J )
 {
+    aa_la_check_size(aa_rx_sg_sub_config_count(ssg), J->cols);
+    if( 0 == J->cols ) return; /* no joints, no columns */
+
     struct aa_dmat Jr, Jp;
     aa_dmat_view_block(&Jp, J, AA_TF_DX_V, 0, 3, J->cols);
     aa_dmat_view_block(&Jr, J, AA_TF_DX_W, 0, 3, J->cols);
@@ -473,6 +476,8 @@ aa_rx_sg_sub_jac_vel_fill2( const struct aa_rx_sg_sub *ssg,
     size_t n_frames = aa_rx_sg_sub_frame_count(ssg);
     size_t n_configs = aa_rx_sg_sub_config_count(ssg);
 
+    if( 0 == n_configs ) return; /* no joints, perhaps no frames */
+
     aa_rx_frame_id frame_ee = ssg->frames[n_frames-1];
     double *E_ee = aa_rx_fk_ref(fk,frame_ee);
     const double *pe = E_ee + AA_TF_QUTR_T;
@@ -556,6 +561,9 @@ aa_rx_sg_sub_jac_vel_fill( const struct aa_rx_sg_sub *ssg,
                            const struct aa_rx_fk *fk,
                            struct aa_dmat *J )
 {
+    aa_la_check_size(aa_rx_sg_sub_config_count(ssg), J->cols);
+    if( 0 == J->cols ) return; /* no joints, no columns */
+
     struct aa_dmat Jr, Jp;
     aa_dmat_view_block(&Jp, J, AA_TF_DX_V, 0, 3, J->cols);
     aa_dmat_view_block(&Jr, J, AA_TF_DX_W, 0, 3, J->cols);
@@ -571,6 +579,8 @@ aa_rx_sg_chain_jacobian( const struct aa_rx_sg *sg,
 {
     (void)chain_configs; /* Use these for multivariate frame support */
 
+    if( 0 == n_frames ) return; /* no end-effector, no columns */
+
     aa_rx_frame_id frame_ee = chain_frames[n_frames-1];
     const double *pe = &TF_abs[(size_t)frame_ee * ld_TF] + AA_TF_QUTR_T;
 
-- 
2.43.0


From 1bbef3a1a929acfd2c92c829d98a4c39f31b1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 128/150] fix: aa_rx_sg_sub_jac_*_fill2() were declared with
 the two blocks exchanged

---
 include/amino/rx/scene_sub.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/amino/rx/scene_sub.h b/include/amino/rx/scene_sub.h
index 5d4cd52..20658f9 100644
--- a/include/amino/rx/scene_sub.h
+++ b/include/amino/rx/scene_sub.h
@@ -260,7 +260,7 @@ aa_rx_sg_sub_jac_twist_get( const struct aa_rx_sg_sub *ssg, struct aa_mem_region
 AA_API void
 aa_rx_sg_sub_jac_twist_fill2( const struct aa_rx_sg_sub *ssg,
                               const struct aa_rx_fk *fk,
-                              struct aa_dmat *Jp, struct aa_dmat *Jr );
+                              struct aa_dmat *Jr, struct aa_dmat *Jp );
 
 /**
  * Fill in the blocks of the twist jacobian.
@@ -303,7 +303,7 @@ aa_rx_sg_sub_jac_vel_get( const struct aa_rx_sg_sub *ssg, struct aa_mem_region *
 AA_API void
 aa_rx_sg_sub_jac_vel_fill2( const struct aa_rx_sg_sub *ssg,
                             const struct aa_rx_fk *fk,
-                            struct aa_dmat *Jp, struct aa_dmat *Jr );
+                            struct aa_dmat *Jr, struct aa_dmat *Jp );
 
 AA_API void
 aa_rx_sg_sub_jac_vel_fill( const struct aa_rx_sg_sub *ssg,
-- 
2.43.0


From a80601e0cd5c4ebe79f9983aa3f22e6bfe76ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 129/150] fix: python: keep the owner of a view's memory alive

---
 python/amino/mat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index db5f909..4d852c3 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -153,6 +153,7 @@ class DVec(ctypes.Structure, VecMixin):
             stop = self._size if key.stop is None else key.stop
             x = DVec()
             libamino.aa_dvec_slice(self, start, stop, step, x)
+            x._owner = self  # keep the viewed data alive
             return x
         if key < 0 or key >= len(self):
             raise IndexError(key)
@@ -319,6 +320,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_row(i)
         v = DVec()
         libamino.aa_dmat_row_vec(self, i, v)
+        v._owner = self  # keep the viewed data alive
         return v
 
     def col_vec(self, j):
@@ -326,12 +328,14 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_col(j)
         v = DVec()
         libamino.aa_dmat_col_vec(self, j, v)
+        v._owner = self  # keep the viewed data alive
         return v
 
     def diag_vec(self):
         """Returns the diagonal as a DVec."""
         v = DVec()
         libamino.aa_dmat_diag_vec(self, v)
+        v._owner = self  # keep the viewed data alive
         return v
 
     def transpose(self):
@@ -426,6 +430,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
                 raise IndexError()
             M = DMat()
             libamino.aa_dmat_block(self, i.start, j.start, i.stop, j.stop, M)
+            M._owner = self  # keep the viewed data alive
             return M
         self._check_index(i, j)
         return self._data[i + j * self._ld]
-- 
2.43.0


From 6df54fca157025975759028e1de95a4bcd72d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 130/150] fix: python: check gemm and gemv sizes of the
 transposed operands

---
 python/amino/mat.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 4d852c3..eac171b 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -130,9 +130,10 @@ class DVec(ctypes.Structure, VecMixin):
         x -- a vector
         beta -- a scalar
         """
-        if A.rows != len(self):
+        m, n = A.op_shape(trans)
+        if m != len(self):
             raise IndexError()
-        if A.cols != len(x):
+        if n != len(x):
             raise IndexError()
         libamino.aa_dmat_gemv(trans, alpha, A, x, beta, self)
         return self
@@ -315,6 +316,12 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
     def __len__(self):
         return self._rows * self._cols
 
+    def op_shape(self, trans):
+        """Rows and columns of op(self), for a CBLAS transpose option."""
+        if trans == CBLAS_NO_TRANS:
+            return (self.rows, self.cols)
+        return (self.cols, self.rows)
+
     def row_vec(self, i):
         """Returns the i'th row as a DVec."""
         self._check_row(i)
@@ -386,7 +393,9 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             beta: scale factor for self
         """
         C = self
-        if (A.rows != C.rows or A.cols != B.rows or B.cols != C.cols):
+        m, k = A.op_shape(transA)
+        l, n = B.op_shape(transB)
+        if (m != C.rows or k != l or n != C.cols):
             raise IndexError()
         libamino.aa_dmat_gemm(transA, transB, alpha, A, B, beta, C)
         return C
-- 
2.43.0


From 63e05071bb6c844fad4ba5c25ba036ab9eabe9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 131/150] fix: python: spell DVec.__isub__ correctly

---
 python/amino/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index eac171b..3764324 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -193,7 +193,7 @@ class DVec(ctypes.Structure, VecMixin):
         """Add a scalar or vector to self"""
         return DVec(self).__iadd__(other)
 
-    def __isub(self, other):
+    def __isub__(self, other):
         """Subtract a scalar or vector from self"""
         if isinstance(other, DVec):
             return self.axpy(-1, other)
-- 
2.43.0


From 9349f24815eb7c2db07c05828839c4d1b85f2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 132/150] fix: python: TfVec.to_dvec must not share one default
 result

---
 python/amino/tf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 4d9cfc4..3f49dea 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -1247,8 +1247,10 @@ class TfVec(ctypes.Structure):
         else:
             self._second()[key - 3] = item
 
-    def to_dvec(self, vec=DVec(6)):
+    def to_dvec(self, vec=None):
         """Copies self to a vec."""
+        if vec is None:
+            vec = DVec(6)
         vec.copy_from(self)
         return vec
 
-- 
2.43.0


From f35ed4d694157ad35466b9fc0e2a80af7e158a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 133/150] fix: python: convert rotations to Euler angles
 without a given result

---
 python/amino/tf.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 3f49dea..330c9ea 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -352,6 +352,10 @@ class EulerRPY(EulerZYX):
             if len(arg) != 3:
                 raise IndexError()
             arg = (arg[2], arg[1], arg[0])
+        elif arg is not None:
+            # y is the yaw here, so convert as plain ZYX angles
+            e = EulerZYX(arg)
+            arg = (e.z, e.y, e.x)
         super().__init__(arg)
 
     @property
@@ -511,12 +515,17 @@ class Quat(ctypes.Structure, VecMixin):
         """Converts to an axis-angle and store in a"""
         libamino.aa_tf_quat2axang(self, a)
 
-    def to_eulerzyx(self):
-        """Converts to an euler zyx angle representation"""
+    def to_eulerzyx(self, e=None):
+        """Converts to an euler zyx angle representation.
+
+        The result is stored in e, or in a new object if e is None.
+        """
         ang = (ctypes.c_double * 3)()
         libamino.aa_tf_quat2eulerzyx(self, ang)
-        x = [ang[0], ang[1], ang[2]]
-        return EulerZYX(x)
+        if e is None:
+            e = EulerZYX()
+        e.z, e.y, e.x = ang
+        return e
 
     def vector(self):
         """Returns the vector (xyz) part"""
-- 
2.43.0


From 2dda3bbde9ce12312471f4c6895559bac89ea774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 134/150] fix: python: read the values of geometry options

---
 python/amino/scenegraph.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 7b850ce..1693df4 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -88,7 +88,7 @@ class GeomOpt:
         libamino.aa_rx_geom_opt_destroy(self._ptr)
 
     def _get_val(self, func):
-        return func(self._ptr).value
+        return func(self._ptr)
 
     def _get_val3(self, func0, func1, func2):
         return [
@@ -271,29 +271,36 @@ libamino.aa_rx_geom_opt_set_scale.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.c_double
 ]
 
+libamino.aa_rx_geom_opt_get_no_shadow.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_no_shadow.restype = ctypes.c_int
+libamino.aa_rx_geom_opt_get_visual.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_visual.restype = ctypes.c_int
+libamino.aa_rx_geom_opt_get_collision.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_collision.restype = ctypes.c_int
+
 libamino.aa_rx_geom_opt_get_scale.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_scale.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_scale.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_alpha.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_alpha.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_alpha.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_color_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_blue.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_green.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_specular_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_specular_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_blue.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_green.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_box.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.POINTER(Vec3)
-- 
2.43.0


From b0f15c2c9af1f3020b885734f659ea6e8daf88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 135/150] fix: python: ensure_config_name must give the name of
 the configuration

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 1693df4..aaadf96 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -526,7 +526,7 @@ class SceneGraph:
 
         if value >= self.config_count or value < 0:
             raise IndexError("Invalid config id: %d" % value)
-        return self.frame_name(value)
+        return self.config_name(value)
 
     def ensure_frame_id(self, value):
         """Ensures value is a frame id, converting strings if necessary.
-- 
2.43.0


From 55b2c41df30c2fda8ea3b720c931c3e4733e154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 136/150] fix: python: reparent must convert the relative
 transform

---
 python/amino/scenegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index aaadf96..f54f107 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -425,7 +425,8 @@ class SceneGraph:
         """Change the parent of frame in the scenegraph."""
         frame = ensure_cstring(frame)
         new_parent = ensure_cstring(new_parent)
-        libamino.aa_rx_sg_reparent_name(self._ptr, new_parent, frame, rel_tf)
+        libamino.aa_rx_sg_reparent_name(self._ptr, new_parent, frame,
+                                        QuatTrans.ensure(rel_tf))
 
 
     def load(self, filename, name, root=""):
-- 
2.43.0


From 697e05ad826ca51857605f92260e27d3e2d7d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 137/150] fix: python: a geometry object and the scene must
 each hold a reference

---
 python/amino/scenegraph.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index f54f107..6d6ede3 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -190,6 +190,9 @@ class Geom:
     def __init__(self, _ptr):
         self._ptr = _ptr
 
+    def __del__(self):
+        libamino.aa_rx_geom_destroy(self._ptr)
+
     @staticmethod
     def box(opt, dimension):
         """Creates a box geometry object."""
@@ -337,6 +340,12 @@ libamino.aa_rx_geom_torus.argtypes = [
 libamino.aa_rx_geom_torus.restype = ctypes.POINTER(RxGeom)
 
 
+libamino.aa_rx_geom_copy.argtypes = [ctypes.POINTER(RxGeom)]
+libamino.aa_rx_geom_copy.restype = ctypes.POINTER(RxGeom)
+
+libamino.aa_rx_geom_destroy.argtypes = [ctypes.POINTER(RxGeom)]
+
+
 class SceneGraph:
     """A scene graph."""
     __slots__ = ['_ptr']
@@ -414,7 +423,9 @@ class SceneGraph:
         if geom is None:
             return
         if isinstance(geom, Geom):
-            libamino.aa_rx_geom_attach(self._ptr, name, geom._ptr)
+            # The scene takes its own reference
+            libamino.aa_rx_geom_attach(self._ptr, name,
+                                       libamino.aa_rx_geom_copy(geom._ptr))
         elif isinstance(geom, (list, tuple)):
             for elt in geom:
                 self.attach_geom(name, elt)
-- 
2.43.0


From 02ab6ff561b7338636b3f95f9a963e13bbb6dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 138/150] fix: python: compute forward kinematics of the
 initial configuration

---
 python/amino/kinematics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/amino/kinematics.py b/python/amino/kinematics.py
index 5d53090..bf2b9f0 100644
--- a/python/amino/kinematics.py
+++ b/python/amino/kinematics.py
@@ -56,6 +56,8 @@ class SceneFK:
         self.scenegraph = scenegraph
         self._ptr = libamino.aa_rx_fk_malloc(scenegraph._ptr)
         self._q = DVec(scenegraph.config_count)
+        self._q.zero()
+        libamino.aa_rx_fk_all(self._ptr, self._q)
 
     def __del__(self):
         libamino.aa_rx_fk_destroy(self._ptr)
-- 
2.43.0


From e0ee00b9db0c26ffd1c92706951839ba820b3e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 139/150] fix: python: the absolute pose of the root frame is
 the identity

---
 python/amino/kinematics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/amino/kinematics.py b/python/amino/kinematics.py
index bf2b9f0..eaa3fd4 100644
--- a/python/amino/kinematics.py
+++ b/python/amino/kinematics.py
@@ -38,7 +38,7 @@ import ctypes
 from amino.lib import libamino
 from amino.tf import QuatTrans
 from amino.mat import DVec, DMat
-from amino.scenegraph import RxSg, RxSgSub
+from amino.scenegraph import RxSg, RxSgSub, FRAME_ROOT
 
 ########################
 ## Forward Kinematics ##
@@ -76,6 +76,8 @@ class SceneFK:
             libamino.aa_rx_fk_get_rel_qutr(self._ptr, parent, child, E)
         else:
             key = self.scenegraph.ensure_frame_id(key)
+            if key == FRAME_ROOT:
+                return QuatTrans.identity()
             libamino.aa_rx_fk_get_abs_qutr(self._ptr, key, E)
         return E
 
-- 
2.43.0


From 0e092b69d66094e29fe62fc7fea828f484a8d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 140/150] fix: python: raise the documented error for reserved
 frames given by name

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 6d6ede3..3155c5d 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -569,7 +569,7 @@ class SceneGraph:
         """
         r = self.ensure_frame_id(value)
         if r < 0:
-            raise IndexError("Invalid frame id: %d" % value)
+            raise IndexError("Invalid frame id: %s" % value)
         return r
 
     def ensure_frame_name(self, value):
-- 
2.43.0


From 3fd6c0ffab5f80815e3dd5b13a1a65194d5e3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 141/150] fix: python: motion plans must keep their
 sub-scenegraph and free the path

---
 python/amino/motionplanning.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/amino/motionplanning.py b/python/amino/motionplanning.py
index e3ccfa9..917a199 100644
--- a/python/amino/motionplanning.py
+++ b/python/amino/motionplanning.py
@@ -42,15 +42,20 @@ from amino.defaults import *
 
 LIBAMINOMP = ctypes.CDLL("libamino-planning.so")
 
+LIBC = ctypes.CDLL(None)
+LIBC.free.argtypes = [ctypes.c_void_p]
+LIBC.free.restype = None
+
 class RxMp(ctypes.Structure):
     """Opaque type for struct aa_rx_mp"""
 
 class MotionPlan(object):
     """Context object for motion planning."""
 
-    __slots__ = ["_ptr"]
+    __slots__ = ["_ptr", "_ssg"]
 
     def __init__(self, ssg):
+        self._ssg = ssg  # used for as long as this object exists
         self._ptr = LIBAMINOMP.aa_rx_mp_create(ssg._ptr)
 
 
@@ -95,6 +100,8 @@ class MotionPlan(object):
                 cord.append(path[i+j])
             py_path.append(cord)
 
+        LIBC.free(path)
+
         return py_path
 
 
-- 
2.43.0


From 5637f51e78cb65e9d1d7030936171a7c97bce638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 142/150] fix: python: raise the documented error when a scene
 plugin cannot be loaded

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 3155c5d..eabcdad 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -455,7 +455,7 @@ class SceneGraph:
         name = ensure_cstring(name)
         filename = ensure_cstring(filename)
         r = libamino.aa_rx_dl_sg_at(filename, name, self._ptr, root)
-        if r is None:
+        if not r:
             raise LookupError("Could not load scene %s:%s" % (filename, name))
 
     def init(self):
-- 
2.43.0


From f7bf051e07a4a4097f7cb799533c3f1d45a47514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 143/150] fix: python: print a DMat as a DMat, not as a TfMat

---
 python/amino/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 3764324..b98ccfa 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -526,7 +526,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         raise TypeError('Cannot subtract matrix with %s' % type(other))
 
     def __str__(self):
-        return self._str_helper("TfMat.row_matrix")
+        return self._str_helper("DMat.row_matrix")
 
 
 #---------------#
-- 
2.43.0


From f6cbb12278d10c6d914d3290dd733f8bd74f4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 144/150] fix: make all steps of the C++ matrix row and column
 iterators compile

---
 include/amino/mat.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 0bbdbb6..ed7a78d 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -843,7 +843,7 @@ private:
 
 
         C tmp () {
-            return C (vec.len(), vec.data(), vec.inc());
+            return C(*static_cast<C*>(this));
         }
 
         double *&data() const {
@@ -901,7 +901,7 @@ private:
 
         C &operator-- () {
             this->data()--;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C operator-- (int) {
@@ -912,12 +912,12 @@ private:
 
         C &operator+= (size_type s) {
             this->data() += s;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C &operator-= (size_type s) {
             this->data() -= s;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
     };
 
@@ -969,7 +969,7 @@ private:
 
         C &operator-- () {
             this->data() -= ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C operator-- (int) {
@@ -980,12 +980,12 @@ private:
 
         C &operator+= (size_type s) {
             this->data() += s*ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C &operator-= (size_type s) {
             this->data() -= s*ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
     protected:
-- 
2.43.0


From 293a4e731e82bbf3795ffc338bcd741b65da597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 145/150] fix: use the step of a C++ vector slice

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index ed7a78d..82bbf09 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -452,7 +452,7 @@ public:
     // Slicing
     DVec slice(size_type start, size_type stop, size_type step = 1) {
         struct aa_dvec tmp;
-        aa_dvec_slice(this, start, stop, stop, &tmp);
+        aa_dvec_slice(this, start, stop, step, &tmp);
         return DVec(tmp);
     }
 
-- 
2.43.0


From ac3dbf766fc3e67df771c487ba2b3ef37e4bde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 146/150] fix: keep the increment of a C++ view of constant
 data

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 82bbf09..397d1d5 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -438,7 +438,7 @@ public:
     }
 
     static const DVec view(size_type len, const double *data, size_type inc = 1) {
-        return DVec::view(len, const_cast<double*>(data));
+        return DVec::view(len, const_cast<double*>(data), inc);
     }
 
     static DVec view(struct aa_dvec *x) {
-- 
2.43.0


From 522b32e57a46e2935ea6198cd28bfd7ae25cd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 147/150] fix: assign the elements of a C++ matrix, as for
 every other expression

---
 include/amino/mat.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 397d1d5..8057b96 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -802,6 +802,11 @@ public:
         return *this;
     }
 
+    DMat & operator= (DMat const  &rhs) {
+        MatEval<DMat>(rhs,*this);
+        return *this;
+    }
+
 
     DMatExpTranspose transpose() const {
         return DMatExpTranspose(*this);
-- 
2.43.0


From 0e394596d035161766e4e96f7926b9bd5a8e4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 148/150] fix: make the C++ vector initialization from a range
 compile

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 8057b96..545888a 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -428,7 +428,7 @@ public:
     template <typename A, typename X>
     static DVec init(A a, const X &first, const X &last) {
         DVec v = DVec::alloc(a, last - first);
-        DVec::assign(v, first, last);
+        DVec::assign(&v, first, last);
         return v;
     }
 
-- 
2.43.0


From 5cc92d6b814666673202499008b22ca019accfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:15 +0000
Subject: [PATCH 149/150] fix: bitwise operations on bit vectors end and stay
 inside

aa_bits_and(), aa_bits_or() and aa_bits_xor() never decremented their
counter: they looped forever on the word past the end, for any set
that is not empty.
---
 include/amino/mem.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..6d557cf 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,8 +698,8 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
-        a[n_words] &= b[n_words];
+    for( size_t i = 0; i < n_words; i++ ) {
+        a[i] &= b[i];
     }
 }
 
@@ -710,8 +710,8 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
-        a[n_words] |= b[n_words];
+    for( size_t i = 0; i < n_words; i++ ) {
+        a[i] |= b[i];
     }
 }
 
@@ -722,8 +722,8 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
-        a[n_words] ^= b[n_words];
+    for( size_t i = 0; i < n_words; i++ ) {
+        a[i] ^= b[i];
     }
 }
 
-- 
2.43.0


From 19969942cd60a9985b317f5761d2747ef4b2fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 150/150] fix: green and blue of geometry options were read
 back swapped

---
 include/amino/rx/scene_geom.h |  2 +-
 python/amino/scenegraph.py    | 12 ++++++------
 src/rx/geom_opt.c             |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scene_geom.h b/include/amino/rx/scene_geom.h
index 182186f..30bbeb4 100644
--- a/include/amino/rx/scene_geom.h
+++ b/include/amino/rx/scene_geom.h
@@ -136,7 +136,7 @@ aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt );
 AA_API void
 aa_rx_geom_opt_set_color3 (
     struct aa_rx_geom_opt *opt,
-    double red, double blue, double green );
+    double red, double green, double blue );
 
 /**
  * Set alpha (transparency) option
diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index eabcdad..1e34f19 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -128,17 +128,17 @@ class GeomOpt:
 
     @property
     def color(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_color_red,
-                              libamino.aa_rx_geom_opt_get_color_blue,
-                              libamino.aa_rx_geom_opt_get_color_green)
+                              libamino.aa_rx_geom_opt_get_color_green,
+                              libamino.aa_rx_geom_opt_get_color_blue)
 
     @property
     def specular(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_specular_red,
-                              libamino.aa_rx_geom_opt_get_specular_blue,
-                              libamino.aa_rx_geom_opt_get_specular_green)
+                              libamino.aa_rx_geom_opt_get_specular_green,
+                              libamino.aa_rx_geom_opt_get_specular_blue)
 
     @visual.setter
     def visual(self, value):
diff --git a/src/rx/geom_opt.c b/src/rx/geom_opt.c
index 57fa5eb..ec81e00 100644
--- a/src/rx/geom_opt.c
+++ b/src/rx/geom_opt.c
@@ -107,12 +107,12 @@ aa_rx_geom_opt_get_color_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_color_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[1];
+    return opt->color[2];
 }
 AA_API double
 aa_rx_geom_opt_get_color_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[2];
+    return opt->color[1];
 }
 AA_API double
 aa_rx_geom_opt_get_alpha ( const struct aa_rx_geom_opt *opt )
@@ -128,12 +128,12 @@ aa_rx_geom_opt_get_specular_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_specular_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[1];
+    return opt->specular[2];
 }
 AA_API double
 aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[2];
+    return opt->specular[1];
 }
 
 AA_API void
-- 
2.43.0

