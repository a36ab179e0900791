/* Wavefront OBJ and MTL files: generated text, delivered through faulty files,
 * judged by a line-oriented reference reader over the bytes really delivered. */
#include <amino.h>
#include <amino/mem.h>
#include <amino/rx/wavefront.h>
#include <math.h>
#include "util.h"

AA_API double aa_rx_wf_material_get_specular_weight(const struct aa_rx_wf_material *);

struct txt { char *s; size_t n, cap; };
static void put(struct txt *b, const char *s) {
    size_t n = strlen(s);
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->s = realloc(b->s, b->cap); }
    memcpy(b->s + b->n, s, n + 1); b->n += n;
}
static void blanks(struct txt *b, int least) { int k = least + (op_choose(4) == 1); while (k--) put(b, op_choose(5) == 1 ? "\t" : " "); }
static void number(struct txt *b) {
    char t[80];
    double v = op_unit() * (op_choose(4) == 3 ? 1e4 : 4);
    switch (op_choose(8)) {
    case 0: snprintf(t, sizeof t, "%d", (int)v); break;
    case 1: snprintf(t, sizeof t, "%.6f", v); break;
    case 2: snprintf(t, sizeof t, "%.3f", v); break;
    case 3: snprintf(t, sizeof t, "%.12f", v / 3); break;
    case 4: snprintf(t, sizeof t, "%.25f", v / 7); break;
    case 5: snprintf(t, sizeof t, "%d.", (int)v); break;
    case 6: snprintf(t, sizeof t, "%.4f%c%d", v, "eds"[op_choose(3)], op_range(-3, 3)); break;
    default: snprintf(t, sizeof t, "-0.%06d", op_range(0, 999999)); break;
    }
    put(b, t);
}
static void eol(struct txt *b) { if (op_choose(5) == 1) { blanks(b, 0); if (op_choose(2)) put(b, "# c 1 2"); } put(b, "\n"); }

/* ---- reference reader ------------------------------------------------------ */
#define RMAX 4096
struct rmat { char name[40]; double ns, ks[3], ka[3], ke[3], kd[3], d, ni; int hns, hks, hka, hke, hkd, hd, hni; };
struct rmtl { char file[40]; struct rmat m[64]; int n; };
struct robj {
    double v[RMAX], n[RMAX]; int nv, nn;
    int32_t vi[RMAX], ni[RMAX], ti[RMAX], mi[RMAX]; int nf;
    char mat[64][40]; int nmat; int cur;
    struct rmtl mtl[4]; int nmtl;
};
struct cur { const char *p; };
static int blk(struct cur *c) { int k = 0; while (*c->p == ' ' || *c->p == '\t') { c->p++; k++; } return k; }
static int digits(struct cur *c) { int k = 0; while (*c->p >= '0' && *c->p <= '9') { c->p++; k++; } return k; }
static int rnum(struct cur *c, double *x) {
    const char *s = c->p;
    char t[128]; size_t n = 0;
    if (*c->p == '-') c->p++;
    if (!digits(c)) return -1;
    if (*c->p == '.') { c->p++; digits(c); }
    if (*c->p == 'e' || *c->p == 'd' || *c->p == 's') {
        struct cur q = {c->p + 1};
        if (*q.p == '-') q.p++;
        if (digits(&q)) c->p = q.p;
    }
    for (; s < c->p && n + 1 < sizeof t; s++) t[n++] = (*s == 'd' || *s == 's') ? 'e' : *s;
    t[n] = 0;
    *x = strtod(t, NULL);
    return 0;
}
static int rnums(struct cur *c, int n, double *x) {
    for (int i = 0; i < n; i++) {
        if (rnum(c, x + i)) return -1;
        if (i + 1 < n && !blk(c)) return -1;
    }
    return 0;
}
static int rend(struct cur *c) { blk(c); return (*c->p == 0 || *c->p == '#') ? 0 : -1; }
static int kw(struct cur *c, const char *w) {
    size_t n = strlen(w);
    if (strncmp(c->p, w, n) || (c->p[n] != ' ' && c->p[n] != '\t')) return 0;
    c->p += n; blk(c);
    return 1;
}
static int rname(struct cur *c, char *out, size_t max) {
    size_t n = 0;
    while (*c->p > 32 && *c->p < 127) { if (n + 1 < max) out[n++] = *c->p; c->p++; }
    out[n] = 0;
    return n ? 0 : -1;
}
static int ref_mtl(const char *data, size_t len, struct rmtl *m, int *unterminated);
/* one line (no newline); 0 fine, -1 malformed */
static int ref_obj_line(const char *line, struct robj *o, const char *dir) {
    struct cur c = {line};
    double x[3];
    blk(&c);
    if (*c.p == 0 || *c.p == '#') return 0;
    if (kw(&c, "v")) { if (rnums(&c, 3, x) || rend(&c)) return -1; for (int i = 0; i < 3; i++) o->v[o->nv++] = x[i]; return 0; }
    if (kw(&c, "vn")) { if (rnums(&c, 3, x) || rend(&c)) return -1; for (int i = 0; i < 3; i++) o->n[o->nn++] = x[i]; return 0; }
    if (kw(&c, "vt")) return rnums(&c, 2, x) || rend(&c) ? -1 : 0;
    if (kw(&c, "s") || kw(&c, "l")) return 0;
    if (kw(&c, "o")) { char t[80]; return rname(&c, t, sizeof t) || rend(&c) ? -1 : 0; }
    if (kw(&c, "usemtl")) {
        char t[40];
        if (rname(&c, t, sizeof t) || rend(&c)) return -1;
        int i;
        for (i = 0; i < o->nmat; i++) if (!strcmp(o->mat[i], t)) break;
        if (i == o->nmat) strcpy(o->mat[o->nmat++], t);
        o->cur = i;
        return 0;
    }
    if (kw(&c, "mtllib")) {
        char t[40], path[100]; int err = 0, un = 0; size_t n, dn;
        if (rname(&c, t, sizeof t)) return -1;
        snprintf(path, sizeof path, "%s/%s", dir, t);
        if (!simfs_exists(path)) return -1;
        struct rmtl *m = &o->mtl[o->nmtl++];
        strcpy(m->file, t);
        const char *d = simfs_get(path, &n);
        dn = simfs_delivered(path, &err);
        if (err || ref_mtl(d, dn, m, &un)) return -1;
        return rend(&c);
    }
    if (kw(&c, "f")) {
        int32_t f[3][3];
        for (int i = 0; i < 3; i++) {
            const char *s = c.p;
            if (!digits(&c) || *c.p != '/') return -1;
            f[i][0] = (int32_t)atol(s) - 1;
            s = ++c.p;
            if (digits(&c)) f[i][1] = (int32_t)atol(s) - 1; else f[i][1] = AA_RX_WF_OBJ_FACE_NONE;
            if (*c.p != '/') return -1;
            s = ++c.p;
            if (!digits(&c)) return -1;
            f[i][2] = (int32_t)atol(s) - 1;
            if (i < 2 && !blk(&c)) return -1;
        }
        if (rend(&c)) return -1;
        for (int i = 0; i < 3; i++) { o->vi[3 * o->nf + i] = f[i][0]; o->ti[3 * o->nf + i] = f[i][1]; o->ni[3 * o->nf + i] = f[i][2]; }
        o->mi[o->nf++] = o->cur;
        return 0;
    }
    return -1;
}
static int ref_mtl_line(const char *line, struct rmtl *m) {
    struct cur c = {line};
    double x[3];
    blk(&c);
    if (*c.p == 0 || *c.p == '#') return 0;
    if (kw(&c, "newmtl")) {
        struct rmat *r = &m->m[m->n];
        memset(r, 0, sizeof *r);
        if (rname(&c, r->name, sizeof r->name) || rend(&c)) return -1;
        m->n++;
        return 0;
    }
    if (kw(&c, "illum") || kw(&c, "map_Kd")) return 0;
    static const char *const W[] = {"Ns", "Ni", "d", "Ka", "Kd", "Ks", "Ke"};
    for (int i = 0; i < 7; i++) if (kw(&c, W[i])) {
        if (rnums(&c, i < 3 ? 1 : 3, x) || rend(&c) || !m->n) return -1;
        struct rmat *r = &m->m[m->n - 1];
        if (i == 0) { r->ns = x[0]; r->hns = 1; }
        else if (i == 1) { r->ni = x[0]; r->hni = 1; }
        else if (i == 2) { r->d = x[0]; r->hd = 1; }
        else { double *d = i == 3 ? r->ka : i == 4 ? r->kd : i == 5 ? r->ks : r->ke; memcpy(d, x, sizeof x); *(i == 3 ? &r->hka : i == 4 ? &r->hkd : i == 5 ? &r->hks : &r->hke) = 1; }
        return 0;
    }
    return -1;
}
typedef int (*linefn)(const char *, void *, const char *);
static int l_obj(const char *l, void *o, const char *dir) { return ref_obj_line(l, o, dir); }
static int l_mtl(const char *l, void *o, const char *dir) { (void)dir; return ref_mtl_line(l, o); }
static int ref_lines(const char *data, size_t len, linefn f, void *o, const char *dir, int *unterminated) {
    size_t i = 0;
    *unterminated = 0;
    while (i < len) {
        size_t k = i;
        while (k < len && data[k] != '\n') k++;
        char *line = malloc(k - i + 1);
        memcpy(line, data + i, k - i); line[k - i] = 0;
        if (k == len) *unterminated = 1;
        int r = f(line, o, dir);
        free(line);
        if (r) return r;
        i = k + 1;
    }
    return 0;
}
static int ref_mtl(const char *data, size_t len, struct rmtl *m, int *un) { return ref_lines(data, len, l_mtl, m, "", un); }

/* ---- generators ----------------------------------------------------------------- */
static const char *const matname[8] = {"m1", "m", "m12", "M1", "x", "xm1", "m1.a", "m1_with_a_longer_name"};
static void gen_mtl(struct txt *b, int bad) {
    int nm = 0;
    for (int k = op_range(0, op_choose(6) == 5 ? 40 : 12); k > 0; k--) {
        char t[60];
        blanks(b, 0);
        uint32_t c = op_choose(bad ? 12 : 11);
        if (!nm && c >= 3 && c <= 8 && !(bad && op_chance(1, 4))) c = 0;
        switch (c) {
        case 0: snprintf(t, sizeof t, "newmtl %s", matname[op_choose(8)]); put(b, t); nm++; eol(b); break;
        case 1: eol(b); break;
        case 2: put(b, "# c\n"); break;
        case 3: put(b, "Ns "); number(b); eol(b); break;
        case 4: put(b, "Ni "); number(b); eol(b); break;
        case 5: put(b, "d "); number(b); eol(b); break;
        case 6: case 7: case 8: {
            static const char *const w[] = {"Ka", "Kd", "Ks", "Ke"};
            put(b, w[op_choose(4)]); blanks(b, 1);
            for (int i = 0; i < 3; i++) { number(b); if (i < 2) blanks(b, 1); }
            eol(b); break; }
        case 9: put(b, "illum 2\n"); break;
        case 10: put(b, "map_Kd t.png\n"); break;
        default: {
            static const char *const w[] = {"Kd 1 \n2 3\n", "Kd 1 2\n", "Ns x\n", "newmtl \nfoo\n", "bogus\n", "d \n", "Ke 1 2 3 4\n"};
            sim_fault_note(F_CORRUPT);
            put(b, w[op_choose(7)]); break; }
        }
    }
}
static void gen_obj(struct txt *b, int bad, int nmtl, char tag) {
    for (int k = op_choose(12) == 11 ? op_range(60, 260) : op_range(0, 24); k > 0; k--) {
        char t[80];
        uint32_t c = op_choose(bad ? 15 : 14);
        if (c != 10) blanks(b, 0);
        switch (c) {
        case 0: case 1: case 2: put(b, "v"); blanks(b, 1); for (int i = 0; i < 3; i++) { number(b); if (i < 2) blanks(b, 1); } eol(b); break;
        case 3: case 4: put(b, "vn"); blanks(b, 1); for (int i = 0; i < 3; i++) { number(b); if (i < 2) blanks(b, 1); } eol(b); break;
        case 5: put(b, "vt"); blanks(b, 1); number(b); blanks(b, 1); number(b); eol(b); break;
        case 6: case 7: case 8: {
            int tex = (int)op_choose(2);
            put(b, "f"); blanks(b, 1);
            for (int i = 0; i < 3; i++) {
                int n = tex ? snprintf(t, sizeof t, "%d/%d/%d", op_range(1, 300), op_range(1, 90), op_range(1, 300))
                            : snprintf(t, sizeof t, "%d//%d", op_range(1, 300), op_range(1, 300));
                (void)n; put(b, t); if (i < 2) blanks(b, 1);
            }
            eol(b); break; }
        case 9: put(b, "s off\n"); break;
        case 10: put(b, "l 1 2 3\n"); break;
        case 11: snprintf(t, sizeof t, "o part%u", op_choose(5)); put(b, t); eol(b); break;
        case 12: snprintf(t, sizeof t, "usemtl %s", matname[op_choose(8)]); put(b, t); eol(b); break;
        case 13: if (op_choose(2)) put(b, "# comment v 1 2 3\n"); else eol(b); break;
        default: {
            static const char *const w[] = {"v 1 \n2 3\n", "v 1 2\n", "v 1 2 x\n", "v 1 2 3 4\n", "vn \n", "f 1//1 2//2\n", "f 1//1 2//2 \n3//3\n", "g grp\n", "usemtl \nm1\n", "o \n", "vt 1\n", "f 1 2 3\n", "mtllib none.mtl\n"};
            sim_fault_note(F_CORRUPT);
            put(b, w[op_choose(13)]); break; }
        }
        if (nmtl && (op_choose(5) == 1 || k == 1)) {
            snprintf(t, sizeof t, "mtllib %c%d.mtl", tag, nmtl);
            put(b, t); eol(b); nmtl--;
        }
    }
}

static int close_(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }
static void cmp_d(const char *what, const double *a, size_t n, const double *b, size_t m) {
    SIM_CHECK(n == m, "wrong-count", "%s: %zu numbers, file holds %zu", what, n, m);
    for (size_t i = 0; i < m; i++) SIM_CHECK(close_(a[i], b[i]), "wrong-number", "%s[%zu]: %.17g, file says %.17g", what, i, a[i], b[i]);
}
static void cmp_i(const char *what, const int32_t *a, size_t n, const int32_t *b, size_t m) {
    SIM_CHECK(n == m, "wrong-count", "%s: %zu indices, file holds %zu", what, n, m);
    for (size_t i = 0; i < m; i++) SIM_CHECK(a[i] == b[i], "wrong-index", "%s[%zu]: %d, file says %d", what, i, a[i], b[i]);
}
#define FIELD1(nm, has, val) do { \
    SIM_CHECK(!!aa_rx_wf_material_has_##nm(a) == r->has, "wrong-material", "material %d '%s': has_" #nm " %d, file %d", i, r->name, aa_rx_wf_material_has_##nm(a), r->has); \
    if (r->has) SIM_CHECK(close_(aa_rx_wf_material_get_##nm(a), r->val), "wrong-material", "material %d " #nm " %g, file %g", i, aa_rx_wf_material_get_##nm(a), r->val); } while (0)
#define FIELD3(nm, has, val) do { \
    SIM_CHECK(!!aa_rx_wf_material_has_##nm(a) == r->has, "wrong-material", "material %d '%s': has_" #nm " %d, file %d", i, r->name, aa_rx_wf_material_has_##nm(a), r->has); \
    if (r->has) cmp_d(#nm, aa_rx_wf_material_get_##nm(a), 3, r->val, 3); } while (0)
static void cmp_mtl(const struct aa_rx_wf_mtl *m, const struct rmtl *ref) {
    SIM_CHECK(aa_rx_wf_mtl_material_count(m) == (size_t)ref->n, "wrong-count", "%zu materials, file holds %d", aa_rx_wf_mtl_material_count(m), ref->n);
    for (int i = 0; i < ref->n; i++) {
        const struct aa_rx_wf_material *a = aa_rx_wf_mtl_get_material(m, (size_t)i);
        const struct rmat *r = &ref->m[i];
        SIM_CHECK(!strcmp(aa_rx_wf_material_get_name(a), r->name), "wrong-material", "material %d is '%s', file '%s'", i, aa_rx_wf_material_get_name(a), r->name);
        FIELD1(specular_weight, hns, ns); FIELD1(ior, hni, ni); FIELD1(alpha, hd, d);
        FIELD3(ambient, hka, ka); FIELD3(diffuse, hkd, kd); FIELD3(specular, hks, ks); FIELD3(emission, hke, ke);
    }
    SIM_CHECK(!aa_rx_wf_mtl_get_material(m, (size_t)ref->n), "wrong-count", "material past the end");
}
static void cmp_obj(struct aa_rx_wf_obj *o, const struct robj *r) {
    const double *d; const int32_t *v; size_t n;
    aa_rx_wf_obj_get_vertices(o, &d, &n); cmp_d("vertices", d, n, r->v, (size_t)r->nv);
    aa_rx_wf_obj_get_normals(o, &d, &n); cmp_d("normals", d, n, r->n, (size_t)r->nn);
    aa_rx_wf_obj_get_vertex_indices(o, &v, &n); cmp_i("vertex indices", v, n, r->vi, (size_t)r->nf * 3);
    aa_rx_wf_obj_get_normal_indices(o, &v, &n); cmp_i("normal indices", v, n, r->ni, (size_t)r->nf * 3);
    aa_rx_wf_obj_get_uv_indices(o, &v, &n); cmp_i("uv indices", v, n, r->ti, (size_t)r->nf * 3);
    aa_rx_wf_obj_get_texture_indices(o, &v, &n); cmp_i("material indices", v, n, r->mi, (size_t)r->nf);
    SIM_CHECK(aa_rx_wf_obj_material_count(o) == (size_t)r->nmat, "wrong-count", "%zu used materials, file %d", aa_rx_wf_obj_material_count(o), r->nmat);
    for (int i = 0; i < r->nmat; i++) SIM_CHECK(!strcmp(aa_rx_wf_obj_get_material_name(o, (size_t)i), r->mat[i]), "wrong-material", "used material %d is '%s'", i, aa_rx_wf_obj_get_material_name(o, (size_t)i));
    SIM_CHECK(!aa_rx_wf_obj_get_material_name(o, (size_t)r->nmat), "wrong-count", "used material past the end");
    SIM_CHECK(aa_rx_wf_obj_mtl_count(o) == (size_t)r->nmtl, "wrong-count", "%zu mtl files, file names %d", aa_rx_wf_obj_mtl_count(o), r->nmtl);
    for (int i = 0; i < r->nmtl; i++) {
        SIM_CHECK(!strcmp(aa_rx_wf_obj_get_mtl_filename(o, (size_t)i), r->mtl[i].file), "wrong-material", "mtl %d is '%s'", i, aa_rx_wf_obj_get_mtl_filename(o, (size_t)i));
        cmp_mtl(aa_rx_wf_obj_get_mtl(o, (size_t)i), &r->mtl[i]);
    }
    SIM_CHECK(!aa_rx_wf_obj_get_mtl_filename(o, (size_t)r->nmtl) && !aa_rx_wf_obj_get_mtl(o, (size_t)r->nmtl), "wrong-count", "mtl past the end");
}

struct job { char tag; char path[64]; int bad; };
static void gen_job(struct job *j, int faults) {
    j->bad = faults && op_chance(1, 3);
    int nm = op_range(0, 2);
    char p[64];
    for (int i = 1; i <= nm; i++) {
        struct txt m = {0}; put(&m, ""); gen_mtl(&m, j->bad && op_choose(2));
        snprintf(p, sizeof p, "/simfs/d/%c%d.mtl", j->tag, i);
        simfs_put(p, m.s, m.n); free(m.s);
    }
    struct txt o = {0}; put(&o, ""); gen_obj(&o, j->bad, nm, j->tag);
    if (o.n && op_choose(8) == 1) o.n--; /* no final newline */
    snprintf(j->path, sizeof j->path, "/simfs/d/%c.obj", j->tag);
    simfs_put(j->path, o.s, o.n); free(o.s);
}
static void do_job(struct job *j) {
    uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init((size_t)op_range(0, 64));
    aa_mem_region_t *reg = aa_mem_region_local_get();
    uint8_t *keep = aa_mem_region_alloc(reg, 24);
    pat_fill(keep, 24, 5);
    struct aa_rx_wf_obj *o = aa_rx_wf_parse(j->path);
    size_t n, dn; int err = 0, un = 0;
    const char *data = simfs_get(j->path, &n);
    dn = simfs_delivered(j->path, &err);
    sim_log("%s: %zu/%zu bytes delivered%s -> %s", j->path, dn, n, err ? ", read error" : "", o ? "object" : "NULL");
    struct robj *r = calloc(1, sizeof *r);
    int bad = ref_lines(data, dn, l_obj, r, "/simfs/d", &un);
    int mun = 0;
    for (int i = 0; i < r->nmtl; i++) {
        char p[100]; snprintf(p, sizeof p, "/simfs/d/%s", r->mtl[i].file);
        int e; size_t k, q; const char *d = simfs_get(p, &k); q = simfs_delivered(p, &e);
        if (q && d[q - 1] != '\n') mun = 1;
    }
    if (!o) {
        int excused = err || bad || un || mun || sim_fault_fired(F_OPEN_FAIL) || sim_fault_fired(F_READ_EIO);
        SIM_CHECK(excused, "rejected", "a well-formed file (%zu bytes) was rejected", dn);
        sim_probe("rejected");
    } else {
        SIM_CHECK(!err, "accepted-broken", "an object was returned although reading failed after %zu bytes", dn);
        SIM_CHECK(!bad, "accepted-broken", "an object was returned for malformed or incomplete text");
        cmp_obj(o, r);
        sim_hash_u64((uint64_t)r->nv * 1000003u + (uint64_t)r->nf); sim_state(mixh((uint64_t)r->nv, mixh((uint64_t)r->nf, (uint64_t)r->nmtl)));
        aa_rx_wf_obj_destroy(o);
        sim_probe("accepted");
    }
    free(r);
    long b = pat_bad(keep, 24, 5);
    SIM_CHECK(b < 0, "scratch", "caller's block in the local region changed at %ld", b);
    aa_mem_region_local_destroy();
    if (sim_thread_count() <= 1) LEAKCHECK(mark, "leak");
}
static void wf_faults(void) {
    simfs_set_chunk(op_choose(3) == 0 ? (size_t)-1 : (size_t)op_range(1, 60));
    switch (cfg_choose(4)) {
    case 0: break;
    case 1: sim_fault_enable(F_READ_SHORT, 1, 3); sim_fault_enable(F_READ_EINTR, 1, 8); break;
    case 2: sim_fault_enable(F_READ_SHORT, 1, 3); sim_fault_enable(F_READ_EIO, 1, (uint32_t)(4 << cfg_choose(4))); break;
    default: sim_fault_enable(F_READ_EOF, 1, (uint32_t)(4 << cfg_choose(4))); sim_fault_enable(F_OPEN_FAIL, 1, 12); break;
    }
}
static void wavefront_load(void) {
    struct job j = {'a', "", 0};
    gen_job(&j, 1);
    wf_faults();
    do_job(&j);
    SIM_CHECK(simfs_open_count() == 0, "leak", "%d descriptor(s) left open", simfs_open_count());
}
SIM_SCENARIO("P07", wavefront_load, wavefront_load, 5);

static void *wf_thread(void *p) { do_job(p); return NULL; }
static void wavefront_threads(void) {
    static struct job j[3];
    int n = 2 + (int)op_choose(2);
    sim_sched_swarm(1); sim_set_races(1);
    uint64_t mark = sim_heap_mark();
    for (int i = 0; i < n; i++) { j[i] = (struct job){(char)('a' + i), "", 0}; gen_job(&j[i], 1); }
    wf_faults();
    sim_tid t[3];
    for (int i = 0; i < n; i++) t[i] = sim_spawn("loader", wf_thread, &j[i]);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    SIM_CHECK(simfs_open_count() == 0, "leak", "%d descriptor(s) left open", simfs_open_count());
    (void)mark;
}
SIM_SCENARIO("P07", wavefront_threads, wavefront_threads, 2);
