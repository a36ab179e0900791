/* A chain of joints with separate variables, in Amino and in the model. */
#ifndef IKWORLD_H
#define IKWORLD_H
#include "sgmodel.h"
#define MAXQ 12
struct ikw {
    struct m_sg m; struct aa_rx_sg *sg; struct aa_rx_sg_sub *ssg;
    int nq, ns, sub[MAXQ], root, tip, frame, limited; double lo[MAXQ], hi[MAXQ];
};
/* at most `max` frames; dyn: with limits of velocity and acceleration */
static void ik_world(struct ikw *w, int max, int dyn) {
    memset(w, 0, sizeof *w); memset(&w->m, 0, sizeof w->m);
    w->sg = aa_rx_sg_create();
    int n = dyn & 2 ? max : op_range(1, max), perm[NN]; /* dyn & 2: one long arm */
    for (int i = 0; i < NN; i++) perm[i] = i;
    for (int i = NN - 1; i > 0; i--) { int j = (int)op_choose((uint32_t)i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
    for (int k = 0; k < n; k++) {
        struct m_frame *f = &w->m.f[perm[k]]; f->live = 1;
        f->parent = !k ? -1 : dyn & 2 || op_choose(4) ? perm[k - 1] : perm[op_choose((uint32_t)k)];
        m_randE(f->E); for (int i = 4; i < 7; i++) f->E[i] *= 0.4;
        static const enum aa_rx_frame_type ty[] = {AA_RX_FRAME_REVOLUTE, AA_RX_FRAME_REVOLUTE, AA_RX_FRAME_REVOLUTE, AA_RX_FRAME_PRISMATIC, AA_RX_FRAME_FIXED};
        f->type = ty[op_choose(5)];
        if (f->type == AA_RX_FRAME_FIXED) { aa_rx_sg_add_frame_fixed(w->sg, m_nm(f->parent), m_names[perm[k]], f->E, f->E + 4); continue; }
        const char *c = k < 3 && op_choose(2) ? m_cfgs[k] : NULL;
        strcpy(f->cfg, c ? c : m_names[perm[k]]);
        m_randaxis(f->axis); f->off = op_choose(2) ? op_unit() : 0;
        if (f->type == AA_RX_FRAME_REVOLUTE) aa_rx_sg_add_frame_revolute(w->sg, m_nm(f->parent), m_names[perm[k]], f->E, f->E + 4, c, f->axis, f->off);
        else aa_rx_sg_add_frame_prismatic(w->sg, m_nm(f->parent), m_names[perm[k]], f->E, f->E + 4, c, f->axis, f->off);
        if (op_choose(8)) {
            struct m_limit *l = m_lim(&w->m, f->cfg, 1); double wd = op_choose(4) == 3 ? 0.3 : 1.5, ce = op_choose(3) == 2 ? op_unit() * 2 : 0;
            l->has[0] = 1; l->lo[0] = ce - wd; l->hi[0] = ce + wd; aa_rx_sg_set_limit_pos(w->sg, f->cfg, l->lo[0], l->hi[0]);
        }
        if (dyn) for (int d = 1; d < 3; d++) if (op_choose(4)) {
            struct m_limit *l = m_lim(&w->m, f->cfg, 1); double v = (double)op_range(1, 20) * (d == 1 ? 0.1 : 0.5);
            l->has[d] = 1; l->hi[d] = v; l->lo[d] = op_choose(4) == 3 ? -v / 2 : -v;
            if (d == 1) aa_rx_sg_set_limit_vel(w->sg, f->cfg, l->lo[d], l->hi[d]); else aa_rx_sg_set_limit_acc(w->sg, f->cfg, l->lo[d], l->hi[d]);
        }
    }
    aa_rx_sg_init(w->sg);
    w->nq = (int)aa_rx_sg_config_count(w->sg); w->limited = 1;
    for (int k = 0; k < w->nq; k++) { struct m_limit *l = m_lim(&w->m, aa_rx_sg_config_name(w->sg, k), 0); int h = l && l->has[0]; w->lo[k] = h ? l->lo[0] : -3; w->hi[k] = h ? l->hi[0] : 3; }
    w->tip = m_pick_live(&w->m); w->root = -1;
    if (op_choose(3) == 2) for (int p = w->m.f[w->tip].parent; p >= 0; p = w->m.f[p].parent) if (op_choose(2)) { w->root = p; break; }
    w->ssg = aa_rx_sg_chain_create(w->sg, w->root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(w->sg, m_names[w->root]), aa_rx_sg_frame_id(w->sg, m_names[w->tip]));
    w->ns = (int)aa_rx_sg_sub_config_count(w->ssg);
    for (int k = 0; k < w->ns; k++) w->sub[k] = (int)aa_rx_sg_sub_config(w->ssg, (size_t)k);
}
static int has_lim(struct ikw *w, int k) { struct m_limit *l = m_lim(&w->m, aa_rx_sg_config_name(w->sg, k), 0); return l && l->has[0]; }
#endif
