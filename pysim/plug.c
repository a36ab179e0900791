/* A scene plugin as the scene compiler makes them: three frames below the given root, one with a shape from the plugin. */
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include <stdio.h>

static struct aa_rx_sg *rig(struct aa_rx_sg *sg, const char *root, const char *pre) {
    static const double q[4] = {0, 0, 1, 0}, v[3] = {0.5, 0.25, -1}, z[3] = {0, 0, 0}, ax[3] = {0, 1, 0};
    char a[64], b[64], c[64];
    if (!sg) sg = aa_rx_sg_create();
    snprintf(a, sizeof a, "%s_base", pre); snprintf(b, sizeof b, "%s_arm", pre); snprintf(c, sizeof c, "%s_hand", pre);
    aa_rx_sg_add_frame_fixed(sg, root, a, q, v);
    aa_rx_sg_add_frame_revolute(sg, a, b, aa_tf_quat_ident, v, b, ax, 0.5);
    aa_rx_sg_set_limit_pos(sg, b, -2, 2);
    aa_rx_sg_add_frame_fixed(sg, b, c, q, z);
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    aa_rx_geom_opt_set_collision(o, 1);
    aa_rx_geom_attach(sg, c, aa_rx_geom_sphere(o, 0.25));
    aa_rx_geom_opt_destroy(o);
    return sg;
}
struct aa_rx_sg *aa_rx_dl_sg__rig(struct aa_rx_sg *sg, const char *root) { return rig(sg, root, "rig"); }
struct aa_rx_sg *aa_rx_dl_sg__lab(struct aa_rx_sg *sg, const char *root) { return rig(sg, root, "lab"); }
struct aa_rx_sg *aa_rx_dl_sg__refuses(struct aa_rx_sg *sg, const char *root) { (void)sg; (void)root; return NULL; }
