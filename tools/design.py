"""Regenerates the generated sections of DESIGN.md from props.py, seeded/ and the notes here."""
import json, os, re, sys
sys.path.insert(0, '/verif')
from props import PROPS, TEXT
HOW = {
 "core": "C core: sources of /repo instrumented for the scheduler and the checked heap, one forked process per run",
 "cpp": "C++ headers of /repo compiled into the scenario with the same instrumentation as the C core, one forked process per run",
 "cl": "collision suite: as the core, plus the real FCL and libccd",
 "mp": "planning suite: as the core, plus the real OMPL (its sources of randomness seeded) and FCL",
 "gl": "window suite: as the core, with a recording stand-in for OpenGL and SDL (`scen/glstub.c`)",
 "py": "interpreter suite: `pysim/` runs python/amino in CPython against libraries of /repo built with an address checker; clock, seeds, garbage collection, release order and exceptions are simulated",
}
NOTES = {
 "P04": "Judged per call by the defining equation with rounding bounds in proportion to the conditioning. False alarms corrected: singular matrices are only those with an exactly zero column; the outlier-excluding mean is judged against the reference iteration; the Fortran sources had to be instrumented too.",
 "P05": "Fabricated, lost and repeated rows all count. Refused: nothing is assumed about how much a reader reads ahead.",
 "P09": "The stand-in records every GL object and context; a GL call from a thread without the context is an error.",
 "P11": "False alarm corrected: the oracle first demanded one loop per window; closing during start-up may legally never enter it.",
 "P14": "`aa_rx_fk_rot_abs` is declared but nowhere implemented (note only).",
 "P17": "FCL's own inaccuracies (touching cylinders, nearly parallel faces) are given a margin, measured by asking FCL directly.",
 "P18": "Pairs the scene graph allows are not re-judged. LBKPIECE and SBL on spaces of two or fewer dimensions assert inside OMPL, so they are not drawn there. OMPL keeps a static map of configurations alive, flushed before leak accounting.",
 "P19": "The tolerance is on the angle of the quaternion (half the rotation), as the code has always measured. Liveness is required only where it can be: a single joint without centring for the Jacobian method, a second attempt of 0.5 s for SQP; unlimited prismatic joints are never 'unreachable'; objective gradients are not judged at non-finite or huge values; scratch balance only while the initial region suffices.",
 "P20": "Errors inside Clp or lp_solve are excused only when the same library, asked directly by the harness, is wrong too. Optimality of lp_solve's mixed-integer answers is not judged. CLP may keep two blocks.",
 "P21": "The position gain follows the code's convention (the logarithm is half the twist). LC3 contexts have no destroy function, so no leak check there; 'independent of the past' compares fresh contexts.",
 "P22": "Waypoints closer than the library's epsilon (1e-3) are dropped by design; parabolic blends may stretch without bound (Kunz-Stilman scaling); the followed path is tracked as a set of feasible legs; a region that grows is not a leak.",
 "P24": "Embedded error estimates are asymptotic: the local error may be 100 (1000 on stiff states) times the tolerance. Convergence orders are the best over several sizes and states, because errors can cancel by chance.",
 "P25": "False alarm corrected: a variable of the harness itself was shared between threads.",
 "P26": "Logarithms within 0.2 rad of a full turn are not judged (ill-conditioned); an axis of zero length is accepted for whole turns.",
 "P27": "Jacobians of unions of chains are judged as twists only; joints that share a configuration add up in one column.",
 "P28": "Views beyond the end of vectors are judged wherever the C interface documents a check. The checks in aa_rx_wk_dx_pos* are repeated deeper down, so removing one copy changes nothing.",
 "P29": "Bounds are scaled by the operands' norms. `Vec3.ssd`/`Quat.ssd` are documented as sums of squares but the tests pin their root, so the distance is judged. Not judged: slices beyond the end and vectors of different lengths in + and - end the process through the C library's size check (P28), which is how amino reports misuse; rounding down of the length of stepped slices. Windows (`amino.scenewin`) are stubbed out.",
 "P32": "Bits between the end of a set and the end of its last word are not judged. Not covered: the ring buffer (`aa_circbuf_*`), which is declared but not implemented.",
 "P31": "An expression that reads its own target is judged only where the order of evaluation is evident (`y = x + y`, `y = A*u + y`, `C = A*B + C`); `y = y + x` gives 2x by the way expressions are evaluated. Assigning one iterator to another is not judged. The headers are compiled into a suite of their own, so a header that does not compile leaves the other checks alone.",
 "P30": "The reference pose of inverse kinematics is a pose in the whole scene with the other joints at zero: an earlier version of the check took it relative to the root of the chain (false alarm). Pairs that touch at the start of a plan are allowed to touch on the way, as the planner documents. `get_parent` of the root may raise.",
}
out = []
for p in sorted(PROPS):
    t, c = TEXT[p], PROPS[p]
    out.append("### %s %s\n" % (p, t["title"]))
    out.append("* **Specified**: %s" % t["statement"])
    out.append("* **Explored**: %s. Quick %s runs, thorough %s runs (or the time limit), all distinct seeds." % (t["qtext"], "/".join(map(str, c["quick"])), "/".join(map(str, c["thorough"]))))
    out.append("* **Decided by**: %s." % t["technique"].rstrip('.'))
    out.append("* **Runs as**: %s." % "; ".join(HOW[s] for s in c["suites"]))
    out.append("* **Beyond the tests**: %s" % t["why"])
    if p in NOTES: out.append("* **Notes and limits**: %s" % NOTES[p])
    out.append("")
props = "## The properties\n\nEach is decided by seeded search; none is listed as not applicable: every guarantee amino gives involves memory, threads, time, files, shared state or histories of calls that the simulator can drive.\n\n" + "\n".join(out)
rows = ["Written from a property's text and the code, kept only when they compile, pass the repository's tests, and their demonstration tells them apart. `tools/seeds/*.py` made most of them; `tools/trybug.sh ID` applies one, runs its property's quick check, and undoes it. All of them are caught by the quick check of their own property, as a replayed and minimised violation (last confirmed by `tools/trybug.sh` and by vcheck, which draws twelve).", "",
        "| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
s = open('/verif/DESIGN.md').read()
for k, v in (("PROPS", props), ("SEEDS", "\n".join(rows))):
    s = re.sub("<!--%s-->.*?<!--/%s-->" % (k, k), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (k, v, k), s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
