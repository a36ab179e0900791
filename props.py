"""Which simulation decides which property, with how many runs per tier."""
SUITES = {
    "core": {"scen": ["mem.c", "io.c", "wf.c", "geom.c", "sg.c", "ik.c", "lp.c", "lpshim.cpp", "wk.c", "ct.c", "ode.c", "plug.c", "num.c", "tfa.c", "kin.c", "fit.c", "small.c"], "libs": ["core"]},
    "cl": {"scen": ["cl.c"], "libs": ["core", "cl"]},
    "mp": {"scen": ["mp.c", "mpshim.cpp"], "libs": ["core", "cl", "mp"]},
    "gl": {"scen": ["win.c", "glstub.c"], "libs": ["core", "gl"]},
    "py": {"scen": [], "libs": []},
    "cpp": {"scen": ["cpp.cpp"], "libs": ["core"]},
}
COMPONENTS = {
    "core": {"real": ["libamino (all C, C++ and Fortran sources of /repo)", "LAPACK/BLAS, NLopt, GLPK, lp_solve, CLP"],
             "stub": ["thread scheduler", "clocks and sleeps", "heap", "files and descriptors under the simulated root", "dynamic loader (plugin scenarios)"]},
    "cl": {"real": ["libamino and libamino-collision (all sources of /repo)", "FCL, libccd", "LAPACK/BLAS"],
           "stub": ["thread scheduler", "heap"]},
    "mp": {"real": ["libamino, libamino-collision and libamino-planning (all sources of /repo)", "OMPL, FCL, libccd, NLopt", "LAPACK/BLAS"],
           "stub": ["thread scheduler", "clocks and sleeps", "heap", "seed of OMPL's random numbers"]},
    "gl": {"real": ["libamino and libamino-gl (all sources of /repo)", "LAPACK/BLAS"],
           "stub": ["OpenGL (object and context model)", "SDL2 windows and events", "spacenav device", "thread scheduler", "clocks and sleeps", "heap"]},
}
COMPONENTS["cpp"] = {"real": ["the C++ headers of /repo (mem.hpp, mat.hpp) and libamino", "LAPACK/BLAS"], "stub": ["thread scheduler", "clocks and sleeps", "heap"]}
COMPONENTS["py"] = {"real": ["the Python package of /repo (python/amino) in CPython", "libamino, libamino-collision and libamino-planning (all sources of /repo)", "FCL, libccd, OMPL, NLopt, LAPACK/BLAS"],
                    "stub": ["clocks", "garbage collection and release points", "interrupts", "seeds of the random numbers", "heap (address checker and accounting)"]}
PROPS = {
    "P01": dict(suites=["core"], quick=[12000], thorough=[400000], level="exploration"),
    "P02": dict(suites=["core"], quick=[6000], thorough=[200000], level="exploration"),
    "P03": dict(suites=["core"], quick=[8000], thorough=[200000], level="exploration"),
    "P04": dict(suites=["core"], quick=[36000], thorough=[1200000], level="exploration"),
    "P05": dict(suites=["core"], quick=[20000], thorough=[400000], level="exploration"),
    "P07": dict(suites=["core"], quick=[12000], thorough=[200000], level="exploration"),
    "P08": dict(suites=["core"], quick=[12000], thorough=[200000], level="exploration"),
    "P14": dict(suites=["core"], quick=[12000], thorough=[200000], level="exploration"),
    "P15": dict(suites=["cl"], quick=[60000], thorough=[400000], level="exploration"),
    "P17": dict(suites=["cl"], quick=[30000], thorough=[150000], level="exploration"),
    "P18": dict(suites=["mp"], quick=[4000], thorough=[40000], level="exploration"),
    "P19": dict(suites=["core"], quick=[20000], thorough=[60000], level="exploration"),
    "P20": dict(suites=["core"], quick=[12000], thorough=[160000], level="exploration"),
    "P21": dict(suites=["core"], quick=[20000], thorough=[400000], level="exploration"),
    "P22": dict(suites=["core"], quick=[60000], thorough=[1200000], level="exploration"),
    "P24": dict(suites=["core"], quick=[60000], thorough=[1200000], level="exploration"),
    "P26": dict(suites=["core"], quick=[50000], thorough=[1200000], level="exploration"),
    "P27": dict(suites=["core"], quick=[100000], thorough=[3000000], level="exploration"),
    "P28": dict(suites=["core"], quick=[60000], thorough=[2000000], level="exploration"),
    "P29": dict(suites=["py"], quick=[20000], thorough=[1500000], level="exploration"),
    "P30": dict(suites=["py"], quick=[9000], thorough=[500000], level="exploration"),
    "P31": dict(suites=["cpp"], quick=[50000], thorough=[1000000], level="exploration"),
    "P32": dict(suites=["core"], quick=[120000], thorough=[4000000], level="exploration"),
    "P25": dict(suites=["core"], quick=[60000], thorough=[1200000], level="exploration"),
    "P16": dict(suites=["core"], quick=[4000], thorough=[60000], level="exploration"),
    "P09": dict(suites=["gl"], quick=[8000], thorough=[200000], level="exploration"),
    "P10": dict(suites=["gl"], quick=[40000], thorough=[600000], level="exploration"),
    "P11": dict(suites=["gl"], quick=[60000], thorough=[600000], level="exploration"),
    "P12": dict(suites=["gl"], quick=[12000], thorough=[600000], level="exploration"),
    "P13": dict(suites=["gl"], quick=[12000], thorough=[600000], level="exploration"),
    "P23": dict(suites=["gl"], quick=[8000], thorough=[300000], level="exploration"),
    "P06": dict(suites=["core"], quick=[4000], thorough=[100000], level="exploration"),
}

TEXT = {}
def T(pid, **kw):
    TEXT[pid] = kw
NOTE = ("Seeded search over simulated runs of the real code; absence of a violation is evidence over the explored histories, schedules and faults, not a proof. "
        "Trusts the simulator, the reference model and the compiler instrumentation. ")
T("P01", title="Region allocation keeps every live block intact and disjoint",
  statement="For every history of allocations, temporary allocations, formatted strings, marks, pops and releases on a memory region, each live block is 16-byte aligned, lies entirely in memory the region owns, overlaps no other live block and keeps its contents until it is popped, released or destroyed. A pop discards exactly the blocks allocated at or after the popped block or mark; a temporary buffer keeps its contents when it is grown. Destroying a region returns all its memory, and repeating a bounded workload from one mark uses bounded memory.",
  over=["histories", "inputs", "configurations"], qtext="all operation sequences, block sizes (including exact fits and chunk boundaries), nesting of marks, initial sizes and heap placements",
  why="Unit tests pop a few hand-made sequences whose blocks never end exactly at a chunk boundary; the failures need a particular combination of sizes, marks and chunk growth.",
  files=["src/mem.c", "include/amino/mem.h", "include/amino/mem.hpp"],
  mech=[("chunk list with a bump pointer", "src/mem.c: aa_mem_region_alloc, aa_mem_region_grow"), ("pop by address", "src/mem.c: aa_mem_region_pop")],
  technique="seeded operation histories against a block-list model on an adversarial checked heap", note=NOTE + "Allocation failure is out of scope: the library documents that it does not handle it.")
T("P02", title="Thread-local regions are private to their thread and vanish with it",
  statement="Every thread that uses the thread-local memory region gets a region of its own, whatever other threads do and however their use interleaves. Re-initialising or destroying it affects only the calling thread. When a thread ends, by returning or being cut short, all memory of its region is returned.",
  over=["schedules", "histories", "crash_points"], qtext="all interleavings of threads using, re-initialising, destroying and abandoning their local regions, with threads ending at arbitrary points",
  why="The tests use the local region from one thread only.", files=["src/mem.c"],
  mech=[("thread-specific key with destructor, created once", "src/mem.c: local_region_get, aa_mem_region_local_init")],
  technique="controlled thread schedules with thread exits at arbitrary points, happens-before race oracle and leak accounting", note=NOTE)
T("P03", title="Object pools and region lists never lose, duplicate or reorder elements",
  statement="For every history of pool operations, an object handed out is distinct from every other live object, aligned and keeps its contents, and freed objects are reused so memory stays bounded by the largest live population. For every history of pushes, enqueues and pops, a region list yields exactly the stored elements, pushed ones first in last-in-first-out order and enqueued ones last in arrival order, also after it ran empty.",
  over=["histories", "inputs"], qtext="all operation sequences, object sizes and interleaved allocations from the same region",
  why="These interfaces are marked untested or exercised with one short sequence.", files=["src/mem.c", "include/amino/mem.h"],
  mech=[("free list threaded through objects", "src/mem.c: aa_mem_pool_alloc, aa_mem_pool_free"), ("tail pointer to pointer", "src/mem.c: aa_mem_rlist_*")],
  technique="seeded operation histories against set and deque models on an adversarial checked heap", note=NOTE)
T("P04", title="Linear-algebra and statistics routines are reentrant functions of their arguments",
  statement="A numerical routine (vector and matrix operations, factorisations, solvers, inverses and pseudo-inverses, assignment, interpolation, statistics, finite differences; single and double precision) gives the same result for the same arguments, whatever other threads compute, whatever the thread's scratch region holds and however large it is, and wherever the arguments lie. It takes every permitted shape, leading dimension and increment, reads and writes only the elements those name, leaves inputs unchanged, gives back its scratch memory, ends, and returns what satisfies its defining equation. Mismatched sizes are reported through the error function before anything is written.",
  over=["inputs", "schedules"], qtext="all shapes, leading dimensions, increments, values, scratch states and thread interleavings",
  why="The tests call most routines once with contiguous square matrices in a fresh thread; a wrong leading dimension, a stale workspace or a static buffer gives the same answer there.",
  files=["src/la_impl.c", "src/la.c", "src/mat.c", "src/math.c", "include/amino/la_impl.h", "include/amino/mat.h"],
  mech=[("scratch workspaces of LAPACK calls", "LA_WORK, aa_mem_region_local_tmpalloc"), ("strided views", "AA_DMAT_VIEW, aa_dmat_block, aa_dvec_slice")],
  technique="simulated threads calling numerical routines on strided arguments with guard elements while the scratch regions start in seeded states (too small, in use, dirty), each call judged by its defining equation, by its footprint and by repeating it under another placement", note=NOTE + "Results are compared with rounding bounds in proportion to the conditioning, not bit for bit across placements where BLAS may sum in another order.")
T("P05", title="Text readers yield exactly what the stream holds, however it is delivered",
  statement="Reading lines, vectors and matrices from a stream yields exactly the lines and numbers of the bytes delivered, independently of how reads are split, of line lengths and of the state of scratch memory; comments and blank lines are skipped and a malformed line is reported by its number. A read error is reported and ends the read; it never hangs, grows memory without bound, or yields a fabricated row. Caller memory and the caller's blocks in the scratch region stay intact, and printed matrices read back as written.",
  over=["inputs", "fault_sequences", "histories"], qtext="all stream contents and all sequences of short reads, interruptions, errors and early ends of file",
  why="The tests read one small well-formed buffer from a healthy pipe; faults and boundary sizes are not exercised.", files=["src/io.c", "include/amino/io.h"],
  mech=[("line buffer grown in the region", "src/io.c: aa_io_getline"), ("row parser", "src/io.c: aa_io_parsevector, aa_io_fread_matrix_heap"), ("growing raw read", "src/io.c: aa_read_realloc")],
  technique="simulated files with short reads, EINTR, EIO and truncation, checked against a reference parser over the delivered bytes", note=NOTE)
T("P06", title="Sleeps last at least as asked and time arithmetic agrees with the clock",
  statement="A relative sleep returns only after at least the requested time has passed on the monotonic clock, also when signals interrupt it any number of times, and it always returns. Time sums, differences and comparisons of clock readings are normalised and consistent with the elapsed time.",
  over=["fault_sequences", "inputs", "schedules"], qtext="all durations, interruption points and thread stalls",
  why="Tests never deliver a signal during a sleep and cannot control the clock.", files=["include/amino/time.h", "src/time.c"],
  mech=[("restart with the remaining time", "include/amino/time.h: aa_tm_relsleep"), ("normalisation", "include/amino/time.h: aa_tm_make_norm")],
  technique="virtual clock with injected EINTR and stalls", note=NOTE)
T("P07", title="Wavefront models load completely and correctly, or the load fails cleanly",
  statement="Loading a Wavefront OBJ file and the material file it names yields exactly the vertices, normals, faces with their texture and material assignment, and materials with their properties that the delivered bytes describe, with no element lost, invented or shifted. A malformed or truncated statement, a missing file or a read error makes the load fail without ending the process; in every case all memory and descriptors are returned. Loads on different threads do not affect each other.",
  over=["inputs", "fault_sequences", "schedules"], qtext="all OBJ and MTL contents, all sequences of short reads, interruptions, read errors, failing opens and early ends of file, and interleaved loads on several threads",
  why="The tests load no Wavefront file; the failing inputs need particular number formats, a cut at a particular byte, or an error in the middle of a file.",
  files=["src/wavefront/wavefront.l", "src/wavefront/mtl.l", "src/wavefront/wf_obj.c", "include/amino/rx/wavefront.h"],
  mech=[("reentrant flex scanners", "src/wavefront/wavefront.l, src/wavefront/mtl.l"), ("growing arrays and accessors", "src/wavefront/wf_obj.c"), ("number conversion", "src/wavefront/wf_obj.c: aa_rx_wf_parse_float")],
  technique="simulated files with short reads, EINTR, EIO, failing opens and truncation, checked against a reference parser over the delivered bytes; controlled schedules of concurrent loads", note=NOTE)
T("P08", title="Shared geometry lives exactly as long as something refers to it",
  statement="A geometry or mesh shared by reference count between frames, scene graphs and handles on several threads stays valid with unchanged contents while any reference exists, and is destroyed exactly once when the last one goes, whichever thread that is. Its collision and graphics attachments go with it, and copies of a scene graph share geometry without one copy's destruction affecting the other.",
  over=["schedules", "histories"], qtext="all interleavings of taking, copying and dropping references from several threads, and all orders of destroying scene graphs that share geometry",
  why="The tests never share geometry between threads, and an unbalanced count shows only under one order of releases.",
  files=["src/rx/scene_geom.c", "include/amino/rx/scene_geom.h", "include/amino/rx/scene_geom_internal.h", "src/rx/sg_api.cpp", "src/rx/scenegraph.cpp"],
  mech=[("atomic reference counts", "src/rx/scene_geom.c: aa_rx_geom_copy, aa_rx_geom_destroy, aa_rx_mesh_destroy"), ("ownership by frames", "src/rx/scenegraph.cpp: SceneFrame::~SceneFrame")],
  technique="controlled schedules with a happens-before race oracle, on a checked heap that detects use after free, double free and leaks", note=NOTE)
T("P14", title="Any history of scene-graph edits yields the scene those edits describe",
  statement="After any sequence of adding, replacing, removing and re-parenting frames, setting limits, inertia and geometry, and copying the graph, re-initialisation either fails exactly when a parent is missing or parents form a cycle, or numbers frames with parents before children, and names, ids, parents, types, axes, configuration variables, limits, inertia and attached geometry are those of the edits. Every forward-kinematics interface (quaternion-translation, matrix, dual quaternion, incremental, strided, chain and sub-scene) then gives the same pose for each frame, the composition of its ancestors' relative poses. A copy and its original do not influence each other, and destroying them returns all memory.",
  over=["histories", "inputs", "configurations"], qtext="all edit sequences over frames and configurations, all joint types, offsets, axes, configurations, strides and contents of freshly allocated memory",
  why="The tests build a handful of fixed robots once and never edit, replace, re-parent or copy them; each kinematics variant is checked on few joint types.",
  files=["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/sg_capi.c", "src/rx/scene_kin.c", "src/rx/scene_sub.cpp", "include/amino/rx/scenegraph.h", "include/amino/rx/scene_fk.h"],
  mech=[("dirty flag and topological numbering", "src/rx/scenegraph.cpp: SceneGraph::index"), ("three pose representations per joint type", "src/rx/scenegraph.cpp: tf_rel, tfmat_rel, duqu_rel"), ("deep copy", "src/rx/sg_api.cpp: aa_rx_sg_copy")],
  technique="seeded edit histories against an executable scene model with its own arithmetic, on a checked heap filled with garbage", note=NOTE)
T("P15", title="Pairs of frames allowed to collide stay exactly those the user allowed, through every edit",
  statement="The pairs of frames whose collision is allowed are exactly those the user allowed and did not disallow again, symmetric in the two frames, whatever the order of allowing by name or id, adding, replacing, removing and re-parenting frames, copying the graph and re-initialising, which renumber the frames. A copy starts with the pairs of its original and neither affects the other afterwards. Sets of pairs are sets: setting, clearing, filling and merging give the union or value of each pair and change no other pair or operand.",
  over=["histories", "configurations"], qtext="all histories of scene-graph edits, allowances by name and id, copies and set operations",
  why="The tests allow a few pairs once and never edit the scene afterwards; frame numbers change only with edits.",
  files=["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/collision_set.cpp", "src/rx/amino_fcl.cpp", "include/amino/rx/scene_collision.h"],
  mech=[("name pairs indexed to ids at initialisation", "src/rx/scenegraph.cpp: SceneGraph::index_allowed"), ("triangular flag matrix", "src/rx/collision_set.cpp")],
  technique="seeded edit histories against a set model, on a checked heap filled with garbage", note=NOTE)
T("P17", title="Collision checks report exactly the overlapping pairs that are not allowed",
  statement="For every scene, pose of its frames and set of allowed pairs, a collision check reports a collision exactly when the collision geometry of two different frames overlaps whose collision is not allowed, and its set gets exactly those pairs in addition to what it held; distances are those between the geometries, zero or less when they overlap, absent for allowed pairs and frames without collision geometry, and the closest points have that distance. Results depend only on the current poses and allowances: not on earlier checks with the same context, on other contexts of the same scene, on copies of the scene sharing its geometry or on scenes destroyed meanwhile. Contexts of one scene may be used, and copies of it initialised, on several threads at the same time. Allowing a configuration allows exactly its collisions. All memory is returned.",
  over=["histories", "inputs", "configurations", "schedules"], qtext="all scenes of convex shapes and meshes with scales, offsets and shared geometry, all sequences of poses, allowances, edits and copies, and all interleavings of threads that use contexts of shared geometry",
  why="The tests check a single pair of shapes at a few poses in a fresh context; stale broadphase state, allowances and sharing show only over a sequence.",
  files=["src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp", "include/amino/rx/scene_collision.h", "src/rx/scene_geom.c"],
  mech=[("broadphase manager per context over shared geometry", "src/rx/amino_fcl.cpp: aa_rx_cl_create, s_update_tf"), ("allowed pairs elided in the callbacks", "src/rx/amino_fcl.cpp: cl_check_callback, cl_dist_callback")],
  technique="seeded histories and thread schedules against an independent geometric oracle (signed gaps by the ellipsoid method and triangle tests) with a safety margin around contact", note=NOTE + "FCL's approximate distances are accepted as wrong at an isolated pose; a wrong distance must persist when all poses change a little. Poses within 0.02 of contact are not judged. Creating contexts is not interleaved with checks on other threads, because FCL rewrites the bounding volume of shared geometry with equal values then.")
T("P18", title="Plans start, end and stay where the user asked, without collisions",
  statement="For every scene, set of allowed pairs and sequence of starts, joint or workspace goals, allowances, planner choices and earlier plans, a plan that is reported found starts exactly at the current start, ends at the current goal (in joints, or with the frame at the goal pose), moves only the joints that are planned for, keeps within their limits and passes through no collision of a pair that is not allowed; a joint goal is accepted exactly when the configuration it means is free of such collisions; without a start or goal, or with an unreachable goal, no plan is reported. Planning returns soon after its time limit, simplification aside. Where nothing can collide a joint goal is always reached. Tracked collisions are collisions that can happen, allowing a configuration allows exactly its collisions. The planner and its goal sampling thread do not interfere, in no interleaving, and all memory is returned.",
  over=["histories", "inputs", "schedules", "configurations"], qtext="all scenes with limited joints, all sequences of planning requests, all planners offered, all random choices of the planners and all interleavings with the goal sampling thread",
  why="The tests plan once for one robot; stale starts, goals and allowances show only on the second request, and the sampling thread only under particular schedules.",
  files=["src/rx/mp/scene_ompl.cpp", "src/rx/mp/workspace_goal.cpp", "include/amino/rx/scene_planning.h", "include/amino/rx/ompl/scene_state_space.h", "src/rx/ik_nlopt.c", "src/rx/scene_ik.c"],
  mech=[("typed state space over the planned joints", "include/amino/rx/ompl/scene_state_space.h: amino::sgStateSpace"), ("goal sampling thread solving inverse kinematics", "src/rx/mp/workspace_goal.cpp: sampler_fun")],
  technique="seeded request histories with seeded planner randomness on a virtual clock and controlled schedules of planner and sampling thread, against an independent kinematic and geometric oracle", note=NOTE + "OMPL, FCL and NLopt run as real, uninstrumented or templated library code. OMPL's LBKPIECE and SBL fail an assertion of their own on spaces of one or two joints and run only on larger ones. Overlaps shallower than 0.02, and those between samples of the motion validator, are not judged; simplified plans are allowed the looser resolution of the simplifier. ")
T("P19", title="An inverse kinematics solution reaches its goal within tolerance and limits",
  statement="For every chain, start, seed, goal, objective, algorithm, tolerance and history of earlier requests, a solve that reports success returns joint values within the position limits for which the requested frame, with all other joints at the start configuration, is within the angular (quaternion angle) and translational tolerance of the goal; an unreachable goal is never reported as reached. Checking a configuration agrees with its pose. Without restarts the same request gives the same answer, whatever other contexts do, on any thread and in any interleaving; goal, start, seed and parameters are left as they were. A solve is bounded by its maximum of iterations, and by the restart time if there is one, and with restarts a reachable goal is found. The objectives' gradients are their derivatives. Requests with wrong sizes are refused, and no request, refused or not, keeps scratch or heap memory.",
  over=["inputs", "histories", "schedules", "configurations"], qtext="all chains of joints with separate variables, all starts, seeds, goals, parameters and sequences of requests, and all interleavings of threads solving with contexts of one scene",
  why="The tests solve a few goals from the default seed for one robot; wrong seeds, other chain roots, restarts and refused requests need histories and time under control.",
  files=["src/rx/scene_ik.c", "src/rx/ik_nlopt.c", "src/rx/ik_jacobian.c", "src/rx/ik_opt.c", "include/amino/rx/scene_ik.h", "src/tf/quat_pde.c", "src/rx/scene_wk.c"],
  mech=[("solver context copied to scratch for each request", "src/rx/scene_ik.c: s_kin_solve_cx_alloc"), ("random restarts until the restart time", "src/rx/scene_ik.c: aa_rx_ik_solve"), ("bound-constrained optimisation", "src/rx/ik_nlopt.c: s_ik_nlopt")],
  technique="seeded request histories on a virtual clock and controlled schedules of solving threads, against independent forward kinematics and finite differences", note=NOTE + "NLopt runs as the real, uninstrumented library. Joints that share a configuration variable within a chain are left out: the chain lists the variable twice. Gradients are judged for the end of the chain and away from kinks and from values where differences lose their digits. ")
T("P20", title="A linear program context solves the program as it stands, whatever it was before",
  statement="For every linear program, dense or sparse, and every later change of its objective, bounds, constraints, direction and variable types, in any order, a solve with any of the solvers reports success exactly if the program as it then stands has an optimum, and then returns a point within all bounds and constraints, integral where asked, with the optimal objective. Infeasible, contradictory and unbounded programs are reported as failures; unsupported requests are refused. The caller's arrays are only read and may be released at once. Solving always ends, prints nothing, disturbs no other context on any thread, and a destroyed context leaves no memory behind.",
  over=["histories", "inputs", "schedules", "configurations"], qtext="all small programs, all histories of changes and solves on up to three contexts of three solvers, and all interleavings of threads with contexts of their own",
  why="The tests solve a few fixed programs once; what is left from earlier constraints, bounds or bases shows only in histories.",
  files=["src/opt/opt.c", "src/opt/opt_glpk.c", "src/opt/opt_lpsolve.c", "src/opt/opt_clp.cpp", "include/amino/opt/opt.h", "include/amino/opt/lp.h"],
  mech=[("incremental changes of the solver's model", "src/opt/opt_lpsolve.c: s_set_cstr_gm, src/opt/opt_glpk.c, src/opt/opt_clp.cpp"), ("mapping of bounds and status", "src/opt/opt_internal.h")],
  technique="seeded histories of program changes against an oracle that enumerates vertices and integer points, and controlled schedules of threads solving", note=NOTE + "GLPK, lp_solve and CLP run as the real, uninstrumented libraries. Where CLP asked directly, without Amino, gets a program wrong, its answer is not held against Amino; lp_solve's stopping rule for mixed-integer programs is not judged for optimality. ")
T("P21", title="Workspace control follows its reference and never asks for more than the limits",
  statement="In every control loop, with cycles of any length, late, early or stepping back, a computed cycle satisfies: LC3 velocities stay within the joints' velocity limits, change by no more than the acceleration limits allow in the cycle and keep every position within what braking can hold; they combine a correction towards the reference with the projected null-space reference, as far as the limits allow; when no velocities within the limits exist, or time does not advance, the cycle is refused and changes nothing. Damped and projected velocities are those of the damped pseudo-inverse of the true Jacobian; position control moves along the screw motion to the reference, centering towards the middle of the limits. Inputs are left as they were, controllers do not influence each other on any thread, and none keeps scratch memory.",
  over=["inputs", "histories", "schedules", "configurations"], qtext="all chains, limits, references, options and sequences of cycle times, and all interleavings of threads running controllers of one scene",
  why="No test runs a control loop; the failures need chains with more or fewer joints than six, limits in conflict, irregular cycle times or several controllers.",
  files=["src/rx/lc3.c", "src/rx/scene_wk.c", "include/amino/rx/scene_wk.h", "include/amino/rx/scene_wk_internal.h", "src/mat.c"],
  mech=[("limits as bounds of a linear program", "src/rx/lc3.c: lc3_constraints"), ("damped pseudo-inverse", "include/amino/rx/scene_wk_internal.h: aa_rx_wk_get_js"), ("null-space projection", "src/rx/scene_wk.c: aa_rx_wk_dx2dq_np")],
  technique="simulated control loops with irregular, missed and backward cycles, judged against own kinematics, an independent decomposition and a reference program, and controlled schedules of controllers on threads", note=NOTE + "The linear program solvers run as the real, uninstrumented libraries; where CLP or lp_solve asked directly get a program wrong, the cycle's optimality is not judged. ")
T("P22", title="A trajectory passes through its waypoints, is continuous, and is the same however it is played back",
  statement="For every list of waypoints and limits: linear, trapezoidal and parabolic-blend trajectories start and end at rest positions given by the first and last waypoint, visit the others (blends come near them), are continuous in position (and velocity where promised), have the velocity and acceleration they report, and stay within the velocity and acceleration limits. Evaluating at a time gives the same state whatever was evaluated before: a clock that skips, repeats or jumps back changes nothing; asking for part of the state gives that part; times outside are reported as such. Workspace blends and slerp do the same on poses. Waypoint lists hold exactly the distinct waypoints added, at either end. Following a pose trajectory yields a joint path inside the position limits that stays on the trajectory away from singularities; limits are those of the scene graph, infinite where it has none; trajectory states own disjoint arrays and clone faithfully. Nothing leaks and no scratch memory is kept.",
  over=["inputs", "histories", "configurations"], qtext="all waypoint lists, limits, robots, playback orders of evaluation times and region sizes",
  why="The tests build one trajectory and play it forward once; the failures need other waypoint counts, limits, directions of travel, partial states or a clock that goes back.",
  files=["src/ct/traj.cpp", "src/ct/state.c", "src/rx/rx_ct.c", "include/amino/ct/traj.h", "include/amino/ct/state.h", "include/amino/rx/rx_ct.h"],
  mech=[("segment list with a cursor", "src/ct/traj.cpp: aa_ct_seg_list_eval"), ("blend and trapezoid generators", "src/ct/traj.cpp"), ("path following by integrated inverse velocity kinematics", "src/rx/rx_ct.c: aa_rx_ct_tjx_path")],
  technique="simulated playback on a clock that skips, repeats and jumps back, compared with a trajectory built separately and sampled forwards, the waypoints, the limits and own kinematics", note=NOTE)
T("P24", title="Integration follows the system it integrates to the order of its method, through disturbances",
  statement="Every integration step's error shrinks with the order of its method, evaluating the system only at times inside the step and leaving its inputs as they were. A whole integration, fixed or adaptive, advances time with every step, hands its check the true state and derivative, keeps each step's own error within the tolerance (fixed steps: the method's order), takes over a state the check changed, and ends when and how the check says; paths record every accepted state in order, in the caller's region, even when that is the thread's own.",
  over=["inputs", "histories"], qtext="all systems, step sizes, tolerances, disturbances and times at which integrations stop",
  why="The tests integrate one system without disturbances and compare the end with a loose tolerance; swapped stages or a clock that stands still only show on systems that depend on time or with an error estimate that misleads.",
  files=["src/sigsys.c", "include/amino/sigsys.h"],
  mech=[("embedded Runge-Kutta steps", "aa_odestep_dorpri45, aa_odestep_rkck45, aa_odestep_rkf45, aa_odestep_rkbs23"), ("step size control", "aa_ode_sol, aa_ode_path")],
  technique="simulated time-dependent plants with seeded disturbances injected at check points, judged step by step against a fine reference integration", note=NOTE + "Adaptive tolerances bound an asymptotic estimate; the check allows 100 to 1000 times the tolerance for one step's own error.")
T("P25", title="A plugin stays loaded exactly as long as something that came from it is in use",
  statement="Scene graphs and meshes loaded from shared objects keep their shared object loaded until they, the scene graphs that use them and all copies of those are destroyed, in whatever order and by whichever thread, and it is unloaded then. This holds for a scene graph put together from several plugins, too. A load that fails, because the file or the symbol is missing or the plugin creates nothing, returns NULL, leaves the scene graph it was to extend as it was, and leaves nothing loaded.",
  over=["histories", "faults", "schedules"], qtext="all histories of loading, combining, copying and destroying, all loader failures, all interleavings of loading threads",
  why="The tests load no plugin; memory of an unloaded plugin is only missed by whoever uses it later, and a leaked handle by nobody.",
  files=["src/rx/plugin.c", "src/rx/sg_api.cpp", "src/rx/scenegraph.cpp", "src/rx/scene_geom.c"],
  mech=[("destructors that close the plugin", "src/rx/plugin.c: plugin_destructor; aa_rx_sg_set_destructor"), ("reference counts of meshes", "src/rx/scene_geom.c: aa_rx_mesh_destroy")],
  technique="simulated dynamic loader with injected open and lookup failures, histories against a model of what keeps what loaded, module data that disappears when unloaded", note=NOTE + "The modules are models with the interface the scene compiler generates.")
T("P16", title="An initialised scene graph can be read by any number of threads at once",
  statement="Once a scene graph is initialised, any number of threads may query it, compute kinematics and Jacobians on it, build chains from it and copy it at the same time, without locks: no interleaving causes a data race, and every thread gets the result it would get alone.",
  over=["schedules"], qtext="all interleavings of concurrent readers, all scene graphs and configurations",
  why="The tests are single-threaded; a reader that secretly writes shared state still passes them.",
  files=["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/scene_kin.c", "src/rx/scene_sub.cpp"],
  mech=[("read-only queries on const scene graphs", "src/rx/sg_api.cpp"), ("thread-local scratch", "src/mem.c: aa_mem_region_local_get")],
  technique="controlled schedules of concurrent readers with a happens-before race oracle, results checked against the scene model", note=NOTE)
GLNOTE = NOTE + "OpenGL, SDL and the 3D mouse are models: they check object names, contexts and threads, not pixels. "
T("P09", title="Graphics data follows the geometry it was made from, on the right thread",
  statement="Whatever the order in which scene graphs that share geometry are shown, replaced, copied and destroyed by any thread while a display loop runs, every picture draws each visible geometry completely and with its own shape and colour; graphics objects are created, used and deleted only on the thread that holds the graphics context, never after deletion, and objects of geometry that nothing refers to any more are deleted. Rendering a shared scene never disturbs threads that read it.",
  over=["schedules", "histories"], qtext="all interleavings of the display loop with threads that replace, copy and destroy scenes, and all shape kinds and sharing patterns",
  why="The tests open no window; the failing interleavings need a scene destroyed on another thread while it is being drawn.",
  files=["src/amino_gl.c", "src/rx/scene_geom.c", "src/rx/sdl_win.c"],
  mech=[("deferred deletion list", "src/amino_gl.c: aa_gl_buffers_schedule_destroy, aa_gl_buffers_cleanup"), ("lazy creation at first drawing", "src/amino_gl.c: aa_geom_gl_buffers_init")],
  technique="modelled graphics context and object table under controlled thread schedules, every picture checked against the scene model", note=GLNOTE)
T("P10", title="Calls handed to the window thread run exactly once, there, and return their own result",
  statement="Any number of threads may ask for functions to be run by the window thread at the same time, before or after the window exists, nested, and while the window is locked by others: each function runs exactly once, on the window thread, and its caller gets that function's result. As long as a display loop runs, every call returns.",
  over=["schedules", "fault_sequences"], qtext="all interleavings of callers, display loop and window creation, with spurious wake-ups and stalled threads",
  why="Single-threaded tests cannot lose a result or deadlock.", files=["src/rx/sdl_win.c", "include/amino/rx/scene_win.h"],
  mech=[("one request slot with a condition variable", "src/rx/sdl_win.c: aa_rx_win_call, s_handle_call")],
  technique="controlled thread schedules with spurious wake-ups and stalls, exactly-once and progress oracles", note=GLNOTE)
T("P11", title="Windows and display loops start, stop and end in any order",
  statement="A display loop may be started on the calling or a new thread, before or after the window is created, and several starts may compete: at most one loop drives the window, and it draws as soon as the window exists. Stopping, or closing the window when that is enabled, ends the loop within a bounded number of pictures and only then; a disabled close is ignored. Replacing the display function at any time calls the old context's destructor exactly once and never calls the old function again. Destroying the window ends its loop first and releases everything.",
  over=["schedules", "histories", "fault_sequences"], qtext="all orders and interleavings of creation, start, stop, close requests, replacement of the display function and destruction",
  why="No test opens a window, and each failure is one ordering of two threads.", files=["src/rx/sdl_win.c", "src/amino_sdl.c"],
  mech=[("running flag and broadcast", "src/rx/sdl_win.c: aa_rx_win_run, aa_rx_win_run_async, s_run_loop"), ("stop flags polled per picture", "src/rx/sdl_win.c: win_display")],
  technique="controlled thread schedules over window life cycles in simulated time, with failing window creation, close events, stalls and spurious wake-ups", note=GLNOTE)
T("P12", title="Every picture shows one consistent, current state of the window",
  statement="While other threads replace the scene, the configuration, the camera, frame masks and the visual and collision switches, every picture shows a state that was current at some moment while it was made: never parts of two updates, never one older than a picture before it showed, and after updates stop the latest one. Updates made while the window is locked appear together. What was set reads back, and any history of masking and unmasking frames hides exactly the masked ones. Windows and globals return all memory.",
  over=["schedules", "histories", "inputs"], qtext="all interleavings of updates with the display loop, all scenes, configurations, cameras and mask histories",
  why="No test opens a window; a torn or stale picture needs an update at one moment of the drawing.", files=["src/rx/sdl_win.c", "src/amino_gl.c"],
  mech=[("window lock held while drawing", "src/rx/sdl_win.c: win_display, aa_rx_win_set_bconfig, set_sg"), ("growing bit mask", "src/amino_gl.c: aa_gl_globals_mask")],
  technique="controlled thread schedules; every picture is decoded and matched against the history of published states", note=GLNOTE)
T("P13", title="Motion plans are played back in time, point by point, and over again",
  statement="A plan or a sequence of plans shown in a window starts at its first point, moves from point to point at the fixed rate by linear interpolation, never interpolates across the parts of a sequence, shows each part in its own scene, and starts over after its last point, however late, early or irregularly pictures are drawn. A plan installed while another is playing replaces it and starts from its beginning. Plans are copied when added, a sequence keeps exactly the parts appended in order, and all memory is returned.",
  over=["schedules", "inputs", "histories"], qtext="all plans and sequences, all timings of the display loop including stalls, and all moments of replacement",
  why="Playback depends on the clock, which tests do not control, and no test opens a window.", files=["src/rx/sdl_win.c", "src/rx/mp_seq.cpp", "src/amino_sdl.c"],
  mech=[("point index from elapsed time", "src/rx/sdl_win.c: mp_seq_display, plan_display_1"), ("part list", "src/rx/mp_seq.cpp")],
  technique="virtual clock with stalls; every picture is decoded to a plan position and checked against interval bounds on the start time", note=GLNOTE)
T("P23", title="Input reaches its handler once, and camera and robot follow it",
  statement="Every input event goes, once and in order, to the handler first bound to it, whichever thread binds and when; an event no handler takes moves the camera by exactly its motion. Camera motions, camera poses set or read by other threads, pictures and the copied pose are all explained by one order of those operations: no motion and no pose is lost. While the robot is driven with the device, the end-effector moves with the commanded velocity from where it is and stops at joint limits.",
  over=["schedules", "inputs", "histories"], qtext="all event sequences, modifier keys, device motions, bindings and interleavings with threads that set and read the camera",
  why="No test delivers an input event, and a lost update needs a set during one event.", files=["src/amino_sdl.c", "src/sdl_handler.c", "src/sdl_ui.c", "src/rx/sdl_win.c"],
  mech=[("binding table under a lock", "src/sdl_handler.c"), ("relative camera motion under the window lock", "src/amino_sdl.c: aa_sdl_scroll_event, aa_spnav_scroll"), ("velocity control", "src/rx/sdl_win.c: workspace_control")],
  technique="simulated input devices and thread schedules; camera histories checked for linearizability against a camera model", note=GLNOTE)
T("P26", title="Every representation of a transform, and every operation on it, denotes the same motion",
  statement="Rotations and rigid transforms, as quaternions, matrices, Euler angles, axis and angle, rotation vectors, quaternion and translation, dual quaternions and in the plane, convert into each other, compose, invert, rotate points, are exponentiated, logarithmed, differentiated, integrated, interpolated and averaged so that every representation denotes the same motion, up to the sign of a quaternion and rounding: at the identity, for tiny, quarter, half and multiple turns, for negated quaternions and at gimbal lock, for large and small translations, and through long histories of mixed operations. Velocities, twists and derivatives convert consistently, and derivatives are those of the functions they differentiate. Arguments are left alone, nothing beyond the result is written, and the results do not depend on other threads, scratch memory or earlier calls.",
  over=["inputs", "histories", "schedules"], qtext="all transforms, velocities, angles and interpolation parameters, singular and nearly singular ones included, all histories of operations and all thread interleavings",
  why="The tests try random, mostly generic rotations; series, branches and signs matter at singular and nearly singular ones, and errors in a derivative or in a drift show only against an independent model.",
  files=["src/tf.c", "src/tf/conv.c", "src/tf/quat.c", "src/tf/quat_ord.c", "src/tf/quat_duqu.c", "src/tf/quat_qutr.c", "src/tf/quat_pde.c", "src/tf/tfmatrix.c", "src/tf/tfp.c", "src/tff.F90", "include/amino/tf/spatial.h"],
  mech=[("series near singular points", "src/tf/tfmatrix.c: aa_tf_tfmat_expv; src/tf/quat_ord.c: aa_tf_qduln, aa_tf_qjuln"), ("short way round", "aa_tf_qminimize, aa_tf_qslerp_param"), ("branches near half a turn", "src/tf/tfmatrix.c: aa_tf_rotmat_lnv")],
  technique="seeded histories and simulated threads; a long-double model of rigid motion is followed through all representations at once, each call judged against it with guard elements around its arguments, over seeded states of the scratch memory", note=NOTE + "Results are compared with rounding bounds in proportion to the conditioning. Logarithms within 0.2 rad of a full turn (singular) are not taken. ")
T("P27", title="A kinematic chain is exactly the joints on its way, and its Jacobian is the derivative of its motion",
  statement="A chain between two frames, or the union of several chains, holds exactly the frames on the way (every one once in a union), parents first, with the configurations of their joints; chains without joints or without frames are as good as any other. Values move between the configuration of the chain and that of the whole scene, one by one, in strided vectors or along paths, to the right places and nowhere else. Central and random configurations obey the position limits. Partial forward kinematics moves the members of the chain and nothing else. Velocity and twist Jacobians, in each of their forms and memory layouts, are the derivative of the end-effector's motion for every configuration, so that following them through time ends where the kinematics do. All this holds from several threads at once on a shared scene and chain.",
  over=["inputs", "histories", "schedules"], qtext="all trees of fixed, revolute and prismatic frames, roots and tips (unrelated ones and the same one included), shared configurations, offsets, axes, limits, configurations, strides, and interleavings of reading threads",
  why="The tests use one robot arm with unit strides and never look at a Jacobian column by column.",
  files=["src/rx/scene_kin.c", "src/rx/scene_sub.cpp", "src/rx/sg_api.cpp", "include/amino/rx/scene_sub.h", "include/amino/rx/scene_fk.h"],
  mech=[("way from tip to root", "src/rx/scene_kin.c: aa_rx_sg_chain_frames; src/rx/scene_sub.cpp: aa_rx_sg_chain_multiple_frames"), ("axis and moment per joint", "src/rx/scene_kin.c: aa_rx_sg_sub_jac_vel_fill2, aa_rx_sg_sub_jac_twist_fill2, aa_rx_sg_chain_jacobian"), ("scatter and gather", "src/rx/scene_kin.c: aa_rx_sg_sub_config_scatter, aa_rx_sg_sub_expand_path")],
  technique="seeded scene graphs, chains and simulated threads; membership, mappings and partial kinematics judged against an own model of the tree, Jacobians against differences of its poses and by integrating joint velocities along simulated time", note=NOTE + "Central differences of a model's poses judge Jacobians within 1e-8 of the chain's size. Where several joints share one configuration, there is a column per joint. ")
T("P28", title="Arguments that do not fit together are refused before anything is touched",
  statement="Whenever the vectors and matrices of one call do not fit each other, the scene, the chain or the view that is asked for, in whichever size, the call reports it, with a message, to the error handler that is set, and nothing has been read beyond or written to the arguments by then. Arguments that fit are never refused. A handler that leaves the call leaves everything usable: the same thread goes on calling, and other threads never notice.",
  over=["inputs", "faults", "histories", "schedules"], qtext="all linear-algebra, kinematics and workspace-control calls with checked sizes, every argument and size wrong in turn, strides, empty sizes, sequences of right and wrong calls and threads",
  why="No test passes arguments of wrong sizes, so a check that is lost, comes too late or refuses too much goes unnoticed until memory is overwritten.",
  files=["src/mat.c", "src/rx/scene_kin.c", "src/rx/scene_wk.c", "src/tf/quat_pde.c", "include/amino/mat_internal.h"],
  mech=[("size checks", "include/amino/mat_internal.h: aa_la_check_size; src/mat.c: aa_la_fail_size"), ("replaceable error handler", "src/mat.c: aa_la_set_err")],
  technique="seeded sequences of calls in simulated threads with injected misfits of one size at a time; the handler leaves by longjmp, and all memory near the arguments is compared with what it was", note=NOTE)
T("P31", title="C++ containers on memory regions and C++ vector and matrix expressions: right values, nothing else touched",
  statement="Standard containers, objects and arrays that C++ code places on a memory region keep their contents while their scope lasts, however scopes nest, regions grow and containers are copied, swapped and interleaved; the end of a scope, also by an exception, gives back what was allocated in it and nothing else, and threads with regions of their own do not affect each other. Vector and matrix expressions (sums, scalings, products, transposes, inverses and their combinations) assigned to a vector or matrix that the expression does not read have the value that mathematics gives, for all sizes, increments and leading dimensions; assignments change the elements of their target only. Slices, rows, columns, blocks, constant views and every step of the iterators refer to exactly the elements they name.",
  over=["inputs", "histories", "schedules"], qtext="all operators and their combinations, sizes 1 to 9, increments 1 to 3, wide leading dimensions, nested scopes four deep, exceptions, containers of containers, up to three threads",
  why="The tests evaluate each operator once on packed two- and three-element data; strided vectors, blocks of larger matrices, the other iterator steps and containers that outgrow a chunk never occur.",
  files=["include/amino/mem.hpp", "include/amino/mat.hpp"],
  mech=[("scopes and allocator on regions", "include/amino/mem.hpp: RegionScope, RegionAllocator"), ("expression templates", "include/amino/mat.hpp: DVecExp*, DMatExp*, operators"), ("views and iterators", "include/amino/mat.hpp: DVec::slice, view, DMat::row_container, col_container")],
  technique="seeded histories over simulated threads and a checked heap; containers against the standard allocator's, expressions against plain loops over a copy of all memory near the operands", note=NOTE)
T("P32", title="Bit sets, shared reference counts, byte orders, swaps and number helpers are exact everywhere",
  statement="A set of bits answers, after every history of setting, clearing and combining (and, or, xor) sets of any size, exactly what sets of numbers would; every operation ends, and nothing outside the words of its operands is read or written. A reference count shared by any number of threads gives each increment and decrement the count before it, exactly one thread sees the last reference go, and that thread may then release what was counted. Conversions between the machine's and a given byte order, stored at any address, put the right octet first and invert each other for every integer and floating-point value; swapping exchanges exactly the octets named; a growing vector keeps what was pushed, in order. Clamping, modulo, angle normalisation, extrema, range validation, colour and time conversions follow their definitions for every value, including limits, zeros, negative numbers and infinities.",
  over=["inputs", "histories", "schedules"], qtext="all bit-set operations on sets of 0 to 260 bits, all integer and floating-point conversions at all alignments, arbitrary and special numbers, two to four threads holding and passing on references in all interleavings the scheduler draws",
  why="The tests convert the number one to big and little endian; bit sets are never combined, references never counted by two threads, and the helpers never meet negative, infinite or boundary values.",
  files=["include/amino/mem.h", "src/refcount.c", "include/amino/endconv.h", "include/amino/math.h", "include/amino/time.h", "src/validate.c", "src/cv.c", "src/math.c"],
  mech=[("words of bits", "include/amino/mem.h: aa_bits_*"), ("atomic or locked counts", "src/refcount.c: aa_mem_ref_inc_*, aa_mem_ref_dec_*"), ("octet reversal", "include/amino/endconv.h: aa_endconv_reverse, AA_ENDCONV_MAKE_*")],
  technique="seeded histories and interleavings under the simulated scheduler against flag arrays, octet-wise definitions and plain formulas; counted objects are released by the thread that sees the last reference, under the race and heap oracles", note=NOTE)
T("P29", title="Python vectors, matrices and transforms: every operation gives what mathematics says and leaves the rest alone",
  statement="Whatever Python code builds from vectors, matrices, views (rows, columns, diagonals, blocks, slices), angles, quaternions, transforms and velocities, converts and computes with them, in whichever of the accepted argument forms: each operator, method and conversion has the value that mathematics gives, an in-place operator changes its target only, arguments and defaults stay as they were, printed text reads back as the object, and indices, element counts and product sizes that do not fit raise an exception and change nothing. A view shows and changes the values of what it was taken from for as long as the view exists, whether or not the program still holds the original. No memory is used after its release or leaked, whenever garbage is collected.",
  over=["inputs", "faults", "histories"], qtext="sequences of all operations of amino.mat and amino.tf over shared and viewed objects, all argument forms, misfits, early release of owners, cyclic garbage, collections and asynchronous exceptions",
  why="The Python tests compute a handful of values from fresh objects that stay alive; none lets an original go before its view, mixes argument forms or repeats a call that uses a default argument.",
  files=["python/amino/mat.py", "python/amino/tf.py", "python/amino/util.py", "python/amino/mixin.py"],
  mech=[("views keep their owner", "python/amino/mat.py: DVec.__getitem__, DMat.row_vec, col_vec, diag_vec, block"), ("conversions", "python/amino/tf.py: conv_from, ensure"), ("size checks", "python/amino/mat.py: gemv, gemm, copy_from")],
  technique="seeded histories inside one simulated interpreter (own clock, seeds, explicit garbage collection, injected releases, cycles and exceptions at package lines) against plain-number models; memory errors and leaks seen by instrumented libraries", note=NOTE)
T("P30", title="Python scenes, kinematics, collision checks and plans: right in any order of creation, use and release",
  statement="Whatever order a Python program builds, changes, copies, loads, uses and releases scene graphs, geometries, options, chains, kinematics, velocity and inverse-kinematics solvers, collision checkers, sets, distances and planners in: names, ids, parents, options and poses are those of the scene as built; configurations survive conversion between lists, vectors and dictionaries; reported collisions, distances, solutions and paths are true of the scene; bad names, ids, sizes and plugins raise the documented exceptions and change nothing. An object stays usable as long as the program holds it, even when the scene or chain it came from was let go, and everything is given back exactly once.",
  over=["inputs", "faults", "histories"], qtext="random scenes up to a dozen frames edited while solvers and checkers are created from them, plugins, copies, shared geometry, all configuration forms, early releases in any order, cyclic garbage, collections and asynchronous exceptions",
  why="The Python tests and demonstrations build one scene, keep everything alive to the end and exit; lifetimes, shared geometry and documented errors are never exercised.",
  files=["python/amino/scenegraph.py", "python/amino/kinematics.py", "python/amino/collision.py", "python/amino/motionplanning.py"],
  mech=[("references between the objects", "python/amino/*.py: scenegraph, ssg, _cl attributes; Geom holds its own reference"), ("documented exceptions", "python/amino/scenegraph.py: ensure_* and load")],
  technique="seeded histories inside one simulated interpreter (own clock, seeds, explicit garbage collection, injected releases, cycles and exceptions at package lines) against a plain model of the scene; memory errors and leaks seen by instrumented libraries", note=NOTE)
