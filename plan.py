"""Build flavours and, per property, the monitored jobs of each tier."""
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fsanitize-recover=alignment -fno-sanitize=nonnull-attribute -fno-omit-frame-pointer"
FLAVOURS = {
    # T8_ENABLE_DEBUG assertions of the library itself + ASan + UBSan
    "san": dict(type="Debug", opt="-O1 -g1", flags=SAN),
    # release configuration: no assertions, optimised
    "rel": dict(type="Release", opt="-O2", flags="-g1"),
}
PLAN = {}


def prop(pid, **kw):
    PLAN[pid] = kw


def J(flavour, prog, args=(), np=1, **kw):
    d = dict(flavour=flavour, prog=prog, args=list(args), np=np)
    d.update(kw)
    return d


# ---------------------------------------------------------------- element schemes
def scheme_jobs(nseeds_thorough=12, qscale=1):
    def f(tier, seed):
        out = []
        for s in (0, 1):
            reps = 2 if tier == "quick" else nseeds_thorough
            for r in range(reps):
                sc = qscale if tier == "quick" else 4 * qscale
                out.append(J("san", "p_scheme", ["--scheme=%d" % s, "--scale=%d" % sc], seed=seed * 1000 + r))
                out.append(J("rel", "p_scheme", ["--scheme=%d" % s, "--scale=%d" % (2 * sc)], seed=seed * 1000 + 50 + r))
        return out
    return f


prop("C01", jobs=scheme_jobs(12, 2), evals=["elements", "family_negative", "family_windows", "pairs"], distinct=["elements"],
     rule="random and corner descents in every element class of both schemes up to the maximum level; an element is "
          "non-trivial when its level is > 0; distinct by (scheme, class, path)",
     min={"elements": 2000})
prop("C02", jobs=scheme_jobs(12, 6), evals=["elements", "pairs"], distinct=["elements", "ids"], rule="as C01; pairs of elements compared "
     "against the order of their refinement paths", min={"elements": 500})
prop("C03", jobs=scheme_jobs(12, 15), evals=["elements"], distinct=["elements"], rule="as C01; exact integer geometry of parent and "
     "children", min={"elements": 500})
prop("C04", jobs=scheme_jobs(6, 2), evals=["elements"], distinct=["elements"], rule="as C01; every face of every element",
     min={"elements": 200})


# ---------------------------------------------------------------- coarse mesh
def cm_jobs(prog, nq, nt, nps=(1, 2, 3, 4), args=(), rel=True, reps_t=3):
    def f(tier, seed):
        out = []
        if tier == "quick":
            for i, np in enumerate(nps):
                out.append(J("san", prog, ["--n=%d" % nq] + list(args), np=np, seed=seed * 1000 + i))
            for i, np in enumerate(sorted({nps[-1], nps[len(nps) // 2]}) if rel else ()):
                out.append(J("rel", prog, ["--n=%d" % (3 * nq)] + list(args), np=np, seed=seed * 1000 + 50 + i))
        else:
            for r in range(reps_t):
                for i, np in enumerate(tuple(nps) + (5, 7)):
                    out.append(J("san", prog, ["--n=%d" % nt] + list(args), np=np, seed=seed * 1000 + 100 * r + i))
                    if rel:
                        out.append(J("rel", prog, ["--n=%d" % (2 * nt)] + list(args), np=np, seed=seed * 1000 + 100 * r + 50 + i))
        return out
    return f


prop("C19", jobs=cm_jobs("p_cmesh", 100, 500), evals=["tree_faces", "tree_attributes", "ghost_faces", "ghost_attributes", "mutants", "bcasts"],
     distinct=["meshes"],
     rule="random coarse meshes (all classes, arbitrary joins incl. self and periodic joins, 0..6 attributes per tree of 1..3000 bytes), set "
          "calls in a different random order per rank; a case is one mesh taken through replicated commit, second commit, 10 mutants, copy, "
          "broadcast, two partitioned commits; distinct by topology hash",
     min={"cases": 50, "partitioned_commits": 50, "bcasts": 20, "mutants": 100})
prop("C20", jobs=cm_jobs("p_cmesh", 120, 400, nps=(2, 3, 4, 5)), evals=["repartitions", "tables", "owner_queries", "ghost_faces", "tree_faces"],
     distinct=["repartitions", "tables"],
     rule="random meshes and random partition tables (empty processes, trees shared by several processes, small shifts) in chains of 1..4 "
          "repartitions from replicated or partitioned meshes; plus partition table arithmetic for 1..14 virtual processes against brute force; "
          "distinct by (mesh, old table, new table)",
     min={"repartitions": 100, "tables": 500})
prop("C21", jobs=cm_jobs("p_unif", 500, 4000, nps=(1, 2, 3, 5, 6, 8)), evals=["arith", "bounds", "uniform_elements"], distinct=["distributions", "arith"],
     rule="first element of a process for random (process, process count < 2^31, element count < 2^63) against 128-bit arithmetic; random meshes "
          "(replicated or partitioned by a random table with empty processes and shared trees), any level whose element count fits 63 bits, both "
          "schemes; tree and child bounds on every process, virtual process counts up to 2^24, and all elements of uniform forests",
     min={"arith": 10000, "bounds": 500, "empty_ranks": 100, "forests": 50})
prop("C22", jobs=cm_jobs("p_join", 500, 4000, nps=(4, 4), args=()), evals=["faces", "corner_labels", "vertex_lists", "tree_faces"], distinct=["meshes"],
     rule="random conforming hybrid meshes (line; quad/triangle; hex/prism/pyramid/tet) with arbitrary orientation-preserving corner numbering, tree order, "
          "holes, slits down to 1e-11 of the extent, scales 1e-6..1e6; joins compared with brute-force corner matching; vertex labels arbitrary 63-bit ids",
     min={"cases": 200, "labelled": 50, "joined_faces": 2000})
prop("C24", jobs=cm_jobs("p_examples", 140, 800, nps=(1, 2, 3, 5), reps_t=2), evals=["faces", "joined_faces", "face_points", "p4_faces"], distinct=["cases"],
     rule="every built-in coarse mesh constructor with random parameters (extents, periodicity, padding, class, offsets, replicated/broadcast/partitioned); "
          "joins compared with the faces that coincide in the geometry of the trees (sampled points, orientation, periods), class counts and total "
          "size with closed formulas; connectivities imported from p4est with the arrays they were made from",
     min={"cases": 200, "joined_faces": 5000})
prop("C23", jobs=cm_jobs("p_msh", 500, 2500, nps=(1, 2, 3)), evals=["tree_faces", "tree_attributes", "node_entities", "node_parameters", "vertex_ids", "broken_files"],
     distinct=["files"],
     rule="gmsh 4.1 text files written from random conforming hybrid meshes of dimension 1..3 (sparse, permuted and 40-bit node tags, several node and element "
          "blocks, blocks of other dimensions, parametric nodes, comments, blank lines, tabs, CRLF), read replicated and with every process as reader; 12 broken "
          "variants of each (cut off, unknown or equal nodes, counts, types, sections, swapped lines, random bytes)",
     min={"cases": 300, "refused_files": 2000, "node_parameters": 1000})
prop("C30", jobs=cm_jobs("p_basic", 2500, 8000, nps=(1, 1)), evals=["vectors", "vectors3", "c_vectors", "matrices", "splits", "refcounts", "table_entries", "tripods", "coplanar", "types"],
     distinct=["vectors", "splits"],
     rule="random vectors of dimension 1..8 and 3 over many magnitudes, special directions (axes, diagonals, parallel, opposite), C and C++ interfaces against "
          "independent arithmetic with rounding bounds; sorted category arrays with empty categories; reference counting histories against a counter; "
          "all entries of the element class tables against the reference geometry",
     min={"vectors": 2000, "vectors3": 5000, "splits": 1000, "table_entries": 500})


# ---------------------------------------------------------------- forest histories
HIST = ("random meshes (conforming hybrid, periodic, arbitrary gluings; replicated or partitioned; both schemes) taken through histories of 2..6 "
        "operations (adapt once/recursive/to the maximum level/with removal, partition plain/weighted/by offset/for coarsening, balance, copy, and their "
        "combinations in one commit); after each operation all leaves are gathered and compared with a model that only uses element geometry; ")
prop("C05", jobs=cm_jobs("p_forest", 70, 500), evals=["tilings", "leaves", "trees"], distinct=["states"],
     rule=HIST + "a state is a global list of leaves with owners", min={"tilings": 300, "leaves": 20000, "op_balance": 50, "empty_processes": 20})
prop("C06", jobs=cm_jobs("p_forest", 140, 500), evals=["callback_calls", "refined", "coarsened", "removed", "sequences"], distinct=["states", "histories"],
     rule=HIST + "every adaptation replayed in a model of the callback protocol (arguments, order, families, recursion)",
     min={"op_adapt": 200, "callback_calls": 10000, "refined": 1000, "coarsened": 500, "removed": 20, "coord_calls": 300})
prop("C07", jobs=cm_jobs("p_forest", 70, 500, nps=(2, 3, 4, 5)), evals=["partitions", "sequences", "coarsening_boundaries", "gathers"], distinct=["partitions"],
     rule=HIST + "leaf sequence before = after, piece sizes against the documented rule in exact arithmetic (weights: rational)",
     min={"partitions": 200, "coarsening_boundaries": 20, "gathers": 10, "partition_balance": 10, "profile_partition": 10})
prop("C08", jobs=cm_jobs("p_forest", 200, 500, nps=(1, 2, 3, 5)), evals=["items"], distinct=["transfers"],
     rule=HIST + "items of 1..1000 bytes computed from the leaf they belong to; distinct by (old offsets, new offsets, item size)",
     min={"transfers": 300, "items_moved": 3000})
prop("C09", jobs=cm_jobs("p_forest", 70, 400), evals=["balance_added", "balanced_true", "balanced_false"], distinct=["states"],
     rule=HIST + "result compared with the least balanced refinement computed by fixed point on exact face adjacency",
     min={"op_balance": 200, "balance_changed": 20, "balanced_false": 20, "balance_added": 500})
QUERY = HIST + "on each forest of the history "
prop("C10", jobs=cm_jobs("p_query", 90, 300, nps=(1, 2, 3, 4, 6)), evals=["layers", "ghosts"], distinct=["layers"],
     rule=QUERY + "every process compares its ghost layer (algorithms half neighbors, owner search and top-down) with the leaves of other processes that share a face with "
          "one of its own, computed from exact geometry of the gathered leaves: elements, order, trees, classes, tree ids, remotes and first indices",
     min={"layers": 300, "ghosts": 3000, "empty_layers": 10})
prop("C11", jobs=cm_jobs("p_query", 90, 400, nps=(1, 2, 3, 4, 6)), evals=["exchanges", "values"], distinct=["exchanges"],
     rule=QUERY + "records of 1..1000 bytes derived from each leaf's identity are exchanged, several times and repeatedly in place, and every ghost record is compared "
          "with the one of its leaf; own records must be untouched",
     min={"exchanges": 500, "values": 20000})
prop("C12", jobs=cm_jobs("p_query", 30, 200, nps=(1, 2, 3, 4, 6)),
     evals=["faces", "subfaces", "virtual_neighbors", "half_neighbors", "ghost_leaves", "uniform_faces"], distinct=["states"],
     rule=QUERY + "the neighbors of all faces of all local leaves and ghosts are compared (indices, dual faces, elements, tree, orientation) with face adjacency computed from "
          "exact geometry; same-level, half-size and sub-face neighbors of random elements likewise",
     min={"faces": 20000, "finer": 500, "coarser": 500, "tree_faces": 3000, "subfaces": 500, "ghost_leaves": 500, "half_neighbors": 3000})
prop("C13", jobs=cm_jobs("p_query", 40, 200, nps=(1, 2, 3, 4, 6)),
     evals=["tree_ids", "leaf_index", "elements", "owners", "owners_at_face", "searches"], distinct=["states"],
     rule=QUERY + "global/local tree numbers, element numbers and offsets, and for random elements (leaves, ancestors, descendants, others) the owner, the owners at a face and "
          "inside, leaf tests, leaf descendants and the positions found by the binary searches are compared with a scan of all leaves",
     min={"elements": 5000, "owners": 5000, "split_elements": 200, "split_faces": 200, "searches": 5000})
prop("C14", jobs=cm_jobs("p_query", 60, 400, nps=(1, 2, 3, 5)), evals=["visits", "queries", "leaf_visits"], distinct=["searches"],
     rule=QUERY + "5 searches with pseudo-random matching of elements and queries (0..6 queries; C function, C++ plain, per-query and batched classes; exchanged forest, queries "
          "and user data) are traced and compared call by call with a reference traversal",
     min={"searches": 1000, "visits": 20000, "queries": 20000})
prop("C15", jobs=cm_jobs("p_query", 80, 500, nps=(1, 2, 3, 5)), evals=["kept", "refined", "coarsened", "removed", "face_leaves"], distinct=["replacements", "face_iterations"],
     rule=QUERY + "the callback trace of the comparison of an adapted forest with its origin is checked call by call against the two leaf lists; faces of random elements "
          "(local and ghost trees) are iterated and the visited leaves compared with those that touch the face in exact geometry",
     min={"replacements": 100, "refined": 300, "coarsened": 300, "removed": 10, "face_iterations": 3000})
prop("C16", jobs=cm_jobs("p_indep", 22, 250, nps=(2, 3, 4, 6)), evals=["runs", "compared_facts", "leaf_facts", "face_facts"], distinct=["histories", "states"],
     rule="one global history (adapt, recursive refinement, coarsening of complete families, balance, partition) is run on one process and 4 times on other communicators "
          "(all processes, reversed ranks, disjoint groups running at the same time) with other coarse mesh distributions, other weights/offsets/additional partitions, "
          "other ghost algorithms and injected delays, synchronous sends and shuffled wildcard receives; after each step the digest of the global leaves and of levels, "
          "shapes, neighbors, dual faces and orientations of all leaves must be that of the run on one process",
     min={"runs": 200, "disturbed_runs": 100, "compared_facts": 500, "wildcard_shuffles": 100, "op_balance": 100})


def c18_jobs(tier, seed):
    out = []
    i = 0
    for rep in range(1 if tier == "quick" else 4):
        for prog, nq, nt in (("p_forest", 50, 150), ("p_query", 40, 150), ("p_cmesh", 40, 100), ("p_unif", 60, 200), ("p_examples", 40, 150), ("p_msh", 50, 150)):
            for mode, np in ((1, 3), (15, 2), (15, 4), (9, 6), (7, 5)):
                if tier == "quick" and prog not in ("p_forest", "p_query", "p_cmesh") and mode != 15:
                    continue
                i += 1
                out.append(J("san", prog, ["--n=%d" % (nq if tier == "quick" else nt), "--mpi=%d" % mode], np=np, seed=seed * 1000 + 100 * rep + i))
    return out


prop("C18", jobs=c18_jobs, evals=["sends", "receives", "collectives", "quiet_points"], distinct=["schedules", "traces"],
     rule="all parallel workloads of this suite (forest histories with ghost layers and exchanges, coarse mesh commits, repartitions, broadcasts, built-in meshes, files) run with "
          "every MPI call intercepted: after each operation no request is pending, every message was received (per pair of processes and tag, messages and bytes), all "
          "processes made the same collective calls, and send buffers are valid and unchanged until their completion; in modes with random delays, synchronous sends "
          "and random choice among pending messages for wildcard receives; a run that does not finish is a hang. distinct by order of received messages and of collectives",
     min={"sends": 3000, "isends": 1000, "collectives": 5000, "wildcard_shuffles": 100, "delays": 5000, "quiet_points": 1000})


def c17_jobs(tier, seed):
    q = tier == "quick"
    out = []
    # a fixed run that shows a known finding
    out.append(J("san", "p_forest", ["--n=20", "--memory-only"], np=3, seed=77, prop="C00"))
    for rep in range(1 if q else 6):
        b = seed * 1000 + 100 * rep
        for i, np in enumerate((1, 2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 8)):
            out.append(J("san", "p_life", ["--n=%d" % (120 if q else 400), "--lsan"], np=np, seed=b + i))
        out.append(J("rel", "p_life", ["--n=%d" % (10 if q else 60)], np=1, seed=b + 20, valgrind=True))
        out.append(J("rel", "p_life", ["--n=%d" % (8 if q else 60)], np=2, seed=b + 21, valgrind=True))
        # every other workload of the suite, for its memory behaviour only
        for k, (prog, pid, n, np, vn, vnp, extra) in enumerate((
                ("p_scheme", "C04", 0, 1, 0, 1, ["--scheme=0", "--scale=%s" % ("0.1" if q else "1")]),
                ("p_scheme", "C04", 0, 1, 0, 1, ["--scheme=1", "--raw-quads", "--scale=%s" % ("0.1" if q else "1")]),
                ("p_scheme", "C01", 0, 1, None, 1, ["--scheme=0", "--scale=%s" % ("0.1" if q else "1")]),
                ("p_cmesh", "C19", 25, 3, 5, 1, []), ("p_cmesh", "C20", 25, 4, 8, 2, []), ("p_unif", "C21", 40, 3, 10, 2, []),
                ("p_join", "C22", 40, 2, 10, 1, []), ("p_examples", "C24", 40, 3, 10, 1, []), ("p_msh", "C23", 60, 2, 15, 1, []),
                ("p_basic", "C30", 100, 1, 20, 1, []), ("p_forest", "C00", 60, 3, 8, 2, []), ("p_forest", "C00", 50, 5, None, 1, []),
                ("p_query", "C00", 12, 3, 3, 2, []), ("p_query", "C00", 8, 6, None, 1, []),
                ("p_geom", "C00", 25, 2, 6, 1, []), ("p_data", "C28", 60, 3, 20, 2, []), ("p_vtk", "C29", 12, 2, 4, 1, []), ("p_handle", "C31", 18, 2, 6, 1, []))):
            f = 1 if q else 8
            out.append(J("san", prog, (["--n=%d" % (n * f)] if n else []) + extra + ["--memory-only", "--lsan"], np=np, seed=b + 30 + k, prop=pid))
            if vn is not None:
                out.append(J("rel", prog, (["--n=%d" % (vn * f)] if vn else []) + extra + ["--memory-only"], np=vnp, seed=b + 50 + k, prop=pid,
                             valgrind=True))
    return out


prop("C17", jobs=c17_jobs, evals=["objects_read", "watches", "released", "abandoned", "leak_scans", "memcheck_runs"], distinct=["histories"],
     rule="random ownership histories (create, reference, share or give away, derive, extract, abandon before commit, release; private references of single processes) of schemes, "
          "coarse meshes and forests: after every step all living objects are read in full and compared with their first digest, counting geometries must live exactly as long as a "
          "mesh needs them, and in the end all memory is back (allocation counters, leak scan). Histories and all other workloads of the suite run under AddressSanitizer and "
          "UndefinedBehaviorSanitizer with the library's own assertions, and again under valgrind memcheck (uninitialised values)",
     technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind memcheck; ownership model checked after every step of random histories",
     min={"objects_read": 5000, "released": 500, "abandoned": 100, "memcheck_runs": 8, "exchanges": 50})


# ---------------------------------------------------------------- geometry
prop("C25", jobs=cm_jobs("p_geom", 100, 500, nps=(1, 2, 3)), evals=["map_points", "jacobians", "interpolations", "boxes", "rays", "element_points", "matched_points"],
     distinct=["cells", "meshes", "curved", "states"],
     rule="random cells of every class, size, position and orientation through the linear, axis-aligned and Lagrange maps, the interpolation and intersection helpers, bounding boxes "
          "and meshes that mix all geometries with the active tree switched at random, evaluated in tight buffers, singly and in batches, against own shape functions in extended "
          "precision, Jacobians against central differences, built-in curved geometries for matching faces and radii; corners and interior points of leaves of random forests",
     min={"map_points": 20000, "jacobians": 500, "element_points": 5000, "matched_points": 500, "tree_switches": 3000})
prop("C26", jobs=cm_jobs("p_geom", 400, 1500, nps=(1, 2, 4), args=["--part=forest"]), evals=["volumes", "face_measures", "normals", "total_volumes"], distinct=["states"],
     rule="forests on random conforming hybrid meshes (affine, axis-aligned and distorted cells, also surfaces in space) after random adaptation, partition and balance; each leaf's "
          "volume, areas, normals, centroids and diameter against extended-precision formulas on corners computed by an own map; sums over all leaves and processes",
     min={"volumes": 2000, "face_measures": 10000, "normals": 8000, "total_volumes": 60})
prop("C27", jobs=cm_jobs("p_geom", 500, 1500, nps=(1, 2, 4)), evals=["points_in", "points_out", "point_tests"], distinct=["states"],
     rule="points inside, on faces, on corners and outside of leaves of random forests on affine and flat cells (as C26) asked in batches with random tolerances, against distances to the "
          "cell in extended precision; probe points of the domain asked of every leaf of every process; the helpers for vertices, lines, triangles and planes on random cells in any "
          "direction of space",
     min={"points_in": 10000, "points_out": 10000, "located_once": 200, "points_alone": 3000})
prop("C28", jobs=cm_jobs("p_data", 1500, 4000), evals=["array_reads", "gathers", "prefixes", "searches", "container_reads", "finds", "unpacked_elements", "handler_packs"],
     distinct=["shmem", "containers", "packings"],
     rule="random histories of shared arrays (all backends, node sizes, communicators, empty contributions) and of element arrays (push, resize, truncate, copy, views, iterators, "
          "searches), and random packings of elements and user data sent between processes in exactly sized buffers, against a plain model",
     min={"array_reads": 5000, "searches": 5000, "container_ops": 2000, "finds": 2000, "unpacked_elements": 2000, "handler_packs": 500})
prop("C29", jobs=cm_jobs("p_vtk", 100, 400, nps=(1, 2, 4)), evals=["files_checked", "masters_checked", "cells_checked", "faults_injected", "ghost_cells", "only_vectors", "bad_directories"],
     distinct=["outputs", "states", "crash_points"],
     rule="random forests and coarse meshes with any mix of output flags and user data fields, written by the C and C++ interfaces in every format setting the ASCII writer has; the files "
          "are parsed by an own reader and compared cell by cell with corner positions from an own map; short writes are injected at random byte counts (file size limits) and "
          "directories are missing: a file that is incomplete must be reported as a failure",
     min={"files_checked": 300, "cells_checked": 5000, "faults_injected": 20, "ghost_cells": 200, "only_vectors": 5})
prop("C31", jobs=cm_jobs("p_handle", 90, 600, nps=(1, 2, 3, 4)), evals=["elements", "ghost_elements", "geometry_values", "face_values", "neighbor_lists", "data_values", "face_vectors", "ranks", "adapt_calls"],
     distinct=["states", "histories"],
     rule="random histories of adapt, partition, balance, ghost and copy applied to handles with five combinations of competences and in the same way to a forest that is checked against its "
          "model; after each commit all counts, identities, levels, shapes, corner positions, measures, neighbors with dual faces, data of elements and ghosts, owner ranks and the unique "
          "face vector are compared with the model of the forest, every value twice so that both the computed and the cached one is seen",
     min={"elements": 5000, "ghost_elements": 2000, "neighbor_lists": 50000, "data_values": 3000, "face_vectors": 200, "adapt_calls": 1000, "abandoned": 20, "constructors": 20})
