#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
S = "src/t8_schemes/"
D = S + "t8_default/"
F = "src/t8_forest/"
M = "src/t8_cmesh/"
G = "src/t8_geometry/"
SCH = [D, S + "t8_standalone/", S + "t8_scheme.hxx", S + "t8_scheme.h"]
NOTB = "The stable tests here compile none of this code; upstream tests enumerate one small level and a handful of meshes."

p("C01", "Refinement hierarchy laws of every element scheme",
  "In every refinement scheme, for every element at every level up to the maximum: the children are distinct, one level finer, "
  "numbered 0..n-1 and have that element as parent; child id, ancestor id, sibling, sibling count, family recognition, ancestor "
  "test, nearest common ancestor, level, root and refinability all agree with the chain of parents and children. "
  "The ordered list of all children of one parent is recognised as a family; a run of consecutive elements in curve order "
  "that is not one, and a family with a member missing, repeated, swapped or replaced by a neighbour or cousin, is not.",
  ["inputs", "configurations"], "all schemes (default, standalone), all element classes and shapes, all elements of all levels, in-place and out-of-place calls",
  "Upstream tests walk the first two or three levels; the deep levels (bit boundaries, type tables) and random element pairs are never reached. " + NOTB,
  SCH, [("element_get_child/parent/child_id/ancestor_id/nca per class", "t8_default_*/t8_d*_bits.c, t8_standalone_implementation.hxx")],
  ["scheme interface calls"])

p("C02", "Space-filling-curve order and linear ids",
  "At each uniform level the linear id is a bijection between the elements of a tree and 0..N-1 that agrees with element comparison, "
  "successor, first/last descendant and leaf counts, and the descendants of an element occupy one contiguous id range in child order. "
  "Comparison is a total order in which an ancestor precedes its descendants, and equality holds exactly for identical elements.",
  ["inputs", "configurations"], "all schemes and classes, all levels up to the maximum, all ids (including the largest) and element pairs",
  "Tests check ids on small levels only; ids near 2^58, mixed-level comparisons and irregular (pyramid) counts at depth are not sampled. " + NOTB,
  SCH, [("set/get_linear_id, compare, successor, descendants, count_leaves", "t8_d*_bits.c, t8_default_*.cxx, t8_standalone_implementation.hxx")],
  ["scheme interface calls"])

p("C03", "Children tile their parent exactly in reference space",
  "The reference coordinates of every element's vertices lie in its root cell, the children of an element fill it without gap or overlap "
  "and have the announced shapes and a positive size. Mapping the reference corners (or any reference point) of an "
  "element into the tree yields that element's vertices (or the corresponding shape-function combination).",
  ["inputs", "configurations"], "all schemes, classes, levels and elements; all reference points",
  "Tests compare a few coordinates on low levels; nobody checks tiling/volume at depth. " + NOTB,
  SCH, [("element_get_vertex_reference_coords / element_get_reference_coords", "t8_default_*.cxx, t8_d*_bits.c")],
  ["scheme interface calls"])

p("C04", "Element faces: neighbors, face children, boundary and extrusion agree",
  "Inside a tree the same-level neighbor across a face shares exactly that face's corners, points back through the reported dual face, and is absent "
  "exactly when the face lies on the root boundary. Face corners and corner faces, face shapes, children at a face, parent and tree faces, "
  "first/last face descendants describe the same geometric face, and extracting a boundary face and extruding it again returns the element. "
  "Transforming a face element for a tree connection is an invertible symmetry of the face.",
  ["inputs", "configurations"], "all schemes, classes, levels, elements, faces, orientations and signs",
  "Upstream face tests cover the first levels and never compare with geometry; orientation tables are sampled by few meshes. " + NOTB,
  SCH, [("face_neighbor_inside, children_at_face, extrude_face, transform_face", "t8_default_*.cxx, t8_d*_bits.c, connectivity tables")],
  ["scheme interface calls"])

p("C05", "A forest's leaves always tile the mesh exactly once",
  "After any sequence of uniform creation, adaptation, partition, balance, ghost creation, copy and coarse-mesh repartition, the leaves over all processes "
  "cover every tree exactly once in curve order without overlap; local, global and per-tree counts, element offsets, tree ids and index lookups describe this same list. "
  "A uniform forest contains exactly all elements of its level.",
  ["histories", "inputs", "configurations", "schedules"], "all meshes, schemes, operation histories, process counts (including empty processes) and shared trees",
  "Tests run fixed histories on fixed meshes; the combinations of histories, hybrid meshes, empty ranks and process counts are unbounded. " + NOTB,
  [F + "t8_forest.cxx", F + "t8_forest_adapt.cxx", F + "t8_forest_partition.cxx", F + "t8_forest_balance.cxx", F + "t8_forest_private.cxx"],
  [("commit, populate, compute_desc, compute_elements_offset", F + "t8_forest.cxx")], ["committed forests, gathered over all ranks"])

p("C06", "Adaptation does exactly what the callback decides",
  "Each leaf is offered to the adapt callback in order (a whole family exactly when all siblings are consecutive local leaves) and the new forest is exactly the old one with "
  "refined leaves replaced by their children, coarsened families by their parent, removed leaves deleted and all others kept. "
  "Recursive adaptation applies the callback to newly created elements until it asks for no change, and nothing is refined beyond the maximum level. "
  "The adaptation by coordinates of the Fortran interface asks with the centroid of the element (of the parent for a family) and gives the same forest.",
  ["inputs", "histories", "configurations"], "all forests, decision functions (refine, keep, coarsen, remove), recursive or not, all process counts",
  "Tests use a few fixed callbacks and mostly check counts. " + NOTB,
  [F + "t8_forest_adapt.cxx", F + "t8_forest_private.cxx", "api/t8_fortran_interface/t8_fortran_interface.c"], [("t8_forest_adapt and recursive coarsen/refine", F + "t8_forest_adapt.cxx")],
  ["callback trace plus old/new leaf lists"])

p("C07", "Partitioning moves leaves without changing the mesh",
  "Repartitioning keeps the global sequence of leaves unchanged and gives every process one contiguous piece; the pieces differ by at most one element, or follow the element "
  "weights, the explicitly given offsets or the gather target. With partitioning for coarsening no complete family is split between processes.",
  ["inputs", "histories", "configurations", "schedules"], "all forests (hybrid, incomplete, empty processes), weight functions, offsets and process counts, all message timings",
  "Tests use few process counts (four) and regular meshes. " + NOTB,
  [F + "t8_forest_partition.cxx", F + "t8_forest_partition_for_coarsening.cxx", F + "t8_forest_pfc_helper.cxx"],
  [("compute_new_offset, sendloop/recvloop, pfc correction", F + "t8_forest_partition.cxx")], ["gathered leaf lists before and after"])

p("C08", "User data follows its elements through repartitioning",
  "After repartitioning data alongside a forest, each process holds for each of its leaves exactly the data item that belonged to that leaf before, "
  "for every item size, with no item lost, duplicated or reordered.",
  ["inputs", "histories", "schedules"], "all forests, item sizes, source and target partitions, process counts and message timings",
  "One upstream test with integer and double data on one mesh family; the send/receive ranges depend on partition pairs. " + NOTB,
  [F + "t8_forest_partition.cxx"], [("t8_forest_partition_data", F + "t8_forest_partition.cxx")], ["unique item ids before/after"])

p("C09", "Balance yields the smallest 2:1 face-balanced refinement",
  "After balancing, any two leaves sharing a face differ by at most one level, also across trees and process boundaries. "
  "The result only refines the input and is the smallest such refinement, whether or not it is repartitioned and for any number of processes, and the balance test reports true exactly for face-balanced forests.",
  ["inputs", "histories", "configurations"], "all forests, meshes and process counts", "Upstream checks the library's own is-balanced on few inputs. " + NOTB,
  [F + "t8_forest_balance.cxx", F + "t8_forest_ghost.cxx", F + "t8_forest.cxx"], [("balance rounds with ghost layer", F + "t8_forest_balance.cxx")],
  ["gathered leaf lists compared with an independent closure"])

p("C10", "The ghost layer is exactly the remote face neighbors",
  "With a ghost layer every process stores exactly once each leaf of another process that shares a face with one of its own leaves and nothing else, grouped by tree in curve order with correct owner ranges. "
  "Ghost trees, counts, offsets and id conversions describe that list, and all ghost algorithms (for balanced and unbalanced forests) agree.",
  ["inputs", "histories", "configurations", "schedules"], "all forests, meshes (periodic, hybrid, one tree), process counts and ghost algorithms",
  "Tests compare counts or self-consistency on few meshes with four processes. " + NOTB,
  [F + "t8_forest_ghost.cxx", F + "t8_forest.cxx"], [("t8_forest_ghost_create_ext / topdown / balanced_only", F + "t8_forest_ghost.cxx")],
  ["ghost query API against brute force over the gathered mesh"])

p("C11", "Ghost exchange delivers the owner's current data",
  "After exchanging element data, every ghost entry equals the value its owner holds for that leaf at the time of the call and no local entry has changed, for any item size and for repeated exchanges.",
  ["inputs", "histories", "schedules"], "all forests with ghost layer, item sizes, process counts, message timings",
  "One test exchanges ids on fixed meshes. " + NOTB, [F + "t8_forest_ghost.cxx"],
  [("t8_forest_ghost_exchange_begin/end", F + "t8_forest_ghost.cxx")], ["unique values per element and round"])

p("C12", "Leaf face neighbors are complete, symmetric and geometrically exact",
  "The reported neighbors of a leaf across a face are exactly the leaves (local or ghost) touching that face from the other side, with correct index, dual face, class, tree and orientation, and none at the domain boundary. "
  "The relation is symmetric and identical for same-level, coarser and finer neighbors, within a tree and across tree connections of any orientation.",
  ["inputs", "histories", "configurations"], "all forests (balanced or not), meshes, orientations, process counts",
  "Tests check counts or symmetry on a fixed example set. " + NOTB,
  [F + "t8_forest.cxx", S], [("t8_forest_leaf_face_neighbors_ext, element_face_neighbor", F + "t8_forest.cxx")], ["neighbor API against brute-force geometry"])

p("C13", "Ownership and lookup queries agree with the actual distribution",
  "For every element of every tree, local or remote, the owner query returns the process holding the leaf that contains its first descendant, and owner ranges (of an element, or at a face) contain exactly or bound the processes holding parts of it. "
  "Leaf/ghost tests, index lookups and local/global/coarse tree id conversions agree with the stored leaves.",
  ["inputs", "histories", "configurations"], "all forests, elements (leaves, ancestors, descendants), processes including empty ones",
  "Upstream test asks for leaves of uniform forests. " + NOTB,
  [F + "t8_forest.cxx", F + "t8_forest_private.cxx", F + "t8_forest_partition.cxx"], [("find_owner_ext, owners_at_face, bin_search", F + "t8_forest.cxx")],
  ["query results against gathered distribution"])

p("C14", "Hierarchical search is exhaustive and precise",
  "A search visits each local tree top-down from the common ancestor of its leaves, passing for each visited element exactly its leaf descendants, and reaches every leaf all of whose visited ancestors matched exactly once, with each query active exactly where it matched on the way. "
  "This holds for the C function with and without queries and for the C++ search classes (plain, per-query and batched), also after their forest, queries or user data were exchanged.",
  ["inputs", "histories", "configurations"], "all forests, matching predicates, query sets, process counts",
  "The test uses trivial predicates (always true / one query). " + NOTB,
  [F + "t8_forest_search/", F + "t8_forest_iterate.cxx"], [("search recursion, split_array, active query list", F + "t8_forest_search/t8_forest_search.cxx")],
  ["callback trace against a reference traversal"])

p("C15", "Old/new correspondence and face iteration visit everything exactly once",
  "Comparing an adapted forest with its origin reports every old and every new leaf exactly once and in order, as kept, refined, coarsened or removed with the right partner ranges. "
  "Iterating the leaves at a face of an element visits exactly the leaf descendants touching this face.",
  ["inputs", "histories"], "all pairs of forests related by one adaptation, all elements and faces",
  "One test with one callback; face iteration is untested (TODO in the source). " + NOTB,
  [F + "t8_forest_iterate.cxx"], [("t8_forest_iterate_replace, t8_forest_iterate_faces", F + "t8_forest_iterate.cxx")], ["callback trace"])

p("C16", "The mesh does not depend on the number of processes or message timing",
  "For process-independent decisions the global forest, and all geometric and topological facts reported about its leaves, are identical for every number of processes, every communicator, replicated or partitioned coarse mesh and every timing of messages.",
  ["schedules", "configurations", "histories"], "all process counts and message delays for equal global operation sequences",
  "Tests run with one process count and no timing variation. " + NOTB,
  [F, M + "t8_cmesh_internal/t8_cmesh_partition.cxx"], [("SFC order and collective algorithms", F)], ["canonical global mesh digest per run"])

p("C17", "Released objects leave no memory behind and no access is invalid",
  "Over any history of creating, referencing, deriving and releasing coarse meshes, forests and schemes, objects live exactly as long as they are referenced; after the last release all memory is returned exactly once. "
  "No operation reads or writes outside live memory or has undefined behaviour.",
  ["histories", "inputs", "configurations"], "all ownership histories and all workloads of this suite",
  "Tests run without sanitizers; only a leak counter at program end exists upstream. " + NOTB,
  ["src/t8_helper_functions/t8_refcount.c", F + "t8_forest.cxx", M + "t8_cmesh.cxx", S + "t8_scheme.hxx", "src/t8_data/"],
  [("reference counters, package allocation counters", "t8_refcount.c, libsc")], ["sanitizer reports, allocation balance, reference counts"])

p("C18", "Communication completes and leaves nothing behind",
  "Every collective operation finishes on all processes under any message timing, and when it has finished every message sent has been received, every non-blocking operation it started is complete, and no send buffer was changed or released while in flight.",
  ["schedules", "histories"], "all parallel operations, process counts and injected delays",
  "Tests cannot see unmatched messages, early buffer reuse or timing-dependent hangs. " + NOTB,
  [F + "t8_forest_partition.cxx", F + "t8_forest_ghost.cxx", F + "t8_forest_pfc_helper.cxx", M + "t8_cmesh_internal/t8_cmesh_partition.cxx", M + "t8_cmesh.cxx"],
  [("Isend/Probe/Recv/Waitall pairs", "partition, ghost, cmesh partition, bcast")], ["MPI profiling interface"])

p("C19", "A committed coarse mesh is the mesh that was specified",
  "After commit the coarse mesh has exactly the trees, classes, face connections, orientations and attributes that were set, in whatever order they were set; connections are symmetric with the same orientation and unconnected faces are boundary. "
  "Attributes (any size, key, package; strings, arrays) are returned byte-identical and overwritten ones with their latest value; equality, copies, derived meshes and broadcasts compare and behave as the original.",
  ["inputs", "histories", "configurations"], "all hybrid meshes, join orders and orientations, attribute sets",
  "Tests commit the built-in examples; random insertion orders, sizes and key orders are not sampled. " + NOTB,
  [M + "t8_cmesh.cxx", M + "t8_cmesh_internal/"], [("stash, commit, trees storage, copy, bcast", M + "t8_cmesh_internal/")], ["cmesh query API against the specification"])

p("C20", "Partitioning a coarse mesh conserves trees, connections and attributes",
  "However a coarse mesh is partitioned and repartitioned (ranges, offsets, uniform level, following a forest), each tree keeps class, attributes and face connections, every process knows as ghosts exactly the remote trees face-connected to its local ones, and ids, offsets and first/last tree tables agree on all processes.",
  ["inputs", "histories", "configurations", "schedules"], "all meshes, offset arrays (empty processes, shared trees), repartition chains, process counts",
  "Tests use few offset patterns. The offset arithmetic compiled here has only one stable test. " + NOTB,
  [M + "t8_cmesh_internal/t8_cmesh_partition.cxx", M + "t8_cmesh_internal/t8_cmesh_offset.c", M + "t8_cmesh.cxx", M + "t8_cmesh_internal/t8_cmesh_trees.cxx"],
  [("partition sendloop/recvloop, offset helpers", M + "t8_cmesh_internal/")], ["cmesh query API against the replicated mesh"])

p("C21", "Uniform distribution arithmetic is exact for all sizes",
  "The ranges of elements and trees given to the processes for a uniform refinement are contiguous, cover everything exactly once, differ by at most one element and never overflow, for regular and irregular refinement and for element counts and process counts up to the integer limits; shared-tree flags are set exactly when a tree is split.",
  ["inputs", "configurations"], "all meshes, levels, (rank, size, count) triples up to 2^63",
  "The stable test samples fixed large triples of one helper; bounds computation itself is not compiled.",
  ["src/t8_cmesh/t8_cmesh.cxx", M + "t8_cmesh_internal/t8_cmesh_partition.cxx", "src/t8_cmesh/t8_cmesh.hxx"],
  [("uniform bounds, rank_times_global_num_elems_over_size", M + "t8_cmesh.cxx")], ["returned bounds"])

p("C22", "Face and vertex connectivity derived from input is exact",
  "Joining trees by vertex coordinates connects exactly those faces that have the same corners (up to rounding errors), with the right dual face and orientation. "
  "The global-vertex tables are mutually inverse: a tree lists a vertex at a corner exactly when the vertex lists that tree and corner, and counts agree.",
  ["inputs", "configurations"], "all conforming hybrid meshes with arbitrary corner numbering, all vertex labellings",
  "Tests use hypercubes and a few examples; rotations of single trees are not sampled. " + NOTB,
  [M + "t8_cmesh_helpers.cxx", M + "t8_cmesh_vertex_connectivity/"], [("set_join_by_vertices, vertex_to_tree, tree_to_vertex", M)], ["connectivity arrays against brute force"])

p("C23", "Mesh files are read faithfully or rejected cleanly",
  "Reading a mesh file yields exactly the elements, vertex coordinates, classes and face connections of the file (and the node data: global vertex ids, entities, parameters), for every legal layout of the supported format (gmsh version 4, text: sparse node tags, several blocks, mixed dimensions and classes, comments, white space) and for replicated or partitioned reading. "
  "A malformed, truncated, unsupported or missing file is reported as an error on all processes and never causes invalid memory access, a leak or a crash.",
  ["inputs", "fault_sequences"], "all mesh files, including truncated and corrupted ones",
  "A handful of sample files is read upstream; corruption is not tested.",
  [M + "t8_cmesh_io/t8_cmesh_readmshfile.cxx"], [("msh reader", M + "t8_cmesh_io/t8_cmesh_readmshfile.cxx")], ["resulting cmesh against a generator's model; sanitizer"])

p("C24", "Built-in meshes are geometrically consistent",
  "Every built-in mesh constructor, for all its parameters, yields trees of positive volume whose connected faces coincide point by point under the stored orientation (up to the stated periodicity), with the promised size, classes and total volume, replicated or partitioned.",
  ["inputs", "configurations"], "all constructors and parameter values", "Tests only check that they commit and are self-equal. " + NOTB,
  [M + "t8_cmesh_examples.cxx"], [("t8_cmesh_new_*", M + "t8_cmesh_examples.cxx")], ["mesh topology and geometry"])

p("C25", "Geometry maps reproduce vertices and derivatives and match across faces",
  "Every geometry maps the reference corners of a tree to its vertices (or analytic image), interpolates as its definition says for single points and batches alike, and returns (where it has one) a Jacobian equal to the derivative of the map, whatever other trees were evaluated before. The bounding box of a tree with vertices encloses exactly its corners. "
  "Two trees sharing a face map each common point of that face to the same location.",
  ["inputs", "configurations"], "all geometries, element classes, polynomial degrees, vertex positions and reference points",
  "Tests use a few fixed elements and points.",
  [G, G + "t8_geometry_implementations/"], [("evaluate / jacobian, linear interpolation helpers", G)], ["evaluations against independent shape functions and finite differences"])

p("C26", "Element measures are consistent with element geometry",
  "For leaves with linear geometry the reported centroid and face centroid are the means of the (face's) corners, the diameter is twice the mean distance of the corners to the centroid, and face areas are those of the faces spanned by the corners; if the cell is affine or a simplex, the reported volume is its exact volume and normals of flat faces are unit and point outwards. So on such meshes the volumes of all leaves add up to the domain volume and the area-weighted normals of a leaf sum to zero.",
  ["inputs", "histories"], "all linear meshes, histories and leaves", "Tests check uniform refinements of unit shapes. " + NOTB,
  [F + "t8_forest.cxx", G + "t8_geometry_helpers.c", "src/t8_types/t8_vec.hxx"], [("t8_forest_element_volume/face_normal/...", F + "t8_forest.cxx")], ["reported measures against independent formulas"])

p("C27", "Point location finds exactly the containing elements",
  "For leaves with flat faces and linear or axis-aligned geometry, every point of the closed element is reported inside when the tolerance exceeds rounding errors, and no point that is farther away from it than a small multiple of the tolerance (in units of space or of the element's size) is; the answers are independent of batching. So each point of the domain is found in at least one leaf and points away from element boundaries in exactly one.",
  ["inputs", "histories"], "all linear and axis-aligned meshes, leaves, points and tolerances", "Tests use fixed corner/midpoint samples. " + NOTB,
  [F + "t8_forest.cxx", G + "t8_geometry_implementations/", G + "t8_geometry_helpers.c"], [("points_inside, point_batch_inside_element", G)], ["answers against barycentric/halfspace tests"])

p("C28", "Shared arrays, containers and packed data keep their contents",
  "Shared-memory arrays hold on every process the gathered, prefix-summed or written values for all backends, sizes and communicators. "
  "Element containers and packing of elements or user data return exactly what was stored, within the announced buffer size, also after resize, view, push, copy and sending between processes.",
  ["inputs", "histories", "configurations"], "all sizes, types, backends, process counts, operation sequences", "Tests use fixed sizes. " + NOTB,
  ["src/t8_data/"], [("t8_shmem_array, t8_element_array, data handler, MPI_Pack", "src/t8_data/, src/t8_schemes")], ["contents against a model; sanitizer"])

p("C29", "Mesh output files describe exactly the forest",
  "The visualization files written for a forest or coarse mesh contain every local leaf (and ghost or tree, if requested) exactly once with its true corner coordinates, cell type, tree id, rank, level, element id and attached user data, and the summary file lists all pieces and data arrays. A file that could not be written completely is reported as a failure.",
  ["inputs", "histories", "configurations"], "all forests, flags, data fields, process counts", "Tests only check that a file appears. " + NOTB,
  ["src/t8_vtk/"], [("ASCII writer and writer helper", "src/t8_vtk/t8_vtk_write_ASCII.cxx")], ["parsed files against the forest"])

p("C30", "Vector and matrix helpers and basic tables satisfy their algebra",
  "Vector, matrix and list helpers satisfy their defining identities for all finite inputs (norms, products, orthogonality, multiplication, splitting of sorted arrays, reference counting), and the static tables of element classes (faces, corners, face corners, orientation and numbering conversions) are mutually consistent.",
  ["inputs"], "all finite vectors and matrices, split patterns, element classes", "Stable tests sample two matrices and a few arrays.",
  ["src/t8_types/", "src/t8_helper_functions/", "src/t8_eclass/"], [("t8_vec, t8_mat, vector_split, refcount, eclass tables", "src/t8_types, src/t8_helper_functions, src/t8_eclass")], ["return values"])

p("C31", "The mesh handle shows the same mesh as the forest",
  "The object-oriented mesh handle reports for every local and ghost element the same level, shape, geometry, neighbors and data as the forest it wraps, with or without caching, and its adapt, partition, balance, ghost and data operations equal the corresponding forest operations. Its unique face vector lists every face that touches a local element exactly once, with the right type, sides, owner ranks and orientation. A handle releases all it holds, also when pending settings were never committed.",
  ["histories", "configurations", "inputs"], "all forests, competence combinations and operation sequences", "Tests compare a few properties on uniform meshes. " + NOTB,
  ["mesh_handle/"], [("mesh, element and competences", "mesh_handle/")], ["handle API against forest API"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
