"""Texts of the properties (see gen_meta.py)."""
B = "src/builders/"
ENTRIES = [
 dict(id="C01", statement="Building a hierarchy succeeds for every non-empty list of primitives whose optional list of boxes has the same length, and reports 'no primitives' or the two differing lengths otherwise, for all three construction algorithms and any leaf-size setting. A successful build yields a non-empty hierarchy labelled with the algorithm that built it.",
  over=["inputs", "configurations"], text="every pair of lengths up to the bound, with and without boxes, every algorithm, leaf-size settings none..3",
  why="The tests build one scene per algorithm with matching lengths; the error paths and small sizes around the single-leaf shortcut are never combined.",
  files=[B + "mod.rs", "src/lib.rs", "src/bvh.rs"], mech=[("input validation in the three construct functions", B + "mod.rs"), ("small-scene shortcut", B + "binned_sah.rs, locb.rs, spatial_sah.rs")], observe=["Builder::construct_*", "Bvh::build_type"]),
 dict(id="C02", statement="For any scene with finite boxes and centres inside them, the binned surface-area builder returns a well-formed binary tree: all nodes are reached once from the root, no leaf is empty, leaves refer to disjoint ranges of the index list, and every primitive is in exactly one leaf. It always terminates, whatever the placement of the primitives (coinciding centres, flat or far away scenes).",
  over=["inputs", "configurations"], text="all coordinates of the symbolic primitives, over several background scenes, leaf-size settings, with given or computed boxes",
  why="The tests build one teapot-like random scene; ties in centres, empty bins, one-sided splits and rounding of bin positions occur only for special coordinates.",
  files=[B + "binned_sah.rs", "src/utils.rs"], mech=[("binning, split choice and partition", B + "binned_sah.rs"), ("in-place partition", "src/utils.rs")], observe=["Bvh::nodes", "Bvh::indices"]),
 dict(id="C03", statement="For any scene with finite boxes and centres inside them, the clustering builder returns a well-formed binary tree: all nodes are reached once from the root, no leaf is empty, leaves refer to disjoint ranges of the index list, and every primitive is in exactly one leaf. It always terminates, also when all primitives coincide.",
  over=["inputs", "configurations"], text="all coordinates of the symbolic primitives, over several background scenes and leaf-size settings",
  why="The tests build one random scene; equal distances, equal Morton codes and clusters that never find a mutual neighbour need special coordinates.",
  files=[B + "locb.rs", "src/morton.rs"], mech=[("neighbour search and merging", B + "locb.rs"), ("Morton order", "src/morton.rs")], observe=["Bvh::nodes", "Bvh::indices"]),
 dict(id="C04", statement="For any scene with finite triangles, the spatial-split builder returns a well-formed binary tree: all nodes are reached once from the root, leaves refer to disjoint ranges of the index list that lie within it, and every primitive is in at least one leaf. It always terminates.",
  over=["inputs", "configurations"], text="all coordinates of the symbolic primitives, over several background scenes and leaf-size settings",
  why="The tests build one random scene; reference duplication, range moves and fallback splits depend on how triangles straddle the chosen planes.",
  files=[B + "spatial_sah.rs"], mech=[("object and spatial split search", B + "spatial_sah.rs"), ("reference ranges and final compaction", B + "spatial_sah.rs")], observe=["Bvh::nodes", "Bvh::indices"]),
 dict(id="C05", statement="In a freshly built hierarchy every node's box encloses the boxes of all primitives stored in the leaves below it (for the spatial-split builder: the root does, and every triangle vertex is enclosed on the whole way to some leaf holding the triangle), and the hierarchy's own bounds are the root's box.",
  over=["inputs", "configurations"], text="all coordinates of the symbolic primitives, over several background scenes, all builders, leaf-size settings, given or computed boxes",
  why="A box that is too small only shows for rays through the missing part; the tests shoot a handful of rays at one scene and compare with nothing.",
  files=[B + "binned_sah.rs", B + "locb.rs", B + "spatial_sah.rs", "src/aabb.rs"], mech=[("child boxes from bins and ranges", B + "binned_sah.rs"), ("box union of merged clusters", B + "locb.rs")], observe=["Bvh::nodes", "Bvh::bounds"]),
 dict(id="C06", statement="Cutting a triangle's box at a plane yields two boxes that each stay on their side of the plane and inside the original, and together cover every point of the triangle; hierarchies built with spatial splits therefore still find every triangle a ray properly crosses.",
  over=["inputs"], text="every plane position on every axis, for all triangles within the coordinate bound",
  why="The tests never check a cut; vertices on the plane, planes outside the triangle and axis-aligned edges are special positions.",
  files=[B + "spatial_sah.rs"], mech=[("SpatialTriangle::split", B + "spatial_sah.rs")], observe=["SpatialTriangle::split", "Bvh traversal"]),
 dict(id="C07", statement="Traversing a binary hierarchy with a single ray yields, exactly once, every primitive of each leaf whose box the ray properly crosses in front of its origin and before its current distance, provided the boxes of the leaf's ancestors enclose it. This holds for both the primitive and the index traversal and for any direction, including zero components and their signs.",
  over=["inputs"], text="every placement of all node boxes, every ray, several tree shapes and target leaves",
  why="Tests shoot a grid of rays at one scene and only count hits; missed leaves need a box/ray placement such as zero direction components or near/far order.",
  files=["src/iter.rs", "src/iter_indices.rs", "src/aabb.rs", "src/bvh_node.rs"], mech=[("stack traversal", "src/iter.rs, src/iter_indices.rs"), ("child sorting by distance", "src/bvh_node.rs"), ("slab test", "src/aabb.rs")], observe=["Bvh::traverse_iter", "Bvh::traverse_iter_indices"]),
 dict(id="C08", statement="Traversing a binary hierarchy with a packet of four rays yields, exactly once, every primitive of each leaf whose box at least one of the four rays properly crosses before that ray's distance, whatever the other three rays do.",
  over=["inputs"], text="every placement of all node boxes, every ray in any lane, several tree shapes and target leaves",
  why="Tests shoot coherent packets at one scene; divergent lanes, zero components and flat boxes are not reached.",
  files=["src/iter.rs", "src/iter_indices.rs", "src/aabb.rs", "src/ray.rs", "src/bvh_node.rs"], mech=[("packet slab test", "src/aabb.rs"), ("packet stack traversal", "src/iter.rs, src/iter_indices.rs")], observe=["Bvh::traverse_iter_packet", "Bvh::traverse_iter_indices_packet"]),
 dict(id="C09", statement="Collapsing a binary hierarchy into a four-wide one keeps every leaf exactly once, with the same range of the same index list, and every box on the way to a leaf encloses the leaf's box.",
  over=["inputs", "configurations"], text="every nested placement of the boxes, for tree shapes of different balance and for trees of all builders",
  why="Tests collapse one scene; single-leaf trees, chains, unbalanced children and the order of child slots depend on the shape and the areas of the boxes.",
  files=["src/mbvh_node.rs", "src/mbvh.rs", "src/bvh.rs"], mech=[("merge_nodes and slot allocation", "src/mbvh_node.rs")], observe=["Mbvh::construct", "Mbvh::quad_nodes"]),
 dict(id="C10", statement="Traversing a four-wide hierarchy, with a single ray or a packet of four, yields exactly once every primitive of each leaf whose box a ray properly crosses in front of its origin and before its distance.",
  over=["inputs"], text="every placement of the boxes, every ray in any lane, several tree shapes and target leaves",
  why="Tests shoot a grid of rays at one scene; unused child slots, near ties in the sorted distances and zero direction components are not reached.",
  files=["src/mbvh_node.rs", "src/iter.rs", "src/iter_indices.rs"], mech=[("four-wide slab test and child ordering", "src/mbvh_node.rs"), ("stack traversal", "src/iter.rs, src/iter_indices.rs")], observe=["Mbvh::traverse_iter*"]),
 dict(id="C11", statement="After primitives move, refitting with their new boxes leaves the tree's shape, leaf ranges and index list unchanged, and makes every node enclose the new boxes of all primitives below it without being substantially larger. The result does not depend on earlier refits.",
  over=["inputs", "histories"], text="every placement of the moved boxes, trees of several sizes and shapes, one or several refits in a row",
  why="The one refit test looks at an unmoved scene; shrinking boxes, multi-primitive leaves and repeated refits are not covered.",
  files=["src/bvh.rs"], mech=[("bottom-up refit", "src/bvh.rs")], observe=["Bvh::refit", "Bvh::nodes"]),
 dict(id="C12", statement="The ray/box tests, single and four-wide, report a hit for every ray that properly crosses the box in front of its origin (and, for packets, before its distance), and no hit for every ray that clearly passes beside it, lies behind the origin, or (for packets) starts beyond the distance. A ray starting inside a box hits it.",
  over=["inputs"], text="every non-inverted box and every ray within the coordinate bound, zero components and flat boxes included, up to a margin for rounding",
  why="Slab tests fail on special inputs only: zero or negative-zero components, flat boxes, one lane of four.",
  files=["src/aabb.rs", "src/ray.rs"], mech=[("slab tests", "src/aabb.rs"), ("reciprocal direction and signs", "src/ray.rs")], observe=["Aabb::intersect", "Aabb::intersects", "Aabb::intersect4"]),
 dict(id="C13", statement="A ray keeps the origin and direction it was made from, and a packet hands back each of its four rays unchanged, with that ray's own distance. Resetting restores the initial distance, a ray is valid only after a hit was recorded, points along a ray move monotonically, and a reflected ray starts at the hit point, mirrored and with consistent derived values.",
  over=["inputs"], text="all finite components, every lane, axis-aligned mirrors of either orientation",
  why="There are no tests for packing, unpacking or reflection; a swapped lane or stale derived value only matters for some rays.",
  files=["src/ray.rs"], mech=[("Ray and RayPacket4 constructors and accessors", "src/ray.rs")], observe=["Ray", "RayPacket4"]),
 dict(id="C14", statement="Testing a triangle with a ray or packet never increases the recorded distance, records only distances in front of the origin, and leaves it unchanged when it reports no hit. For triangles in an axis plane hit by perpendicular rays the answer is exact: inside points hit at the plane's distance, outside points do not.",
  over=["inputs"], text="every triangle, ray and previous distance for soundness; every point in and around axis-aligned triangles for exactness, every lane",
  why="Tests count hits of a scene; wrong barycentric limits, lanes or distance updates change few of them.",
  files=[B + "spatial_sah.rs", "src/lib.rs"], mech=[("SpatialTriangle::intersect and intersect4", B + "spatial_sah.rs")], observe=["SpatialTriangle::intersect", "SpatialTriangle::intersect4"]),
 dict(id="C15", statement="Box operations obey interval arithmetic: growing and uniting give the smallest box containing both (up to the documented padding of the list versions), intersecting gives exactly the common points, offsets grow every side, measures are non-negative and monotone, the centre lies inside, and a transformed box tightly contains the transformed points. The empty and the full box are neutral.",
  over=["inputs"], text="all boxes and points within the coordinate bound",
  why="The unit tests use a few literal boxes; a swapped axis or minimum shows only for boxes with other proportions.",
  files=["src/aabb.rs"], mech=[("Aabb methods", "src/aabb.rs")], observe=["Aabb"]),
 dict(id="C16", statement="Morton codes interleave the bits of the three cell coordinates without loss for all coordinates of the grid, encoding a point is monotone along each axis and independent between axes, and the Morton sort returns a permutation of the primitives in ascending order of code.",
  over=["inputs"], text="all cell coordinates, all points, all placements of the sorted primitives, several grid sizes",
  why="Tests check a literal; a wrong mask or scale affects only some bit positions.",
  files=["src/morton.rs"], mech=[("bit spreading, encoder, sort", "src/morton.rs")], observe=["morton_split", "MortonEncoder"]),
 dict(id="C17", statement="Every hierarchy can be traversed whatever its depth: each leaf is yielded, traversal terminates also when the given list of primitives is shorter than the hierarchy expects (the missing ones are skipped), and no memory outside the hierarchy or the traversal's own storage is accessed.",
  over=["inputs", "configurations"], text="chains of up to 400 levels, all eight traversals, every ray origin in a region",
  why="Tests traverse shallow trees; fixed-size stacks overflow only for unbalanced ones.",
  files=["src/iter.rs", "src/iter_indices.rs", "src/utils.rs", "src/mbvh_node.rs"], mech=[("traversal stack", "src/utils.rs, src/iter.rs, src/iter_indices.rs")], observe=["all traversal iterators"]),
 dict(id="C18", statement="The C interface builds, refits, queries and frees hierarchies from raw arrays of any documented stride with the results of the native interface: a query visits every primitive whose box the ray properly crosses and passes on the caller's distance and user data. Unknown handles, missing arrays and missing primitives are reported as errors and change nothing, and no sequence of calls leaves the interface blocked.",
  over=["inputs", "histories", "configurations"], text="all coordinates of the raw arrays and rays, 12- and 16-byte strides, vertex and triangle strides, histories of create, refit, query and free",
  why="The C interface has no tests; strides, alignment and stale handles differ per caller.",
  files=["rtbvh_ffi/src/lib.rs"], mech=[("handle tables", "rtbvh_ffi/src/lib.rs"), ("raw array adapters", "rtbvh_ffi/src/lib.rs")], observe=["create_bvh", "create_spatial_Bvh", "create_mbvh", "refit", "intersect*", "free_*"]),
 dict(id="C20", statement="Building the same scene gives the same hierarchy whichever order the parallel pieces of work are executed in, and however many threads execute them.",
  over=["schedules", "inputs"], text="permutations of the order of parallel work items, interleavings of worker threads and different numbers of threads, for several scenes with symbolic boxes",
  why="A test run sees one schedule; only results that depend on the order of pieces of work would show it.",
  files=[B + "binned_sah.rs", B + "locb.rs", B + "spatial_sah.rs", "src/utils.rs"], mech=[("task spawning and node allocation", "src/utils.rs"), ("parallel iterators of the builders", B)], observe=["Builder::construct_*"]),
 dict(id="C21", statement="A visitor that intersects the yielded primitives and shortens the ray finds the same nearest distance as testing every primitive of the scene, for every traversal and builder.",
  over=["inputs", "configurations"], text="every ray of several families, all eight traversals, built scenes",
  why="Tests never compare with a brute-force answer; early termination errors show only for certain orders of distances.",
  files=["src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs", "src/mbvh_node.rs"], mech=[("pruning by the ray's current distance", "src/iter.rs, src/iter_indices.rs")], observe=["Bvh::traverse_*", "Mbvh::traverse_*"]),
 dict(id="C19", statement="Building a hierarchy in parallel has no data race: pieces of work that may run at the same time never access the same node, index, scratch entry or counter in conflict, and every interleaving of the worker threads ends, without deadlock, in a well-formed hierarchy that holds every primitive.",
  over=["schedules", "inputs"], text="every interleaving of the worker threads up to a number of preemptions, every pair of accesses by pieces of work not ordered by fork and join, for concrete and symbolic scenes",
  why="A race needs an unlucky interleaving on several cores; a test run sees one of them, and on small scenes only one worker ever gets work.",
  files=[B + "binned_sah.rs", B + "locb.rs", B + "spatial_sah.rs", B + "mod.rs", "src/utils.rs", "src/mbvh_node.rs"], mech=[("node allocation by atomic counter", B + "mod.rs"), ("shared slices handed to several workers", "src/utils.rs"), ("task spawning and hand-over", "src/utils.rs"), ("per-chunk and per-item work of the builders", B)], observe=["Builder::construct_*", "Mbvh::construct"]),
]
NOT_APPLICABLE = []
