"""What is checked: one entry per property (text, anchors, harnesses).  gen.py turns it into
properties.jsonl and MANIFEST.json, run.py runs it."""
SPEC = {}
NOT_APPLICABLE = []

def prop(pid, feature, title, statement, quant, tests, files, mech, harnesses, assumptions=(), over=("inputs",), note="", **kw):
    assert pid not in SPEC and len(title) <= 80, pid
    SPEC[pid] = dict(feature=feature, harnesses=harnesses, assumptions=list(assumptions), title=title, statement=statement,
                     quant=quant, over=list(over), tests=tests, files=files, mech=mech, note=note, **kw)

def H(name, q, bounds, t=150, covers=(), **kw):
    return dict(name=name, q=q, bounds=bounds, t=t, covers=list(covers), **kw)
TH = dict(tier="thorough")

prop("C01", "idx", "Index containers store and return every index exactly",
     "An index container returns, at every position, exactly the value last stored there, whatever the order of appends, overwrites, reservations, precision announcements and conversions. "
     "The dynamic precision container always uses the smallest integer width that holds everything stored or announced so far, and widening never alters or loses a value. "
     "Iteration, length, the upgraded view and conversions from vectors agree with that content.",
     "every sequence of up to 3 (thorough 4) operations with arbitrary 64-bit values; conversions from vectors of up to 3 arbitrary elements of each width",
     "the repository has no test of index containers; boundary values such as 255/256/65535/65536 and their order of arrival are combinatorial",
     ["src/dynamic_precision_index_vec.rs", "src/u32_index_vec.rs", "src/is_index_container.rs", "src/impls/vec.rs"],
     [("precision upgrade", "DynamicPrecisionIndexVec::ensure_supported and upgrade_to_*"), ("element access", "IsIndexContainer::get/set/push/iter"), ("conversion", "From<Vec<..>> for DynamicPrecisionIndexVec")],
     [H("h_idx_dyn", "DynamicPrecisionIndexVec behaves like Vec<usize> under push/set/reserve/ensure_supported", "2 operations of every kind and order after new/default/with_capacity, full 64-bit values", covers=[1, 2, 3, 11, 12, 14, 18]),
      H("h_idx_dyn3", "same, longer histories", "3 operations of every kind and order, full 64-bit values", covers=[1, 2, 3, 11, 12, 14, 18]),
      H("h_idx_dyn4", "same, longer histories", "4 operations of every kind and order, full 64-bit values", t=400, covers=[1, 2, 3, 11, 12, 14, 18], **TH),
      H("h_idx_sup", "with_support_for / ensure_supported announce the precision", "full 64-bit values", covers=[1, 2, 4, 8]),
      H("h_idx_from", "conversions from Vec<usize|u32|u16|u8> by value and reference keep every value", "0..3 elements, full element range", covers=[1]),
      H("h_idx_plain", "U32IndexVec and Vec<usize> as index containers", "3 operations, values within the documented range", covers=[1, 2, 3, 4, 5])], over=("inputs", "histories"))

prop("C02", "mesh", "Mesh editing keeps faces and vertices valid and addressable",
     "Adding vertices, faces and connections to a mesh yields consecutive ids under which exactly the added vertex positions and face corner ids are found again, in order. "
     "A connection is accepted exactly when its three vertex ids exist and differ from each other, a vertex change exactly when the id exists, and rejected edits change nothing. "
     "Lookups answer for exactly the ids below the respective count.",
     "every sequence of up to 3 edits of any kind, with symbolic ids (full 64-bit in one harness) and positions, for three index container types",
     "mesh_test walks one fixed mesh; rejected and interleaved edits and arbitrary ids are not exercised",
     ["src/mesh_3d.rs", "src/is_mesh.rs", "src/is_face_editable_mesh.rs", "src/is_vertex_editable_mesh.rs", "src/impls/vec.rs", "src/point_cloud_3d.rs"],
     [("id validation", "Mesh3D::try_add_connection, change_vertex"), ("lookup", "Mesh3D::face_vertex_ids, face_vertices, vertex")],
     [H("h_edit", "Mesh3D<Vec<usize>> against a shadow model", "3 edits of any kind, ids 0..7, positions -9..9", covers=[1, 2, 3, 4, 5, 6]),
      H("h_edit_dyn", "Mesh3D<DynamicPrecisionIndexVec> against a shadow model", "3 edits of any kind, ids 0..7, positions -9..9", covers=[1, 2, 3, 4, 5, 6], **TH),
      H("h_edit_u32", "Mesh3D<U32IndexVec> against a shadow model", "2 edits of any kind, ids 0..7", covers=[1, 2]),
      H("h_edit_big", "edits with arbitrary 64-bit ids", "2 edits, full 64-bit ids", covers=[1, 2, 3, 4, 5, 6])],
     ["face ids given to lookups stay below 2^62: 3*id is computed in usize"], over=("inputs", "histories"))

prop("C03", "mesh", "Half-edge navigation agrees with the mesh",
     "For every manifold mesh, each edge's tail, head, face, successor, predecessor and opposite edge are those given by the faces of the mesh, and the edges and faces listed for a vertex or as neighbours of a face are exactly the incident or adjacent ones, each once. "
     "Every vertex of the mesh can be queried, including vertices no face uses. Queries for ids that do not exist answer None or an error.",
     "all manifold triangle meshes with 2 faces over 4 vertices (thorough: 3 faces), three index container types, arbitrary 64-bit ids for the failing queries",
     "mesh_test checks one small mesh and never asks for opposite edges",
     ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"],
     [("construction", "HalfEdge::new"), ("navigation", "HalfEdge::tail/face/twin/next/prev/edges_*"), ("neighbour queries", "IsSearchableMesh::faces_of_vertex, face_edge_neighbours, face_vertex_neighbours")],
     [H("h_he", "HalfEdge<Vec<usize>> against the face list", "4 vertices, 2 faces", covers=[1, 2]),
      H("h_he_iso", "as above with a vertex no face uses", "3+1 vertices, 2 faces, DynamicPrecisionIndexVec", covers=[1, 3]),
      H("h_sm", "SearchableMesh against the face list", "4 vertices, 2 faces", covers=[1]),
      H("h_he3", "HalfEdge<U32IndexVec> against the face list", "4 vertices, 3 faces", t=300, covers=[1, 2], **TH),
      H("h_sm3", "SearchableMesh against the face list", "4 vertices, 3 faces", t=300, covers=[1], **TH)],
     ["meshes are manifold as HalfEdge::new documents: no directed edge belongs to two faces"])

prop("C04", "mesh", "Healing removes exactly duplicate and degenerate faces",
     "Healing a valid mesh succeeds and keeps every non-degenerate face with its corner positions and orientation exactly once, drops faces with coinciding corners, and invents none. "
     "The result is a valid mesh holding each position once. Deduplication of any sequence keeps one representative per value and indices restoring the original sequence.",
     "two triangle soups over up to 4 distinct positions, arbitrary coincidences; 2 or 3 faces over 4 vertices with arbitrary topology; deduplication of up to 4 arbitrary elements",
     "no test heals a mesh; coincidence patterns are combinatorial",
     ["src/heal_mesh.rs", "src/utils.rs"],
     [("healing", "heal_mesh"), ("deduplication", "pack_dupes_indexed")],
     [H("h_heal_soup", "soup of two faces, arbitrary coincidence of corners", "6 vertices over 3 positions", covers=[1, 2, 3]),
      H("h_heal_soup3", "soup of two faces, arbitrary coincidence of corners", "6 vertices over 4 positions", covers=[1, 2, 3]),
      H("h_heal_topo", "shared topology and coinciding positions", "4 vertices over 4 positions, 2 faces", covers=[1, 2, 3]),
      H("h_heal_3f", "three faces", "4 vertices over 4 positions, 3 faces", covers=[1, 2, 3], **TH),
      H("h_dedup", "pack_dupes_indexed is lossless and duplicate free", "0..4 arbitrary bytes", covers=[1])])

prop("C05", "mesh", "Linear subdivision refines a mesh exactly",
     "Linear subdivision keeps all original vertices under their ids, adds exactly one vertex per undirected edge at its midpoint, shared by the adjoining faces, and replaces each face by its three corner faces and its middle face, all oriented like the original.",
     "all valid topologies of 2 faces over 4 vertices (thorough 3 faces); integer coordinates -4..4 for all vertices; arbitrary finite coordinates for one face",
     "no test subdivides a mesh",
     ["src/subdivide.rs", "src/is_buildable_nd.rs"],
     [("subdivision", "subdivide::linear"), ("midpoints", "IsBuildableND::center_nd")],
     [H("h_sub_topo", "every topology, fixed positions in general position", "4 vertices, 2 faces", covers=[1]),
      H("h_sub_pos", "midpoint positions", "4 vertices with coordinates -4..4, four topologies", covers=[1, 2, 3]),
      H("h_sub_any", "midpoints of arbitrary finite coordinates", "1 face, one symbolic double per vertex", covers=[1]),
      H("h_sub_topo3", "every topology, fixed positions", "4 vertices, 3 faces", t=300, covers=[1], **TH)])

prop("C06", "mesh", "Vertex clustering merges exactly the vertices of a common cell",
     "Clustering a mesh succeeds exactly when at least two cells fit along every axis of its bounding box, and otherwise fails with an error. "
     "The result is a valid mesh whose vertices are input vertices, at most one per cell, and a face survives, with its corners moved within their cells and orientation kept, exactly when its corners lie in three different cells.",
     "meshes of 1 face over 3 vertices and 2 faces over 4 vertices within a 4x4x4 box, two cluster sizes, integer positions; bounding boxes of size 0..3 per axis for the error case",
     "no test clusters a mesh",
     ["src/cluster_vertices.rs", "src/heal_mesh.rs"],
     [("clustering", "cluster_vertices"), ("cell lookup", "cluster_of")],
     [H("h_clus", "one face, two pinned corners", "3 vertices, 1 face, coordinates 0..4, cluster sizes 1 and 2", covers=[1, 2]),
      H("h_clus_two", "two faces sharing vertices", "4 vertices, 2 fixed faces, coordinates 0..4, cluster sizes 1 and 2", covers=[1, 2]),
      H("h_clus_err", "too few cells or no vertices", "3 vertices, coordinates 0..3", covers=[1, 2])])

prop("C07", "mesh", "Orientation unification makes neighbouring faces agree",
     "Unifying a valid mesh keeps all vertices and faces under their ids and changes at most the orientation of faces. "
     "Within each connected planar part of the result all faces face the same way, i.e. neighbouring faces run along their shared edge in opposite directions, whatever the input orientations.",
     "planar pairs of faces with a free vertex on a grid, strips of three and six faces, two disconnected pairs and strips with all input orientations, the faces numbered in several orders",
     "no test unifies faces",
     ["src/unify_faces.rs"],
     [("flip propagation", "unify_faces"), ("neighbourhood", "collect_neighbour_faces, vertex_to_face")],
     [H("h_uni_plane", "two faces sharing an edge", "free vertex with coordinate -7..8 on three lines, four topologies", covers=[1, 2]),
      H("h_uni_chain", "strip of three faces", "all 8 orientation patterns", covers=[1]),
      H("h_uni_strip", "strip of six faces", "all 64 orientation patterns, six numberings of the faces", covers=[1]),
      H("h_uni_island", "two strips of three faces", "all 64 orientation patterns, three numberings", covers=[1]),
      H("h_uni_two", "two disconnected pairs", "all 16 orientation patterns", covers=[1]),
      H("h_uni_sharp", "fold sharper than 90 degrees (known finding)", "apex height 1..8, both orientations", covers=[])])

prop("C08", "bbox", "Bounding boxes are well-formed and tight",
     "A bounding box is created from two corners exactly when min is below max on every axis, so that all its sizes are positive and NaN never gets in; in two and three dimensions alike. "
     "The box derived from a set of points (or a point cloud or polygon) encloses each of them and each of its faces touches one, and it exists exactly when the points spread along every axis.",
     "all IEEE-754 bit patterns for corners; up to 3 points (2D) or 2 points (3D) with arbitrary finite coordinates; up to 8 points of bounded integers, of which one is free",
     "bounding_box tests use a handful of constant boxes, no NaN, no degenerate sets",
     ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/positive.rs", "src/point_cloud_3d_f32.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
     [("validation", "BoundingBox2D::new, BoundingBox3D::new"), ("derivation", "from_iterator, from_into_iterator")],
     [H("h_bb_new2", "new accepts exactly ordered corners", "all doubles, 2D", covers=[1, 2]),
      H("h_bb_new3", "new accepts exactly ordered corners", "all doubles, 3D", covers=[1, 2]),
      H("h_bb_tight2", "derived box is tight", "0..3 points, all finite doubles, 2D", covers=[1, 2]),
      H("h_bb_tight3", "derived box is tight", "0..2 points, all finite doubles, 3D", covers=[1, 2]),
      H("h_bb_tight3i", "derived box is tight", "0..3 points, integers -100..100, 3D", covers=[1, 2]),
      H("h_bb_size2", "sizes are positive and max-min", "one axis all finite doubles, 2D", covers=[1], **TH),
      H("h_bb_size3", "sizes are positive and max-min", "one axis all finite doubles, 3D", covers=[1], **TH),
      H("h_bb_clouds", "boxes of point clouds, polygons and the cloud of floats", "4..8 points, one anywhere free -8..8", covers=[1]),
      H("h_bb_default", "the default box", "one probe coordinate", covers=[1])])

prop("C09", "bbox", "Bounding box queries and edits follow interval geometry",
     "Containment, crossing, mutual inclusion and collision of bounding boxes hold exactly when the open intervals on every axis say so, and distances to points and boxes are those of the nearest points. "
     "Merging gives the smallest enclosing box, moving shifts both corners, scaling multiplies the sizes about the unchanged center, and corners lists every combination of min and max, in two and three dimensions.",
     "boxes and points with integer coordinates -8..8 (-16..16 for edits), offsets -16..16, scale factors 0.5, 1, 2, 3",
     "bounding_box tests evaluate each predicate on two or three constant boxes",
     ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/is_mergeable.rs", "src/utils.rs"],
     [("predicates", "contains, is_inside, has_inside, collides_with, crossing_*"), ("distances", "sqr_distance, distance"), ("edits", "move_by, scale, consume, combine")],
     [H("h_bb_pt2", "point queries", "integers -8..8, 2D", covers=[1, 2]), H("h_bb_pt3", "point queries", "integers -8..8, 3D", covers=[1, 2]),
      H("h_bb_dist2", "distance is the root of the squared distance", "one coordinate -60..60, 2D", covers=[1]), H("h_bb_dist3", "distance is the root of the squared distance", "one coordinate -60..60, 3D", covers=[1]),
      H("h_bb_bb2", "box/box queries", "integers -8..8, 2D", covers=[1, 2, 3, 4]), H("h_bb_bb3", "box/box queries", "integers -8..8, 3D", covers=[1, 2, 3, 4]),
      H("h_bb_merge2", "consume/combine", "integers -8..8, 2D", covers=[1]), H("h_bb_merge3", "consume/combine", "integers -8..8, 3D", covers=[1]),
      H("h_bb_alter2", "move_by, scale, center", "integers -16..16, 2D", covers=[1]), H("h_bb_alter3", "move_by, scale, center", "integers -16..16, 3D", covers=[1]),
      H("h_bb_cor2", "corners", "integers -8..8, 2D", covers=[1]), H("h_bb_cor3", "corners", "integers -8..8, 3D", covers=[1])])

prop("C10", "spat", "k-d tree queries return exactly the points brute force finds",
     "A k-d tree built from a non-empty cloud holds exactly the points of the cloud, duplicates included; building from an empty cloud fails. "
     "For every query, the k nearest are the k points closest to the search position in order of distance (all points if there are fewer, none for k = 0), nearest is the closest one, and the points within a sphere or a box (borders included) are exactly those of the cloud that lie within it.",
     "clouds of up to 3 points with two symbolic coordinates each (4 with one), coordinates 0..3 (0..5), query positions 0..3, k = 0..3, radii 1, 2, 2.5, box sizes 1..4; contents for arbitrary finite doubles",
     "no test covers the k-d tree; which subtrees a query may skip depends on the arrangement of points, ties and duplicates",
     ["src/kd_tree.rs", "src/functions.rs", "src/sphere.rs", "src/box_3d.rs"],
     [("construction", "KdNode::new"), ("k nearest", "KdNode::knearest"), ("range queries", "KdNode::in_sphere, KdNode::in_box")],
     [H("h_kd_near", "k nearest, x and y vary", "1..3 points, k 1..3, coordinates 0..3", covers=[1, 2]),
      H("h_kd_near_xz", "k nearest, x and z vary", "2..3 points, k 1..2, coordinates 0..3", covers=[1]),
      H("h_kd_near4", "k nearest of four points", "4 points with symbolic x in 0..5, k 1..3", covers=[1]),
      H("h_kd_sphere", "points within a sphere, x and y vary", "3 points, coordinates 0..3", covers=[1, 2]), H("h_kd_sphere_z", "points within a sphere, y and z vary", "3 points, coordinates 0..3", covers=[1, 2]),
      H("h_kd_sphere_tied", "points within a sphere, all in one plane", "3 points, coordinates 0..3", covers=[1, 2]), H("h_kd_box_tied", "points within a box, all in one plane", "3 points, coordinates 0..3, sizes 1..4", covers=[1, 2]),
      H("h_kd_box", "points within a box, x and y vary", "3 points, coordinates 0..3, sizes 1..4", covers=[1, 2]), H("h_kd_box_z", "points within a box, y and z vary", "3 points, coordinates 0..3, sizes 1..4", covers=[1, 2]),
      H("h_kd_content", "size and to_pointcloud", "1..4 points, coordinates 0..3", covers=[1]), H("h_kd_any", "contents for arbitrary finite doubles", "3 points, one arbitrary double each", covers=[1]),
      H("h_kd_empty", "empty trees and k = 0", "search position 0..3, any k <= 5", covers=[1])])

prop("C11", "spat", "Octrees keep every distinct point exactly once",
     "An octree is built exactly from clouds that span a volume. It then holds every distinct point of the cloud exactly once, wherever the point lies (on the border of the bounding box or of any sub box, arbitrarily close to another point), size counts them and collecting without limit lists them. Limiting the depth merges points only, so it never lists more.",
     "clouds of 2 points with coordinates 0..3, of 3 and 4 points with up to five symbolic coordinates 0..4, duplicates; pairs 2^-200..1 apart; adjacent doubles",
     "no test covers the octree",
     ["src/oc_tree.rs", "src/is_oc_tree.rs"],
     [("subdivision", "OcNode::new, calc_sub_min_max"), ("deduplication", "OcTree::build"), ("collection", "OcNode::collect")],
     [H("h_oct2", "two points", "coordinates 0..3", covers=[1, 2]), H("h_oct3", "three points", "five symbolic coordinates 0..4", covers=[1, 2]), H("h_oct4", "four points", "three symbolic coordinates 0..4", covers=[1]),
      H("h_oct_near", "very close points", "distance 2^-200..1 in a box of size 8", covers=[1]), H("h_oct_deep", "adjacent doubles", "magnitudes 1..8", covers=[1]), H("h_oct_dup", "duplicates", "coordinates 0..2", covers=[1, 2])])

prop("C12", "spat", "Bounding box tree and grid queries find exactly the matching elements",
     "Whatever depth limit and bucket size a bounding box tree is built with, its queries report exactly the elements whose box collides with the given box, crosses the given coordinate, or is hit by the given line, in two and three dimensions; any answers whether some element satisfies a predicate. "
     "A line hits a box when it passes through its inside ahead of its anchor, never when it misses the box or has it behind. A cluster grid reports every element lying over a position exactly once.",
     "2 or 3 elements with symbolic extents (min 0..3, size 1..2) along one axis, query boxes -> 0..5 with sizes 1..2, axis-parallel lines, depth limits 0..4, bucket sizes 0..3, grids up to 3x3 cells",
     "no test covers the trees; elements straddling the splits depend on the arrangement",
     ["src/aa_bb_tree_2d.rs", "src/aa_bb_tree_3d.rs", "src/cluster.rs", "src/functions.rs"],
     [("split", "AABBTree3D::new_rec, is_left_of, is_right_of"), ("queries", "bb_colliding, for_each_collision_candidate, bb_crossing_*, for_each_intersection_candidate"), ("grid", "Cluster::new, for_each_candidate"), ("line/box", "functions::intersection")],
     [H("h_aabb3_col_x", "collision queries, 3D", "3 elements along x", covers=[1, 2]), H("h_aabb3_col_y", "collision queries, 3D", "3 elements along y", covers=[1, 2]), H("h_aabb3_col_z", "collision queries, 3D", "3 elements along z", covers=[1, 2], j=6),
      H("h_aabb3_cross_x", "crossing queries, 3D", "3 elements along x", covers=[1, 2]), H("h_aabb3_cross_y", "crossing queries, 3D", "3 elements along y", covers=[1, 2]), H("h_aabb3_cross_z", "crossing queries, 3D", "3 elements along z", covers=[1, 2]),
      H("h_aabb3_cfg", "any depth limit and bucket size, 3D", "2 elements", covers=[1, 2]), H("h_aabb2_cfg", "any depth limit and bucket size, 2D", "2 elements", covers=[1, 2]),
      H("h_aabb2_col_x", "collision queries, 2D", "3 elements along x", covers=[1, 2], j=6), H("h_aabb2_col_y", "collision queries, 2D", "3 elements along y", covers=[1, 2]),
      H("h_aabb2_cross_x", "crossing queries, 2D", "3 elements along x", covers=[1, 2]), H("h_aabb2_cross_y", "crossing queries, 2D", "3 elements along y", covers=[1, 2]),
      H("h_aabb_line_x", "line queries along x", "3 elements", covers=[1, 2]), H("h_aabb_line_y", "line queries along -y", "3 elements", covers=[1, 2]), H("h_aabb_line_z", "line queries along z", "3 elements", covers=[1, 2]),
      H("h_cluster", "grid candidates, x varies", "2 elements, 1..3 x 1..3 cells", covers=[1, 2]), H("h_cluster_y", "grid candidates, y varies", "2 elements, 1..2 x 1..3 cells", covers=[1, 2])])

prop("C13", "filt", "Filter combinators are exactly the logical operations",
     "Combined filters allow an element exactly when the corresponding logical combination of their parts does: AND, OR, XOR, negation, allow, deny, outer-without-inner, every filter of a list (true for none) and any filter of a list (false for none), however they are nested.",
     "arbitrary predicates over an 8 element domain as parts, every element, lists of 0..3 filters, two nestings",
     "the combinator tests combine fixed boxes and sample a few points",
     ["src/filter_and.rs", "src/filter_or.rs", "src/filter_xor.rs", "src/filter_negate.rs", "src/filter_all.rs", "src/filter_any.rs", "src/filter_allow.rs", "src/filter_deny.rs", "src/filter_outer_inner.rs"],
     [("combinators", "IsFilter::is_allowed of FilterAND, FilterOR, FilterXOR, FilterNegate, FilterAllow, FilterDeny, FilterOuterInner"), ("lists", "FilterAll::is_allowed, FilterAny::is_allowed")],
     [H("h_comb", "all binary and unary combinators and two nestings", "arbitrary truth tables over 8 elements", covers=[1]), H("h_allany", "FilterAll and FilterAny", "0..3 arbitrary truth tables", covers=[1, 2])])

prop("C14", "filt", "Views and collection filters select exactly the right elements",
     "Filtering a collection leaves in its view exactly the existing elements the view held that pass the filter; chained collection filters keep those passing every filter, or those passing any filter. "
     "Applying a view to a vector, deque, linked list or point cloud keeps exactly the viewed elements in order and fails, changing nothing, exactly when an index is out of bounds; building from a view agrees and leaves the source untouched. The union of two views selects what either selects.",
     "collections of 0..3 elements with arbitrary content, full view and every restricted view over indices 0..3, arbitrary predicates, 0..2 chained filters",
     "the tests apply one filter to one point cloud with a full view; restricted views and chained filters are not tested",
     ["src/filter_random_accessible.rs", "src/filter_all_random_accessible.rs", "src/filter_any_random_accessible.rs", "src/view.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
     [("filtering views", "FilterRandomAccessible::filter, FilterAllRandomAccessible::filter, FilterAnyRandomAccessible::filter"), ("views", "IsViewBuildable::apply_view, from_view, View::union")],
     [H("h_ra", "FilterRandomAccessible on Vec", "0..3 elements, full or any restricted view over 0..3", covers=[1, 2]), H("h_ra_deque", "FilterRandomAccessible on VecDeque", "0..3 elements of any kind, full or any restricted view over 0..2", covers=[1]),
      H("h_ra_all", "every filter", "1..3 elements, 0..2 filters", covers=[1]), H("h_ra_any", "any filter", "1..3 elements, 0..2 filters", covers=[1]),
      H("h_view_vec", "views on Vec", "0..3 elements, any view over 0..3", covers=[1, 2]), H("h_view_deque", "views on VecDeque", "0..3 elements, any view over 0..3", covers=[1, 2]), H("h_view_list", "views on LinkedList", "0..3 elements, any view over 0..3", covers=[1, 2]),
      H("h_view_pc2", "views on PointCloud2D", "0..3 elements, any view over 0..3", covers=[1, 2]), H("h_view_pc3", "views on PointCloud3D", "0..3 elements, any view over 0..3", covers=[1, 2]), H("h_view_union", "View::union", "all pairs of views over 0..3", covers=[1, 2])])

prop("C15", "filt", "Geometric filters allow exactly what lies within their shape",
     "Box, circle and sphere filters allow exactly the positions inside or on the border of their shape, also after scaling and when made from a bounding box, and their bounding box is the one of the shape. "
     "The outlier filter allows exactly positions with at least the required number of neighbours within the search distance. Direction field filters allow exactly normals whose angle to the field's direction at the position is at most the given one.",
     "integer centers -3..3, sizes 1..4, positions -12..12 in steps of 1/2 (boxes); radii 1..4 and positions -8..8 (circle), -3..3 (sphere); 1..3 points for outliers; all pairs of directions on a 5x5 (2D) and 3x3x3 (3D) grid with three angle limits",
     "filter tests sample a few positions per shape; no test covers outliers and direction fields",
     ["src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs", "src/filter_outlier_3d.rs", "src/filter_direction_field_2d.rs", "src/filter_direction_field_3d.rs", "src/is_3d.rs", "src/is_2d.rs"],
     [("shapes", "FilterBox2D/FilterBox3D/FilterCircle/FilterSphere::is_allowed, scale, bounding_box"), ("outliers", "FilterOutlier3D::is_allowed"), ("directions", "FilterDirectionField2D/3D::is_allowed, Is3D::rad_to")],
     [H("h_fbox2", "2D box", "center -3..3, sizes 1..4, positions -6..6 in steps of 1/2", covers=[1, 2]), H("h_fbox3", "3D box", "center -3..3, sizes 1..4, positions -6..6 in steps of 1/2", covers=[1, 2]), H("h_fbb", "filters made from bounding boxes", "corners -3..3, sizes 1..4", covers=[1]),
      H("h_fcircle", "circle", "center -3..3, radius 1..4, positions -8..8", covers=[1, 2]), H("h_fsphere", "sphere", "center -1..1, radius 1..3, positions -3..3", covers=[1, 2]), H("h_foutlier", "outliers", "1..3 points, x 0..4, radius 1, 2, 4, 0..3 neighbours", covers=[1, 2]),
      H("h_fdir3", "direction fields 3D", "26x26 directions, angles 1e-6, 1, 2", covers=[1, 2]), H("h_fdir2", "direction fields 2D", "24x24 directions, angles 1e-6, 1, 2", covers=[1, 2])])

prop("C16", "val", "Points obey component-wise vector arithmetic",
     "Adding, subtracting, scaling, dividing, negating, moving and centering points, by value, by reference or in place, in two and three dimensions, works component-wise; dot and cross products, coordinate access, setters and conversions between dimensions follow their definitions. "
     "Access by name (x, y, z) or dimension index (reading, writing, building, copying) addresses exactly the coordinates of points, boxes, circles, spheres and their filters, and any other dimension or coordinate count is refused.",
     "integer coordinates -8..8 and factors -4..4; divisors 1, 2, -4; arbitrary 64-bit dimension indices, arbitrary doubles written; coordinate lists of length 0..4",
     "point tests evaluate single constant points",
     ["src/point_2d.rs", "src/point_3d.rs", "src/is_editable_2d.rs", "src/is_editable_3d.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/is_buildable_nd.rs", "src/is_2d.rs", "src/is_3d.rs", "src/functions.rs", "src/sphere.rs", "src/circle.rs", "src/box_2d.rs", "src/box_3d.rs", "src/filter_sphere.rs", "src/filter_circle.rs", "src/filter_box_2d.rs", "src/filter_box_3d.rs"],
     [("operators", "impl Add/Sub/Mul/Div/Neg for Point2D, Point3D"), ("editing", "IsEditable2D, IsEditable3D"), ("by dimension", "IsND::position_nd, IsEditableND::set_position, IsBuildableND::new_nd/from_nd")],
     [H("h_arith2", "Point2D", "coordinates -8..8", covers=[1]), H("h_arith3", "Point3D operators", "coordinates -8..8", covers=[1]), H("h_edit3", "Point3D editing and conversion", "coordinates -8..8", covers=[1])]
     + [H("h_nd_" + n, "access by dimension", "any 64-bit dimension, any double", covers=[1, 2]) for n in ["p2", "p3", "box2", "box3", "circle", "sphere", "fsphere", "fbox3", "fcircle", "fbox2"]] + [H("h_axes3", "x, y, z of points, boxes, spheres and their filters", "any doubles", covers=[1]), H("h_axes2", "x, y of points, boxes, circles and their filters", "any doubles", covers=[1])])

prop("C17", "val", "Distances, lengths and directions are Euclidean",
     "Squared distances in two, three and n dimensions are the sums of squared coordinate differences, distances and lengths their roots, and distances between points of different dimension are refused. "
     "A direction made from a vector is that vector scaled to length 1; it exists for every vector but zero. Axis directions, negated and scaled directions are as named.",
     "integer coordinates -8..8 (squared distances), one coordinate -60..60 (roots), vectors with coordinates -3..3 (2D: -8..8)",
     "distance and direction functions are tested for single constants or not at all",
     ["src/distances_2d.rs", "src/distances_3d.rs", "src/distances_nd.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/is_normalized_2d.rs", "src/is_normalized_3d.rs", "src/functions.rs", "src/is_2d.rs", "src/is_3d.rs"],
     [("distances", "sqr_dist_2d/3d/nd, dist_2d/3d/nd, HasDistanceTo"), ("directions", "Norm2D::new, Norm3D::new, normalized")],
     [H("h_dist", "squared distances, by-dimension distance and comparison", "coordinates -8..8, any dimension index", covers=[1, 2]), H("h_dist_root", "distances and lengths are roots", "one coordinate -60..60", covers=[1]),
      H("h_norm3", "3D directions", "coordinates -3..3", covers=[1, 2]), H("h_norm2", "2D directions", "coordinates -8..8", covers=[1, 2])])

prop("C18", "val", "Equal values hash equally and orderings are consistent",
     "Values that compare equal hash equally, whatever their bits (0.0 and -0.0 included), for points, numbers, directions, lines, rays, planes, segments, bounding boxes, boxes, circles, spheres, the filters made of them, polygons, meshes and point clouds. "
     "The ordering of points, boxes, spheres and circles is reflexive, antisymmetric and transitive.",
     "all pairs of IEEE-754 bit patterns for every coordinate of points and for one coordinate of composed values; triples of integer points -3..3 and shapes -2..2 for orderings",
     "no test hashes or sorts values",
     ["src/utils.rs", "src/point_2d.rs", "src/point_3d.rs", "src/positive.rs", "src/non_negative.rs", "src/box_3d.rs", "src/sphere.rs", "src/circle.rs", "src/bounding_box_3d.rs"],
     [("hashing", "hash_f64 and impl Hash"), ("ordering", "impl Ord for Point2D, Point3D, Box3D, Sphere, Circle")],
     [H("h_hash_num", "Positive, NonNegative", "all pairs of doubles", covers=[1, 2]), H("h_hash_p2", "Point2D", "all pairs of points", covers=[1, 2]), H("h_hash_p3", "Point3D", "all pairs of points", covers=[1, 2]), H("h_hash_bb", "bounding boxes", "all doubles for one coordinate", covers=[1, 2]),
      H("h_hash_shape", "Sphere, Box3D, PointCloud3D", "all doubles for one coordinate", covers=[1, 2]), H("h_hash_dir", "directions, lines, rays, planes, segments", "zeros of either sign and all doubles for one coordinate", covers=[1, 2]), H("h_hash_more", "circles, Box2D, filters, polygons, Mesh3D, Rgb", "all doubles for one coordinate", covers=[1, 2]), H("h_ord_p", "points", "coordinates -3..3", covers=[1, 2]), H("h_ord_shape", "shapes", "centers -2..2", covers=[1, 2])])

prop("C19", "val", "Positive and NonNegative numbers keep their sign",
     "A Positive is created exactly from values above zero and a NonNegative exactly from values of at least zero, so NaN never gets in, and both keep and give back their value. "
     "Short of overflow and underflow their sums, products, quotients and roots, also in place and mixed, are those of the values. min and max functions answer the smaller and bigger value.",
     "all IEEE-754 bit patterns for creation; arithmetic on arbitrary doubles in 2^-400..2^400 and multiples of 1/4 up to 4; signs of sums and products of arbitrary doubles in 2^-500..2^500",
     "these types have no tests",
     ["src/positive.rs", "src/non_negative.rs", "src/functions.rs"],
     [("validation", "Positive::new, NonNegative::new"), ("arithmetic", "impl Add/Mul/Div/AddAssign/MulAssign/DivAssign")],
     [H("h_num_new", "creation and conversion", "all doubles", covers=[1, 2]), H("h_num_ops", "arithmetic", "multiples of 1/4 up to 4", covers=[1]), H("h_num_same", "every operator against plain arithmetic", "all doubles in 2^-400..2^400", covers=[1]), H("h_num_sign", "signs of sums and products", "all doubles in 2^-500..2^500", covers=[1]), H("h_minmax", "min64, max64", "all pairs of finite doubles", covers=[1])],
     ["operations whose result overflows to infinity or underflows to zero are outside: a Positive product may underflow to 0"])

prop("C20", "val", "Matrices and pipes compose transformations correctly",
     "Matrix products, multiples, identity and zero matrices follow matrix algebra for every operator variant. Transforming a point applies the matrix to it, translation, scale and rotation matrices act as named (rotations by the right hand rule, about any axis), and transforming by a product applies the right factor first. A look at matrix turns the target straight ahead, keeps up upwards and changes no length. "
     "A 2D pipe scales, then rotates, then translates; a 3D pipe goes on to move the camera, look and project; removed stages have no effect.",
     "matrices with integer entries -3..3 (products), -2..2 (transformations), integer translations and scales -3..3, every combination of pipe stages; rotations by multiples of 90 degrees, and by 0.5, 1, 2, -1 about five oblique axes",
     "matrices and pipes have no tests",
     ["src/matrix3.rs", "src/matrix4.rs", "src/matrix3_pipe.rs", "src/matrix4_pipe.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/is_editable_2d.rs"],
     [("algebra", "impl Mul for Matrix3, Matrix4"), ("transformation", "IsBuildable2D/3D::multiply_m"), ("pipes", "Matrix3Pipe::result, Matrix4Pipe::result"), ("rotations", "Matrix4::rotation, rotation_axis, Matrix3::rotation")],
     [H("h_mat3", "3x3 algebra", "entries -3..3", covers=[1]), H("h_mat4", "4x4 algebra", "entries -3..3", covers=[1]), H("h_trans3", "2D transformations", "entries -2..2, points -3..3", covers=[1]), H("h_trans4", "3D transformations", "entries -2..2, points -3..3", covers=[1]),
      H("h_named3", "2D translation, scale and rotation within products", "translations and scales -3..3", covers=[1]), H("h_named4", "3D translation, scale and rotation within products", "translations and scales -3..3", covers=[1]), H("h_pipe3", "2D pipe", "translations and scales -3..3, every rotation matrix with entries -1..1", covers=[1]), H("h_pipe4", "3D pipe", "all 64 combinations of stages, four points spanning space", covers=[1]),
      H("h_rot2", "2D rotations", "multiples of 90 degrees, coordinates -3..3", covers=[1]), H("h_rot3", "rotations about the axes", "multiples of 90 degrees, coordinates -3..3", covers=[1]), H("h_rot3_mul", "combined rotations", "multiples of 90 degrees about all axes", covers=[1]), H("h_rot_axis", "oblique axes", "five axes, four angles, one coordinate -3..3", covers=[1]), H("h_look_at", "looking at a target", "targets with one coordinate -8..8, three up directions", covers=[1, 2])])

prop("C21", "geo", "Collections of points behave like sequences",
     "Point clouds, vectors and deques of points hold exactly the points pushed, inserted, set or merged into them, in that order; insertion beyond the end is refused and changes nothing, lookups answer for exactly the indices below the length. A cloud of floats holds the single precision value nearest to each coordinate. "
     "Moving or transforming a collection applies to every point and no other change; its bounding box touches its outermost points; the center of gravity is the mean of the points, the length the sum of the distances of consecutive points, and only empty collections lack a center.",
     "histories of up to 4 operations with any doubles; up to 3 points per collection, up to 8 with one of them free for bounding boxes and movement; any doubles moved; integer coordinates for means, lengths, transformations and bounding boxes",
     "point cloud tests exist for a few fixed points, none for insertion, deques, merging or the cloud of floats",
     ["src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/point_cloud_3d_f32.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/polygon_3d.rs", "src/polygon_2d.rs", "src/is_mergeable.rs"],
     [("sequence", "IsPushable, IsRandomInsertible, IsRandomAccessible, IsDataContainer impls"), ("merging", "IsMergeable::combine, consume; append_ra"), ("measures", "HasLength, HasCenterOfGravity2D/3D, IsMovable2D/3D, IsMatrix4Transformable")],
     [H("h_seq_pc3", "PointCloud3D against a model", "4 operations (push, insert, assign) of any order and index, any double", covers=[1, 2]), H("h_seq_vec", "Vec against a model", "as above", covers=[1, 2]), H("h_seq_deque", "VecDeque against a model", "as above", covers=[1, 2]), H("h_seq_pc2", "PointCloud2D insertion and assignment", "0..3 points, any doubles", covers=[1, 2]),
      H("h_dc_pc3", "PointCloud3D as data container", "0..2 points, any doubles", covers=[1]), H("h_dc_vec", "Vec as data container", "as above", covers=[1]), H("h_dc_deque", "VecDeque as data container", "as above", covers=[1]), H("h_dc_f32", "PointCloud3Df32 as data container", "0..2 points, any doubles", covers=[1]),
      H("h_merge", "merging 3D collections", "0..2 + 0..2 points, any doubles", covers=[1]), H("h_merge2", "merging 2D collections", "0..2 + 0..2 points, any doubles", covers=[1]),
      H("h_move", "moving 3D collections", "0..3 points, any doubles", covers=[1]), H("h_move2", "moving 2D collections", "0..3 points, any doubles", covers=[1]), H("h_move_f32", "moving a cloud of floats", "1..3 points, integers -1000..1000", covers=[1]), H("h_bb_f32", "bounding box of a cloud of floats", "0..3 points, integers -8..8", covers=[1, 2]), H("h_bb_many", "bounding boxes of many points", "4..8 points, one anywhere free -8..8", covers=[1]), H("h_move_many", "moving many points", "4..7 points, one anywhere free", covers=[1]),
      H("h_cog", "center of gravity", "0..3 points, integers -8..8", covers=[1, 2]), H("h_length", "length", "0..3 points along one axis, integers -3..3", covers=[1]), H("h_pc_transform", "transformation", "0..2 points, integers -8..8, two matrices", covers=[1])],
     ["insertion exactly at the end is claimed for point clouds only: Vec and VecDeque refuse it"], over=("inputs", "histories"))

prop("C22", "geo", "Sorting, convex hulls and line simplification keep what they promise",
     "Sorting a point cloud by a dimension, named or by index, yields a permutation of its points ordered by that dimension; other dimensions are refused. "
     "The convex hull of a 2D cloud consists of distinct points of the cloud, encloses all of them, turns strictly left at every corner and is empty only for an empty cloud. "
     "Douglas-Peucker simplification keeps the first and last point and a subsequence of the others, such that every point left out lies within epsilon of the line through its kept neighbours.",
     "3..4 points with integer coordinates 0..4 or any finite double in the sorted dimension; hulls of 0..5 points on integer grids; polylines of 0..5 points with two epsilons, also 1/8 and 64 times as big",
     "the hull test uses one square, the others have no tests; ties, collinear points and vertical lines are untested",
     ["src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/convex_hull_2d.rs", "src/douglas_peucker_2d.rs", "src/is_sortable_nd.rs", "src/is_sortable_2d.rs", "src/is_sortable_3d.rs"],
     [("sorting", "IsSortable2D/3D/ND::sort_x, sort_y, sort_z, sort_dim"), ("hull", "convex_hull_2d"), ("simplification", "douglas_peucker_2d")],
     [H("h_sort3", "3D sorting", "3 points, coordinates 0..3", covers=[1]), H("h_sort3_4", "3D sorting, 4 points", "sorted coordinate 0..4", covers=[1]), H("h_sort3_any", "3D sorting, any finite double", "3 points", covers=[1]), H("h_sort2", "2D sorting", "3 points, coordinates 0..3", covers=[1]), H("h_sort2_4", "2D sorting, 4 points", "sorted coordinate 0..4", covers=[1]), H("h_sort_dim", "dimensions", "any 64-bit dimension", covers=[1, 2]),
      H("h_hull_small", "hull of few points", "0..2 points, coordinates 0..2", covers=[2, 3]), H("h_hull3", "hull of 3 points", "coordinates 0..3", covers=[1, 2, 3]), H("h_hull4", "hull of 4 points", "coordinates 0..2", covers=[1, 2, 3]), H("h_hull5", "hull of a triangle and 2 points", "coordinates 0..4", covers=[1]),
      H("h_dp", "simplification, along x", "0..4 points, y 0..2, epsilon 0.25 and 1.5", covers=[1, 2, 3]), H("h_dp_y", "simplification, along y", "3..4 points, x 0..2", covers=[1, 2, 3]), H("h_dp_short", "simplification of short and long segments", "3..4 points 1/8 or 64 apart, one free", covers=[1, 2, 3]), H("h_dp_4", "simplification, longer", "5 points", covers=[1, 2, 3])],
     ["polylines are strictly monotonic in one coordinate, so their points are distinct; coordinates are finite"])

prop("C23", "geo", "Polygons close, and their vertices and segments stay addressable",
     "A polygon of n vertices has n segments: segment i connects vertex i to its successor, the last one to the first vertex. Vertex and segment ids are valid exactly below n. "
     "Adding a vertex appends it and returns its id, changing a vertex succeeds exactly for existing ids, and all other vertices keep their value.",
     "polygons of 0..3 vertices with any double, arbitrary 64-bit ids",
     "polygons have no tests",
     ["src/polygon_2d.rs", "src/polygon_3d.rs", "src/is_polygon.rs", "src/is_editable_polygon.rs"],
     [("closing segment", "IsPolygon::segment_vertex_ids"), ("editing", "IsEditablePolygon::add_vertex, change_vertex"), ("closing length", "HasLength for Polygon2D, Polygon3D")],
     [H("h_poly3", "Polygon3D", "0..3 vertices, any doubles and ids", covers=[1, 2]), H("h_poly2", "Polygon2D", "0..3 vertices, any doubles and ids", covers=[1, 2]), H("h_length", "the length includes the closing segment", "0..3 points along one axis, integers -3..3", covers=[1])])

prop("C24", "geo", "Segments, scaling, centering, sizing and extrusion do what they are named for",
     "A line segment's center, length and bounding box are those of its two ends, and moving or transforming it applies to both. "
     "Scaling a segment moves its ends away from its middle, scaling a point cloud or polygon that spans a volume (area) moves every point away from the center of its bounding box, by the factor. "
     "Centering puts the center of the bounding box at the origin, set_size gives it the requested size along each axis, and extruding yields the points at height zero and their copies moved by the extrusion vector.",
     "integer coordinates -8..8 (clouds -4..4, three points), factors 1/2..4, one extent 1..8 for set_size",
     "only Polygon and LineSegment constructors are touched by tests",
     ["src/line_segment_2d.rs", "src/line_segment_3d.rs", "src/is_scalable.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/polygon_2d.rs", "src/polygon_3d.rs", "src/functions.rs"],
     [("scaling", "IsScalable::scale"), ("functions", "center, set_size, extrude"), ("segments", "LineSegment2D/3D")],
     [H("h_segments", "3D segments", "coordinates and offset -8..8, two matrices", covers=[1, 2]), H("h_segments2", "2D segments", "as above", covers=[1, 2]), H("h_seg_len", "lengths", "ends -4..4 apart along oblique directions", covers=[1]), H("h_seg_scale", "scaling 3D segments", "coordinates -8..8, factors 1/2, 1, 2, 4", covers=[1]), H("h_seg_scale2", "scaling 2D segments", "as above", covers=[1]),
      H("h_pc_scale", "scaling 3D clouds and polygons", "3 points -4..4, factors 1/2, 2", covers=[1]), H("h_pc_scale2", "scaling 2D clouds and polygons", "3 points -4..4, factors 1/2, 2", covers=[1]), H("h_extrude", "extrude", "0..3 points -8..8", covers=[1]), H("h_center", "center", "1..3 points -8..8", covers=[1, 2]), H("h_set_size", "set_size", "one extent 1..8 along each axis", covers=[1])])

prop("C25", "geo", "Rays hit what is in front of them, closest first; normals point outwards",
     "A ray hits a triangle exactly when it crosses its inside ahead of its anchor, at the point where it crosses, and a mesh once per face it crosses. Among elements with bounding boxes, the closest one the ray hits is found, at the point of entry, and every element it hits is visited exactly once. "
     "A face's normal is perpendicular to it, with its corners counter-clockwise around it, and fails for degenerate or missing faces; a vertex normal is the normalised mean of its faces' normals. Projection on a plane yields the coordinates along its axes.",
     "axis parallel rays of both directions over all three axes, triangles and anchors on integer and half integer grids, 2..3 boxes, one triangle with integer corners -4..4, three faces around a corner in every combination",
     "no tests for rays, closest elements or planes; normals are tested for one face",
     ["src/functions.rs", "src/ray_3d.rs", "src/plane_3d.rs", "src/is_mesh_3d.rs", "src/is_plane_3d.rs"],
     [("ray against triangle and mesh", "intersection_ray_triangle, collect_intersections_ray_mesh"), ("closest element", "closest_intersecting, closest_intersecting_mut, index_closest_intersecting, for_each_intersecting"), ("normals", "normal_of_face, normals_of_mesh, IsMesh3D::face_normal"), ("projection", "project_point_on_plane")],
     [H("h_ray_tri", "ray against two triangles", "anchor -1..5, heights -1..3, both directions, all axes", covers=[1, 2]), H("h_ray_tri_v", "ray against triangles", "two corners and the anchor on a 3x3 grid", covers=[1, 2]), H("h_ray_mesh", "ray against a mesh of three faces", "anchor -3/2..13/2 in steps of 1/2, heights 0..3", covers=[1, 2]),
      H("h_closest", "closest of two boxes, forwards", "boxes 0..6 along the ray, on or beside it", covers=[1, 2]), H("h_closest_neg", "closest of two boxes, backwards", "as above", covers=[1, 2]), H("h_closest3", "closest of three boxes", "as above", covers=[1, 2]),
      H("h_project", "projection on planes", "coordinates -8..8, all pairs of axes", covers=[1]), H("h_normal", "normal of a face", "one coordinate -4..4", covers=[1, 2]), H("h_normals", "normals of vertices", "every subset of three faces, both orientations", covers=[1, 2])],
     ["rays through the border of a triangle may or may not hit; anchors are outside of boxes"])

prop("C26", "coll", "Colliders collide exactly when their shapes overlap",
     "Two colliders - bounding boxes, rotated boxes or faces, in any combination and order - collide if their shapes overlap and do not if they are apart; touching shapes may do either. "
     "The corners and the bounding box of a rotated box and of a face cover the shape, a face is built exactly if it spans a volume. "
     "Objects collide exactly when some of their colliders (or their bounding boxes, if they have no others) do, and a container collides exactly when one of its elements does.",
     "boxes axis parallel or rotated about z, and faces, of fixed sizes at one to three integer offsets -16..16; objects of 1..2 colliders, containers of 0..2 objects",
     "colliders have no tests",
     ["src/collider_3d.rs", "src/sat_collider.rs", "src/is_sat_object.rs", "src/box_unaligned_3d.rs", "src/tri_face_3d.rs", "src/bounding_box_3d.rs", "src/has_colliders_3d.rs", "src/is_collider_container_3d.rs", "src/aa_bb_tree_3d.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs"],
     [("separating axes", "SATCollider::collides_with, IsSATObject"), ("dispatch", "Collider3D::collides_with"), ("containers", "HasColliders3D::collides_with, IsColliderContainer3D::any_element_collides_with_*")],
     [H("h_" + n, q, b, covers=c) for (n, q, b, c) in [
        ("aabb_aabb", "two bounding boxes", "offsets -6..6 along all axes", [1, 2]), ("aabb_box0", "bounding box and box", "offsets -6..6 along all axes", [1, 2]), ("aabb_from", "boxes made from bounding boxes", "offsets -6..6 along all axes", [1, 2]),
        ("aabb_box", "bounding box and rotated box", "offsets -16..16 along x", [1, 2]), ("aabb_box_y", "bounding box and rotated box", "offsets -16..16 along y", [1, 2]), ("box_box", "two rotated boxes", "offsets -16..16 along x, 9 pairs of rotations", [1, 2]), ("box_box_z", "two rotated boxes", "offsets -16..16 along z", [1, 2]), ("box_shape", "corners, bounding box and movement of rotated boxes", "center -8..8", [1]),
        ("face_aabb_hit", "face with a corner within a box", "corner -2..2", [1]), ("face_aabb_out", "face beyond a side of a box", "distances 4..9", [1]), ("face_aabb_plane", "box beside the plane of a face", "box at -9..9", [1]), ("face_box", "face and rotated box", "offsets -16..16", [1, 2]), ("face_face", "two faces", "offsets -8..8 and beside", [1, 2]), ("face_coplanar", "two faces in one plane", "offsets -12..12", [1, 2]), ("coplanar_edge", "two faces in one plane, apart along one edge", "distances -1..6, every edge, 18 orders of corners", [1, 2]), ("face_gap", "face and box separated by edges only", "distances 1..9", [1, 2]), ("face_gap_rot", "faces separated by edges only", "offsets -5..5", [1, 2]),
        ("face_aabb", "face and bounding box against exact geometry", "one corner -7..7 along each axis", [1, 2]), ("face_aabb2", "face and box against exact geometry", "one corner -9..9 along each axis", [1, 2]), ("face_face2", "two faces against exact geometry", "offsets -9..9 along each axis", [1, 2]),
        ("tri", "faces, their corners and bounding box", "coordinates -4..4", [1, 2]), ("objects", "objects of several colliders", "offsets 0..12", [1, 2]), ("container", "containers of objects", "0..2 objects, offsets 0..9", [1, 2]), ("tree", "bounding box trees of objects", "0..3 objects, offsets 0..9, three depth limits", [1, 2])]])

TXT = "numbers are read with the standard library's parser, which the reference uses as well"
prop("C27", "text", "Point files (.xy, .xyz, .pts, .ptx) load every point as written",
     "Loading an .xy, .xyz, .pts or .ptx file yields every point of the file in its order with exactly the coordinates written there, a .ptx point transformed by the matrix of its scan, whatever the delimiter (blank, tab, comma or semicolon; the first line of .xy and .xyz files decides), trailing white space, further values of a line and whether the last line is terminated. "
     "A line lacking a coordinate, a coordinate that is no number and a malformed or missing count or matrix are reported as an error, and nothing after that line is loaded.",
     "20 templates of files of up to 24 bytes (.ptx: 90 bytes) in which one to four bytes are any ASCII byte, any digit or any structural byte; a file per format in which one byte is replaced by any other; .xy files of any three ASCII bytes",
     "the io tests load small well formed files of the repository; malformed lines, delimiters and counts are not tested",
     ["src/io/xy.rs", "src/io/xyz.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/utils.rs", "src/io/byte_reader.rs"],
     [("loading", "io::load_xy, load_xyz, load_pts, load_ptx"), ("lines and words", "io::utils, LineIterator"), ("delimiter", "utils::estimate_delimiter")],
     [H("h_xy1", ".xy files", "3 templates, one any byte or digits", covers=[1, 2]), H("h_xy2", ".xy files, delimiters", "3 templates, structural bytes", covers=[1, 2]), H("h_xy_any", "any .xy file of three bytes", "any ASCII bytes", covers=[1, 2]), H("h_xyz1", ".xyz files", "3 templates", covers=[1, 2]), H("h_xyz2", ".xyz files, delimiters", "3 templates, structural bytes", covers=[1, 2]),
      H("h_pts1", ".pts files", "2 templates", covers=[1, 2]), H("h_pts2", ".pts files of several scans", "2 templates", covers=[1, 2]), H("h_pts3", ".pts files, huge counts", "3 templates", covers=[1, 2]), H("h_pts4", ".pts files, any count", "two any bytes", covers=[1, 2]), H("h_ptx", ".ptx files", "5 templates, digits", covers=[1, 2]), H("h_ptx_any", ".ptx files", "4 templates, any bytes", covers=[1, 2]),
      H("h_xy_hurt", "damaged .xy files", "one file, any byte replaced by any other", covers=[1, 2]), H("h_xyz_hurt", "damaged .xyz files", "one file, any byte replaced by any other", covers=[1, 2]), H("h_pts_hurt", "damaged .pts files", "one file, any byte replaced by any other", covers=[1, 2]), H("h_ptx_hurt", "damaged .ptx files", "one file, any byte replaced by any other", covers=[1, 2])],
     ["bytes 85 and A0 (hexadecimal), which are white space in Latin-1 only, are outside; lines that end the file early inside a .pts scan are accepted", TXT])

prop("C28", "text", "OBJ and OFF files load their vertices and faces as written",
     "Loading an .obj or .off file as a mesh yields exactly its vertices, with the coordinates written there, and its faces, joining the vertices the file names (counted from one in .obj files, where texture and normal numbers after a slash are ignored, from zero in .off files), in the order of the file; loading points yields the vertices alone. "
     "Comments, other commands, further values of a line, white space at the end of lines and blank lines of .off files change nothing. "
     "Vertices lacking a coordinate, faces with other than three corners in .off files, faces naming missing vertices or one vertex twice and numbers that are none are reported as an error, and nothing after that line is loaded.",
     "14 templates of files of three vertices and up to two faces in which one to four bytes are any ASCII byte, any digit or any structural byte; a file per format in which one byte is replaced by any other",
     "the io tests load well formed files and compare counts of points and faces",
     ["src/io/obj.rs", "src/io/off.rs", "src/io/utils.rs", "src/io/byte_reader.rs"],
     [("loading", "io::load_obj_mesh, load_obj_points, load_off_mesh, load_off_points")],
     [H("h_obj1", ".obj meshes", "5 templates, digits and any bytes", covers=[1, 2]), H("h_obj3", ".obj meshes, faces with texture and normal indices", "4 templates, digits and any bytes", covers=[1, 2]), H("h_obj2", ".obj meshes, structure", "3 templates, structural bytes", covers=[1, 2]), H("h_obj_points", "points of .obj files", "3 templates", covers=[1, 2]), H("h_off1", ".off meshes", "4 templates, digits", covers=[1, 2]), H("h_off2", ".off meshes, structure", "3 templates, any and structural bytes", covers=[1, 2]), H("h_off_points", "points of .off files", "3 templates", covers=[1, 2]),
      H("h_obj_hurt", "damaged .obj meshes", "one file, any byte replaced by any other", covers=[1, 2]), H("h_obj_hurt_p", "damaged .obj points", "one file, any byte replaced by any other", covers=[1, 2]), H("h_off_hurt", "damaged .off meshes", "one file, any byte replaced by any other", covers=[1, 2]), H("h_off_hurt_p", "damaged .off points", "one file, any byte replaced by any other", covers=[1, 2])],
     ["bytes 85 and A0 (hexadecimal), which are white space in Latin-1 only, are outside; .obj faces of more than three corners, lines starting with blanks, .off files ending early are outside", TXT])

prop("C29", "text", "STL files, ASCII or binary, load every facet as written",
     "Loading an .stl file yields every facet of the file in its order with exactly the corners and the normal written there, in ASCII and in little endian binary form, whatever the size of the pieces the reader delivers, as triplets of points, as a mesh with three vertices per face or as a mesh of unique vertices, which leaves out degenerate facets together with their normals. A file is taken for ASCII when it starts with solid. "
     "A malformed facet or, in binary files, fewer facets than announced are reported as an error, and nothing after them is loaded.",
     "ASCII files of two facets with digits anywhere, or any one byte replaced by any ASCII byte, or cut anywhere; binary files of two facets with any three values of a facet at once; any announced count and 18 lengths",
     "the io tests load two well formed files and compare the counts",
     ["src/io/utils.rs", "src/io/types.rs", "src/io/stl.rs", "src/io/from_bytes.rs", "src/io/byte_reader.rs"],
     [("loading", "io::load_stl_triplets, load_stl_mesh_duped, load_stl_mesh_unique"), ("format", "is_ascii"), ("iteration", "StlIterator")],
     [H("h_stl_ascii1", "ASCII facets", "2 templates, digits, all ways to load", covers=[1]), H("h_stl_ascii2", "ASCII facets, damaged", "one byte replaced or cut, from the second facet's surroundings on", covers=[1, 2]), H("h_stl_auto", "detecting the format", "any fifth byte of solid", covers=[1]), H("h_stl_bin", "binary facets", "any three values of one facet", covers=[1]), H("h_stl_bin_unique", "binary facets, unique vertices", "one corner 1..7 per coordinate", covers=[1]), H("h_stl_bin_cut", "binary files that end early", "any count below 5 or above a million, 18 lengths", covers=[1, 2])],
     ["ASCII files that end early inside a facet are accepted; binary files starting with solid are taken for ASCII", TXT])

prop("C30", "text", "PLY files load the vertices and faces their header describes",
     "Loading a .ply file of any of the three formats (ascii, binary little and big endian) yields the vertices and triangles its header announces, in the order of the file, with the coordinates of the properties named x, y and z in whatever order, as float or double, and the faces of the property vertex_indices (or vertex_index) of any integer types, skipping further properties of any type before, between and after them, whatever the size of the pieces the reader delivers. "
     "A missing, repeated or mistyped coordinate, an unknown type, a list that is not three indices, an index that is no vertex of the file or a repeated one, fewer vertices or faces than announced and headers that are none are reported as an error; an accepted file has as many vertices and faces as its header says.",
     "files of three vertices and two faces: all orders and types of coordinates, every type of further property at every position, every type of index; any value of one coordinate or index; every length of the data; any one byte of the header replaced by any ASCII byte",
     "the io tests load well formed files of one property order",
     ["src/io/utils.rs", "src/io/ply/load.rs", "src/io/ply/header.rs", "src/io/ply/iterators.rs", "src/io/ply/iterators_internal.rs", "src/io/ply/types.rs", "src/io/ply/utils.rs", "src/io/from_bytes.rs", "src/io/byte_reader.rs"],
     [("header", "io::ply::load header parsing"), ("vertices and faces", "io::load_ply_mesh, load_ply_points")],
     [H("h_ply_coords", "orders and types of coordinates", "6 orders, 8 types, 3 formats, any value of one coordinate", covers=[1]), H("h_ply_extra", "further properties", "16 types, 6 places, 3 formats", covers=[1]), H("h_ply_faces", "faces of binary files", "12 types, any value of one index or count", covers=[1, 2]), H("h_ply_faces_ascii", "faces of ascii files", "any digit as index or count", covers=[1, 2]), H("h_ply_points", "points", "files without faces, any value of one coordinate", covers=[1, 3]),
      H("h_ply_cut", "files that end early", "every length of the data (ascii: every line)", covers=[1, 2]), H("h_ply_order", "headers that are refused", "9 + 4 headers", covers=[1]), H("h_ply_byte", "damaged headers", "any one byte replaced by any ASCII byte", covers=[1, 2])],
     ["further list properties are outside; files are not larger than 400 bytes", TXT])

prop("C31", "text", "Saved files and texts load back to the same points and meshes",
     "Points saved as .xyz or .xy with any of the delimiters blank, tab, comma and semicolon, meshes saved as ASCII .stl, ascii or binary .ply with or without colors, and points and clouds turned into text come back unchanged from the loader: same order, same faces, the very same coordinates (nearest single precision value for binary .ply of 32 bit). A text is a point exactly if it consists of as many numbers as the point has coordinates. "
     "Saving fails exactly when the writer refuses to take all bytes, whatever number of bytes it takes at once, and saving colored meshes also, before anything is written, when there is not exactly one color per vertex.",
     "two points or meshes of four vertices, one coordinate any double (text: special values, integers and dyadic fractions); every valid pair of faces over four vertices; a writer refusing after any number of bytes, taking 5 or all bytes at once; 9 templates of texts",
     "the io tests save files and compare against stored ones of one mesh; no test has a failing writer",
     ["src/io/xy.rs", "src/io/xyz.rs", "src/io/stl.rs", "src/io/ply/save.rs", "src/io/ply/types.rs", "src/point_2d.rs", "src/point_3d.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
     [("saving", "io::save_xyz, save_xy, save_stl_ascii, save_ply_ascii, save_ply_ascii_colored, save_ply_binary, save_ply_binary_colored"), ("texts", "Point2D/3D::parse, to_str, PointCloud2D/3D::parse, to_str")],
     [H("h_w_xyz", ".xyz", "one coordinate of two points: special values", covers=[1]), H("h_w_xyz_dy", ".xyz, fractions", "multiples of 1/16 up to 4", covers=[1]), H("h_w_xy", ".xy", "one coordinate of two points", covers=[1]), H("h_w_str", "texts of points and clouds", "one coordinate", covers=[1]), H("h_parse", "texts that are points", "9 templates, up to three any bytes", covers=[1, 2, 3]), H("h_w_stl", ".stl", "two coordinates below 1e100, two meshes", covers=[1]),
      H("h_w_ply_ascii", "ascii .ply", "one coordinate, with and without colors", covers=[1]), H("h_w_ply_topo", "faces of .ply files", "every pair of valid faces over 4 vertices", covers=[1]), H("h_w_ply_binary", "binary .ply", "any double as one coordinate, 32 and 64 bit, with and without colors", covers=[1]), H("h_w_colors", "number of colors", "0..6 colors for 3 vertices", covers=[1, 2]), H("h_w_fail", "failing writers", "any number of bytes taken, 7 formats", covers=[1, 2])],
     ["coordinates of texts are written by the standard library; a binary mesh is not loaded as .stl"], over=("inputs", "faults"))

prop("C32", "text", "LAS and PSL files load every point they announce",
     "Loading a .las file yields every point record with each coordinate scaled and offset as its header says, at the record distance and data offset the header says, as many as the header announces in its legacy count or, if that is zero, in the 64 bit count headers of version 1.4 have; headers of former versions are shorter. Unsupported versions, point formats or record lengths and fewer records than announced are reported as an error. "
     "Loading a .psl file yields the points of all lines of all passes, in the order of the file, with the coordinates stored there; files that end early are reported as an error, and the points before are loaded. The size of the pieces the reader delivers changes nothing.",
     "files of two or three records with any integer, scale or offset of a coordinate, any count below 6 or above a million, any version, format and length byte, 91 lengths; .psl files of up to three passes of up to three lines with any point, counts -1..4 and 25 lengths",
     "no test loads .las; one test loads a .psl file of a single line",
     ["src/io/las/load.rs", "src/io/las/types.rs", "src/io/psl.rs", "src/io/from_bytes.rs", "src/io/utils.rs"],
     [("records", "io::load_las"), ("headers", "las::types, psl::types"), ("passes and lines", "io::load_psl")],
     [H("h_las_points", "coordinates", "any integer, offset or scale", covers=[1, 2][:1]), H("h_las_layout", "record length, offset and counts", "lengths 12, 13 and 34, gap 0 and 3, any counts", covers=[1, 2]), H("h_las_header", "versions, formats and lengths", "any byte each", covers=[1, 2]), H("h_las_old", "former versions", "versions 1.0 to 1.3, record lengths 12 and 34, any counts", covers=[1, 2]), H("h_las_cut", "files that end early", "0..90 bytes missing", covers=[1, 2]),
      H("h_psl_points", "coordinates", "any single precision value", covers=[1]), H("h_psl_counts", "numbers of passes, lines and points", "-1..4 each", covers=[1, 2]), H("h_psl_cut", "files that end early", "25 lengths", covers=[1, 2])],
     ["counts between 6 and a million are not run"])

prop("C33", "text", "G-code files load the positions the machine moves to",
     "Loading a G-code file yields one point per movement (G1, G2, G3) or position announcement (G92) that names a coordinate: the position after it, where coordinates not named stay, G90 and G91 switch to absolute and relative movements (absolute at first), announcements are always absolute, and comments and all other commands and words change nothing. "
     "A coordinate that is no number is reported as an error, and nothing after that line is loaded.",
     "10 templates of files of up to nine commands in which up to four bytes are any ASCII byte or any digit; one of eight commands in which one byte is replaced by any other",
     "one test loads one file of absolute movements and compares the number of points",
     ["src/io/gcode.rs", "src/io/utils.rs", "src/io/byte_reader.rs"],
     [("commands", "io::load_gcode_points"), ("coordinates", "command parsing in io/gcode.rs")],
     [H("h_gcode1", "programs", "4 templates of up to nine commands, any digits", covers=[1]), H("h_gcode2", "damaged programs", "6 templates, any ASCII bytes", covers=[1, 2]), H("h_gcode_hurt", "damaged programs", "a program of eight commands, any byte replaced by any other", covers=[1, 2])],
     ["a coordinate is named once per command and comments are separated by a blank; G0 is not loaded", TXT])

prop("C34", "misc", "Text helpers, delimiters and sorting helpers do what they are named for",
     "Splitting a line into words yields its non-empty words in order, with blanks and tabs (or the given delimiter) as separators; until yields the text in front of the first delimiter, or all of it. contains tells whether a sequence occurs within another as a whole. "
     "The estimated delimiter is the first of blank, semicolon, comma and tab that occurs at least as often as required. The sorting helpers permute a vector so that it is ordered by the named coordinate, ties by the following ones in turn. "
     "Maxima, sums of vectors, corners of faces and coordinates of boxed points are those their definitions give.",
     "texts of up to six bytes (delimiters: eight) of any value, sequences of up to five and three bytes, any required count; three points with coordinates 0..2 or any double but NaN as the sorted coordinate",
     "contains has one test, the others none",
     ["src/utils.rs", "src/skip_empty.rs", "src/skip_empty_string.rs", "src/functions.rs", "src/face3.rs", "src/is_topology_unit.rs", "src/impls/boxx.rs"],
     [("words", "to_words_skip_empty, SkipEmpty, SkipEmptyString, until, until_bytes"), ("search", "contains, estimate_delimiter"), ("sorting", "sort_vec_2d_x, sort_vec_2d_y, sort_vec_3d_x, sort_vec_3d_y, sort_vec_3d_z")],
     [H("h_words", "words of a line", "any six bytes", covers=[1, 2]), H("h_skip_empty", "skipping empty slices", "any six bytes and delimiter", covers=[1, 2]), H("h_skip_empty_string", "skipping empty strings", "any six ASCII bytes, two delimiters", covers=[1, 2]), H("h_until", "text before a delimiter", "0..6 ASCII bytes, any delimiter", covers=[1, 2]), H("h_until_str", "text before a delimiter of two characters", "0..6 characters of two", covers=[1, 2]),
      H("h_contains", "search", "0..5 and 0..3 bytes", covers=[1, 2]), H("h_delimiter", "delimiter", "any eight bytes, any count", covers=[1, 2]), H("h_max", "maxima", "any doubles but NaN", covers=[1]), H("h_add", "sum of vectors", "coordinates -64..64", covers=[1]), H("h_box", "boxed points", "any doubles, any dimension", covers=[1, 2]), H("h_vids", "corners of faces", "any ids", covers=[1, 2]),
      H("h_sort_vec", "sorting with ties", "three points, coordinates 0..2 (2D: 0..3)", covers=[1]), H("h_sort_any", "sorting any doubles", "three points", covers=[1])])

prop("C35", "misc", "Compressed point clouds decompress to their points within one unit",
     "Compressing a point cloud to 8, 16, 32 or 64 bit coordinates and decompressing it yields as many points, in the same order, each coordinate within one unit of the original: the extent of the cloud along that axis divided by the largest value of the type. "
     "A cloud can be compressed exactly if it spans a volume.",
     "clouds of three points with extents from 1/1000 to 10^12 at three positions, one coordinate any 128th of the extent; clouds of 0..2 points with one coordinate -8..8",
     "one test compresses one cloud of four points to 8 bit",
     ["src/compressed_point_cloud_3d.rs", "src/compressed_point_3d.rs"],
     [("compression", "CompressedPointCloud3D::compress"), ("decompression", "CompressedPointCloud3D::decompress")],
     [H("h_comp8", "8 bit", "two sets of extents, every axis", covers=[1]), H("h_comp16", "16 bit", "every axis", covers=[1]), H("h_comp32", "32 bit", "every axis", covers=[1]), H("h_comp64", "64 bit", "every axis", covers=[1]), H("h_comp_flat", "clouds without volume", "0..2 points", covers=[1, 2])],
     ["coordinates are finite and extents far from the limits of doubles"])

prop("C36", "misc", "Interpolations and shape factories yield the requested points",
     "Interpolating a path of at least two points yields as many points as requested: linear and cosine interpolation start at the first and end at the last point of the path and distribute the points evenly along it (in x, between the ends of a segment, cosine interpolation blends y by half a cosine wave), Bezier interpolation distributes them evenly in the parameter of the curve, starting at its first point; shorter paths are refused. Repeated points of a path change nothing. "
     "Rectangles have their four corners around the center, arcs run evenly on the circle from start to end angle, ellipses on the upper half of the ellipse, and involuts run evenly from start to end angle, at the end of the string unrolled from their circle; each has as many points as requested, none and one included.",
     "axis parallel paths of 2..4 points with one length 0..16, 0..6 points requested; Bezier curves of 2..4 control points with one coordinate -8..8 and of up to 40 on a line; centers -8..8 and several sizes and angles",
     "one test interpolates one path and compares no points; shapes have no tests",
     ["src/interpolate_2d.rs", "src/factory_2d.rs"],
     [("interpolation", "interpolation_linear, interpolate_cosine, interpolate_bezier"), ("shapes", "rectangle, arc, ellipse, involut_circle")],
     [H("h_linear", "linear", "paths of 2..4 points, 0..6 requested", covers=[1, 2]), H("h_cosine", "cosine", "paths of 2..4 points, 0..6 requested", covers=[1, 2]), H("h_bezier", "Bezier", "2..4 control points, 0..6 requested", covers=[1]), H("h_bezier_many", "Bezier, many control points", "21..40 points on a line", covers=[1]), H("h_interp_few", "paths that are too short", "0..1 points", covers=[1]),
      H("h_rectangle", "rectangles", "center -8..8", covers=[1]), H("h_arc", "arcs", "center -8..8, 0..4 points, five ranges of angles", covers=[1]), H("h_ellipse", "ellipses", "center -8..8, 0..5 points", covers=[1]), H("h_involut", "involuts", "center -8..8, 0..4 points, five ranges of angles", covers=[1])],
     ["results are compared within 1e-9 (1e-6 for many control points, 1e-8 for involuts)"])

FMT = ["xy", "xyz", "pts", "ptx", "obj meshes", "obj points", "off meshes", "off points", "G-code", "ascii stl", "binary stl", "ascii ply meshes", "ascii ply points", "little endian ply meshes", "big endian ply points", "las", "psl"]
IOF = ["src/io/xy.rs", "src/io/xyz.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/obj.rs", "src/io/off.rs", "src/io/gcode.rs", "src/io/stl.rs", "src/io/psl.rs", "src/io/las/load.rs", "src/io/ply/iterators.rs", "src/io/ply/iterators_internal.rs", "src/io/ply/header.rs", "src/io/utils.rs", "src/io/byte_reader.rs"]
prop("C37", "text", "Loading reports readers that fail and does not depend on how data arrives",
     "A reader that fails at any point while a file of any supported format is loaded makes the load function return an error; what was loaded up to then is exactly the beginning of what the whole file holds, never anything else. "
     "How many bytes a reader hands out per call, and whether its calls are interrupted, changes neither the result nor what is loaded.",
     "per format one well formed file with a free digit or byte; failing or interrupted at any byte (las, psl: any byte of the last 60..100 and a few before), at most 1, 7 or all bytes per call",
     "tests load files from disk and from memory, all read at once and without errors",
     IOF, [("line reading", "io/utils.rs fetch_line"), ("loaders", "every load_ function of io")],
     [H("h_fault%d" % k, FMT[k], "any failing or interrupted byte, 1, 7 or all bytes per call", covers=[1, 2]) for k in range(17)],
     ["mesh loaders drop faces the mesh refuses", TXT])
prop("C38", "text", "Reading iterators yield what is loaded and end after their first error",
     "The iterators over files yield the same points and faces as the load functions of their format, in the same order. After the first error, whether of the reader or of the file's content, and after the end, they yield nothing any more.",
     "per format one file with a free digit or byte, well formed or with any byte in its middle (binary files: cut short), read from a working reader or one failing at any byte (las, psl: any byte of the last 60..100 and a few before); three further calls after the end; and one good file with one byte anywhere (las, psl, binary stl: at 6..14 places) replaced by any other",
     "no test uses the iterators",
     IOF, [("iterators", "XyIterator, XyzIterator, PtsIterator, PtxIterator, ObjMeshIterator, ObjPointsIterator, OffMeshIterator, OffPointsIterator, GcodeIterator, StlIterator, PlyMeshIterator, PlyPointsIterator, LasIterator, PslIterator")],
     [H("h_iter%d" % k, FMT[k], "good and bad files, working and failing readers", covers=[1, 2, 3]) for k in range(17)] + [H("h_hurt%d" % k, FMT[k], "a good file, any byte replaced by any other", covers=[1, 2]) for k in range(17)],
     ["faces a mesh refuses are yielded by the iterator all the same", TXT])

prop("C39", "shape", "Shapes have the corners, sizes and bounding boxes they are made of",
     "A box's corners lie half its size from its center along each axis, circles and spheres reach their radius to all sides, a rotated box reaches to its corners and a face to its corners; each one's bounding box, that of a filter or collider made from it and the optional one say exactly this, also after moving and after scaling, which multiplies sizes and radii and keeps the center. Boxes made from a bounding box have its center and sizes. "
     "Rotating a box around z turns its axes by the angle and keeps them perpendicular. An object with optional bounding box can be converted to one with a bounding box exactly when it has one. Moving a line or ray moves its anchor and keeps its direction; a plane has the origin and axes it was made from.",
     "centers and offsets with integer coordinates -8..8, sizes and radii 1..8, factors 1/2, 2, 3; rotations by multiples of a quarter turn up to a half turn with one free center coordinate or size, and by five other angles; lines: any doubles",
     "boxes, circles and spheres have no tests, bounding boxes are tested as values only",
     ["src/box_2d.rs", "src/box_3d.rs", "src/circle.rs", "src/sphere.rs", "src/box_unaligned_3d.rs", "src/tri_face_3d.rs", "src/collider_3d.rs", "src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs", "src/has_bounding_box_2d.rs", "src/has_bounding_box_3d.rs", "src/line_2d.rs", "src/line_3d.rs", "src/ray_2d.rs", "src/ray_3d.rs", "src/plane_3d.rs"],
     [("corners and sizes", "Box2D/Box3D::min_p, max_p, sizes"), ("bounding boxes", "HasBoundingBox2D/3D and ...Maybe of shapes, filters and colliders"), ("rotated boxes", "BoxUnaligned3D::new_from_bb, new_from_z_rotation"), ("moving", "IsMovable2D/3D of boxes, lines and rays")],
     [H("h_box2", "Box2D", "center, offset -8..8, sizes 1..8", covers=[1]), H("h_box3", "Box3D", "center, offset -8..8, sizes 1..8", covers=[1]), H("h_round", "Circle, Sphere", "center -8..8, radius 1..8", covers=[1]), H("h_filters", "box, circle and sphere filters", "center -8..8, sizes 1..8", covers=[1]),
      H("h_rot", "boxes rotated by quarter turns", "one free center coordinate or size", covers=[1]), H("h_rot_any", "boxes rotated by other angles", "five angles, one center coordinate -8..8", covers=[1]), H("h_frombb", "rotated boxes, faces and colliders spanning a bounding box", "corner -8..8, sizes 1..8", covers=[1]),
      H("h_conv", "objects with optional bounding box", "corner -8..8", covers=[1, 2]), H("h_lines", "lines, rays and planes", "any doubles", covers=[1])],
     ["rotated boxes are compared within 1e-9; whether positive angles turn left or right is not judged"])

prop("C40", "shape", "Meshes move, scale and transform with their vertices and keep their faces",
     "Moving or transforming a mesh applies to each of its vertices, scaling a mesh moves each vertex away from the center of the bounding box by the factor, and all keep its faces; a mesh's bounding box and center of gravity are those of its vertices, whatever holds its vertices and vertex ids. "
     "A searchable mesh answers, scales and changes like the mesh it was made from, and taking a mesh apart and putting it together again yields the same mesh.",
     "3 vertices with integer coordinates -8..8, 2 faces; offsets -8..8, factors 1/2, 2, 3; vertices held by PointCloud3D, Vec, VecDeque and PointCloud3Df32",
     "no test moves, scales or transforms a mesh",
     ["src/mesh_3d.rs", "src/searchable_mesh.rs", "src/point_cloud_3d.rs", "src/point_cloud_3d_f32.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs"],
     [("meshes", "IsMovable3D, IsScalable, IsMatrix4Transformable, HasBoundingBox3DMaybe, HasCenterOfGravity3D for Mesh3D"), ("searchable meshes", "SearchableMesh: IsMesh, IsVertexEditableMesh, IsScalable, From, Into")],
     [H("h_mesh_move", "moving", "vertices and offset -8..8", covers=[1]), H("h_mesh_bb", "bounding box, center of gravity, parts", "vertices -8..8", covers=[1, 2]), H("h_mesh_scale", "scaling", "one length 1..8", covers=[1]), H("h_mesh_trans", "transforming", "vertices -8..8, translations and scalings -8..8", covers=[1]), H("h_mesh_edit", "editing a searchable mesh", "ids 0..4, vertices -8..8", covers=[1, 2])])

prop("C41", "shape", "Points, lines, polygons and numbers print their values in order",
     "A point prints its coordinates, a segment its start and end, a line or ray its anchor and direction, a face its vertex ids and a cloud or polygon its points one per line, each in order and none left out; numbers print their value. A face has exactly three vertex ids, found under their index.",
     "one coordinate -4.5..4.5 in steps of one half at any place among distinct constants; numbers 1/4..10; vertex ids 0..20, any 64-bit index",
     "no test prints a value",
     ["src/point_2d.rs", "src/point_3d.rs", "src/line_2d.rs", "src/line_3d.rs", "src/ray_2d.rs", "src/ray_3d.rs", "src/line_segment_2d.rs", "src/line_segment_3d.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/polygon_2d.rs", "src/polygon_3d.rs", "src/face3.rs", "src/positive.rs", "src/non_negative.rs"],
     [("printing", "impl fmt::Display"), ("face ids", "Face3::vid, n_vids")],
     [H("h_show", "points, segments, lines, clouds, polygons", "one free coordinate", covers=[1]), H("h_show_num", "numbers and faces", "numbers 1/4..10, ids 0..20", covers=[1])])

prop("C42", "text", "Loading errors name the first line that can not be understood",
     "When loading a text file fails with an error that names a line, or an iterator over it does, the number is that of the first line that can not be understood, counted from one, and the text quoted is that line without surrounding white space. "
     "An error that names how many lines were read counts the lines read up to the failure, also when the reader fails. A printed error shows the number and, where it names one, the line.",
     "per text format one good file of up to 180 bytes with any one byte replaced by any other byte; readers failing at any byte, handing out 1, 7 or all bytes per call",
     "no test looks at the errors of loading",
     ["src/io/types.rs", "src/io/xy.rs", "src/io/xyz.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/obj.rs", "src/io/off.rs", "src/io/gcode.rs", "src/io/stl.rs", "src/io/ply/load.rs", "src/io/ply/iterators.rs", "src/io/ply/iterators_internal.rs", "src/io/ply/header.rs", "src/io/utils.rs", "src/io/byte_reader.rs"],
     [("line numbers", "WithLineInfo, LineInfoResult, i_line of every iterator")],
     [H("h_line%d" % k, FMT[k], "one file, any byte replaced by any other, loaded or iterated", covers=[1, 2]) for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12)] + [H("h_lf%d" % k, FMT[k] + ", failing readers", "failing at any byte, 1, 7 or all bytes per call", covers=[1]) for k in range(10)] + [H("h_show_line", "printed errors", "line numbers 0..30", covers=[1])],
     ["bytes 85 and A0 (hexadecimal), which are white space in Latin-1 only, are outside; faces a mesh refuses are reported without a line"])

# ---- bigger instances: many elements, of which one (or few) is free ----
def more(pid, quant, *hs):
    SPEC[pid]["harnesses"] += list(hs)
    SPEC[pid]["quant"] += "; " + quant
HUGE = dict(args=["-I", "2000000000"], t=250)

more("C01", "one arbitrary operation between two runs of 40 stored values; conversions of 70 elements",
     H("h_idx_many", "one operation among many values", "40 values stored, one arbitrary operation, 40 more values", covers=[1, 2, 3, 12, 14, 18]), H("h_idx_from_many", "conversions of many values", "70 elements of each width, one arbitrary", covers=[1]))
more("C02", "meshes of 300 and of 65538 vertices with one edit of arbitrary ids",
     H("h_edit_large", "edits of a large mesh", "300 vertices, arbitrary ids", covers=[1, 2]), H("h_edit_huge", "edits of a mesh with more than 65536 vertices", "65538 vertices, arbitrary ids", covers=[1, 2], args=HUGE["args"], t=250))
more("C03", "grid meshes of many faces with any vertex, face and edge id",
     H("h_he_large", "HalfEdge of a grid mesh", "grids of 12 or more faces", covers=[1, 2]), H("h_sm_large", "SearchableMesh of a grid mesh", "grids of 12 or more faces", covers=[1, 2]))
more("C04", "soups of many faces with one free corner", H("h_heal_large", "many faces", "soup of many faces, one free corner", covers=[1, 2, 3]))
more("C05", "grid meshes of many faces", H("h_sub_large", "many faces", "grid meshes, one free coordinate", covers=[1]))
more("C06", "grid meshes of many faces", H("h_clus_large", "many faces", "grid mesh, one free vertex", covers=[1, 2]))
more("C07", "a planar grid of eight faces in all 256 orientations", H("h_uni_grid", "planar grid of eight faces", "all 256 orientation patterns, four planes", covers=[1]))
more("C10", "clouds of 24 points", H("h_kd_many", "k nearest of many points", "24 points, one coordinate free, k 1, 6, 30", covers=[1]), H("h_kd_many_query", "ranges of many points", "24 points, one coordinate free", covers=[1, 2]), H("h_kd_many_content", "content", "24 points, one coordinate free", covers=[1]))
more("C11", "clouds of 16 and 24 points with one free coordinate", H("h_oct_many", "many points", "16 or 24 points, one free coordinate", covers=[1]))
more("C12", "trees and grids of many elements", H("h_aabb_many", "trees of many elements", "one element free", covers=[1, 2]), H("h_cluster_many", "grids of many elements", "one element free", covers=[1, 2]))
more("C13", "lists of many filters", H("h_allany_many", "FilterAll and FilterAny of many", "many filters, one arbitrary truth table", covers=[1]))
more("C14", "collections of many elements", H("h_view_many", "views on many elements", "40 or more elements, views over many indices", covers=[1, 2]), H("h_union_many", "unions of large views", "many indices", covers=[1]), H("h_ra_many", "filtering many elements", "many elements", covers=[1]))
more("C15", "outliers among many points", H("h_foutlier_many", "outliers among many points", "many points, one free coordinate", covers=[1, 2]))
more("C21", "sequences, merges, means and lengths of up to 40 points", H("h_seq_many", "sequences of many points", "one operation among 40 points", covers=[1, 2]), H("h_merge_many", "merging many points", "up to 40 points each", covers=[1]), H("h_cog_many", "center of gravity of many points", "up to 40 points", covers=[1]), H("h_length_many", "length of many points", "up to 40 points", covers=[1]))
more("C22", "sorting of 30 points, hulls of 14, polylines of 16, one coordinate free", H("h_sort_many", "sorting many points", "30 points, one free coordinate -2..38", covers=[1]), H("h_hull_many", "hulls of many points", "9 or 14 points, one free coordinate -5..35", covers=[1]), H("h_dp_many", "simplifying longer lines", "9 or 16 points, one free", covers=[1, 2, 3]))
more("C23", "polygons of many vertices", H("h_poly_many", "polygons of many vertices", "up to 40 vertices, any ids", covers=[1, 2]), H("h_length_many", "length of long polygons", "up to 40 vertices", covers=[1]))
more("C25", "closest of many boxes", H("h_closest_many", "closest of many boxes", "many boxes, one free", covers=[1]))
BIG = [H("h_big%d" % k, FMT[k] + ", 300 vertices", "files of 300 vertices, one digit anywhere free", covers=[1]) for k in range(17)]
for pid, ks in dict(C27=[0, 1, 2, 3], C28=[4, 5, 6, 7], C33=[8], C29=[9, 10], C30=[11, 12, 13, 14], C32=[15, 16]).items():
    hg = [k for k in ks if k in (1, 2, 4, 6, 10, 11, 13, 15, 16)]
    more(pid, "files of 300 vertices" + (" and of more than 65536" if hg else "") + " with one digit free", *[BIG[k] for k in ks],
         *[H("h_huge%d" % k, FMT[k] + ", more than 65536 vertices", "files of 65600 vertices (stl: 65537 facets), one digit free", covers=[1], args=HUGE["args"], t=250) for k in hg])
more("C31", "meshes and clouds of many vertices", H("h_w_many", "many vertices", "hundreds of vertices, one free", covers=[1, 2]))
more("C34", "vectors of many points", H("h_sort_vec_many", "sorting many points", "one free coordinate", covers=[1]))
more("C35", "clouds of many points", H("h_comp_many", "clouds of many points", "one free coordinate", covers=[1]))
more("C36", "paths and counts of many points", H("h_long_linear", "linear, long paths", "many points, one free coordinate", covers=[1, 2]), H("h_long_cosine", "cosine, long paths", "many points, one free coordinate", covers=[1, 2]))

# ---- the same at other magnitudes: coordinates are multiples of 2^-60 or 2^40 (few symbols: also of 2^24 + 1) ----
U = "the same in units of 2^-60 and of 2^40"
def mags(pid, *hs): more(pid, U, *[H(n, what + ", other magnitudes", "as %s, in units of 2^-60 and 2^40" % what, covers=c) for n, what, c in hs])
mags("C04", ("h_heal_mag", "healing", [1, 2, 3]))
more("C04", "one corner coordinate any finite double", H("h_heal_any", "a corner anywhere", "two faces, one coordinate any finite double", covers=[1, 2, 3]))
mags("C05", ("h_sub_mag", "subdividing", [1, 2, 3]))
mags("C06", ("h_clus_mag", "clustering", [1, 2]))
mags("C07", ("h_uni_mag", "planar strips", [1, 2]))
mags("C09", ("h_bb_mag2", "boxes of the plane", [1, 2, 3, 4, 9]), ("h_bb_mag3", "boxes of space", [1, 2, 3, 4, 9]), ("h_bb_mag_dist", "distances", [1]))
mags("C10", ("h_kd_mag_near", "nearest points", [1]), ("h_kd_mag_many", "k nearest of many", [1]), ("h_kd_mag_range", "ranges", [1, 2]), ("h_kd_mag_content", "content", [1]))
mags("C11", ("h_oct_mag", "octrees", [1, 2]), ("h_oct_mag3", "octrees in every axis", [1]))
mags("C12", ("h_aabb_mag", "trees", [1, 2]), ("h_cluster_mag", "grids", [1, 2]))
mags("C15", ("h_f_mag", "boxes", [1, 2]), ("h_f_mag_sphere", "circles and spheres", [1, 2]))
mags("C16", ("h_arith_mag", "arithmetic", [1]))
more("C16", "coordinates that are any double for sums, differences, products and quotients", H("h_arith_any", "arithmetic of any doubles", "all coordinates and the factor any 64 bits; divisors 3, -0.1, 1e100", covers=[1]))
mags("C17", ("h_dist_mag", "squared distances", [1, 2]), ("h_root_mag", "distances", [1]), ("h_norm_mag", "directions", [1, 2]))
mags("C20", ("h_mat_mag", "matrices", [1]))
mags("C21", ("h_cog_mag", "means and lengths", [1, 2]), ("h_pcs_mag", "scaling and transforming", [1]))
mags("C22", ("h_hull_mag", "hulls", [1, 2, 3]), ("h_dp_mag", "simplified lines", [1, 2, 3]))
mags("C24", ("h_segs_mag", "segments", [1, 2]), ("h_len_mag", "lengths", [1]), ("h_move_mag", "moving, extruding and sizing", [1, 2]))
mags("C25", ("h_ray_mag", "rays and triangles", [1, 2]), ("h_ray_mesh_mag", "rays and meshes", [1, 2]), ("h_closest_mag", "closest boxes", [1, 2]), ("h_normal_mag", "normals", [1, 2]))
mags("C26", ("h_coll_mag", "boxes", [1, 2]), ("h_coll_face_mag", "faces and boxes", [1, 2]), ("h_coll_faces_mag", "faces", [1, 2]), ("h_coll_exact_mag", "faces judged exactly", [1, 2]))
mags("C35", ("h_comp_mag", "compression", [1]))
mags("C36", ("h_interp_mag", "paths", [1, 2]))
mags("C39", ("h_shape_mag", "shapes", [1]))
mags("C40", ("h_mesh_mag", "meshes", [1, 2]))
