"""The property catalogue; `python3 -m vp.catalog` regenerates properties.jsonl and MANIFEST.json from it."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], na=na, note=note))


prop("C01", "Index containers never lose or truncate a number",
     "An index container always reads back, in order, exactly the numbers that were stored, whatever mix of construction, pushes, overwrites, reservations, clones and explicit width upgrades happened before. The memory-saving container may widen its storage when a larger number arrives, but never narrows it, always exposes exactly one storage width, and starts at the narrowest width that fits the numbers it was built from. Writing one element never changes another.",
     ["histories", "inputs"], "all call histories and all values, including those on both sides of every 8/16/32-bit boundary",
     "no test touches the index containers; promotion bugs need a value at a width boundary arriving after smaller values were stored",
     ["src/dynamic_precision_index_vec.rs", "src/u32_index_vec.rs", "src/impls/vec.rs", "src/is_index_container.rs"],
     [("promotion u8->u16->u32->usize", "src/dynamic_precision_index_vec.rs ensure_supported/upgrade_to_*"), ("single-sourced iteration", "src/is_index_container.rs")],
     ["every public call on the container"], note="numbers come from a pool of 11 boundary values; histories exhaustive up to 3 calls, random up to 60")
prop("C02", "Mesh edits keep ids stable and reject invalid connections without effect",
     "Ids returned when adding vertices or faces are their positions and keep denoting the same vertex or face for the whole life of the mesh; reading a face or vertex always returns what was last written, and ids that were never handed out read as absent. Connecting vertices succeeds only for three different existing vertices; a rejected connection or vertex change reports an error and leaves the mesh unchanged. This holds for every combination of vertex and index container.",
     ["histories", "configurations"], "all edit histories, on all vertex-container / index-container combinations",
     "one test runs one fixed history on one container combination",
     ["src/mesh_3d.rs", "src/face3.rs", "src/point_cloud_3d_f32.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs"],
     [("id checks", "src/mesh_3d.rs try_add_connection/change_vertex"), ("positional topology", "src/mesh_3d.rs face_vertex_ids")],
     ["every public call on the mesh, full state read back after each"])
prop("C03", "Half-edge navigation agrees with the faces of the mesh",
     "For every mesh, each edge's tail, head, face, next and previous edge are exactly those given by the order of the corners of its face, and ids out of range are reported as absent. If some face contains the same edge in the opposite direction, the twin of an edge is such an opposite edge, otherwise it has none; on manifold meshes the twin relation is symmetric.",
     ["inputs"], "all face lists (manifold, with boundary, non-manifold, several components)",
     "no test uses the half-edge structure at all",
     ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"],
     [("twin search", "src/half_edge.rs HalfEdge::new"), ("edge = 3*face+corner numbering", "src/half_edge.rs next/prev/face")],
     ["tail/next/prev/twin/face of HalfEdge and SearchableMesh"])
prop("C04", "Mesh neighbourhood queries return exactly the incident edges and faces",
     "For every vertex of a mesh, including isolated ones, the edges starting at it, ending at it or touching it and the faces around it are exactly those the face list implies, each reported once; for every face the neighbours over edges and over vertices are exactly those sharing an edge or a corner. Query results are appended to what the caller's list already holds, and ids out of range give an error.",
     ["inputs"], "all face lists and all vertex, edge and face ids, in range or not",
     "no test uses the queries; isolated vertices and boundary edges are the cases that go wrong",
     ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"],
     [("vertex -> outgoing edges table", "src/half_edge.rs vertices_start_edges"), ("neighbour queries", "src/is_searchable_mesh.rs")],
     ["edges_originating/ending/all, faces, face_edge_neighbours, face_vertex_neighbours"])
prop("C05", "Healing and vertex clustering keep the surface and remove only what they should",
     "Healing a mesh leaves no two equal vertices, no face with repeated corners and no repeated face; every non-degenerate face of the input survives once with its corners at the same positions and in the same order. Clustering vertices by a grid maps every surviving face to the cluster representatives of its corners and drops exactly the faces that collapse or then repeat an earlier face.",
     ["inputs"], "all meshes, with any pattern of duplicate vertices, duplicate and degenerate faces",
     "no test calls these algorithms",
     ["src/heal_mesh.rs", "src/cluster_vertices.rs", "src/utils.rs"],
     [("duplicate packing", "src/heal_mesh.rs / src/utils.rs"), ("grid clustering", "src/cluster_vertices.rs")],
     ["resulting vertices and faces"])
prop("C06", "Unifying face orientation only flips faces and makes flat patches agree",
     "Unifying the orientation of faces keeps all vertices, the number of faces and the corner set of each face; it only ever reverses the orientation of a face.  If the faces can be oriented so that all touching ones look to the same side, as in a flat or gently curved patch, they end up so.",
     ["inputs"], "all manifold meshes with arbitrarily flipped faces",
     "no test calls it",
     ["src/unify_faces.rs"], [("breadth-first walk over neighbours", "src/unify_faces.rs")], ["resulting faces"])
prop("C07", "Linear subdivision splits every face into four that tile it",
     "Linear subdivision keeps all original vertices and ids, adds exactly one vertex in the middle of each distinct undirected edge (shared by all faces using that edge) and replaces each face by four faces of the same orientation that tile it.",
     ["inputs"], "all meshes, including shared, boundary and non-manifold edges",
     "no test calls it",
     ["src/subdivide.rs"], [("midpoint cache per undirected edge", "src/subdivide.rs")], ["resulting vertices and faces"])
prop("C08", "Polygons are always one closed loop",
     "A polygon with n vertices has n segments, segment i joins vertex i to vertex i+1 and the last one returns to the first; its length is that of the closed loop. Reads and edits with ids out of range are reported and change nothing.",
     ["histories"], "all edit histories and all ids", "no test uses polygons",
     ["src/polygon_2d.rs", "src/polygon_3d.rs"], [("wrap around", "src/polygon_2d.rs segment_vertex_ids")], ["segments, vertices, length after each edit"])
prop("C09", "Views keep exactly the selected elements in order, or fail without effect",
     "Applying a view to any collection keeps exactly the selected elements in their original order, and a full view keeps everything. If the view names an index the collection does not have, an error is reported and the collection is unchanged. Merging views gives the view that selects what either selects.",
     ["histories", "configurations"], "all view algebra histories over all view-buildable collections",
     "tests only apply views produced by a few filters to point clouds",
     ["src/view.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
     [("bounds check before mutation", "apply_view of each collection"), ("union", "src/view.rs")], ["collection content after each operation"])
prop("C10", "Filter combinators follow boolean logic for every nesting",
     "For every nesting of filter combinators over arbitrary base filters, an element is allowed exactly when the corresponding boolean expression is true: all means every, any means at least one, and/or/xor/negate are the logical connectives, outer-inner means allowed by the outer and not by the inner, allow and deny are constant.",
     ["inputs", "configurations"], "all combinator trees and all truth assignments of the base filters",
     "each combinator is tested once on one point cloud",
     ["src/filter_all.rs", "src/filter_any.rs", "src/filter_and.rs", "src/filter_or.rs", "src/filter_xor.rs", "src/filter_negate.rs", "src/filter_outer_inner.rs", "src/filter_allow.rs", "src/filter_deny.rs"],
     [("is_allowed of each combinator", "src/filter_*.rs")], ["is_allowed"])
prop("C11", "Collection filters narrow a view to exactly the matching elements",
     "Running an element filter over a collection narrows the current view to exactly those already selected elements that pass; requiring all of several collection filters keeps what every one keeps, requiring any of them keeps what at least one keeps. Elements not in the view before are never added, and positions beyond the end of the collection do not pass.",
     ["histories", "inputs"], "all chains of collection filters, starting from full and restricted views",
     "tests run each collection filter once from a full view with filters that keep almost everything",
     ["src/filter_random_accessible.rs", "src/filter_all_random_accessible.rs", "src/filter_any_random_accessible.rs", "src/filter_outlier_3d.rs"],
     [("view narrowing", "src/filter_random_accessible.rs"), ("union of partial views", "src/filter_any_random_accessible.rs")], ["resulting view"])
prop("C12", "Geometric filters accept exactly the points of their region, edges included",
     "Box, circle and sphere filters allow exactly the points inside or on the boundary of their region, for every position and size, and report the region they were built with; the outlier filter keeps exactly the points that have at least the requested number of points within its search distance.",
     ["inputs"], "all regions and points on a grid fine enough to contain boundary points",
     "tests filter two fixed clouds; boundary points are not asserted",
     ["src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs", "src/filter_outlier_3d.rs", "src/sphere.rs", "src/circle.rs", "src/box_2d.rs", "src/box_3d.rs"],
     [("inclusive comparisons", "src/filter_box_*.rs, filter_circle.rs, filter_sphere.rs")], ["is_allowed, filter, accessors"])
prop("C13", "Bounding boxes enclose exactly, and all box predicates are consistent",
     "The bounding box of a set of points is the smallest axis-aligned box around them; merging boxes gives the smallest box around both. Containment, nesting, overlap and plane-crossing answers agree with the box corners, overlap is symmetric, and boxes without extent or with swapped corners are rejected.",
     ["inputs"], "all boxes and point sets on a grid with touching, nested, disjoint and degenerate configurations",
     "tests check a handful of fixed boxes",
     ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/has_bounding_box_2d.rs", "src/has_bounding_box_3d.rs", "src/point_cloud_3d_f32.rs"],
     [("corner arithmetic", "src/bounding_box_*.rs")], ["all public box operations"])
prop("C14", "Point collections behave like sequences under every edit history",
     "Pushing, inserting, overwriting, appending, merging, sorting along an axis and moving point collections always leaves exactly the elements an ideal sequence would hold; sorting only reorders and never loses elements. An insertion beyond the end is reported and changes nothing.",
     ["histories", "configurations"], "all edit histories over all collection types",
     "tests exercise a few calls on short fixed clouds",
     ["src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/point_cloud_3d_f32.rs", "src/utils.rs"],
     [("bounds check on insert", "IsRandomInsertible impls"), ("merge/append", "consume/combine/append_ra")], ["collection content after each operation"])
prop("C15", "Nearest-neighbour search returns the true nearest points",
     "A nearest-neighbour search tree built from any set of points holds exactly those points, and a search for the k nearest points returns min(k, number of points) of the stored points whose distances are the k smallest, in order of distance; the single nearest point is one at the smallest distance.",
     ["inputs"], "all point sets (duplicates, collinear, equal coordinates), all query points and all k",
     "no test uses the tree; wrong pruning needs particular relative positions",
     ["src/kd_tree.rs", "src/is_k_nearest_searchable.rs"], [("branch pruning", "src/kd_tree.rs knearest/nearest")], ["query results"])
prop("C16", "Sphere and box searches return exactly the points in range",
     "Searching a spatial tree for points within a sphere or a box returns exactly the stored points inside or on the boundary of the searched region, each as often as it was stored, and appends them to the caller's result.",
     ["inputs"], "all point sets, query regions and radii, including points exactly on the boundary",
     "no test uses the range searches",
     ["src/kd_tree.rs", "src/is_sphere_searchable.rs", "src/is_box_3d_searchable.rs"], [("sub tree pruning", "src/kd_tree.rs in_sphere/in_box")], ["query results"])
prop("C17", "An octree keeps every distinct point",
     "An octree built from points that span a volume holds each distinct point exactly once, including points on the borders between its cells and on its hull, and returns them all when flattened; collecting down to a limited depth returns one centre of gravity for each cut-off cell.",
     ["inputs"], "all point sets, including those with points on cell borders",
     "no test uses the octree; points on cell borders are the lossy case",
     ["src/oc_tree.rs", "src/is_oc_tree.rs", "src/is_tree_3d.rs"], [("partition into octants", "src/oc_tree.rs build_subnode/calc_sub_min_max")], ["size, to_pointcloud, collect"])
prop("C18", "2D collision tree never misses a colliding element",
     "For every set of boxes, tree depth and leaf size, querying the 2D collision tree with a box or a line x=c or y=c reports every element whose bounding box collides with the query, and collision queries restricted to candidates never report elements outside the visited cells' superset: testing the reported candidates gives exactly the elements that brute force finds.",
     ["inputs", "configurations"], "all box sets, tree depths, leaf sizes and queries",
     "no test uses the tree",
     ["src/aa_bb_tree_2d.rs"], [("split and candidate descent", "src/aa_bb_tree_2d.rs")], ["query results as sets"])
prop("C19", "3D collision tree answers like testing every element",
     "For every set of elements, tree depth and leaf size, box and plane queries of the 3D collision tree report exactly the elements whose bounding box overlaps the queried box or is crossed by the plane; ray queries report every element whose box the ray runs through and none whose box the line stays away from. The any-collision answers equal those of a plain list of the same elements; only for bodies that merely touch may they differ, and boxes that merely touch do not collide.",
     ["inputs", "configurations"], "all element sets, tree depths, leaf sizes and queries",
     "no test uses the tree",
     ["src/aa_bb_tree_3d.rs", "src/is_collider_container_3d.rs", "src/impls/vec.rs", "src/has_colliders_3d.rs", "src/functions.rs"], [("split and candidate descent", "src/aa_bb_tree_3d.rs"), ("ray/box test", "src/functions.rs intersection")], ["query results as sets"])
prop("C20", "The grid cluster index offers every candidate that could match",
     "A grid cluster over elements offers, for every position, at least every element whose bounding box contains that position in x and y (border included), and never an element that is not stored.",
     ["inputs", "configurations"], "all element sets, grid sizes and query positions", "no test uses it",
     ["src/cluster.rs"], [("cell range computation", "src/cluster.rs")], ["candidates as sets"])
prop("C21", "The convex hull is the smallest convex polygon around the points",
     "The 2D convex hull of any points returns exactly the corner points of the smallest convex polygon enclosing them, each once and in order around the polygon, whatever the order of the input and however many points share coordinates or lie on its edges.",
     ["inputs"], "all finite point sets in any order, including collinear points and equal coordinates",
     "one test with one point set in which no two hull candidates share an x coordinate in the wrong order",
     ["src/convex_hull_2d.rs", "src/utils.rs"], [("lexicographic sort", "src/convex_hull_2d.rs / sort_vec_2d_x"), ("turn test", "src/convex_hull_2d.rs")], ["hull points"])
prop("C22", "Line simplification keeps the ends and stays within the tolerance",
     "Simplifying a polyline returns a subsequence of its points that starts and ends with its first and last point. Every point left out lies within the tolerance of the line through the two kept points around it (of that point, if the two coincide). If no point is farther than the tolerance from the line through both ends only the ends remain, otherwise a farthest point is kept and both parts are simplified in the same way.",
     ["inputs"], "all polylines on a grid (vertical, repeated, closed) and all tolerances",
     "no test calls it",
     ["src/douglas_peucker_2d.rs"], [("recursive split", "src/douglas_peucker_2d.rs")], ["resulting points"])
prop("C23", "Colliders collide exactly when their bodies overlap",
     "Two colliders built from boxes, upright or turned around the z axis, collide exactly when the bodies overlap (bodies that merely touch may be reported either way, except that two bounding boxes that merely touch do not collide). A face that cuts into a body or crosses another face collides with it, and a face kept apart by a side of the body, by its own plane or by the plane that stands upright on one of its sides does not. An object made of several colliders collides exactly when one of its colliders does, the answer does not depend on the order of the operands, and the bounding box of a collider encloses it.",
     ["inputs"], "all pairs of bodies on a grid, nested, touching, crossing and separated", "no test uses colliders",
     ["src/sat_collider.rs", "src/is_sat_object.rs", "src/has_colliders_3d.rs", "src/collider_3d.rs", "src/box_unaligned_3d.rs", "src/tri_face_3d.rs"], [("projection intervals", "src/sat_collider.rs"), ("corner arithmetic", "src/box_unaligned_3d.rs")], ["collides_with, bounding_box"])
prop("C24", "Compressed point clouds restore every point within the cell size",
     "Compressing a point cloud and decompressing it returns the same number of points in the same order, each coordinate within one quantisation step of the original and inside the original bounding box.",
     ["inputs"], "all point clouds on a grid", "no test uses it",
     ["src/compressed_point_cloud_3d.rs", "src/compressed_point_3d.rs"], [("unit arithmetic", "src/compressed_point_cloud_3d.rs")], ["restored points"])
prop("C25", "XY and XYZ readers return every point and stop at the first bad line",
     "Reading a point-per-line file that uses any one of the supported delimiters throughout yields, in order, one point per line with exactly the written coordinates; the first line that does not hold enough numbers yields one error naming that line, after which nothing more is read. Repeated delimiters count as one; the kind of line ending, trailing blanks, a missing final line end and additional columns make no difference.",
     ["inputs"], "all files built from good and bad lines, delimiters and line ends", "tests load two fixed well-formed files",
     ["src/io/xy.rs", "src/io/xyz.rs", "src/io/utils.rs"], [("delimiter detection", "src/io/utils.rs"), ("line fetch", "src/io/utils.rs fetch_line")], ["iterator items, load results"])
prop("C26", "PTS reader returns exactly the points announced by each block",
     "Reading a PTS file yields the points of all its blocks in order: each block is a count followed by that many points, blank lines between are skipped. A bad count, a bad point or a block that ends early yields one error and nothing after it.",
     ["inputs"], "all files built from good and bad counts, points and blank lines", "no test reads PTS",
     ["src/io/pts.rs"], [("count bookkeeping", "src/io/pts.rs")], ["iterator items"])
prop("C27", "PTX reader applies each block's transformation to exactly its points",
     "Reading a PTX file yields, for each block, rows times columns points, each transformed by the matrix given in that block's header. A bad header, matrix line or point, or a block that ends early, yields one error and nothing after it.",
     ["inputs"], "all files built from good and bad header, matrix and point lines, one or more blocks", "no test reads PTX",
     ["src/io/ptx.rs"], [("block state", "src/io/ptx.rs")], ["iterator items"])
prop("C28", "PSL reader returns every point of every line of every pass",
     "Reading a PSL file yields the points of all lines of all passes in file order, as announced by the counts, and loading it collects all of them. Counts of zero or less announce nothing. A file that ends early yields one error and nothing after it.",
     ["inputs"], "all files built from good and bad header, pass, line and point records", "no test reads PSL",
     ["src/io/psl.rs"], [("nested counters", "src/io/psl.rs")], ["loaded points"])
prop("C29", "G-code reader tracks position and positioning mode over every command history",
     "Reading G-code yields one position per movement command: in absolute mode the given axes replace the current ones, in relative mode they are added, axes not given stay, and setting the position (G92) changes it without regard to the mode. Movements are G1, G2 and G3 with at least one axis (G92 with an axis also yields the new position). Switching modes takes effect for all following commands however the command line is written; comments (a word starting with a semicolon) and other commands have no effect and a malformed axis number in a movement yields one error and nothing after it.",
     ["histories", "inputs"], "all command histories", "no test reads G-code",
     ["src/io/gcode.rs"], [("mode and position state", "src/io/gcode.rs")], ["iterator items"])
prop("C30", "OBJ reader returns vertices and faces as written and rejects impossible faces",
     "Reading an OBJ file yields exactly its vertices and triangles in order, with vertex numbers converted to the library's zero-based ids whichever of the index notations is used; other records are skipped. A vertex or face record (its keyword followed by a blank) that cannot be interpreted, including a vertex number of zero, yields one error and nothing after it. Faces of more than three corners are not covered.",
     ["inputs"], "all files built from good, bad and ignored records", "no test reads OBJ",
     ["src/io/obj.rs"], [("record dispatch", "src/io/obj.rs")], ["iterator items, load results"])
prop("C31", "OFF reader returns exactly the announced vertices and triangles",
     "Reading an OFF file yields exactly the announced number of vertices and faces in order, ignoring comments and blank lines; the leading OFF line may be missing and what follows the last face is ignored. A bad count, vertex or face, a face that is no triangle, or an early end yields one error and nothing after it.",
     ["inputs"], "all files built from good and bad lines", "no test reads OFF",
     ["src/io/off.rs"], [("phase counters", "src/io/off.rs")], ["iterator items, load results"])
prop("C32", "PLY reader interprets every supported header layout",
     "Reading a PLY file yields exactly the announced vertices and faces for ASCII, little and big endian files alike, whatever the order, number types and extra properties declared in its header. A header or record that is malformed or not supported, or an early end, yields one error and nothing after it.",
     ["inputs", "configurations"], "all header layouts (property orders, types, extra properties before, between and after) times encodings times data, with truncations",
     "one test reads one file",
     ["src/io/ply/"], [("header interpretation", "src/io/ply"), ("per-format iterators", "src/io/ply")], ["iterator items, load results"])
prop("C33", "STL reader returns every facet in ASCII, binary and autodetected files",
     "Reading an STL file yields exactly its facets with normals, in order, whether ASCII or binary and whether or not the format is told; loading with unique vertices merges exactly equal vertices and drops exactly the facets that thereby degenerate together with their normals. Malformed or truncated files yield an error rather than wrong facets. A facet without readable normal gets (0,0,1); a binary file whose header starts with 'solid' must be told to be binary.",
     ["inputs", "configurations"], "all facet sequences, formats and malformed variants", "one test saves a mesh",
     ["src/io/stl.rs"], [("format detection", "src/io/stl.rs"), ("facet state", "src/io/stl.rs")], ["iterator items, load results"])
prop("C34", "LAS reader returns every point record of every supported layout",
     "Reading a LAS file yields exactly the announced number of points, each coordinate scaled and offset as its header says, for every supported version, point format and record length. Headers that announce something impossible and truncated files yield an error, never a wrong point.",
     ["inputs", "configurations"], "all header variants and record counts", "no test reads LAS",
     ["src/io/las.rs"], [("header interpretation", "src/io/las.rs")], ["iterator items"])
prop("C35", "What is saved is what is loaded back",
     "Saving a point cloud or mesh and loading it again, in any format that supports both, returns the same points and faces in the same order, in ASCII and binary, with or without colours. Saving with a colour list of the wrong length is reported and must not pretend success.",
     ["inputs", "configurations"], "all clouds and meshes, all savers", "tests compare one saved file",
     ["src/io/xy.rs", "src/io/xyz.rs", "src/io/ply/", "src/io/stl.rs"], [("savers", "src/io")], ["loaded data"])
prop("C36", "Readers end for good after the end or the first error",
     "Every file reader yields zero or more items, then at most one error, and from then on only reports the end, however often it is asked again; the error carries the number of the line it was found on.",
     ["histories", "inputs"], "all files and all numbers of further calls after the end", "no test calls a reader again after its end",
     ["src/io/"], [("is_done flags", "src/io/*.rs")], ["iterator calls after end/error"])
prop("C37", "No input file makes a reader panic, hang or invent data",
     "Whatever bytes a file contains, every reader terminates with items, the end or an error; it never panics, aborts or runs forever, and every face it reports comes from the file.",
     ["inputs", "fault_sequences"], "arbitrary corruptions (deletions, truncations, replacements, huge counts) of well-formed files of all formats",
     "tests read well-formed files only",
     ["src/io/"], [("checked parsing", "src/io")], ["outcome of iterating"])
prop("C38", "Reading does not depend on how the bytes arrive, and read faults surface",
     "A reader's results are the same however the underlying source splits the bytes into chunks. When the source fails at some byte, everything completed before it is returned as in the fault-free run, followed by exactly one error.",
     ["schedules", "fault_sequences"], "all chunkings and all fault positions", "tests read from files without faults",
     ["src/io/"], [("buffered line and byte reading", "src/io/utils.rs, src/io/byte_reader.rs")], ["iterator items under a chunking/failing source"])
prop("C39", "Savers write everything or report the failure",
     "When the destination accepts only part of the data at a time the saved bytes are still complete, and when it fails at any point the saver reports an error instead of success.",
     ["schedules", "fault_sequences"], "all partial-write schedules and all fault positions", "tests write to files without faults",
     ["src/io/"], [("write / write_all", "savers in src/io")], ["bytes at the destination, returned result"])
prop("C40", "Ray casting reports exactly what the ray passes through, closest first",
     "A ray that passes through the interior of a bounding box or triangle in front of its start is reported, at the point where it enters; one that misses, or only meets it behind its start, is not. A mesh reports the hits of its faces in face order after what was collected before. Of a collection, exactly the elements whose box is hit are visited, in order, and the closest of them is returned with its position and index; elements without a bounding box are ignored. (Rays that merely graze an edge or slide along a side, rays from within a box, and degenerate triangles are left open.)",
     ["inputs"], "all rays, boxes, triangles, meshes and collections, at every scale and place", "no test casts a ray",
     ["src/functions.rs", "src/ray_3d.rs", "src/line_3d.rs"],
     [("slab test", "src/functions.rs intersection"), ("triangle test", "src/functions.rs intersection_ray_triangle"), ("closest search", "src/functions.rs closest_intersecting*")],
     ["reported points, elements and indices"])
prop("C41", "Transformations move every part of an object and nothing else",
     "Moving, scaling, rotating, resizing, centering and applying a matrix to a point, cloud, polygon, mesh, segment, line, ray, box or ball changes every coordinate as the operation says, in order, and leaves number, order and connections of the elements alone; composed matrices act like the operations one after another, and bounding box and center of gravity agree with the changed points after every history of operations. Things without a bounding box are left unchanged by operations relative to one.",
     ["histories", "inputs"], "all histories of transformations over all objects", "tests apply single matrices to single points",
     ["src/matrix3.rs", "src/matrix4.rs", "src/matrix3_pipe.rs", "src/matrix4_pipe.rs", "src/functions.rs", "src/is_matrix4_transformable.rs", "src/is_movable_3d.rs"],
     [("matrix products", "src/matrix4.rs"), ("operation order", "src/matrix4_pipe.rs"), ("centering and resizing", "src/functions.rs")],
     ["coordinates, bounding box, center of gravity after each operation"])
prop("C42", "Vector arithmetic, lengths, angles and signed numbers are exact",
     "Sums, differences, products, distances, lengths, normals, angles between vectors, projections and coordinate access (also by dimension) of points and directions give the mathematical value, and impossible ones (length zero, wrong dimension) an error; directions have length one. A direction-field filter accepts exactly the elements whose direction deviates at most by the tolerance. Numbers that promise a sign keep it and are refused otherwise. Points are read from text exactly if it has the right number of numbers, and what is written is read back unchanged.",
     ["inputs"], "all vectors, including parallel, opposite and zero ones, and all finite numbers as text", "tests sample a few vectors",
     ["src/is_2d.rs", "src/is_3d.rs", "src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/positive.rs", "src/non_negative.rs", "src/functions.rs", "src/filter_direction_field_2d.rs", "src/filter_direction_field_3d.rs", "src/plane_3d.rs"],
     [("angles", "src/is_3d.rs rad_to"), ("normals", "src/functions.rs normal_of_face"), ("normalisation", "src/norm_3d.rs")],
     ["returned values and errors"])
prop("C43", "Sampled curves lie on the curve, run end to end and have the asked length",
     "Linear and cosine interpolation return the number of points asked for, evenly spaced along the path from its first to its last point, also if neighbouring points coincide; Bezier interpolation returns the curve's points at i/n also for many control points; arcs and involutes run from the start angle to the end angle, ellipses start at the end of their first half axis, in equal steps; rectangles consist of their four corners around the center. Too few base points are an error.",
     ["inputs"], "all paths, counts, centers, sizes and angles", "tests compare one path of four points",
     ["src/interpolate_2d.rs", "src/factory_2d.rs"],
     [("distance along the path", "src/interpolate_2d.rs"), ("binomial coefficients", "src/interpolate_2d.rs"), ("angle steps", "src/factory_2d.rs")],
     ["returned point cloud"])
prop("C44", "What is printed is what there is, and errors can be told apart",
     "Printing a point, line, ray, segment, polygon, point cloud, face, index or number writes all its coordinates (or indices) in order in its one form; the text a point or a cloud writes of itself reads back as the same coordinates, a cloud's text is one point a line, empty lines aside, and anything else is refused; an error printed with line information names line number, cause and line; different errors of a format, and of the crate, read differently, and an error wrapped into the crate's error kind reads as itself.",
     ["inputs"], "all coordinates, indices, lines of text and errors", "tests print nothing",
     ["src/point_2d.rs", "src/point_cloud_3d.rs", "src/strong_types.rs", "src/io/types.rs", "src/result.rs"],
     [("printed forms", "fmt::Display of src/line_3d.rs"), ("texts of clouds", "src/point_cloud_3d.rs parse"), ("line information", "src/io/types.rs WithLineInfo")],
     ["returned strings and values"])
prop("C45", "Equal values are one value: equality, hashing, cloning and order agree",
     "Two points, directions, lines, rays, segments, planes, boxes, circles, spheres, bounding boxes, region filters, point clouds, polygons, meshes, half-edge structures, trees, matrices, views, faces, ids, colours or signed numbers compare equal exactly if all their parts do (+0 and -0 being one number); a clone equals its original; equal values hash alike, so a set holds each once. Ordering a value against another is antisymmetric and transitive and calls equal values equal: places go by their distance from the origin, ids, faces and colours by their numbers, and everything made of several parts by the first part that differs, so sorting any collection sorts it.",
     ["inputs"], "all pairs and lists of values of every kind, including negative zeros and nearly equal values", "tests compare a few points",
     ["src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/box_2d.rs", "src/box_3d.rs", "src/circle.rs", "src/sphere.rs", "src/positive.rs", "src/non_negative.rs", "src/face3.rs", "src/strong_types.rs", "src/utils.rs"],
     [("hash of a number", "src/utils.rs hash_f64"), ("order by distance", "impl Ord of src/point_3d.rs, src/box_3d.rs, src/sphere.rs"), ("derived comparisons", "src/point_cloud_3d.rs, src/half_edge.rs")],
     ["==, hash, HashSet size, cmp, sort"])


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    import sys
    sys.path.insert(0, root)
    from vp import props
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
    for p in P:
        i = p["id"]
        if i in props.CHECKS:
            m["checks"].append({
                "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "technique": "TLA+ specification, TLC; conformance by behaviour replay and trace validation",
                "level": "model_checking",
                "level_note": (p["note"] or "TLC explores the specification exhaustively within small bounds and at random beyond; every behaviour is executed on the real code.")
                + " Trusts TLC, the harness projection and the bounds stated in DESIGN.md."})
        else:
            m["not_applicable"].append({"property": i, "reason": p["na"] or "check not built yet"})
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
