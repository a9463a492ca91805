#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

HE = "src/halfedge/"
p("P01", "Every construction history leaves a consistent half-edge mesh",
  "After any sequence of valid mesh-building operations (adding vertices and edges, closing and removing faces, splitting edges, extruding, lofting, filling holes, inserting primitives, transforming) the mesh is structurally consistent: twins pair up, next and previous are inverse, every boundary walk is a closed loop of at least three edges with one common face (or none), and every stored edge, vertex and face reference points at a live, matching element. The mesh's own consistency check accepts such a mesh, and it rejects a mesh in which one of these links has been corrupted.",
  ["histories"], "all finite sequences of valid builder, surgery, operation and primitive calls on an initially empty mesh, for every index width",
  "The tests build a handful of fixed triangles, cubes and stars; the guarantee quantifies over all interleavings of operations (deleting and re-using elements in particular).",
  [HE+"mesh/check.rs", HE+"mesh/builder/halfedge.rs", HE+"mesh/builder/builder.rs", HE+"mesh/builder/semi.rs", "src/mesh/mesh/builder.rs"],
  [("structural self-check", HE+"mesh/check.rs"), ("edge insertion and relinking", HE+"mesh/builder/halfedge.rs"), ("edge/vertex deletion and subdivision", HE+"mesh/builder/semi.rs")],
  ["public id accessors of every vertex, edge and face", "the mesh's check()"])
p("P02", "Building operations change exactly what they document",
  "Each building operation (adding an isolated edge, attaching a vertex to a vertex or an edge, inserting an edge between existing vertices, closing a face, closing a hole, removing a face, inserting a loop or path) has exactly its documented effect: it returns the ids of the elements it created, those elements have the documented end points, face and payloads, and every other vertex, edge, face, boundary walk and payload is unchanged. The mesh therefore always equals a simple model holding its faces and holes as cyclic vertex lists with payloads.",
  ["histories"], "all finite sequences of valid builder calls, with distinguishable vertex, edge and face payloads",
  "Tests assert a few counts after fixed constructions; equality of the whole mesh with a model after every step of an arbitrary history is out of their reach.",
  [HE+"mesh/builder/halfedge.rs", HE+"mesh/builder/builder.rs", "src/mesh/mesh/builder.rs"],
  [("half-edge builder", HE+"mesh/builder/halfedge.rs"), ("generic builder", "src/mesh/mesh/builder.rs")],
  ["returned ids", "faces, boundary walks and payloads read back after each call"])
p("P03", "Element storage keeps ids stable, unique and counted",
  "Element storage behaves like a map from ids to payloads: a stored element keeps its id and payload until it is deleted, a new element never takes the id of a live one, deleted ids are gone until handed out again, and lengths, capacities, membership and iteration (ascending ids, live elements only) agree with that map. Counts, capacities, membership and consecutive-id queries of a mesh agree with its live elements after any history of insertions, deletions and clearing. Index types convert without loss and refuse (rather than wrap) what they cannot represent.",
  ["histories"], "all finite sequences of push, allocate, set, delete, clear and lookup operations, directly and through meshes",
  "No test deletes anything and re-inserts; id re-use only happens in multi-step histories.",
  ["src/util/deletable.rs", HE+"mesh/basics.rs", HE+"mesh/builder/semi.rs"],
  [("free-list storage", "src/util/deletable.rs"), ("mesh level queries", HE+"mesh/basics.rs")])
p("P04", "Traversals and adjacency queries agree with the connectivity",
  "Every traversal (edges around a face forward and backward, faces' vertices, edges, vertices and faces around a vertex, ids and twins) visits exactly the elements given by the connectivity, each once, in cyclic order, and terminates. Every adjacency query (shared edge, shared face, boundary tests, degrees, incoming/outgoing boundary edges, openness of the mesh, containment, same-face searches, vertex and triangle counts of a face) gives the answer that a brute-force reading of the links gives.",
  ["histories", "inputs"], "all consistent meshes (open, closed, with holes, several components, sparse ids) and all their elements and pairs of elements",
  "The tests query one triangle and one cube; boundary and multi-component configurations are never exercised.",
  [HE+"edge/iterator.rs", HE+"vertex/iterator.rs", HE+"vertex/mod.rs", HE+"edge/mod.rs", HE+"face/mod.rs", HE+"mesh/basics.rs", "src/mesh/edge/halfedge.rs", "src/mesh/vertex/halfedge.rs", "src/mesh/mesh/basics.rs"],
  [("edge walks", HE+"edge/iterator.rs"), ("vertex fan walk", HE+"vertex/iterator.rs"), ("mesh queries", "src/mesh/mesh/basics.rs")])
p("P05", "Flipping edges swaps each half-edge with its twin and nothing else",
  "Flipping an edge makes its two half-edges exchange their roles: each takes over the origin, face and neighbours the other had, while ids and payloads stay where they are. Every face and hole keeps its cyclic list of vertices, every other element is unchanged, the mesh stays consistent for any edge (isolated, dangling, between two faces, on a boundary) and any sequence of flips, and flipping the same edge twice restores the mesh exactly. Flipping a whole mesh flips every edge once.",
  ["inputs"], "all consistent meshes reachable by building, all their edges and all sequences of flips",
  "No test flips anything.",
  [HE+"edge/halfedge.rs", "src/mesh/mesh/halfedge.rs", "src/mesh/edge/halfedge.rs"],
  [("edge flip", HE+"edge/halfedge.rs"), ("mesh flip", "src/mesh/mesh/halfedge.rs")])
p("P06", "Splitting edges and removing faces is local surgery",
  "Splitting an edge by k vertices replaces it, in every face or hole that used it, by the chain through the new vertices in the right order and direction (k new vertices, k new undirected edges) and returns the half-edge that starts in the previous origin, leaving all other elements and the end points untouched. Removing a face turns its boundary into a hole with the same walk and leaves everything else untouched, and closing that hole again restores the face.",
  ["histories"], "all consistent meshes, all edges, all insertion counts, and all faces",
  "No existing test covers edge splitting or face removal.",
  [HE+"mesh/builder/semi.rs", HE+"mesh/builder/builder.rs", HE+"mesh/builder/halfedge.rs"],
  [("edge subdivision", HE+"mesh/builder/semi.rs"), ("face removal", HE+"mesh/builder/builder.rs")])
p("P07", "Closed primitives are outward-oriented closed manifolds",
  "Every closed primitive (tetrahedron, cube, cuboid, octahedron, dodecahedron, icosahedron, prisms, antiprisms, pyramids, cones, frustums, dihedra, UV spheres, geodesic spheres) is, for every admissible parameter, a consistent, closed, connected mesh with Euler characteristic 2, the documented vertex/edge/face counts and face sizes, and consecutive vertex ids. All solids are oriented consistently outward: signed volume is positive and every face normal of a convex solid points away from the centroid.",
  ["inputs", "configurations"], "all primitive generators and all admissible sizes, side counts, heights and scalar types",
  "Tests check cube and octahedron at one size; other generators have no tests.",
  ["src/primitives/prismatoid.rs", "src/primitives/sphere.rs", "src/primitives/polygon.rs", "src/operations/loft.rs", "src/operations/extrude.rs"],
  [("prismatoids", "src/primitives/prismatoid.rs"), ("spheres", "src/primitives/sphere.rs"), ("polygons", "src/primitives/polygon.rs")])
p("P08", "Primitives have the documented geometry",
  "Primitives have the dimensions they were asked for: regular polygons and stars have all vertices at the requested radii and equal angles in counter-clockwise order, cuboids are centred axis-aligned boxes of the requested size, prisms, frustums and pyramids have the requested base, top and height, uniform solids have all edges equal to the requested length, and spheres have all vertices at the requested radius. The closed-form side length and area formulas agree with the generated polygons, and prism/cuboid/frustum volumes with their formulas.",
  ["inputs"], "all primitive generators and all admissible real parameters within floating-point tolerance",
  "Only a regular polygon's area is tested, at one size.",
  ["src/primitives/prismatoid.rs", "src/primitives/sphere.rs", "src/primitives/polygon.rs", "src/primitives/misc.rs"],
  [("prismatoids", "src/primitives/prismatoid.rs"), ("spheres", "src/primitives/sphere.rs"), ("polygons", "src/primitives/polygon.rs")])
p("P09", "Extrusion adds a correctly connected band of faces",
  "Extruding a boundary or a face transports a copy of its boundary loop by the given transformation and joins old and new loop by one quad (or by alternating triangles) per boundary edge, replacing the old face by the transported cap where documented. Old vertices and all other faces are unchanged, the new loop keeps the order and correspondence of the old one, the face and vertex counts are the documented ones, and the result is consistently oriented.",
  ["inputs", "histories"], "all boundary loops and faces of all consistent meshes, all transformations, quad and triangle variants",
  "Extrusion is only exercised indirectly, through one cube test.",
  ["src/operations/extrude.rs"],
  [("extrusions", "src/operations/extrude.rs")])
p("P10", "Lofting and hole filling connect exactly the given boundary and vertices",
  "Lofting a sequence of vertices onto a boundary creates exactly the documented faces (triangles alternating between both sides, or polygons using the given numbers of boundary and new vertices), in order along the boundary in the documented direction, with one new vertex per consumed element; closed variants also close the ring and fan variants join all boundary edges to one apex. The returned edge continues the construction, and the rest of the mesh and its boundary is unchanged.",
  ["inputs"], "all boundaries, all vertex sequences (including empty and shorter than the boundary), all admissible face shapes",
  "No direct tests exist for any lofting operation.",
  ["src/operations/loft.rs", "src/operations/extrude.rs"],
  [("loft operations", "src/operations/loft.rs"), ("apex filling", "src/operations/extrude.rs")])
p("P11", "Subdivision refines triangles uniformly and keeps the surface",
  "Frequency subdivision of a triangle mesh yields T times as many triangles (T the triangulation number), keeps the mesh consistent, its openness, Euler characteristic and orientation, keeps the original vertices in place, and shares the vertices generated on an edge between both adjacent faces. New vertices are the ones the vertex function produces from its end points; for geodesic spheres all vertices lie on the sphere.",
  ["inputs", "configurations"], "all triangle meshes (open or closed) and all supported subdivision parameters",
  "The tests generate one geodesic octahedron and assert nothing about its shape.",
  ["src/operations/subdivision.rs", "src/primitives/sphere.rs", "src/mesh/vertex/interpolator.rs"],
  [("subdivision", "src/operations/subdivision.rs")])
p("P12", "Every triangulation algorithm exactly partitions every simple polygon",
  "For every simple polygon with n corners, in counter-clockwise order, every implemented triangulation algorithm (ear clipping, the sweep variants, Delaunay, minimum weight, fan for convex polygons, the fixed small cases) emits exactly n-2 triangles whose corners are polygon corners, all positively oriented and non-overlapping, whose edges are polygon edges or interior diagonals and whose areas add up to the polygon's area. Vertex indices are preserved even if they are not consecutive, and triangles already in the output list are left alone.",
  ["inputs"], "all simple polygons (convex, concave, star-shaped, spiral, monotone, comb-like, with collinear runs and repeated x or y coordinates) times all algorithms and scalar types",
  "The tests try about 15 hand-picked polygons, and only with the sweep.",
  ["src/tesselate/ear_clipping.rs", "src/tesselate/sweep/sweep.rs", "src/tesselate/sweep/status.rs", "src/tesselate/sweep/vertex_type.rs", "src/tesselate/sweep/interval.rs", "src/tesselate/sweep/monotone/linear.rs", "src/tesselate/sweep/monotone/dynamic.rs", "src/tesselate/sweep/monotone/delaunay.rs", "src/tesselate/delaunay.rs", "src/tesselate/min_weight_dynamic.rs", "src/tesselate/fixed_n.rs", "src/tesselate/convex.rs"],
  [("sweep line", "src/tesselate/sweep/sweep.rs"), ("ear clipping", "src/tesselate/ear_clipping.rs"), ("dynamic programming", "src/tesselate/min_weight_dynamic.rs"), ("Delaunay", "src/tesselate/delaunay.rs")])
p("P13", "Mesh triangulation covers every face with its own orientation",
  "Triangulating a mesh yields, for every algorithm, an index list that consists of one block of n-2 triangles per face, each block using only that face's vertices and tiling that planar face in its own plane with its own orientation, no matter how the face is placed and rotated in space. The returned vertex list contains every vertex payload of the mesh once (in id order), and every index addresses the payload of the right vertex.",
  ["inputs", "configurations"], "all 3D meshes with planar faces in arbitrary position, with several faces and sparse face ids, all algorithms",
  "No test triangulates a general 3D mesh and compares the result with its faces.",
  ["src/mesh/mesh/triangulate.rs", "src/tesselate/mod.rs", "src/tesselate/fixed_n.rs", "src/mesh/face/face3d.rs", "src/mesh/mesh/basics.rs", "src/mesh/triangulation.rs"],
  [("mesh triangulation", "src/mesh/mesh/triangulate.rs"), ("dispatch", "src/tesselate/mod.rs"), ("plane projection", "src/mesh/face/face3d.rs")])
p("P14", "Optimising triangulations reach their stated optimum",
  "The Delaunay algorithm returns a constrained Delaunay triangulation (no interior diagonal whose two triangles form a convex quad violates the empty-circle test), and the minimum-weight algorithm returns a triangulation whose total edge length no other triangulation of the polygon undercuts; quads use the shorter valid diagonal. The dynamic sweep never produces a longer total edge length than the plain sweep.",
  ["inputs"], "all simple polygons in general position up to the enumerable size",
  "Tests compare two algorithms on a few polygons; optimality needs comparison with every other triangulation.",
  ["src/tesselate/delaunay.rs", "src/tesselate/min_weight_dynamic.rs", "src/tesselate/fixed_n.rs", "src/tesselate/sweep/monotone/dynamic.rs"],
  [("constrained Delaunay", "src/tesselate/delaunay.rs"), ("interval dynamic program", "src/tesselate/min_weight_dynamic.rs"), ("small cases", "src/tesselate/fixed_n.rs")])
p("P15", "Smooth and flat normals are the documented unit normals",
  "Smooth normals are, at every vertex, the normalised mean of the unit normals of the faces around it. Flat triangulation gives every face its own copies of its vertices, all carrying the face's normal direction, with unchanged positions and triangles, and face normals follow the right-hand rule with a length equal to the face's area.",
  ["inputs"], "all 3D meshes with non-degenerate planar faces",
  "The tests call the functions on an octahedron without looking at the result.",
  ["src/mesh/mesh/normals.rs", "src/mesh/mesh/triangulate.rs", "src/mesh/face/face3d.rs", "src/math/vector3d.rs"],
  [("smooth normals", "src/mesh/mesh/normals.rs"), ("flat normals", "src/mesh/mesh/triangulate.rs"), ("face normal", "src/mesh/face/face3d.rs")])
p("P16", "Curved edges follow their Bezier curve and flatten within tolerance",
  "A curved edge evaluates to its Bezier curve for every parameter (starting and ending exactly at its vertices, and traced by the reversed curve in the opposite direction). Flattening returns points on the curve in order of traversal, uniform flattening at equal parameter steps with the requested number of segments and adaptive flattening with chords that stay within the tolerance; flattening a mesh replaces every curved edge by such a chain, leaves straight edges alone and keeps faces and openness. Two curves are approximately equal exactly if they are of the same kind with control points within the tolerance.",
  ["inputs"], "all linear, quadratic and cubic edges, all parameters, tolerances and segment counts, and all meshes containing them",
  "No test evaluates a curve.",
  ["src/mesh/edge/curved.rs", "src/mesh/mesh/basics.rs", "src/mesh/edge/payload.rs", HE+"mesh/builder/semi.rs"],
  [("curve evaluation and flattening", "src/mesh/edge/curved.rs"), ("mesh flattening", "src/mesh/mesh/basics.rs")])
p("P17", "Path building draws exactly the described outline",
  "Drawing with the path builder creates exactly the described sequence of vertices and straight, quadratic or cubic edges, in order and with the given control points; closing draws the missing line and produces one face bounded by that outline, and returning to the start closes it automatically. Existing parts of the mesh are untouched and several outlines may be drawn into one mesh.",
  ["histories"], "all sequences of path commands",
  "Only fonts use the path builder in tests, and nothing checks the outline.",
  ["src/mesh/mesh/path_builder.rs"],
  [("path builder", "src/mesh/mesh/path_builder.rs")])
p("P18", "SVG and font import reproduce the outlines of their source",
  "Importing an SVG document yields one face per sub-path of its paths (open sub-paths are closed) whose boundary has the sub-path's points and curves in order, with the document's transformations applied. Laying out a text yields the glyph outlines of the font at the requested scale, advanced by the glyph widths, and the advance of a text is the sum of its parts.",
  ["inputs"], "all SVG paths over the supported segment types and all texts over the font's outline glyphs",
  "One test lays out one text and asserts nothing about the outline; SVG import is untested.",
  ["src/extensions/svg/svg.rs", "src/mesh/mesh/fonts.rs", "src/mesh/mesh/path_builder.rs"],
  [("SVG import", "src/extensions/svg/svg.rs"), ("font layout", "src/mesh/mesh/fonts.rs")])
p("P19", "Transforming a mesh moves all its geometry and nothing else",
  "Translating, rotating, scaling or transforming a mesh applies that map to the position of every vertex and to the control points of every curved edge (so evaluating and transforming commute), and changes no connectivity, id or count. The non-mutating variants leave the original untouched and agree with the mutating ones, and interpolation of payloads is linear.",
  ["inputs"], "all meshes (2D, 3D, curved) and all affine maps",
  "A payload is rotated once in a test; meshes with curves or holes are never transformed.",
  ["src/mesh/mesh/transform.rs", "src/mesh/vertex/transform.rs", "src/mesh/edge/payload.rs", "src/math/transformable.rs", "src/extensions/nalgebra/default_vertex_payload.rs", "src/extensions/bevy/vertex_payload_2d.rs", "src/extensions/bevy/vertex_payload_3d.rs"],
  [("mesh transforms", "src/mesh/mesh/transform.rs"), ("payload transforms", "src/extensions/nalgebra/default_vertex_payload.rs")])
p("P20", "Transformations obey the affine laws in every backend",
  "In every backend, transformations behave as affine maps: the identity changes nothing, chaining applies the left map first and is associative, points are translated while direction vectors are not, adding a translation or scale composes it after the existing map, and constructing from a rotation, rotation arc, translation or scale gives that map. Rotations preserve lengths, and a rotation arc maps the first direction onto the second. Approximate equality holds exactly if all entries differ by less than the tolerance.",
  ["inputs"], "all transformations generated by the constructors and all vectors, for 2, 3, 4 and more dimensions, nalgebra and bevy",
  "Tests check a few products in 2D.",
  ["src/math/transform.rs", "src/extensions/nalgebra/math/transform_n.rs", "src/extensions/nalgebra/math/rotate.rs", "src/extensions/bevy/math/vec2.rs", "src/extensions/bevy/math/vec3.rs", "src/extensions/bevy/math/vec4.rs", "src/extensions/bevy/math/mat5.rs", "src/extensions/bevy/math/quat.rs"],
  [("affine maps", "src/extensions/nalgebra/math/transform_n.rs"), ("rotations", "src/extensions/nalgebra/math/rotate.rs"), ("bevy maps", "src/extensions/bevy/math/vec3.rs")])
p("P21", "Isomorphism tests accept exactly the equivalent meshes",
  "Two meshes are reported isomorphic if and only if some renumbering of vertices carries the edges and faces (with matching payloads or positions, where asked for) of one onto the other: every renumbered or rebuilt copy is accepted, and any change of connectivity, of faces, or of a compared position beyond the tolerance is rejected. The trivial test is the special case in which all ids already agree, and a reported isomorphism really maps one mesh onto the other.",
  ["inputs"], "all pairs of meshes related by renumbering and all single mutations of such pairs",
  "Tests compare a few cubes.",
  ["src/mesh/mesh/iso.rs", "src/mesh/mesh/basics.rs", HE+"mesh/basics.rs"],
  [("isomorphism tests", "src/mesh/mesh/basics.rs")])
p("P22", "Path search and network matrices describe the mesh's graph",
  "The path between two vertices is a shortest path by edge count and is absent exactly if the vertices are not connected. The adjacency, degree and Laplacian matrices (plain and Euclidean) are those of the vertex graph with the corresponding weights: symmetric, zero rows sums for the Laplacian, degrees equal to row sums.",
  ["inputs"], "all meshes and vertex pairs, including disconnected meshes",
  "One cube is tested for adjacency and Laplacian; path search has no test.",
  ["src/mesh/mesh/topology.rs", "src/mesh/mesh/netsci.rs", "src/mesh/mesh/position.rs"],
  [("breadth-first search", "src/mesh/mesh/topology.rs"), ("matrices", "src/mesh/mesh/netsci.rs")])
p("P23", "Vector, scalar and quaternion operations obey their laws in all backends",
  "Scalar and vector operations (dot, cross, perpendicular product, length, distance, normalisation, angles, constructors, swizzles, spherical coordinates, spherical and linear interpolation, sums and means) satisfy their mathematical definitions and agree between all backends. Summation keeps its accuracy bound in the presence of cancellation, and sign and approximate-equality predicates answer as documented.",
  ["inputs"], "all finite vectors and scalars, for each backend and dimension",
  "Tests compare two operations for ten random vectors.",
  ["src/math/scalar.rs", "src/math/vector.rs", "src/math/vector2d.rs", "src/math/vector3d.rs", "src/math/vector4d.rs", "src/math/impls/f32.rs", "src/math/impls/f64.rs", "src/extensions/nalgebra/math/vec_n.rs", "src/extensions/bevy/math/vec2.rs", "src/extensions/bevy/math/vec3.rs", "src/extensions/bevy/math/vec4.rs", "src/math/quaternion.rs"],
  [("vector defaults", "src/math/vector.rs"), ("scalar defaults", "src/math/scalar.rs")])
p("P24", "Planar predicates and polygon measures agree with exact geometry",
  "Signed area, orientation, centroid, containment, diagonal validity, segment intersection, corner convexity, collinearity and triangle containment give the exact geometric answer whenever the input is not within tolerance of the decision boundary. Areas and orientation change sign under reversal and are invariant under rotation of the vertex list and rigid motion.",
  ["inputs"], "all polygons, segments and points, with exact rational arithmetic as the judge",
  "Three convex polygons are tested; concave polygons are an open TODO in the tests.",
  ["src/math/polygon.rs", "src/math/line_segment.rs", "src/math/vector2d.rs"],
  [("polygon measures", "src/math/polygon.rs"), ("segment intersection", "src/math/line_segment.rs"), ("planar predicates", "src/math/vector2d.rs")])
p("P25", "Conversions between mesh types and backends preserve the mesh",
  "Converting a mesh (2D to 3D or n-D, double to single precision, one backend to another, mesh to renderable buffers) preserves every face and hole as the same cyclic list of vertices, all positions, normals and texture coordinates (padded with zeros or rounded as documented) and openness. The exported buffers describe the same triangles, positions and normals as the mesh's triangulation, and exporting into an existing buffer replaces its previous content.",
  ["inputs"], "all meshes without isolated vertices, with curved edges and sparse face ids",
  "One regular star is converted and only counted; nothing checks the export.",
  ["src/extensions/nalgebra/mesh2d.rs", "src/extensions/bevy/mesh2d.rs", "src/extensions/bevy/mesh3d.rs", HE+"mesh/builder/halfedge.rs", "src/extensions/bevy/vertex_payload_3d.rs"],
  [("mesh import", HE+"mesh/builder/halfedge.rs"), ("export", "src/extensions/bevy/mesh3d.rs")])
p("P26", "Face shape queries classify polygons correctly",
  "For every planar face in space, convexity, planarity, simplicity and self-intersection queries answer as the exact geometry of the face's outline does, independent of the face's placement and of which edge represents it. The face's 2D projection preserves lengths, areas and counter-clockwise orientation and keeps the vertex order and ids.",
  ["inputs"], "all planar faces (convex, concave, self-intersecting) and clearly non-planar ones, in arbitrary position",
  "One regular polygon in the xy-plane is tested.",
  ["src/mesh/face/face3d.rs", "src/mesh/face/basics.rs"],
  [("face queries", "src/mesh/face/face3d.rs")])
p("P27", "Triangulation buffers compute and edit triangles correctly",
  "A triangulation buffer appends, reads back, remaps and measures triangles exactly (area, total edge length, local and global indices) and flipping an edge replaces the two triangles sharing it by the two triangles of the other diagonal, leaving others alone. Its verification accepts every valid triangulation of a polygon and rejects one with a missing, duplicated, overlapping, wrongly oriented or foreign triangle.",
  ["inputs", "histories"], "all sequences of buffer operations and all mutations of valid triangulations, at any start offset in the list",
  "Verification is only ever run on correct outputs starting at offset zero.",
  ["src/mesh/triangulation.rs"],
  [("triangulation buffer", "src/mesh/triangulation.rs")])

p("P28", "Attributes of mesh elements read back exactly what was last written",
  "Positions, normals, texture coordinates, curve types and face and mesh payloads read back bit for bit what was last written to that element, through every accessor and mutable iterator. A write changes nothing else: no other attribute, no other element, no connectivity. Copies are independent of their original. Fresh payloads hold the given position and nothing else. Swapping y and z exchanges exactly those coordinates of every position.",
  ["inputs", "histories"], "all sequences of writes, iterations and copies on all meshes, with sparse ids, in every dimension, precision and backend",
  "One vertex payload is written and read once.",
  ["src/extensions/nalgebra/default_vertex_payload.rs", "src/extensions/bevy/vertex_payload_2d.rs", "src/extensions/bevy/vertex_payload_3d.rs", "src/mesh/edge/payload.rs", HE+"mesh/basics.rs", HE+"mesh/builder/vertex.rs", "src/util/deletable.rs"],
  [("payload accessors", "src/extensions/nalgebra/default_vertex_payload.rs"), ("element access", HE+"mesh/basics.rs")])

p("P29", "The mesh consistency check accepts exactly the meshes whose links are sound",
  "Checking a mesh reports an error whenever its links break an invariant: the twin of the twin is the edge itself, next and prev are inverse, consecutive half-edges have the same face and meet in one vertex, faces and vertices refer to a half-edge of their own, faces have at least three edges, and every edge has a face on some side. It succeeds on every mesh where all of these hold.",
  ["inputs", "histories"], "all meshes from any history of building operations with any links overwritten by those of other live elements",
  "The check is only ever run on sound meshes, so nothing shows it would notice a broken one.",
  [HE+"mesh/check.rs", HE+"edge/halfedge.rs", HE+"face/mod.rs", HE+"vertex/mod.rs"],
  [("consistency check", HE+"mesh/check.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
