"""Single source of properties.jsonl and MANIFEST.json (run tools/mkmanifest.py after editing)."""
P = "src/bgem/polygons/"
B = "src/bgem/bspline/"
G = "src/bgem/gmsh/"


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "observe_at": observe, "state": state or [], "hook_needed": None}}


MC = "explicit-state model checking of the real code"
EX = "bounded exhaustive enumeration against a reference model"

PROPS = []
CHECKS = {}


def add(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="model_checking"):
    PROPS.append(prop(id, title, statement, over, text, why, files, mechanism, observe))
    CHECKS[id] = {"technique": technique, "level": level, "level_note": note}


# ------------------------------------------------------------------ undo
add("U01", "Undo and redo walk one exact linear history of the document",
    "Every undo brings the document to exactly the state before the last undoable action or group and every redo to exactly the "
    "state after it, for groups (also nested) as one step, with independent histories for independent stacks, however long the history is. A new action "
    "discards everything that could be redone; nothing is recorded while recording is disabled, whatever is called meanwhile.",
    ["histories"], "all sequences of actions, groups, nested groups, undo, redo, clear, recording switches, stack switches up to depth 6-7",
    "Tests run a dozen fixed undo/redo scripts; order and nesting mistakes only appear in longer mixtures of actions, groups and undo/redo.",
    ["src/bgem/undo.py", P + "polygons.py"],
    [("undoable/_Action generator protocol", "undo.undoable, undo._Action"), ("_Group reverse order undo", "undo._Group"),
     ("receiver switching", "undo.Stack._pausereceiver/append")],
    ["document edited by undoable actions", "Stack.canundo/canredo/undocount"],
    MC, "All histories over the stated alphabet up to the depth bound, each executed on a fresh real Stack in lock step with a list-with-cursor model; "
        "deduplication by model state plus last operation. Trusts the model (about 100 lines) and exact inverse actions.")
add("U02", "A failing action never corrupts the undo history",
    "An exception of any kind raised while an action is done, undone or redone, or inside a group, reaches the caller. After a failure to undo or redo "
    "the history is empty; after a failure inside a group the completed part stays undoable as one step; in all cases later actions are recorded and "
    "undone as usual.",
    ["histories", "fault_sequences"], "all histories up to depth 5-6 in which actions fail while done, undone, redone or in a group body",
    "No test lets an action fail.",
    ["src/bgem/undo.py"],
    [("clear on failure", "undo.Stack.undo/redo"), ("receiver restored on exception", "undo._Group.__exit__, undo.Stack._pausereceiver")],
    ["exceptions seen by the caller", "Stack.canundo/canredo/undocount", "document"],
    MC, "Fault alphabet enumerated exhaustively in all positions of histories up to the bound on the real Stack against the list model; after a failed undo/redo only the stack is specified.")
add("U03", "The undo stack reports its state truthfully",
    "The counts and descriptions of available undo and redo steps always describe the actual history, the notification callbacks fire exactly once, in the new state, per done, "
    "undone or redone step, and the changed flag is false exactly when the history position is the one marked by the last savepoint.",
    ["histories"], "all histories of actions, groups, undo, redo, savepoint, clear up to depth 6-7",
    "Tests never query counts, texts, callbacks or the changed flag in mixed histories.",
    ["src/bgem/undo.py"],
    [("savepoint", "undo.Stack.savepoint/haschanged"), ("texts", "undo.Stack.undotext/redotext"), ("callbacks", "undo.Stack.append/undo/redo")],
    ["undocount, redocount, undotext, redotext, haschanged, callbacks"],
    MC, "As U01 with the report functions compared after every operation.")

# ------------------------------------------------------------------ polygons
add("P01", "Polygons are exactly the regions cut out by the drawn segments",
    "After every sequence of adding points, segments and lines and deleting segments and points, in drawings of any size, the listed polygons are exactly the connected regions of the plane "
    "left by the drawn segments: boundary vertices counter clockwise, holes, the polygon on either side of each segment, the clockwise order of segments around "
    "points and the owner of each free point. No region is missing, duplicated or merged with another.",
    ["histories"], "all reachable states of edit graphs over small point sets (complete closures) and all line histories on 2x3 and 3x3 grids up to a depth",
    "Tests check counts of polygons after a few scripted edits; the topology code has a dozen cases whose combination depends on history.",
    [P + "decomp.py", P + "polygons.py", P + "polygon.py", P + "segment.py", P + "point.py"],
    [("wire/polygon splitting and joining", "decomp.Decomposition._split_poly/_join_poly/_join_wires/_split_wire"), ("dendrites", "decomp._wire_add_dendrite/_wire_rm_dendrite"),
     ("half edge links", "segment.Segment.connect_vtx/disconnect_vtx")],
    ["PolygonDecomposition.polygons/segments/points", "Polygon.vertices, free_points, outer_wire", "Segment.polygons", "Point.segments"],
    MC, "Explicit-state search over the real editor; every state reached by replaying its history on a fresh decomposition is compared with an independent face tracing reference. "
        "States merged by exact geometry (orientation kept in some spaces).")
add("P02", "Inserted lines and points are drawn exactly",
    "After every sequence of line and point insertions and deletions the drawn segments are exactly the union of what was inserted and not deleted, subdivided at all crossings, touching points and "
    "existing vertices, without duplicates, overlaps or gaps; inserting a line returns exactly the chain of segments between its end points. "
    "End points within tolerance of existing objects are identified with them.",
    ["histories", "inputs"], "all sequences of lines between points of 2x3 and 3x3 grids, points at half grid positions, deletions, exact and displaced by a fraction of the tolerance, up to depth 3-5",
    "Tests insert a few hand picked lines.",
    [P + "polygons.py", P + "decomp.py", P + "aabb_lookup.py"],
    [("snapping to vertices and splitting by intersections", "polygons.PolygonDecomposition.add_line_for_points/_add_line_seg_intersections/_point_on_segment")],
    ["PolygonDecomposition.add_line/add_point results", "points and segments"],
    MC, "Exact rational arrangement as reference, compared after every operation of every history within the bound.")
add("P03", "Snapping finds the right existing object and moves nothing else",
    "Asking what lies at a position answers: an existing point when one is within the snapping tolerance, otherwise an existing segment within tolerance together with the parameter of the nearest position on it, "
    "otherwise the polygon (or the outer region) that contains the position. Adding a point there reuses the point, splits the segment at the nearest position, or adds a free point exactly where asked.",
    ["inputs"], "all query positions of fine grids and all positions in, on and just outside the tolerance around every vertex and segment of a catalogue of non convex, nested and degenerate drawings, for several tolerances",
    "Tests query a few positions in two simple drawings.",
    [P + "polygons.py", P + "polygon.py", P + "segment.py", P + "aabb_lookup.py"],
    [("snap order point, segment, polygon", "polygons.PolygonDecomposition.snap_point"), ("ray casting containment", "segment/polygon contains_point, wire.contains_point"), ("closest candidates", "aabb_lookup.AABB_Lookup")],
    ["PolygonDecomposition.snap_point, find_polygon, add_point results"],
    EX, "Exhaustive over catalogue x query grid; exact distances are the reference; positions within 4 percent of the tolerance boundary are excluded.")
add("P04", "The reported polygon change is what really happened",
    "After every addition or removal of a segment the reported change (no change, shape change, added or removed hole, split, join, ...) and the polygons it names agree with the difference between the regions before and after.",
    ["histories"], "every single segment insertion or deletion from every reachable state of edit graphs over small point sets",
    "Tests check the report for a dozen scripted edits; attribute inheritance in the application depends on it in every state.",
    [P + "decomp.py", P + "polygons.py"],
    [("PolygonChange bookkeeping", "decomp.Decomposition.last_polygon_change, get_last_polygon_changes")],
    ["PolygonDecomposition.get_last_polygon_changes"],
    MC, "Every transition of the reachable state graph is executed on the real editor and the report compared with the difference of independently traced faces.")
add("P05", "Undo and redo of drawing edits restore the drawing exactly",
    "Undoing an edit of the drawing (adding or deleting points, segments, lines; splitting; joining) restores the previous points, segments, polygons, holes, free points, ids and attributes; redo restores the next state; "
    "after any undo the editor works as if the edit had never been made.",
    ["histories"], "all histories of edits, undos and redos over small point sets up to a depth, from empty and prepared drawings",
    "Tests undo a single script; inverse operations of the topology code depend on the state they are applied to.",
    [P + "decomp.py", P + "polygons.py", "src/bgem/undo.py"],
    [("inverse of topology edits", "decomp.Decomposition undoable methods"), ("id restoration", "idmap.IdMap"), ("lookup maintenance", "polygons.PolygonDecomposition._add_point/_rm_segment ...")],
    ["points, segments, polygons, attributes, wires before/after undo/redo"],
    MC, "Explicit-state search over edits plus undo/redo; the recorded snapshots form the reference history. Moving points is not undoable and not covered.")
add("P06", "Splitting and joining segments are inverse and keep attributes",
    "Splitting a segment keeps both sides, the orientation and the attribute on both parts, and joining the parts restores the original drawing; joining adjacent segments of any orientation keeps the regions and their attributes.",
    ["histories", "configurations"], "all planar drawings over a candidate edge set, every segment, both orientations of both parts, split parameters",
    "Tests split and join one segment of fixed orientation.",
    [P + "decomp.py", P + "polygons.py"],
    [("split and join", "decomp.Decomposition.split_segment/join_segments, _split_segment, _join_segments")],
    ["segments, wires, attributes after split/join"],
    EX, "All planar edge subsets of a 6 point set, each split and joined in all orientations against the independent face reference.")
add("P07", "Nesting and containment queries agree with geometry",
    "The parent of each hole, nesting depth, the child polygons of each polygon and whether a position lies in a polygon agree with the geometry of the drawing after every edit history.",
    ["histories", "inputs"], "all reachable states of nested drawings, with query positions on a grid and at vertex heights; the whole drawing moved to a set of places, queries before and after",
    "Tests check one nested configuration.",
    [P + "polygon.py", P + "decomp.py", P + "polygons.py"],
    [("wire tree", "polygon wire parent/childs, depth"), ("containment", "Polygon.contains_point"), ("child polygons", "decomp.get_childs")],
    ["depth(), get_childs, contains_point, holes"],
    MC, "Reachable states as in P01, queries at all grid positions further than 0.02 from the drawing, against independent ray casting.")
add("P08", "A displacement is allowed exactly when nothing is in the way",
    "Asking whether points may be displaced answers yes exactly when no moved vertex or segment sweeps over another vertex or segment anywhere on the way (free points and separate components included); "
    "a refused displacement is shortened to a part that is free, and the polygons reported as changed by the move are exactly those whose shape changes.",
    ["inputs", "configurations"], "all drawings of a catalogue times all small sets of moved points times a grid of displacement vectors",
    "Tests try a few vectors on one drawing; the answer depends on the position of every obstacle relative to the whole sweep.",
    [P + "polygons.py", P + "decomp.py"],
    [("displacement check", "polygons.PolygonDecomposition.check_displacment, decomp.Decomposition.check_displacment")],
    ["returned shortened displacement", "get_last_polygon_changes"],
    EX, "Complete grid of displacements on a catalogue of drawings against an independent swept area computation; cases within 0.03 of touching are not judged.")
add("P09", "Moved points are what they would be if drawn at the new position",
    "After points are moved by an allowed displacement the drawing (regions, wires, order around vertices, segment vectors, lookups) is the one obtained by drawing everything at the new positions: "
    "the points are found there and not at the old place, and whatever is drawn next is cut by and attached to the moved parts.",
    ["histories"], "all allowed displacements of a grid on all drawings of a catalogue, also repeated, followed by queries and every one line insertion of a set",
    "Tests move one point and look at its coordinates only.",
    [P + "polygons.py", P + "decomp.py", P + "segment.py", P + "aabb_lookup.py"],
    [("moving points", "polygons.PolygonDecomposition.move_points"), ("cached vectors and boxes", "segment.Segment.vector, aabb"), ("lookups", "aabb_lookup.AABB_Lookup")],
    ["snap_point, add_line, regions after moving"],
    MC, "Every move checked differentially against the same drawing made from scratch at the new positions, both continued by the same lines.")
add("P10", "A stored drawing is rebuilt as the same editable drawing",
    "A drawing rebuilt from its stored points, segments and polygons (wires, holes, free points, ids) has the same regions, nesting, wires and ids as the original, and every further edit has the same result as on the original.",
    ["histories"], "all reachable drawings of several edit graphs, stored, rebuilt and edited further",
    "Tests never rebuild a drawing.",
    [P + "decomp.py", P + "polygons.py", P + "idmap.py"],
    [("construction from parts", "decomp.Decomposition.make_segment/make_polygon/set_wire_parents, polygons.PolygonDecomposition.make_segment/make_polygon/set_wire_parents"), ("given ids", "idmap.IdMap.append")],
    ["regions, wires, ids and subsequent edits of the rebuilt drawing"],
    MC, "Reachable states as in P01, each serialised, rebuilt and compared, then edited once with every operation of the alphabet on both drawings.")
add("P11", "Merging drawings gives their common subdivision with exact origins",
    "Merging a list of drawings gives exactly the common subdivision of all their segments and points, and maps every point, segment and polygon of the result to the point, segment and polygon of each input that contains it.",
    ["configurations"], "all pairs (and triples) of drawings of a catalogue at all relative shifts of a grid",
    "Tests merge a few pairs of simple drawings; which cases occur depends on the relative position of all parts.",
    [P + "merge.py", P + "polygons.py", P + "decomp.py"],
    [("merging", "merge.intersect_decompositions, intersect_single"), ("origin maps", "merge.intersect_single maps")],
    ["merged drawing and the maps of points, segments, polygons"],
    EX, "All pairs, shifts and orders of a catalogue of drawings against an independent planar overlay; drawings closer than the tolerance but not coincident are excluded.")
add("P12", "The bounding box lookup never loses a candidate",
    "After every history of adding and removing boxes the lookup returns every stored object whose box contains, intersects or may be nearest to what is asked, and no removed object.",
    ["histories"], "all histories of additions and removals of boxes up to a depth, each with all queries of a grid",
    "The table grows, reuses slots and is queried in states that no test reaches.",
    [P + "aabb_lookup.py"],
    [("box table", "aabb_lookup.AABB_Lookup.add_object/rm_object"), ("candidates", "aabb_lookup.AABB_Lookup.closest_candidates/intersect_candidates")],
    ["candidate lists"],
    MC, "All histories up to the depth on the real lookup with every query point and box of a grid compared to brute force.")
add("P13", "Identifiers are unique at all times and never lost",
    "Objects in a map have distinct identifiers at all times, an identifier always leads to its object until it is removed, identifiers given from outside are respected, and removal and copies affect nothing else.",
    ["histories"], "all histories of additions (with and without given id) and removals up to a depth",
    "Tests add and remove a few objects in one order.",
    [P + "idmap.py"],
    [("id assignment", "idmap.IdMap.append/remove, get_new_id")],
    ["ids and map content"],
    MC, "All histories up to the depth on the real map against a dictionary.")
add("P14", "Crossings closer than the tolerance still give a valid drawing",
    "Lines crossing at points closer together than the snapping tolerance give a valid drawing: no two points closer than the tolerance remain, the drawing follows the drawn lines within two tolerances, regions are consistent, and undo restores what was before. Merging two points of any drawing leaves a drawing where every segment of the removed point now ends at the kept one.",
    ["inputs", "histories"], "all pairs of nearly parallel, wedge and thin crossing lines times all crossing lines of a set times all orders of drawing; merging of every pair of points of a catalogue of drawings",
    "Tests contain no nearly coincident lines.",
    [P + "polygons.py", P + "decomp.py"],
    [("merging close crossings", "polygons.PolygonDecomposition._add_line_new_point/merge_points, _point_on_segment")],
    ["drawing after each line, after undo"],
    EX, "Complete catalogue of narrow configurations in all orders. End points within tolerance of two lines meeting at a small angle are excluded (moved along the lines by design).")

# ------------------------------------------------------------------ B-splines
add("B01", "Basis functions are the B-spline basis of their knot vector",
    "For every degree and knot vector with repeated knots allowed, basis values at every parameter of the domain (knots and both ends included) are those of the B-spline basis: non negative, summing to one, zero outside their support; "
    "the interval found for a parameter contains it.",
    ["inputs"], "all clamped knot vectors of degree 0-5 with up to 4-5 intervals over several gap ratios, starts and multiplicities; parameters at knots, next to knots and inside",
    "Tests evaluate a few uniform bases at sample points; multiplicities and end points are the fragile cases.",
    [B + "bspline.py"],
    [("basis recurrence", "bspline.SplineBasis._basis/eval/eval_vector"), ("interval search", "bspline.SplineBasis.find_knot_interval"), ("local polynomials", "bspline.SplineBasis.eval_base_vector")],
    ["SplineBasis.eval, eval_vector, find_knot_interval"],
    EX, "Complete family of knot vectors against exact rational polynomial pieces.")
add("B02", "Derivatives of basis functions are exact",
    "Derivatives of all basis functions, evaluated singly or as a vector, equal the exact derivatives at every parameter (one sided at breaks) and sum to zero.",
    ["inputs"], "as B01",
    "Tests compare with differences on uniform bases.",
    [B + "bspline.py"],
    [("derivatives", "bspline.SplineBasis.eval_diff/eval_diff_vector/_basis")],
    ["SplineBasis.eval_diff, eval_diff_vector"],
    EX, "Complete family of knot vectors against exact rational derivatives.")
add("B03", "Knot vectors and identity poles are exact",
    "Equidistant knot vectors are equidistant and clamped on any range, packing and unpacking of knots are inverse, and the poles of the identity really give f(x) = x for any degree, knots and domain.",
    ["inputs"], "all degrees 0-5 and interval counts times a list of ranges (integer and real); all knot vectors of B01",
    "Tests use [0, 1] and a few degrees.",
    [B + "bspline.py"],
    [("knot construction", "bspline.SplineBasis.make_equidistant/make_from_packed_knots/pack_knots"), ("Greville poles", "bspline.SplineBasis.make_linear_poles")],
    ["knots, packed knots, poles"],
    EX, "Complete family against exact rational arithmetic.")
add("B04", "Curves are the curves their poles, weights and knots define",
    "A curve evaluated in any way (one parameter, on a given interval, an array of parameters) gives the point defined by its poles, weights and knots, whatever container the poles come in and whatever is done with it later; it starts in its first and ends in its last pole; parameters outside its domain are refused.",
    ["inputs"], "all knot vectors of a family times pole sets (2D, 3D, integer, list, tuple, array, rational) times parameters at, next to and between knots",
    "Tests plot curves or compare a few points; the ways of evaluation and pole containers are not combined.",
    [B + "bspline.py"],
    [("curve evaluation", "bspline.Curve.eval/eval_local/eval_array"), ("rational poles", "bspline.Curve.__init__")],
    ["Curve.eval, eval_local, eval_array"],
    EX, "Complete family against exact rational de Boor evaluation.")
add("B05", "Surfaces are the surfaces their poles, weights and knots define",
    "A surface evaluated in any way gives the tensor product point of its poles, weights and knots; its corners are its corner poles; a deep copy is the same surface and independent of the original, the surface is independent of the array of poles given.",
    ["inputs"], "all pairs of knot vectors of a family (with different degrees in both directions) times pole sets and containers times a parameter grid",
    "Tests use one or two surfaces; direction mix ups, multiplicities and weights are not separated.",
    [B + "bspline.py"],
    [("surface evaluation", "bspline.Surface.eval/eval_local/eval_array"), ("copying", "bspline.Surface.deep_copy")],
    ["Surface.eval, eval_local, eval_array, deep_copy"],
    EX, "Complete family against exact rational tensor product evaluation.")
add("B06", "Bounding boxes contain the pieces and the box tree finds every patch",
    "The bounding box of a curve or surface and of each of its patches contains all its points, the patch numbering is a bijection with positions, and the box tree returns every patch whose box meets the query box.",
    ["inputs"], "all surfaces of a family times all patches and all query boxes of a grid; numbering of all patch grids up to a size",
    "Tests only look at a whole surface.",
    [B + "bspline.py"],
    [("bounding boxes", "bspline.Curve.aabb, bspline.Surface.aabb"), ("patches", "bspline.Surface.bounding_boxes/patch_id2pos/patch_pos2id")],
    ["aabb, bounding_boxes, box tree query"],
    EX, "Complete family of surfaces and query boxes.")
add("B07", "Z-surfaces follow every history of transformations",
    "After any sequence of z and xy transformations, copying, conversion and reset, a Z-surface evaluates to the original one transformed by the last given transformations (xy about its centre, z about its mean plane), consistently in all ways of evaluation, in its quad, its bounding box, its reported transformation and the full surface; copies are independent.",
    ["histories", "inputs"], "all sequences of transformation operations up to a depth over Z-surfaces on rectangles, parallelograms and general quads",
    "Tests apply one transformation; order, resetting, baking and copies are not exercised.",
    [B + "bspline.py"],
    [("transformations", "bspline.Z_Surface.transform/apply_z_transform/reset_transform"), ("evaluation", "bspline.Z_Surface.eval_array/z_eval_array/eval_xy_array"), ("conversion", "bspline.Z_Surface.make_full_surface/get_copy")],
    ["eval*, z_eval*, quad, aabb, get_transform, make_full_surface"],
    MC, "All operation histories up to the depth on real objects against a reference map.")
add("B08", "Grid surfaces interpolate regular grids and refuse the irregular",
    "A surface made of a regular grid of points (in any of the 8 orders and any position of the grid) passes through all of them, is bilinear between them, follows its transformations, and points which are no regular grid are refused.",
    ["inputs", "histories"], "all grid shapes up to a size times affine positions, point orders, transformations; every single-point damage",
    "Tests load one grid.",
    [B + "bspline.py"],
    [("grid detection", "bspline.GridSurface.load/init_from_seq"), ("evaluation", "bspline.GridSurface.eval_array/z_eval_array/eval_in_xy"), ("transformations", "bspline.GridSurface.transform")],
    ["evaluation at and between grid points, quad, error raised"],
    EX, "Complete catalogue of grids; histories of transformations up to a depth.")
add("B09", "Lines, planes, bilinear surfaces and grid curves are exact",
    "The line, plane and bilinear surface through given points pass through them with the right parameters (overhang extends without moving them), and a curve approximating points passes through the end points and keeps the tolerance.",
    ["inputs"], "all tuples of points of small integer lattices times overhangs, times tolerances and iteration limits",
    "Tests use one line and one plane.",
    [B + "bspline_approx.py"],
    [("constructors", "bspline_approx.line/plane_surface/bilinear_surface"), ("curve approximation", "bspline_approx.curve_from_grid")],
    ["evaluated constructors"],
    EX, "All point tuples of a lattice against exact formulas.")
add("B10", "Surface approximation solves its least squares problem",
    "The surface approximating weighted points over a quad is the minimiser of the regularised least squares functional over the points inside the quad: points outside, order of the points and unit scaling of the weights do not matter, exactly representable data are reproduced, the reported error is the maximal deviation.",
    ["inputs"], "a catalogue of point sets, quads, interval counts, weights, regularisations and all orders/subsets of small sets",
    "Tests approximate one analytic function and plot or print the result.",
    [B + "bspline_approx.py"],
    [("least squares", "bspline_approx.SurfaceApprox.compute_approximation"), ("quad", "bspline_approx.SurfaceApprox.compute_default_quad/set_quad/transformed_quad"), ("regularisation", "bspline_approx.SurfaceApprox._build_sparse_reg_matrix")],
    ["resulting poles and error"],
    EX, "Complete catalogue against an independent dense assembly of the same functional and its optimality conditions.")
add("B11", "Convex hull and minimal bounding rectangle are right",
    "The convex hull of points contains them all, is convex, counterclockwise and made of them; the bounding rectangle contains all points and no rectangle along a hull side is smaller.",
    ["inputs"], "all subsets of small lattices (also rotated), in several orders",
    "Tests use one random cloud.",
    [B + "bspline_approx.py"],
    [("hull", "bspline_approx.convex_hull_2d"), ("rectangle", "bspline_approx.min_bounding_rect")],
    ["hull and rectangle"],
    EX, "All subsets of a lattice against exact predicates.")
add("B12", "Intersection points of two surfaces are right and complete",
    "Every reported intersection of a knot line of one surface with the other surface lies on both at the reported parameters, patches and boundary flags, and for flat surfaces every such intersection is reported.",
    ["inputs"], "all pairs of a catalogue of surfaces (flat, curved, waving ones crossed in more patches) at all shifts and tilts of a grid, both orders",
    "Tests intersect one pair and look at the plot.",
    [B + "isec_surf_surf.py", B + "isec_curve_surf.py", B + "surface_point.py", B + "curve_point.py"],
    [("intersection of knot lines", "isec_surf_surf.IsecSurfSurf._compute_intersection"), ("Newton", "isec_curve_surf.IsecCurveSurf.get_initial_condition/compute_intersection")],
    ["reported points"],
    EX, "All positions of a catalogue; completeness is judged only for flat surfaces away from tangency. Connecting the points into curves is unfinished code and not covered.")

# ------------------------------------------------------------------ BREP
add("R01", "BREP file is well formed and has the topology of the model",
    "Whatever the history of building, extending, printing and writing models, including models sharing shapes and references, the written BREP file is well formed, and contains every shape of the model exactly once with its kind, flags (also those set by the user), parts in order and orientations; "
    "wires know whether they are closed, open wires make no face and parts of wrong kind are refused.",
    ["inputs", "histories"], "all edge directions, starts, walks and wrappings of a polygon; all subsets and orders of faces of a cube with shared or own edges; all compounds of up to 3 loose parts; all histories of build/print/write operations up to a depth",
    "Tests write one cube and one face, once; nothing reads the file back.",
    [B + "brep_writer.py"],
    [("numbering", "brep_writer.Shape._dfs, write_model, _is_numbered"), ("records", "brep_writer.Shape._brep_output/_subrecordoutput"), ("closed wires", "brep_writer.Wire._set_closed")],
    ["text written by write_model, str(shape)"],
    MC, "Files are read by an independent strict reader and matched with the specification of the model; histories up to the depth on real objects.")
add("R02", "Geometry in the BREP file is that of the model",
    "Curves and surfaces of any degree, knots and weights arrive in the BREP file exactly and are evaluated by its reader (OCC) to the same points; an edge without a curve is its straight line, a face without a surface is the plane or bilinear surface of its 3 or 4 vertices with matching 2D curves of its edges; "
    "geometry not matching the vertices is refused.",
    ["inputs"], "all curves and surfaces of a spline family; all triangles and quads of a lattice; all misplaced attachments of a catalogue; numbers needing all digits",
    "Tests never look at geometry in the written file.",
    [B + "brep_writer.py"],
    [("conversion", "brep_writer.curve_from_bs/surface_from_bs"), ("implicit geometry", "brep_writer.Approx, Face.implicit_surface, Edge.implicit_curve"), ("attachment checks", "brep_writer.Edge.attach_to_*")],
    ["curves and surfaces of the file, points and areas computed by OCC"],
    EX, "Complete family; the file is read by an independent reader and by OCC (gmsh).")
add("R03", "Locations in the BREP file place the parts where they were put",
    "Locations given for the whole model, its parts or geometry, elementary or composed in any way (powers, inverses, identities, equal compositions, nesting) and reused any number of times, place the parts as composed when the file is read.",
    ["inputs", "histories"], "all compositions of up to 2 factors with powers -1..2 and nested ones, for the whole and two parts, also after other models were written; matrices and shifts needing all digits",
    "Tests write one composed location which is not even used.",
    [B + "brep_writer.py"],
    [("numbering of locations", "brep_writer.Location._dfs, ComposedLocation._dfs"), ("root location", "brep_writer.write_model")],
    ["locations in the file, centres of faces read by OCC"],
    EX, "Complete family of compositions and uses; read by an independent reader numbering locations as OCC and by OCC (gmsh).")

# ------------------------------------------------------------------ GMSH
add("G01", "A mesh file gives back the mesh it was written from",
    "A mesh written and read, in text or binary form, is the same mesh: nodes, elements with types, tags and nodes, physical groups with names (also with spaces) and dimensions; "
    "the same mesh is read whatever the format version 1 or 2, order of sections, ids, blank lines, unknown sections; reading again or after reset does not mix meshes, writing does not change the mesh; gmsh reads the same.",
    ["inputs"], "a complete family of meshes of all element types times formats, section orders, blank line positions, unknown sections",
    "Tests read one mesh file.",
    [G + "gmsh_io.py"],
    [("reader", "gmsh_io.GmshIO.read"), ("writer", "gmsh_io.GmshIO.write_ascii/write_binary")],
    ["mesh read back", "mesh read by gmsh"],
    EX, "Complete family; files written and parsed by independent code and by gmsh.")
add("G02", "Element data written to a file are read back exactly",
    "Data of elements (scalars or vectors of any number of components, any names, times and element ids in any order) written to their own file or appended after the mesh are read back exactly under the element ids; "
    "data which are truncated, inconsistent or repeated are refused; gmsh reads the same data.",
    ["inputs"], "all shapes and dtypes of data times orders of ids, names, times, own file/appended",
    "No test reads back data of elements.",
    [G + "gmsh_io.py"],
    [("write", "gmsh_io.GmshIO.write_element_data/write_fields"), ("read", "gmsh_io.GmshIO.read_element_data_head/read_element_data_block")],
    ["data read back"],
    EX, "Complete family; files written and parsed by independent code and by gmsh.")
add("G03", "Measures and qualities of mesh elements are those of the geometry",
    "Volumes, areas, lengths, normals and quality measures of tetrahedra, triangles and lines are those of the geometry, whatever the order of vertices, position, size and orientation: qualities are within [0, 1], 1 just for regular elements, 0 for flat and degenerate ones, never NaN; "
    "quality statistics count every element once in its bin and list exactly the elements below the tolerance.",
    ["inputs"], "all tetrahedra and triangles of a lattice, nearly flat ones, in all orders of vertices, moved, rotated, mirrored and scaled; all meshes of up to 3 elements of a catalogue, qualities next to and at the borders of the bins and the tolerance",
    "Tests only call the healing, no quality is compared with a value.",
    [G + "heal_mesh.py"],
    [("shapes", "heal_mesh.Tetrahedron/Triangle/Line"), ("statistics", "heal_mesh.HealMesh.quality_statistics")],
    ["measure, gmsh_gamma, smooth_grad_error_indicator, ...", "histogram and bad elements"],
    EX, "Complete lattice family against independent formulas.")
add("G04", "Every history of mesh modifications makes the described mesh",
    "Adding, moving, merging and removing nodes and elements makes exactly the described mesh: elements of every node are known exactly, elements are not repeated, elements collapsed by a merge vanish, ids are not reused, all changed elements are reported, other elements stay; the result is written completely.",
    ["histories"], "all sequences of modifications of a small mesh of all element types up to a depth",
    "Tests never look at the mesh after healing.",
    [G + "heal_mesh.py"],
    [("incidence", "heal_mesh.HealMesh.node_els"), ("modifications", "heal_mesh.HealMesh.add_element/remove_element/merge_node/move_node"), ("output", "heal_mesh.HealMesh.write/stats_to_yaml")],
    ["mesh, node_els, modified_elements", "written files"],
    MC, "All histories up to the depth on real objects in lock step with an independent mesh model.")
add("G05", "Healing removes bad elements and keeps the mesh conforming",
    "Healing of a conforming mesh with flat boundary terminates, leaves no element of quality below the tolerance, no close nodes, no repeated or degenerate elements, and keeps the mesh conforming with its domain, volume, boundary triangles, fractures, lines and points; good meshes, also those healed before, are not changed.",
    ["inputs"], "all positions of inner, face and edge nodes of several meshes on lattices including extreme ones, nearly regular Delaunay meshes with slivers, single elements of any shape, degenerate and repeated elements added, lines and fractures on edges and faces of the worst or of all elements",
    "Tests run the healing of sample meshes and check nothing but a statistics file.",
    [G + "heal_mesh.py"],
    [("flat tetrahedra", "heal_mesh.HealMesh._check_flat_tetra, _heal_quad_flat_case, _heal_triangle_flat_case"), ("flat triangles and short edges", "heal_mesh.HealMesh._check_flat_triangle, _check_small_edge"), ("degenerate and repeated", "heal_mesh.HealMesh._check_dupl_nodes, _check_degen_nodes, _check_duplicate_element")],
    ["healed mesh"],
    EX, "Complete families of meshes; healed meshes are judged by independent invariants (face manifold, boundary, volumes, qualities). Known findings: three fully decorated lattices.")

add("G06", "Geometric operations on object sets keep shapes and regions",
    "After any sequence of operations (also with empty sets or sets with repeated entities): translations, rotations, scalings, copies, groupings, cuts, intersections, fragmentations, splits by cut, region or dimension, selections by intersection, removals of small parts and region assignments every object set covers exactly the expected part of space, each part carries the region of the entity it comes from, fragments of several sets share their common parts, consumed sets are invalidated, tools and unrelated sets are unchanged, and boundaries, masses and centres agree with the shape.",
    ["inputs", "histories"], "all histories of operations up to a depth over sets of boxes, rectangles and lines in several mutual positions",
    "Tests of this module are skipped; the bookkeeping of tags and regions depends on the whole history.",
    [G + "gmsh.py"],
    [("boolean operations", "gmsh.ObjectSet._apply_operation, gmsh.GeometryOCC.fragment, gmsh.ObjectSet.split_by_cut, select_by_intersect"), ("regions", "gmsh.ObjectSet.set_region, modify_regions, split_by_region, get_boundary_per_region"), ("movements", "gmsh.ObjectSet.translate, rotate, scale, copy")],
    ["object sets", "gmsh model"],
    MC, "Breadth first search over histories replayed on the real code with explicit states (lattice cells with regions and sharing of entities); the gmsh model is decoded into cells after every operation.")
add("G07", "Meshes are made exactly of the given objects and regions",
    "A mesh made from object sets has one physical group per region with a unique name and exactly the entities of the region, its elements fill the region, other shapes are eliminated when asked, fragments are meshed conformingly, the mesh step is respected, repeated meshing gives the mesh of the last call, files are written in the requested format and with the same regions, each element of a region once, shapes made by constructors have the requested geometry, fractures have the requested size, position and region, failures are reported by the documented exceptions and only one instance can exist.",
    ["inputs", "histories"], "all selections of object sets after several histories, all short lists of region names, families of shapes, all pairs of lattice fractures, all formats",
    "Tests of this module are skipped.",
    [G + "gmsh.py"],
    [("physical groups and meshing", "gmsh.GeometryOCC._assign_physical_groups, make_mesh, keep_only, write_mesh"), ("constructors", "gmsh.GeometryOCC.make_simplex, rectangle, box, cylinder, make_polygon, make_rectangle, make_fractures"), ("errors and instances", "gmsh.BoolOperationError, gmsh.GetBoundaryError, gmsh.GeometryOCC.__init__")],
    ["mesh and physical groups", "written files", "exceptions"],
    EX, "Complete families of histories, selections and names; the mesh in gmsh and the written file are judged by independent measures.")
add("G08", "Mesh size fields have the values of their definitions",
    "Box, constant, distance, threshold, minimum, maximum and restricted fields have in every point and on every entity the value given by their documentation for any nesting, and the background field controls the mesh.",
    ["inputs"], "all field expressions up to depth three over a set of leaves and parameters, all selections of restricted objects",
    "There is no test of fields.",
    [G + "field.py"],
    [("fields", "field.box, constant, distance_nodes, distance_edges, threshold, min, max"), ("restriction", "field.restrict"), ("background", "field.set_mesh_step_field")],
    ["sizes requested by the mesher"],
    EX, "Complete family of expressions; every size gmsh evaluates while meshing is compared with a reference interpreter of the expression.")
add("G09", "Option objects set exactly the named gmsh option",
    "Creating an option object sets its documented defaults and nothing else, assignment of a known option sets exactly that gmsh option to the value, and assignments of unknown options or of values of a wrong type are refused and change nothing, for any sequence of assignments.",
    ["inputs", "histories"], "all sequences of up to three operations over all options and several values; of one option set by two objects, a new object and directly in gmsh",
    "There is no test of options.",
    [G + "options.py"],
    [("options", "options.OptionsBase, options.Mesh, options.Geometry")],
    ["values of all options in gmsh"],
    MC, "Exhaustive histories on the real code with the table of all option values as the state.")
