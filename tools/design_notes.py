NOTES = {
"U01": "Oracle: list with cursor; groups are one entry; stack switching keeps one list per stack; actions issued while recording is off change the document only. "
       "Alphabet: do, failing-free nested groups, undo, redo, clear, enable/disable, switch stack, default stack. `long`: histories of hundreds of steps and deep groups walked completely.",
"U02": "Fault alphabet: action raising before/after its effect, raising in its undo part, in its redo part, group body raising after 0–2 actions, nested group raising; every kind of exception (also KeyboardInterrupt, SystemExit, GeneratorExit, own BaseException). "
       "After a failed undo/redo only the stack (empty, usable) is specified, as documented.",
"U03": "Compared after every operation: counts, texts (actions giving a note before, after, never), callbacks, haschanged against the savepoint position; the same seen from inside of the callbacks.",
"P01": "Oracle: `mc/planar.py` face tracing over exact coordinates: outer boundaries, holes, nesting, free segments and points. Edit graphs over 4–8 points with insertion/deletion of "
       "any segment or point until closure; line insertion with crossing and overlap on grids; the same at (-700000, -1100000) and with features from 1e-2 to 1e3 in one drawing. Large drawings (`mc/large.py`: hundreds of points, segments or polygons, identifiers above 256) built in three orders and taken apart; the same histories are used by P02–P05, P07, P10.",
"P02": "Oracle: planar union of exact segments: set of vertices and edges, returned chain, no duplicate segments, no vertex inside a segment.",
"P03": "Oracle: exact distances. Queries closer than 4 % to the tolerance circle are not judged; among equally near objects any is accepted.",
"P04": "Oracle: reference faces before and after; the reported change (none, add, split, join, remove, shape …) with the polygons named must be consistent with both.",
"P05": "Snapshots of the drawing taken when it was first reached are the reference for every undo and redo; attributes of points and segments included.",
"P06": "Every segment of every drawing split at several parameters, both orientations of the parts, joined back.",
"P07": "Query points in every face and hole of every state at least 0.02 from the segments; containment by exact ray casting.",
"P08": "Oracle: exact swept area test of moved vertices and segments; displacements with clearance below 0.03 are not judged. Also drawings of up to 200 points (grids, cells with triangles and points, waves) with groups of points from one to all.",
"P09": "Reference: the drawing drawn afresh with the new coordinates (segments, polygons, holes, wires' nesting, later edits).",
"P10": "The stored form of every state of the closures is rebuilt and compared (identifiers, nesting, attributes); one in N (thorough: all) continuations executed on both.",
"P11": "All singles, pairs, triples of a catalogue of drawings, in all orders, at several offsets and scales; lists of up to 10 drawings, pairs and triples with large drawings. Oracle: planar overlay with the origin of every node, segment and polygon. "
       "`merge_tol` has to exceed the rounding of the coordinates; far variants use a tolerance scaled to the place (with the default 1e-10 6 of 1053 far cases fail; "
       "this is a parameter of the caller, not a defect).",
"P12": "Operation sequences add/remove/query against brute force over all boxes; results must be a superset of true hits and (documented) exactly the touching boxes. Tables of up to 700 (thorough 3000) boxes with ids in any order and with gaps, two tables at once, far and tiny places.",
"P13": "Add/remove histories; identifiers are unique, kept while the object lives, found again, and not more than objects ever alive at once. Two maps at once, up to 600 objects removed in several orders and replaced.",
"P14": "Lines through crossings nearer than the tolerance. Result must be a valid planar drawing (P01 oracle on its own vertices) that contains the line up to 2 tolerances, attributes and undo included.",
"B01": "Oracle: Cox–de Boor in exact fractions; partition of unity, support, `find_knot_interval`, vectorised forms. Bases up to degree 8 and 150 intervals besides the small ones with all multiplicities.",
"B02": "Oracle: derivative recursion in exact fractions; at jumps the right (at the end left) limit.",
"B03": "pack/unpack round trips, equidistant knots, Greville poles of the identity.",
"B04": "Curve values, derivatives, arrays, rational weights, evaluation at knots and ends.",
"B05": "Surface values, derivatives, partial forms, copies; also 1e6 away from the origin.",
"B06": "Boxes of pieces contain dense parameter points; tree queries return every patch whose exact piece meets the box. Numbering of patches: all grids up to 24 x 24 and strips up to 200.",
"B07": "All histories of XY and Z transforms, baking, copying on up to three objects; oracle composes maps; inverse maps; conversion to full surfaces for affine and bilinear quads, also far, small, large.",
"B08": "All regular grids of the catalogue interpolate; every single displaced/missing/swapped point is refused; histories of transforms; files in two formats. Grids up to 20 x 20 and 2 x 40.",
"B09": "Lines, planes, bilinears from all tuples of points with overhangs; curve through points in tolerance.",
"B10": "Oracle: dense normal equations with independent basis; the scale of the regularisation is estimated in the code by a norm estimate (accepted within 3 %). "
       "Points on the border of quads far from the origin, default quads of rotated far point sets (all points must count).",
"B11": "Oracle: exact integer hull; rectangle over all edge directions, area compared. Sets of up to 320 points (circles, parabolas, collinear points, clouds, needles).",
"B12": "Oracle: crossing points solved independently for flat surfaces (completeness) and residual of both surfaces for all (soundness).",
"R01": "Oracle: own parser of the BREP grammar; reference counts, ordering (shapes after their parts), flags, tolerance, orientation and identity (shared parts once), histories of building and writing twice. Lattices of up to 64 (thorough 216) solids sharing all vertices, edges and faces; wires of up to 120 edges.",
"R02": "Parsed curves and surfaces are evaluated with the exact reference and compared with the model: 2D curves, 3D curves, ranges, rational weights; vertices against curves and surfaces (accept/refuse) at several places and sizes (tolerance 1e-3 of the curve). Lattices of up to 64 (thorough 216) cells with own curves and surfaces on all or some edges and faces.",
"R03": "Elementary and composed locations, powers, placement of parts; points computed from the file against composed maps. Up to 150 (thorough 400) locations: elementary, chains, nested, shared, powers.",
"G01": "Oracle: `mc/mesh_ref.py` strict reader and writer of MSH 2 text and binary; write/read in all combinations, 12 element types, tags, partitions, physical names (dictionary keyed by name only: names unique over dimensions are assumed). Meshes of up to 1500 (thorough 12000) nodes, elements and 60 names.",
"G02": "Element data with 1/3/9 components, several time steps and fields, truncation at every line, wrong counts; files written by gmsh. Up to 2500 (thorough 20000) elements and 12 fields after a mesh in one file.",
"G03": "Volumes, areas, lengths, quality measures of all shapes from vertex lattices, all vertex orders, maps of several sizes and offsets. Statistics: triangles with the quality just at and one rounding below every border of the bins and the tolerance. Statistics of up to 130 (thorough 600) elements.",
"G04": "Reference: dictionary model of nodes, elements, references; BFS over modify/duplicate/remove/extract operations; written files. Histories of 24 operations on boxes of up to 324 tetrahedra and squares of up to 288 triangles with dense, sparse, descending and huge identifiers.",
"G05": "Oracles: volume, area, length kept; conformity of faces; no element below the tolerance; nodes merged; stars, lattices, Delaunay sets, moved/scaled, decorated by lines and fractures; lattices of up to 48 cells with many moved nodes. "
       "Not covered: curved or perturbed boundaries (flat quads are collapsed without a link condition).",
"G06": "Oracle: lattice cells with regions and sharing; all operations of ObjectSet at depth 2 (thorough: main operations at depth 3) in 3D/2D/1D/mixed roots; every operation with empty sets among its operands (nothing lost, no copy left in the model); sets in which entities are repeated, and lists of sets sharing entities. "
       "Excluded: moving sets that share topology with others (gmsh moves the others), slit shapes, sets tangled by bounding entities or leftovers of tools, self-overlapping sets for cut/intersect/select.",
"G07": "Constructors and meshes: volumes, regions, physical groups, names, fractures, boundary sets, files in all formats; all combinations of a catalogue; sequences of make_mesh calls with changing objects, steps and dimensions, objects sharing fragments and regions, the geo kernel.",
"G08": "Every expression up to depth three evaluated through gmsh at the mesher's query points against Python arithmetic. "
       "`FieldX/Y/Z`'s coordinate restriction is ignored by gmsh 4.15; edge sampling excludes end nodes; threshold above the upper bound is judged only as promised.",
"G09": "Dictionary of all options before/after; only the named option may change; enumerations, texts, numbers, histories of three assignments; one option set in turn by two objects, a new one and by gmsh itself.",
}
