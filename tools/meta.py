"""The texts of properties.jsonl and MANIFEST.json, by property; tools/mkprops.py writes both files."""
META = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     technique=technique, note=note, state=state)


SAN = 'AddressSanitizer, LeakSanitizer and a UBSan subset; every CHECK/DCHECK on'
T = 'runtime monitoring: '

prop('T01', 'Durations follow saturating extended-real arithmetic',
     'Adding, subtracting, scaling and comparing durations behaves like arithmetic on the extended reals, rounded to single precision: infinities saturate and never turn into NaN through an operation whose mathematical result is defined. Conversions between units and from and to the standard library\'s wall-clock durations agree with the value held, saturating outside of the range of the target.',
     ['inputs', 'programs'], 'every sequence of duration operations, over every float including infinities, zero, subnormals',
     'duration_test.cc samples a dozen operand pairs; saturation and the combinations of zero with infinity are a product space no table covers (it missed 0 * infinity).',
     ['ink/types/duration.h', 'ink/types/duration.cc'],
     [('saturating float operators', 'ink/types/duration.h'), ('conversion and formatting', 'ink/types/duration.cc')],
     T + 'differential monitor (double-precision extended reals) over random operation programs under ASan+UBSan', 'Exploration: holds on the programs generated; ' + SAN + '.')
prop('T02', 'URIs parse canonically, round-trip and compare by meaning',
     'A string is accepted as a resource identifier exactly when it matches the documented grammar; an accepted one prints to a canonical form that parses back to an equal value and is a fixed point. Two accepted strings compare equal and hash equally exactly when their canonical forms are the same; rejection is an error status, never a crash.',
     ['inputs'], 'every byte string',
     'uri_test.cc and its fuzz test run a fixed list offline; acceptance is a language membership question.',
     ['ink/types/uri.h', 'ink/types/uri.cc'],
     [('parser', 'ink/types/uri.cc'), ('equality and hash', 'ink/types/uri.h')],
     T + 'independent grammar oracle over mutated strings under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('T03', 'Small containers keep value semantics while sharing storage',
     'A bounded small array behaves as a sequence of values with its documented capacity; a copy-on-write holder never lets a write through one copy be seen through another, keeps moved-from objects usable, and does not copy while it is the only owner. Physical distances keep their value through every unit conversion and follow saturating arithmetic.',
     ['programs', 'inputs'], 'every sequence of construct, copy, move, assign, self-assign, write and compare operations',
     'Tests write once to one copy; aliasing bugs need longer sequences of copies, moves and writes.',
     ['ink/types/small_array.h', 'ink/types/internal/copy_on_write.h', 'ink/types/physical_distance.h', 'ink/types/physical_distance.cc'],
     [('small array', 'ink/types/small_array.h'), ('copy-on-write holder', 'ink/types/internal/copy_on_write.h'), ('distance', 'ink/types/physical_distance.cc')],
     T + 'model-based random programs (vectors of values as model, object counting) under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('C01', 'Color conversions preserve the color and stay in their documented range',
     'Converting a color between formats and between color spaces and back gives the same color up to rounding, agrees with an independent double-precision computation of the standard formulas, and keeps alpha. Clamping and scaling to gamut always give in-gamut channels, leave in-gamut colors alone, and keep infinities from turning into NaN; packing to 8-bit channels rounds to nearest.',
     ['inputs'], 'every channel value including out-of-gamut, infinite and NaN ones, every format and color space',
     'color_test.cc checks named colors; the conversions are functions on R^4.',
     ['ink/color/color.h', 'ink/color/color.cc', 'ink/color/color_space.h', 'ink/color/color_space.cc'],
     [('formats', 'ink/color/color.cc'), ('space conversion', 'ink/color/color_space.cc')],
     T + 'differential monitor (double-precision color formulas) over random colors under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G01', 'Angles, vectors, points, segments and triangles compute the plane geometry',
     'Normalizing an angle gives an equivalent one in the documented half-open interval; unit vectors have length one in the direction of the original for every finite non-zero vector, however small or large. Angles between vectors, dot and cross products, interpolation, projection onto a segment, lengths, midpoints and signed areas agree with double-precision arithmetic up to single-precision rounding (angles between vectors up to about 1e-3 radians), and near-comparisons accept exactly differences up to their tolerance.',
     ['inputs'], 'every finite and special operand, including subnormal, huge, coincident and nearly parallel ones',
     'Unit tests use a few round numbers; overflow, underflow and rounding at interval ends need the full float range.',
     ['ink/geometry/angle.cc', 'ink/geometry/vec.h', 'ink/geometry/vec.cc', 'ink/geometry/point.h', 'ink/geometry/segment.cc', 'ink/geometry/triangle.cc'],
     [('normalization', 'ink/geometry/angle.cc'), ('unit vectors and angles between', 'ink/geometry/vec.cc'), ('projection', 'ink/geometry/segment.cc')],
     T + 'differential monitor (double precision) over the whole float range under ASan+UBSan', 'Exploration with rounding tolerances stated in DESIGN.md; ' + SAN + '.')
prop('G02', 'Rects and envelopes stay normalized and contain exactly what was put in',
     'After any sequence of setters, translations, joins and resizings a rectangle keeps min <= max in both axes and the dimensions, center and corners the operations specify; aspect-ratio variants contain, or are contained in, the original with the same center, also for rectangles without area. An envelope is the smallest axis-aligned box of everything added to it, independent of the order of additions; it is empty exactly when nothing was added, and intersections of envelopes are the common region.',
     ['programs', 'inputs'], 'every sequence of operations and every set of shapes added, in every order',
     'Tests apply one operation to one rectangle; normalization and order independence are properties of sequences.',
     ['ink/geometry/rect.h', 'ink/geometry/rect.cc', 'ink/geometry/envelope.h', 'ink/geometry/envelope.cc'],
     [('rect', 'ink/geometry/rect.h'), ('aspect ratio', 'ink/geometry/rect.cc'), ('envelope', 'ink/geometry/envelope.cc')],
     T + 'model-based random operation programs (double-precision boxes) under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G03', 'Affine transforms compose, invert and map shapes faithfully',
     'Applying a transform to a point, segment, triangle, rectangle or quad gives the image of each of its points; composing two transforms acts as applying one after the other, and an inverse exists exactly for non-zero determinants and undoes the transform. Transforms found from pairs of segments, triangles, rectangles or quads map the first onto the second, also far from the origin; quads keep normalized dimensions through every setter, contain exactly the points of their parallelogram, and joining a point gives a quad of the same rotation and shear that contains the point and the old quad.',
     ['inputs', 'programs'], 'every non-singular and singular transform, every quad including degenerate, negative-height and sheared ones',
     'Tests use axis-aligned and right-angled cases; they missed a joined point left outside, lost extents under singular transforms and cancellation far from the origin.',
     ['ink/geometry/affine_transform.h', 'ink/geometry/affine_transform.cc', 'ink/geometry/quad.h', 'ink/geometry/quad.cc'],
     [('apply, compose, find', 'ink/geometry/affine_transform.cc'), ('quad join and containment', 'ink/geometry/quad.cc')],
     T + 'differential monitor (double-precision matrices and polygons) under ASan+UBSan', 'Exploration with rounding tolerances; near-singular images are skipped; ' + SAN + '.')
prop('G04', 'Intersection tests are exact, symmetric and agree with containment',
     'For every pair of point, segment, triangle, rectangle and quad the intersection test tells whether the two closed sets share a point, in either argument order; degenerate shapes count as the point or segment they collapse to. The answer is exact when the coordinates lie on a grid small enough that no rounding occurs, at any scale, and otherwise right for every pair that is apart, or robustly overlapping, by more than rounding.',
     ['inputs'], 'every pair of shapes, including degenerate, touching, collinear, tiny and far-away ones',
     'Tests list hand-made pairs at unit scale; they missed underflow at small scales and rounding for nearly collinear shapes.',
     ['ink/geometry/intersects.h', 'ink/geometry/intersects.cc', 'ink/geometry/internal/intersects_internal.cc', 'ink/geometry/triangle.cc'],
     [('pairwise tests', 'ink/geometry/internal/intersects_internal.cc'), ('containment', 'ink/geometry/triangle.cc')],
     T + 'exact-predicate oracle on power-of-two grids, tolerance oracle elsewhere, under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G05', 'Distances between shapes are the Euclidean distances of the closed sets',
     'For every pair of point, segment, triangle, rectangle and quad the distance is non-negative, symmetric and, up to single-precision rounding relative to the coordinates, the least distance between their points; it is zero up to rounding when they intersect and positive when they are apart by more than rounding.',
     ['inputs'], 'every pair of shapes, including degenerate and far-away ones',
     'Tests list hand-made pairs; the nearest features of two shapes vary combinatorially.',
     ['ink/geometry/distance.h', 'ink/geometry/distance.cc'],
     [('pairwise distance', 'ink/geometry/distance.cc')],
     T + 'differential monitor (double-precision set distance) under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G06', 'Mesh formats and meshes are accepted exactly when well-formed',
     'A mesh format is accepted exactly when it has between one and the documented maximum of attributes, each of a known type and of a known or custom id that occurs only once, and its position has two components; component counts, packed and unpacked widths and bit layouts are those documented for each type, equality compares the attributes and the index kind, and removing attributes fails for the position or absent ones and otherwise keeps the rest in order. A mesh is created exactly when one list of values per component is given, all of one length within the vertex limit, all values are finite, packed ones with a range within float, triangle indices come in threes of existing vertices, and explicit packing parameters are valid and can represent the values; anything else is refused with an error, never a crash.',
     ['inputs'], 'every attribute list and every combination of vertex and index data, valid or wrong in any one way',
     'Tests use a handful of formats and one mistake at a time.',
     ['ink/geometry/mesh_format.h', 'ink/geometry/mesh_format.cc', 'ink/geometry/mesh.h', 'ink/geometry/mesh.cc'],
     [('format validation', 'ink/geometry/mesh_format.cc'), ('mesh validation', 'ink/geometry/mesh.cc')],
     T + 'independent format table and validity oracle over generated attribute lists and data under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G07', 'Packed mesh attributes round-trip within half a quantization step',
     'Each value of a packed attribute is stored as an integer in the documented bit layout, and reads back within half a step of the value given (plus rounding), where the step is the range of the attribute over its largest integer unless explicit packing parameters were given. Packing keeps order and equality, maps the minimum to zero and the maximum to the largest integer, and unpacked attributes are bit-exact; bounds, positions and triangles reported by the mesh are those of the values it decodes.',
     ['inputs'], 'every attribute type and every finite vertex data, including ranges of zero, subnormal or nearly the whole float range',
     'Tests pack a few round numbers; layouts of several components, tiny and huge ranges interact with rounding.',
     ['ink/geometry/internal/mesh_packing.h', 'ink/geometry/internal/mesh_packing.cc', 'ink/geometry/mesh.cc'],
     [('packing', 'ink/geometry/internal/mesh_packing.cc'), ('reading back', 'ink/geometry/mesh.cc')],
     T + 'independent bit-level decoder and error-bound monitor over generated meshes under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G08', 'Mutable mesh edits and their conversion to meshes lose nothing',
     'After any sequence of edits a mutable mesh reads back exactly the values and triangles last written, and nothing else changes. Converting it fails exactly for invalid triangles, non-finite values, a range beyond float or an invalid list of omitted attributes; otherwise the meshes hold exactly the original triangles in order with the vertices those use, at most 65536 per mesh and packed alike in all of them, without the omitted attributes, each value within its quantization error. Vertices may be moved by quantization correction only if afterwards no triangle is flipped, and triangles that share no vertex never flip.',
     ['programs', 'inputs'], 'every sequence of edits and every resulting mesh, including invalid ones and ones that need several partitions',
     'Tests convert small meshes; partitioning and flip correction depend on the whole connectivity.',
     ['ink/geometry/mutable_mesh.h', 'ink/geometry/mutable_mesh.cc', 'ink/geometry/internal/mesh_packing.cc'],
     [('edits and conversion', 'ink/geometry/mutable_mesh.cc'), ('partitioning', 'ink/geometry/internal/mesh_packing.cc')],
     T + 'model-based edit programs and a conservation monitor over conversions under ASan+UBSan', 'Exploration; ' + SAN + '.')
prop('G09', 'Partitioned meshes keep groups, meshes and outlines exactly as given',
     'A partitioned mesh is created exactly when each group has meshes of one format that all contain triangles and its outlines are non-empty and refer to existing vertices; groups, meshes, outlines, positions and bounds then read back as given, for the original and every copy, and asking for a group, outline or point out of range is a checked failure. Built from mutable meshes, its outlines refer to the same vertex positions; with groups but no meshes it is empty, and every spatial query on it finds nothing; the spatial index is built on first use and shared by copies.',
     ['inputs', 'histories'], 'every list of groups, valid or wrong in any one way, with any number of groups, meshes and outlines',
     'Tests use one or two groups; they missed that queries on groups without meshes crash.',
     ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc'],
     [('construction', 'ink/geometry/partitioned_mesh.cc'), ('outlines', 'ink/geometry/partitioned_mesh.h')],
     T + 'model-based monitor over generated groups with planted errors under ASan+UBSan', 'Exploration; at exactly 65536 meshes, where documentation and upstream test disagree, either answer is accepted; ' + SAN + '.')
prop('G10', 'Spatial queries visit exactly the triangles that intersect the query',
     'The bulk-loaded tree visits every element whose box meets the query box, once each, until the visitor stops it. Visiting a partitioned mesh with a point, segment, triangle, rectangle, quad or another partitioned mesh under any transform, including singular ones, visits each intersected triangle exactly once and no other, for any number of triangles; coverage is the visited area over the total area, its threshold test agrees with it, and intersection tests with the mesh agree with the visits.',
     ['inputs'], 'every set of triangles, every query shape and transform',
     'Tests query small fixed meshes; they missed singular transforms along a diagonal, triangles past the 65536th and empty trees.',
     ['ink/geometry/internal/static_rtree.h', 'ink/geometry/partitioned_mesh.cc', 'ink/geometry/intersects.cc', 'ink/geometry/internal/algorithms.cc'],
     [('tree', 'ink/geometry/internal/static_rtree.h'), ('visits and coverage', 'ink/geometry/partitioned_mesh.cc'), ('shape intersection', 'ink/geometry/intersects.cc')],
     T + 'brute-force differential monitor with exact predicates on grids, under ASan+UBSan', 'Exploration; near-touching pairs in general position are not judged; ' + SAN + '.')
prop('G11', 'Interpolation, intersection and circle helpers match exact geometry',
     'Linear interpolation of numbers, points, vectors, angles and colors and its inverse, interpolation of angles the short way and of vectors along a spiral give the value of their formula to within rounding, and exactly the ends at 0 (the inverse: exactly 0 and 1 at the ends, and 0 for an empty range). Two segments have intersection ratios and a point exactly when they touch, the first of the points they share with the ratios in [0, 1]; infinite lines exactly when not parallel; projections onto a segment and barycentric coordinates exactly when not degenerate. Circles contain each other, give points and tangent angles, and are approximated by arcs that keep the first and last point, are evenly spaced and use the fewest points for which the given chord height is kept, for every radius, angle and positive chord height.',
     ['inputs'], 'all operands, degenerate ones included',
     'Tests check a few hand-picked operands of each helper; degenerate operands and rounding at the ends are what breaks.',
     ['ink/geometry/internal/algorithms.h', 'ink/geometry/internal/algorithms.cc', 'ink/geometry/internal/circle.h', 'ink/geometry/internal/circle.cc', 'ink/geometry/angle.cc'],
     [('interpolation and intersection', 'ink/geometry/internal/algorithms.cc'), ('circles', 'ink/geometry/internal/circle.cc')],
     T + 'reference formulas in double precision, segments on integer grids compared with exact predicates, under ASan+UBSan', 'Exploration; near-parallel vectors and tangents of nearly nested circles only to within the precision of single-precision angles; ' + SAN + '.')
prop('G12', 'Convex hulls, cleaned-up outlines and filled outlines are exact',
     'The convex hull of a list of points is the strictly convex, counter-clockwise polygon of those input points that are corners of it, each once, with every point in it, for any number of points. Cleaning up a drawn line trims each end at its outermost self-intersection unless that end can be connected (to the nearest point of the line, judged by the documented distances and ratios), keeps all points between, and returns lines with nothing to trim or connect, with fewer than two distinct points included, unchanged. Filling an outline gives a non-empty mesh with no overlaps that covers exactly the points around which the outline winds, and an error for fewer than three points or points on one line.',
     ['inputs'], 'every list of points, with repeated, collinear and many points, and all thresholds',
     'Tests use a few points each; hulls of many or nearly collinear points and lines with repeated points go wrong silently.',
     ['ink/geometry/convex_hull.h', 'ink/geometry/internal/convex_hull_helper.h', 'ink/geometry/internal/polyline_processing.h', 'ink/geometry/internal/polyline_processing.cc', 'ink/geometry/tessellator.h', 'ink/geometry/tessellator.cc', 'ink/geometry/internal/generic_tessellator.h'],
     [('hulls', 'ink/geometry/internal/convex_hull_helper.h'), ('lines', 'ink/geometry/internal/polyline_processing.cc'), ('filling', 'ink/geometry/tessellator.cc')],
     T + 'reference hull, reference clean-up and winding-number oracles in double precision under ASan+UBSan', 'Exploration; lines whose outcome hangs on a threshold to within rounding are not judged, and libtess2 is a stand-in (DESIGN.md section 2); ' + SAN + '.')
prop('S01', 'Input batches hold exactly the valid inputs given, in order',
     'Creating, appending to or setting an element of a batch of stroke inputs succeeds exactly when every input is valid on its own (known tool, finite position, time, optional pressure, tilt, orientation and unit length in range) and fits its neighbors (same tool, unit length and set of optional properties, time not decreasing, no repeated position at the same time); a refused operation leaves the batch as it was. After any sequence of operations, including appending a batch to itself, copying, moving, erasing and transforming, each batch reads back by index and by iterator exactly its inputs, copies are unaffected by changes to the other, and the tool, duration and presence of optional properties reported agree with the inputs.',
     ['programs', 'histories'], 'every sequence of operations on batches that share storage, with valid and invalid inputs',
     'Tests apply one or two operations to a fresh batch; they missed that appending a batch to itself reads freed memory.',
     ['ink/strokes/input/stroke_input_batch.h', 'ink/strokes/input/stroke_input_batch.cc', 'ink/strokes/input/stroke_input.h', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc'],
     [('operations', 'ink/strokes/input/stroke_input_batch.cc'), ('validity', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc')],
     T + 'model-based random operation programs (vectors as model, independent validity oracle) under ASan+UBSan', 'Exploration; an orientation of exactly a full turn may be accepted or refused; ' + SAN + '.')
prop('S02', 'A stroke drawn in steps equals the stroke drawn at once',
     'However inputs are split over enqueue and update calls, and whatever was predicted and replaced in between, the shape of an in-progress stroke after an update depends only on the brush, all real inputs so far, the current prediction and the current time: its vertex positions, colors, texture coordinates, edge labels, triangles, outlines and bounds are those of a fresh stroke given the same inputs in one update. The same holds when the object was used for other strokes before; the processed inputs are the real ones followed by the last prediction, and the counts of both agree.',
     ['histories', 'inputs'], 'every brush, every sequence of inputs and every way to split it over updates with predictions',
     'Tests use short fixed strokes in one or two updates; they missed stale predictions, travel directions computed too early and bounds of vertices moved since.',
     ['ink/strokes/in_progress_stroke.h', 'ink/strokes/in_progress_stroke.cc', 'ink/strokes/internal/stroke_shape_builder.cc', 'ink/strokes/internal/stroke_input_modeler.cc', 'ink/strokes/internal/brush_tip_modeler.cc', 'ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.cc'],
     [('update', 'ink/strokes/in_progress_stroke.cc'), ('save and restore', 'ink/strokes/internal/brush_tip_extruder/geometry.cc'), ('tip states', 'ink/strokes/internal/brush_tip_modeler.cc')],
     T + 'metamorphic monitor (incremental against one-shot execution) over random brushes and histories under ASan+UBSan', 'Exploration; edge derivatives, estimates that depend on triangulation order, are not compared; the input smoothing library is a stand-in; ' + SAN + '.')
prop('S03', 'Updates change exactly what they must and report where',
     'Enqueuing or updating succeeds exactly when a stroke is started, the inputs are not finished and the batches are valid continuations of one another; a refused operation leaves inputs, shape and state unchanged. An update is needed exactly while there are queued inputs or effects of time to show, and one at the same time with nothing queued leaves the shape as it is. Every triangle added, removed or changed in position, color or texture coordinate since the updated region was last reset lies inside the updated region.',
     ['histories', 'inputs'], 'every brush and every history of enqueue, update, reset and finish calls, refused ones included',
     'Tests check the region after one or two updates of fixed strokes; what an update touches depends on the whole history.',
     ['ink/strokes/in_progress_stroke.h', 'ink/strokes/in_progress_stroke.cc', 'ink/strokes/internal/stroke_shape_builder.cc', 'ink/strokes/internal/brush_tip_extruder.cc'],
     [('state machine', 'ink/strokes/in_progress_stroke.cc'), ('updated region', 'ink/strokes/internal/brush_tip_extruder.cc')],
     T + 'online monitor comparing observed state before and after every call over random histories under ASan+UBSan', 'Exploration; the region may be larger than needed; edge derivative estimates are not judged; ' + SAN + '.')
prop('S04', 'Stroke shapes are always well-formed and copied faithfully',
     'After every update each coat has triangles and outlines of existing vertices only, at least one outline if it has triangles and no empty one, outlines run clockwise (up to slivers thinner than the brush tolerance), every vertex is finite with color shifts in [-1, 1] and texture coordinates in [0, 1], bounds are those of the vertices, and a coat does not depend on the other coats. A finished copy has the same brush and inputs, one group per coat with exactly the attributes that the coat needs (or all), and the same triangles, attribute values and outlines up to packing, equals a stroke made from the same inputs at once, and is not changed by later updates.',
     ['histories', 'inputs'], 'every brush with any finite behavior parameters, every input sequence and every moment to copy',
     'Tests copy a few simple strokes; they missed particle brushes of zero width with winding textures, outlines without triangles and overflowing behaviors, all of which lost the shape.',
     ['ink/strokes/in_progress_stroke.cc', 'ink/strokes/stroke.cc', 'ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.cc', 'ink/strokes/internal/stroke_vertex.cc', 'ink/geometry/partitioned_mesh.cc'],
     [('copies', 'ink/strokes/in_progress_stroke.cc'), ('vertices', 'ink/strokes/internal/brush_tip_extruder/geometry.cc'), ('partitioned outlines', 'ink/geometry/partitioned_mesh.cc')],
     T + 'structural invariant monitor on every intermediate state and differential monitor of copies under ASan+UBSan', 'Exploration; position offsets are kept to magnitudes where single precision does not overflow; ' + SAN + '.')
prop('S05', 'Modeled inputs are a finished prefix plus a replaceable rest',
     'The model of a stroke\'s raw inputs starts exactly at the first input with nothing traveled; successive modeled inputs lie at least the tolerance apart with times that never decrease and traveled distances that add up their gaps, and each has the optional properties the inputs have, in range, and no others. Whatever is added or predicted later, modeled inputs once reported as stable never change, predictions leave no trace in what is modeled from real inputs, and the totals of distance and time reported are those of the last modeled and the last real modeled input. Starting a new stroke forgets everything.',
     ['histories', 'inputs'], 'every input sequence with and without optional properties, every way to split it over updates with predictions, every tolerance',
     'Tests feed a few fixed inputs; stability and freedom from predictions are statements about all later updates.',
     ['ink/strokes/internal/stroke_input_modeler.h', 'ink/strokes/internal/stroke_input_modeler.cc'],
     [('modeling', 'ink/strokes/internal/stroke_input_modeler.cc')],
     T + 'online monitor of every update, and comparison with a modeler that never saw a prediction, under ASan+UBSan', 'Exploration; ink-stroke-modeler is replaced by a stand-in of the same interface (DESIGN.md section 2); ' + SAN + '.')
prop('S06', 'Brush behaviors compute what their nodes say',
     'Each tip shape of a stroke is the one that the brush tip\'s size, scale, rotation, slant, pinch, rounding and opacity and its behavior graphs give for that modeled input: sources read the documented quantity in the documented units and are null without it, map their value range by clamping, repeating or mirroring, filters, damping, response curves, sums, products and interpolations follow their definitions, null keeps the target at its last value, multipliers multiply and offsets add, and each result is clamped to its documented range. With particle gaps there is one tip shape per gap passed in both distance and time, at the interpolated input, followed by a break, and otherwise one per modeled input. Tip shapes reported as final are those that all later inputs and times would give, and when no effect of time is reported as unfinished, time alone changes none.',
     ['histories', 'inputs'], 'every behavior graph over every sequence of modeled inputs, split over updates in every way',
     'Tests evaluate one node or one target at a time; here random graphs of up to a dozen nodes run over whole strokes, with final states kept from earlier updates.',
     ['ink/strokes/internal/brush_tip_modeler.h', 'ink/strokes/internal/brush_tip_modeler.cc', 'ink/strokes/internal/brush_tip_modeler_helpers.cc'],
     [('tip modeling and final states', 'ink/strokes/internal/brush_tip_modeler.cc'), ('behavior nodes and targets', 'ink/strokes/internal/brush_tip_modeler_helpers.cc')],
     T + 'reference evaluator in interval arithmetic over the whole stroke, compared with every state of every update, under ASan+UBSan', 'Exploration; values that rounding decides are counted as undecided, not judged; ' + SAN + '.')
prop('S07', 'Stroke vertices carry the color, texture place and edge of their tip shape',
     'Every vertex of a particle carries exactly the opacity and color shifts of the tip shape it was made from and, with one texture stamped on particles, its place in that shape\'s rotated unit box; vertices of a continuous stroke carry shifts of tip shapes around them, and no texture place. Vertices on the outline are marked as edges to be smoothed and can be moved outwards along their derivatives, those inside are not. Marks, margins and all attributes survive packing into a mesh, and blending vertices blends each attribute.',
     ['inputs'], 'every tip shape, color and texture along every path',
     'Tests look at the vertices of single extrusions; that each vertex of a finished coat still belongs to its own tip shape is a statement about the whole mesh after simplification and intersection.',
     ['ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/stroke_vertex.h', 'ink/strokes/internal/stroke_vertex.cc', 'ink/strokes/internal/stroke_shape_builder.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.cc', 'ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc'],
     [('vertex attributes', 'ink/strokes/internal/brush_tip_extruder.cc'), ('labels', 'ink/strokes/internal/brush_tip_extruder/geometry.cc'), ('packing and blending', 'ink/strokes/internal/stroke_vertex.cc')],
     T + 'every vertex of finished coats compared with the tip states of an independently run tip modeler, under ASan+UBSan', 'Exploration; where the algorithm interpolates (intersections of a stroke with itself) only a fraction of vertices is required to fit; ' + SAN + '.')
prop('S08', 'Stroke meshes cover exactly what the tip sweeps',
     'The triangles of a coat cover the area swept by its tip, that is the convex hulls of consecutive tip shapes without a break between them, each shape the rounded, pinched, slanted and rotated rectangle that the brush tip documents, and nothing else. For strokes that turn gently (at most half a radian per brush size) with a constant tip shape, no point farther than three brush epsilons inside of that area is left uncovered, and no triangle reaches farther than that out of it (a small fraction of the tip size if the epsilon is below 2% of the brush size or the tip size changes along the stroke). For all other strokes without behaviors most of the area is covered, and nothing farther than 1.5 brush sizes from it.',
     ['inputs'], 'every tip shape along every path',
     'Tests check the vertices of a few shapes against expected positions; that the whole mesh covers a sweep is a statement about the union of all triangles.',
     ['ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/brush_tip_shape.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.cc', 'ink/strokes/internal/brush_tip_extrusion.cc', 'ink/strokes/internal/constrain_brush_tip_extrusion.cc', 'ink/strokes/internal/circular_extrusion_helpers.cc', 'ink/geometry/internal/circle.cc'],
     [('extrusion', 'ink/strokes/internal/brush_tip_extruder.cc'), ('tip shapes', 'ink/strokes/internal/brush_tip_shape.cc'), ('geometry', 'ink/strokes/internal/brush_tip_extruder/geometry.cc')],
     T + 'sampling oracle for the swept area (tip shapes from their documentation) over random strokes under ASan+UBSan', 'Exploration; sharp turns cut corners, so only gentle strokes are judged to within the brush epsilon; ' + SAN + '.')
prop('S09', 'Strokes keep brush, inputs and shape consistent as values',
     'A stroke reads back the brush, inputs and duration it was last given, with one render group per brush coat, and its shape is always the one that its brush and inputs generate, or the given one: setting inputs always makes it anew, setting the brush or family does exactly when tips, size or epsilon differ, setting the size or epsilon when the value differs, and setting the color never. An invalid size or epsilon is refused with an error and changes nothing, and a given shape with another number of groups than the brush has coats is refused by a fatal check. Strokes are values: copies, moves, the caller\'s batches and arguments that are the stroke\'s own brush or inputs never make a change to one show up in another or get lost.',
     ['histories', 'inputs'], 'every program of creations, copies, moves and setters over strokes, with valid, invalid, equal and own arguments',
     'Stroke tests call one setter on one stroke; sharing and staleness show only after sequences of setters, copies and moves.',
     ['ink/strokes/stroke.h', 'ink/strokes/stroke.cc'],
     [('setters and regeneration', 'ink/strokes/stroke.cc'), ('regeneration through an in-progress stroke', 'ink/strokes/in_progress_stroke.cc')],
     T + 'model-based monitor over random programs on several strokes, shapes compared with ones generated from scratch, under ASan+UBSan', 'Exploration; whether a change of the input model alone makes the shape anew is not specified and either is accepted; ' + SAN + '.')
prop('S10', 'A tip shape is the documented rounded polygon, with exact bounds and outline',
     'A tip shape is the rounded, pinched, slanted and rotated rectangle of its tip state up to a few epsilons, its bounds and its containment test against another shape are exact, and its outline, split into a left and a right side, is in order, convex, and within the chord height of the shape. The outline formed by the start and end caps of two shapes that lie apart is that of their convex hull up to the chord height, and with a turn over a third shape it encloses the hulls of the first and of the last two and nothing else.',
     ['inputs'], 'every tip state and pair of tip states, including circles, stadiums, triangles, single points, and equal, touching and nested shapes',
     'Tip shape tests compare a few axis-aligned shapes; which corner or circle is met first depends on rotation, slant, pinch and direction together.',
     ['ink/strokes/internal/brush_tip_shape.cc', 'ink/strokes/internal/brush_tip_shape.h', 'ink/geometry/internal/circle.cc'],
     [('tip shape', 'ink/strokes/internal/brush_tip_shape.cc'), ('circles and tangents', 'ink/geometry/internal/circle.cc')],
     T + 'geometric oracle (shape built from its tip state and hulls in double precision) over random and degenerate tip states under ASan+UBSan', 'Exploration; a shape followed by a much smaller or a different one may lose a part of its sides beside its rear, and turns are judged by sampled points; ' + SAN + '.')
prop('B01', 'Brush validation accepts exactly the documented brushes',
     'Creating a brush family succeeds exactly when it has at most the documented number of coats, one tip per coat, every number finite and in its documented range, every enumerator named, every behavior graph well-formed, textures of texture type with one mapping per paint, and no URI or one of brush-family type; otherwise it fails with an error status and never crashes. An accepted family or brush reads back what it was given, refused setters change nothing, brush size and epsilon stay finite and positive with size at least epsilon, each coat names exactly the vertex attributes it needs, and equality of tips and paints notices a change to any single property, with equal paints hashing equally.',
     ['inputs'], 'every brush, including every single property out of range, infinite or NaN, and every malformed behavior graph',
     'Tests set one property of one brush out of range at a time; validity is a predicate over dozens of numbers and a graph, and equality over all of them.',
     ['ink/brush/brush.cc', 'ink/brush/brush_family.cc', 'ink/brush/brush_behavior.cc', 'ink/brush/brush_tip.cc', 'ink/brush/brush_paint.cc', 'ink/brush/brush_coat.cc', 'ink/brush/easing_function.cc'],
     [('family and brush validation', 'ink/brush/brush_family.cc'), ('behavior graphs', 'ink/brush/brush_behavior.cc'), ('paint', 'ink/brush/brush_paint.cc')],
     T + 'independent table of documented ranges as oracle over perturbed random brushes under ASan+UBSan', 'Exploration; texture offsets of layers are only required to be finite; ' + SAN + '.')
prop('B02', 'Easing functions follow their documented curves',
     'Evaluating an easing function at any position gives the documented value: the predefined and custom cubic curves up to interpolation between 14 evenly spaced points, piecewise linear ones (the last of repeated positions counts, end segments are extended) and step functions up to rounding, with the start and end values 0 and 1 where documented. Between the critical points reported in increasing order within the unit interval, the function is monotonic.',
     ['inputs'], 'every valid easing function at every position, including the corners, positions outside of the unit interval, and NaN',
     'easing tests compare a handful of curves at a handful of positions.',
     ['ink/strokes/internal/easing_implementation.cc', 'ink/strokes/internal/easing_implementation.h', 'ink/brush/easing_function.h'],
     [('evaluation', 'ink/strokes/internal/easing_implementation.cc')],
     T + 'differential monitor (exact curves in double precision) over random easing functions under ASan+UBSan', 'Exploration; extending a vertical end segment is unspecified and not judged; ' + SAN + '.')
NOT_APPLICABLE = {}
prop('K01', 'Values that share storage can be used from many threads at once',
     'Several threads can read the same stroke, shape, mesh, input batch, brush or quad at the same time (the first spatial query of a shape, which builds its index for all copies, included), copy it, change their copies and generate strokes of their own, without any data race. Every call returns what the same call would return on one thread, and no change to a copy is ever seen by another thread.',
     ['schedules', 'histories'], 'every interleaving of reads, copies and changes of copies on any number of threads',
     'Tests run on one thread; a missing lock or a cache in a const function never fails there.',
     ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc', 'ink/types/internal/copy_on_write.h', 'ink/geometry/quad.h', 'ink/strokes/stroke.cc', 'ink/geometry/mesh.h', 'ink/strokes/input/stroke_input_batch.h'],
     [('shared index', 'ink/geometry/partitioned_mesh.cc'), ('copy on write', 'ink/types/internal/copy_on_write.h'), ('thread-local builders', 'ink/strokes/stroke.cc')],
     T + 'ThreadSanitizer over random programs on four threads with injected delays, every result compared with the same calls on one thread', 'Sampled schedules; one holder of each shared value outlives the threads (dropping the last other copy while changing a value in place is only ordered by a relaxed load, see DESIGN.md).')
prop('R01', 'Rendering accepts exactly the drawable vertex formats and decodes them right',
     'A mesh specification for rendering is produced for every vertex format that meets the documented requirements (all attributes of an in-progress stroke except the optional HSL shift, the documented neighbors and types, offsets and stride aligned to 4 bytes), and every other format is refused with an invalid-argument error, in-progress strokes having exactly one format. For every accepted format the graphics library accepts the specification too, and running its shaders on any mesh of that format, with any brush color, transform and texture mapping, gives finite results: each vertex at its position (plus the documented sub-pixel antialiasing outset), brush color shifted by the vertex\'s opacity and HSL shifts and premultiplied, the right texture coordinates, and the documented coverage of each fragment. Uniform values that were handed out earlier never change.',
     ['inputs'], 'every vertex format, mesh, brush color, object-to-canvas transform and texture mapping',
     'Tests compare the declared attributes for a few formats and never execute the shader source.',
     ['ink/rendering/skia/common_internal/mesh_specification_data.cc', 'ink/rendering/skia/common_internal/mesh_specification_data.h', 'ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h', 'ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h', 'ink/rendering/skia/native/internal/create_mesh_specification.cc', 'ink/rendering/skia/native/internal/mesh_uniform_data.cc', 'ink/strokes/internal/stroke_vertex.cc'],
     [('format validation', 'ink/rendering/skia/common_internal/mesh_specification_data.cc'), ('shader source', 'ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h'), ('uniform values', 'ink/rendering/skia/native/internal/mesh_uniform_data.cc')],
     T + 'random formats judged by the documented requirements; the generated shader source executed by an interpreter, every varying and fragment judged by a double-precision reference, under ASan/UBSan', 'The graphics library is a recording stand-in with Skia\'s documented validity rules; half precision is evaluated as float; ill-conditioned transforms (determinant lost in rounding) are only checked for finiteness.')
prop('R02', 'The renderer draws exactly the shape of a stroke, in its color and transform',
     'Drawing a stroke, or a stroke in progress at any point of its construction, with a renderer (used for any number of strokes before) overwrites the canvas matrix with the given transform and draws, coat by coat, exactly the triangles of the stroke\'s meshes at their positions in the brush color with bounds that contain them, or, without a graphics context, exactly its outlines as non-zero filled antialiased polygons in the brush color times the tip\'s opacity; this also holds for shapes put together from meshes with different packing, and drawing never fails for a shape in the format that strokes have. An empty or not-started stroke draws nothing. Drawables are values: a copy keeps its own color and transform, changing one changes no other, and what was drawn before stays as it was.',
     ['inputs', 'histories'], 'every brush, stroke, stroke in progress, object-to-canvas transform and history of copying, recoloring and drawing',
     'Rendering tests need a graphics device and compare a handful of golden images; they do not run here, and none looks at partial strokes, pieced-together shapes or shared uniforms.',
     ['ink/rendering/skia/native/skia_renderer.cc', 'ink/rendering/skia/native/skia_renderer.h', 'ink/rendering/skia/native/internal/mesh_drawable.cc', 'ink/rendering/skia/native/internal/path_drawable.cc', 'ink/rendering/skia/native/internal/mesh_uniform_data.cc', 'ink/rendering/skia/native/internal/mesh_specification_cache.cc'],
     [('draw calls', 'ink/rendering/skia/native/skia_renderer.cc'), ('copy-on-write uniforms', 'ink/rendering/skia/native/internal/mesh_uniform_data.cc'), ('path fallback', 'ink/rendering/skia/native/internal/path_drawable.cc')],
     T + 'recording stand-in of the graphics library; the log of draw calls is compared with the meshes and outlines of the stroke, vertices through the executed shaders, under ASan/UBSan', 'Meshes of 2^16 vertices and more in progress are not drawn (documented as unsupported); up to six triangles per mesh are run through the shaders, all indices are compared.')
prop('R03', 'Textures are drawn with their own pixels, placement, wrapping and blending',
     'For every brush with texture layers that a renderer draws, whatever it drew before, each layer is sampled from the bitmap its texture id refers to (same pixels, size, alpha type and color space), repeated, mirrored or clamped per axis as the layer says; a tiling texture has the size given in its unit and starts at its origin point plus its offset. Each layer is blended over the result of the layers before it by that earlier layer\'s mode, and the last layer\'s mode blends the texture with the brush color. A bitmap is accepted exactly if its dimensions are positive, its enumerators valid and its data of the right length; missing or invalid textures make drawing fail with an error without drawing anything, and work later once they are available.',
     ['inputs', 'histories'], 'every combination of texture layers, bitmaps and sequence of brushes drawn by one renderer',
     'Tests draw single layers; a cache key that forgets a field or a wrong order of matrices shows only for other combinations.',
     ['ink/rendering/skia/native/internal/shader_cache.cc', 'ink/rendering/skia/native/internal/shader_cache.h', 'ink/rendering/bitmap.cc', 'ink/rendering/bitmap.h', 'ink/rendering/skia/native/skia_renderer.cc', 'ink/brush/brush_paint.h'],
     [('texture shaders', 'ink/rendering/skia/native/internal/shader_cache.cc'), ('bitmap validation', 'ink/rendering/bitmap.cc')],
     T + 'recording stand-in of the graphics library; the shader tree of every draw call is flattened and compared with the layers, under ASan/UBSan', 'Not judged, as not implemented yet: rotation, jitter, keyframes, layer opacity, stroke-size units, placement of winding textures.')
prop('J01', 'Geometry and meshes behave the same through Java as in native code',
     'For every sequence of calls from Java on shapes, transforms, meshes and partitioned meshes, the result written to the Java object or buffer is that of the native operation on the same values, and a class, method or field is used only with a signature that exists. Nothing else of Java is changed: arrays handed in keep their elements, no Java call is made with an exception pending, no reference is used after its end, and every native object stays alive exactly until Java frees it; nothing else is leaked. What Java may not ask for is answered by the documented Java exception or error, never by undefined behaviour.',
     ['inputs', 'histories'], 'every sequence of calls through the Java interface, with any arguments Java may pass',
     'The interface has no tests of its own; a wrong field, swapped argument or leaked reference is invisible to tests of the native code behind it.',
     ['ink/geometry/internal/jni', 'ink/jni', 'ink/color/internal/jni'],
     [('Java interface of geometry', 'ink/geometry/internal/jni'), ('strings and exceptions', 'ink/jni/internal/jni_throw_util.cc')],
     T + 'stand-in Java machine that checks every use of its interface; differential oracle against the native operation; leak watch on the native heap, under ASan/UBSan', 'Java class, method and field signatures are taken from the native side and its documentation; the Kotlin sources are not part of this repository.')
prop('J02', 'Brushes, inputs and strokes behave the same through Java as in native code',
     'For every program of Java calls that builds brushes, input batches and strokes, finished or in progress, what Java reads back (inputs, bounds, outlines, vertex and index buffers, brushes, colors, errors) equals what the same native calls give. A brush part or input that native validation refuses is refused to Java with the exception or message of that validation, and leaves nothing behind; buffers with more vertices than 16-bit indices can express are cut at a whole triangle. Nothing is leaked, no reference is used after its end and no Java call is made with an exception pending.',
     ['inputs', 'histories'], 'every brush, input and stroke that Java can build, valid or not, in any order of calls',
     'The interface has no tests of its own; a swapped argument, a missed validation or a leak shows only when the Java side is exercised against the native result.',
     ['ink/brush/internal/jni', 'ink/strokes/internal/jni', 'ink/jni', 'ink/color/internal/jni'],
     [('Java interface of brushes', 'ink/brush/internal/jni'), ('Java interface of strokes', 'ink/strokes/internal/jni')],
     T + 'stand-in Java machine that checks every use of its interface; differential oracle against the native calls; leak watch on the native heap, under ASan/UBSan', 'Java class, method and field signatures are taken from the native side; enumerators outside -3..40 are not passed.')
