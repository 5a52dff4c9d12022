"""What each check runs: harness, number of cases, and what counts as non-trivial."""
PROPS = {
    'T01': dict(harness='h_base', quick=400000, thorough=8000000, rule='random straight-line programs of 4-16 operations over durations made from arbitrary floats; non-trivial: at least one result saturated to an infinity; distinct by the sequence of operations and results'),
    'T02': dict(harness='h_base', quick=60000, thorough=2000000, rule='24 strings per case from a mutated grammar; non-trivial: at least one accepted and one rejected; distinct by the accepted normalized forms'),
    'T03': dict(harness='h_base', quick=12000, thorough=800000, rule='random programs over bounded arrays, copy-on-write holders and distances; non-trivial: at least one write to a shared value; distinct by operation sequence'),
    'C01': dict(harness='h_base', quick=400000, thorough=8000000, rule='random channel values (specials, out of gamut, in gamut) in each format and space; non-trivial: out of gamut or not opaque; distinct by the linear channels'),
}
PROPS.update({
    'G01': dict(harness='h_geom', quick=160000, thorough=4000000, rule='arbitrary and special floats as angles, vectors, segments and triangles, compared with double precision; every case is non-trivial; distinct by operands'),
    'G02': dict(harness='h_geom', quick=80000, thorough=2000000, rule='random programs of 2-12 operations on a rect with a double precision model, and an envelope of up to 7 objects added in two orders; non-trivial: the final rect has an area'),
    'G03': dict(harness='h_geom', quick=100000, thorough=4000000, rule='random transforms (compositions, singular ones) and quads (degenerate, negative, sheared), compared with double precision matrices; distinct by coefficients'),
    'G04': dict(harness='h_geom', quick=60000, thorough=2000000, rule='52 pairs of shapes per case: 40 on power-of-two grids compared with exact predicates, 12 rotated compared up to rounding; non-trivial: both answers occurred'),
    'G05': dict(harness='h_geom', quick=50000, thorough=2000000, rule='40 pairs of shapes per case compared with double precision distances; non-trivial: both zero and positive distances occurred'),
})
PROPS.update({
    'G06': dict(harness='h_mesh', quick=160000, thorough=4000000, rule='random attribute lists (all types, ids, 0-20 attributes, duplicates) judged by an independent table, and mesh construction from valid and subtly wrong data; distinct by the format and outcome'),
    'G07': dict(harness='h_mesh', quick=36000, thorough=3000000, rule='random meshes over every packed layout with values of any magnitude, decoded by an independent bit-level decoder; non-trivial: has a packed attribute'),
    'G08': dict(harness='h_mesh', quick=7000, thorough=700000, rule='random edit programs on a mutable mesh with a model, then conversions (packed, omitted attributes, invalid values, more than 65536 vertices, slivers that quantization flips); non-trivial: converted to at least one mesh'),
    'G09': dict(harness='h_mesh', quick=50000, thorough=2000000, rule='random render groups with outlines, half with one planted error; non-trivial: accepted with at least one mesh'),
    'G10': dict(harness='h_mesh', quick=4000, thorough=400000, rule='trees with branching 2, 3, 5 and 16 and partitioned meshes queried with every kind of shape under invertible and singular transforms, against brute force with exact predicates; non-trivial: both answers occurred'),
})
PROPS.update({
    'S01': dict(harness='h_stroke', quick=20000, thorough=2000000, rule='random programs of 6-30 operations over three input batches that share storage, with a vector model; non-trivial: at least one operation was refused; distinct by the operations and outcomes'),
    'S02': dict(harness='h_stroke', quick=1600, thorough=100000, rule='1-3 strokes built in 1-8 updates with predictions, on one reused object, compared with building at once; non-trivial: more than one update and a non-empty shape; distinct by the shape sizes'),
    'S03': dict(harness='h_stroke', quick=3000, thorough=80000, rule='1-2 strokes of 2-9 updates with refused operations, predictions, resets of the updated region and idle updates in between; non-trivial: at least one refused operation and one changed triangle; distinct by triangle counts'),
    'S04': dict(harness='h_stroke', quick=2000, thorough=100000, rule='1-2 strokes of 1-5 updates, a third with hostile behaviors, every vertex, triangle and outline checked after each update, copies compared; non-trivial: at least one triangle; distinct by vertex and triangle counts'),
})
PROPS.update({
    'B01': dict(harness='h_brush', quick=80000, thorough=2000000, rule='1-12 coats with up to two changes of a property, node, uri or tip, checked against a table of documented ranges; brush setters on the accepted ones; non-trivial: the coats are invalid; distinct by the changes'),
    'B02': dict(harness='h_brush', quick=30000, thorough=2000000, rule='a random easing function evaluated at 30-60 positions including its corners, against double precision curves; every case is non-trivial; distinct by the values'),
})
PROPS.update({
    'S05': dict(harness='h_tip', quick=24000, thorough=800000, rule='1-2 strokes of 1-8 updates with predictions and idle updates on one reused modeler, compared with a modeler that never saw a prediction; non-trivial: more than one stable and at least one predicted input; distinct by the modeled counts and distances'),
    'S06': dict(harness='h_tip', quick=24000, thorough=800000, rule='a random behavior graph over 1-2 strokes of 1-6 updates, half with made-up modeled inputs; every state compared with an interval evaluation; non-trivial: has behaviors and more than two states; distinct by the states'),
})
PROPS.update({
    'S09': dict(harness='h_stroke', quick=1200, thorough=120000, rule='programs of 3-12 operations on three strokes (creation, copies, moves, every setter with valid, equal, invalid and own arguments), compared with a model after each; non-trivial: at least one shape made anew; distinct by the shapes'),
})
PROPS.update({
    'S10': dict(harness='h_shape', quick=60000, thorough=3000000, rule='one tip shape (rounded, pinched, slanted, rotated, degenerate) or two (apart, touching, nested, equal) derived from it; non-trivial when neither of two shapes contains the other'),
    'S08': dict(harness='h_extrude', quick=4000, thorough=200000, rule='strokes with up to 30 inputs and all kinds of tip shapes: gentle paths, gentle paths with a size that changes along the way, and wild ones with reversals; points sampled in the swept shape must be covered and points sampled in the triangles must be near it; non-trivial: more than two triangles; distinct by vertex counts and positions'),
})
PROPS.update({
    'G11': dict(harness='h_alg', quick=150000, thorough=3000000, rule='interpolations, six pairs of segments on grids (with degenerate, equal, touching and overlapping ones), circles, tangents and arcs per case, against double precision; every case is non-trivial; distinct by the results'),
    'G12': dict(harness='h_alg', quick=12000, thorough=400000, rule='a convex hull of up to 1200 points, three drawn outlines and one filled outline per case, against references in double precision; every case is non-trivial; distinct by the sizes of the results'),
})
PROPS.update({
    'K01': dict(harness='h_threads', flavor='tsan', quick=3000, thorough=100000, rule='four threads that each run 2-8 random reads, copies and changes of copies of shared strokes, shapes, meshes, batches and quads, compared with the same calls on one thread; non-trivial: at least one pair of operations overlapped; distinct by the order in which the operations began'),
})
PROPS.update({
    'R01': dict(harness='h_render', quick=12000, thorough=600000, rule='random vertex formats (half of them supported) judged by the documented requirements, and for supported ones a random mesh whose vertices and fragments are run through the shaders; non-trivial: a supported format'),
    'R02': dict(harness='h_render', quick=3000, thorough=60000, rule='random brushes, strokes in progress and finished ones (also pieced together from several), drawn with and without the mesh path; copies of drawables with their own colors and transforms; non-trivial: something was drawn while in progress'),
    'R03': dict(harness='h_render', quick=6000, thorough=600000, rule='random textures (some invalid or missing) and brushes of one renderer with many layers that often differ in a single field; non-trivial: a drawn mesh with textures'),
    'J01': dict(harness='h_jni', quick=20000, thorough=300000, rule='random programs of calls of Java on geometry and meshes; non-trivial: with a partitioned mesh'),
    'J02': dict(harness='h_jni', quick=1000, thorough=150000, rule='random brushes, batches and strokes made by Java, a third with something invalid in it; non-trivial: a program on batches or a stroke'),
    'S07': dict(harness='h_extrude', quick=6000, thorough=400000, rule='strokes with up to 30 inputs, half of particles, colors and particle shapes changing along the stroke, with and without textures; every vertex compared with the tip states around it; non-trivial: more than two triangles'),
})
