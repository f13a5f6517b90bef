NA = {}

# ---------------------------------------------------------------- GDSII I/O

prop("G01", "Writing a library to GDSII and reading it back preserves the layout",
"""Reading a stream written by the library reproduces its name, units, cells and, in order, every element: polygon
vertices, path spines, widths and ends, labels, references and arrays with their transformation, layers, types and
properties, each coordinate rounded to the nearest point of the precision grid. Coordinates are scaled as the chosen
unit mode says (convert, import or skip). Writing is repeatable and does not change the layout.""",
"all libraries of polygons, paths, labels, references, arrays and properties, all unit/precision pairs and unit modes, polygons with more vertices than a record can hold",
"the tests write and read one fixed library; the quantifier is over all layouts, units and coordinates",
[("writers", LIB + ":Cell.to_gds"), ("reader", LIB + ":GdsLibrary.read_gds"), ("polygon writer", POL + ":PolygonSet.to_gds"),
 ("path writers", PTH + ":FlexPath.to_gds"), ("label writer", LBL + ":Label.to_gds"), ("record reader", FMT + ":_record_reader")],
PBT + "write/read round trip against the generating specification",
"Explores thousands of random libraries with up to 4 cells; reals compared to 1e-12, coordinates to half a grid step.",
over=("inputs", "configurations"), observe=["GdsLibrary.read_gds", "GdsLibrary.write_gds"])

prop("G02", "Written streams are well-formed GDSII holding the rounded layout data",
"""Every written stream obeys the GDSII record grammar: even record lengths, right data types, mandatory records in
order, closed polygons, padded strings, given timestamps, the library end record. A strict independent parser finds in
it exactly the elements of the layout with coordinates, widths and extensions rounded to the precision grid, and
absolute magnification, rotation, reflection, anchor and width flags encoded as the format defines.""",
"all layouts (including elements with several polygons or parallel paths, hierarchical references and every label anchor), timestamps and units",
"the tests compare gdspy's writer only with gdspy's reader, so a symmetric error is invisible, and sample one layout",
[("writers", LIB + ":GdsLibrary.write_gds"), ("polygon writer", POL + ":PolygonSet.to_gds"), ("path writers", PTH + ":RobustPath.to_gds"),
 ("label writer", LBL + ":Label.to_gds"), ("reals", FMT + ":_eight_byte_real")],
PBT + "differential against an independent strict GDSII parser",
"The oracle parser is written from the format description and shares no code with gdspy.", observe=["bytes given to the output file"])

prop("G03", "Real numbers survive the 8-byte excess-64 encoding of GDSII",
"""Magnifications, rotations, units and precisions of any representable magnitude and sign are encoded in the stream as
the nearest excess-64 8-byte real up to one unit in the last place, normalized, and decoded to the double closest to the
stored value. Zero is encoded as all zero bytes, and negative numbers keep their sign.""",
"all doubles within the range of the format, including powers of 16 and their neighbours, and all 8-byte patterns on input",
"tests use a handful of values (90 degrees, magnification 2, 1e-6, 1e-9)",
[("encoder", FMT + ":_eight_byte_real"), ("decoder", FMT + ":_eight_byte_real_to_float")],
PBT + "round trip and exact rational model of the encoding",
"Compared with exact rational arithmetic through files written and read by the public interface.", observe=["UNITS, MAG and ANGLE records"])

prop("G04", "Any valid GDSII stream made by other tools imports faithfully",
"""Reading a well-formed stream that gdspy did not write yields exactly its structures and elements: boundaries, boxes,
paths of every type, texts, references and arrays with transformations and properties, in file order, including forward
references, optional records, absent defaults, files padded after the end, and coordinates split over several records.
Elements the library does not support are skipped (with a warning) without affecting the others, and references to absent
structures keep the name.""",
"all streams generated from the GDSII grammar, with optional records present or not in the orders the format allows",
"tests only read files written by gdspy itself",
[("reader", LIB + ":GdsLibrary.read_gds"), ("record reader", FMT + ":_record_reader"), ("element builders", LIB + ":GdsLibrary._create_path")],
PBT + "grammar-based stream generation with an independent writer as model",
"Streams are produced by an independent encoder from a specification that is the oracle.", observe=["cells of the library after read_gds"])

prop("G05", "Import options remap exactly what they name and nothing else",
"""Layer, datatype, texttype and cell-name maps given when reading a file change exactly the listed keys: names also in
the references to the renamed cells, everything unlisted passes through unchanged, and a name template applies to every
cell not in the map. The result equals importing without options followed by the same renumbering.""",
"all layouts and all partial maps, callable-free templates, combined with every unit mode",
"tests try one map on one file",
[("reader", LIB + ":GdsLibrary.read_gds")],
PBT + "metamorphic (mapped import equals remapped plain import)",
"Both imports use the same reader; the plain one is decided by G01 and G04.", over=("inputs", "configurations"), observe=["GdsLibrary.read_gds"])

prop("G06", "Streaming writer, binary cell copy and unit query agree with the library",
"""Writing cells one at a time, copying cells as raw binary from an existing file, or writing a whole library gives
streams with the same content; raw cells are reproduced byte for byte with their name and elements. Querying the units
of a file gives the unit and precision it was written with, and binary cells extracted from a file are exactly its
structures keyed by name.""",
"all layouts, cell subsets and orders, mixtures of written and binary cells, files and paths as targets, padded files",
"tests cover one file with two cells",
[("streaming writer", LIB + ":GdsWriter"), ("raw copy", LIB + ":get_binary_cells"), ("units", LIB + ":get_gds_units"), ("raw reader", FMT + ":_raw_record_reader")],
PBT + "differential between writers, byte-level model of raw cells",
"Streams are parsed by the independent parser.", observe=["written files", "get_binary_cells", "get_gds_units"])

prop("G07", "The layout hash ignores timestamps only, and stamping changes only stamps",
"""The hash of a GDSII file depends on the contents of its cells and on nothing else: files that differ only in timestamps,
library header, cell order or padding have the same hash, and any other change in a cell changes it. Setting the timestamp of a
file replaces the dates of the library and of every cell with the given one and changes no other byte. A hash engine given by the caller
is used in place of the default one.""",
"all written files, all timestamps, single-byte and single-element modifications, hash engines",
"tests hash two files",
[("hash", FMT + ":gdsii_hash"), ("stamp", FMT + ":set_gdsii_timestamp")],
PBT + "metamorphic over generated files with byte-level model",
"The model finds the stamp bytes with an independent record walk.", observe=["gdsii_hash", "set_gdsii_timestamp", "file bytes"])

# ---------------------------------------------------------------- hierarchy

prop("H01", "References and arrays place geometry exactly as the GDSII transformation says",
"""The polygons of a cell reference or array, nested to any depth, are those of the referenced cell reflected about the x
axis, magnified, rotated and translated to the origin, once per array position on the array lattice, composed from the
inside out. The depth limit returns exactly the polygons reachable within it, with each reference at the limit replaced
by its bounding rectangle when grouping, and grouping by specification partitions the same polygons by layer and
datatype.""",
"all hierarchies up to 4 levels, all transformations (absent, identity and general values), array sizes and spacings, depths and filters",
"tests check fixed examples with integer transformations, mostly comparing areas or counts",
[("reference transform", LIB + ":CellReference._transform_polygons"), ("array transform", LIB + ":CellArray._transform_polygons"), ("recursion", LIB + ":Cell.get_polygons")],
PBT + "reference model of the GDSII transformation, vertex by vertex",
"The model composes the transformations independently; tolerance 1e-9 relative.", observe=["get_polygons of Cell, CellReference and CellArray"])

prop("H02", "Paths, polygon sets and labels taken from a hierarchy are the placed originals",
"""The polygon sets, paths and labels collected from a cell or reference are independent copies of the original elements,
one per placement, with layers, types, text and properties kept, located where the reference or array transformation puts
them (labels optionally with the transformation itself), down to the requested depth and no further. The region covered by
the copied paths and polygon sets equals the region of the polygons of the same hierarchy.""",
"all hierarchies up to 4 levels with paths of both classes, polygon sets and labels, all transformations, array sizes and depths",
"tests check counts and a few positions",
[("polygon sets", LIB + ":CellReference.get_polygonsets"), ("paths", LIB + ":CellArray.get_paths"), ("labels", LIB + ":CellReference.get_labels"), ("path transform", PTH + ":FlexPath.transform")],
PBT + "reference model and differential with the polygons of the hierarchy",
"Reflection is exercised for paths whose parallel elements are symmetric only (see known findings).", observe=["get_polygonsets, get_paths, get_labels"])

prop("H03", "Flattening removes the hierarchy and nothing else",
"""Flattening a cell leaves it without references and with exactly the polygons, paths and labels that the hierarchy
placed, on their layers and types, or on the single layer, datatype or texttype if one is given, and with the same
covered region and bounding box. Cells it referenced are not changed.""",
"all hierarchies up to 4 levels, all combinations of single layer, datatype and texttype",
"tests flatten three fixed hierarchies without paths",
[("flatten", LIB + ":Cell.flatten")],
PBT + "model of the placed elements before flattening",
"The expected polygons come from the independent placement model.", observe=["Cell.polygons, paths, labels, references after flatten"])

prop("H04", "Areas are the sums of the polygon areas through the hierarchy",
"""The area of an element, cell, reference or array is the sum of the areas of its polygons, counting repetitions and
squared magnifications, and the grouped version splits that sum by layer and datatype without losing or adding keys.""",
"all hierarchies with polygons, polygon sets and paths, all transformations, arrays",
"tests check a few rectangles",
[("cell area", LIB + ":Cell.area"), ("reference area", LIB + ":CellReference.area"), ("array area", LIB + ":CellArray.area"), ("polygons", POL + ":PolygonSet.area")],
PBT + "shoelace model over the polygons of the hierarchy",
"Relative tolerance 1e-9.", observe=["area of every class"])

prop("H05", "Bounding boxes are always exact, whatever changed since the last query",
"""The bounding box of a cell, reference or array is the smallest axis-aligned rectangle that contains all its polygons
and paths through the whole hierarchy, or nothing if it has none. It is right after any history of additions, removals,
flattening, copies, replacement or removal of references and earlier queries in the cell or in any cell it depends on.""",
"all histories of queries and mutations on cells that reference each other",
"tests query boxes of freshly built fixed cells",
[("cell", LIB + ":Cell.get_bounding_box"), ("reference", LIB + ":CellReference.get_bounding_box"), ("array", LIB + ":CellArray.get_bounding_box")],
PBT + "model-based histories; box recomputed from independently placed polygons",
"Histories of up to 12 operations over 3 cells.", over=("inputs", "histories"), observe=["get_bounding_box"])

prop("H06", "A copied cell is the transformed original and shares nothing when deep",
"""Copying a cell with translation, rotation, scale or reflection gives a cell whose placed polygons and labels are exactly
the transformed ones of the original, references included. With deep copy the elements are independent, so later changes
to either cell never show in the other; the original is unchanged.""",
"all cells, all transformations, deep and shallow copies, subsequent mutations",
"tests copy one cell with one rotation and translation",
[("copy", LIB + ":Cell.copy")],
PBT + "reference model of the transformation plus mutation of the copy",
"Tolerance 1e-9 relative.", over=("inputs", "histories"), observe=["Cell.copy"])

prop("H07", "Layer, type and dependency queries report exactly what the hierarchy holds",
"""The layers, datatypes, texttypes and drawing classes reported for a cell are exactly those of its elements and of
all cells it references, directly or not. Its dependencies are exactly the cells it references, directly or, if asked,
through any chain, and unresolved references are ignored; top-level cells of a library are those that none of its cells
references.""",
"all acyclic hierarchies with resolved and unresolved references",
"tests use cells with two layers and one reference",
[("layers", LIB + ":Cell.get_layers"), ("datatypes", LIB + ":Cell.get_datatypes"), ("texttypes", LIB + ":Cell.get_texttypes"), ("classes", LIB + ":Cell.get_svg_classes"), ("dependencies", LIB + ":Cell.get_dependencies"), ("top level", LIB + ":GdsLibrary.top_level")],
PBT + "set model computed from the specification",
"Exact comparison of sets.", observe=["get_layers, get_datatypes, get_texttypes, get_svg_classes, get_dependencies, top_level"])

prop("H08", "Removing elements by test removes exactly the matching ones",
"""Removing polygons, paths or labels by a test calls it with each element's data and deletes exactly those for which it
holds, leaving referenced cells alone and keeping the order, layer, type and properties of the others; adding elements appends them in
order to the matching list. Emptied polygon sets disappear.""",
"all cells and predicates over vertices, layers, types, text",
"tests remove by one predicate",
[("polygons", LIB + ":Cell.remove_polygons"), ("paths", LIB + ":Cell.remove_paths"), ("labels", LIB + ":Cell.remove_labels"), ("add", LIB + ":Cell.add")],
PBT + "list-filter model",
"Exact comparison.", observe=["elements of the cell"])

prop("L01", "A library stays consistent under any history of cell operations",
"""After any sequence of adding (with or without dependencies and overwriting), creating, removing, renaming, replacing
and reference updates, the library maps each name to the one cell last put under it, names and cells agree, and
references point to the right cell object, to a name, or are gone, exactly as the operation says. Conflicting names are
rejected with an error and leave the existing entry.""",
"all histories of library operations over colliding names, and all reference forms (by object, by name)",
"tests exercise each operation once on two or three cells",
[("add", LIB + ":GdsLibrary.add"), ("remove", LIB + ":GdsLibrary.remove"), ("rename", LIB + ":GdsLibrary.rename_cell"), ("replace", LIB + ":GdsLibrary.replace_references"), ("new", LIB + ":GdsLibrary.new_cell"), ("extract", LIB + ":GdsLibrary.extract")],
"stateful property-based testing (Hypothesis-generated operation histories against a dictionary model)",
"Histories of up to 14 operations over 5 names.", over=("histories",), state=[("cells", "name to cell", LIB + ":GdsLibrary.cells")], observe=["GdsLibrary.cells", "references of all cells"])

# ---------------------------------------------------------------- operations

prop("B01", "Boolean operations cover exactly the set-theoretic region",
"""Union, intersection, difference and symmetric difference of any polygons, including touching, nested, self-intersecting,
coincident or with holes, cover exactly the set-theoretic combination of the regions of the operands (non-zero winding rule), up to the precision
band around edges. With two non-empty operands the resulting polygons do not overlap each other, and an empty result is
reported as such.""",
"all operand polygon lists, four operations, precisions from 1e-6 to 0.1, coordinates up to the representable range",
"tests compare a handful of rectangles by area",
[("wrapper", OPS + ":boolean"), ("clipping", CLP + ":clip"), ("holes", CLP + ":link_holes")],
PBT + "independent sweep-line area oracle and winding-number point probes",
"Exact area of the symmetric difference computed in double precision; tolerance is the precision times the perimeter.", observe=["boolean"])

prop("B02", "Boolean operations treat every operand form alike and obey set algebra",
"""The operands may be any mixture of polygons, polygon sets, paths, references, arrays or point lists, nested in
iterables, with the same result as their plain polygons. Results obey commutativity, absorption, De Morgan within a
frame and invariance under translation by grid steps, carry the requested layer and datatype, and with a vertex limit
every polygon has at most that many vertices.""",
"all operands, operations and operand forms",
"tests use each operand form once",
[("gather", OPS + ":_gather_polys"), ("wrapper", OPS + ":boolean")],
PBT + "metamorphic set algebra and differential over operand forms",
"Regions are compared with the independent area oracle.", observe=["boolean"])

prop("B03", "Slicing partitions the geometry at the cut positions",
"""Slicing polygons at any positions along an axis gives one group per interval, in the order of the intervals; every group lies within
its interval, no group overlaps another, and together they cover exactly the input region. Layers and datatypes are the requested
ones, including lists of them.""",
"all polygons, any number and order of cut positions, both axes, precisions",
"tests cut two shapes",
[("wrapper", OPS + ":slice"), ("chopping", CLP + ":chop")],
PBT + "partition oracle (area, bounds, region per interval)",
"Tolerance is the precision times the perimeter.", observe=["slice"])

prop("B04", "Offsetting grows or shrinks the geometry by the given distance",
"""Expanding by a positive distance gives a region that contains every point within that distance of the input (up to
join tolerance) and no point farther than the join style allows; a negative distance keeps exactly the points at least
that deep inside. Joining first treats the operands as their union, results carry layer and datatype, and a zero distance
changes nothing.""",
"all simple polygons and overlapping sets, positive and negative distances, the three joins, tolerances, join-first on and off",
"tests check areas for one square",
[("wrapper", OPS + ":offset"), ("offsetting", CLP + ":offset")],
PBT + "distance-field point probes against the independent polygon distance",
"Probe points near the offset boundary within tolerance are not judged.", observe=["offset"])

prop("B05", "Point-in-polygon queries agree with the geometry",
"""Each point is reported inside exactly when it lies in any of the polygons, up to the precision on boundaries, for
single points, groups and nested operands; the grouped forms return one answer per group, true if any or all of its
points are inside as requested, whatever the group sizes.""",
"all polygons, point lists and groups, short-circuit modes, precisions",
"tests query a few points of one shape",
[("wrapper", OPS + ":inside"), ("native", CLP + ":inside")],
PBT + "winding-number model",
"Points within the precision of an edge are not judged.", observe=["inside"])

prop("B06", "Fracturing keeps the region and respects the vertex limit",
"""Fracturing a polygon set leaves polygons with at most the given number of vertices which do not overlap beyond the
original ones and cover exactly the same region, each keeping the layer and datatype of the polygon it came from.
It always ends.""",
"all polygon sets, vertex limits from 5 up, precisions",
"tests fracture a few round shapes and count polygons",
[("fracture", POL + ":PolygonSet.fracture"), ("chopping", CLP + ":chop")],
PBT + "independent area oracle per layer and datatype",
"Self-intersecting polygons are compared by their non-zero region.", observe=["PolygonSet.fracture"])

prop("B07", "Filleting rounds each corner with the requested radius",
"""Filleting replaces each corner by an arc tangent to both edges with the given radius, or the largest that fits, and leaves
the rest of the polygon as it was; straight corners and zero radii are unchanged. Radii may be given per polygon or per vertex
and a mismatched list is rejected with an error; the result stays within the corner triangles of the original.""",
"all simple polygons, common, per-polygon and per-vertex radii, point densities",
"tests fillet a few shapes against stored references",
[("fillet", POL + ":PolygonSet.fillet")],
PBT + "independent construction of the tangent arcs",
"Arc deviation is bounded by the chord error of the point density.", observe=["PolygonSet.fillet"])

prop("B08", "Polygon transformations are the exact affine maps",
"""Translating, rotating, scaling and mirroring polygons about any center or line maps every vertex by the corresponding affine
transformation, keeping vertex order, layers, datatypes and properties, and never changes other objects; copies with displacement
are independent. The same holds for labels, references and arrays where the operation exists.""",
"all vertex lists and parameters, sequences of transformations",
"tests apply single transformations to single shapes",
[("polygon sets", POL + ":PolygonSet.rotate"), ("copy", OPS + ":copy"), ("labels", LBL + ":Label.translate"), ("references", LIB + ":CellReference.translate")],
PBT + "affine reference model over operation sequences",
"Tolerance 1e-9 relative.", over=("inputs", "histories"), observe=["polygons, positions, origins"])

prop("B10", "Rectangles, round shapes and text polygons are the shapes they name",
"""A rectangle has the four corners of its diagonal; circles, ellipses, rings, sectors and slices lie within the tolerance
of the ideal curve, with the requested radii, center and angles and with no overlapping pieces; the number of points per polygon respects the limit.
Text places each known character's glyph in its cell scaled to the size, advancing right (or down), with tabs and new
lines, and ignores unknown ones.""",
"all centers, radii, inner radii, angle ranges, tolerances or point counts, vertex limits; all printable strings",
"tests compare a few fixed shapes with stored references",
[("rectangle", POL + ":Rectangle"), ("round", POL + ":Round"), ("text", POL + ":Text")],
PBT + "analytic distance to the ideal curve; metamorphic glyph placement",
"Ideal regions are approximated to 1e-3 of the tolerance.", observe=["polygons of the shapes"])

prop("B11", "Native geometry routines never crash, hang or corrupt memory",
"""Whatever polygons, points or options the caller passes to boolean, slicing, offset, inside or fracture, including empty, degenerate,
huge, non-finite or wrongly typed ones, the call returns a result or raises a Python exception, without reading or writing
outside its memory, without undefined behaviour and without leaking or over-releasing references.""",
"all argument values, well-formed or not",
"tests pass valid polygons only",
[("extension", CLP + ":parse_polygon_set"), ("module functions", CLP + ":clip")],
"fuzzing (Hypothesis-generated arguments against an AddressSanitizer/UBSan build of the extension, with reference-count checks)",
"Sanitizer build of the extension; exceptions are accepted, crashes, sanitizer reports and leaks are not.", observe=["process exit, sanitizer report, reference counts"])

# ---------------------------------------------------------------- paths

prop("P01", "Polygonal paths follow the spine with the right width and separation",
"""Each parallel element of a path built from segments, arcs, turns, parametric curves, Bezier and smooth curves covers the
points within half its current width of its spine displaced by its separation, both varying linearly along each piece
toward the requested final values, within tolerance. The reported end point, direction and length always match what has been
drawn, also after transformations.""",
"all sequences of construction and transformation calls, widths, numbers of paths, distances, final values",
"tests compare fixed constructions with stored references",
[("path", POL + ":Path")],
PBT + "analytic spine model and state model over construction histories",
"Curved pieces are compared with a dense analytic sampling.", over=("inputs", "histories"), observe=["polygons, x, y, direction, length of the path"])

prop("P02", "Poly-lines and rectilinear paths cover the stroke of their points",
"""A path through given points, with constant or varying widths, several parallel elements, corner styles and end styles,
covers the stroke of the displaced line: full width along every segment, corners joined as the style says, ends flush, extended or
rounded. Rectilinear paths turn left or right as told, with the given lengths, widths and end point.""",
"all poly-lines, widths, distances, corners, ends, turn lists",
"tests compare fixed constructions with stored references",
[("poly path", POL + ":PolyPath"), ("rectilinear path", POL + ":L1Path")],
PBT + "independent stroke construction",
"Corner regions between inner and outer join bounds are not judged for sharp angles.", observe=["polygons"])

prop("P03", "Flexible paths cover the stroke of their spine for every corner and end style",
"""Each parallel element of a flexible path is the stroke of its spine displaced by its offset: full width along the segments, corners as the style says (natural,
miter, bevel, round, smooth, circular bends or custom), and ends flush, extended, rounded, smooth or
with the given lengths. Grouping, set conversion and area describe the same polygons, on the layer and datatype of each
element.""",
"all spines, widths, offsets, layers, corner, end and bend styles, construction calls",
"tests compare fixed constructions with stored references",
[("polygons", PTH + ":FlexPath.get_polygons")],
PBT + "independent stroke construction and point probes",
"Points between the bounds of inner and outer corners are not judged.", observe=["get_polygons, to_polygonset, area"])

prop("P04", "Flexible path construction and transformations act on what was drawn so far",
"""Segments, arcs, turns, parametric, Bezier and smooth pieces extend the path from its current end, absolute or relative, with widths
and offsets changing linearly to the requested values along the piece. Translation, rotation and scaling act on the whole path drawn
so far exactly as on its polygons, with earlier polygon queries never making later results stale.""",
"all histories of construction calls, transformations and queries",
"tests compare fixed constructions with stored references",
[("construction", PTH + ":FlexPath.segment"), ("transformations", PTH + ":FlexPath.scale"), ("cache", PTH + ":FlexPath.get_polygons")],
PBT + "state model of points, widths and offsets; metamorphic transformation of polygons",
"Curved pieces are compared with the analytic curve within tolerance.", over=("inputs", "histories"), observe=["points, widths, offsets, get_polygons"])

prop("P05", "Path elements in GDSII files describe the same strokes as the path polygons",
"""Simple paths are written as path elements, one per parallel element, with the displaced spine rounded to the grid, the width (absolute
when it does not scale), end type and extensions, layer, datatype and properties; all others are written as the polygons they
show. The stroke described by the written element covers the same region as the polygons of the path, within the grid
and tolerance.""",
"all flexible and robust paths that can be written as path elements, after any transformations",
"tests write a few paths and compare with stored files",
[("flexible", PTH + ":FlexPath.to_gds"), ("robust", PTH + ":RobustPath.to_gds")],
PBT + "independent parser and stroke construction compared with polygons",
"Round corners are not representable and excluded from region comparison.", observe=["written records"])

prop("P06", "Robust paths evaluate position, direction and width on the exact curve",
"""Evaluating a robust path at a parameter gives the point, gradient and width of the piece it falls in: the transformed
curve displaced by offset along the normal, with continuous junctions between pieces that are continuous, the right one-sided gradients and
offsets and widths interpolated as requested. The number of pieces and end points match the construction calls.""",
"all histories of construction calls and transformations and all parameters",
"tests evaluate a few points of fixed paths",
[("evaluation", PTH + ":RobustPath.__call__"), ("pieces", PTH + ":_SubPath")],
PBT + "analytic model of the curve",
"Numerical gradients are compared within finite-difference accuracy.", over=("inputs", "histories"), observe=["call, grad, width of the path"])

prop("P07", "Robust path polygons cover the stroke, under all transformations",
"""The polygons of a robust path cover the points within half the local width of its displaced curve, pieces joined and
ends capped as the style says, within the tolerance. Transforming a path transforms its region accordingly, on the same layers, with
earlier polygon queries never making later results stale.""",
"all construction histories, widths, offsets, ends, transformations",
"tests compare fixed constructions with stored references",
[("polygons", PTH + ":RobustPath.get_polygons"), ("transform", PTH + ":RobustPath.transform")],
PBT + "stroke construction from analytic curve; metamorphic transformations",
"Sharp junctions beyond the join bounds are not judged.", over=("inputs", "histories"), observe=["get_polygons, to_polygonset, area"])

prop("C01", "Curves pass through the points the drawing primitives define",
"""A curve built from lines, horizontal and vertical moves, cubic, quadratic and general Bezier pieces with smooth variants and elliptic
arcs approximates each ideal piece within the tolerance and ends exactly where it should. Relative commands equal the absolute ones with shifted
coordinates, complex numbers equal coordinate pairs, and smooth variants continue the tangent of the previous piece.""",
"all sequences of drawing commands, tolerances and number forms",
"tests compare fixed drawings with stored references",
[("curve", CRV + ":Curve")],
PBT + "analytic Bezier and ellipse model; relative versus absolute",
"Distance to the curve is measured against a dense sampling.", over=("inputs", "histories"), observe=["Curve.get_points"])

prop("C02", "Smooth interpolating curves pass through their points with requested angles",
"""Smooth interpolation gives a curve through all given points, in order, which is tangent-continuous at each of them, leaves in the
requested directions where angles are given, closes smoothly when cyclic, and commutes with translation, rotation and
uniform scaling. The curve, flexible path, polygonal path and robust path versions agree.""",
"all point lists, angle constraints, curls, tensions, open and cyclic",
"tests compare fixed curves with stored references",
[("hobby", HOB + ":_hobby"), ("curve", CRV + ":Curve.i")],
PBT + "interpolation conditions and metamorphic similarity",
"Points are distinct and spaced.", observe=["control points as seen through the curves"])

# ---------------------------------------------------------------- others

prop("S01", "SVG output draws the layout: every polygon, label and placement",
"""The written file is well-formed XML that, interpreted with the SVG transformation rules, draws exactly the polygons of the
hierarchy at their place scaled as requested within the printed precision, with the class of their layer and datatype, and each label at its position.
The view box contains the bounding box with the requested padding and the background is drawn as asked.""",
"all hierarchies, scalings, precisions, paddings, styles, labels with any text",
"tests only write a file without looking into it",
[("svg", LIB + ":Cell.write_svg"), ("references", LIB + ":CellReference.to_svg"), ("arrays", LIB + ":CellArray.to_svg"), ("polygons", POL + ":PolygonSet.to_svg"), ("labels", LBL + ":Label.to_svg")],
PBT + "XML interpreter of the drawing against the placed polygons",
"The interpreter understands the subset of SVG the format uses.", observe=["SVG file"])

prop("M01", "Operations never change or alias what they are given",
"""Queries, boolean operations, writers and copies leave all their inputs exactly as they were, and changing a returned
object, or an array or list passed to a constructor, never changes the elements of a cell or path. Construction and transformation calls return the
object itself so that they can be chained.""",
"all elements, cells and operations",
"tests never look at the inputs after a call",
[("copies", LIB + ":CellReference.get_polygonsets"), ("polygons", POL + ":PolygonSet.__init__"), ("operations", OPS + ":_gather_polys")],
PBT + "deep snapshots before and after each call, mutation of results",
"Snapshots cover all data attributes except caches.", over=("inputs", "histories"), observe=["attributes of the inputs"])
