#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so wording and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0] if len(files) == 1 else ", ".join(files)} for m in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "GDSII 8-byte reals encode and decode without loss",
  "Every finite number in the representable range (magnitude from 16^-64 up to but not including 16^63), of either sign, that is written as a GDSII 8-byte real is stored as sign, excess-64 base-16 exponent and a normalised 56-bit mantissa (leading hexadecimal digit non-zero), and decoding those 8 bytes yields exactly the number that was encoded. Zero is stored as 8 zero bytes, and any 8-byte real found in a file, normalised or not, decodes to sign * mantissa/2^56 * 16^(exponent-64).",
  ["inputs"], "All double-precision values in range; all 8-byte strings.",
  "The tests write units and magnifications such as 1e-3 or 2.0; the rounding of the base-16 exponent goes wrong, if at all, only next to powers of 16 or at extreme exponents.",
  ["gdspy/gdsiiformat.py"], ["_eight_byte_real", "_eight_byte_real_to_float"], "return values; the UNITS, MAG and ANGLE records of a written file")

p("C02", "Everything written is a well-formed, self-consistent GDSII record stream",
  "Writing any element, cell or library (also piecewise through the incremental writer) emits complete records only: each length field equals the record's actual even size, record and data types are those the GDSII grammar prescribes for that element in that order, string payloads are NUL-padded to even length, and the payload carries exactly the element's layer, data/text type, name, anchor, transformation flags and values, properties, and coordinates rounded to the nearest database unit. Polygons are closed by repeating the first point, vertex lists too long for one record continue in further XY records without losing, duplicating or reordering vertices, and the whole file is framed by header, units, one begin/end pair per cell and end-of-library.",
  ["inputs"], "All elements (polygons of any vertex count, labels, single and array references with any combination of reflection, magnification, rotation; flexible and robust paths with any end type), any number of properties, any string length, any units.",
  "Tests compare a handful of written files after reading them back with the same library; odd string lengths, more than 8190 vertices, several properties, or each combination of optional fields are sampled at most once.",
  ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py", "gdspy/gdsiiformat.py"],
  ["PolygonSet.to_gds", "FlexPath.to_gds", "RobustPath.to_gds", "Label.to_gds", "CellReference.to_gds", "CellArray.to_gds", "Cell.to_gds", "GdsLibrary.write_gds", "GdsWriter"],
  "bytes written to the output file")

p("C03", "Reading back a written library reproduces its contents",
  "For every library whose coordinates lie on its database grid, writing it and reading it back yields the same library name and set of cells, and in each cell, in order, the same polygons, simple paths, labels and references with the same layers, data/text types, names, texts (including empty ones), anchors, transformations, array columns, rows and spacing, and properties attached to the same element. On reading, layers, data types, text types and cell names are replaced exactly as the mapping arguments say (unlisted ones unchanged), references point to the like-named cell of the library when there is one and keep the name otherwise, and coordinates and widths are scaled by the factor that the units option prescribes.",
  ["inputs", "configurations"], "All libraries, all unit/precision pairs, the three units modes, all layer/datatype/texttype/rename mappings and rename templates.",
  "Tests round-trip one or two fixed libraries with default options.",
  ["gdspy/library.py", "gdspy/gdsiiformat.py"],
  ["GdsLibrary.read_gds", "_record_reader", "GdsLibrary._create_polygon", "GdsLibrary._create_path", "GdsLibrary._create_label", "GdsLibrary._create_reference", "GdsLibrary._create_array"],
  "the library object after reading",
  [("kwargs / properties / create_element", "reader state accumulated between element start and ENDEL")])

p("C04", "File-level utilities see exactly the stream's records, cells, units and dates",
  "Splitting a GDSII stream into cells returns, for every cell, exactly the bytes from its begin record to its end record under its name, so that writing those bytes back reproduces the cell; the units query returns the user unit and precision stored in the file. Changing the file's time stamps alters only the date fields of the library and cell begin records, everything else byte for byte unchanged; the content hash depends on every other byte of every cell, and not on time stamps, library name, units or the order of the cells.",
  ["inputs"], "All well-formed GDSII streams.",
  "Tests use two small files; dependence on each single byte or independence from each permutation cannot be sampled.",
  ["gdspy/gdsiiformat.py", "gdspy/library.py"], ["gdsii_hash", "set_gdsii_timestamp", "_raw_record_reader", "get_binary_cells", "get_gds_units"],
  "return values and bytes of the rewritten file")

p("C05", "Translate, rotate, scale and mirror move geometry exactly as documented",
  "Translating, rotating about a centre, scaling (uniformly or per axis) about a centre, or mirroring about a line maps every vertex, label position, path spine point, start/end position and direction by exactly that plane transformation, and scales path widths, offsets and lengths accordingly where documented. The number and order of polygons and vertices, layers, data types, texts and properties are left unchanged, the object itself is returned, and geometry computed earlier is never reported stale afterwards.",
  ["inputs", "histories"], "All objects (polygon sets, rectangles, simple paths, flexible and robust paths, labels, references), all transformation parameters, after any sequence of earlier operations.",
  "Tests apply each transformation to one or two shapes with round numbers, centre usually at the origin.",
  ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
  ["PolygonSet.translate", "PolygonSet.rotate", "PolygonSet.scale", "PolygonSet.mirror", "Rectangle/Path/L1Path overrides", "Label.translate/rotate/mirror", "FlexPath.translate/rotate/scale/transform", "RobustPath.translate/rotate/scale/transform", "_SubPath", "CellReference.translate"],
  "vertices, positions and widths after the call; polygons generated after the call",
  [("_polygon_dict", "cached polygons of flexible and robust paths")])

p("C06", "References place copies by reflecting, magnifying, rotating, translating",
  "The polygons, polygon sets, paths and labels obtained through a reference are those of the referenced cell (to the requested depth) reflected about the x axis, then magnified, then rotated, then translated to the origin; an array yields one such copy per column and row, displaced by column and row times the spacing before reflection and rotation. All query forms (plain, grouped by layer and type, filtered by one layer and type, as polygon sets, flattened in place) agree on the same geometry, each polygon keeps its layer and type, and the referenced cell itself is not changed by a query.",
  ["inputs", "histories"], "All cell hierarchies, all reference parameters (each of reflection, magnification, rotation present or not), all depths.",
  "Tests fix one reference and one array with a few parameter choices; combinations, nesting and the agreement of query forms are not enumerated.",
  ["gdspy/library.py", "gdspy/path.py"],
  ["CellReference._transform_polygons", "CellArray._transform_polygons", "CellReference.get_polygonsets/get_paths/get_labels", "CellArray.get_polygonsets/get_paths/get_labels", "Cell.get_polygons/get_polygonsets/get_paths/get_labels/flatten", "FlexPath.transform", "RobustPath.transform"],
  "returned polygons, paths and labels")

p("C07", "A reported bounding box is tight and current",
  "The bounding box of a polygon set, cell, reference or array is the smallest axis-aligned rectangle that contains all its geometry, including everything reached through references, and none is reported exactly when there is no geometry. This holds at every moment of any history: after adding or removing elements anywhere in the hierarchy through the library's operations, the next query reflects the present geometry, and changing a returned box does not affect later answers.",
  ["inputs", "histories"], "All hierarchies and all sequences of add, remove and query operations on the cells involved.",
  "Tests query boxes after one construction; the cached value is only wrong after particular orders of queries and changes at different levels of the hierarchy.",
  ["gdspy/library.py", "gdspy/polygon.py"],
  ["Cell.get_bounding_box", "CellReference.get_bounding_box", "CellArray.get_bounding_box", "PolygonSet.get_bounding_box", "Cell.add", "Cell.remove_polygons", "Cell.remove_paths"],
  "return value of the query", [("_bb_valid / _bounding_box", "cached box of a cell")])

p("C08", "Library operations keep cell table and references consistent",
  "After any sequence of adding, overwriting, removing and renaming cells, every cell of a library is listed exactly under its current name and no other cell is lost or replaced unless overwriting was requested; name clashes and renames of absent cells are refused without changing the library. Replacing, renaming and removing with reference update affects exactly the references to the named cell, in every cell of the library, whether held as cell or as name, and returns their number; dependencies are exactly the (transitively) referenced cells, and top-level cells exactly those no other cell of the library references.",
  ["inputs", "histories"], "All libraries and reference graphs, all sequences of operations.",
  "Tests run a fixed script on a few cells.",
  ["gdspy/library.py"],
  ["GdsLibrary.add", "GdsLibrary.remove", "GdsLibrary.rename_cell", "GdsLibrary.replace_references", "GdsLibrary.top_level", "GdsLibrary.new_cell", "Cell.get_dependencies", "Cell.add"],
  "library cell table, references, return values", [("cells", "name to cell table")])

p("C09", "Every polygon keeps its layer and type through construction and queries",
  "Every polygon set always has exactly one layer and one data type per polygon, also while shapes are appended, fractured, filtered or flattened, and a shape built from several layers or types repeats them in order. Per-layer queries (polygons grouped by layer and type, layers, data types, text types and drawing classes of a cell, removal by predicate) report exactly the elements with those tags, including those in referenced cells, and removal deletes exactly the elements for which the predicate holds.",
  ["inputs", "histories"], "All shapes, all layer/type assignments, all hierarchies and predicates.",
  "Tests check layer lists for a few shapes; misaligned tags only show with several polygons of different layers.",
  ["gdspy/polygon.py", "gdspy/path.py", "gdspy/library.py"],
  ["PolygonSet.__init__", "Path.segment/arc/turn/parametric", "PolygonSet.fracture", "PolygonSet.get_polygons", "Cell.get_polygons", "Cell.get_layers/get_datatypes/get_texttypes/get_svg_classes", "Cell.remove_polygons/remove_paths/remove_labels", "Cell.flatten"],
  "layers and datatypes lists, query results")

p("C10", "Areas add up",
  "The area of a polygon set is the sum of the shoelace areas of its polygons regardless of orientation or position, of a cell the sum over its elements, of a reference the referenced cell's area times magnification squared, and of an array that times columns and rows. Grouped by layer and type the groups are exactly those present and sum to the total, and asking for an area changes nothing.",
  ["inputs"], "All polygons, hierarchies and reference parameters.",
  "Tests compute areas of a few rectangles and one reference.",
  ["gdspy/polygon.py", "gdspy/library.py", "gdspy/path.py"],
  ["PolygonSet.area", "Cell.area", "CellReference.area", "CellArray.area", "FlexPath.area", "RobustPath.area"], "return values")

p("C11", "Curve commands append the documented points",
  "Every curve command (lines, mixed lines, horizontal and vertical moves, arcs, cubic, quadratic and smooth Beziers, general Beziers, smooth interpolation) starts at the current point and ends at the documented end point; the lower-case form gives the same curve as the upper-case form with the coordinates offset by the current point at which the command starts, smooth forms reflect the previous control point, and giving a point as complex number or coordinate pair is equivalent. Points already in the curve are never altered, all sampled points lie on the mathematical curve in order of the parameter, and the segment between neighbouring samples deviates from the curve, at the middle of the parameter interval, by no more than the tolerance.",
  ["inputs", "histories"], "All command sequences, arguments and tolerances.",
  "Tests compare one point list per command.",
  ["gdspy/curve.py"], ["Curve.L/l/H/h/V/v/C/c/S/s/Q/q/T/t/B/b/I/i", "Curve.arc", "Curve.get_points"],
  "list of curve points", [("last_c / last_q", "previous control points")])

p("C12", "Incremental path construction keeps position, widths and tags consistent",
  "After each construction step of a simple path (segment, arc, turn, parametric) the current position, direction, width, spacing and accumulated length are those of the end of the section just added, and each of its parallel lines starts where the previous section ended, with the requested number, width and offsets. For flexible and robust paths every step extends the spine to the documented end point, keeps one width and one offset per parallel element at every spine point, repeats layers and types cyclically over the elements, and the polygons reported afterwards include the new section.",
  ["inputs", "histories"], "All sequences of construction steps and their arguments, any number of parallel elements.",
  "Tests build one path per feature; combinations of tapering, several parallel lines and changing direction are not sampled.",
  ["gdspy/polygon.py", "gdspy/path.py"],
  ["Path.__init__", "Path.segment", "Path.arc", "Path.turn", "Path.parametric", "FlexPath.segment/arc/turn/parametric/bezier", "RobustPath.segment/arc/turn/parametric/bezier", "_SubPath", "_func_linear/_func_const/_func_bezier/_func_offset"],
  "path attributes and generated polygons")

p("C13", "Copies are independent and operations leave their operands unchanged",
  "A copied label, polygon set or deep-copied cell equals the original, and later changes to either do not show in the other; copying a cell with a transformation yields the transformed content (each element, label and reference transformed as a whole) and leaves the source untouched. Geometry returned by a query can be modified freely without affecting the queried object, and Boolean, offset, slice and inside-test operations never modify their operands.",
  ["inputs", "histories"], "All cells and elements; all later modifications of either side.",
  "Tests check a copy for equality, rarely for later interference.",
  ["gdspy/library.py", "gdspy/label.py", "gdspy/operation.py", "gdspy/polygon.py"],
  ["Cell.copy", "copy", "deepcopy use in Cell.get_polygonsets/get_paths/get_labels", "_gather_polys", "boolean", "offset", "slice", "inside"],
  "original and copy after modifying one of them")

p("C14", "Operation arguments are interpreted alike in every accepted form",
  "Slicing, Boolean, offset and inside operations treat an operand given as a polygon set, path, reference, array, point list, or any list of these as the collection of all polygons these contain. Slicing returns one polygon set per slab between the (sorted) cut positions with the layer and type cycled as documented and together covering the input, inside tests return one answer per point or per point group according to the any/all option, and results carry the requested layer and type.",
  ["inputs"], "All operand forms and combinations.",
  "Tests pass one form per operation.",
  ["gdspy/operation.py"], ["_gather_polys", "slice", "offset", "boolean", "inside"], "returned objects")

p("C15", "SVG export draws the same geometry",
  "Exporting a cell to SVG writes one polygon per polygon with its vertices scaled and its layer/type class, one use element per (array) reference whose transformation list composes to translate, rotate, reflect, magnify in the order that reproduces the reference's placement, and one text per label at its position with its anchor and transformation. The view box covers the padded bounding box and every class used by a drawn element is defined in the style sheet.",
  ["inputs"], "All cells, scalings, precisions and reference parameters.",
  "Tests only check that export runs or compare nothing at all.",
  ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
  ["PolygonSet.to_svg", "Label.to_svg", "CellReference.to_svg", "CellArray.to_svg", "Cell.to_svg", "Cell.write_svg"], "text written to the SVG file")

p("C16", "Boolean, offset and fracture results cover the mathematically correct region",
  "The result of a Boolean operation, an offset, a slice or a fracture covers, up to the precision argument, exactly the region that set algebra or the offset definition prescribes. No gaps, overlaps or spurious slivers larger than the precision appear, whatever the operands' self-intersections, holes or degeneracies.",
  ["inputs"], "All polygon operands.",
  "Tests compare a few axis-aligned cases.",
  ["gdspy/clipper.cpp", "gdspy/operation.py"], ["Clipper sweep (Vatti) in clipper.cpp", "boolean", "offset", "fracture"], "region covered by the result")

p("C17", "Smooth interpolating curves pass through their points with continuous tangents",
  "A smooth curve through given points passes through every one of them in order, honours each prescribed direction, and is continuous in tangent direction at every point, closed curves included. Prescribed curls and tensions change only the shape between the points.",
  ["inputs"], "All point lists, direction lists, tensions, curls and the closed flag.",
  "Tests compare two curves to stored points.",
  ["gdspy/hobby.py", "gdspy/curve.py", "gdspy/path.py"], ["_hobby", "Curve.I", "Curve.i", "FlexPath.smooth", "RobustPath.smooth"], "control points and sampled curve")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
