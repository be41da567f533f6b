"""writes known_findings.jsonl: repaired defects (from the fix commits of /repo) and open findings"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> (property, contract that decides it)
FIXED = [
    ("exact base-16 exponent in _eight_byte_real", "C01", "boundaries", "_eight_byte_real gave a denormalised, lossy encoding of numbers just below a power of 16 (e.g. 15.999999999999998), because numpy.log2 rounds up"),
    ("FlexPath.transform scales custom end extensions", "C05", "flexpath_transform", "FlexPath.transform with a scale left custom end extensions unscaled (FlexPath.scale scales them)"),
    ("Path.scale also scales the distance between lines and the length", "C05", "path_scale", "Path.scale left the distance between parallel lines and the accumulated length unscaled, so later sections did not join the scaled ones"),
    ("RobustPath.to_gds rounds coordinates instead of truncating them", "C02", "robustpath_to_gds", "RobustPath.to_gds truncated coordinates towards zero: (0.9996, 0) with a multiplier of 1000 was written as 999"),
    ("RobustPath.turn starts in the current (transformed) direction", "C12", "robustpath_turn", "after rotating or reflecting a RobustPath, turn continued in the direction before the rotation"),
    ("RobustPath.transform does not magnify the array displacement", "C06", "robustpath_transform", "paths of magnified array references were displaced by spacing times magnification (polygons by the spacing)"),
    ("RobustPath.scale and transform scale custom end extensions", "C05", "robustpath_scale", "RobustPath.scale left custom end extensions unscaled"),
    ("RobustPath.transform keeps widths positive under reflection", "C05", "robustpath_transform", "a reflected RobustPath had negative widths: later tapered sections crossed zero width and GDSII paths were written with negative (absolute) width"),
    ("RobustPath does not modify the width and offset lists it is given", "C12", "robustpath_init", "RobustPath kept and modified the caller's width and offset lists, so that two paths built from one list shared them"),
    ("FlexPath and RobustPath.get_polygons return copies of the cached polygons", "C13", "path_polygons_are_copies", "changing an array returned by FlexPath/RobustPath.get_polygons() changed the path"),
    ("empty flexible and robust paths have no polygons, area or bounding box", "C07", "empty_paths", "a FlexPath with a single point or an empty RobustPath in a cell raised exceptions from get_bounding_box, area, get_polygons and to_gds"),
    ("layer, datatype and texttype queries follow references and skip missing cells", "C09", "cell_get_texttypes", "Cell.get_texttypes raised AttributeError in a cell with references; get_layers and get_datatypes in a cell with a reference held by name"),
    ("remove_polygons keeps the polygon and tag lists of its elements as lists", "C09", "cell_remove_polygons", "after Cell.remove_polygons the elements held tuples: fracture and references to the cell raised exceptions"),
    ("Cell.flatten changes the texttype of labels only when one is given", "C09", "cell_flatten_labels", "flatten(single_layer=1, single_datatype=2) set the texttype of all labels to None; single_texttype alone was ignored"),
    ("Cell.flatten drops path polygons cached under the old layers", "C09", "cell_flatten_paths", "after flatten with a new layer, get_polygons(True) still listed path polygons under the old layer if they had been computed before"),
    ("polygons of a missing cell are an empty list when filtered by specification", "C06", "missing_cell", "get_polygons((layer, datatype)) of a reference to a missing cell returned a dict"),
    ("bounding box of a cell follows changes in its dependencies", "C07", "bounding_box_history", "after changing B and querying B, a cell A that references B kept reporting the old box"),
    ("removing polygons or paths and flattening invalidate the cached bounding box", "C07", "bounding_box_invalidation", "the bounding box after remove_polygons or remove_paths was the old one"),
    ("GdsLibrary.add refuses name clashes before changing the library", "C08", "library_add", "GdsLibrary.add raised for a name clash after having added some of the cells; two different cells of one name in one call replaced each other silently"),
    ("Cell.copy composes reflections and scales array spacings", "C13", "cell_copy_references", "a transformed copy lost the reflection of labels and references and did not scale the spacing of arrays"),
    ("deep copies of cells do not share the properties of references", "C13", "cell_deep_copy", "references of a deep copy shared the properties dictionary with the original's"),
    ("get_labels composes the reflection of a reference with the label's own transformation", "C06", "reference_get_labels", "get_labels(set_transform=True) toggled the reflection of labels even through references without reflection and did not invert their rotation under reflection"),
    ("accept flexible paths inside operand lists of operations", "C14", "gather_polygons", "a list that contains a FlexPath raised an exception as operand of slice, boolean, offset and inside"),
    ("boolean of two empty operands is empty", "C14", "boolean_empty", "boolean([], [], 'or') raised IndexError"),
    ("inside test against no polygons or with empty groups", "C14", "inside_nothing", "gdspy.inside(points, operand without polygons) and empty groups of points crashed the interpreter (out of bounds access in clipper.cpp)"),
    ("intersection with an empty operand is empty", "C14", "boolean_empty", "boolean(operand1, None, 'and') intersected the last polygon of operand1 with the others"),
    ("read_gds does not attach properties of unsupported elements to the next element", "C03", "read_properties", "properties of an unsupported element (e.g. NODE) were given to the next element read"),
    ("empty strings in GDSII files are read as empty strings", "C03", "read_strings", "a label with an empty text was read back with text None"),
    ("final position of an L1Path that ends downwards", "C12", "l1path_end", "the final y of an L1Path that ends in direction -y was computed with the length of the last but one section"),
    ("FlexPath that starts at a single coordinate pair has one width and offset per point", "C12", "flexpath_init", "FlexPath((x, y), width) had two width and offset entries for one point, so that the widths of later points were shifted by one"),
    ("GdsLibrary.add updates references in all added cells", "C08", "library_add_many", "lib.add([A, B2], overwrite_duplicate=True), where A references the old B, updated the reference of A or not depending on the order of the set of cells"),
    ("top_level follows references held by name", "C08", "top_level", "GdsLibrary.top_level listed cells that other cells of the library reference by name"),
    ("L1Path keeps its final position and direction when translated, scaled or mirrored", "C05", "l1path_translate", "L1Path.x, y and direction did not follow translate, scale and mirror"),
    ("get_binary_cells and get_gds_units accept files padded with null bytes", "C04", "binary_cells_of_files", "get_binary_cells raised ValueError for a file with null padding after the last record (as on tape blocks)"),
    ("arcs of curves deviate by no more than the tolerance", "C11", "curve_arc", "the deviation of Curve.arc from the arc was up to 1.5 times the tolerance (number of points rounded to nearest), and a tolerance above twice the radius raised ValueError"),
    ("parallel lines of a Path keep their order in clockwise arcs and parametric sections", "C12", "path_arc", "the parallel lines of a Path (with their layers) changed sides between segment and a clockwise arc or a parametric section"),
    ("a turn of a Path by a null angle keeps its direction", "C12", "path_turn", "Path.turn(r, 0) reversed the direction of the path"),
    ("length of a Path includes sections of null width", "C12", "path_segment", "Path.length was not increased by segments of null width"),
    ("arcs of paths accept negative offsets and large tolerances", "C12", "flexpath_arc", "FlexPath.arc (and Path.arc) raised ValueError for a tolerance above twice the radius or an offset larger than it"),
    ("RobustPath.turn averages directions across the negative x axis", "C12", "robustpath_turn_spread", "RobustPath.turn turned the wrong way when the directions of its elements lie on both sides of the negative x axis"),
    ("fracture ends when most vertices share an extreme coordinate", "C16", "fracture_region", "PolygonSet.fracture never returned for polygons most of whose vertices share an extreme coordinate of the longer extent (all cuts fell on the boundary), e.g. 242 vertices of which two thirds have x = 100"),
    ("boolean operations with self-intersecting polygons", "C16", "self_intersecting_operands", "parts of self-intersecting polygons with a negative winding number cancelled other polygons: holes in unions and differences"),
    ("offset of self-intersecting polygons and of separate polygons", "C16", "offset_of_self_intersecting", "parts of self-intersecting polygons vanished from their offset; with a negative distance and join_first=False the outline of one polygon cut holes in what remained of another"),
    ("link holes that touch a horizontal side of their polygon", "C16", "self_intersecting_operands", "a hole whose leftmost vertex lies on a horizontal side of the outline was linked through a point with x = 0 (the end iterator was read), destroying the polygon"),
]
WHAT = "FlexPath.transform(..., x_reflection=True) keeps the sign of the offsets: parallel elements appear on the wrong side of the reflected spine (the existing tests flexpath.py::test_flexpath_transform store the unnegated offsets, so a repair would break them)"
OPEN = [
    ("C05", "flexpath_transform_reflected_offsets", "offsets", WHAT),
    ("C06", "flexpath_transform_reflected_offsets", "offsets", WHAT),
    ("C07", "shared_element_box", "box", "remove_polygons on a cell whose polygon sets are shared with another cell (shallow copy, or one element added to two cells) changes the polygons of both, but only the first recomputes its cached bounding box (the cache of own boxes has no owner list to invalidate; dropping it would slow every query)"),
]


def main():
    log = {}
    for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines():
        h, s = l.split(" ", 1)
        log[s] = h
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for s, p, c, what in FIXED:
            h = log["fix: " + s]
            f.write(json.dumps({"property": p, "status": "fixed", "commit": h, "line": "fixed: property=%s %s %s" % (p, h, what), "contract": c}) + "\n")
        for p, c, check, what in OPEN:
            f.write(json.dumps({"property": p, "status": "open", "contract": c, "check": check, "what": what}) + "\n")
    missing = [s for s in log if s.startswith("fix: ") and s[5:] not in [x[0] for x in FIXED]]
    if missing:
        print("not listed:", missing)


main()
