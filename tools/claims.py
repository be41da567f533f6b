BASE = "Obligations generated on every run from /repo's current source and discharged by z3 for all inputs and list lengths; floats read as reals, library models (numpy, struct, builtins) trusted. "
CLAIMS = {
 "C01": ("proof", BASE + "Encoder proved for every exponent and every 56-bit mantissa, decoder for every 8-byte pattern; rounding of native doubles cross-checked by samples at all exponent boundaries."),
 "C02": ("proof", BASE + "Writers of every element, cell and library proved record by record; joins of path sections are bounded (evidence lists them)."),
 "C06": ("proof", BASE + "References, arrays, cell queries and flatten proved against callee contracts (the referenced cell's queries are contract stubs); whole hierarchies bounded."),
 "C07": ("proof", BASE + "Boxes of polygon sets, cells, references and arrays proved tight against callee contracts, also after add and remove; coordinates assumed below 1e299 in magnitude; histories over random hierarchies bounded."),
 "C09": ("proof", BASE + "Constructors, tag queries, removal, grouped queries and flatten proved against callee contracts; fracture, fillet and curved sections bounded (they call the clipper or adaptive sampling)."),
 "C10": ("proof", BASE + "Areas of polygon sets, paths, cells, references proved; whole hierarchies bounded."),
 "C08": ("proof", BASE + "Add, overwrite, remove, rename, replace, dependencies and top level proved for libraries of two or three cells of arbitrary names, each with arbitrarily many references; random histories bounded."),
 "C13": ("proof", BASE + "Copies of labels, polygon sets and cells (plain, deep, transformed) and the results of cell and path queries proved independent of the original; operands of the clipper-based operations bounded (the clipper is C++)."),
 "C03": ("proof", BASE + "The reader proved element kind by element kind for streams with arbitrary vertices, tags, names, strings and options, as are mappings, renaming, resolution of references and refusals; with the writer (C02) this gives the round trip. Whole random libraries bounded."),
 "C04": ("proof", BASE + "Hash, time stamps, units query and cell splitting proved for streams of any number of cells and records of any content; files written by the package, padding and write-back bounded."),
 "C15": ("proof", BASE + "Text written for every element, cell and file proved equal to the prescribed drawing (elements of a cell and queries of a page are contract stubs); whole random hierarchies are parsed and redrawn natively (bounded). Trusted: numpy.format_float_positional, str.format."),
 "C14": ("proof", BASE + "The polygons, arguments and results that slice, boolean, offset and inside exchange with the clipper proved for operands of every form with any number of polygons; the clipper itself (C++) is a recorder there and is compared natively (bounded)."),
 "C11": ("proof", BASE + "Every curve command proved, the adaptive sampling loops by an invariant (parameters increase, every point is the image of its parameter, neighbours satisfy the tolerance test); termination of the refinement and the behaviour between the tested parameters are not claimed."),
 "C12": ("proof", BASE + "Every construction step of Path, FlexPath and RobustPath proved for any earlier state (numbers of parallel elements enumerated), adaptive sampling by the loop invariant of C11; whole histories with queries in between bounded."),
 "C16": ("exploration", BASE + "Arguments, operands and results exchanged with the clipper, and what fracture makes of its pieces, proved for arbitrary polygons (the clipper is a stand-in there). The clipper itself, 5000 lines of C++, is out of the verifier's reach: it is compiled from the current tree and the regions of random Boolean operations, offsets, slices and fractures are compared point by point with winding-number and distance oracles (bounded, not counted as proved)."),
 "C17": ("proof", BASE + "Control points of Hobby's algorithm proved to lie on a common line through each point, in the prescribed direction if there is one, for open curves of 2 to 5 and closed curves of 2 to 4 points with every combination of prescribed angles and arbitrary curls and tensions (solution of the linear system: any values that satisfy its equations with constant coefficients); that they lie on opposite sides is proved for open curves of 2 and 3 points. How curves and paths draw them is proved for up to 3 points. Longer curves bounded."),
 "C05": ("proof", BASE + "See the evidence file for the functions under contract and the bounded stand-ins."),
}
NOT_APPLICABLE = {
}
