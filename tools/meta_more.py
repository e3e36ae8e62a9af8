# executed by meta.py (shares its names)
ST = "src/util/string_operations.h"
prop("C12", "Inconsistent data and parameters outside the domain are refused",
     "Constructing a B-spline or NURBS (directly or through a generator) succeeds exactly when, in every direction, the knot vector has at least 2(p+1) knots and is clamped (first and last knot at least p+1 times), the number of control points matches, all control points have one dimension and (NURBS) there is one weight per point; otherwise a runtime error is thrown. Evaluation and derivatives accept exactly the parameters of the closed domain in every direction and throw a range error otherwise.",
     ["inputs", "configurations"], "all knot values, the listed multiplicity patterns in each direction, all parameters inside and outside",
     "tests try a few malformed inputs in one direction", [S, BS, NU, P, PH, WP, "src/spl/b_spline_generator.h", "src/spl/nurbs_generator.h"],
     [], [("ThrowIfKnotVectorDoesNotStartAndEndWith, ThrowIfParametricCoordinateOutsideKnotVectorRange", P), ("ThrowIfNumberOfPoints...", PH)], ["constructors, Evaluate, EvaluateDerivative"], "")
prop("C13", "Splines do not influence each other and queries do not change them",
     "Two splines constructed directly from the same knot vectors and data, a spline and its copy (for a NURBS also the one built from it with other control points), and a spline and the two parts of its subdivision are independent: a knot insertion, knot removal, degree elevation or cut of one, or a later change of the knot vectors passed to the constructor, changes nothing of the others. Evaluation, derivatives, comparisons and other queries leave a spline unchanged, and a copy initially equals its original.",
     ["inputs", "histories"], "all knots, control points, weights and parameters within the bounds; one mutating operation of every kind",
     "tests never look at a second object after an operation", [S, BS, NU, P, PH, WP], [("knot_vector_", "shared pointers to knot vectors, copied on construction", P)], [("ParameterSpace(const ParameterSpace &)", P), ("PhysicalSpace / WeightedPhysicalSpace copy", PH)], ["accessors and Evaluate of the untouched objects"], "")
prop("C14", "Spline equality predicates are exact up to the tolerance",
     "AreEqual answers yes exactly when degrees, point counts and point dimension agree and every knot, coordinate and (NURBS) weight agrees within the tolerance, and is symmetric. AreGeometricallyEqual accepts splines of the same geometry in different representations (inserted knots, raised degree), and rejects a spline that is translated by more than the tolerance or whose corner control point moved by more than it.",
     ["inputs"], "all knots, coordinates, weights, tolerances and differences within the bounds",
     "tests compare a handful of fixed splines", [S, BS, NU, P, PH, WP], [], [("AreEqual / AreGeometricallyEqual", S)], ["AreEqual, AreGeometricallyEqual"], "")
prop("C16", "Numbers in files are read with their exact decimal value",
     "Every decimal numeral (optional sign, digits with or without decimal point, optional exponent e or E with optional sign) that the readers accept is converted to the value it denotes, alone and in lists separated by blanks, line breaks, commas and the terminators the formats use, in order and without loss.",
     ["inputs"], "all digits of all numerals of the listed shapes",
     "tests convert a few fixed texts", [ST], [], [("StringToDouble / StringVectorToNumberVector", ST)], ["util::StringOperations"], "")
_c = "knots, degrees, control points (in the right order) and, for NURBS, weights, in the order of the list and with the type (B-spline or NURBS) it had; numbers agree to the printed digits (IGES about 16 significant, XML and IRIT 6 decimals)."
prop("C17", "IGES: what is written can be read back unchanged",
     "Writing any list of B-spline and NURBS curves and surfaces of point dimension up to three to an IGES file and reading it gives the same splines (points come back with three coordinates, missing ones zero): " + _c,
     ["inputs", "configurations"], "all knots, coordinates and weights; listed sizes and list compositions",
     "tests write two fixed splines", ["src/io/iges_writer.cc", "src/io/iges_reader.cc", ST], [("parameter section", "columns, pointers, line counts", "src/io/iges_writer.cc")], [("WriteFile", "src/io/iges_writer.cc"), ("ReadFile", "src/io/iges_reader.cc")], ["io::IGESWriter::WriteFile then io::IGESReader::ReadFile"], "")
prop("C18", "IRIT: what is written can be read back unchanged",
     "Writing any list of B-spline and NURBS curves, surfaces and volumes to an IRIT file and reading it gives the same splines: " + _c,
     ["inputs", "configurations"], "all knots, coordinates and weights; listed sizes and list compositions",
     "tests write a few fixed splines", ["src/io/irit_writer.cc", "src/io/irit_reader.cc", "src/io/irit_writer_utils.h", "src/io/irit_reader_utils.h", ST], [], [("WriteFile", "src/io/irit_writer.cc"), ("ReadFile", "src/io/irit_reader.cc")], ["io::IRITWriter::WriteFile then io::IRITReader::ReadFile"], "")
prop("C19", "XML: what is written can be read back unchanged",
     "Writing any list of B-spline and NURBS curves, surfaces, volumes and four-dimensional splines to an XML file and reading it gives the same splines: " + _c,
     ["inputs", "configurations"], "all knots, coordinates and weights; listed sizes and list compositions",
     "tests write a few fixed splines", ["src/io/xml_writer.cc", "src/io/xml_reader.cc", "src/io/xml_writer_utils.h", "src/io/xml_reader_utils.h", ST], [], [("WriteFile", "src/io/xml_writer.cc"), ("ReadFile", "src/io/xml_reader.cc")], ["io::XMLWriter::WriteFile then io::XMLReader::ReadFile"], "")
prop("C20", "VTK export samples the exact geometry on a consistent mesh",
     "The VTK file written for a list of curves, surfaces and volumes contains, per spline and in order, the spline evaluated at the uniform parameter grid given by the number of subdivisions (missing coordinates zero), and cells that connect exactly the neighbouring samples of the same spline in the VTK corner order, with matching counts and cell types in every section.",
     ["inputs", "configurations"], "all values of the symbolic control point coordinates; listed sizes, subdivisions and list compositions",
     "tests check section headers and counts of fixed splines", ["src/io/vtk_writer.cc", "src/io/vtk_writer_utils.h"], [], [("WriteFile", "src/io/vtk_writer.cc")], ["io::VTKWriter::WriteFile"], "")
prop("C15", "The multi-index handler enumerates and flattens indices correctly",
     "For all positive lengths and every current index: the handler starts at zero; ++ and -- (and + k, - k) step through all index tuples with the first direction fastest and wrap around; post-increment returns the previous state; the flat index is the mixed radix number i0 + n0 (i1 + n1 (i2 + ...)) of the current or a given index; setting a flat index of the range gives the tuple with that flat index; the difference indices are n - 1 - i; the length is the product of the lengths; extracting a direction gives the flat index with that direction left out.",
     ["inputs"], "all lengths and indices within the bounds",
     "tests step through a few fixed handlers", ["src/util/multi_index_handler.h"], [], [("MultiIndexHandler", "src/util/multi_index_handler.h")], ["util::MultiIndexHandler"], "")
prop("C21", "File conversion transfers exactly the requested splines",
     "Converting a file (IOConverter or a converter executable with its log file) writes, in the order of the request, exactly the requested splines of the input that the output format can hold (IGES up to dimension 2, IRIT and VTK up to 3, XML up to 4), or all of those if none are requested; other positions are ignored. Each keeps its type, degrees, knots, points and weights to the printed digits, in VTK files it is sampled with the subdivisions given for it. The returned positions or the log name exactly the splines written, a repeated conversion does not depend on an earlier one, and formats are recognised by the end of the file name alone (anything else is refused with a runtime error).",
     ["inputs", "configurations", "histories"], "all requests within the bounds, all printed numbers that are symbolic",
     "tests convert one fixed file", ["src/io/io_converter.cc", "src/io/executables", "src/util/any_casts.h", "src/util/vector_utils.h", ST], [], [("ConvertFile", "src/io/io_converter.cc"), ("ConverterLog", "src/io/executables/converter_log.cc"), ("FilterVector", "src/util/vector_utils.h")], ["io::IOConverter::ConvertFile, converter executables"], "")
PJ, SG = "src/spl/projection.h", "src/spl/surface_generator.cc"
prop("C22", "Projection stays in the domain and is exact on lines and rectangles",
     "Projecting any point onto a curve or surface returns a parameter inside the knot range of every direction. On a straight line or a rectangle, uniformly parametrised over any knot range and in any representation (raised degree, inserted knots), it is the parameter of the closest point, including points whose foot lies outside and is moved to the boundary.",
     ["inputs"], "all points, lines and knot ranges within the bounds",
     "tests project fixed points onto fixed splines over [0, 1]", [PJ, "src/util/element_generator.h", "src/util/vector_utils.h", S], [], [("ProjectionOnCurve, ProjectionOnSurface", PJ)], ["spl::Projection"], "Tangents that vanish or are parallel during the iteration are outside the claim.")
prop("C23", "Generated surfaces follow the two curves they are built from",
     "The translation surface of two NURBS curves T and C has the degrees and knots of the curves and S(u, v) = T(u) + C(v) for all u, v, and later changes to it do not change the curves. A swept surface has one row of control points per station, the stations uniformly spaced over the knot range of the trajectory: the scaled section moved rigidly to the trajectory point with its first axis along the tangent, weights multiplied; its knots are those of the section and the clamped averages of the station parameters.",
     ["inputs"], "all curve data, parameters, scalings within the bounds",
     "tests build a few fixed surfaces", [SG, "src/spl/surface_generator.h", "src/baf/control_point.cc", "src/baf/knot_vector.cc"], [], [("JoinPhysicalSpaces, ComputeNormal, GetTransformation", SG), ("Transform", "src/baf/control_point.cc")], ["spl::SurfaceGenerator, spl::NURBS<2>::Evaluate"], "Straight trajectories parallel to the z axis (no normal defined) are outside the claim.")
prop("C24", "Generated squares, elements and random splines are valid",
     "SquareGenerator gives, for any degree p and number of knots n >= 2p + 2, a spline with uniform clamped knots on [0, 1] in both directions that maps the unit square onto [-1, 1] x [-1, 1] without folding: edges to edges, x depending on the first parameter only, symmetric in the two directions. The element list of a spline consists of its non-empty knot spans in order, with their exact bounds. Random splines, for any draw, have degrees between 1 and the given maximum, clamped knots that run from the lower to the upper given limit with increasing interior knots, as many points as knots and degree require, the requested point dimension, coordinates within [-5, 5] and positive weights.",
     ["inputs"], "all parameters, breakpoints, limits and random draws within the bounds",
     "tests look at one square, one spline's elements and a few random draws", ["src/spl/square_generator.cc", "src/util/element_generator.h", "src/util/element.h", "src/spl/random_spline_utils.h", "src/spl/random_b_spline_generator.h", "src/spl/random_nurbs_generator.h", "src/util/random.h"], [], [("CreateSquare", "src/spl/square_generator.cc"), ("ElementGenerator", "src/util/element_generator.h"), ("GenerateKnots, GenerateControlPoints", "src/spl/random_spline_utils.h")], ["spl::SquareGenerator, util::ElementGenerator, spl::RandomBSplineGenerator, spl::RandomNURBSGenerator"], "The distribution of the random numbers is outside the claim.")
prop("C25", "Point and vector arithmetic, accessors and setters are exact",
     "Sum, difference, multiple, norm and transformation of control points and difference, multiple, scalar and vector product, norm and distance of vectors follow their definitions and leave the operands unchanged. Filtering a vector gives the entries at the given positions in order, or a runtime error if a position does not exist. Splines and physical spaces report exactly the points, coordinates, weights, sizes, degrees and knot ranges they were built from at every index; homogeneous points are (w x, w); the expansion is the largest coordinate (at least 0); the maximum distance from the origin and the minimum weight are those of the control points; setting a point, coordinate or weight changes exactly that one.",
     ["inputs"], "all coordinates, weights and indices within the bounds",
     "tests use a few fixed points", ["src/baf/control_point.cc", "src/util/vector_utils.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", S], [], [("ControlPoint", "src/baf/control_point.cc"), ("VectorUtils", "src/util/vector_utils.h"), ("PhysicalSpace", "src/spl/physical_space.h")], ["baf::ControlPoint, util::VectorUtils, spl::PhysicalSpace"], "")
prop("C26", "Sequences of modelling operations keep the geometry",
     "Any sequence of exact modelling operations on one B-spline or NURBS - inserting knots, refining, raising the degree, reducing a degree raised before, removing knots inserted before, copying and going on with the copy (whatever happens to the original), cutting and going on with one part - in any order and in any directions, interleaved with queries, leaves every point of the remaining domain unchanged, and the degrees, knots and numbers of points are those the sequence determines. Undoing everything restores control points and weights.",
     ["inputs", "histories"], "the listed sequences, all values of the symbolic data",
     "tests apply one or two operations to fixed splines", ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"], [], [("InsertKnot, RemoveKnot, ElevateDegreeForDimension, ReduceDegreeForDimension", "src/spl/spline.h"), ("SudivideSpline", "src/spl/b_spline.h")], ["spl::Spline, spl::BSpline, spl::NURBS"], "")
prop("C27", "Written files follow their formats",
     "Whatever list of B-spline and NURBS curves and surfaces (IRIT also volumes, XML also four-dimensional splines) is written: an IGES file has lines of 80 columns in the sections S, G, D, P and T, numbered within each section, a global section of 26 values whose counted strings have the announced lengths, two directory lines per spline that name its type (126 or 128), its first parameter line and the number of its parameter lines, parameter lines that name their directory entry and end with one record delimiter, and a terminate line with the sizes of the sections. The numbers announced in IGES, IRIT and XML files (splines, points, orders or degrees, polynomial flag, point type, dimensions, coordinate names) are those of the splines, brackets and elements are balanced, and knots, weights and coordinates stand where the format puts them, first parametric direction fastest (IRIT: points of NURBS multiplied by the weight that precedes them; IGES: three coordinates, missing ones zero).",
     ["inputs"], "all knots, coordinates and weights within the bounds",
     "tests look at single lines of a few fixed files; the round trip does not see errors that writer and reader share", ["src/io/iges_writer.cc", "src/io/irit_writer.cc", "src/io/irit_writer_utils.h", "src/io/xml_writer.cc", "src/io/xml_writer_utils.h"], [], [("WriteFile", "src/io/iges_writer.cc"), ("AddSpline", "src/io/irit_writer.cc"), ("AddSpline", "src/io/xml_writer.cc")], ["io::IGESWriter, io::IRITWriter, io::XMLWriter"], "The contents of the IGES global section (names, dates, units) and the closed and periodic flags are outside the claim.")
prop("C28", "Readers find the data wherever the format allows it to be",
     "Reading gives exactly the splines of a file, however the file is laid out within its format. IGES: the rational B-spline curves and surfaces in the order of the directory, whatever the order of their parameter data, its distribution over lines, blanks around values, trailing optional parameters, entities of other types, and lines that are empty or short. IRIT: whatever the line breaks between and within entries, the indentation (blanks or tabs) and the attributes of objects. XML: whatever the order of attributes and child elements, the line breaks and tabs, and with further variables stored with each control point before and behind the coordinates, which start at the variable named x.",
     ["inputs", "configurations"], "the listed layouts, all knots, coordinates and weights within the bounds",
     "tests read a few fixed files", ["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h"], [], [("ReadFile", "src/io/iges_reader.cc"), ("ReadFile", "src/io/irit_reader.cc"), ("GetControlPoints", "src/io/xml_reader.cc")], ["io::IGESReader, io::IRITReader, io::XMLReader"], "Malformed files are outside the claim.")
