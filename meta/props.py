NOTES = ("Every check parses /repo's current sources with a clang-based extractor (tool/mcx.cxx, built by setup_cmd into "
         "build/, rebuilt on demand) and decides its rules on the resolved program; nothing of /repo is executed.")
M = "src/MEDCoupling/"
PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id="P01", title="Objects that compare equal agree on every attribute",
     statement="Two arrays, meshes or fields compare equal only if they agree on every attribute of their value: sizes, "
     "ids, values within the tolerance given, connectivity and its index, grid structure, discretization, time and, "
     "for the comparison that includes strings, names, units and component infos. A difference in any single attribute, "
     "presence of an array included, makes the comparison answer false, whichever class the object is of. The value-only "
     "comparison may leave out descriptive strings and the mesh's time label, nothing else.",
     over=["inputs"], text="all pairs of objects of every class of the data model, differing in any attribute",
     why="tests compare a few objects differing in a few attributes; no test varies each attribute of each class, and "
     "each comparator has early-return paths (no array, no mesh, same pointer) the samples do not take",
     files=[M + "MEDCouplingMesh.cxx", M + "MEDCouplingUMesh.cxx", M + "MEDCoupling1GTUMesh.cxx",
            M + "MEDCouplingTimeDiscretization.cxx", M + "MEDCouplingFieldT.txx", M + "MEDCouplingMemArray.txx"],
     mech=[("isEqualIfNotWhy / isEqual / isEqualWithoutConsideringStr of every class", M + "*.cxx")],
     technique="must-facts dataflow over control-flow graphs with callee summaries (clang AST/CFG facts)",
     note="For each (class, comparator, member): on every path answering 'equal' the member has been compared with its "
     "counterpart. Trusts element comparisons to use the right tolerance and container loops to visit all elements.")

prop(id="P02", title="A deep copy carries every attribute and shares no storage",
     statement="A deep copy of an array, mesh or field is of the very class of the original and has every attribute of "
     "the original's value. No array, mesh or sub-object is shared between the two: modifying one never changes the "
     "other. Copying a field together with its mesh copies the mesh too.",
     over=["inputs", "histories"], text="all objects of every class of the data model, and all later modifications of either",
     why="tests deep-copy a few objects and compare with isEqual; a member forgotten by both, or an array shared, only "
     "shows when that very array is modified afterwards",
     files=[M + "MEDCouplingUMesh.cxx", M + "MEDCoupling1GTUMesh.cxx", M + "MEDCouplingTimeDiscretization.cxx",
            M + "MEDCouplingFieldT.txx", M + "MEDCouplingMemArray.txx", M + "MEDCouplingCMesh.cxx"],
     mech=[("copy constructors with a deep-copy flag", M + "*.cxx"), ("deepCopy / clone / cloneWithMesh", M + "*.cxx")],
     technique="per-path value-origin dataflow over copying constructors and copying methods (clang AST/CFG facts)",
     note="Each member of each copying constructor takes its value from the same member of the original on every path, "
     "reference-counted sub-objects through a deep copy; each copying method returns the exact class made from the whole "
     "original.")

prop(id="P03", title="Deserializing puts back every attribute that serializing took",
     statement="For every serializable class (arrays, meshes, fields, field templates, their discretizations and time "
     "definitions), each data attribute is written by the serialization methods, and the deserialization methods fill it "
     "from the very place of the stream it was written at. No attribute is filled from another's place, and what a "
     "sub-object contributes is not dropped.",
     over=["inputs"], text="all objects of the serializable classes, whatever the values of their attributes",
     why="tests pickle a few objects most of whose attributes have equal or default values; a swap or an omission shows "
     "only when the very attributes differ from each other and from their defaults",
     files=[M + "MEDCouplingUMesh.cxx", M + "MEDCouplingCMesh.cxx", M + "MEDCoupling1GTUMesh.cxx", M + "MEDCouplingFieldT.txx",
            M + "MEDCouplingTimeDiscretization.cxx", M + "MEDCouplingMappedExtrudedMesh.cxx"],
     mech=[("getTinySerialization*Information / serialize vs unserialization / finishUnserialization", M + "*.cxx")],
     technique="slot dataflow: symbolic stream positions of writers vs readers (clang AST/CFG facts)",
     note="Positions are linear forms over sizes; unresolved ones are reported as such and pass. The order of values "
     "inside one big array is assumed. A field's mesh and discretization kind are the caller's to send; so is the inner "
     "naming of mesh arrays.")

prop(id="P04", title="Changing data moves the modification stamp of everything built on it",
     statement="Every public operation that changes the values of an array, or the coordinates, connectivity or grid "
     "structure of a mesh, or attaches another array or mesh, moves the object's modification stamp, except operations "
     "documented as silent. Refreshing the stamp of a mesh or field takes into account the stamps of all the arrays and "
     "meshes it refers to, theirs being refreshed first.",
     over=["histories", "inputs"], text="all sequences of modifications of all objects of the data model",
     why="tests look at the stamp of one unstructured mesh after two setters; caches keyed on stamps (remapper, AMR "
     "attributes) go stale silently on any path that forgets to stamp",
     files=[M + "MEDCouplingTimeLabel.cxx", M + "MEDCouplingMemArray.txx", M + "MEDCouplingUMesh.cxx",
            M + "MEDCouplingIMesh.cxx", M + "MEDCouplingPointSet.cxx", M + "MEDCouplingFieldT.txx"],
     mech=[("declareAsNew calls in modifying methods", M + "*.cxx"), ("updateTime overrides", M + "*.cxx")],
     technique="per-path effect dataflow (member writes vs stamps) with interprocedural summaries",
     note="Each public modifying method: no path writes a data member without stamping, unless the value was proved "
     "unchanged or a newly made part attached. Each stamp refresh covers every part. Descriptive strings and time labels "
     "are not data. Gauss localizations are out of scope.")

prop(id="P05", title="Memory accounting reaches every sub-object an object holds",
     statement="The memory accounting of an object (its list of direct children, from which its heap memory size is "
     "computed) reaches every reference-counted array, mesh, field or other sub-object it holds. Back references to a "
     "containing object are not counted.",
     over=["inputs"], text="all objects of every class with memory accounting",
     why="tests compare the heap memory of two or three objects; a sub-object left out shows only for that class and "
     "when that very sub-object is present",
     files=[M + "MEDCouplingTimeDiscretization.cxx", M + "MEDCouplingUMesh.cxx", M + "MEDCouplingAMRAttribute.cxx",
            M + "MEDCouplingFieldT.txx", M + "MEDCouplingSkyLineArray.cxx"],
     mech=[("getDirectChildrenWithNull overrides", M + "*.cxx")],
     technique="interprocedural effect analysis of the listing methods (clang AST/CFG facts)",
     note="Each data member holding reference-counted objects appears in its class's list, directly or through a base "
     "class or helper. A member listed on some path is taken as listed whenever present.")

prop(id="P06", title="A field operation does the same for every time definition and array",
     statement="Arithmetic, extrema, products, aggregation, melding and function application on fields do the same "
     "operation, operands in the same order, whatever the time definition of the fields. On a field over a time interval "
     "they make the end array from the operands' end arrays exactly as they make the array from the operands' arrays; no "
     "array is left out.",
     over=["inputs"], text="all operands of every time definition, all operations",
     why="tests exercise the operations with one time definition, mostly one array; each of the four time definitions "
     "implements each operation separately",
     files=[M + "MEDCouplingTimeDiscretization.cxx", M + "MEDCouplingFieldDouble.cxx"],
     mech=[("add / substract / ... / aggregate / meld of each time definition", M + "MEDCouplingTimeDiscretization.cxx"),
           ("operations over the list of arrays", M + "MEDCouplingTimeDiscretization.cxx")],
     technique="sibling cross-checking of normalised value terms, loop coverage (clang AST/CFG facts)",
     note="The operation and operands behind each array of each result are compared between time definitions and between "
     "array and end array; generic operations visit all arrays. What the array operation itself computes is not decided.")

prop(id="P07", title="The cell types a mesh announces follow its connectivity",
     statement="Whenever the nodal connectivity of an unstructured mesh is set, replaced, extended or rewritten with other "
     "cell types, the set of geometric types the mesh announces (getAllGeoTypes, mesh dimension, type-driven algorithms) is "
     "refreshed before the operation returns.",
     over=["inputs", "histories"], text="all meshes and all operations that change their connectivity",
     why="a stale set of types shows only when the operation brings in or removes a type and a type-driven query follows; "
     "tests sample few type mixtures",
     files=[M + "MEDCouplingUMesh.cxx", M + "MEDCouplingUMesh_internal.cxx", M + "MEDCouplingUMesh_intersection.cxx"],
     mech=[("computeTypes / setConnectivity / _types", M + "MEDCouplingUMesh*.cxx")],
     technique="per-path effect dataflow: connectivity writes vs refreshes of the type set (clang AST/CFG facts)",
     note="On every path of every function writing a mesh's connectivity, the type set of the same mesh is recomputed or "
     "set. Whether a set put by hand is the right one is not decided.")

prop(id="P08", title="Queries leave the objects they read unchanged",
     statement="A method declared const leaves unchanged the array, mesh or field it is called on, including the arrays, "
     "meshes and other sub-objects it refers to; an operation leaves unchanged every argument it takes as const, "
     "including what a const array, mesh or field refers to. Reference counts and modification stamps are not data; the "
     "synchronisation of AMR ghost zones, which writes the arrays it is given, is excepted.",
     over=["inputs", "histories"], text="all const methods and const arguments of the data model, all inputs",
     why="constness of a handle does not extend to the array behind it, so the compiler accepts it, and tests rarely "
     "compare an operand with what it was before a query",
     files=[M + "MEDCouplingUMesh.cxx", M + "MEDCouplingMemArray.txx", M + "MEDCouplingFieldDouble.cxx",
            M + "MEDCouplingPointSet.cxx", M + "MEDCouplingRemapper.cxx"],
     mech=[("const methods working on copies", M + "*.cxx")],
     technique="interprocedural write-effect fixpoint over the call graph (clang AST/CFG facts)",
     note="Effects of a method on its object and arguments, callees and overrides included. An object made by a copy or "
     "build operation is taken as separate from its source: a change made through an array both share is not seen. "
     "Search trees and other working structures of INTERP_KERNEL passed as arguments are out of scope.")

prop(id="P09", title="References on arrays, meshes and fields are given back exactly once",
     statement="Every reference a function takes on a counted object (array, mesh, field, discretization, geometric edge) is "
     "released or handed over exactly once on every normal path, and results are consistently owned by the caller or not. "
     "An object given to the Python interpreter comes with a reference exactly when Python releases one, and stays alive "
     "while Python designates it. Replacing what an object holds by itself, or setting it twice, neither frees it nor leaks.",
     over=["inputs", "histories"], text="all functions handling counted objects, all their normal paths, all Python wrappers",
     why="a leaked or doubly released reference changes no result: a test sees it only by counting references after the "
     "very path concerned, and use after release mostly reads memory that still looks right",
     files=[M + "MEDCouplingRefCountObject.cxx", M + "MCAuto.hxx", M + "MEDCouplingUMesh.cxx", M + "MEDCouplingFieldDouble.cxx",
            "src/MEDCoupling_Swig/MEDCouplingCommon.i", "src/MEDCoupling_Swig/MEDCouplingMemArray.i",
            "src/ICoCo/ICoCoMEDDoubleField.cxx"],
     mech=[("incrRef / decrRef / MCAuto / retn", M + "*.cxx"), ("%newobject, SWIG_POINTER_OWN", "src/MEDCoupling_Swig/*.i")],
     technique="path-sensitive ownership (typestate) analysis with interprocedural summaries, C++ and generated Python wrapper",
     note="Containers of raw pointers are followed only as all-owned or all-lent; paths left by an exception and three very "
     "large functions are not judged (listed in the evidence).")

CMF = "src/INTERP_KERNEL/CellModel.cxx"
prop(id="P10", title="The tables describing the cell types agree with one another",
     statement="For every cell type of fixed size, and for polygons, the faces given by CellModel close up into one coherently "
     "oriented boundary, its edges and elementary edges are those of its faces, and in the reference coordinates the middle "
     "nodes are in the middle and the faces plane and convex. Inverting the orientation of a cell gives the same cell with its "
     "boundary turned the other way, without writing outside of the given nodes; extruding a cell gives the prism on it. The "
     "linear, quadratic, extruded and reverse types refer to one another, and names, VTK types and simplex flags are right.",
     over=["inputs"], text="all cell types of fixed size, polygons of 3 to 6 edges, all node numbers",
     why="tests look at the faces of a few usual types; a wrong entry in the tables of a seldom used type gives meshes that look "
     "right until their skin, their edges or their orientation is asked for",
     files=[CMF, "src/INTERP_KERNEL/CellModel.hxx", "src/INTERP_KERNEL/OrientationInverter.cxx", "src/MEDCoupling/MEDCouplingUMesh.cxx"],
     mech=[("cell type tables and the methods reading them", CMF), ("orientation inverters", "src/INTERP_KERNEL/OrientationInverter.cxx")],
     technique="interprocedural constant propagation (abstract interpretation of the CFG) of the tables, then combinatorial identities",
     note="Polyhedra and polylines are not judged (their faces are in the connectivity). Where the order of the nodes is a convention "
     "(which face is number 0) any coherent one is accepted.")

G = "src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx"
prop(id="P11", title="Shape functions interpolate at the nodes of their reference elements",
     statement="For every cell type and each of its reference elements, the shape functions sum up to one everywhere, the "
     "function of a node is one there and zero at the other nodes, and the derivatives given are those of the functions. The "
     "default reference coordinates, those of Gauss points on nodes elements, and those of the linear element made from a "
     "quadratic one are nodes of such an element; a point is said to be inside a reference element exactly when it is, "
     "and the barycentre given is inside.",
     over=["inputs"], text="all cell types and reference elements, all points",
     why="tests evaluate a few elements at a few points, mostly in the default element; a wrong coefficient in another "
     "element or a missing face condition changes values by plausible amounts",
     files=[G, "src/MEDCoupling/MEDCouplingGaussLocalization.cxx", "src/MEDCoupling/MEDCouplingFieldDiscretization.cxx",
            "src/MEDCoupling/MEDCouplingFieldDiscretizationOnNodesFE.cxx"],
     mech=[("reference tables and shape functions", G)],
     technique="interprocedural constant and polynomial value propagation (abstract interpretation of the CFG), normal forms compared",
     note="Arithmetic is taken as exact. Inside the guard around the apex of pyramids, where the functions have no gradient, "
     "values are judged at the apex and derivatives only have to be set. Elements standing for degenerated cells are judged "
     "on the sum and the derivatives only.")

prop(id="P12", title="The simplices a cell is cut into cover exactly the cell",
     statement="Whatever the type of a cell and the splitting policy, the tetrahedra (triangles) made by tetrahedrize, simplexize "
     "and the 3D interpolators fill the cell without gap nor overlap and share whole faces: each triangle is inner to "
     "the cell and common to two of them, or part of one face of the cell. Added nodes are means of nodes of the cell, corners get the right node "
     "numbers, nothing outside of the tables is used. The dual cells of a triangle or tetrahedron share it out between its nodes.",
     over=["inputs"], text="all cell types and policies, polyhedra shaped as the fixed types",
     why="tests compare a few cuts with stored ones or check volumes on symmetric cells; an overlap balanced by a gap keeps the volume",
     files=["src/INTERP_KERNEL/SplitterTetra.cxx", "src/INTERP_KERNEL/SplitterTetra.txx", "src/INTERP_KERNEL/SplitterTetra.hxx",
            "src/INTERP_KERNEL/InterpolationUtils.hxx", "src/MEDCoupling/MEDCouplingUMesh.cxx", "src/MEDCoupling/MEDCoupling1GTUMesh.cxx"],
     mech=[("SplitIntoTetras, SplitterTetra2", "src/INTERP_KERNEL/SplitterTetra.*"),
           ("simplexizePol0, Pol1, PlanarFace5, PlanarFace6", "src/MEDCoupling/MEDCouplingUMesh.cxx")],
     technique="constant propagation of connectivity with symbolic coordinates (abstract interpretation), then exact combinatorial check",
     note="Cells are taken convex and with plane faces, as the reference element; geometry at runtime is not judged.")

prop(id="P13", title="Results depend on the arguments and on nothing else",
     statement="A call gives the same result whatever was called before it: nothing is kept between calls but registered counters "
     "and tables filled once, no variable or member is read before it is set, no random number, clock or environment reaches a result. "
     "A function that takes a precision and uses the planar geometry installs that precision for the time of the call and restores "
     "the former one.",
     over=["histories", "inputs"], text="all sequences of calls, all paths through each function",
     why="tests start from a fresh process with the default precision, and uninitialised storage is often zero there",
     files=["src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DPrecision.cxx", "src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DPrecision.hxx",
            "src/MEDCoupling/MEDCouplingPointSet.cxx", "src/MEDCoupling/MEDCouplingUMesh_intersection.cxx",
            "src/MEDCoupling/MEDCouplingUMesh.cxx", "src/ShapeRecogn/Areas.cxx"],
     mech=[("QuadraticPlanarPrecision", "src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DPrecision.hxx"),
           ("GlobalDict, static tables", "src/MEDCoupling/MEDCouplingRefCountObject.cxx")],
     technique="write classification of lasting storage, definite assignment with path search, guard dominance over the call graph",
     note="Arrays and elements of containers are not followed for definite assignment; measures of curved cells use the precision in force.")
prop(id="P14", title="Ids, counts and offsets keep their 64 bits",
     statement="No number of cells, nodes, tuples or elements, no identifier and no offset is cut to 32 bits on its way through the "
     "library: counters that run over a mesh or an array, sums of sizes and products of dimensions are held in 64 bits, from the C++ "
     "interface to Python.",
     over=["inputs"], text="all meshes and arrays, beyond 2^31 elements",
     why="tests have small meshes: a cut shows only beyond two billion elements",
     files=["src/INTERP_KERNEL/MCIdType.hxx", "src/MEDCoupling/MEDCouplingStructuredMesh.cxx", "src/MEDCoupling/MEDCouplingIMesh.cxx",
            "src/MEDCoupling/MEDCouplingMemArray.txx", "src/MEDCoupling/MEDCouplingUMesh.cxx"],
     mech=[("mcIdType, FromIdType, ToIdType", "src/INTERP_KERNEL/MCIdType.hxx")],
     technique="interprocedural taint analysis of integers, obligations on narrowing conversions, counters and sums",
     note="Differences of two offsets (size of one cell) are taken to fit 32 bits; conversions the caller asks for are excepted.")

prop(id="P15", title="Measure and centre of a cell are those of the shape its nodes draw",
     statement="For every cell type and space dimension, the length, area or volume returned is the integral over the shape drawn by "
     "the nodes, with the sign of its orientation (absolute value on demand, 2D cells in 3D positive), and the centre of mass is that "
     "of this shape, convex or not, wherever it lies, however it is turned or scaled, with aligned or repeated nodes; normals and "
     "orientation tests of 3D and 2D cells follow the nodes in the same way. Measure fields, whole or on a part, put on each cell of "
     "an unstructured, cartesian, curvilinear, image or single-type mesh the measure of that very cell.",
     over=["inputs"], text="all positions of the nodes of straight cells, all numberings",
     why="tests measure unit shapes: a wrong term of a formula shows only for skew, hollow, tilted or tapered cells",
     files=["src/INTERP_KERNEL/VolSurfFormulae.hxx", "src/INTERP_KERNEL/VolSurfUser.txx", "src/INTERP_KERNEL/VolSurfUser.cxx",
            "src/MEDCoupling/MEDCouplingUMesh.cxx", "src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx",
            "src/MEDCoupling/MEDCouplingCMesh.cxx", "src/MEDCoupling/MEDCouplingIMesh.cxx"],
     mech=[("computeVolSurfOfCell2, computeBarycenter2", "src/INTERP_KERNEL/VolSurfUser.txx"),
           ("getMeasureField, buildOrthogonalField", "src/MEDCoupling/MEDCouplingUMesh.cxx")],
     technique="abstract interpretation over rational functions of the node positions, equality of normal forms with the exact integral",
     note="Exact arithmetic; curved edges and thresholds far from usual sizes are not judged.")
prop(id="P16", title="Arithmetic on arrays is that of their components",
     statement="Each operation on arrays of values (sums, products, quotients, powers, dot and cross products, determinants, inverses, "
     "tensor algebra, magnitudes, minima, maxima, norms, averages, accumulations, linear maps, changes of coordinate "
     "system, searches of values) leaves in each tuple and component of the result what it announces for the values of the operands, "
     "for every shape they may have, including one operand with one tuple or one component; operands whose shapes do not match are "
     "refused, and so is the inverse of an array holding a zero. No operation touches memory outside the arrays or changes an operand it only reads.",
     over=["inputs"], text="all values; all combinations of small shapes",
     why="tests run one shape and a few values: a wrong index or coefficient shows for other shapes only",
     files=["src/MEDCoupling/MEDCouplingMemArray.cxx", "src/MEDCoupling/MEDCouplingMemArray.txx", "src/MEDCoupling/MEDCouplingMemArray.hxx"],
     mech=[("Add, Multiply, Dot, doublyContractedProduct, accumulate, applyLin", "src/MEDCoupling/MEDCouplingMemArray.cxx"),
           ("DataArrayTools, AddFullOrStep", "src/MEDCoupling/MEDCouplingMemArray.txx")],
     technique="abstract interpretation over rational functions of the values, equality of normal forms with the definition",
     note="Exact arithmetic, arrays of at most four tuples; eigenvalues and eigenvectors are not judged.")
prop(id="P17", title="Rearranging an array moves each value where announced",
     statement="Operations on arrays of numbers which only move values (renumbering, selection by ids, slices or ranges, choice, "
     "concatenation and assignment of tuples or components, transposition, reversal, circular permutation, duplication, change of "
     "interlacing, of shape or of size, inversion of permutations) put each value at the place announced, for every shape and selection, "
     "an array being possibly its own argument. A selection or an assignment which would leave the array is refused. No operation "
     "accesses memory outside the arrays or memory given back, and operands which are only read stay as they were.",
     over=["inputs"], text="all values; all small shapes with permutations, slices, ranges and lists of ids",
     why="tests run one shape and one selection: an index computed with the wrong stride, or a bound off by one, shows for others only",
     files=["src/MEDCoupling/MEDCouplingMemArray.cxx", "src/MEDCoupling/MEDCouplingMemArray.txx", "src/MEDCoupling/MEDCouplingMemArray.hxx"],
     mech=[("renumber*, select*, setPartOfValues*, setContigPart*, Meld, rearrange", "src/MEDCoupling/MEDCouplingMemArray.txx"),
           ("Aggregate, setSelectedComponents", "src/MEDCoupling/MEDCouplingMemArray.cxx")],
     technique="abstract interpretation: the place reached by each of the distinct unknowns standing for the values, bounds of every access",
     note="Arrays of at most five tuples and four components, of doubles and of 64-bit integers.")

prop(id="P18", title="Transferred values are the matrix times values over announced sums",
     statement="A transfer by a remapper, in either direction, gives each cell the sum of the values it meets times the interpolation "
     "coefficients divided by what the nature of the field announces (sum of the row or of the column, measure of the source or of the "
     "target, a mesh without dimension having the sum of the measures of the other), the default value (or, for a partial transfer, the "
     "value already there) being left where nothing arrives. This is so after any history of the remapper: transfers of other "
     "natures, other matrices given, tiny coefficients removed. Fields or matrices which do not match what was prepared are refused, and "
     "the matrix of two extruded meshes is the product of those of their sections and of their axes.",
     over=["inputs", "histories"], text="all coefficients, measures and values; small matrices of every pattern; sequences of operations",
     why="tests transfer once with a few matrices: a denominator kept from another transfer, or that of another cell, shows for others only",
     files=["src/MEDCoupling/MEDCouplingRemapper.cxx"],
     mech=[("computeDenoFromScratch, computeProduct, computeReverseProduct", "src/MEDCoupling/MEDCouplingRemapper.cxx"),
           ("nullifiedTinyCoeffInCrudeMatrix*, setCrudeMatrix*, prepareEE", "src/MEDCoupling/MEDCouplingRemapper.cxx")],
     technique="abstract interpretation of the remapper over unknown coefficients, measures and values; normal forms compared with the definition",
     note="The coefficients themselves (intersection volumes) are not decided here: see N01.")
prop(id="P19", title="Parts, ghosts, refinements and points of grids address the announced cells",
     statement="On a structured grid, taking, setting, multiplying or enumerating a part touches the cells whose indices are in the part "
     "and no other; condensing a refined part puts in each coarse cell the sum of the fine cells it holds, and spreading gives each fine cell, "
     "or each cell of the ghost zone, the value of the coarse cell holding it, with or without ghost levels and with factors differing along axes; "
     "parts outside of the grid and arrays of other sizes are refused, with no access outside of the arrays. A point of a Cartesian, "
     "image or curvilinear grid is found in a cell which contains it, up to the tolerance, and a point outside in none.",
     over=["inputs"], text="all values; small grids of dimension 1 to 3 with parts, factors and ghost levels; all positions relative to nodes",
     why="tests use a few grids, often with the same factor or size along the axes: a stride or a factor of another axis shows for others only",
     files=["src/MEDCoupling/MEDCouplingIMesh.cxx", "src/MEDCoupling/MEDCouplingStructuredMesh.cxx", "src/MEDCoupling/MEDCouplingCMesh.cxx",
            "src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx"],
     mech=[("CondenseFineToCoarse*, SpreadCoarseToFine*", "src/MEDCoupling/MEDCouplingIMesh.cxx"),
           ("ExtractField*, BuildExplicitIdsFrom, MultiplyPartOf, SwitchOnIdsFrom", "src/MEDCoupling/MEDCouplingStructuredMesh.cxx"),
           ("getCellContainingPoint", "src/MEDCoupling/MEDCouplingCMesh.cxx")],
     technique="abstract interpretation: which unknown value reaches each cell, bounds of every access, order of points and nodes",
     note="Grids have at most five nodes along an axis; curvilinear grids rely on the location in an unstructured mesh, which is assumed.")

# ------------------------------------------------------------------------------------------------ not claimed
IK = "src/INTERP_KERNEL/"
prop(id="N01", title="Intersection volumes make partitions: interpolation matrices conserve",
     statement="For source and target meshes covering the same domain, the intersection volumes in a row of the interpolation "
     "matrix sum up to the volume of the target cell, those in a column to the volume of the source cell.",
     over=["inputs"], text="all pairs of meshes, all interpolation methods", why="tests sample a few pairs of meshes",
     files=[IK + "TriangulationIntersector.txx", IK + "Geometric2DIntersector.txx"],
     mech=[("intersectors", IK)],
     na="the result is a floating-point computation on runtime coordinates with tolerance-driven branches; no static argument in reach "
     "bounds it (the assembly of rows and denominators is a different, structural property)")
prop(id="N02", title="Bounding box searches miss no candidate",
     statement="A search in a tree of boxes or points returns every element whose box meets the query up to the tolerance.",
     over=["inputs"], text="all sets of boxes", why="tests sample a few sets of boxes",
     files=[IK + "BBTree.txx", IK + "BBTreePts.txx"], mech=[("trees", IK + "BBTree*.txx")],
     na="an inductive invariant over a recursively built tree compared with floating-point bounds: it needs a proof about runtime data, "
     "not a flow analysis")
prop(id="N03", title="Merging, conformizing and intersecting meshes keep the covered domain",
     statement="mergeNodes, conformize2D/3D, Intersect2DMeshes and simplexize cover the same domain as their operands.",
     over=["inputs"], text="all meshes", why="tests sample a few meshes", files=["src/MEDCoupling/MEDCouplingUMesh_intersection.cxx"],
     mech=[("planar graph construction", IK + "Geometric2D")],
     na="quantifies over runtime geometry with tolerances; undecidable from the text of the code with the techniques of this family")
prop(id="N04", title="Parallel exchange gives what the sequential interpolation gives",
     statement="A field exchanged between two processor groups is the one the sequential remapper computes.",
     over=["inputs", "schedules"], text="all partitions", why="needs several processes", files=["src/ParaMEDMEM/InterpKernelDEC.cxx"],
     mech=[("DEC", "src/ParaMEDMEM")],
     na="the parallel layer is not built in this environment (no MPI), so its sources cannot even be type-checked here")
prop(id="N05", title="MED files give back the meshes and fields written to them",
     statement="Writing to a MED file then reading gives an equal object.", over=["inputs"], text="all meshes and fields",
     why="tests sample a few objects", files=["src/MEDLoader/MEDFileMesh.cxx"], mech=[("MEDLoader", "src/MEDLoader")],
     na="the file layer is not built here (no MED/HDF5 headers), so its sources cannot be type-checked")
