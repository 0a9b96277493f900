"""Registry of checks: property id -> harness and description."""
GATHER = ("a case is one (connectivity, DOF numbering); every conversion is compared entry by entry with a definitional "
          "loop; non-trivial: more than one nodal component; distinct: hash of all observed values")
CHECKS = {
    "V01": dict(src="vector.cpp", flags=["-DV01"], level="exploration", rule=GATHER,
                technique="bounded-exhaustive enumeration of connectivities and DOF numberings on the real code against a definitional model"),
    "V02": dict(src="vector.cpp", flags=["-DV02"], level="exploration", rule=GATHER + "; contributions are distinct powers of two so a sum identifies its summands",
                technique="bounded-exhaustive enumeration of connectivities and DOF numberings on the real code against a definitional model"),
    "V03": dict(src="vector_partitioned.cpp", flags=["-DV03"], level="exploration",
                rule="a case is one (connectivity, DOF numbering, ordered list of prescribed DOFs); non-trivial: neither none nor all prescribed; distinct: hash of all observed values",
                technique="bounded-exhaustive enumeration of partitions on the real code against a definitional model"),
    "V04": dict(src="vector_partitioned.cpp", flags=["-DV04"], level="exploration",
                rule="a case is one (connectivity, DOF numbering, split into unknown/prescribed/dependent, coefficient pattern); non-trivial: some dependent and independent DOFs",
                technique="bounded-exhaustive enumeration of tying relations on the real code against a definitional model"),
    "M01": dict(src="matrix.cpp", flags=["-DM01"], level="model_checking",
                rule="a state is a matrix value reached by a history; transitions are operations on the real object; every history is executed on the real code and compared with the dense model",
                technique="explicit enumeration of all operation histories up to a depth, replayed on the real code against a dense reference model"),
    "M03": dict(src="matrix.cpp", flags=["-DM03"], level="model_checking",
                rule="a state is a matrix value reached by a history; transitions are operations on the real object; every history is executed on the real code and compared with the dense model",
                technique="explicit enumeration of all operation histories and partitions, replayed on the real code against a dense reference model"),
    "M02": dict(src="solver.cpp", flags=["-DM02"], level="model_checking",
                rule="a state is (values of the matrices, which matrix each solver factorised last); transitions are operations on the real objects; every history is executed on the real code and every solve compared with a dense solution",
                technique="explicit enumeration of all operation histories over several matrices and solvers, replayed on the real code against a dense reference model"),
    "M04": dict(src="matrix_diagonal.cpp", flags=["-DM04"], level="model_checking",
                rule="a state is a matrix value (and solver status) reached by a history; transitions are operations on the real object; every history is executed on the real code and compared with the dense model",
                technique="explicit enumeration of all operation histories up to a depth, replayed on the real code against a dense reference model"),
    "M05": dict(src="matrix_diagonal.cpp", flags=["-DM05"], level="model_checking",
                rule="a state is a matrix value (and solver status) reached by a history; transitions are operations on the real object; every history is executed on the real code and compared with the dense model",
                technique="explicit enumeration of all operation histories up to a depth, replayed on the real code against a dense reference model"),
    "M06": dict(src="tyings_matrix.cpp", flags=["-DM06"], level="model_checking",
                rule="a state is (matrix value, tying relation, split); transitions are assemblies; each is executed on the real code and all solves are compared with the dense condensed system",
                technique="explicit enumeration of all splits and tying patterns of bounded size, replayed on the real code against a dense condensed reference"),
    "T01": dict(src="tyings.cpp", flags=["-DT01"], level="exploration",
                rule="a case is one (coordinates, numbering, tying list, prescribed list); non-trivial: at least one tie; distinct: hash of all observed values",
                technique="bounded-exhaustive enumeration of tying lists and partitions on the real code against a definitional model"),
    "T02": dict(src="tyings.cpp", flags=["-DT02"], level="exploration",
                rule="a case is one (coordinates, numbering); distinct: hash of all observed values",
                technique="bounded-exhaustive enumeration of DOF numberings on the real code against a definitional model"),
    "G01": dict(src="mesh.cpp", flags=["-DG01"], level="exploration",
                rule="a case is one mesh (family, numbers of elements, edge size); non-trivial: more than one element; distinct: hash of the connectivity",
                technique="bounded-exhaustive enumeration of mesh configurations on the real code against a geometric definition"),
    "G02": dict(src="mesh.cpp", flags=["-DG02"], level="exploration",
                rule="a case is one mesh, for which every named node set is compared with its geometric definition; non-trivial: more than one element; distinct: sizes of all sets",
                technique="bounded-exhaustive enumeration of mesh configurations on the real code against a geometric definition"),
    "G03": dict(src="mesh.cpp", flags=["-DG03"], level="exploration",
                rule="a case is one mesh; non-trivial: more than one element; distinct: numbers of ties and DOFs",
                technique="bounded-exhaustive enumeration of mesh configurations on the real code against a geometric definition"),
    "G04": dict(src="mesh.cpp", flags=["-DG04"], level="exploration",
                rule="a case is one mesh (width, height, fine rows, edge size); non-trivial: wider than one element and higher than two; distinct: row layout and size",
                technique="bounded-exhaustive enumeration of mesh configurations on the real code against a geometric definition"),
    "G05": dict(src="mesh.cpp", flags=["-DG05"], level="exploration",
                rule="a case is one mesh (widths, height, fine layers, edge size); non-trivial: higher than two elements; distinct: layer layout and size",
                technique="bounded-exhaustive enumeration of mesh configurations on the real code against a geometric definition"),
    "G06": dict(src="finelayer.cpp", flags=["-DG06"], level="exploration",
                rule="a case is one (mesh, kind of selection or centre element), for which all ranges, sizes or roll distances are enumerated; non-trivial: more than one element; distinct: hash of the selections",
                technique="bounded-exhaustive enumeration of mesh layouts and selections on the real code against a geometric definition"),
    "G07": dict(src="finelayer.cpp", flags=["-DG07"], level="exploration",
                rule="a case is one mesh (width, height, edge size, fine rows) or all single defects of one mesh; non-trivial: more than one element; distinct: layout",
                technique="bounded-exhaustive enumeration of mesh layouts and of single defects on the real code (round trip)"),
    "G08": dict(src="finelayer.cpp", flags=["-DG08"], level="exploration",
                rule="a case is one (coarse mesh, refinement factors); non-trivial: some refinement; distinct: hash of the map",
                technique="bounded-exhaustive enumeration of meshes and refinement factors on the real code against a geometric definition"),
    "G09": dict(src="finelayer.cpp", flags=["-DG09"], level="exploration",
                rule="a case is one layered mesh; non-trivial: more than one element; distinct: hash of the map",
                technique="bounded-exhaustive enumeration of mesh layouts on the real code against polygon clipping"),
    "G10": dict(src="stitch.cpp", flags=["-DG10"], level="model_checking",
                rule="a state is a stitched mesh reached by a history of added meshes; every history is executed on the real code and all observables compared with a model that merges points; non-trivial: more than one mesh",
                technique="explicit enumeration of all histories of added meshes up to a depth, replayed on the real code against a model of merged points"),
    "G11": dict(src="stitch.cpp", flags=["-DG11"], level="model_checking",
                rule="a state is a stack reached by a history of added meshes; every history is executed on the real code and all observables compared with a model; non-trivial: more than one mesh",
                technique="explicit enumeration of all histories of stacked meshes up to a depth, replayed on the real code against a model of merged points"),
    "G12": dict(src="incidence.cpp", flags=["-DG12"], level="exploration",
                rule="a case is one array (in all storage types and shapes) or one split of one order of a set of numbers; non-trivial: more than one number; distinct: hash of the new numbers",
                technique="bounded-exhaustive enumeration of arrays and orders on the real code against a definitional model"),
    "G13": dict(src="incidence.cpp", flags=["-DG13"], level="exploration",
                rule="a case is one connectivity with one way to tie its nodes; distinct: hash of the lists",
                technique="bounded-exhaustive enumeration of connectivities and ties on the real code against a definitional model"),
    "G14": dict(src="incidence.cpp", flags=["-DG14"], level="exploration",
                rule="a case is one mesh or one element permutation; distinct: hash of all observed values",
                technique="bounded-exhaustive enumeration of element shapes, element orders and permutations on the real code against a definitional model"),
    "G15": dict(src="incidence.cpp", flags=["-DG15"], level="exploration",
                rule="a case is one triangle (6 placements), all pairs with one triangle, or one combination of flipped elements; distinct: hash of the orientations",
                technique="bounded-exhaustive enumeration of triangles on a grid and of flipped elements on the real code against the signed area"),
    "E01": dict(src="element.cpp", flags=["-DE01"], level="exploration",
                rule="a case is one quadrature rule table, or one batch of elements (type, shapes, scale, thickness) for which all rules are evaluated; distinct: hash of the volumes",
                technique="bounded-exhaustive enumeration of element shapes and rules on the real code against an independent reference of the element"),
    "E02": dict(src="element.cpp", flags=["-DE02"], level="exploration",
                rule="a case is one batch of elements (type, shapes, scale) for which all rules, all unit nodal displacements and linear fields are evaluated; distinct: hash of the gradients",
                technique="bounded-exhaustive enumeration of element shapes, rules and nodal unit fields (a basis of all fields) on the real code against an independent reference of the element"),
    "E03": dict(src="element.cpp", flags=["-DE03"], level="exploration",
                rule="a case is one batch of elements (type, shapes, scale) for which all rules and integrands (unit components, which form a basis, and mixtures) are evaluated; distinct: hash of the integrals",
                technique="bounded-exhaustive enumeration of element shapes, rules and unit integrands (a basis of all integrands) on the real code against an independent reference of the element"),
    "E04": dict(src="element.cpp", flags=["-DE04"], level="model_checking",
                rule="a state is the pair of positions that two quadrature objects represent after a history of updates, evaluations, copies, moves and assignments; every history is replayed on real objects and every observable compared with a fresh object",
                technique="explicit enumeration of all histories of two objects up to a depth, replayed on the real code against freshly constructed objects"),
    "E05": dict(src="element.cpp", flags=["-DE05"], level="exploration",
                rule="a case is one quadrature object (type, rule, number of elements) or one shape of the argument; distinct: hash of the observed shapes and values",
                technique="bounded-exhaustive enumeration of objects, ranks and extents on the real code against the documented layout"),
    "E06": dict(src="element.cpp", flags=["-DE06"], level="exploration",
                rule="a case is one array (in all storage types and shapes) or one position of a deviating entry; distinct: answers and sizes",
                technique="bounded-exhaustive enumeration of arrays on the real code against the mathematical definition"),
    "I01": dict(src="iterate.cpp", flags=["-DI01"], level="model_checking",
                rule="a state is the list of residuals; every history of insertions, resets and copies up to the depth is executed on the real code and every prefix compared with a model that remembers all insertions",
                technique="explicit enumeration of all operation histories up to a depth, replayed on the real code against a model"),
    "C01": dict(src="omp_check.cpp", openmp="omp_suite.cpp", level="model_checking",
                plans={"thorough": [("fast", ["--thorough"])]},
                rule="a case is one system and set of functions with one team size; every parallel region runs on virtual threads under a controlled scheduler; a transition is one memory access of a thread to shared memory; a state is one distinct result",
                assumptions=["accesses inside library code that is not compiled from headers (libstdc++.so, libc) are only seen for memcpy, memmove, memset and free",
                             "the memory model is sequentially consistent: without conflicting accesses it coincides with that of C++"],
                technique="partial-order reduction on the real code: all shared-memory accesses of all threads of every parallel region are recorded under a controlled OpenMP runtime; no conflict means that all interleavings are equivalent to the executed one; synchronising regions are explored over all schedules with up to two preemptions"),
    "C02": dict(src="con_check.cpp", openmp="con_suite.cpp", serial=False, level="model_checking",
                plans={"thorough": [("fast", ["--thorough"])]},
                rule="a case is one operation of a set of shared objects, run on two threads together with itself and every later operation, each time on fresh objects; a transition is one memory access of a thread to shared memory; a state is one distinct result",
                assumptions=["accesses inside library code that is not compiled from headers (libstdc++.so, libc) are only seen for memcpy, memmove, memset and free",
                             "the memory model is sequentially consistent: without conflicting accesses it coincides with that of C++"],
                technique="partial-order reduction on the real code: for all pairs of operations all memory accesses of both threads are recorded under a controlled scheduler; no conflict means that all interleavings are equivalent to the executed one; synchronising pairs are explored over all schedules with up to two preemptions"),
    "F01": dict(src="assert.cpp", flags=["-DF01"], level="exploration",
                plans={"quick": [("asan", [])], "thorough": [("asan", ["--thorough"])]},
                rule="a case is one function of one object; every combination of shapes around the valid ones is one call; a transition is one call",
                technique="exhaustive enumeration of calls with faults in the arguments on the real code (address sanitizer), state of object and arguments compared before and after"),
    "S01": dict(src="system.cpp", flags=["-DS01"], level="exploration",
                rule="a case is one (element type, mesh, deformation, rule, numbering) for which a basis of all affine fields and all listed sets of prescribed DOFs are solved; non-trivial: more than one element; distinct: hash of the observed values",
                technique="bounded-exhaustive enumeration of meshes, numberings and partitions on the real code against exact affine solutions"),
    "S02": dict(src="system.cpp", flags=["-DS02"], level="exploration",
                rule="a case is one (element type, mesh, numbering, material, set of unknown macroscopic components) for which all unit loads and a mixture are solved; non-trivial: more than one element; distinct: hash of the observed values",
                technique="bounded-exhaustive enumeration of periodic meshes, numberings, materials and loadings on the real code against a dense condensed reference"),
    "S03": dict(src="system.cpp", flags=["-DS03"], level="model_checking",
                rule="a state is (geometry, material, mass, displacement, velocity, acceleration) reached by a history; transitions are operations of a simulation on reused objects; every history is executed on the real code and compared with loops without stored state; non-trivial: more than one operation",
                technique="explicit enumeration of all operation histories up to a depth, replayed on the real code against a reference without stored state"),
}

NOT_APPLICABLE = {
    "H01": "compiling and linking is one fixed event per configuration of the build; there is no space of executions to explore, so model checking does not apply",
}

# Bounds per tier: "--thorough" and "--deep" are increasing bounds of the harnesses (see "bounds" in the evidence).
for _i in "V03 V04 M01 M04 M05 G02 G03 G04 G05 G06 G07 G09 G10 G11 G15 E01 E02 E03 E05 S01 S02".split():
    CHECKS[_i]["quick"] = ["--thorough"]
for _i in "V01 V02 T01 T02 G01 G08 G12 G14 E06".split():
    CHECKS[_i]["quick"] = ["--deep"]
for _i in "V01 V02 T01 T02 G01 G02 G03 G04 G05 G06 G07 G08 G09 G12 G13 G14 G15 E05 E06".split():
    CHECKS[_i]["thorough"] = ["--deep"]
