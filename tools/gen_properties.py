#!/usr/bin/env python3
"""Source of properties.jsonl (kept in one readable place; `python3 tools/gen_properties.py` rewrites it)."""
import json, os
P = []
I = "include/GooseFEM/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f for f in files],
                     mechanism=[dict(name=n, where=I + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- storage
p("V01", "Conversions between DOF, nodal and element storage are exact gathers",
  "For any connectivity and any DOF numbering (shared, permuted or partially unused in the connectivity), converting a field between per-DOF, per-node and per-element storage returns, at every position, exactly the value stored for the DOF that the position refers to, so that a round trip of a consistent field is the identity. "
  "A conversion that writes to an output supplied by the caller gives the same result whatever that output contained, copying returns the source, and the reported sizes and shapes follow from the connectivity and the numbering.",
  ["inputs", "configurations"], "all connectivities, DOF numberings and fields",
  "Tests convert on one or two regular meshes with the default or periodic numbering and random data; they cannot cover every pattern of sharing or permutation of DOFs.",
  ["Vector.h"], [("Vector conversions", "Vector.h: asDofs_impl*, asNode_impl*, asElement_impl*"), ("allocation", "Vector.h: shape_*, allocate_*")],
  ["AsDofs/AsNode/AsElement and lower-case variants", "Copy", "ndof, shape_*, allocate_*"])
p("V02", "Assembly sums every contribution of a DOF exactly once",
  "For any connectivity and any DOF numbering, assembling nodal or element contributions yields for each DOF exactly the sum of all nodal (or element-nodal) contributions that refer to it, independent of their order in memory, and zero where nothing refers to it. "
  "Nothing is left over from an output array supplied by the caller or from an earlier assembly, and the element-to-node assembly of nodal vectors obeys the same rule.",
  ["inputs", "configurations", "histories"], "all connectivities, DOF numberings, contributions and sequences of assemblies into the same array",
  "Tests assemble one constant field on a regular mesh; sharing patterns (several nodes per DOF, nodes in many elements) and re-used outputs are unbounded.",
  ["Vector.h", "Element.h", "Mesh.h"], [("assembly", "Vector.h: assembleDofs_impl*"), ("nodal assembly", "Element.h: assembleNodeVector")],
  ["AssembleDofs, assembleDofs", "Element::asElementVector, assembleNodeVector"])
p("V03", "Partitioned storage splits and recombines DOFs without loss",
  "For any DOF numbering and any set of prescribed DOFs (including none and all), the unknown (sorted) and prescribed (as given) lists are a disjoint and complete split of the DOFs in use; extracting the unknown or prescribed part of any storage returns exactly the corresponding entries and recombining the two parts restores the field in DOF, nodal or element storage. "
  "Copying only the unknown or only the prescribed part changes exactly those positions of the destination and no other.",
  ["inputs", "configurations"], "all DOF numberings, all subsets of prescribed DOFs in any order, all fields",
  "Tests use one partition of one mesh; correctness must hold for every subset of prescribed DOFs and for DOFs shared by several nodes.",
  ["VectorPartitioned.h"], [("partitioning", "VectorPartitioned.h: constructor, asDofs_u/p_impl, *FromPartitioned_impl"), ("partial copy", "VectorPartitioned.h: copy_u, copy_p")],
  ["iiu, iip, dofs_is_u, dofs_is_p", "AsDofs_u, AsDofs_p, DofsFromParitioned, NodeFromPartitioned, ElementFromPartitioned", "Copy_u, Copy_p"])
p("V04", "Tied storage applies the linear tying relation to dependent DOFs",
  "For any tying relation in which each dependent DOF is a linear combination of independent unknown and prescribed DOFs, extracting the independent DOFs of a nodal field returns the entries of independent DOFs as they are and, with tyings applied, adds the entries of dependent DOFs through the transposed relation (so that virtual work is preserved); entries that no node refers to count as zero. "
  "The reported lists number unknown, prescribed and dependent DOFs consecutively, and outputs supplied by the caller are fully overwritten. "
  "Copying the prescribed part of a field changes only prescribed DOFs.",
  ["inputs", "configurations"], "all numbers of unknown, prescribed and dependent DOFs and all coefficient matrices",
  "The tests of the tied vector use a single periodic cell.",
  ["VectorPartitionedTyings.h"], [("tyings", "VectorPartitionedTyings.h: asDofs_i, Eigen_asDofs_d"), ("copy", "VectorPartitionedTyings.h: copy_p")],
  ["AsDofs_i, asDofs_i, copy_p, iii, iid, nnu, nnp, nni, nnd"])

# ---------------------------------------------------------------- matrices
p("M01", "Sparse matrix agrees with the dense matrix after any operation history",
  "After any sequence of assembling element matrices, setting entries and adding entries, the dense representation equals the matrix obtained by applying the same sequence to a dense array: assembling and setting replace the whole matrix (entries that are not listed become zero), adding accumulates (also for entries repeated within one call). "
  "The product with any vector, in DOF or nodal storage and with allocated or caller-supplied output, equals the product of that dense matrix, and copies of a matrix are independent.",
  ["histories", "inputs"], "all sequences of assemble, set, add and products on any mesh and DOF numbering",
  "Tests assemble once and solve once; interleavings of assemble, set and add and re-use of one matrix object are not exercised.",
  ["Matrix.h"], [("assembly and modification", "Matrix.h: Matrix::assemble_impl, set, add"), ("product", "Matrix.h: dot_nodevec_impl, dot_dofval_impl")],
  ["Todense, Dot, dot, data"])
p("M02", "A direct solver always solves the current matrix",
  "Whatever sequence of modifications, solves, copies and assignments of matrices preceded it, and however many solvers and matrices are used in turn (plain, partitioned or tied), a solve returns the solution of the linear system defined by the present value of the matrix that is passed in. "
  "A factorisation kept from an earlier solve is used only while it still belongs to that matrix value.",
  ["histories"], "all interleavings of modifications and solves over several matrices and solvers",
  "Tests call one solver once on one matrix; stale factorisations need a history of at least two solves.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h"],
  [("factorisation cache", "Matrix.h: MatrixSolver::factorize"), ("partitioned cache", "MatrixPartitioned.h: MatrixPartitionedSolver::factorize"), ("tied cache", "MatrixPartitionedTyings.h: MatrixPartitionedTyingsSolver::factorize")],
  ["Solve, solve, Solve_u, solve_u"])
p("M03", "Partitioned matrix equals the permuted full matrix",
  "For any DOF numbering and any set of prescribed DOFs, after any sequence of assembling, setting and adding, the dense form is the matrix obtained without partitioning and the four stored blocks are its sub-matrices for unknown and prescribed DOFs; products and reaction forces equal those of the full matrix, the reaction touching only prescribed DOFs. "
  "A solve leaves prescribed values as given and returns unknowns for which the unknown rows of the full system are satisfied, in every storage and call variant.",
  ["inputs", "configurations", "histories"], "all partitions, DOF numberings, matrices, right-hand sides and modification sequences",
  "Tests solve one boundary-value problem with one partition; they do not cover every partition nor the entries that cross it.",
  ["MatrixPartitioned.h", "Matrix.h"], [("block assembly", "MatrixPartitioned.h: assemble_impl, set, add, Todense"), ("reaction", "MatrixPartitioned.h: reaction_*_impl"), ("solve", "MatrixPartitioned.h: solve_*_impl, solve_u")],
  ["Todense, data_uu/up/pu/pp, Dot, Reaction, Reaction_p, Solve, Solve_u"])
p("M04", "Diagonal matrix: product and solve follow the current diagonal",
  "After any sequence of assembling diagonal element matrices, replacing the diagonal, products and solves, the stored diagonal is the assembled or replaced one, the product multiplies entry by entry and the solve divides by the current diagonal, in DOF and nodal storage and for every call variant. "
  "Nothing is carried over from an earlier diagonal.",
  ["histories", "inputs"], "all sequences of assemble, set, product and solve on any numbering",
  "Tests solve once after one assembly; a stale inverse or left-over entries need a longer history.",
  ["MatrixDiagonal.h"], [("assembly", "MatrixDiagonal.h: assemble, set"), ("cached inverse", "MatrixDiagonal.h: factorize, solve_*_impl")],
  ["data, Todense, Dot, Solve"])
p("M05", "Partitioned diagonal matrix equals the partitioned full diagonal",
  "For any DOF numbering and any set of prescribed DOFs, after any sequence of assembling and replacing, the unknown and prescribed parts of the diagonal are the corresponding entries of the full diagonal; products, products per part and reactions equal those of the full diagonal matrix, and solving gives on every unknown DOF the quotient with the current diagonal. "
  "Reactions change only prescribed DOFs, and prescribed values passed to a solve are preserved.",
  ["histories", "inputs", "configurations"], "all partitions and all sequences of assemble, set, product, reaction and solve",
  "Tests use one partition and a single solve.",
  ["MatrixDiagonalPartitioned.h", "MatrixDiagonal.h", "MatrixPartitioned.h"], [("assembly", "MatrixDiagonalPartitioned.h: assemble, set"), ("parts", "MatrixDiagonalPartitioned.h: Dot_u, Dot_p, Reaction_p, Solve_u")],
  ["data, data_uu, data_pp, Dot, Dot_u, Dot_p, Reaction, Reaction_p, Solve, Solve_u"])
p("M06", "Tied system: assembly and solve honour the tying relation",
  "For any tying relation and any partition into unknown, prescribed and dependent DOFs, assembling yields the full matrix and its blocks, and a solve returns a field in which prescribed DOFs have their given value, dependent DOFs obey the tying relation, and the residual of the full system vanishes on the independent unknown DOFs after adding the contribution of dependent DOFs through the transposed tying. "
  "This holds for DOF, nodal and separated storage of the right-hand side alike, loads applied to dependent DOFs included.",
  ["inputs", "configurations", "histories"], "all tying relations, partitions, matrices and right-hand sides, including loads on dependent DOFs",
  "The single test solves one periodic cell without loads on dependent DOFs.",
  ["MatrixPartitionedTyings.h"], [("condensed blocks", "MatrixPartitionedTyings.h: assemble_impl, factorize"), ("solve", "MatrixPartitionedTyings.h: solve_nodevec_impl, solve_dofval_impl, solve_u")],
  ["Todense, data_*, Solve, solve, Solve_u, solve_u"])

# ---------------------------------------------------------------- tyings
p("T01", "Periodic tyings encode affine periodicity exactly",
  "For any mesh, any list of tied node pairs, control DOFs and prescribed DOFs, the new numbering is a bijective renumbering in which unknown, prescribed and dependent DOFs follow each other, exactly the DOFs of the tied nodes are dependent, and untied and control DOFs keep their identity. "
  "The tying matrices express that each dependent DOF equals the DOF of the node it is tied to plus the control gradient times the distance between the two nodes, so that every affine field is reproduced exactly; their unknown and prescribed parts are the corresponding columns.",
  ["inputs", "configurations"], "all coordinates, tied pairs (several dependents per reference included), partitions and control numbering",
  "The test checks a single periodic cell; relations must hold for every tying list and partition.",
  ["TyingsPeriodic.h"], [("renumbering", "TyingsPeriodic.h: Periodic constructor"), ("tying matrix", "TyingsPeriodic.h: Cdi, Cdu, Cdp")],
  ["dofs, control, nodal_tyings, iid, iii, iiu, iip, nnu, nnp, nni, nnd, Cdi, Cdu, Cdp"])
p("T02", "Control nodes extend a mesh without disturbing it",
  "Adding control nodes to a mesh keeps every original coordinate and DOF number, appends exactly one node per dimension, and gives these nodes new, distinct and consecutive DOF numbers. "
  "The reported control node and DOF numbers refer to exactly those additions.",
  ["inputs", "configurations"], "all meshes (any dimension) and all DOF numberings",
  "Only exercised through one example mesh.",
  ["TyingsPeriodic.h"], [("control nodes", "TyingsPeriodic.h: Control")], ["coor, dofs, controlDofs, controlNodes"])

# ---------------------------------------------------------------- meshes
p("G01", "Regular meshes are valid conforming tessellations of their box",
  "For every number of elements per direction and edge size, the quadrilateral, triangular and hexahedral regular mesh has the advertised counts, every element refers to distinct existing nodes with positive orientation and the documented local order and size, every node is used and no two nodes coincide, neighbouring elements share complete faces, and the element volumes add up to the box. "
  "The default DOF numbering assigns every nodal component its own consecutive number, and element numbers on a grid follow the rows of the mesh.",
  ["configurations"], "all numbers of elements per direction and all edge sizes",
  "Tests compare one or two small meshes with stored data.",
  ["MeshQuad4.h", "MeshTri3.h", "MeshHex8.h", "Mesh.h"], [("coordinates and connectivity", "MeshQuad4.h, MeshTri3.h, MeshHex8.h: Regular coor_impl, conn_impl"), ("counts", "Mesh.h: RegularBase")],
  ["coor, conn, dofs, nelem, nnode, nne, ndim, nelx, nely, nelz, h, elementType, elementgrid"])
p("G02", "Boundary node sets contain exactly the geometric boundary",
  "For every regular and layered mesh of quadrilaterals, triangles or hexahedra, each named node set (edge, open edge, face, open face, corner, and all their alternative names) contains exactly the nodes at that part of the boundary of the mesh, each once, the open variants excluding the ends and a face of a hexahedral mesh excluding or including its edges as its name says. Edges are listed in order of increasing position, and opposite edges and faces list their nodes in matching order. "
  "A single corner is exactly the node at that corner.",
  ["configurations"], "all mesh dimensions, all families of meshes, all named sets and aliases",
  "Tests list the sets of one small mesh per family; index arithmetic must be right for every aspect ratio, including one element per direction.",
  ["Mesh.h", "MeshQuad4.h", "MeshTri3.h", "MeshHex8.h"], [("node sets", "MeshQuad4.h, MeshTri3.h, MeshHex8.h: nodes*_impl"), ("aliases", "Mesh.h: RegularBase2d, RegularBase3d")],
  ["nodes*Edge, nodes*OpenEdge, nodes*Face, nodes*Corner, nodesLeft/Right/Top/Bottom/Front/Back"])
p("G03", "Periodic node pairs and DOFs identify exactly opposite boundary points",
  "For every regular and layered mesh, the list of periodic pairs contains each boundary node other than those it is tied to exactly once as dependent, paired with the independent node at the same position modulo the box, and no node is both independent and dependent. "
  "The periodic DOF numbering is consecutive, gives tied nodes identical DOFs and all other nodes distinct DOFs, and the origin is the corner all other corners are tied to.",
  ["configurations"], "all mesh families and dimensions, one element per direction included",
  "Tests check a single small mesh per family.",
  ["Mesh.h", "MeshQuad4.h", "MeshTri3.h", "MeshHex8.h"], [("periodicity", "Mesh.h: nodesPeriodic_impl, dofsPeriodic, nodesOrigin")],
  ["nodesPeriodic, nodesOrigin, dofsPeriodic"])
p("G04", "Layered quadrilateral mesh is a valid conforming graded tessellation",
  "For every requested width, height, edge size and number of fine rows, the mesh with a fine middle layer is a valid tessellation of its rectangle: correct counts, positively oriented elements, no coinciding or unused nodes, complete sharing of edges (no hanging nodes), areas adding up to the rectangle, symmetric about a middle layer made of square elements of the requested size; the rows coarsen by a factor three whenever the width and the distance to the middle layer allow it and the requested number of fine rows is kept. "
  "Rows are reported with their true number, height, width and refinement type, and elements are numbered row by row from the bottom.",
  ["configurations"], "all requested widths, heights and numbers of fine rows",
  "Tests compare a few fixed sizes; which rows are refined depends on divisibility of the width in ways that only appear for specific sizes.",
  ["MeshQuad4.h"], [("row layout", "MeshQuad4.h: FineLayer::init"), ("coordinates and connectivity", "MeshQuad4.h: FineLayer coor_impl, conn_impl")],
  ["coor, conn, nelem, nnode, elemrow_nhx, elemrow_nhy, elemrow_nelem, elemrow_type, elementsMiddleLayer, nelx, nely"])
p("G05", "Layered hexahedral mesh is a valid conforming graded tessellation",
  "For every requested number of elements in three directions, edge size and number of fine layers, the hexahedral mesh with a fine middle layer is a valid tessellation of its box: correct counts, positively oriented elements, no coinciding or unused nodes, complete sharing of faces, volumes adding up to the box, and a middle layer of cubes of the requested size; the layers coarsen along x and z whenever the width, depth and distance to the middle layer allow it. "
  "The elements reported as middle layer are exactly those in that layer.",
  ["configurations"], "all requested numbers of elements and fine layers",
  "Tests use one size; coarsening along two directions is only triggered by specific divisibility.",
  ["MeshHex8.h"], [("layer layout", "MeshHex8.h: FineLayer constructor"), ("coordinates and connectivity", "MeshHex8.h: FineLayer coor_impl, conn_impl")],
  ["coor, conn, nelem, nnode, elementsMiddleLayer"])
p("G06", "Selecting elements of a layered mesh returns the right region",
  "In every layered quadrilateral mesh, the elements of a row, or of a range of rows and columns measured in fine elements (where no range selects everything, an empty range nothing, and columns are rounded down to the size of the coarser of the first and last selected row), are exactly those whose position lies in the requested region, each once. "
  "Likewise the neighbourhood of an element of the middle layer is exactly the elements that overlap the square box of the requested size around it, periodic in x, cut off at the bottom and top, and rounded outwards to the coarsest selected row; to the left and right exactly the requested number of neighbours along the middle layer. "
  "Rolling by a number of elements of the outermost row yields the permutation that shifts every row by that distance (periodically).",
  ["configurations", "inputs"], "all layered meshes and all selections or roll distances",
  "Tests check a handful of selections on one or two meshes.",
  ["MeshQuad4.h"], [("selection", "MeshQuad4.h: elementsLayer, elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright"), ("roll", "MeshQuad4.h: FineLayer::roll")],
  ["elementsLayer, elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright, roll"])
p("G07", "A layered mesh is recovered from its coordinates and connectivity",
  "Constructing a layered quadrilateral mesh from the coordinates and connectivity of any layered mesh yields a mesh identical to the original in every observable: coordinates, connectivity, rows, node sets, sizes; coordinates and connectivity that are not those of a layered mesh are rejected with an exception.",
  ["configurations"], "all layered meshes",
  "One round trip is tested.",
  ["MeshQuad4.h"], [("reconstruction", "MeshQuad4.h: FineLayer::init_by_mapping")], ["FineLayer(coor, conn)"])
p("G08", "Refinement map partitions the fine mesh and averages consistently",
  "For every regular quadrilateral mesh and refinement factors, the map assigns to each coarse element exactly the fine elements inside it, covering each fine element exactly once, in row order. "
  "Distributing coarse data gives every fine element the value of its coarse element, averaging to the coarse mesh is its exact (volume weighted) inverse, and both hold for data of any rank.",
  ["configurations", "inputs"], "all mesh sizes, refinement factors and data of any rank",
  "One size is tested.",
  ["MeshQuad4.h"], [("refinement map", "MeshQuad4.h: Map::RefineRegular")], ["map, coarseMesh, fineMesh, meanToCoarse, averageToCoarse, mapToFine, nx, ny"])
p("G09", "Mapping a layered mesh to a regular mesh conserves volume fractions",
  "For every layered quadrilateral mesh, the map to the regular mesh of its finest element size lists for each regular element the layered elements that overlap it, with fractions that are positive and sum to one and that equal the overlapped fraction of its area. "
  "Mapping element data of any rank gives the corresponding weighted sum, so that constants are preserved.",
  ["configurations", "inputs"], "all layered meshes and element data of any rank",
  "One mesh is tested.",
  ["MeshQuad4.h"], [("mapping", "MeshQuad4.h: Map::FineLayer2Regular")], ["map, mapFraction, mapToRegular, regularMesh, fineLayerMesh"])
p("G10", "Stitching merges exactly the coinciding nodes, whatever the history",
  "After any sequence of adding meshes to a stitch (overlap detected automatically or given manually), a node of an added mesh is merged with a node of the earlier meshes exactly when they coincide within the tolerance, all other nodes (also nodes of one mesh that coincide with each other) are kept, every stitched element has the nodal positions of the original element, elements keep their order, and the translation of node numbers, element numbers and sets of each added mesh to the result is exact. "
  "Per-mesh and global queries of sizes, coordinates, maps and sets agree with each other, node sets given as several lists are united without repeats, and element sets are concatenated. Nodes listed by hand that do not coincide are rejected if the position is checked.",
  ["histories", "inputs", "configurations"], "all sequences of meshes and overlaps, tolerances and node sets",
  "Tests stitch two or three meshes in fixed positions.",
  ["Mesh.h"], [("overlap", "Mesh.h: overlapping"), ("manual stitch", "Mesh.h: ManualStitch"), ("stitch", "Mesh.h: Stitch::push_back, nodeset, elemset, nodemap, elemmap")],
  ["coor, conn, nodemap, elemmap, nodeset, elemset, nmesh, dofs"])
p("G11", "Vertical stacking places each mesh on top of the previous one",
  "After any sequence of stacking meshes vertically, each added mesh appears shifted vertically such that its bottom coincides with the top of the stack, its listed bottom nodes are merged with the listed top nodes of the mesh below, nothing else moves or merges, and the node and element translations are exact for each stacked mesh.",
  ["histories", "configurations"], "all sequences of stacked meshes and heights",
  "One stack of three identical meshes is tested.",
  ["Mesh.h"], [("stack", "Mesh.h: Vstack::push_back")], ["coor, conn, nodemap, elemmap, nodeset, elemset"])
p("G12", "Renumbering and reordering are order-preserving bijections",
  "Renumbering any array of DOFs gives consecutive numbers from zero that preserve order and equality; reordering by lists gives the numbers of the listed items consecutive new numbers in exactly the order of the lists. "
  "The reported index maps every listed number to its new one, and applying it to data of any rank and size agrees with that map element by element.",
  ["inputs"], "all DOF arrays, with gaps, repeats and any rank, and all orders",
  "A handful of arrays is tested.",
  ["Mesh.h"], [("renumber", "Mesh.h: Renumber"), ("reorder", "Mesh.h: Reorder")], ["apply, index, renumber, dofs"])
p("G13", "Node, element and DOF incidence agree with the connectivity",
  "For any connectivity (with distinct nodes per element), the number of elements per node, the ordered list of elements per node (also under periodic or tied DOFs) and the ordered list of nodes per DOF are exactly the transposed incidence of the connectivity and the DOF numbering; for numberings in which nodes share all or none of their DOFs, the nodal tyings list for every node all nodes that share its DOFs, itself included. "
  "Every element or node appears once per list, and nodes that no element uses have an empty list.",
  ["inputs", "configurations"], "all connectivities and DOF numberings",
  "Tests use one regular mesh.",
  ["Mesh.h"], [("incidence", "Mesh.h: coordination, elem2node, node2dof, nodaltyings")], ["coordination, elem2node, node2dof, nodaltyings"])
p("G14", "Geometric helpers match their definition for every mesh",
  "For any mesh of quadrilaterals and any nodal positions, edge sizes are the lengths of the documented edges, centres are the mean of the element's nodes, translating an element permutation to nodes maps every node to the corresponding node of the element that takes the place of an element it belongs to (so that rolling a mesh shifts its nodes by the same distance, periodically), the nodal mass distributes the mass of all elements as integrated by the nodal quadrature (zero for nodes that no element uses), and the centre of gravity is the mass-weighted mean position. "
  "The default element type follows from the dimension and number of nodes per element.",
  ["inputs", "configurations"], "all nodal positions, connectivities and element permutations",
  "Tests use undistorted meshes or a single distorted one.",
  ["Mesh.h"], [("geometry", "Mesh.h: edgesize, centers, elemmap2nodemap, nodal_mass, center_of_gravity, defaultElementType")], ["edgesize, centers, elemmap2nodemap, nodal_mass, center_of_gravity, defaultElementType"])
p("G15", "Triangle orientation is reported and imposed correctly",
  "For any non-degenerate triangles the reported orientation is -1 for counter-clockwise and +1 for clockwise triangles, and imposing an orientation (also when the current orientations are passed) keeps each triangle's set of nodes, changes only triangles with a different orientation, and leaves every triangle with the requested one.",
  ["inputs", "configurations"], "all triangles and all requested orientations",
  "A single mesh is tested.",
  ["MeshTri3.h"], [("orientation", "MeshTri3.h: getOrientation, setOrientation")], ["getOrientation, setOrientation"])

# ---------------------------------------------------------------- elements
p("E01", "Quadrature integrates element volume and interpolates linear fields exactly",
  "For every admissible (possibly distorted) quadrilateral or hexahedral element and every quadrature rule offered, the shape functions form a partition of unity, integration volumes are positive and add up to the element's volume wherever the rule is exact, and interpolating nodal values of a linear field to the quadrature points returns that field at the interpolated position. "
  "Planar elements scale volumes with the thickness and axisymmetric elements with the circumference.",
  ["inputs", "configurations"], "all admissible element shapes, quadrature rules, thicknesses and radii",
  "Tests use undistorted unit-like elements.",
  ["ElementQuad4.h", "ElementHex8.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "Element.h", "detail.h"],
  [("shape functions", "ElementQuad4.h, ElementHex8.h: Gauss, Nodal, MidPoint, compute_dN_impl"), ("Jacobian", "detail.h: tensor::inv")],
  ["dV, InterpQuad_vector, Gauss::xi, w, nip"])
p("E02", "Gradients of linear fields are reproduced exactly on distorted elements",
  "For every admissible element shape and every linear nodal field, the gradient, transposed gradient and symmetric gradient at every quadrature point equal the analytic gradient (in index order derivative first), its transpose and its symmetric part; out-of-plane components vanish for plane elements and equal radial displacement over radius in the hoop direction for axisymmetric ones. "
  "For arbitrary nodal fields they equal the defining sum over shape function gradients, and shape function gradients sum to zero over the nodes.",
  ["inputs", "configurations"], "all admissible element shapes and nodal fields",
  "Tests use axis-aligned elements, for which off-diagonal terms of the Jacobian vanish.",
  ["Element.h", "ElementQuad4.h", "ElementHex8.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h"],
  [("gradients", "Element.h: compute_dN_impl, gradN_vector_impl*"), ("overrides", "ElementQuad4*.h: gradN_vector_impl*, symGradN_vector_impl, compute_dN_impl")],
  ["GradN, B, GradN_vector, GradN_vector_T, SymGradN_vector"])
p("E03", "Element integrals equal their defining quadrature sums",
  "For every element type, quadrature rule, element shape and integrand (not necessarily symmetric), the integrals of shape function times vector, shape function products with a scalar, gradient contracted with a second-order tensor, and the double contraction with a fourth-order tensor equal the documented sum over quadrature points, in allocated and caller-supplied form whatever the output contained. "
  "Consequently internal forces balance, mass is conserved and stiffness applied to a field equals the internal force of the corresponding stress.",
  ["inputs", "configurations"], "all element shapes, rules and integrands, non-symmetric ones included",
  "Tests use symmetric integrands on regular meshes.",
  ["Element.h", "ElementQuad4.h", "ElementHex8.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h"],
  [("integrals", "Element.h and ElementQuad4*.h, ElementHex8.h: int_*_impl")],
  ["Int_N_vector_dV, Int_N_scalar_NT_dV, Int_gradN_dot_tensor2_dV, Int_gradN_dot_tensor4_dot_gradNT_dV"])
p("E04", "Updating nodal positions leaves no trace of earlier positions",
  "After any sequence of updates of the nodal positions, interleaved with evaluations, copies and assignments, a quadrature object is indistinguishable from one freshly constructed at the latest positions: volumes, gradients, interpolations and integrals are identical. "
  "Evaluations never modify the object, and copies are independent.",
  ["histories"], "all sequences of position updates, evaluations, copies and assignments",
  "Tests update at most once.",
  ["Element.h", "ElementQuad4.h", "ElementHex8.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h"],
  [("update", "Element.h: update_x, compute_dN_impl")], ["update_x, dV, GradN, GradN_vector, Int_*"])
p("E05", "Shape queries and tensor broadcasting follow the documented layout",
  "For every quadrature object and every tensor rank, the reported shapes, the allocated arrays and their initial value agree with the number of elements, integration points, nodes and dimensions; broadcasting a scalar field to a tensor of any rank repeats each scalar over all tensor components of its integration point, in allocated and caller-supplied form. "
  "The general broadcasting function does the same for arrays of any rank, and extending nodal vectors of one to three components to three components keeps all values in place and adds zeros.",
  ["inputs", "configurations"], "all element types, numbers of elements, ranks and dimensions",
  "Tests use one shape per function.",
  ["Element.h", "Allocate.h"], [("shapes", "Element.h: QuadratureBase"), ("broadcast", "Allocate.h: asTensor, AsTensor, as3d")],
  ["shape_*, allocate_*, AsTensor, asTensor, as3d"])
p("E06", "Predicates on arrays decide exactly what they name",
  "Deciding whether numbers are sequential (contiguous from zero without gaps), whether element matrices are diagonal, and whether entries are unique returns the mathematically correct answer for every non-empty input (off-diagonal entries up to machine precision count as zero), whatever the position of the deviating entry. ",
  ["inputs"], "all arrays",
  "The tests only use inputs for which the answer is positive or deviating in one place.",
  ["Element.h", "assertions.h"], [("predicates", "Element.h: isSequential, isDiagonal; assertions.h: is_unique")], ["isSequential, isDiagonal, is_unique"])

# ---------------------------------------------------------------- iteration, concurrency, rejection
p("I01", "Residual list decides convergence on exactly the last n entries",
  "After any sequence of resets and insertions, the residual list holds exactly the last n residuals inserted since the last reset in order (padded with infinity), and it reports descending order and being below a tolerance exactly when those entries are (a residual that is not a number is never below a tolerance). Lists have at least one entry. "
  "Changing the length by a reset discards all earlier residuals.",
  ["histories"], "all sequences of insertions and resets of any length",
  "The test inserts one short sequence.",
  ["Iterate.h"], [("residual list", "Iterate.h: StopList")], ["roll_insert, reset, descending, all_less, data"])
p("C01", "Parallel builds give the serial result under every thread schedule",
  "Built with OpenMP, for any number of threads and every interleaving of the threads, all conversions, assemblies, element operations and matrix products return the result of the serial build (up to rounding), and no two threads access the same memory location conflictingly within one parallel loop (storing one and the same value is no conflict). "
  "This requires consistent data only: positions that refer to the same DOF hold the same value.",
  ["schedules", "inputs"], "all thread counts and all interleavings of the threads",
  "The tests are built without OpenMP, so that no parallel schedule is ever exercised.",
  ["Vector.h", "VectorPartitioned.h", "Element.h", "Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "MatrixPartitionedTyings.h", "VectorPartitionedTyings.h"],
  [("parallel loops", "Element.h, Vector*.h, Matrix*.h: #pragma omp")], ["all element, vector and matrix functions"])
p("C02", "Concurrent use of shared objects does not interfere",
  "Two threads of a program may at the same time call any const functions of one shared object (vectors, matrices, quadratures, meshes, maps, stitched meshes, tyings, residual lists) and any functions, including assembly and solving, of objects that each thread has for itself. "
  "Whatever the interleaving, each call returns the result it gives alone, no memory is accessed conflictingly, and const functions leave the observable state of the object unchanged.",
  ["schedules", "configurations"], "all pairs of operations and all interleavings of two (or more) threads",
  "The tests are sequential: hidden shared or cached state is invisible to them.",
  ["Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "MatrixPartitionedTyings.h", "Element.h", "Mesh.h", "MeshQuad4.h", "MeshTri3.h", "MeshHex8.h", "TyingsPeriodic.h", "Iterate.h"],
  [("const functions", "all classes"), ("identifiers of matrix values", "Matrix.h: detail::next_matrix_version")], ["all const functions, solvers, constructors"])
p("F01", "Inconsistent input is rejected before anything is modified",
  "With assertions enabled, calling a function of a vector, matrix, solver or quadrature with any combination of arrays of inconsistent shapes, constructing one with a connectivity that refers to nodes that do not exist, more DOFs than nodal components, prescribed DOFs that are duplicated or do not exist, or constraint matrices of inconsistent size, setting matrix entries that do not exist, assembling a non-diagonal element matrix in a diagonal matrix, or passing invalid meshes, maps, node sets, data or numbers of layers, elements, nodes, DOFs or meshes to the mesh functions, selections, refinement maps, renumbering, periodic tyings and stitching classes, ends in an exception without any invalid memory access; the object and all arguments stay as they were, and the object remains usable. Every consistent input is accepted.",
  ["inputs", "fault_sequences"], "all calls of the interface with arrays whose shapes deviate in any combination",
  "Tests only pass consistent arrays.",
  ["Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Element.h", "ElementQuad4.h", "ElementHex8.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "Mesh.h", "MeshQuad4.h", "MeshTri3.h", "TyingsPeriodic.h"],
  [("assertions", "config.h: GOOSEFEM_ASSERT")], ["exceptions"])
# ---------------------------------------------------------------- whole analyses
p("S01", "A whole analysis reproduces affine fields and equilibrium",
  "On any mesh the library generates, refines, stitches or stacks, with interior nodes moved, nodes and elements renumbered and any DOF numbering, the chain of gathering, gradients, constitutive response, integration, assembly, partitioning and solving passes the patch test: an affine displacement gives a constant stress, no force on interior nodes, forces on the boundary that balance and whose virial is the stress times the volume, and rigid motions give no force. "
  "Prescribing any set of components that suppresses rigid motion and solving returns exactly that affine field and its reactions; gravity accelerates every node equally through the lumped mass.",
  ["inputs", "configurations"], "all meshes, numberings, sets of prescribed components and affine fields",
  "Tests check parts in isolation or one analysis on one mesh; an error that only shows when parts are combined on an unusual mesh, numbering or partition passes them.",
  ["Vector.h", "VectorPartitioned.h", "Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementHex8.h", "Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "Mesh.h", "MeshQuad4.h", "MeshHex8.h"],
  [("element integrals", "ElementQuad4.h, ElementQuad4Planar.h, ElementHex8.h: *_impl"), ("assembly and solve", "MatrixPartitioned.h: assemble_impl, MatrixPartitionedSolver")],
  ["Dot, Solve, Reaction, AssembleNode, dV"])
p("S02", "A periodic analysis obeys the macroscopic average relations",
  "For any periodic mesh, material distribution and numbering, an analysis with control nodes and periodic tyings, in which any admissible part of the macroscopic gradient is prescribed and the conjugate stress for the remainder, yields the solution of the constrained system: the displacement is periodic up to the macroscopic gradient, the volume-average gradient is the macroscopic one, the forces on free nodes vanish, the forces on the control DOFs are the average stress times the volume, and macroscopic work equals microscopic work. "
  "The same fluctuations follow from a periodic numbering instead of tyings.",
  ["inputs", "configurations"], "all periodic meshes, numberings, material distributions and macroscopic loadings",
  "The tests contain one periodic cell, one loading and one numbering.",
  ["TyingsPeriodic.h", "VectorPartitionedTyings.h", "MatrixPartitionedTyings.h", "MeshQuad4.h", "MeshHex8.h"],
  [("tyings", "TyingsPeriodic.h: Periodic, Control"), ("condensed system", "MatrixPartitionedTyings.h: assemble_impl, MatrixPartitionedTyingsSolver")],
  ["Solve, AsDofs_i, Cdu, Cdp, Cdi"])
p("S03", "Histories with reused objects equal an analysis with fresh loops",
  "In a simulation that creates its vectors, quadratures, matrices and solver once and reuses them, any sequence of time steps, reversals, moving of the mesh, changes of material, density or mass, static solves under new loads, and continuing with copies of the objects gives the displacements, velocities, accelerations, stresses, forces, reactions and energy that a computation without any stored state gives.",
  ["histories"], "all sequences of operations on reused objects",
  "Tests construct new objects for each function and call them once.",
  ["Vector.h", "VectorPartitioned.h", "Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "MatrixPartitioned.h"],
  [("state of quadratures", "Element.h: update_x"), ("state of matrices", "MatrixDiagonal.h, MatrixDiagonalPartitioned.h, MatrixPartitioned.h: m_changed, factorize")],
  ["nodal fields, stresses, reactions, mass, energy after every history"])
p("H01", "All headers can be used together in several translation units",
  "A program whose translation units each include every header compiles and links, with and without OpenMP and assertions.",
  ["programs", "configurations"], "all programs with more than one translation unit",
  "Each test is one translation unit.",
  ["GooseFEM.h", "Element.h"], [("inline definitions", "Element.h: free functions")], ["link step"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P))
