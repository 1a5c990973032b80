prop("C01", "Smoother flags are optimisations only: same iterate, correct residual",
 "For every smoother and every combination of the flags 'residual is up to date', 'keep the residual up to date' and 'initial guess is zero', a forward, backward, symmetric or repeated sweep produces the same new iterate as the plain sweep without any of these hints. Whenever the caller asked for the residual to be kept up to date, the residual returned equals the right hand side minus the matrix times the new iterate. The right hand side is never modified.",
 ["inputs", "configurations"], "all matrix entries (symmetric, invertible diagonal blocks), right hand sides, iterates, stale residual contents, free-dof sets, block layouts (partition, overlapping, incomplete), sweep kinds and flag combinations within the stated sizes",
 "The tests only look at the condition number / iteration count of a full preconditioner, which uses one flag combination per call site; a wrong residual in an unused combination, or one hidden by the Krylov method, passes.",
 ["src/base/smoothers/base_smoother.hpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/loc_block_gssmoother.cpp", "src/base/smoothers/dyn_block_smoother.cpp"],
 [("flag dispatch of the Gauss-Seidel smoothers", S + "gssmoother.cpp GSS3::Smooth/SmoothBack, GSS4::SmoothRESInternal"), ("K-step and symmetric sweeps", S + "base_smoother.cpp"), ("block sweeps with RHS or residual", S + "block_gssmoother.cpp, loc_block_gssmoother_impl.hpp")],
 ["BaseSmoother::Smooth/SmoothBack/SmoothK/SmoothBackK/SmoothSymm/SmoothSymmK"],
 "Bounds: 2 to 4 unknowns, blocks of size 1 to 3, scalar and 2x2 block entries, up to 3 repeated sweeps.")
prop("C02", "The backward sweep is the adjoint of the forward sweep",
 "For a symmetric matrix, the linear operator applied by a backward smoothing sweep from a zero initial guess is the transpose of the operator applied by the forward sweep, for every smoother. A symmetrised sweep is therefore a symmetric operator, as the conjugate gradient method requires. This holds for coloured and sequential block orders alike.",
 ["inputs", "configurations"], "all symmetric matrices with invertible diagonal blocks on the stated patterns, all free-dof sets, block layouts and sweep orders within the stated sizes",
 "Tests measure convergence of a few Poisson and elasticity problems; a slightly non-symmetric preconditioner still converges there.",
 ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/dyn_block_smoother.cpp"],
 [("backward iteration orders", S + "gssmoother.cpp iterate_rows, block_gssmoother.cpp, loc_block_gssmoother_impl.hpp IterateBlocks"), ("block colouring", S + "block_gssmoother.cpp")],
 ["BaseSmoother::Smooth / SmoothBack"], "Bounds: 2 to 4 unknowns, 5 block layouts, scalar and 2x2 entries.")
prop("C03", "Smoothing sweeps are consistent and equal their textbook definition",
 "A smoothing sweep leaves an iterate whose residual vanishes on the free unknowns unchanged, its update depends on the residual only, and it never touches non-free unknowns. Gauss-Seidel, Jacobi and block smoothers compute exactly the textbook sweep: successive exact solves with the (given or modified) diagonal blocks, in the stated order and its reverse.",
 ["inputs", "configurations"], "all matrix entries with invertible diagonal blocks, iterates, right hand sides, free-dof sets, block layouts and replaced diagonals within the stated sizes",
 "No test looks at the result of a single sweep; end-to-end convergence hides wrong block solves, wrong diagonals and touched Dirichlet values.",
 ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/loc_block_gssmoother.cpp", "src/base/smoothers/dyn_block_smoother.cpp"],
 [("diagonal inverses and row sweeps", S + "gssmoother.cpp"), ("block extraction and block solves", S + "block_gssmoother.cpp, loc_block_gssmoother_impl.hpp")],
 ["BaseSmoother::Smooth / SmoothBack / MultAdd"], "Bounds: 2 to 4 unknowns, 5 block layouts, scalar and 2x2 entries.")
prop("C05", "Level transfer: restriction is the transposed prolongation, chains compose",
 "Every transfer step between two levels maps coarse vectors by its prolongation P and fine vectors by exactly the transpose of P, in overwriting and in adding form, and leaves its input alone. Concatenating steps, whether merged into one step, kept as a symbolic chain or stored in a multi-component step, gives the product of the prolongations. The coarse matrix of a step or chain is P^T A P, and the level map transfers between any two levels as the composition of the single steps.",
 ["inputs", "configurations"], "all prolongation and matrix entries, vectors and factors on the stated patterns, entry shapes, ways of building and concatenating steps, and pairs of levels",
 "Tests see only iteration counts of one hierarchy; a wrong add factor, a missing transposition of an entry or a wrong concatenation order in an unused combination goes unseen.",
 ["src/base/coarsening/dof_map.hpp", "src/base/coarsening/dof_map.cpp", "src/base/linalg/utils_sparseMM.cpp"],
 [("prolongation step, concatenation, multi steps", "src/base/coarsening/dof_map.cpp ProlMap, ConcDMS, MultiDofMapStep, MakeSingleStep2/3"), ("level map", "src/base/coarsening/dof_map.cpp DOFMap")],
 ["BaseDOFMapStep::TransferF2C/AddF2C/TransferC2F/AddC2F/AssembleMatrix/Concatenate", "DOFMap::TransferAtoB"], "Bounds: up to 4 unknowns and 3 steps, entry shapes up to 3x6.")
prop("C06", "Sparse matrix algebra computes the mathematical result in well-formed storage",
 "Sparse sums, products, triple products, transposes, identities, diagonal and permutation matrices, blocked and unblocked copies, compression and restriction to blocks represent exactly the matrix their name says, for every pattern and every entry shape. Results have strictly increasing in-range column indices and dropped entries are only those the caller's tolerance allows. Arguments that are inputs are not changed.",
 ["inputs", "configurations"], "all sparsity patterns and entries within the stated sizes, scalar and block entry shapes, tolerances and factors",
 "Tests run the algebra on a few Galerkin products only; sums with factors, negative entries, rectangular blocks and empty rows are not exercised.",
 ["src/base/linalg/utils_sparseLA.hpp", "src/base/linalg/utils_sparseLA.cpp", "src/base/linalg/utils_sparseMM.cpp", "src/base/linalg/utils_sparseMM.hpp", "src/base/utils/python_utils.cpp"],
 [("products and transposes", "src/base/linalg/utils_sparseMM.cpp"), ("sums, identities, conversion and compression", "src/base/linalg/utils_sparseLA.hpp, utils_sparseLA.cpp")],
 ["MatMultAB", "TransposeSPM", "RestrictMatrixTM", "SparseAdd", "BuildIdentity", "CompressA"], "Bounds: up to 3x3 block patterns, entry shapes up to 3x3.")
prop("C17", "Index-set, permutation and table helpers compute exactly the set they name",
 "Searching, inserting into, merging, intersecting, subtracting and partitioning sorted index arrays give exactly the mathematical set, sorted and without repetitions, for any contents including empty arrays and many rows. Permutations are applied as sorted[k] = orig[perm[k]] and can be inverted and kept. Tuple and array orderings are strict total orders, table reductions, copies and buffer packing reproduce every entry, and means and identities have their mathematical value.",
 ["inputs"], "all array contents, sizes, elements, permutations and real entries within the stated sizes",
 "There are no unit tests of these helpers; the end-to-end tests reach only a few sizes and never empty, colliding or more-than-16-row cases.",
 ["src/base/utils/utils_arrays_tables.hpp", "src/base/utils/utils.hpp", "src/base/utils/utils.cpp", "src/base/utils/utils_numeric_types.hpp", "src/base/utils/utils_buffering.hpp"],
 [("sorted array algebra", "src/base/utils/utils_arrays_tables.hpp"), ("tuple ordering, identities", "src/base/utils/utils.hpp"), ("buffers", "src/base/utils/utils_buffering.hpp")],
 ["merge_arrays", "find_in_sorted_array", "ApplyPermutation", "partitionAB", "MergeArrays", "operator<(IVec)"], "Bounds: arrays of up to 9 entries, up to 4 (17 for the hashed merge) rows.")
prop("C18", "Per-level options hold the value the user asked for on every level",
 "An option given by the user holds on every level without a special value, and special values hold exactly on their level. Copying, moving or assigning option sets preserves every value; combining switches turns a level on exactly where either was on; missing or unknown settings keep the default.",
 ["inputs", "configurations"], "all option values, numbers of special values, levels and presence of flags within the stated sizes",
 "Tests use a handful of flag combinations and observe convergence only, which hardly depends on a lost option value.",
 ["src/base/utils/SpecOpt.hpp"], [("per-level options", "src/base/utils/SpecOpt.hpp SpecOpt")], ["SpecOpt::GetOpt", "SpecOpt::SetFromFlags", "SetEnumOpt"], "Bounds: up to 3 special values.")

prop("C04", "The multigrid cycle is the textbook recursion and a symmetric operator",
 "Applying the AMG matrix performs exactly the requested V, W or nested V cycle: presmoothing from a zero guess, restriction of the residual, coarse correction, prolongation and the adjoint post-smoothing, with the given coarse inverse (or nothing) on the coarsest level. Every cycle is a symmetric linear operator, its adding and transposed forms agree with it, and no state survives between applications. Cycles started on a level or used as a smoother improve the given iterate and return a correct residual when asked, for every combination of hints. Basis functions and the coarse inverse seen on the finest level are the concatenated prolongations applied to unit vectors and coarse solutions.",
 ["inputs", "configurations", "histories"], "all right hand sides, iterates, stale work vectors, smoother, level and transfer matrices of one level at a time, cycle kinds, flags, levels and repeated application within the stated sizes",
 "The tests run the V cycle inside CG on a few problems and look at the condition number; other cycles, started levels and residual bookkeeping are never executed.",
 ["src/base/solve/amg_matrix.hpp", "src/base/solve/amg_matrix.cpp", "src/base/coarsening/dof_map.cpp"],
 [("cycles", "src/base/solve/amg_matrix.cpp AMGMatrix::SmoothV/SmoothW/SmoothBS/SmoothVFromLevel"), ("AMG as smoother, embedded AMG", "src/base/solve/amg_matrix.cpp AMGSmoother, EmbeddedAMGMatrix")],
 ["AMGMatrix::Mult", "AMGSmoother::Smooth/SmoothBack", "EmbeddedAMGMatrix::Mult", "AMGMatrix::GetBF"], "Bounds: 2 to 4 levels, up to 3 unknowns; operators of one level at a time symbolic, the others fixed numbers.")
prop("C22", "The linear solver reports exactly what it did",
 "The solver iterates until the error is below the relative tolerance, or for the maximum number of steps without a tolerance, and reports convergence, the number of steps and the error history of exactly that run. It starts from the given iterate or from zero as requested, with the residual of that start, and as a matrix it returns the same result whatever the output vector contained before.",
 ["inputs", "histories"], "all error histories, tolerances, start iterates, step limits, options and repeated application within the stated sizes",
 "No test uses the solver class.",
 ["src/base/solve/LinearSolver.hpp", "src/base/solve/LinearSolver.cpp"], [("iteration and reporting", "src/base/solve/LinearSolver.cpp LinearSolver::Solve"), ("V cycles as iteration", "src/base/solve/LinearSolver.cpp AMGAsLinearSolver")],
 ["LinearSolver::Solve", "LinearSolver::Mult", "LinearSolver::GetConverged", "LinearSolver::GetNeededSteps"], "Bounds: up to 3 steps, 2 unknowns.")

prop("C08", "Small dense kernels: pseudo-inverses, definiteness tests, eigenvalue bounds",
 "The dense routines used for diagonal blocks and coarsening decisions return the Moore-Penrose inverse of a symmetric positive semi-definite matrix of any rank, including zero rows and zero matrices, in scalar and blocked storage alike; a direct inverse either is the inverse or reports failure and leaves the matrix alone. Definiteness tests accept exactly the (semi-)definite matrices, the generalised eigenvalue bounds are the smallest ratio on the complement of the kernel and leave their arguments alone, and block copies, traces and triple products are exact.",
 ["inputs"], "all eigenvalues (zero or within 0.1 to 10) of matrices with rational orthogonal eigenbases, all entries for direct inverses and products, within the stated sizes",
 "Singular and partly zero blocks appear only in special meshes; a wrong pseudo-inverse or accepted indefinite matrix changes the convergence of the test problems little or not at all.",
 ["src/base/utils/utils_denseLA.hpp", "src/base/utils/utils_denseLA.cpp", "src/base/coarsening/agglomerator_utils.hpp"],
 [("pseudo-inverses, direct inverse, definiteness", "src/base/utils/utils_denseLA.cpp, utils_denseLA.hpp"), ("generalised eigenvalues", "src/base/coarsening/agglomerator_utils.hpp MinGEV, CalcRobustPairSOC")],
 ["CalcPseudoInverseTryNormal", "CalcPseudoInverseWithTol", "CheckForSSPD", "MinGEV", "RegTM"], "Bounds: up to 3x3 scalar matrices and 2x2 blocks of size 2; LAPACK's eigenvalue and Cholesky routines are replaced by their specification.")
prop("C07", "Dynamic-block matrices represent the matrix they were built from",
 "A dynamic-block matrix built from a sparse matrix, with automatic grouping for structurally symmetric matrices or with given row and column blockings for matrices made of complete blocks, represents that matrix exactly. Every row belongs to exactly one row block, block rows and columns are ascending, the dense blocks hold precisely the stored entries and the announced maximal block sizes are right. Multiplication and scaled multiply-add equal the sparse matrix-vector product, also for rows without entries.",
 ["inputs", "configurations"], "all entries, vectors and factors, every structurally symmetric pattern and every block pattern and blocking within the stated sizes",
 "The dynamic-block format is not used by any test; it is only switched on by an option for the Stokes and elasticity preconditioners.",
 ["src/base/linalg/dyn_block.hpp", "src/base/linalg/dyn_block_impl.hpp", "src/base/linalg/dyn_block.cpp"],
 [("grouping rows and columns into blocks", "src/base/linalg/dyn_block.cpp DynBlockSparseMatrix::Finalize and constructors"), ("block access and multiplication", "src/base/linalg/dyn_block_impl.hpp GetBlockRCV, dyn_block.cpp MultiplyBlock")],
 ["ConvertToDynSPM", "DynBlockSparseMatrix::Mult/MultAdd/GetBlockRCV"], "Bounds: every symmetric pattern of up to 5 unknowns, up to 2x2 blocks of size up to 2, one 24-row family.")
prop("C13", "Replacement energies transform exactly and keep rigid body modes in their kernel",
 "The compact elasticity transformations act exactly like the matrices they stand for: products from the left, from the right and from both sides, scaled, set and added forms, and the matrix they write out. Transformations between vertices move rigid body modes exactly, compose, and are undone by the reverse transformation; the mid-point of an edge is the point where the transformations of both ends are mutually inverse. The replacement matrix of an edge is symmetric, is the edge matrix seen from the two ends, and vanishes on rigid body modes. Weights merged into a mid-point act as the weights they replace, means and accessors have their mathematical value, vertex data survives buffering. Scalar energies behave the same with identity transformations, and Stokes energies combine the two half edges symmetrically and give no connection where a half edge has no energy.",
 ["inputs"], "all matrices, tangents, positions, positive rotation scalings, weights and factors, in two and three dimensions",
 "Tests run default options, mostly without rotation scaling, and observe convergence, which hides wrong transformations in unused or rarely used routines.",
 ["src/elasticity/elasticity_energy.hpp", "src/elasticity/elasticity_energy_impl.hpp", "src/elasticity/elasticity_mesh.hpp", "src/h1/h1_energy.hpp", "src/h1/h1_energy_impl.hpp", "src/stokes/common/stokes_energy.hpp"],
 [("transformations", "src/elasticity/elasticity_energy.hpp EpsEpsEnergy::TQ"), ("edge replacement matrices", "src/elasticity/elasticity_energy.hpp CalcRMBlockImpl"), ("Stokes edges", "src/stokes/common/stokes_energy.hpp StokesEnergy")],
 ["TQ::MQ/QTM/QTMQ/QMQT/SetQ", "GetQiToj", "GetQijQji", "CalcRMBlock", "CalcMPDataWW", "StokesEnergy::GetEMatrix"], "Bounds: two and three dimensions, one edge, up to three vertices (complete for these functions).")
prop("C15", "Equivalence classes and communication primitives agree on all ranks",
 "Equivalence classes of distant ranks are the same on all ranks that share them: every class is known to all of its ranks, under the same global id, different classes have different ids, the lowest rank is the master, and the tables of unions, intersections and inclusions are those of the sets, with intersections complete on request. This holds however the hierarchy is set up: from tables, from member lists held by one rank, from all or selected or the first parallel dofs. Class-wise scatter, gather and reduction deliver every rank's data complete, in rank order, to exactly the ranks of the class; dof values are reduced over exactly the ranks sharing the dof with the same result everywhere; tables, arrays and sparse matrices arrive as they were sent, including empty ones; reductions and sub-communicators cover exactly their ranks. No rank waits forever, whatever the buffering of messages.",
 ["inputs", "schedules", "configurations"], "all values, every sharing pattern within 2 and 3 ranks (selected ones for 4, every one in the thorough tier), early and latest possible delivery of messages, different orders of the ranks",
 "Tests run on 1, 2 and 5 ranks on one mesh partition with one MPI library, which buffers small messages; empty rows, empty tables, selected dofs and member lists held by one rank do not occur.",
 ["src/base/distributed/eqchierarchy.hpp", "src/base/distributed/eqchierarchy.cpp", "src/base/distributed/reducetable.hpp", "src/base/distributed/mpiwrap_extension.hpp", "src/base/distributed/universal_dofs.hpp"],
 [("equivalence classes", "src/base/distributed/eqchierarchy.cpp EQCHierarchy"), ("class-wise reduction", "src/base/distributed/reducetable.hpp ReduceTable, ScatterEqcData, GatherEQCData"), ("dof-wise reduction, tables and matrices", "src/base/distributed/mpiwrap_extension.hpp")],
 ["EQCHierarchy", "ReduceTable", "ScatterEqcData", "GatherEQCData", "ScatterEQCData", "MyAllReduceDofData", "NgsAMG_Comm"], "Bounds: 2 to 4 ranks for the classes, 2 and 3 (4 in the thorough tier) for the exchanges, one data exchange at a time; MPI is modelled in process with one coroutine per rank, NGSolve's ParallelDofs is the real library code.")
prop("C11", "Meshes and agglomerate maps agree on all ranks and keep all nodes and weights",
 "A block mesh numbers exactly the vertices and edges its rank shares, class by class and in the same order on all ranks of a class, with matching local and global counts, class look-ups, class-internal numbers and vertex connectivity; a loop over master nodes visits every node on exactly one rank. Nodal data is scattered from the master, reduced and cumulated over exactly the ranks sharing the node, and a mesh sent to another rank arrives unchanged. For every admissible set of agglomerates the coarse map sends all vertices of an agglomerate, on all ranks, to one coarse vertex in the class of its centre, leaves exactly the other vertices out, and yields exactly the coarse edges that some fine edge induces, each once and on all ranks sharing both ends, with a matching edge map and reverse map. Concatenated maps are the compositions. Coarse H1 vertex and edge weights are the sums of the fine ones, where edges to vertices outside all agglomerates add to the vertex weight, whatever the parallel status of the data.",
 ["inputs", "schedules", "configurations"], "all attached values; all sharing patterns of 3 to 4 vertices on 1 and 2 ranks and of 3 vertices on 3 ranks (selected ones for agglomerate maps), the stated edge sets, all admissible agglomerations, early and latest possible message delivery",
 "Tests coarsen one or two meshes per rank count; an edge missing on one rank, a weight counted twice or a different numbering on two ranks only perturbs the convergence.",
 ["src/base/mesh/base_mesh.hpp", "src/base/mesh/base_mesh.cpp", "src/base/mesh/alg_mesh.hpp", "src/base/coarsening/agglomerate_map.hpp", "src/base/coarsening/agglomerate_map.cpp", "src/base/coarsening/base_coarse.cpp", "src/h1/h1_impl.hpp"],
 [("block meshes", "src/base/mesh/base_mesh.hpp BlockTM::SetVs, SetNodes, MapNodeToEQC, ScatterNodalData, AllreduceNodalData"), ("agglomerate map", "src/base/coarsening/agglomerate_map.cpp MapVerts, MapVerts_sv, MapEdges"), ("concatenation", "src/base/coarsening/base_coarse.cpp"), ("coarse weights", "src/h1/h1_impl.hpp H1VData::map_data, H1EData::map_data")],
 ["BlockTM", "BaseAgglomerateCoarseMap::GetMappedMesh / GetMap", "BaseCoarseMap::Concatenate / GetMapC2F"], "Bounds: up to 3 ranks, 4 vertices and 6 edges; faces and cells are outside (nothing in the library uses them); which agglomerates are formed is outside (any admissible choice is covered).")
prop("C09", "Splitting a distributed matrix into master and ghost part changes nothing",
 "The hybrid form of a distributed matrix represents the same operator as the sum of the ranks' contributions: the master parts and ghost parts of all ranks add up to the global matrix, the master part of a rank is exactly the diagonal block of the global matrix at the dofs of which the rank is master, the ghost part couples only dofs with different masters, rows stay sorted without duplicates, all ranks agree on whether there is any ghost part, and the number of entries is that of the two parts. Mult and MultAdd (and, for sparse matrices, their transposes) give, summed over the ranks, the product with the global matrix whatever the status of the argument vectors, return a distributed vector and leave the value of the argument unchanged, for block and scalar matrices, dynamic blocks and either choice of masters.",
 ["inputs", "schedules", "configurations"], "all entries, vectors and scales; up to 3 dofs with every sharing pattern on up to 3 ranks (selected ones in the quick tier), two sparsity patterns, block sizes 1 and 2",
 "Tests solve one problem per rank count; a contribution counted twice or lost at a corner shared by three ranks, an entry left in both parts or a distributed argument only slows the iteration.",
 ["src/base/linalg/hybrid_matrix.hpp", "src/base/linalg/hybrid_matrix.cpp"],
 [("decomposition", "src/base/linalg/hybrid_matrix.cpp DecomposeSparseMatrixHybrid"), ("products", "src/base/linalg/hybrid_matrix.cpp HybridBaseMatrix::Mult*"), ("dynamic blocks", "src/base/linalg/hybrid_matrix.cpp DynamicBlockHybridMatrix")],
 ["DecomposeSparseMatrixHybrid", "HybridBaseMatrix", "HybridMatrix", "DynamicBlockHybridMatrix"], "Bounds: block sizes 1 and 2, up to 3 dofs and 3 ranks; local patterns structurally symmetric with full diagonal; sequential matrices without parallel dofs are outside (the library does not build hybrid matrices from them).")
prop("C10", "Moving a vector to the masters and back yields its exact value on all ranks",
 "Every shared dof has exactly one master among the ranks sharing it, the same for all of them. After the distributed-to-concentrated exchange the master holds the full value of the dof and every other rank zero; after the concentrated-to-cumulated exchange all ranks sharing the dof hold the full value, with the parallel status set accordingly; repeating the exchange on a cumulated vector changes nothing. This holds for distributed and cumulated input, any entry size, either choice of masters and any order of message delivery, successive exchanges included; no rank waits forever.",
 ["inputs", "schedules", "configurations"], "all values; every sharing pattern of 2 to 3 dofs on up to 3 ranks, entry sizes 1 and 2",
 "Tests see the exchange only inside a converging iteration, on one partition per rank count and with buffered messages.",
 ["src/base/linalg/dcc_map.hpp", "src/base/linalg/dcc_map.cpp"],
 [("exchange", "src/base/linalg/dcc_map.cpp DCCMap::StartDIS2CO, ApplyDIS2CO, FinishDIS2CO, StartCO2CU, ApplyCO2CU, FinishCO2CU"), ("choice of masters", "src/base/linalg/dcc_map.cpp BasicDCCMap, ChunkedDCCMap")],
 ["DCCMap", "BasicDCCMap", "ChunkedDCCMap"], "Bounds: up to 3 ranks and 3 dofs, two exchanges in a row; communication in a background thread is outside (the schedules model one thread per rank).")
prop("C23", "Parallel smoothers keep iterate and residual consistent on all ranks",
 "A sweep of a parallel smoother (Gauss-Seidel, block, dynamic block) leaves a cumulated iterate with the same values on all ranks sharing a dof, whatever the flags say: knowing the residual, asking for its update or promising a zero start changes nothing about the iterate, an updated residual equals right hand side minus global matrix times iterate, and the right hand side keeps its value, be it distributed or cumulated. The update depends on the residual only, fixed dofs are never touched, and for a symmetric matrix the backward sweep is the adjoint of the forward sweep. The diagonal used is never smaller than the global one and at least half the scaled absolute row sum when couplings to dofs of other ranks are ignored. On one rank, two local steps are two sweeps. This holds with and without overlapping communication and for every order of message delivery.",
 ["inputs", "schedules", "configurations"], "all off-diagonal entries, iterates and right hand sides for 3 dofs; 12 sharing patterns on up to 3 ranks (all in the thorough tier)",
 "Tests run parallel smoothers only inside the preconditioned iteration, where a stale residual or ranks that disagree a little merely cost iterations; several local steps and cumulated right hand sides never occur.",
 ["src/base/smoothers/hybrid_base_smoother.hpp", "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/smoothers/hybrid_smoother.cpp", "src/base/smoothers/hybrid_smoother_utils.hpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/dyn_block_smoother.cpp"],
 [("schedule of local sweeps and communication", "src/base/smoothers/hybrid_base_smoother.cpp HybridBaseSmoother::SmoothImpl, SmoothImplRES, SmoothImplRHS, CallStageKernelsImpl"), ("modified diagonal", "src/base/smoothers/hybrid_smoother_utils.hpp CalcHybridSmootherRDGItGeneric"), ("local sweeps", "src/base/smoothers/gssmoother.cpp HybridGSSmoother, src/base/smoothers/block_gssmoother.cpp HybridBS, src/base/smoothers/dyn_block_smoother.cpp HybridDynBlockSmoother")],
 ["HybridBaseSmoother::Smooth / SmoothBack", "HybridGSSmoother", "HybridBS", "HybridDynBlockSmoother"], "Bounds: scalar unknowns, 3 dofs, up to 3 ranks, diagonal entries 4, 16, 1; symmetric local sweeps (symm_loc), the direct-inverse smoother and communication in a background thread are outside.")

prop("C12", "Prolongations preserve constants and rigid body modes, alike on all ranks",
 "The prolongation of a level is stored with ascending, unique columns among the coarse vertices of the rank, and its rows hold the same columns and values on every rank sharing a vertex. Vertices without an agglomerate have no entries; every other vertex interpolates from its own agglomerate and apart from that only from agglomerates of neighbouring vertices which all ranks of the vertex know. The rows of a vertex reproduce constants (H1) or all rigid body modes (elasticity) exactly, for piecewise, replacement-matrix smoothed and fine-matrix smoothed prolongations. The number of entries stays within the limit set for the kind of row. For H1 the row is that of one damped Jacobi step with the replacement matrix of the used edges or, for a fine matrix with zero row sums, with the fine matrix. The prolongation links the fine and coarse dofs it announces.",
 ["inputs", "schedules", "configurations"], "all positive edge weights, matrix entries and damping; agglomerations, entry limits and thresholds of 3 to 4 vertices; every sharing pattern of 3 vertices on 2 ranks, selected ones on 3",
 "Tests solve with one prolongation type per problem; a row which differs between ranks, loses a rigid body mode or a neighbour only costs iterations.",
 ["src/base/factory/vertex_factory_impl.hpp", "src/base/coarsening/dof_map.cpp", "src/base/linalg/utils_sparseMM.cpp", "src/h1/h1_energy.hpp", "src/elasticity/elasticity_energy.hpp"],
 [("piecewise prolongation", "src/base/factory/vertex_factory_impl.hpp PWProlMap"), ("smoothing with the replacement matrix", "src/base/factory/vertex_factory_impl.hpp AuxSProlMap"), ("smoothing with the fine matrix", "src/base/factory/vertex_factory_impl.hpp SemiAuxSProlMap")],
 ["VertexAMGFactory::BuildCoarseDOFMap", "PWProlMap", "AuxSProlMap", "SemiAuxSProlMap"], "Bounds: up to 4 vertices and 3 ranks; elasticity with 3 vertices at fixed positions, without rotation scaling, on up to 2 ranks; the limit of entries is checked for H1; which agglomerates are formed is outside (any admissible choice is covered); edge-by-edge improvement of coarse energies and embedded prolongations are outside.")
prop("C14", "Coarse replacement matrices are Galerkin projections of the fine ones",
 "The replacement matrix assembled from the weights of a mesh is the sum of the edge and vertex energies it stands for, and the replacement matrix of a coarse mesh, summed over the ranks, is exactly the Galerkin projection of the fine one under the piecewise prolongation between the meshes: for H1 and for two- and three-dimensional elasticity, with vertex weights and with edges to vertices left out of all agglomerates, on one or several ranks. All ranks know the same position of a coarse vertex.",
 ["inputs", "configurations"], "all symmetric edge and vertex weights, the stated graphs, every partition of 3 to 4 vertices into agglomerates with one vertex left out or not, every sharing pattern of 3 vertices on 2 ranks, selected ones on 3",
 "Tests only see that coarsening continues and the iteration converges; a weight moved to the wrong point or counted twice changes the coarse weights slightly. Vertex weights do not occur in the tested problems.",
 ["src/h1/h1_impl.hpp", "src/elasticity/elasticity_impl.hpp", "src/elasticity/elasticity_energy.hpp", "src/base/factory/aux_mat.hpp", "src/base/mesh/alg_mesh.hpp"],
 [("coarse vertex data", "src/elasticity/elasticity_impl.hpp AttachedEVD::map_data, src/h1/h1_impl.hpp H1VData::map_data"), ("coarse edge data", "src/elasticity/elasticity_impl.hpp AttachedEED::map_data"), ("replacement matrix", "src/base/factory/aux_mat.hpp AssembleAhatSparse")],
 ["AttachedEVD::map_data", "AttachedEED::map_data", "H1VData::map_data", "H1EData::map_data", "AssembleAhatSparse"], "Bounds: H1 with 4 vertices, 2D elasticity with 4 (parallel: 3), 3D with 3 (parallel: 2), fixed positions in general position, rotations not scaled; Stokes meshes are outside.")
prop("C16", "Contracting a mesh to fewer ranks keeps every node, weight and value",
 "When groups of ranks are contracted to their first member, the masters form a communicator numbered like the groups, and only they get a mesh. On the contracted mesh every vertex of a member is present exactly once on exactly the groups that contain a rank sharing it, every edge exactly once on exactly the groups that share both its vertices (also where only a third group listed the edge before), in classes matching the sharing groups and numbered in the same order on all of them, and the node maps send the nodes of every member to these; the flip bits say which edges change orientation. Attached vertex and edge data keep their value (cumulated) or their sum (distributed). The contracting dof map restricts and prolongates vectors between the ranks and the masters exactly, whatever the status of the vectors and the numbering of the contracted dofs, adding versions scale by the factor, and the contracted matrix is the sum of the members' contributions, with ascending columns. No rank waits forever.",
 ["inputs", "schedules", "configurations"], "all attached values, vectors and matrix entries; 3 vertices on 1 to 3 ranks with sharing patterns in ascending order (thorough: any order; 4 ranks), complete graph or path, every grouping of the ranks, two delivery schedules",
 "Tests contract one partition to one or two ranks; edges whose ends only meet on a third group occur rarely, and a weight counted once per group only changes the coarsening.",
 ["src/base/coarsening/grid_contract.hpp", "src/base/coarsening/grid_contract.cpp", "src/base/coarsening/dof_contract.hpp", "src/base/coarsening/dof_contract.cpp"],
 [("contracted classes and node maps", "src/base/coarsening/grid_contract.cpp GridContractMap::BuildCEQCH, BuildNodeMaps"), ("attached data", "src/base/coarsening/grid_contract.hpp GridContractMap::MapNodeData"), ("dof map", "src/base/coarsening/dof_contract.cpp CtrMap")],
 ["GridContractMap::BuildMappedMesh", "GridContractMap::MapNodeData", "CtrMap::TransferF2C / AddF2C / TransferC2F / AddC2F / AssembleMatrix"], "Bounds: up to 3 ranks (4 in the thorough tier), 3 vertices, 3 dofs, entry sizes 1 and 2; groups in ascending order as the partitioner makes them; how ranks are grouped (METIS), the exchange of a contraction with a prolongation (unused) and meshes with faces are outside.")
prop("C19", "Agglomerates partition the free vertices, lie on one rank and are connected",
 "Agglomerates formed by successive pairwise matching and by the maximal-independent-set method are numbered consecutively; their member lists and the vertex-to-agglomerate array describe the same grouping; members are unique and ascending and the centre is one of them. Only free vertices that belong to the rank (it is their master, or they are solid on it) are agglomerated, every one of them that has an edge is (without a vertex threshold), and all others are left out. Agglomerates that were not prescribed are connected, prescribed ones are kept as they are, and every rank that knows a member also knows the centre. Which agglomerates are formed depends on mesh, weights and options only, not on the content of memory, and no combination of ranks (idle ones included), Dirichlet vertices, solid vertices, rounds and orphan treatment makes the method fail. One round of pairing forms pairs of strongly connected vertices only and does not leave two vertices single that are strongly connected both ways.",
 ["inputs", "configurations"], "all edge weights between 1e-3 and 1e3 and all vertex weights up to 1e3, every choice of at most one Dirichlet vertex, all sharing patterns of 3 vertices on 2 ranks next to an idle one, selected ones on 3 ranks, 1 to 3 rounds, the stated options",
 "Tests coarsen a handful of meshes with default options; a vertex lost or taken twice, an agglomerate whose centre is unknown to a neighbour, or a comparison with uninitialised memory only changes the iteration count on one mesh in a thousand.",
 ["src/base/coarsening/spw_agg_impl.hpp", "src/base/coarsening/mis_agg_impl.hpp", "src/base/coarsening/agglomerator_impl.hpp", "src/base/coarsening/agglomerator_utils.hpp", "src/base/coarsening/agglomerator.hpp", "src/base/coarsening/agglomerator.cpp"],
 [("pairwise matching", "src/base/coarsening/spw_agg_impl.hpp SPWAgglomerator::FormAgglomerates_impl, PairingIteration, JoiningIteration, LocCoarseMap"), ("independent set", "src/base/coarsening/mis_agg_impl.hpp MISAgglomerator::FormAgglomerates_impl"), ("strength of connection", "src/base/coarsening/agglomerator_impl.hpp InitializeAggData")],
 ["SPWAgglomerator::FormAgglomerates", "MISAgglomerator::FormAgglomerates"], "Bounds: scalar H1 weights in 1d, up to 4 vertices and 6 edges, 3 active ranks; the agglomerate-wide stability check and the robust (matrix-valued) strength of connection are outside (switched off in this build).")

prop("C24", "Loops of the Stokes potential space keep their edges and have one normal form",
 "The loops that span the potential space of the Stokes preconditioner are split, joined, oriented and compared without losing an edge. Joining the directed edges of a loop that were received from several ranks, and splitting a loop that visits a vertex more than once, give parts that consist of exactly the given edges in the given direction, each as often as it was given; every part visits each of its vertices once, except that a closed part ends where it starts. Sorting and orienting the edges of a loop only reorders and flips them; afterwards the edges of every connected part follow one another head to tail, and the number of parts is reported. Two descriptions of the same simple loop that differ in the start or in the direction are brought to the same normal form, which has the same edges and begins at the smallest vertex (the smaller end of an open loop). The signed code of an edge of a loop gives back its number and direction. When ranks drop their part of a shared loop, all others keep it, and the table of sharing ranks lists exactly the ranks that kept it.",
 ["inputs", "schedules"], "loops of up to 5 vertices out of 4 to 6, up to 4 directed edges in one or two chunks, all edge and vertex numbers up to 100 and 1000000 in the codes, 2 loops on 3 ranks",
 "No test covers the Stokes part; a loop that touches itself, an open loop that crosses a rank boundary twice or a loop found twice from different starts occurs on few meshes.",
 ["src/stokes/common/loop_utils.hpp", "src/stokes/common/loop_utils.cpp", "src/stokes/common/stokes_map_impl.hpp", "src/stokes/common/stokes_pc.cpp"],
 [("splitting and joining", "src/stokes/common/loop_utils.cpp SplitChunk, SimpleLoopsFromChunks"), ("normal form", "src/stokes/common/loop_utils.hpp rotateVLoop"), ("orientation", "src/stokes/common/loop_utils.hpp SortAndOrientLoop, loopEncode, loopDecode"), ("shared loops", "src/stokes/common/loop_utils.hpp ShrinkDPTable")],
 ["SplitChunk", "SimpleLoopsFromChunks", "rotateVLoop", "SortAndOrientLoop", "loopEncode / loopDecode", "ShrinkDPTable"], "Bounds: up to 5 vertices per loop and 4 edges per joined loop (one more in the thorough tier), 3 ranks; sortChunks (unused), the loops of a Stokes mesh and the rest of the Stokes preconditioner are outside.")
prop("C20", "Coarse and contracted Stokes meshes keep loops, flows and solid vertices",
 "The mesh of the Stokes preconditioner keeps its meaning when it is coarsened by given agglomerates or moved to fewer ranks. Coarsening: every coarse loop is a simple closed loop of at least three edges that are images of edges of one fine loop, and the image of every fine loop is a sum of coarse loops; a rank with a degree of freedom on a loop has the loop, the ranks of a loop agree on its direction and on whether it is active, and exactly the loops with an edge without flow are inactive; on one rank no loop appears twice. The flow of a coarse edge is the sum of the fine flows with their direction, the volume of a coarse vertex is the sum of the fine volumes, except that it vanishes for a vertex whose only edge has no flow, a coarse vertex is solid on the rank where its agglomerate is, and exactly the edges with a solid vertex have a degree of freedom. The blocks of loops used for smoothing are the sets of loops through one coarse edge and, alone, every loop inside an agglomerate. Contraction: the loops stay the same closed loops, their parts are the unions of the parts of the members, the maps of loops and edge degrees of freedom of every member lead to the same loops and edges, flows and edge weights follow the direction in which the contracted mesh stores the edge, volumes stay, and a vertex is solid where a member has it as solid vertex.",
 ["inputs", "schedules"], "4 to 6 vertices, 2 to 4 loops, 1 to 3 ranks, all agglomerations into connected agglomerates, all groupings of the ranks",
 "No test covers the Stokes part, and what goes wrong here needs loops that become equal only after coarsening and are shared by different ranks, edges whose direction changes when the mesh moves, or a ghost vertex of which a rank knows a single edge.",
 ["src/stokes/common/stokes_map_impl.hpp", "src/stokes/common/stokes_map.hpp", "src/stokes/common/stokes_mesh_impl.hpp", "src/stokes/common/stokes_mesh.hpp", "src/stokes/ncfes/nc_stokes_mesh_impl.hpp"],
 [("coarse loops", "src/stokes/common/stokes_map_impl.hpp StokesCoarseMap::MapAdditionalDataA, MapAdditionalDataB"), ("contracted loops", "src/stokes/common/stokes_map_impl.hpp StokesContractMap::MapAdditionalData"), ("loops of a mesh", "src/stokes/common/stokes_mesh_impl.hpp StokesMesh::AddOrientedLoops, SetUpDOFedEdges, LoopBlocks"), ("data", "src/stokes/ncfes/nc_stokes_mesh_impl.hpp AttachedSED::map_data, src/stokes/common/stokes_mesh_impl.hpp AttachedSVD::map_data")],
 ["StokesCoarseMap", "StokesContractMap", "StokesMesh::AddOrientedLoops", "AttachedSED::map_data", "AttachedSVD::map_data"], "Bounds: 2D meshes of the nonconforming space, three graphs with 4 to 6 vertices, up to 3 ranks, prescribed agglomerates (agglomeration is C19), three sets of flow values with cancellation in no, one or both components; the mesh built from a finite element space, Dirichlet edges, prolongation and smoothers of the Stokes preconditioner are outside.")
prop("C21", "The Stokes potential space is divergence free and prolongation keeps it so",
 "On every level of the Stokes preconditioner the potential of an active loop is a velocity that lives exactly on the edges of the loop that have a degree of freedom, points along the flow of every edge and transports one unit of volume along the loop in its direction; inactive loops have no potential. The divergence matrix gives for every vertex of positive volume the flow out of the vertex divided by its volume and zero for other vertices, summed over the ranks, so that the divergence of every potential is zero; the transposed curl matrix is the transpose of the curl matrix. The prolongation between two levels gives every facet between two agglomerates the value of its coarse facet, reaches an edge inside an agglomerate from the facets of that agglomerate only, and the fine velocity has a divergence that is constant on every agglomerate and keeps the divergence of the coarse velocity; an agglomerate with an outflow facet inside gets a velocity without divergence.",
 ["inputs", "schedules"], "4 to 6 vertices, 3 or 4 loops, 1 to 3 ranks, all flow vectors of norm 1/4 or more (potentials), all connected agglomerates (prolongation)",
 "No test covers the Stokes part; a wrong sign, volume or row of the local problems needs a loop against the numbering of its edges, a vertex on another rank, or an agglomerate that contains a vertex without volume.",
 ["src/stokes/ncfes/nc_stokes_factory_impl.hpp", "src/stokes/common/stokes_factory_impl.hpp"],
 [("divergence and curl", "src/stokes/ncfes/nc_stokes_factory_impl.hpp NCStokesAMGFactory::BuildDivMat, BuildCurlMat"), ("prolongation", "src/stokes/ncfes/nc_stokes_factory_impl.hpp NCStokesAMGFactory::BuildPrimarySpaceProlongation"), ("dofs", "src/stokes/ncfes/nc_stokes_factory_impl.hpp NCStokesAMGFactory::BuildUDofs")],
 ["NCStokesAMGFactory::BuildDivMat", "NCStokesAMGFactory::BuildCurlMat", "NCStokesAMGFactory::BuildPrimarySpaceProlongation"], "Bounds: 2D meshes of the nonconforming space, three graphs with 4 to 6 vertices, 1 and 2 ranks (thorough: 3), no Dirichlet edges; potentials: flow vectors and a vertex volume are symbolic; prolongation: fixed flows and energies, a symbolic volume for agglomerates of up to 3 vertices, every agglomerate has a vertex of positive volume, the divergence of the coarse function is demanded where all vertices of the agglomerate have volume. HDiv spaces, 3D and the embedding into the finite element space are outside.")
