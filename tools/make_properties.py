#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NOTEST="The 11 stable tests only parse two material strings, check one 3x3 inverse and three node-to-face projections; nothing here is exercised."

prop("C01","Input deck: what is written is what is configured",
 "For every input deck made of the documented keywords - in any order, with comments, blank or whitespace-only lines, any spacing around keys and values, and lines of any length - the run is configured with exactly the values written, the last of repeated scalar keywords wins, boundary conditions accumulate in order, and everything omitted keeps its documented default. "
 "An unknown keyword, an unreadable file, or an invalid value of a yes/no or contact-visualization keyword is reported as an error and never crashes or hangs the reader.",
 ["inputs","configurations"],"all decks over the documented keywords and their permutations/spacings/comments, plus corrupted decks",
 NOTEST+" No test reads a deck.",
 ["src/nimble_parser.cc","src/nimble_parser.h"],
 [("line reading, comment and whitespace stripping","src/nimble_parser.cc Parser::ReadFile"),("keyword dispatch and defaults","src/nimble_parser.cc Parser::ParseKeyValue, Parser::Parser"),("block line splitting","src/nimble_parser.cc BlockProperties")],
 ["Parser accessors after Initialize()"])

prop("C02","Boundary-condition expressions evaluate to ordinary arithmetic",
 "For every well-formed expression in x, y, z and t over numbers, + - * / ^, unary minus, parentheses, the supported functions, comparisons, logical operators and the conditional operator, evaluation returns the value ordinary mathematics assigns it (usual precedence, + - * / and parenthesised % left to right, repeated powers from the right; ^ is a power between numbers and an exclusive or between conditions), at any point and time and however often it is re-evaluated. "
 "A malformed expression never reads or writes out of bounds.",
 ["inputs","programs"],"all expressions of the documented grammar, all (x,y,z,t); malformed strings for the memory-safety half",
 NOTEST+" The expression engine has no test at all.",
 ["src/nimble_expression_parser.cc","src/nimble_expression_parser.h"],
 [("recursive-descent compilation to an evaluation tree","src/nimble_expression_parser.cc"),("constant folding / memory manager for tree nodes","src/nimble_expression_parser.h")],
 ["ExpressionParsing::BoundaryConditionFunctor::eval"])

prop("C03","Initial and boundary conditions act exactly where and how they are written",
 "An initial velocity, prescribed velocity or prescribed displacement acts on exactly the nodes of the set it names and on the named component, with the value its number or expression has at that node's reference position and the current time (initial velocities: at time zero); every other degree of freedom is bit-for-bit unchanged. Of several conditions on the same degree of freedom the last one counts. A condition that names an unknown kind or component, or has unpaired quotes, is rejected. "
 "The linear-system rows, columns and right-hand-side entries that a kinematic condition fixes are exactly those of the same degrees of freedom.",
 ["inputs","configurations"],"all meshes with node sets, condition lists, times, step sizes and 2D/3D component names",
 NOTEST,
 ["src/nimble_boundary_condition.cc","src/nimble_boundary_condition_manager.cc","src/nimble_boundary_condition_manager.h"],
 [("command string to condition record","src/nimble_boundary_condition.cc BoundaryCondition::Initialize"),("application to displacement/velocity","src/nimble_boundary_condition_manager.h ApplyInitialConditions/ApplyKinematicConditions"),("matrix/rhs modification","src/nimble_boundary_condition_manager.h ModifyTangentStiffnessMatrixForKinematicBC/ModifyRHSForKinematicBC")],
 ["displacement, velocity, matrix and rhs arrays after the call"])

prop("C04","3x3 tensor kernels agree with their mathematical definitions",
 "For every well-conditioned 3x3 input the tensor kernels return what their definition says: products, transposes, determinants, inverses and their component ordering are exact to rounding, symmetric eigen-decompositions reconstruct the input with mutually orthogonal unit axes, polar decompositions return a proper rotation times a symmetric positive-definite stretch that multiply back to the input, and logarithms invert exponentials. "
 "The inverse of a tensor with positive determinant times the tensor is the identity.",
 ["inputs"],"all 3x3 tensors with condition number up to the stated bound, including repeated eigenvalues, near-singular, tiny and huge scales",
 "One stable test checks one 3x3 inverse.",
 ["src/nimble_utils.h","src/nimble_linear_solver.cc"],
 [("component index tables","src/nimble_utils.h K_F_XX.., K_S_XX.."),("Invert/Polar/Eigen/Log kernels","src/nimble_utils.h")],
 ["kernel outputs"])

prop("C05","Constitutive response: symmetric, objective, isotropic, stress-free at rest",
 "For every admissible material parameter set and every deformation with positive determinant, the finite-strain material's stress is symmetric, vanishes at the undeformed state, rotates with a superposed rotation, is indifferent to a rotation of the reference configuration, and is the derivative of a stored energy; the small-strain material returns the Hookean stress of the symmetric strain. "
 "Both reduce to the same linear elastic law with the given bulk and shear modulus for small strain, every integration point is treated alike, and the state-free kernels for views and raw arrays give the same stress.",
 ["inputs","configurations"],"all (density, bulk, shear) and all deformation gradients with positive determinant in a wide stretch range, any number of integration points",
 "Stable tests evaluate the materials' parameter parsing and a handful of stresses.",
 ["src/nimble_material.cc","src/nimble_material.h"],
 [("elastic stress","src/nimble_material.cc ElasticMaterial::GetStress"),("neo-Hookean stress","src/nimble_material.cc NeohookeanMaterial::GetStress"),("tangents","src/nimble_material.cc GetTangent/GetOffNominalStress")],
 ["stress arrays returned for given deformation gradients"])

prop("C06","Hexahedral element: kinematics and internal force are exact and balanced",
 "For every admissible hexahedron, any affine motion gives exactly its constant deformation gradient at all integration points, the nodal forces of any stress field have zero resultant and - for a symmetric stress - zero moment about any point, do the virtual work of the stress (so they are the energy gradient for a hyperelastic material), and rotate with the element. "
 "Volume averages are the volume-weighted means of the integration-point values and the reported volume is the element's volume.",
 ["inputs"],"all non-degenerate (distorted, scaled, translated) hexahedra, displacement fields and stress fields",
 NOTEST,
 ["src/nimble_element.cc","src/nimble_element.h"],
 [("shape functions, quadrature, Jacobian","src/nimble_element.cc HexElement::HexElement, src/nimble_element.h ShapeFunctionDerivatives"),("deformation gradient and internal force","src/nimble_element.h ComputeDeformationGradients_impl, ComputeNodalForces_impl"),("volume and averages","src/nimble_element.h ComputeVolume_impl, ComputeVolumeAverageQuantities_impl")],
 ["element outputs for host arrays and views"])

prop("C07","Lumped mass conserves mass; critical time step follows wave speed",
 "The lumped mass of a model is positive at every connected node and sums over all nodes, blocks and ranks to density times reference volume, split per element exactly by the consistent mass row sums, for any mesh and any assignment of densities to blocks. "
 "The reported critical time step is the smallest characteristic element length divided by the bulk wave speed (square root of bulk modulus over density) of its block's material and scales linearly with mesh size, wherever the mesh sits in space.",
 ["inputs","configurations"],"all hexahedral meshes, positions, block partitions and material parameters",
 NOTEST,
 ["src/nimble_element.cc","src/nimble_block.cc","src/nimble_block_base.cc","src/nimble_kokkos_block.cc","src/nimble_kokkos_model_data.cc","src/nimble_model_data.cc"],
 [("row-sum lumping","src/nimble_element.cc HexElement::ComputeLumpedMass"),("characteristic length","src/nimble_element.cc ComputeCharacteristicLength"),("assembly and critical time step","src/nimble_block.cc, src/nimble_block_base.cc, src/nimble_kokkos_model_data.cc ComputeLumpedMass")],
 ["lumped mass vectors, critical time step"])

prop("C08","Tangent stiffness is the derivative of the internal force",
 "For a small-strain elastic material the assembled tangent stiffness equals the derivative of the internal force with respect to the nodal displacements about the undeformed state, is symmetric, annihilates rigid translations (and infinitesimal rotations), is positive semi-definite, and is assembled into exactly the rows and columns of the owning unknowns. "
 "It is independent of element ordering and additive over blocks.",
 ["inputs","configurations"],"all meshes, block partitions, material parameters and unknown numberings",
 NOTEST,
 ["src/nimble_element.cc","src/nimble_block.cc","src/nimble_material.cc"],
 [("element tangent","src/nimble_element.cc HexElement::ComputeTangent"),("scatter into sparse matrix","src/nimble_block.cc Block::ComputeTangentStiffnessMatrix"),("finite-difference material tangent","src/nimble_material.cc NeohookeanMaterial::GetTangent")],
 ["assembled matrix"])

prop("C09","Linear algebra: sparse storage and solvers return true solutions",
 "Every value stored in the sparse matrix is read back at exactly its row and column, zeros elsewhere, matrix-vector products equal the dense product, and for every symmetric positive-definite system the iterative solver, and for every nonsingular system the direct solver, returns a vector whose residual is at the requested tolerance; a singular system is reported as such. "
 "Rows without entries, diagonal matrices and single-row matrices are no exception, and products and solves leave their inputs as specified.",
 ["inputs"],"all sparsity patterns, insertion orders, SPD and general systems with bounded condition number",
 NOTEST,
 ["src/nimble_linear_solver.cc","src/nimble_linear_solver.h"],
 [("compressed rows with binary search","src/nimble_linear_solver.cc CRSMatrixContainer"),("conjugate gradients with diagonal preconditioner","src/nimble_linear_solver.cc CG_SolveSystem"),("LU with partial pivoting","src/nimble_linear_solver.cc LU_Decompose/LU_Solve")],
 ["solution vectors, matrix entries"])

prop("C10","Mesh reading reproduces the mesh file",
 "Reading any supported mesh file yields exactly its node coordinates, global node and element numbers, blocks with names and connectivity, node sets, the elements and names of side sets, and node-set distribution factors, regardless of block numbering, set contents, unnamed entities, or absence of distribution factors. "
 "Derived data (characteristic sizes, bounding box, per-block connectivity access, text-format write and read back) agree with the file contents.",
 ["inputs"],"all meshes within the supported element types, with arbitrary ids, names, sets (empty, with or without distribution factors) and numberings",
 NOTEST+" No test opens a mesh.",
 ["src/nimble_genesis_mesh.cc","src/nimble_genesis_mesh.h","src/nimble_mesh_utils.cc"],
 [("Exodus reader","src/nimble_genesis_mesh.cc GenesisMesh::ReadFile"),("text reader/writer","src/nimble_genesis_mesh.cc ReadTextFile, src/nimble_exodus_output.cc InitializeDatabaseTextFile"),("bounding box","src/nimble_genesis_mesh.cc GenesisMesh::BoundingBox")],
 ["mesh accessors versus the generating model"])

prop("C11","Field bookkeeping: labels, lengths, storage and copies",
 "Every field kind has as many components as its dimension says, component labels are unique, in storage order, and integration-point prefixes added to a label are recovered and removed exactly. "
 "Fields and their old/new states, once allocated, keep the values last written to them, are disjoint from every other field, and reading gather/scatter through connectivity touches exactly the addressed node entries.",
 ["inputs","histories"],"all field kinds, dimensions, label strings, integration-point counts and allocate/write/copy histories",
 NOTEST,
 ["src/nimble_data_utils.cc","src/nimble_data_utils.h","src/nimble_kokkos_model_data.cc","src/nimble_model_data.cc","src/nimble_view.h"],
 [("component labels and lengths","src/nimble_data_utils.cc"),("field allocation and lookup","src/nimble_kokkos_model_data.cc AllocateNodeData/AllocateElementData/AllocateIntegrationPointData"),("gather/scatter","src/nimble_kokkos_model_data.cc GatherVectorNodeData/ScatterVectorNodeData"),("N/N+1 swap","src/nimble_model_data.h SwapStates, src/nimble_kokkos_model_data.cc UpdateStates")],
 ["labels and array contents"])

prop("C12","Output file: the mesh, exactly the requested fields, and their values",
 "The output database contains the input mesh (coordinates, connectivity, ids, block names, node sets) and one time-stamped record per requested output, and each requested field appears under its component names with the values the model holds at that time: nodal quantities per node, element quantities per block as volume averages or at the named integration point. "
 "Fields that were not requested do not appear, and values do not depend on the order or combination of the requested fields.",
 ["inputs","configurations"],"all meshes, block structures and subsets/orders of output fields",
 NOTEST,
 ["src/nimble_exodus_output.cc","src/nimble_kokkos_model_data.cc","src/nimble_model_data.cc"],
 [("database initialisation and step writing","src/nimble_exodus_output.cc"),("field selection and derived element data","src/nimble_kokkos_model_data.cc InitializeExodusOutput/WriteExodusOutput/ComputeDerivedElementData")],
 ["the exodus file read back with an independent reader"])

prop("C13","Explicit dynamics computes the velocity-Verlet solution",
 "For every mesh, material assignment, initial and boundary condition, time range and step count, the displacement, velocity, internal-force, stress, deformation-gradient and volume histories of an explicit run equal the central-difference (velocity Verlet) solution of the lumped-mass finite element equations with the prescribed values imposed, to rounding. "
 "In particular the trajectory does not depend on what is written to output.",
 ["inputs","configurations","histories"],"all hexahedral models (multi-block, multi-material, distorted) with any mix of conditions, over multi-step histories",
 NOTEST+" The repository's regression decks compare a few stored runs and are not among the stable tests.",
 ["src/integrators/explicit_time_integrator.cc","src/nimble_kokkos_model_data.cc","src/nimble_kokkos_block_material_interface.cc","src/nimble_element.cc","src/nimble_material.cc"],
 [("time loop","src/integrators/explicit_time_integrator.cc ExplicitTimeIntegrator::Integrate"),("internal force evaluation","src/nimble_kokkos_model_data.cc ComputeInternalForce")],
 ["output database against an independent implementation"])

prop("C14","Conservation laws of free motion",
 "A body with no boundary conditions keeps its total linear momentum exactly (to rounding) and its angular momentum and total energy to the accuracy of the scheme, a uniform translation at constant velocity produces no internal force or stress and moves every node by velocity times time, and two bodies that do not touch do not influence each other. "
 "This holds for any mesh, material mix and initial velocity field.",
 ["inputs","histories"],"all free bodies, materials, initial velocity fields and step histories below the stable step",
 NOTEST,
 ["src/integrators/explicit_time_integrator.cc","src/nimble_kokkos_model_data.cc","src/nimble_element.cc","src/nimble_block.cc"],
 [("internal force assembly","src/nimble_kokkos_model_data.cc ComputeInternalForce, ScatterVectorNodeData"),("time loop","src/integrators/explicit_time_integrator.cc")],
 ["nodal velocities, displacements, forces in the output"])

prop("C15","Results do not depend on numbering, block splitting, placement or units",
 "Renumbering or reordering nodes and elements, changing block/node-set ids and listing order, splitting a block into several with the same material, translating or axis-permuting the whole model, or changing units consistently changes the computed histories only by the same transformation (to rounding). "
 "Repeating an identical run gives identical output.",
 ["inputs","configurations"],"all models and all such transformations",
 NOTEST,
 ["src/nimble_genesis_mesh.cc","src/nimble_kokkos_model_data.cc","src/nimble_boundary_condition_manager.cc","src/integrators/explicit_time_integrator.cc"],
 [("id maps and block loops","src/nimble_genesis_mesh.cc, src/nimble_kokkos_model_data.cc"),("node-set lookup","src/nimble_boundary_condition_manager.cc")],
 ["pairs of output databases"])

prop("C16","Quasistatic steps end in equilibrium or say so",
 "When the quasistatic solver reports a converged load step, the internal forces balance at every unconstrained degree of freedom to the requested relative tolerance, prescribed displacements hold exactly, and for linear elastic problems the solution equals the direct solution of the linear system. "
 "When it cannot converge it reports failure instead of continuing with an unbalanced state.",
 ["inputs","configurations","histories"],"all elastic models with enough constraints, load histories, tolerances and iteration limits",
 NOTEST,
 ["src/integrators/quasistatic_time_integrator.cc","src/nimble_linear_solver.cc","src/nimble_boundary_condition_manager.h"],
 [("Newton loop","src/integrators/quasistatic_time_integrator.cc QuasistaticTimeIntegrator::Integrate"),("residual","src/integrators/quasistatic_time_integrator.cc ComputeQuasistaticResidual")],
 ["displacement and internal force at the end of each load step"])

prop("C17","Parallel runs give the serial answer",
 "Running a decomposed model on any number of ranks, with any partition of its elements, gives at every node and element of every rank the serial result (to rounding), and nodes shared by several ranks carry identical values on all of them, for the native and the Tpetra communication back end alike.",
 ["inputs","configurations","schedules"],"all models, all element partitions over 1..N ranks (including ranks owning few elements, absent blocks and absent node sets), both back ends",
 NOTEST+" The stable tests run in a single process.",
 ["src/nimble_vector_communicator.h","src/nimble.mpi.reduction.cc","src/nimble_tpetra_utils.cc","src/integrators/explicit_time_integrator.cc","src/nimble_kokkos_model_data.cc"],
 [("shared-node reduction","src/nimble.mpi.reduction.cc, src/nimble.mpi.rank_clique_reducer.h"),("Tpetra import/export","src/nimble_tpetra_utils.cc"),("per-rank mesh and output names","src/nimble_parser.cc IOFileName")],
 ["per-rank output databases against the serial one"])

prop("C18","Shared-node reduction sums over exactly the sharing ranks",
 "For any assignment of global nodes to ranks, reducing a per-node scalar, vector or other fixed-width field leaves at every node the sum over all ranks holding that node and nothing else, identical on all holders and independent of the numbering; each rank-sharing group is discovered exactly once and every shared node has exactly one owner.",
 ["inputs","schedules"],"all assignments of node ids to ranks (sparse, negative-free 32-bit ids, empty overlaps, all-shared), field widths and repeated reductions",
 NOTEST+" No stable test runs more than one rank.",
 ["src/nimble.mpi.reduction.cc","src/nimble.mpi.reduction.h","src/nimble.mpi.reduction_utils.cc","src/nimble.mpi.rank_clique_reducer.h","src/nimble_vector_communicator.h","src/nimble_tpetra_utils.cc"],
 [("discovery of shared nodes and cliques","src/nimble.mpi.reduction.cc GenerateReductionInfo"),("reduction","src/nimble.mpi.rank_clique_reducer.h ReductionClique_t::asyncreduce_*"),("ownership","src/nimble.mpi.reduction.cc ReductionInfo::GetAllIndices")],
 ["field arrays on every rank"])

prop("C19","Message packing and collectives deliver what was sent",
 "Packing any supported nested combination of numbers, strings and containers and unpacking it returns an equal value and consumes exactly the packed bytes, and the gather/scatter/broadcast/point-to-point helpers deliver to each rank exactly the values, counts and order that were sent, including empty contributions.",
 ["inputs","schedules"],"all values of the supported types, all per-rank lengths including zero, all roots",
 NOTEST,
 ["src/nimble.mpi.serialization.h","src/nimble.mpi.mpicontext.h","src/nimble.quanta.arrayview.h","src/nimble.quanta.h"],
 [("pack/unpack","src/nimble.mpi.serialization.h"),("collective wrappers","src/nimble.mpi.mpicontext.h"),("array views over partitions","src/nimble.quanta.arrayview.h")],
 ["values received"])

prop("C20","Contact surface extraction is exactly the exposed boundary",
 "The contact surface extracted from any set of blocks consists of exactly the element faces that belong to one element of those blocks across all ranks, each once, oriented outward, with a unique entity id that identifies its element and face; the contact nodes are exactly the nodes of the secondary surface, and each face is split into four triangles around its centre that tile it.",
 ["inputs","configurations"],"all hexahedral meshes, block selections and rank decompositions",
 "Stable tests cover three projections of a node onto a hand-made face.",
 ["src/nimble_contact_manager.cc","src/nimble_contact_entity.h"],
 [("face counting","src/nimble_contact_manager.cc ContactManager::SkinBlocks"),("cross-rank removal","src/nimble_contact_manager.cc RemoveInternalSkinFaces"),("triangulation","src/nimble_contact_manager.cc CreateContactNodesAndFaces")],
 ["skin faces, entity ids, contact entities"])

prop("C21","Node-to-face projection is the true perpendicular projection",
 "For every non-degenerate triangle and point, the reported gap is the signed distance to the face plane along the outward unit normal, the barycentric coordinates are those of the perpendicular foot and sum to one, contact is reported exactly when the foot lies in the triangle and the point lies within the stated depth behind it, and the closest-point query returns the nearest point of the triangle; results move with the configuration under rotation and translation and do not depend on the vertex the face starts from.",
 ["inputs"],"all triangles (any orientation, size, aspect up to the stated bound) and points in, on, above, below and beside them",
 "Three hand-made configurations of one triangle are tested.",
 ["src/nimble_contact_manager.cc","src/nimble_contact_entity.h"],
 [("perpendicular projection","src/nimble_contact_manager.cc ContactManager::Projection"),("closest point","src/nimble_contact_manager.cc SimpleClosestPointProjectionSingle, ClosestPointProjectionSingle")],
 ["projection outputs"])

prop("C22","Contact forces are balanced, repulsive and penalty-proportional",
 "For any penetrating node-face pair, the enforced forces are equal and opposite in total, have no net moment, act along the face normal so as to separate the bodies, are proportional to penalty and penetration depth, are distributed over the face's mesh nodes by the contact point's position, and touch no other node; separated pairs get no force. "
 "Contact entities follow the current node positions, and forces end up at exactly the model nodes they belong to.",
 ["inputs","configurations"],"all node/face pairs, penalties, depths and node numberings",
 "Stable tests check projections only; no force is ever evaluated.",
 ["src/nimble_contact_entity.h","src/nimble_contact_manager.h","src/nimble_contact_manager.cc","src/nimble_contact_interface.h"],
 [("penalty force and scatter","src/nimble_contact_manager.h PenaltyContactEnforcement::EnforceContact"),("nodal distribution","src/nimble_contact_entity.h SetNodalContactForces, ScatterForceToContactManagerForceVector"),("model <-> contact numbering","src/nimble_contact_manager.cc ApplyDisplacements/GetForces")],
 ["contact force vector"])

prop("C23","Contact entities: bounding boxes contain, messages round-trip, commands parse",
 "Every contact entity's bounding box contains its current geometry with the stated margin at all times, a face packed for another rank arrives with identical geometry, ids and box, and a contact command line is understood as exactly the block names and penalty it lists.",
 ["inputs","histories"],"all entities, displacement updates, message batches and contact commands",
 "No stable test reads a contact command or a box.",
 ["src/nimble_contact_entity.cc","src/nimble_contact_entity.h"],
 [("bounding boxes","src/nimble_contact_entity.cc ContactEntity::SetBoundingBox"),("packing","src/nimble_contact_entity.h SerializeContactFaces/UnserializeContactFaces"),("command parsing","src/nimble_contact_entity.cc ParseContactCommand")],
 ["entity fields"])

prop("C24","Reference and performance-portable model data compute the same mechanics",
 "The host model-data path and the performance-portable path compute the same internal force, lumped mass, critical time step, stress, deformation gradient and volume averages for the same mesh, materials and displacements, to rounding.",
 ["inputs","configurations"],"all meshes, block/material assignments and displacement fields",
 NOTEST,
 ["src/nimble_model_data.cc","src/nimble_block.cc","src/nimble_kokkos_model_data.cc","src/nimble_kokkos_block.cc","src/nimble_kokkos_block_material_interface.cc"],
 [("host path","src/nimble_model_data.cc, src/nimble_block.cc"),("portable path","src/nimble_kokkos_model_data.cc, src/nimble_kokkos_block_material_interface.cc")],
 ["both paths' arrays"])

prop("C25","Material definitions: parameters used are the parameters given",
 "For every material line of supported materials, each parameter takes exactly the value given in any order, all required parameters must be present and unknown names are rejected with an error, and the created material reports those density, bulk and shear values; no material line makes the reader crash or read past its input.",
 ["inputs","configurations"],"all parameter lists: orders, spacings, missing, extra, repeated, odd token counts, unknown materials",
 "Stable tests parse two well-formed lines.",
 ["src/nimble_material_factory.cc","src/nimble_material_factory_base.cc","src/nimble_kokkos_material_factory.cc","src/nimble_material.h"],
 [("tokenising and validation","src/nimble_material_factory_base.cc ParseMaterialParametersStringBase"),("creation","src/nimble_material_factory.cc, src/nimble_kokkos_material_factory.cc")],
 ["MaterialParameters and material accessors"])

prop("C26","File naming: every rank opens its own, predictable file",
 "For any base name, label, rank and rank count, the serial name is the base with only its trailing mesh suffix replaced by the label and extension, the parallel name appends the rank count and the rank zero-padded to the same width, and names of different ranks are different.",
 ["inputs","configurations"],"all base names (with dots, directories, spaces), labels and rank counts",
 NOTEST,
 ["src/nimble_parser.cc"],
 [("file name composition","src/nimble_parser.cc IOFileName, IOFileNameThreadSafe")],
 ["returned names"])

prop("C27","Run control: output cadence, times, exit status",
 "A run writes the initial state, then the first step and every output-frequency-th step after it (steps counted from zero), and the final step, each once and stamped with initial time plus completed steps times the step size; with frequency zero only the initial state is written. "
 "A run that completes exits with status zero, and a run whose deck, mesh or conditions are unusable ends with a message and non-zero status, rather than hanging or silently producing results. "
 "Options and the input file may stand in any order, an option that is not built in is refused, and asking for help prints it, runs nothing and ends with status zero.",
 ["inputs","configurations","fault_sequences"],"all time ranges, step counts, frequencies; injected faults: missing/corrupt files, unknown names, invalid values",
 NOTEST+" No stable test starts the executable.",
 ["src/nimble.cc","src/nimble_cli.cc","src/integrators/explicit_time_integrator.cc","src/nimble_data_manager.cc"],
 [("application flow","src/nimble.cc NimbleApplication::Run"),("cadence","src/integrators/explicit_time_integrator.cc"),("options","src/nimble_cli.cc")],
 ["exit status and output database of the executable"])

prop("C28","Index-space utilities partition exactly",
 "Grouping equal consecutive keys yields the maximal runs in order; packing scattered ids into a dense id space gives equal ids equal numbers and distinct ids distinct numbers that cover the dense range; splitting an array by counts yields consecutive disjoint views that cover it; and interval, array and strided views address exactly the elements their bounds and strides name. String comparison, containment and file-name helpers are exact.",
 ["inputs"],"all range lengths, rank counts, key sequences and view bounds",
 NOTEST,
 ["src/nimble.mpi.reduction_utils.cc","src/nimble.mpi.reduction_utils.h","src/nimble.quanta.arrayview.h","src/nimble.quanta.h"],
 [("id-space packing and grouping","src/nimble.mpi.reduction_utils.cc"),("views","src/nimble.quanta.arrayview.h")],
 ["returned partitions"])

prop("C29","Materials with history are handed exactly their own past",
 "At every stress evaluation a material receives the previous and current time, deformation gradient and stress of that element's integration point, and the state variables exactly as the material left them at the end of the previous accepted step; at the start of a run these are the identity, zero stress and the declared initial values. "
 "What a step computes is what the next one starts from and what the files of that time show, in the host, the portable and the quasistatic scheme, whatever other blocks and materials are present.",
 ["inputs","configurations","histories"],"all materials with scalar, vector and tensor state, block mixtures, step histories and output requests",
 "Stable tests evaluate one stateless material once.",
 ["src/nimble_kokkos_block_material_interface.cc","src/nimble_kokkos_model_data.cc","src/nimble_block.cc","src/nimble_model_data.cc","src/nimble_kokkos_block.cc"],
 [("handing over old and new data","src/nimble_kokkos_block_material_interface.cc ComputeStress; src/nimble_block.cc Block::ComputeInternalForce"),("end of a step","src/nimble_kokkos_model_data.cc UpdateStates; src/nimble_model_data.cc UpdateStates"),("initial values","src/nimble_block.cc InitializeElementData; src/nimble_kokkos_model_data.cc")],
 ["arguments of Material::GetStress and the output database"])

prop("C30","Runs stay within their memory and depend on nothing but their input",
 "No run - valid or rejected, serial or parallel, portable, host or quasistatic, with or without contact - reads or writes outside its arrays, uses freed storage or does arithmetic the language leaves undefined, and neither do the element, material, solver, communication and contact operations it is made of. "
 "The same deck and mesh give bit-identical files whatever memory held before and whatever ran before in the process.",
 ["inputs","configurations","histories","fault_sequences"],"all models, schemes, rank counts, output requests and defective inputs",
 "Stable tests run none of it, and without instrumentation.",
 ["src/nimble.cc","src/nimble_data_manager.cc","src/nimble_kokkos_model_data.cc","src/nimble_model_data.cc","src/nimble_block.cc","src/nimble_kokkos_block.cc","src/nimble_contact_manager.cc","src/nimble_genesis_mesh.cc","src/nimble_exodus_output.cc","src/nimble_linear_solver.cc","src/nimble.mpi.serialization.h"],
 [("whole runs","src/nimble.cc NimbleApplication::Run"),("field storage","src/nimble_kokkos_model_data.cc; src/nimble_model_data.cc"),("contact storage","src/nimble_contact_manager.cc")],
 ["sanitizer reports; bytes of the output databases"])

prop("C31","What a run reports about itself is true",
 "The report of a run agrees with the run: the numbers of nodes, elements, blocks, ranks, contact facets and contact nodes are those of the mesh and the launch; the time step is the one asked for and the stable time step that of the mesh and materials over all ranks, with the warning exactly when the former exceeds the latter; progress ascends from 0 to 100 percent through completed steps only; each rank's count of steps in contact is the number of steps in which one of its faces was touched. "
 "A quasistatic run reports each step once with its time, length and tolerance and each iteration with its residual, iterates only above the tolerance, ends a step only within it, and reports completion or failure exactly as its status says. One timing file, naming the rank count and agreeing with the printed times, is written exactly when asked for; parts of a time do not exceed the whole.",
 ["inputs","configurations","histories"],"all models, schemes, contact settings, rank counts and partitions",
 "No stable test runs the application or reads its output.",
 ["src/nimble.cc","src/integrators/explicit_time_integrator.cc","src/integrators/quasistatic_time_integrator.cc","src/nimble_contact_manager.cc","src/nimble_timing_utils.cc","src/nimble_profiling_timer.h"],
 [("report of an explicit run","src/integrators/explicit_time_integrator.cc Integrate"),("report of a quasistatic run","src/integrators/quasistatic_time_integrator.cc Integrate"),("faces in contact","src/nimble_contact_manager.cc numActiveContactFaces"),("timing file","src/nimble_timing_utils.cc BinaryWrite")],
 ["standard output of every rank; the timing file"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
