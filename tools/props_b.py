from props_a import prop as _p, P as _P0
P = []
def prop(*a, **k): n = len(_P0); _p(*a, **k); P.append(_P0.pop())
L = "src/lib/"
prop("C08", "Every degree of freedom has its own equation, constrained ones first",
 "Each (entity, type) degree of freedom that was registered exists once however often and in whatever order it was registered; constrained degrees of freedom get the equations 1..nc, the others nc+1..n, MPC equations n+1..n+m, each number used exactly once, and solutions and reactions are read and written at that equation.",
 "every registration order and repetition, every subset of constrained DoFs, every number of MPCs, within the bounds", "tests run complete solves with fixed numbering; a collision or gap shows up only for some registration orders and constraint subsets",
 [L + "Dof.cpp", L + "Dof.h", L + "FEStorage.cpp"], [("DoF table and numbering", L + "Dof.cpp: addDof; FEStorage.cpp: assignEquationNumbers")], ("inputs", "histories"))
prop("C09", "Global matrices are the exact sum of the element contributions",
 "After assembly every entry of K, C, M and F equals the sum of the element matrices and vectors (plus the MPC rows with their right-hand sides) mapped through the numbering, positions nobody contributes to are zero, every contribution an element may make has a place in the sparsity pattern, and assembling again gives the same matrices rather than accumulating.",
 "every mesh, DoF order, constraint subset and element matrix within the bounds", "tests compare solved displacements of whole models; mass assembly is not exercised at all",
 [L + "FEStorage.cpp", L + "FEStorage.h", L + "elements/element.h", L + "elements/element.cpp"], [("assembly", L + "elements/element.h: assembleK/C/M; FEStorage.cpp: initSolutionData, assembleGlobalEqMatrices")])
prop("C10", "A linear solve satisfies equilibrium, supports and constraints",
 "After LinearFESolver::solve every prescribed degree of freedom has exactly its prescribed value, every free equation satisfies K u = F + loads (several loads on a DoF add up), every MPC equation holds, reactions at the supports equal K u - F, elements are updated with the solution, and post-processors are called in order pre, process, post after that. A dump of the global system compares equal to itself and unequal to a changed system.",
 "every stiffness, load, prescribed value, support pattern and MPC within the bounds, every answer of the equation solver", "tests compare a few models with reference results at loose tolerances",
 [L + "FESolver.cpp", L + "FEStorage.cpp"], [("linear solution procedure", L + "FESolver.cpp: LinearFESolver::solve, applyBoundaryConditions")])
prop("C11", "The nonlinear solve follows the load path and only accepts converged states",
 "NonlinearFESolver::solve applies loads and prescribed values in proportion to the normalised time in equal load steps up to the full value; every iteration solves the balance of the current state (prescribed increments only once), free values accumulate the corrections, reactions balance the internal forces, elements are updated after every iteration and post-processors called after every step. A step is accepted only when the mean correction is below the criterion; a run that diverges or uses up its iterations ends in an error instead of a result.",
 "every stiffness, load, prescribed value, support pattern, number of steps and iterations and every sequence of solver answers within the bounds", "tests run a few converging models with loose tolerances",
 [L + "FESolver.cpp"], [("incremental Newton procedure", L + "FESolver.cpp: NonlinearFESolver::solve, calculateCriteria")], ("inputs", "histories"))
prop("C12", "Time control reaches the end time exactly in valid steps",
 "Time starts at the start time, increases in steps never longer than requested and never past the end time, and reaches the end time exactly; the remainder is split evenly rather than leaving a small last step; a constant increment takes the least possible number of steps; the increment is reported in the first equilibrium iteration of a step only and the counters of steps and iterations match the calls made.",
 "every start, end, sequence of increments and iterations within the bounds", "the only test runs one fixed sequence starting at zero",
 [L + "FESolver.cpp", L + "FESolver.h"], [("TimeControl", L + "FESolver.cpp: TimeControl::nextStep")], ("inputs", "histories"))
prop("C13", "The transient solver integrates M a + C v + K u = F by the Newmark scheme",
 "At the end of every time step the state of LinearTransientFESolver satisfies the dynamic balance M a + C v + K u = F + R on every free equation (with prescribed values acting on it), MPC equations hold, prescribed values are constant, and displacement, velocity and acceleration follow the Newmark relations for the given alpha and delta from the previous state; the first state is the initial value at rest, and exactly the requested number of steps is made.",
 "every mass, damping, stiffness, load, alpha, delta, interval, support pattern and solver answer within the bounds; every step count up to 60", "one test runs a thermal transient with default parameters and no prescribed values",
 [L + "FESolver.cpp"], [("Newmark integration", L + "FESolver.cpp: LinearTransientFESolver::solve")], ("inputs", "histories"))
prop("C14", "A rigid body constraint makes its nodes move as a rigid body",
 "For each slave node and constrained DoF of RigidBodyMpc there is exactly one equation; at any configuration its right-hand side is the gap between the slave's displacement and the displacement of a rigid body with the master's translation and finite rotation vector, and its coefficients are the derivative of that gap, so that the Newton procedure converges to rigid motion; small rotations agree with the exact formula.",
 "every node positions, displacements and rotation vector, and DoF subsets within the bounds", "no test builds a rigid body constraint",
 [L + "Mpc.cpp", L + "Mpc.h"], [("rigid body equations", L + "Mpc.cpp: RigidBodyMpc::pre, update")])
prop("C15", "Isoparametric elements integrate and differentiate exactly what they promise",
 "Shape functions of line, quadrilateral and hexahedron interpolate at their nodes, sum to one and reproduce linear fields; their derivatives are their derivatives; the n-point rules integrate every polynomial up to degree 2n-1 per variable exactly; on every non-degenerate element the Jacobian and the global gradients reproduce linear fields, and the volume is the length, area or volume.",
 "every local point, every polynomial of the degree, every node position within the bounds", "tests check interpolation at a few points of one element and never distorted gradients",
 [L + "elements/isoparametric.cpp", L + "elements/isoparametric.h"], [("Gauss rules, shape functions, makeJacob", L + "elements/isoparametric.cpp")])
prop("C16", "Hyperelastic stress and tangent derive from the strain energy",
 "For Neo-Hookean, Mooney-Rivlin and Biderman materials the reported energy derivatives are the derivatives of the energy, the second Piola-Kirchhoff stress is twice the derivative of energy plus pressure work with respect to C, the tangent is the derivative of that stress, and the invariants, volume ratio, inverse and Green strain of C are what they claim to be; the formulation that is not available stops instead of returning nothing.",
 "every deformation, pressure and material constants within the bounds, every list of components from the harness menu", "tests run two finite-strain models against reference results",
 [L + "materials/materials_hyperelastic.cpp", L + "solidmech.cpp"], [("stress and tangent", L + "materials/materials_hyperelastic.cpp: getS_UP, getDdDp_UP; solidmech.cpp")])
prop("C17", "Factories and entity tables give exactly what was asked for",
 "Every element and material name creates an object of the class it names with the right number of nodes, shape, constants, consecutive number and owner; unknown names create nothing; node, element and component tables return the entity that was put there; material constants are read and written by name or number; deformed positions add exactly the displacements that exist.",
 "every name up to 14 characters, every type, batch sizes and contents within the bounds", "tests create a few element types and never look up unknown names",
 [L + "elements/ElementFactory.cpp", L + "materials/MaterialFactory.cpp", L + "materials/material.cpp", L + "FEStorage.cpp", L + "FEComponent.cpp"], [("factories", L + "elements/ElementFactory.cpp, materials/MaterialFactory.cpp"), ("entity tables", L + "FEStorage.cpp: createNodes, createElements, getNodePosition")])
prop("C18", "Models can be solved again, deleted and rebuilt without leaks or stale data",
 "Whatever a model contains and whichever analysis ran, deleting its parts in any order and destroying it frees every object exactly once and leaves nothing on the heap; a second solution on the same model gives what a fresh model gives; post-processors are numbered, reported and destroyed by their solver.",
 "every model content, analysis type and delete order within the bounds", "tests run one analysis per process and never delete a mesh",
 [L + "FEStorage.cpp", L + "FESolver.cpp", L + "Mpc.cpp", L + "PostProcessor.h", L + "PostProcessor.cpp"], [("teardown", L + "FEStorage.cpp: ~FEStorage, delete*; FESolver.cpp: deletePostProcessors")], ("inputs", "histories"))
