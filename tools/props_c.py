from props_a import prop as _p, P as _P0
P = []
NA = {}
def prop(*a, **k): n = len(_P0); _p(*a, **k); P.append(_P0.pop())
L = "src/lib/"
prop("C19", "The truss element is an axial bar",
 "TRUSS3 has the stiffness E A / L along its axis and none across it for any orientation, symmetric, giving no force under rigid translation; its reported stress is E times the elongation per length of the current displacements however often it is updated, and bars meeting at a node superpose.",
 "every end positions, stiffness, area, displacements and constrained subset within the bounds", "tests run one fixed truss",
 [L + "elements/TRUSS3.cpp", L + "elements/TRUSS3.h"], [("truss stiffness and stress", L + "elements/TRUSS3.cpp: buildK, update")])
prop("C20", "The plane triangle is the constant strain triangle",
 "TRIANGLE4 stiffness equals area times B^T D B with the plane stress or plane strain elasticity of E and nu, so that any affine displacement field gives the nodal forces of its constant stress and rigid motion gives none; reported strains and stresses are those of the current displacements after any number of updates.",
 "every counter-clockwise triangle, elastic constants, nodal displacements, plane state and constrained subset within the bounds", "tests run one plane model",
 [L + "elements/TRIANGLE4.cpp", L + "elements/TRIANGLE4.h"], [("constant strain triangle", L + "elements/TRIANGLE4.cpp: buildK, update, makeC, makeB")])
prop("C21", "The tetrahedra are exact for linear fields",
 "TETRA0 stiffness gives, for every affine displacement field, the nodal forces of the constant stress of isotropic elasticity (none for rigid motion), thermal expansion loads it as the stress-free strain alpha T, and strains, stresses, volume and query scaling follow the current solution; TETRA1 conducts heat k grad T with a positive symmetric matrix, loads and gradient having the same sign convention as the other elements.",
 "every positively oriented tetrahedron, material constants and nodal values within the bounds", "tests run two fixed meshes",
 [L + "elements/TETRA0.cpp", L + "elements/TETRA1.cpp"], [("linear tetrahedra", L + "elements/TETRA0.cpp, TETRA1.cpp: buildK, update")])
prop("C22", "Plane heat elements integrate conduction, capacity and boundary terms correctly",
 "QUADTH assembles the conductivity, heat capacity and volume flux of the constants and corner positions it was given (thickness one, isotropic), so that every linear temperature field gives exactly its nodal heat flows, a constant field none, and the sum of the load is flux times area; SurfaceLINETH assembles flux and convection of its edge, the film matrix and the film load balancing exactly at the environment temperature. Constrained nodes receive their terms like free ones.",
 "every corner position, material constant, flux, film coefficient, temperature and constrained subset within the bounds", "tests compare one mesh with a stored solution",
 [L + "elements/QUADTH.cpp", L + "elements/QUADTH.h"], [("plane heat transfer", L + "elements/QUADTH.cpp: buildK, buildC, SurfaceLINETH")])
prop("C23", "Interface joints couple the two sides by normal and tangential stiffness",
 "INTER0 and INTER3 resist the relative displacement of their two sides with kn along the normal and ks across it, symmetric, without any force under common rigid translation and whatever the normal direction; INTER3 spreads this over its triangle so that a constant jump gives area times traction in total. Reported strains are the (surface averaged) relative displacements in the documented frame, the stresses follow with the stiffnesses, results do not accumulate over updates and obey the scale of the query.",
 "every normal direction, stiffness, triangle, displacement and constrained subset within the bounds", "no test covers these elements",
 [L + "elements/INTER0.cpp", L + "elements/INTER3.cpp"], [("joint elements", L + "elements/INTER0.cpp, INTER3.cpp: buildK, update, getTensor")])
prop("C24", "Hyperelastic elements are consistent with their kinematics and material",
 "PLANE41 and SOLID81 compute displacement gradient, C and stress from the current displacements; their residual is the internal virtual work of stress and pressure with the incompressibility equation of the element pressure, the assembled tangent is the symmetric exact linearization of that residual for given material derivatives, and queries (PK2, Cauchy, C, E, invariants, energies, volume, averages over the element) return the quantities they name for the stored state, multiplied by the scale and added to the argument.",
 "every displacement, gradient, stress, pressure and material derivative within the bounds on the given element shapes", "tests check two models at a few load levels",
 [L + "elements/PLANE41.cpp", L + "elements/SOLID81.cpp", L + "elements/SOLID81.h", L + "elements/PLANE41.h"], [("mixed hyperelastic elements", L + "elements/PLANE41.cpp, SOLID81.cpp: buildK, update, getScalar/getVector/getTensor")])
prop("C25", "Text helpers cut and convert exactly",
 "Trimming removes exactly the blanks at both ends, case conversion and case-blind comparison act letterwise, the tokenizer yields the trimmed pieces between delimiters together with their delimiters and converts numbers, cutting at brackets and commas yields every piece and sign up to a remark, fixed-width splitting yields exactly the fields asked for and reports short lines, and lines are found under LF, CRLF and CR endings with nothing lost; none of them reads outside its text.",
 "every text within the bounds", "tests do not cover these helpers",
 [L + "FEReaders.cpp", L + "FEReaders.h"], [("text helpers", L + "FEReaders.cpp: strim, stolower, stoupper, iequals, Tokenizer, ssplit, getLine")])
prop("C26", "Mesh files are read completely and literally",
 "readCdbFile and readNeuFile deliver every node with its number and position, every cell with its number, nodes and attributes, every component with its ranges expanded, every prescribed displacement, force and constraint equation, in file order and with the values written in the file, whatever the field widths, line endings, letter case and order of records; earlier content of the MeshData is dropped, and a missing file is reported without touching the data.",
 "every well-formed file of the covered record kinds within the bounds", "tests read a handful of files and do not check what was read",
 [L + "FEReaders.cpp", L + "FEReaders.h"], [("mesh file readers", L + "FEReaders.cpp: readCdbFile, readNeuFile")])
prop("C27", "Renumbering a mesh changes names only",
 "compressNumbers renumbers nodes to 1..n in storage order and every reference to them (cells, constraints, loads, equations, node components) consistently, so that each reference names the same node as before, leaves element components, positions and attributes alone and is idempotent; getDegeneratedCells and getCellsByAttribute return exactly the positions of cells with a repeated node / of the asked attribute value, and clear leaves an empty mesh.",
 "every numbering and reference pattern within the bounds", "tests only see already compressed meshes",
 [L + "FEReaders.cpp"], [("mesh data", L + "FEReaders.cpp: MeshData")])
prop("C28", "Recorded reactions are the sums over the observed nodes",
 "ReactionProcessor records, for every DoF type given (or, if none is given, exactly those used and constrained at every observed node) the sum over its nodes of the reactions of each step after an initial zero, both in getReactions and in its file; the reactions of a linear solve with zero loads on constrained DoFs balance the internal forces. An empty node list or an unwritable file does not break the run.",
 "every node subset, constraint pattern, reaction value and linear system within the bounds", "tests only read one curve",
 [L + "ReactionProcessor.cpp", L + "FEStorage.cpp"], [("reaction recording", L + "ReactionProcessor.cpp: pre, process, getReactions")])
prop("C29", "VTK files describe the model and its current solution",
 "Every VTK file lists all nodes at their initial positions and all cells with their zero-based nodes and VTK types, followed by exactly the fields that apply: displacement and reaction vectors, temperature, and the requested element results (zero where a node has no such DoF or an element does not answer), one value set per node or element in order and equal to the solution at the time of writing; each step writes its own file, the initial one being number 0.",
 "every element shape, DoF usage pattern, request set and solution within the bounds", "tests run with VTK output switched off",
 [L + "VtkProcessor.cpp"], [("vtk output", L + "VtkProcessor.cpp")])
prop("C30", "The command line program does what its options say",
 "nla3d takes every option wherever it stands after the mesh file, with its values and defaults (negative and fractional numbers included), runs the model of the mesh file with that element, material, load steps, rigid body (master node named as in the file) and reaction component, writes VTK files named after the mesh file unless -novtk is given, prints the recorded reactions step by step under their labels, and ends with status 1 exactly if something asked for cannot be done or the mean absolute difference of the reaction curve from the reference curve (all rows of its file) exceeds a positive threshold.",
 "every option set, curve, threshold and numbering within the bounds", "tests run three command lines",
 ["src/main.cpp", L + "sys.cpp", L + "sys.h"], [("command line program", "src/main.cpp: parse_args, main, compareCurves, readRefCurveData"), ("option helpers", L + "sys.cpp")])
prop("C31", "The PARDISO solver is driven by its contract and solves the system it is given",
 "In the MKL build every system reaches PARDISO as the matrix and right-hand side that were given, with matching type, structure and order: analysed once per sparsity (again whenever the sparsity or order changes, never for new values only), factorized once per request, solved with the values last factorized; the unknowns receive the solution while matrix and right-hand side stay, any reported error and any non-symmetric request is fatal, and each analysis is released exactly once - none if the solver was never used.",
 "every history of requests over matrices of any pattern and values within the bounds", "four MKL tests each solve one model with a fresh solver",
 [L + "math/EquationSolver.cpp", L + "math/EquationSolver.h"], [("PARDISO wrapper", L + "math/EquationSolver.cpp: PARDISO_equationSolver")])
prop("C32", "Python indexing is range-checked and literal",
 "From Python, reading or writing a vector, matrix, symmetric matrix or the nodes of an element at any integer index reaches exactly that entry if the index is in range, leaving the others alone, and otherwise raises IndexError (OverflowError if the integer does not fit the index type) touching nothing, so that iteration ends at the length; copies are independent, and typed access to an element returns the stored element of that type or raises IndexError.",
 "every index and value within the bounds", "the Python tests only use valid indices",
 ["python/nla3d.swg"], [("Python wrapper", "python/nla3d.swg: %extend blocks and %exception")])
prop("C33", "Objects handed to a model from Python are owned by the model",
 "Nodes, elements, constraints, constraint collections and post-processors passed to a storage or solver from Python are owned by it from then on: dropping the Python reference neither destroys them nor lets them be destroyed twice.",
 "every order of creation, hand-over and destruction", "the Python tests keep every reference until the end",
 ["python/nla3d.swg"], [("ownership", "python/nla3d.swg: addNode, addElement, addMpc, addMpcCollection, addPostProcessor")])
NA["C33"] = "ownership is handed over by Python statements (thisown = 0) in the generated module, which run inside CPython together with SWIG's generated proxy classes; neither the interpreter nor that half of the module is within reach of the symbolic executor (C32 covers the C++ half of the wrapper)"
prop("C34", "Printed text says what the object holds",
 "Every print procedure - sparse, symmetric and small dense matrices and vectors, their internal arrays, constraint equations (collections, rigid bodies), the table of degrees of freedom, elements, nodes, components, materials, numbers turned into text - writes to the stream it is given, and nowhere else, exactly the entries of the object in order with their current values: all of them, none cut, each at its own place.",
 "every size, pattern and value within the bounds", "tests look at printed text of a node and of one component only",
 [L + "math/SparseMatrix.cpp", L + "Mpc.cpp", L + "FEStorage.cpp", L + "elements/element.cpp", L + "Node.cpp", L + "math/Mat.cpp", L + "math/Vec.h", L + "FEComponent.h", L + "materials/material.cpp", L + "sys.h"],
 [("matrix print procedures", L + "math/SparseMatrix.cpp, Mat.cpp, Mat.h, Vec.h"), ("model print procedures", L + "Mpc.cpp, FEStorage.cpp: printDofInfo, element.cpp, Node.cpp, FEComponent.h, material.cpp"), ("number to text", L + "sys.h: toStr")])
prop("C35", "Assembled models reproduce uniform fields and carry their loads",
 "A linear model solved with the built-in equation solver gives back any linear displacement or temperature field prescribed on its boundary at the free nodes too, with uniform strains and stresses (heat flux), no reaction at free DoFs, and boundary reactions that balance and whose first moments are the stress times the volume; in a bar structure the bar forces, loads, support reactions and constraint forces of every node balance, prescribed displacements and constraint equations hold, and all of this is independent of node numbering and of the order elements were created in.",
 "every linear field, load, support displacement and constraint value on the listed meshes, numberings and orders", "tests compare one response curve of a few models with stored values",
 [L + "FESolver.cpp", L + "FEStorage.cpp", L + "elements/TRIANGLE4.cpp", L + "elements/TETRA0.cpp", L + "elements/TETRA1.cpp", L + "elements/QUADTH.cpp", L + "elements/TRUSS3.cpp", L + "math/EquationSolver.cpp"],
 [("linear analysis", L + "FESolver.cpp: LinearFESolver::solve"), ("assembly", L + "FEStorage.cpp: assembleGlobalEqMatrices, assignDofs"), ("linear elements", L + "elements/*.cpp: buildK, update")])
