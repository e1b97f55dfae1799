P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
M = "src/lib/math/"
prop("C01", "A sparse matrix is the exact map of what was added to it",
 "After any sequence of entry declarations, compression and value additions, every stored position of a general or symmetric sparse matrix holds exactly the sum of the values added to it, every other position reads as zero, and a symmetric matrix reads the same at (i,j) and (j,i). Rows keep each declared column once, in increasing order, whatever the order and repetition of the declarations, and matrices sharing a sparsity never share values.",
 "every order, repetition and position of declarations and additions, every value, every queried position", "the repository's sparse tests build a few fixed patterns; the guarantee is over every pattern, order and search position",
 [M + "SparseMatrix.h", M + "SparseMatrix.cpp"], [("compressed row storage with binary search", M + "SparseMatrix.cpp: SparsityInfo::addEntry, compress, getIndex")], ("inputs", "histories"))
prop("C02", "A block matrix stores each global position in exactly one block cell",
 "Every global position of a symmetric block matrix corresponds to exactly one cell of one block, entries and values added by global position are found there and nowhere else, and the total number of rows is the sum over the blocks. A matrix created from another's sparsity has the same shape and pattern but its own values.",
 "every block sizing, every pair of global positions, every value", "tests never address a block matrix by global position over all block shapes",
 [M + "BlockSparseMatrix.h"], [("global to block translation", M + "BlockSparseMatrix.h: getBlockAndPosition, addEntry, addValue, block")])
prop("C03", "Sparse matrix-vector products add exactly coef*B*V",
 "The products of a sparse matrix (general, transposed, symmetric) with a vector add coef times the mathematical product to the result vector, for every sparsity pattern, and change nothing else.",
 "every pattern, every matrix, vector, coefficient and previous content of the result", "tests multiply a handful of random matrices read from files",
 [M + "SparseMatrix.cpp"], [("matBVprod, matBTVprod", M + "SparseMatrix.cpp")])
prop("C04", "Matrices and vectors survive (re)initialisation and text round trips",
 "A matrix rebuilt from a list of entries holds exactly those entries whatever it held before, and a matrix or vector written in text format and read back has the same shape, pattern and values (15 significant digits) while the stream keeps its formatting. Comparison of matrices is true exactly for equal shape, equal pattern and values within the threshold.",
 "every entry list (any order), every value, every pair of compared matrices", "tests only read reference files produced elsewhere",
 [M + "SparseMatrix.cpp", M + "Vec.cpp"], [("reinit, writeCoordinateTextFormat, readCoordinateTextFormat, compare", M + "SparseMatrix.cpp"), ("writeTextFormat/readTextFormat", M + "Vec.cpp")])
prop("C05", "Vectors own or view memory correctly under every use",
 "A vector that owns its memory is independent of every copy; a view reads and writes exactly its range of the owner and never frees it; copy, move, assignment (between owners, views and empty vectors of equal or different sizes), re-initialisation and arithmetic give the mathematical result without touching any other element.",
 "every size, view range and history of operations, every value", "no test exercises views, assignment into views or moves",
 [M + "Vec.h", M + "Vec.cpp"], [("ownership flag of the dynamic vector", M + "Vec.cpp")], ("inputs", "histories"))
prop("C06", "Dense vectors and matrices implement the textbook algebra",
 "Fixed-size vectors, matrices and symmetric matrices and the dynamic matrix implement addition, products, transpose, determinant, inverse (A times its inverse is the identity), B^T D B and the accumulating products R += coef*(...) exactly; the symmetric storage addresses the upper triangle row by row, and copies and conversions keep every component.",
 "every component value for each used shape", "tests compare products of a few reference matrices",
 [M + "Mat.h", M + "Mat.cpp", M + "Vec.h"], [("template algebra", M + "Mat.h")])
prop("C07", "The built-in equation solver returns the solution of the system",
 "For every symmetric system whose elimination meets no vanishing pivot, the unknowns returned by the built-in dense solver satisfy A x = b, the matrix object is unchanged, and a solver object can be reused for further systems and right-hand sides; a system it refuses is singular.",
 "every coefficient, pattern and right-hand side, every reuse sequence within the bounds", "tests solve a few fixed systems",
 [M + "EquationSolver.cpp"], [("Gaussian elimination with partial pivoting", M + "EquationSolver.cpp: GaussDenseEquationSolver::_solve")], ("inputs", "histories"))
