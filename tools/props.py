#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source: the table below)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/malg/'
P = []


def p(id, title, statement, over, quant, why, files, mech, state=None, hook=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files.split()], mechanism=[dict(name=n, where=I + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=I + w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


VST = [('element buffer and element count', 'every index below the count is valid, live storage', 'vector.hpp: Vector')]
MST = [('rows, columns and the element buffer', 'the buffer holds exactly rows*columns elements, row by row', 'matrix.hpp: Matrix')]

# ---------------------------------------------------------------- containers
p('C01', 'Vectors hold exactly the elements they were given, through their lifetime',
  'A vector built from a size, a size and a value, a list of values, another vector (same or convertible element type) or a moved vector has that size and those elements in order. Assigning, resizing (the common prefix is kept, new elements are zero) and copying affect only the target: copies never share elements, a moved-from vector is empty and reusable. Indexing, iteration, size and emptiness agree with one another.',
  ['inputs', 'histories'], 'every size 0..6 and 19, every element value of double, int, bool and complex, every sequence of 3 (4) operations on two vectors',
  'The tests build a handful of vectors with fixed literals and never mix copies, moves and resizes; what must hold is a statement about every size, value and operation order.',
  'vector.hpp', [('constructors, assignment, resize, data exchange', 'vector.hpp: Vector')], VST)
p('C02', 'A matrix is a rows x columns grid addressed consistently',
  'A matrix built from a shape, a fill value, a list of values or a list of rows has that shape and those elements in row-major order; lists that do not match the shape are rejected with an exception. Element access by (row, column), by linear row-major position, through the base interface and by iteration all denote the same element. Writing one element changes that element only.',
  ['inputs'], 'every shape 0..5 x 0..5 and larger ones, every position, every element value',
  'The tests print a few square matrices; non-square shapes, empty ones and the failing accesses are not sampled.',
  'matrix.hpp matrix_base.hpp', [('construction, operator(), operator[], at', 'matrix.hpp: Matrix'), ('common interface', 'matrix_base.hpp: MatrixBase')], MST)
p('C03', 'Assigning to a matrix makes it an independent, exact copy of the source',
  'Constructing or assigning a matrix from a matrix, a view, a cofactor view, a matrix of a convertible element type or a moved matrix gives the shape and elements of the source as they were before the assignment, whatever shape the target had, and also when the source is (a view of) the target itself. Afterwards the two share nothing; a moved-from matrix is empty and reusable.',
  ['inputs', 'histories'], 'every pair of shapes 0..4 x 0..4 and some larger, every element value, every sub-rectangle assigned back to its own matrix',
  'The tests assign same-shaped matrices; shape changes, empty matrices, and aliasing are not sampled.',
  'matrix.hpp matrix_base.hpp view.hpp', [('copy, move, converting construction and assignment', 'matrix.hpp: Matrix')], MST)
p('C04', 'Resizing keeps the common block, reshaping keeps the sequence of elements',
  'After a resize to r x c the matrix has that shape, every element whose row and column exist in both shapes is unchanged, and every other element is zero. After a reshape the row-major sequence of elements is unchanged and the shape is the requested one; a reshape to another number of elements is rejected with an exception and leaves the matrix unchanged.',
  ['inputs', 'histories'], 'every pair of shapes 0..4 x 0..4, plus larger pairs, every element value',
  'One test reshapes one matrix; which element goes where depends on the relation between the two shapes.',
  'matrix.hpp utility.hpp', [('resize, reshape', 'matrix.hpp: Matrix::resize, Matrix::reshape'), ('free functions', 'utility.hpp: reshape, resize')], MST)
p('C05', 'No sequence of valid operations reads or writes outside live storage',
  'Any sequence of constructions, copies, moves, assignments, resizes, stacks, arithmetic and view operations performed within the documented preconditions touches only live elements, frees each buffer once, and leaves every object with the shape and contents that the same operations give on plain arrays. An operation that fails with an exception, be it a rejected operand, a storage allocation that fails or a size that cannot be addressed, leaves the objects usable and everything is released once.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of 3 (4) of 14 kinds of operation on a matrix and a vector, every element value; each of the first 8 allocations of 24 operations failing; oversized requests; with and without the tracing of allocations (MEM_TRACE)',
  'The tests run each operation once on fresh objects; lifetime errors need particular sequences and are invisible without instrumentation.',
  'matrix.hpp vector.hpp view.hpp utility.hpp math.hpp', [('ownership of the buffers', 'matrix.hpp: Matrix, vector.hpp: Vector')], MST + VST)
p('C06', 'Stored by columns, a matrix and its windows keep every element in its place',
  'With the storage by columns that the library offers (ROW_MAJOR left undefined) a matrix constructed from lists, copied, moved, assigned or resized has exactly the elements, by row and column, that it has with the storage by rows, and so have its views and cofactor views, for reads and for writes. Linear positions run down the columns, in the same way for a matrix, its buffer, its iterators, its views and its cofactor views, and reshaping keeps that sequence.',
  ['inputs', 'configurations'], 'every shape up to 4x4 and larger ones, every rectangle of matrices up to 3x4, every element value, storage by columns',
  'The library is only ever built and tested with storage by rows.',
  'matrix_base.hpp matrix.hpp view.hpp', [('the position of an element in the buffer', 'matrix.hpp: Matrix::at, Matrix::resize'), ('linear positions of views', 'view.hpp: View::operator[], CofactorView::operator[]')], MST)
# ---------------------------------------------------------------- views
p('V01', 'A view is a window onto its matrix',
  'A view of a range of rows and columns has the shape of that range clipped to the matrix, and its element (i, j) is the element of the matrix at (start row + i, start column + j), for reads and for writes; linear positions are row-major within the window. The window stays on the matrix when the matrix is changed or resized. Writing or filling a view changes exactly the elements in the window, and views of views compose. Assigning a view copies the elements of the other operand as they were before the assignment, also when both are windows of the same matrix and overlap.',
  ['inputs'], 'every rectangle of matrices up to 4x4, stops beyond the matrix, nested rectangles; the index map for all 64-bit sizes and offsets',
  'A few windows of one matrix are printed by the tests; the map must be right for every window and position.',
  'view.hpp utility.hpp', [('index translation', 'view.hpp: View'), ('view, row, col', 'utility.hpp: view, row, col')],
  [('row range and column range', 'which block of the matrix is visible', 'view.hpp: View, Range')])
p('V02', 'A cofactor view is its matrix without one row and one column',
  'A cofactor view excluding row p and column q has one row and one column less than the matrix, and its elements are exactly the other elements of the matrix in their order, for reads and writes, by pair or by linear row-major position. Writing through it never touches the excluded row or column, and cofactor views of cofactor views compose. Assigning to it, also from another cofactor view or an overlapping window of the same matrix, copies the elements as they were before the assignment.',
  ['inputs'], 'every matrix 1..5 x 1..5 with every excluded row and column; the index map for all 64-bit shapes',
  'The tests never use a non-square cofactor view, nor linear positions.',
  'view.hpp', [('index translation', 'view.hpp: CofactorView')])
p('V03', 'A view can stand wherever a matrix can, with the same result',
  'Every operation that accepts a matrix gives, for a view or cofactor view, exactly the result it gives for a matrix with the same elements; this includes arithmetic, comparison, transposition, extraction, stacking, reductions, emptiness, the decompositions and the control functions. In-place operations through a view change the viewed elements and no others, and use the elements of the other operand as they were before, also when it overlaps the view.',
  ['inputs', 'programs'], 'every rectangle of matrices up to 3x3 and cofactor views up to 4x4 for each listed operation, every element value',
  'The tests apply a few operations to one view.',
  'view.hpp math.hpp utility.hpp linalg.hpp matrix_base.hpp', [('the common interface', 'matrix_base.hpp: MatrixBase')])
# ---------------------------------------------------------------- utilities
p('U01', 'Stacking puts the blocks side by side, in order, unchanged',
  'Stacking vertically (horizontally) two matrices with as many columns (rows), or a matrix and a vector, gives the matrix whose first rows (columns) are the first operand and whose following ones are the second; concatenating two vectors gives the elements of the first and then of the second. The element type can hold both operands; operands that do not fit are rejected with an exception and the operands are never modified.',
  ['inputs'], 'every pair of shapes 0..4 x 0..4 and larger ones; mixed element types; views',
  'The tests stack two blocks of one shape.',
  'utility.hpp', [('vstack, hstack, concatenate', 'utility.hpp: vstack, hstack, concatenate')])
p('U02', 'Extracting, swapping and removing rows and columns act on exactly those',
  'Extracting a block, row or column copies exactly the requested elements (a stop beyond the end means the end), leaving the source as it was. Swapping two rows or columns exchanges them within the given bounds and nothing else; removing a row or column leaves the others in order.',
  ['inputs'], 'every matrix 1..4 x 1..4 with every range and index, 7x9 matrices, every element value',
  'The tests remove or swap a fixed row of a square matrix; errors show on first/last lines and non-square shapes.',
  'utility.hpp', [('extract, extract_row, extract_column, swap_rows, swap_cols, remove_row, remove_column', 'utility.hpp')])
p('U03', 'Builders and conversions produce exactly the announced contents',
  'Identity-like, zero, one and diagonal builders give a matrix or vector of the requested shape with the given values on the diagonal (or everywhere) and zero elsewhere; the diagonal of a matrix is its elements (i, i). Converting between vectors and one-row or one-column matrices, and flattening a matrix, keep the elements and their row-major order.',
  ['inputs'], 'every shape 0..6 x 0..6 and 13x11; vectors 0..6 and 19; double, int, complex',
  'The tests use a few square shapes.',
  'utility.hpp', [('eye, identity, zeros, ones, diag, to_matrix, to_vector, ravel', 'utility.hpp')])
p('U04', 'Structural predicates answer true exactly for the matrices of the class',
  'Square, row, column, symmetric, skew-symmetric, diagonal, zero, constant, identity, orthogonal, upper and lower triangular hold of a matrix exactly when its elements satisfy the mathematical definition (the transposition-based, diagonal and identity classes only for square matrices). Invertible, linearly independent and linearly dependent agree with whether the determinant is zero.',
  ['inputs'], 'every shape 1..3 x 1..3 with arbitrary entries; larger ones with arbitrary deviating entries',
  'Each predicate is tested on one positive example if at all; a wrong answer needs a matrix that deviates in one place.',
  'utility.hpp', [('the predicates', 'utility.hpp: is_*')])
p('U05', 'Searching returns exactly the positions of the nonzero elements, in order',
  'The nonzero search returns the row-major positions of all nonzero elements in increasing order; with a limit n it returns the first (or the last) n of them, in increasing order, or all if there are fewer.',
  ['inputs'], 'every matrix up to 3x3 (and 1x7, 7x1, 2x5) with arbitrary entries, every limit, both directions',
  'The tests search one matrix; the limit interacts with where the nonzeros are.',
  'utility.hpp', [('flatnonzero, find', 'utility.hpp: flatnonzero, find')])
p('U06', 'Evenly spaced sequences hit both end points with constant steps',
  'A linear sequence of n points between a and b has n elements, the k-th being a + k (b - a)/(n - 1), the last exactly b; with one point it is a single end point and with none it is empty. A logarithmic sequence is the base raised to each element of the linear sequence of exponents.',
  ['inputs'], 'counts 0..6, 12 and 33, every pair of real end points; any base',
  'The tests use a couple of end points.',
  'utility.hpp', [('linspace, logspace', 'utility.hpp: linspace, logspace')])
p('U07', 'Element-wise comparison and closeness verdicts agree with their definitions',
  'Lexicographic comparison returns zero exactly when all elements are equal, and otherwise the one-based position of the first differing pair, negative if the first operand is the smaller there. Closeness holds exactly when no pair of elements differs by more than the tolerance; all (any) holds exactly when every (some) element is nonzero; operands of different shapes are rejected or reported different as documented.',
  ['inputs'], 'sizes 0..5, matrices up to 2x3, plus vectors up to 23 and matrices up to 18 elements with an arbitrary position, every value and tolerance',
  'The tests compare one or two pairs, which differ early.',
  'utility.hpp math.hpp', [('compare, all_close', 'utility.hpp'), ('all, any', 'math.hpp')])
p('U08', 'Reductions equal their mathematical definitions',
  'Minimum and maximum return the extreme value and its position (the first such), sums and traces add exactly the right elements, and the Frobenius, infinity and below-diagonal norms of real and complex matrices and vectors equal their definitions. The base-2 ceiling logarithm, the length of a column segment and the projection of a vector on another do too.',
  ['inputs'], 'vectors 0..5 and longer ones, matrices up to 3x3 (4x4 for sums), every real, complex or int value',
  'Only a few of these are tested, on one input each; several did not even compile for complex elements.',
  'math.hpp', [('min, max, sum, trace, norms, projection, vector_length, log2_ceil', 'math.hpp')])
p('U09', 'Random builders give the requested shape, every element within the bounds',
  'A random matrix or vector has the requested shape and every element lies in the requested interval (both bounds included for integers), for complex elements in both parts; every element is drawn. Whatever values the generator produces, no draw is outside the bounds and no storage outside the result is written.',
  ['inputs'], 'every shape 0..3 x 0..3, vectors 0..5, every pair of bounds min <= max, every outcome of the distributions',
  'Outcomes of the random source are sampled by tests, never enumerated.',
  'utility.hpp', [('rand_matrix, rand_vector', 'utility.hpp: rand_matrix, rand_vector')])
# ---------------------------------------------------------------- arithmetic
p('M01', 'Matrix sum, difference and scaling are exact element by element',
  'Adding or subtracting two matrices of one shape, and adding, subtracting, multiplying or dividing by a scalar, give a matrix of that shape whose every element is the operation applied to the corresponding elements, in the type that holds both operands. In-place forms give the same elements in the left operand, also when the operand is (an element of) the matrix itself; pure forms modify nothing.',
  ['inputs', 'programs'], 'every shape 0..4 x 0..4 and larger ones; double, int, complex and mixed',
  'The tests check a few sums of doubles of one shape; mixed types, in-place and aliasing forms are not sampled (several did not compile).',
  'math.hpp', [('operators + - * / and their in-place forms', 'math.hpp')])
p('M02', 'Matrix products equal the sum-of-products definition for every shape',
  'The product of an n x k and a k x m matrix is the n x m matrix of row-by-column sums of products, in the type that holds both operands; the product with a vector and the dot product follow the same definition. In-place multiplication leaves the same result in the left operand, including when both operands are the same matrix.',
  ['inputs'], 'n, k, m in 0..4 and 6x5x7, arbitrary entries; double, int, complex, mixed',
  'The tests multiply a few square matrices.',
  'math.hpp', [('operator*, operator*=, dot', 'math.hpp')])
p('M03', 'Operands of incompatible shapes are rejected, never read out of bounds',
  'Every binary operation on matrices and vectors whose shapes do not fit, and every square-only operation on a non-square matrix, throws a standard exception, and leaves both operands as they were. No element outside either operand is read or written.',
  ['inputs'], 'every pair of differing shapes 0..3 x 0..3, vectors 0..4; every element value',
  'The tests never pass mismatched operands.',
  'math.hpp utility.hpp linalg.hpp', [('shape checks', 'math.hpp')])
p('M04', 'Matrix and vector comparison operators agree with their element-wise meaning',
  'Equality holds exactly when every pair of corresponding elements is approximately equal (integers: exactly equal), and inequality is its negation; operands of different shapes are rejected with an exception. The ordering operators give a matrix of the same shape holding the verdict of each pair; every form with a scalar compares each element with the scalar.',
  ['inputs'], 'shapes 0..2 x 0..2 with arbitrary entries, larger shapes with an arbitrary entry; double, int, complex, mixed types',
  'The tests compare equal matrices; a comparison that ignores an element or position passes them.',
  'math.hpp feq.hpp', [('comparison operators', 'math.hpp: operator== != < <= > >=')])
p('M05', 'Element-wise functions apply the function to every element, in place',
  'Absolute value, sign, real and imaginary part, and any caller-supplied unary or binary function applied element-wise give a result of the same shape whose every element is the function of the corresponding element(s), leaving the operands unchanged. Element-wise products and linear combinations of two matrices equal a A + b B and A B element by element; operands of different shapes are rejected.',
  ['inputs', 'programs'], 'shapes 0..3 x 0..3 and longer, arbitrary entries and an arbitrary function',
  'The tests barely use them (some did not compile, others dropped their results).',
  'math.hpp', [('element_wise_function, element_wise_binary_function, abs, sign, real, imag, element_wise_product, linear_combination', 'math.hpp')])
p('M06', 'Arithmetic and comparison between complex and other numbers is correct',
  'Adding, subtracting, multiplying and dividing a complex number with a real or complex number of another element type, on either side, gives the mathematical result with both parts right, in the wider element type. Equality and ordering between such numbers agree with the mathematical value (ordering by real part or magnitude as defined by the library) and hold through the containers.',
  ['inputs'], 'every pair of complex and real numbers over double and int (exact arithmetic)',
  'The tests use a few complex literals.',
  'complex_math.hpp type_traits.hpp', [('mixed operators', 'complex_math.hpp'), ('extracting the result type', 'type_traits.hpp')])
p('M07', 'Vector arithmetic is exact element by element',
  'Adding, subtracting and multiplying two vectors of one size, and every operation with a scalar, give a vector of that size whose every element is the operation on the corresponding elements in the type that holds both; in-place forms leave the same in the left operand, also when the operand is (an element of) the vector itself. Vectors of different sizes are rejected; pure forms modify nothing.',
  ['inputs', 'programs'], 'sizes 0..5, 9, 17; double, int, complex, mixed',
  'The tests add a few vectors; several in-place forms did not compile.',
  'math.hpp', [('vector operators', 'math.hpp')])
p('M08', 'Approximate equality is a symmetric tolerance test on every floating-point pair',
  'Approximate equality is reflexive on every number but NaN, symmetric, true for exactly equal numbers, and true exactly when the difference is at most the tolerance times the larger magnitude; NaN equals nothing and an infinity equals only itself. The derived orderings are consistent with it: at most one of less, equal, greater holds in the strict sense defined by the library, and the tolerance can be changed.',
  ['inputs'], 'every pair of IEEE-754 binary64 values, bit-precise; every pair of reals, ints and complex numbers',
  'Tests compare a few pairs; infinities, subnormals and the tolerance boundary are not sampled.',
  'feq.hpp', [('approximately_equal and derived comparisons', 'feq.hpp')])
# ---------------------------------------------------------------- linear algebra
p('L01', 'Transposition exchanges rows and columns, exactly',
  'The transposed of an r x c matrix is the c x r matrix with element (j, i) equal to element (i, j) of the original; the hermitian and conjugate transposed additionally conjugate every element. The argument is unchanged and views are accepted.',
  ['inputs'], 'shapes 0..4 x 0..4, 1x17, 9x2; double, int, complex; views',
  'The tests transpose square matrices only.',
  'linalg.hpp', [('transpose, hermitian_transpose, conjugate_transpose', 'linalg.hpp')])
p('L02', 'The determinant equals its definition for every square matrix',
  'The determinant of a square matrix is the signed sum over permutations of products of its elements, whatever pivoting the elements require, and zero for singular matrices; the argument is unchanged. A non-square matrix is rejected with an exception.',
  ['inputs'], '1x1..4x4 with every entry arbitrary; 5x5 and 6x6 in families covering every pivoting decision; double, int, complex',
  'The tests check a few fixed matrices; which rows are swapped depends on which pivots are zero.',
  'linalg.hpp', [('determinant', 'linalg.hpp: determinant')])
p('L03', 'Cofactor, adjoint, inverse and division satisfy their defining identities',
  'The cofactor matrix is the matrix without the given row and column; A adj(A) = det(A) I; for a nonsingular matrix A inv(A) = inv(A) A = I, and dividing by A is multiplying by its inverse. A non-square matrix is rejected with an exception and a singular one is reported as documented; arguments are unchanged.',
  ['inputs'], '1x1..4x4 with every entry arbitrary (complex 2x2, int 3x3), permuted 5x5',
  'The tests invert one or two fixed matrices.',
  'linalg.hpp', [('cofactor, adjoint, inverse, div', 'linalg.hpp')])
p('L04', 'The LU factors are triangular and multiply back to the matrix',
  'For a square matrix whose leading minors are nonzero, the LU decomposition returns a lower triangular and an upper triangular factor (one of them with unit diagonal) whose product is the matrix exactly. A non-square matrix is rejected with an exception; the argument is unchanged.',
  ['inputs'], '1x1..3x3 (4x4) with every entry arbitrary, one arbitrary row up to 6x6; int, complex, views',
  'The tests decompose one matrix.',
  'linalg.hpp', [('lu_decomposition', 'linalg.hpp: lu_decomposition')])
p('L05', 'The QR factors are orthogonal and upper triangular and multiply back',
  'For every real matrix, tall, square or wide, rank deficient or not, the QR decomposition returns a square orthogonal factor and an upper triangular factor of the shape of the matrix whose product is the matrix. The argument is unchanged.',
  ['inputs'], 'up to 3x2 and 2x3 with every entry arbitrary, up to 4x4, 5x3, 3x5 with structured columns; exact arithmetic with exact square roots',
  'The function did not compile, so nothing was tested.',
  'linalg.hpp', [('qr_decomposition', 'linalg.hpp: qr_decomposition')])
p('L06', 'Solving returns the solution, least-squares or least-norm solution',
  'For a square nonsingular system the result satisfies A x = b exactly; for an overdetermined one of full rank the residual is orthogonal to every column; for an underdetermined one of full rank A x = b and x is orthogonal to the kernel. No solution is produced for a singular system, and the arguments are unchanged.',
  ['inputs'], 'square 1..3 with every entry arbitrary; 2x1..4x2; 1x2..2x4',
  'The function did not compile, so nothing was tested.',
  'linalg.hpp', [('solve', 'linalg.hpp: solve')])
p('L07', 'Matrix powers and factorials equal repeated multiplication',
  'The N-th power of a square matrix is the product of N copies of it, the identity for N = 0; a non-square matrix is rejected with an exception for N > 0, and the argument is unchanged. The factorial of n is the product 1 2 ... n, and 1 for n <= 0.',
  ['inputs'], '1x1..3x3 with every entry arbitrary, exponents 0..6; factorials 0..12',
  'The tests raise one matrix to one power.',
  'linalg.hpp', [('powm, factorial', 'linalg.hpp')])
p('L08', 'Exponentials: element-wise and of the matrix',
  'The element-wise exponential has the shape of its argument and the exponential of each element at the same position. The matrix exponential is the sum of the power series: exact for nilpotent and zero matrices up to the requested accuracy, diagonal for diagonal ones, and rejected with an exception for non-square ones; the argument is unchanged. The distance from the sum stays within a small multiple of the requested accuracy, relative to the size of the result, however many squarings the size of the argument takes.',
  ['inputs'], 'element-wise: shapes 0..4 x 0..4; matrix: nilpotent and diagonal 1x1..4x4 with arbitrary bounded entries, int matrices, views',
  'The tests compute the exponential of one matrix.',
  'linalg.hpp math.hpp', [('exp, expm', 'linalg.hpp'), ('scaling exponent', 'math.hpp: log2_ceil')])
# ---------------------------------------------------------------- control
p('K01', 'Controllability and observability matrices are [B AB A2B ...] and its dual',
  'The controllability matrix of (A, B) consists of the blocks B, A B, ..., A^(n-1) B side by side; the observability matrix of (A, C) of the blocks C, C A, ..., C A^(n-1) on top of one another. Non-square A or mismatched dimensions are rejected with an exception.',
  ['inputs'], 'n in 1..3 (4), 1..2 inputs or outputs, every entry arbitrary',
  'The tests use one system (and the observability matrix did not compile).',
  'control/control.hpp', [('ctrb, obsv', 'control/control.hpp')])
p('K02', 'Polynomial coefficients: from roots, from a matrix, and reduction',
  'From a list of roots the result is the coefficients of the monic polynomial with exactly those roots; from a square matrix, those of its characteristic polynomial det(sI - A); from an empty argument the constant 1. Reducing a coefficient list strips exactly the leading zeros, leaving a single zero if nothing else remains.',
  ['inputs'], '0..5 arbitrary real or complex roots, 2x2..4x4 matrices with every entry arbitrary, lists of 0..5 arbitrary coefficients',
  'The tests use one or two fixed polynomials.',
  'control/control.hpp', [('poly, polyreduce', 'control/control.hpp')])
p('K03', 'Pole placement yields a closed loop with exactly the requested poles',
  'For a controllable single-input system and as many poles as states, the returned gain K is such that A - B K has exactly the requested characteristic polynomial. Systems that are not conformal or not reachable and pole lists of the wrong shape or length are refused: no gain is returned.',
  ['inputs'], 'n in 1..3, every entry of A, B and every pole arbitrary',
  'The tests place one set of poles of one system.',
  'control/control.hpp linalg.hpp', [('acker', 'control/control.hpp: acker')])
p('K04', 'Discretisation gives the zero-order-hold model',
  'Discretising a continuous system with sample time h gives the state matrix exp(A h) as computed by the matrix exponential, an input matrix Bd with A Bd = (Ad - I) B, unchanged output and feedthrough matrices and the sample time h. The continuous model is unchanged.',
  ['inputs'], 'n in 1..2, every entry of the nonsingular system, the matrix exponential an arbitrary function; and the real exponential on scalar systems',
  'The tests discretise one system.',
  'control/control.hpp', [('c2d', 'control/control.hpp: c2d')])
p('K05', 'Simulation follows the state equations step by step',
  'Simulating a discrete system for a number of steps (the smaller of the available inputs and the simulated time divided by the sample time) returns the initial state followed by one state per step, x(k+1) = A x(k) + B u(k), one output per step, y(k) = C x(k) + D u(k), and one time per state, k times the sample time. One simulation step gives exactly the next state and the output, and the zero state and input have the dimensions of the system. States and inputs of another size are rejected with an exception.',
  ['inputs', 'histories'], 'n, inputs and outputs in 1..2, 0..3 steps, every entry and input arbitrary',
  'The tests simulate one system and look at the output only.',
  'control/control.hpp', [('simulate, simulate_step, generate_input_zero, generate_state_zero', 'control/control.hpp')])
# ---------------------------------------------------------------- I/O
p('I01', 'What is written to a file is read back unchanged',
  'Writing matrices and vectors to a file and reading them back in the same order, into objects of any previous shape, gives the same shapes and elements (at a precision that preserves the numbers). Nothing outside the objects read is changed.',
  ['inputs', 'histories'], 'shapes 0..3 x 0..3, vectors 0..4, sequences of two objects, every element value; the text of a number is an opaque token the stream library can read back',
  'One test writes and reads a few fixed objects.',
  'io.hpp', [('file stream operators', 'io.hpp')])
p('I02', 'Malformed files are reported and never corrupt memory',
  'Reading from a file whose content is of another type, empty, truncated at any token or not numeric leaves the stream failed or the object unchanged, as documented, without touching storage outside the object; the object stays usable.',
  ['inputs', 'crash_points'], 'a file cut after any token or with any token replaced by a word, every shape up to 3x3',
  'The tests do not read files.',
  'io.hpp', [('extraction operators', 'io.hpp: operator>>')])
p('I03', 'Textual forms list every element once, in order, with the right separators',
  'Printing a matrix or vector gives its rows, line by line, elements separated by one space and padded to a common width; the named dump, MATLAB and C++ forms give the name and the elements in row-major order with the delimiters of that language. Complex elements are written with their real and imaginary part.',
  ['inputs'], 'shapes 0..3 x 0..3, vectors 0..4, arbitrary elements (each number an opaque token)',
  'The tests print but do not look at the result.',
  'io.hpp', [('stream operators, dump_*, to_matlab, to_cpp', 'io.hpp')])
p('E01', 'Eigenvalue routines preserve the matrix they factor',
  'The Hessenberg reduction returns a unitary P and a Hessenberg H with A = P H P*; the Givens factorisation of a Hessenberg matrix returns a unitary Q and an upper triangular R with Q R equal to it; each nonzero eigenvector column of an upper triangular T satisfies T E = lambda E and has unit length, and the completeness flag says whether all were found. The spectral shift is the eigenvalue of the trailing 2x2 block closest to the last diagonal element. When it converges, the QR iteration returns a unitary P and an upper triangular T with A = P T P*. No argument is modified.',
  ['inputs'], 'up to 3x3 in families of complex matrices with arbitrary entries (exact arithmetic with exact square roots); the whole iteration on 2x2 matrices only; its convergence in floating point is outside',
  'None of these functions compiled.',
  'eigen.hpp', [('hessenberg, qr_factorise_givens, eigenvectorUpper, wilkinson_shift', 'eigen.hpp')])

NA = {}
LEVELNOTE = 'Bounded: every path of the real code within the stated bounds is executed symbolically (LLVM IR of the current headers) and each assertion is decided for all values of the symbolic inputs; doubles are exact reals unless mode=fp. Trusted: clang, the executor and its models of libstdc++ externs (checked by native replay of sampled paths), z3. '


def main():
    ids = [d['id'] for d in P]
    assert len(set(ids)) == len(ids)
    with open(V + '/properties.jsonl', 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d in P:
        src = sorted(glob.glob(V + '/harness/' + d['id'] + '*.cpp'))
        if src and d['id'] not in NA:
            b = [ln[3:].strip().lstrip() for s in src for ln in open(s) if ln.startswith('//B')]
            checks.append(dict(property=d['id'], quick_cmd='python3-vt check.py %s --tier quick' % d['id'],
                               thorough_cmd='python3-vt check.py %s --tier thorough' % d['id'],
                               evidence_file='evidence/%s.json' % d['id'],
                               technique='symbolic execution of the compiled IR of the real code, assertions decided by z3, counterexamples replayed natively',
                               level='model_checking', level_note=LEVELNOTE + 'Bounds: ' + '; '.join(b)))
        else:
            na.append(dict(property=d['id'], reason=NA.get(d['id'], 'no check built yet')))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md. known-findings.txt lists recorded and repaired defects.')
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')


main()
