WIP = 'not covered yet by contracts in this revision'
prop('P04', 'Dense matrix algebra is exact for every shape',
     'Dense products, sums, scaling, transposes, conjugates, expression combinations and matrix-vector products have, in every entry, the value their mathematical definition prescribes, for rectangular as well as square operands. Element access, reshaping and views into stored data address exactly the intended entries; the predicates (Hermitian, identity, zero, equal) answer yes exactly when the matrix has the property.',
     'all conforming shapes including empty and rectangular, all element values, real and complex', 'Tests use a few square matrices; index arithmetic errors show only for rectangular shapes or particular operand orders.',
     ['src/Matrix.h', 'src/MatrixNonOwned.h'], [('column-major storage and indexing', 'Matrix::operator()'), ('products and expression combinations', 'Matrix::operator=, operator*, matrixMatrix, multiplyTransposeConjugate, multiply')],
     'entries and shape of results', claim=True)
prop('P05', 'Vector algebra and expression combinations are exact',
     'Sums, differences, scalar multiples, scalar products, norms and nested expression combinations of vectors give in every component the value that plain arithmetic gives, never reading or writing outside a vector. Searching and comparing helpers return what their documentation says.',
     'all vectors of equal length including empty ones, all coefficients, every nesting of the supported expressions', 'The tests evaluate a few expressions on short vectors.',
     ['src/Vector.h', 'src/Complex.h'], [('expression templates over vectors', 'operator<= / operator*, ClosureOperator in Vector.h'), ('scalar products and norms', 'scalarProduct, norm, operator*')],
     'components of results', claim=True)
prop('P06', 'Sorting returns an ordered permutation of its input, with a valid index',
     'After sorting, the sequence is ordered, is a permutation of the original, and the returned index array is a permutation that maps the sorted positions to the original ones. This holds for repeated keys, for empty sequences, and when only the first part of the sequence is sorted.',
     'all sequences of integers or reals, with ties, any length, whole or first part', 'Tests print or eyeball a handful of sequences.',
     ['src/Sort.h'], [('index sort over key/index pairs', 'Sort::sort')], 'sorted sequence and permutation', claim=True)
prop('P07', 'Parallel loops run every task exactly once, whatever the split',
     'For every number of tasks, number of threads, and load-balancing weights, the tasks handed to the workers form an exact partition of the task range: no task is skipped, none runs twice, none lies outside the range. The same holds for every process split in the distributed loops.',
     'all task counts (including zero and fewer tasks than threads), all thread counts, all weights', 'Tests run one or two sizes with one or two thread counts; the remainder handling depends on the arithmetic of every pair.',
     ['src/LoadBalancerDefault.h', 'src/LoadBalancerMpi.h', 'src/LoadBalancerWeights.h', 'src/PthreadsNg.h', 'src/Parallelizer2Pthread.h', 'src/Parallelizer2Serial.h', 'src/NoPthreadsNg.h', 'src/InterNodeMpi.h', 'src/InterNodeSerial.h', 'src/Pthreads.h', 'src/NoPthreads.h', 'src/Parallelizer.h'],
     [('default block partition', 'LoadBalancerDefault'), ('weighted partition', 'LoadBalancerWeights'), ('per-thread loop', 'PthreadsNg::loopCreate, PthreadsNg function threadFunction')],
     'the multiset of task numbers executed', claim=True, over=('inputs', 'configurations'))
prop('P08', 'Lattice geometry is a consistent graph with unambiguous bond handles',
     'For every supported lattice (chain with any distance, ladder, two-leg ladder with diagonals between adjacent columns, ladder with bath sites, K2NiF4, star, honeycomb, long range), and any two of its sites: the neighbour relation is symmetric, has no self loops and is exactly the mathematical definition of that lattice with its periodicities (long range joins every pair, by design); the direction of a bond is below the number of directions and does not depend on the order of its sites. Where the lattice implements handles (all but K2NiF4 and honeycomb), the handle of a bond does not depend on the order of its sites, lies below the announced number of bonds of its direction, and two different bonds of one direction have different handles, so each connector of the input is used by exactly one bond. Constructors reject sizes that do not fit.',
     'every lattice kind, size, leg number, periodicity and pair of sites', 'No test covers geometry at all.',
     ['src/Geometry'], [('chains', 'LongChain, LongRange'), ('ladders', 'Ladder, LadderBath, LadderX, KTwoNiFFour'), ('two-dimensional lattices', 'Honeycomb, Star'), ('values of bonds', 'GeometryTerm, GeometryDirection')],
     'connected, calcDir, handle, getVectorSize, values of bonds', claim=True, over=('inputs', 'configurations'))
prop('P09', 'Reflections and translations are site permutations that respect the lattice',
     'On chains, ladders and long-range lattices the reflection of a site is a site, namely its mirror image along the long direction, reflecting twice gives back the site and neighbours are mapped to neighbours; translating a site by any amount gives the site that many steps further around the lattice, translations are one to one, and along a periodic direction they map neighbours to neighbours. Splitting the lattice into blocks (Geometry::split) rejects block sizes that do not fit and otherwise assigns every site to exactly one block, the system growing from the left, the environment from the right, in halves; the kind of a connection names the sides of its two sites.',
     'all lattice sizes, sites, amounts and block sizes', 'No test covers geometry.',
     ['src/Geometry', 'src/Geometry/Geometry.h'], [('reflections', 'findReflection of the geometry classes'), ('translations', 'translate'), ('block splitting', 'Geometry::split')], 'images of sites, block lists', claim=True, over=('inputs', 'configurations'))
prop('P10', 'Binary-to-text encoding and bit utilities round trip',
     'Decoding an encoded byte string gives back exactly the original bytes, for every length and content; the encoded text uses the standard alphabet and padding. Both bit-counting functions agree with the definition on every word.',
     'all byte strings, all words', 'Tests encode one or two strings; padding depends on the length modulo three, and bit counts on each of 2^64 words.',
     ['src/PsiBase64.h', 'src/PsiBase64.cpp', 'src/BitManip.h'], [('encoding', 'PsiBase64::encode'), ('decoding', 'PsiBase64::decode'), ('bit tricks', 'BitManip::count, countKernighan')], 'decoded bytes, counts', claim=True)
prop('P11', 'String helpers split, replace and classify text without loss',
     'split appends exactly the longest runs of non-delimiter characters of the text, in order (the default delimiter is the space), and keeps the tokens that were there; replaceAll replaces the non-overlapping occurrences found from left to right, keeps everything else, changes nothing when there is nothing to look for, and always ends; basename is what follows the last slash, basenameOf what precedes the last dot (the whole text without one). isAnInteger accepts non-empty texts of digits only, isAfloat texts of digits, signs, points and e or E with at least one digit; atoi and atof throw exactly on the texts outside their alphabet (digits and signs; what isAfloat accepts) and otherwise give the value of the C library; stringToComplex reads a, bi, a+bi and a-bi with either sign in front; integerDivision gives the exact quotient or throws, log2Integer gives the number of binary digits. No helper reads outside the text, on any input including the empty one.',
     'all strings, delimiters and patterns including empty ones', 'A few literal strings are covered.',
     ['src/PsimagLite.h', 'src/PsimagLite.cpp', 'src/Vector.h', 'src/Complex.h', 'src/TypeToString.h'], [('split', 'PsimagLite::split'), ('replace', 'replaceAll'), ('paths', 'basename, basenameOf')], 'returned strings', claim=True)
prop('P12', 'Enumerations list every combination exactly once',
     'The permutation, digit-packing and sum-decomposition enumerators visit every object of their family exactly once, never anything else, and packing and unpacking of indices are inverse to each other. Enumeration ends after exactly the number of objects the family has.',
     'all parameters within range', 'Tests run one size or none.',
     ['src/Permutations.h', 'src/PackIndices.h', 'src/SumDecomposition.h'], [('next object', 'increase() of Permutations'), ('packing', 'PackIndices::pack, unpack'), ('decomposition', 'SumDecomposition')], 'sequence of objects', claim=True)
prop('P13', 'Numerical building blocks satisfy their defining equations',
     'Akima interpolation is one cubic per interval that passes through the data points with the Akima derivatives, so its value and slope are continuous at every interior point; a point outside the data, sizes that differ or too few points are refused. Each Runge-Kutta step is the classical fourth-order rule for the given right-hand side, and the solution starts with the initial value. Bisection returns the midpoint of a bracket whose ends have opposite signs with a function value below the tolerance there, and throws exactly when there is no sign change or the iterations are used up. The Chebyshev functions satisfy the three-term recurrence at every order. Linear prediction coefficients solve the normal equations of the second half of the data (an odd number of points, or more coefficients than half the points, is refused), and every predicted value is their linear combination of the values just before it.',
     'all data sets, functions, orders and step counts', 'Tests compare one numerical case or none.',
     ['src/AkimaSpline.h', 'src/RungeKutta.h', 'src/RootFindingBisection.h', 'src/ChebyshevFunction.h', 'src/ChebyshevFunctionExplicit.h', 'src/LinearPrediction.h'], [('interpolation', 'AkimaSpline::operator()'), ('time step', 'RungeKutta::solve'), ('root finding', 'RootFindingBisection')], 'returned values', claim=True)
prop('P14', 'Tridiagonal matrices and continued fractions denote the same operator',
     'A tridiagonal object expands into exactly the dense matrix with its diagonal and couplings, and evaluating a continued fraction built from it gives weight times the first diagonal element of the resolvent [z - s(E - T)]^-1 of that matrix. A plot holds that value at every requested frequency (and never writes outside the points it was given), and the plot of a collection is the sum of the plots of its members. Appending keeps every stored coefficient in order.',
     'all sizes and coefficients', 'Tests only print spectra for one Hamiltonian.',
     ['src/TridiagonalMatrix.h', 'src/ContinuedFraction.h', 'src/ContinuedFractionCollection.h'], [('dense form', 'TridiagonalMatrix::buildDenseMatrix'), ('evaluation', 'ContinuedFraction::iOfOmega')], 'dense entries, function values', claim=True)
prop('P15', 'Sparse vectors and sparse rows denote the vector they were filled with',
     'Collecting entries in any order, sorting and merging duplicates, converting to dense or into a sparse matrix row, scaling and scalar products all agree with dense arithmetic on the denoted vector.',
     'all index/value sequences including repeats, all orders', 'No test covers these classes.',
     ['src/SparseVector.h', 'src/SparseRow.h', 'src/SparseRowCached.h'], [('sort and merge', 'SparseVector::sort'), ('finalise', 'SparseRow::finalize')], 'components', claim=True)
prop('P16', 'Logical predicates and operator expressions evaluate to their meaning',
     'A comparison word-operator-word is split at the first place where one of ==, !=, <=, >=, >, <, %% starts (the longest one there); both sides get the values of the names put in, are split at colons and evaluated as prefix expressions, and the comparison is true exactly when the two values stand in that relation (%% is divisibility). A conjunction (split at &) is true exactly when all its comparisons are, a disjunction (split at commas) exactly when one of its conjunctions is; the empty predicate is never true. A set of options contains exactly the comma-separated words given; a word that is not registered is refused in strict mode, and nothing is set when disabled. An operator text is its label, its degree of freedom after a question mark and whether it ends in an apostrophe; its site is what lies between the last opening and the last closing bracket. A bra or ket is gs, time, P<n>, Q<n>, R<n>, X<m>, P<n>X<m> or Q<n>X<m>, with or without its delimiters, and gives exactly those numbers. Malformed text (no operator, an empty side, unmatched brackets, a missing or non-digit number, an incomplete expression, division by zero) is refused with an exception, not silently accepted, and evaluation always ends.',
     'all well-formed and malformed texts, all variable assignments', 'Tests evaluate a couple of expressions; several of these classes are not compiled by any test.',
     ['src/PredicateSimple.h', 'src/PredicateAwesome.h', 'src/OneOperatorSpec.h', 'src/GetBraOrKet.h', 'src/Options.h', 'src/CanonicalExpression.h', 'src/QuasiCanonical.h', 'src/ExpressionForAST.h'],
     [('predicates', 'PredicateSimple::isTrue, PredicateAwesome::isTrue'), ('operator text', 'OneOperatorSpec, GetBraOrKet')], 'returned truth values and parts', claim=True)
prop('P17', 'Random sequences are reproducible and in range',
     'The Mersenne twister follows its defining rules for every seed and at every position: seeding fills 624 words by x[k] = 1812433253*((x[k-1] xor (x[k-1]>>30)) + k) mod 2^32, every 624 draws the state is renewed by the MT19937 recurrence, and each draw is the next word with the MT19937 tempering; its real draws are in [0,1]. RandomForTests is the minimal standard generator (x -> 16807 x mod 2^31-1), its draws strictly between 0 and 1. For each generator the same seed (and rank) gives the same sequence.',
     'all seeds, all positions in the sequence', 'Tests look at one seed and a few draws.',
     ['src/MersenneTwister.cpp', 'src/RandomForTests.h', 'src/Random48.h'], [('state recurrence and tempering', 'MersenneTwister')], 'drawn numbers', claim=True)
prop('P18', 'Writing data to disk and reading it back returns the same data',
     'Every matrix, vector or scalar written to the archive format reads back equal, for every size including empty and every nesting of groups, and a failed or partial write is reported.',
     'all objects and sizes, all crash points', 'Tests write one file.', ['src/Io'], [('serialisation', 'IoSerializer write/read')], 'objects read back', na=
     'The deciding behaviour sits in the HDF5 C++ library (no source, heavy template wrappers over opaque handles); a contract would assume the round trip it should prove.', over=('inputs', 'crash_points'))
prop('P19', 'Eigenvalue solvers converge to the requested part of the spectrum',
     'The iterative solvers return a ground state energy and vector that satisfy the eigenvalue equation to the requested tolerance.',
     'all Hermitian operators', 'Tests compare one Hamiltonian.', ['src/LanczosSolver.h', 'src/LanczosCore.h', 'src/DavidsonSolver.h'], [('iteration', 'LanczosCore::decomposition')], 'energy and vector', na=
     'Convergence to a tolerance in floating point is not expressible in the exact-arithmetic contracts available here, and no rounding-aware prover is installed.')
prop('P20', 'Concurrent execution is free of data races and deadlocks',
     'Worker threads never race on shared state, every thread is joined, and results do not depend on the schedule.',
     'all schedules', 'Tests sample a few schedules.', ['src/PthreadsNg.h', 'src/ConcurrencyMpi.h'], [('thread pool', 'PthreadsNg')], 'results', na=
     'The verifier is sequential (no ownership or rely-guarantee logic for the C++ thread API is available offline); the schedule-independent part, the exact partition of tasks, is P07.', over=('schedules',))
