PROPS = {
    'P01': {'modules': ['crs', 'crs_lin'], 'harness': 'crs.cpp', 'bounded': {'crs.cpp': ['crs_pluseq', 'crs_sum', 'crs_operatorPlus']},
        'assumptions': ['the nonzeros of both operands together are fewer than 2^31 (row pointers are int)', 'sum(A, list, coefficients) and a += x*(m1*m2) are bounded only']},
    'P02': {'modules': ['crs_mul', 'crs_prod', 'crs_tc'], 'harness': 'crs.cpp', 'bounded': {'crs.cpp': ['crs_multiply', 'crs_multiplyVec', 'crs_matrixVectorProduct']},
        'assumptions': ['a product of sparse matrices takes fewer than 2^31 scalar products (row pointers are int), operands are not empty']},
    'P03': {'modules': ['crs_t', 'crs', 'crs_conv', 'crs_trip'], 'harness': 'crs.cpp', 'bounded': {'crs.cpp': ['crs_dense', 'crs_denseReuse', 'crs_triplet', 'crs_fromBlockToFull', 'crs_swap', 'crs_externalProduct',
            'crs_predicates', 'crs_text', 'crs_makeDiagonal', 'crs_transposeConjugate']},
        'assumptions': ['shapes and entry counts below 2^31 (row pointers are int); an embedded block lies inside the target', 'the square modulus std::norm and the modulus of a complex number are uninterpreted, with |x| >= 0 and |x| = 0 for x = 0 only', 'externalProduct (both), the text form and conversions from VerySparseMatrix are bounded only']},
    'P06': {'modules': ['sort'], 'harness': 'sort.cpp', 'bounded': {'sort.cpp': ['sort', 'sort_big']}},
    'P07': {'modules': ['par'], 'harness': 'par.cpp', 'bounded': {'par.cpp': ['par_ng', 'par_weights', 'lb_weights', 'lb_default', 'par_par2', 'par_mpi'], 'par_serial.cpp': ['par_serial'], 'par_old.cpp': ['par_old']},
        'assumptions': ['at least one thread or process; fewer than 2^30 tasks and threads; start <= end; cpu affinities switched off in the contracts (the bounded check also turns them on)',
                        'the threads are followed in one schedule (each runs when created); tasks of the client do not interact']},
    'P05': {'modules': ['vec'], 'harness': 'vec.cpp', 'bounded': {'vec.cpp': ['v_mult', 'v_multr', 'v_mult2', 'v_plus', 'v_axpy', 'v_axpyr', 'v_four', 'v_minus', 'v_axmy', 'v_three', 'v_aplus', 'v_aminus', 'v_pe', 'v_pea',
            'v_me', 'v_mea', 'v_scale', 'v_div', 'v_sp', 'v_dot', 'v_sum', 'v_norm', 'v_matvec', 'v_index', 'v_text']},
        'assumptions': ['operands of one expression have equal lengths; the root of the norm is an uninterpreted square root']},
    'P10': {'modules': ['b64'], 'harness': 'b64.cpp', 'bounded': {'b64.cpp': ['b64_roundtrip', 'bits']},
        'assumptions': ['texts shorter than 2^29 bytes (lengths are int in the decoder)', 'termination of countKernighan is not an obligation (bit-vector mode)']},
    'P12': {'modules': ['sort', 'enums'], 'harness': 'enum.cpp', 'bounded': {'enum.cpp': ['perms', 'pack', 'sums']},
        'assumptions': ['fewer than 2^31 objects are enumerated (the classes count with int)', 'the list-everything mode of SumDecomposition is under contract, the other two modes are bounded only']},
    'P17': {'modules': ['rnd'], 'harness': 'rnd.cpp', 'bounded': {'rnd.cpp': ['mt', 'rft', 'r48']},
        'assumptions': ['word arithmetic modulo 2^32 is exact; in the state recurrence the exclusive or is an uninterpreted commutative function on natural numbers', 'Random48 is bounded only (the C library draws)']},
    'P15': {'modules': ['sparsev'], 'harness': 'sparsev.cpp', 'bounded': {'sparsev.cpp': ['sv_basic', 'sv_chunk', 'sv_part', 'sv_algebra', 'sv_sort', 'sv_scalar', 'sv_equal', 'sr_rows']},
        'assumptions': ['an injective map of [0,n) into itself is onto (used for the order index of Sort::sort)', 'fewer than 2^31 columns', 'SparseVector::operator== needs isAlmostZero from its user; it compares stored entries of two sorted vectors', 'norm(SparseVector<complex>) does not compile and is not covered']},
    'P04': {'modules': ['matrix'], 'harness': 'matrix.cpp', 'bounded': {'matrix.cpp': ['m_access', 'm_aminus', 'm_aplus', 'm_axpy', 'm_axpyr', 'm_conjugate', 'm_me', 'm_minus', 'm_mm', 'm_mtc', 'm_mult', 'm_multr', 'm_mv', 'm_nonZeros', 'm_norm2', 'm_outer', 'm_pe', 'm_pea', 'm_peb', 'm_plus', 'm_pred', 'm_rotate', 'm_se', 'm_setTo', 'm_setToIdentity', 'm_tc', 'm_text', 'm_view']},
        'assumptions': ['results have fewer than 2^60 entries; the target of a product, transpose or outer product is not one of its operands unless a contract says so (products and entrywise expressions allow it)', 'rotate uses BLAS and is bounded only; inverse, diag, exp and svd use LAPACK and are not covered', 'the complex square modulus std::norm is uninterpreted']},
    'P14': {'modules': ['tri'], 'harness': 'tri.cpp', 'bounded': {'tri.cpp': ['tm_basic', 'tm_diag', 'cf_value', 'cf_plot', 'cf_collection']}, 'assumptions': ['the dense eigensolver (LAPACK, called through PsimagLite::diag) is assumed: for a symmetric matrix T it returns E and U with T U = U diag(E) and orthonormal rows of U', 'the rank returned by MPI is any number (it only affects progress messages)']},
    'P08': {'modules': ['geo'], 'harness': 'geo.cpp', 'bounded': {'geo.cpp': ['g_chain', 'g_ladder', 'g_ladderx', 'g_ladderbath', 'g_star', 'g_k2', 'g_honeycomb', 'g_longrange', 'g_term', 'g_orbitals']},
        'assumptions': ['fewer than 2^62 sites (2^31 for honeycomb and ladders with baths, 2^30 for K2NiF4, whose code counts with int); the constructors, GeometryTerm and GeometryDirection are bounded only',
                        'class invariants of the lattices (sites divide into legs, at least two columns when periodic, no periodicity across one or two legs, honeycomb of even ly) are what the constructors accept']},
    'P09': {'modules': ['geo'], 'harness': 'geo.cpp', 'bounded': {'geo.cpp': ['g_chain', 'g_ladder', 'g_longrange', 'g_term', 'g_split']},
        'assumptions': ['fewer than 2^62 sites; Geometry::split of at least two sites']},
    'P11': {'modules': ['str'], 'harness': 'str.cpp', 'bounded': {'str.cpp': ['s_split', 's_replaceAll', 's_basename', 's_basenameOf', 's_class', 's_int', 's_text', 's_complex']},
        'assumptions': ['texts shorter than 2^30 characters', 'the C library conversions atoi and atof are assumed (the contracts say when they are called, and that their value is returned); stringToComplex and the conversions to text are bounded only']},
    'P13': {'modules': ['num'], 'harness': 'num.cpp', 'bounded': {'num.cpp': ['n_akima', 'n_rk', 'n_root', 'n_cheb', 'n_lp']},
        'assumptions': ['LinearPrediction::computeD (LAPACK getrf/getri and BLAS gemv) is assumed: it returns d with A d = B when A is regular', 'functions handed in (root finding, right-hand side of the differential equation) are arbitrary pure functions; the Runge-Kutta right-hand side acts on vectors in the harness only', 'Akima abscissae increase strictly; Chebyshev order m >= 0; LinearPrediction::predict2 needs GSL and is not covered']},
    'P16': {'modules': ['pred'], 'harness': 'pred.cpp', 'bounded': {'pred.cpp': ['p_site', 'p_spec', 'p_number', 'p_bra', 'p_opts', 'p_simple', 'p_awesome', 'p_expr', 'p_quasi', 'p_canon']},
        'assumptions': ['texts shorter than 2^30 characters', 'the C library atoi gives the decimal value of up to nine digits; longer numbers are not specified', 'PredicateSimple::ops_ (private, never written) holds its initial value', 'split, replaceAll and the conversion to text enter as functions of their arguments (split and replaceAll are proved under P11)', 'the value of a word list (ExpressionForAST, Tree), CanonicalExpression and the constructor of QuasiCanonical are bounded only', 'each function under contract gives the same result for the same arguments (no hidden state), as its own contract shows']},
}
