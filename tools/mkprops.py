"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['spherical_functions/'+f for f in files],
                               mechanism=[dict(name=n, where='spherical_functions/'+w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop('C01', 'Wigner D elements have the mathematically defined values',
 "For every unit rotor - generic, exactly at a pole (one of the two complex parts zero), or arbitrarily close to one - and every valid integer or half-integer (ell, mp, m) up to the supported maximum ell of 32, the returned Wigner D element equals the documented mathematical value, conj(exp(-i mp alpha) d^ell_{mp,m}(beta) exp(-i m gamma)) with the standard Wigner d, to within accumulated roundoff.  This holds for element-wise evaluation, for evaluation over arrays of rotors, and for the full-matrix evaluation Wigner_D_matrices for every ell_min <= ell_max.",
 ['inputs'], 'all unit quaternions x all (ell, mp, m), 0<=2*ell<=64',
 'Tests compare values only against sympy for a few indices or the formula on multiples of pi/4 at low ell; rotors are 80 special quaternions plus 20 random ones, and nothing sits between 1e-15 and 1e-2 of a pole except one underflow test.',
 ['WignerD/__init__.py', '__init__.py', 'Wigner_coefficients.npy'],
 [('four branches on |Ra|,|Rb| with Horner sum', 'WignerD/__init__.py:_Wigner_D_element'), ('symmetry-filled matrices', 'WignerD/__init__.py:_Wigner_D_matrices'), ('vector kernel', 'WignerD/__init__.py:_Wigner_D_elements')],
 ['Wigner_D_element', 'Wigner_D_matrices', '_Wigner_D_element', '_Wigner_D_matrices'])

prop('C02', 'D matrices are a unitary representation of the rotation group',
 "For all unit rotors R1, R2 and every ell (integer or half-integer, up to 32) the computed matrices satisfy D(R1 R2) = D(R1) D(R2), D(conjugate R) = conjugate transpose of D(R), D(R) D(R)^dagger = 1, D(1) = 1 and D(-R) = (-1)^(2 ell) D(R), to roundoff.  The element symmetry D_{-mp,-m} = (-1)^(mp-m) conj D_{mp,m} holds as well.",
 ['inputs'], 'all pairs of unit quaternions, including pairs whose product lands at or next to a pole; all ell <= 32 incl. half-integers',
 'The representation property is tested for a fixed list of pairs with ell<=8 and only where products of special quaternions land; half-integer ell are covered at ell<=8 only.',
 ['WignerD/__init__.py'],
 [('branch-independent conventions', 'WignerD/__init__.py:_Wigner_D_element'), ('symmetry-filled matrices', 'WignerD/__init__.py:_Wigner_D_matrices')],
 ['Wigner_D_element', 'Wigner_D_matrices'])

prop('C03', 'All calling forms of the Wigner D functions agree',
 "Every documented way of asking for the same D elements - one quaternion, an array of quaternions of any shape, the complex parts (Ra, Rb), Euler angles; with explicit (ell, mp, m), an index array, a list of ells, or one ell - returns the same values in the documented order and shape (a scalar for one quaternion with explicit indices, an array of the rotors' shape for rotor arrays, a 1-d array in input order otherwise).  Wigner_D_matrices returns exactly the elements listed by LMpM_range(ell_min, ell_max), in that order, and the array work functions fill every requested element and nothing else.",
 ['inputs', 'configurations'], 'all calling forms x rotors x index lists (any order, repeats, mixed integer/half-integer ell)',
 'Tests use two or three of the forms, always with indices in standard order, and never call the rotor-array form with half-integer indices or multi-dimensional arrays.',
 ['WignerD/__init__.py', '__init__.py'],
 [('argument dispatch', 'WignerD/__init__.py:Wigner_D_element'), ('linear offsets', 'WignerD/__init__.py:_linear_matrix_offset')],
 ['Wigner_D_element', 'Wigner_D_matrices', '_Wigner_D_element', '_Wigner_D_matrices', 'LMpM_range'])

prop('C04', 'Invalid or unsupported indices never produce a made-up value',
 "A Wigner D request with invalid indices (|m| or |mp| above ell, negative ell, ell above the supported 32, or integers mixed with half-integers) raises ValueError in every calling form (in a list of ells, a negative ell simply has no elements); after setting sf.error_on_bad_indices = False it returns exactly 0.0 for those entries and correct values for all others, and setting it back to True restores the errors.  Spin-weighted harmonics with |m|>ell or |s|>ell are exactly 0.0, and ell above 32 is refused with an error by Wigner_D_matrices, SWSH, SWSH_grid and mode evaluation.",
 ['inputs', 'histories'], 'all index triples in and around the valid set, in all calling forms, under any sequence of switch settings',
 'Tests never flip the switch and check the exception for a handful of triples in one calling form.',
 ['WignerD/__init__.py', 'SWSH/__init__.py', '__init__.py'],
 [('index validation', 'WignerD/__init__.py:_check_valid_indices'), ('run-time switch', '__init__.py:error_on_bad_indices')],
 ['Wigner_D_element', 'Wigner_D_matrices', 'SWSH', 'SWSH_grid', 'Modes.evaluate'])

prop('C05', 'SWSH values equal their definition in every calling form',
 "For every unit rotor R (at, near and away from the poles), every integer spin weight s and every (ell, m) with ell <= 32, the spin-weighted spherical harmonic equals (-1)^s sqrt((2 ell+1)/(4 pi)) D^ell_{m,-s}(R), and is exactly 0.0 where ell<|s| or |m|>ell.  The same values come from one rotor with an index array, from a rotor array of any shape with one (ell, m) pair (result has the rotors' shape), and from SWSH_grid (rotors' shape plus one axis in standard order from ell=0).",
 ['inputs'], 'all unit quaternions x all s x all (ell,m), |s|,|m| <= ell <= 32; all calling forms and shapes',
 'Tests fix |s|<=8 or so, use angles at multiples of pi/4 and 100 rotors; the vector form and the grid form are compared on few indices.',
 ['SWSH/__init__.py'],
 [('kernels with four branches', 'SWSH/__init__.py:_SWSH'), ('vector kernel', 'SWSH/__init__.py:_SWSHs'), ('grid loop', 'SWSH/__init__.py:SWSH_grid')],
 ['SWSH', 'SWSH_grid', '_SWSH'])

prop('C06', 'SWSHs transform and normalise as spin-weighted harmonics must',
 "For every s and ell the computed harmonics obey: right-multiplying the rotor by a rotation by gamma about z multiplies the value by exp(-i s gamma); left-multiplying by R1 mixes the m components with D(R1); complex conjugation maps (s, m) to (-s, -m) with the factor (-1)^(s+m); negating the rotor changes nothing.  Over the sphere they are orthonormal for each fixed s, and at every point the sum over m of |sYlm|^2 is (2 ell+1)/(4 pi).",
 ['inputs'], 'all rotors and rotor pairs, all s, all ell up to 32 (orthonormality up to the quadrature used)',
 'Tests check the spin phase and conjugation for low |s| on special angles; no test checks rotation mixing, completeness over m or orthonormality.',
 ['SWSH/__init__.py', 'WignerD/__init__.py'],
 [('kernels with four branches', 'SWSH/__init__.py:_SWSH')],
 ['SWSH', 'SWSH_grid'])

prop('C07', 'Wigner 3-j and Clebsch-Gordan coefficients are exact to roundoff',
 "For all integer arguments the Wigner 3-j symbol equals its exact (Racah) value to roundoff and is exactly 0.0 whenever a selection rule is violated (m's not summing to zero, |m|>j, triangle inequality), and permuting columns or flipping all m's changes it only by the required sign.  The Clebsch-Gordan coefficient <j1 m1 j2 m2|j3 m3> equals its exact value in the Condon-Shortley convention.",
 ['inputs'], 'all integer (j1,j2,j3,m1,m2,m3), valid and invalid, with j up to 150',
 'Tests compare with a table for j<=8 and never call the Clebsch-Gordan function; special branches of the recurrence (undefined ends, single-term families, large j) are barely reached.',
 ['recursions/wigner3j.py'],
 [('two-sided Luscombe-Luban recurrence', 'recursions/wigner3j.py:Wigner3jCalculator.calculate'), ('argument permutation', 'recursions/wigner3j.py:Wigner3j'), ('CG conversion', 'recursions/wigner3j.py:clebsch_gordan')],
 ['Wigner3j', 'clebsch_gordan'])

prop('C08', 'A 3-j calculator gives the whole family, whatever it computed before',
 "A calculator created for (j2_max, j3_max) returns, for every j2<=j2_max, j3<=j3_max and all m2, m3, an array indexed by j1 whose valid entries are the exact 3-j symbols and whose every other entry is exactly 0.0.  The result depends only on the arguments of that call - not on earlier calls on the same or another calculator, on the size the calculator was created with, or on what the caller wrote into an earlier result - and satisfies the orthogonality sums.",
 ['inputs', 'histories'], 'all argument tuples and all sequences of calls on shared calculators',
 'Tests build one calculator and call it in one fixed loop order with j<=8; entries outside the valid range and reuse with smaller arguments are not asserted.',
 ['recursions/wigner3j.py'],
 [('workspace reset', 'recursions/wigner3j.py:Wigner3jCalculator.calculate')],
 ['Wigner3jCalculator.calculate'])

prop('C09', 'Mode and matrix index functions are consistent bijections',
 "For every 0 <= ell_min <= ell_max, LM_range and LMpM_range list each (ell,m) respectively (ell,mp,m) exactly once in the documented order, LM_index/LMpM_index return the position of each entry, LM_total_size/LMpM_total_size the length, and LM_deduce_ell_max recovers ell_max from the length and raises ValueError for every impossible length; LMpM_range_half_integer does the same for half-integers.  theta_phi(n_theta, n_phi) is the equi-angular grid with theta from 0 to pi inclusive and phi from 0 to 2 pi exclusive, in (theta, phi) order.",
 ['inputs'], 'all ell_min, ell_max, sizes and indices (not only up to 32)',
 'Tests loop over ell<=8 or so with ell_min=0..; LM_deduce_ell_max is never tested on invalid sizes, and theta_phi not at all.',
 ['__init__.py'],
 [('closed forms for sums', '__init__.py:LM_index, LMpM_index, LM_total_size, LMpM_total_size')],
 ['LM_range', 'LM_index', 'LM_total_size', 'LM_deduce_ell_max', 'LMpM_range', 'LMpM_range_half_integer', 'LMpM_index', 'LMpM_total_size', 'theta_phi'])

prop('C10', 'Coefficient functions return the right number for every argument',
 "For every argument in the supported range, factorial(n) (n<=170), binomial_coefficient(n,k) (0<=k<=n<=64), ladder_operator_coefficient(ell,m) = sqrt(ell(ell+1)-m(m+1)) and Wigner_coefficient(ell,mp,m) = sqrt((ell+m)!(ell-m)!/((ell+mp)!(ell-mp)!)) C(ell+mp, rho) C(ell-mp, ell-m-rho) with rho = max(0, mp-m), integer and half-integer up to ell=32, equal the exact values to a few units in the last place.",
 ['inputs'], 'every argument of the finite supported ranges (enumerated completely)',
 'Tests sample the tables through formulas at low indices with loose tolerances; an error in one high entry of a binary table is invisible to them.',
 ['__init__.py', 'binomial_coefficients.npy', 'ladder_operator_coefficients.npy', 'Wigner_coefficients.npy'],
 [('table lookup', '__init__.py:_Wigner_index, _ladder_operator_coefficient, binomial_coefficient')],
 ['factorial', 'binomial_coefficient', 'ladder_operator_coefficient', 'Wigner_coefficient'])

prop('C11', 'Modes objects keep data, spin weight and ell range consistent',
 "A Modes object built from any valid input (any leading shape, any ell_min, any spelling of the arguments) holds exactly the given weights at index(ell, m) for ell>=|s|, zeros for all other ell below, and reports the right s, ell_min=0, ell_max and n_modes; impossible sizes, a missing spin weight and out-of-range (ell, m) raise ValueError.  Copies (copy(), copy.copy, copy.deepcopy, every pickle protocol), views, slices of leading axes, zeros_like and truncate_ell keep the metadata right, and no later operation on one object changes the data or metadata of an independent copy.",
 ['inputs', 'histories'], 'all inputs to the constructor and all sequences of copies, slices, truncations and in-place operations',
 'Tests construct one shape per spin with |s|<=2 and ell_max=8 and pickle one object; truncation, slicing then operating, and metadata aliasing are not asserted.',
 ['SWSH_modes/__init__.py', 'SWSH_modes/utilities.py'],
 [('metadata propagation', 'SWSH_modes/__init__.py:__new__, __array_finalize__, __reduce__, __setstate__'), ('mode lookup', 'SWSH_modes/utilities.py:index, truncate_ell')],
 ['Modes', 'Modes.index', 'Modes.truncate_ell', 'pickle', 'copy'])

prop('C12', 'Multiplying mode weights multiplies the functions pointwise',
 "The product of two mode expansions (Modes * Modes, np.multiply, Modes.multiply, or the array function multiply with any ell_min) is the expansion of the pointwise product of the functions: at every rotor its value is the product of the values, its spin weight is the sum, and its ell_max is the sum of the ell_max's.  With a truncator (argument or stored, the larger winning) the result is exactly the full product restricted to ell up to the truncator's value of (ell_max of the first, ell_max of the second), and a stored truncator stays with copies, pickles, slices and results of operations on the object; leading axes broadcast as in numpy; input weights at ell<|s| are ignored; and multiplication by scalars or leading-shape arrays scales the function.",
 ['inputs'], 'all pairs of spin weights, ell ranges, weights, broadcastable leading shapes and truncators',
 'Tests use |s|<=2, a few ell_max and products of single modes; truncators other than max, broadcasting of unequal leading shapes, and ell_min>0 are hardly or not covered.',
 ['multiplication.py', 'SWSH_modes/algebra.py', 'SWSH_modes/ufuncs.py', 'recursions/wigner3j.py'],
 [('3-j expansion', 'multiplication.py:_multiplication_helper'), ('truncation rules', 'SWSH_modes/algebra.py:multiply')],
 ['Modes.multiply', 'np.multiply', 'multiply'])

prop('C13', 'Linear operations and conjugation on Modes act on the function',
 "Addition and subtraction of Modes of equal spin weight (any two ell_max, any broadcastable leading shapes), negation, multiplication and division by scalars or leading-shape arrays, conjugation (method, bar, np.conjugate, in place), and for spin 0 the real and imaginary parts, give Modes whose function values at every rotor are the corresponding operation on the values; conjugation flips the sign of the spin weight.  norm() is the L2 norm of the function over the sphere for each leading index.",
 ['inputs'], 'all spin weights, ell ranges, weights, leading shapes',
 'Tests check one leading shape, |s|<=2 and ell_max=8; equal ell_max almost everywhere, no unequal leading shapes.',
 ['SWSH_modes/algebra.py', 'SWSH_modes/ufuncs.py'],
 [('mode relations', 'SWSH_modes/algebra.py:conjugate, _real_func, _imag_func, add, subtract, norm'), ('ufunc dispatch', 'SWSH_modes/ufuncs.py:__array_ufunc__')],
 ['Modes operators', 'np.add', 'np.subtract', 'np.conjugate', 'Modes.real', 'Modes.imag', 'Modes.norm'])

prop('C14', 'Spin weights stay right through any history; nonsense is refused',
 "Through any sequence of operations on Modes and Grid objects, each result's spin weight and function values are what the mathematics of spin-weighted functions dictates.  Operations without meaning are refused with an exception and leave their operands unchanged: adding or subtracting different spin weights or a nonzero constant where not allowed, dividing by Modes, real/imaginary parts of nonzero spin, factors that would act on individual mode weights or grid values, mismatched grids, roots of odd spin weight, non-integer powers, reductions, outer products and other ufunc methods acting on individual weights or values, and ufuncs such as exp, log or sin.",
 ['histories', 'inputs'], 'all finite sequences of legal and illegal operations on pools of Modes and Grid objects',
 'Tests exercise single operations on fresh objects; no test composes operations or checks the operands after a refusal.',
 ['SWSH_modes/ufuncs.py', 'SWSH_modes/algebra.py', 'SWSH_grids/ufuncs.py', 'SWSH_grids/algebra.py', 'SWSH_modes/utilities.py'],
 [('whitelisted ufuncs', 'SWSH_modes/ufuncs.py:__array_ufunc__'), ('whitelisted ufuncs', 'SWSH_grids/ufuncs.py:__array_ufunc__'), ('broadcast guard', 'SWSH_modes/utilities.py:_check_broadcasting')],
 ['Modes and Grid operators and methods'])

prop('C15', 'In-place and out= forms give the out-of-place result',
 "For Modes and Grid, every augmented assignment and every supported ufunc called with out= (a Modes/Grid or a plain complex array, fresh, filled with old data, the same object as an input, or sharing part of its memory) leaves in the output exactly the values and metadata of the out-of-place operation, and does not change inputs other than the output; conjugate(inplace=True) likewise.  If the output cannot hold the result the call raises and the inputs keep their values.",
 ['inputs', 'histories'], 'all supported ufuncs x output kinds x aliasing patterns x previous contents of the output',
 'Tests never pass out= and use augmented assignment nowhere.',
 ['SWSH_modes/ufuncs.py', 'SWSH_grids/ufuncs.py', 'SWSH_modes/algebra.py', 'SWSH_grids/algebra.py'],
 [('out handling', 'SWSH_modes/ufuncs.py:__array_ufunc__'), ('out handling', 'SWSH_grids/ufuncs.py:__array_ufunc__')],
 ['ufuncs with out=', 'augmented assignment', 'conjugate(inplace=True)'])

prop('C16', 'Derivative operators act as the documented Lie derivatives',
 "For Modes of any spin weight, ell_max and leading shape, Lz, L+, L-, L^2, Rz, R+, R-, R^2, eth and ethbar return the modes of the documented derivative of the function: Lg f(Q) = -i/2 d/dt f(exp(t g) Q) and Rg f(Q) = -i/2 d/dt f(Q exp(t g)), with L+- = Lx +- i Ly, R+- = -(Rx -+ i Ry) (the overall sign following from the documented action R- sYlm = +sqrt((l-s)(l+s+1)) s+1Ylm, R+ sYlm = +sqrt((l+s)(l-s+1)) s-1Ylm), eth = R-, ethbar = -R+.  Spin weight changes by the documented amount (eth +1, ethbar -1, R- +1, R+ -1, others 0), ell_max is kept, and the commutation relations hold.",
 ['inputs'], 'all spin weights of either sign (also |s| = ell_max and beyond), all ell_max, all leading shapes',
 'Tests check matrix formulas for |s|<=2 and ell_max=8 with one leading shape; never against derivatives of the function.',
 ['SWSH_modes/derivatives.py'],
 [('ladder factors', 'SWSH_modes/derivatives.py')],
 ['Modes.Lz', 'Modes.Lplus', 'Modes.Lminus', 'Modes.Lsquared', 'Modes.Rz', 'Modes.Rplus', 'Modes.Rminus', 'Modes.Rsquared', 'Modes.eth', 'Modes.ethbar'])

prop('C17', 'eth operators on plain mode arrays agree with definition and inverse',
 "For every spin weight s, every ell_min and ell_max and all complex weights, eth_NP and ethbar_NP multiply the (ell,m) weight by sqrt((ell-s)(ell+s+1)) and -sqrt((ell+s)(ell-s+1)) and give zero where the result's ell is below its spin weight; the GHP versions are those divided by sqrt(2); all agree with Modes.eth and Modes.ethbar.  ethbar_inverse_NP undoes ethbar_NP (and is undone by it) on every mode that ethbar does not annihilate, and none of them alters its input.",
 ['inputs'], 'all s, ell_min <= ell_max, complex weights',
 'Tests use ell_min=0 and |s|<=2, ell_max=8 and mostly single modes.',
 ['mode_conversions.py'],
 [('factor loops', 'mode_conversions.py:eth_GHP, ethbar_GHP, eth_NP, ethbar_NP, ethbar_inverse_NP')],
 ['eth_NP', 'ethbar_NP', 'eth_GHP', 'ethbar_GHP', 'ethbar_inverse_NP'])

prop('C18', 'Constants and vectors convert to and from their modes exactly',
 "constant_as_ell_0_mode and vector_as_ell_1_modes return the mode weights of the constant function and of the function v.n(theta,phi), for real or complex values and any leading shape: the function with those weights evaluates, at every direction, to the constant or to the dot product.  The *_from_* functions are their exact inverses in both directions.",
 ['inputs'], 'all real and complex scalars/arrays and vectors (of any leading shape), all directions',
 'Tests check basis vectors and one random array.',
 ['mode_conversions.py'],
 [('closed forms', 'mode_conversions.py:vector_as_ell_1_modes, vector_from_ell_1_modes')],
 ['constant_as_ell_0_mode', 'constant_from_ell_0_mode', 'vector_as_ell_1_modes', 'vector_from_ell_1_modes'])

prop('C19', 'Modes, grids and point evaluation describe the same function',
 "For Modes of any spin weight, ell_max >= 1 and leading shape, grid(n_theta, n_phi) with at least 2 ell_max+1 points each way holds the function's values at the directions of theta_phi(n_theta, n_phi) and keeps the spin weight; evaluate(rotors) gives the values at any rotors, for any rotor shape, with result shape leading axes + rotor axes.  Grid.modes() recovers the original weights (default and explicit ell_max, with zeros above the band limit and truncation below), so modes -> grid -> modes is the identity.",
 ['inputs'], 'all s, ell_max, weights, leading shapes, grid sizes >= 2 ell_max+1, rotors',
 'Tests call grid() with default sizes only, never evaluate(), and never convert a Grid object back.',
 ['SWSH_modes/utilities.py', 'SWSH_grids/utilities.py', 'SWSH/__init__.py', '__init__.py'],
 [('spinsfast transforms', 'SWSH_modes/utilities.py:grid, SWSH_grids/utilities.py:modes'), ('SWSH sum', 'SWSH_modes/utilities.py:evaluate')],
 ['Modes.grid', 'Modes.evaluate', 'Grid.modes', 'theta_phi'])

prop('C20', 'Grid arithmetic acts on function values and tracks spin weight',
 "For Grid objects of any spin weight, leading shape and grid size, +, -, *, /, unary +/-, conjugate, absolute, real/imag (spin 0), integer powers, square, sqrt (even spin) and reciprocal - as operators, ufuncs and methods - give the pointwise operation on the values with spin weight s1 (+,-), s1+s2 (*), s1-s2 (/), -s (conjugate, reciprocal), 0 (absolute), n s (power), s/2 (sqrt); scalars and leading-shape arrays broadcast against the leading axes.  Copies and every pickle protocol preserve values and metadata, and too small grids, missing spin weight or fewer than two axes are refused with ValueError.",
 ['inputs'], 'all spin weights, leading shapes, grid sizes, values, operand kinds',
 'Tests touch Grid only through Modes.grid in two comparisons; none of its algebra, ufuncs or pickling is tested.',
 ['SWSH_grids/__init__.py', 'SWSH_grids/algebra.py', 'SWSH_grids/ufuncs.py', 'SWSH_grids/utilities.py'],
 [('ufunc dispatch', 'SWSH_grids/ufuncs.py:__array_ufunc__'), ('methods', 'SWSH_grids/algebra.py'), ('metadata propagation', 'SWSH_grids/__init__.py')],
 ['Grid operators, ufuncs and methods', 'pickle', 'copy'])

prop('C21', 'H recursions reproduce the Wigner d functions for any n_max and angle',
 "For every n_max >= 0, every array of cos(beta) in [-1,1] of any shape and memory order (with or without explicit sin(beta)), both H calculators return values with d^n_{mp,m}(beta) = eps(mp) eps(-m) H^n_{mp,m}(beta) for all n <= n_max, in the documented layout (full (n,mp,m) order, respectively the wedge m>=|mp|), with trailing axes shaped like cos(beta).  Results do not depend on whether a workspace is supplied, on its previous contents, or on earlier calls; cos(beta) outside [-1,1] and negative n_max raise ValueError.",
 ['inputs', 'histories'], 'all n_max, beta arrays and shapes, and sequences of calls sharing calculators and workspaces',
 'One test compares one class up to sign at n<=4 for a single beta; the other class is never called by a test.',
 ['WignerD/WignerDRecursion.py', 'recursions/wignerH.py'],
 [('five-step recurrence', 'recursions/wignerH.py:HCalculator.__call__'), ('five-step recurrence + symmetries', 'WignerD/WignerDRecursion.py:HCalculator.__call__')],
 ['HCalculator (both modules)', 'wedge_index', 'wedgeify_index'])

prop('C22', 'complex_powers returns all powers of any unit complex numbers',
 "For unit complex z (scalar or array of any shape, in any quadrant and on the axes) and every M >= 0, complex_powers(z, M) has shape z.shape+(M+1,) and entry [..., m] equals z**m to roundoff growing at most linearly with m.  An output array of the documented shape is filled with the same values whatever it held before, and the input is not modified.",
 ['inputs'], 'all unit z, shapes and M',
 'One test with a 1-d array of angles and one M; never M=0 or 1, scalars, multi-dimensional input or a preallocated output.',
 ['recursions/complex_powers.py'],
 [('Stoer-Bulirsch recurrence per quadrant', 'recursions/complex_powers.py:_complex_powers')],
 ['complex_powers'])

prop('C23', 'No supported call reads or writes outside its arrays',
 "Whatever supported arguments it is given, no function of the package reads or writes outside the arrays involved, uses uninitialised memory, or depends on integer wrap-around: with bounds checking on nothing is reported, memory next to caller-supplied output and input arrays keeps its contents, and compiled results equal those of interpreted execution and do not depend on what freshly allocated memory contained.",
 ['inputs', 'configurations'], 'all public functions and work functions with output arguments, over argument ranges including all extremes (ell=0, ell=32, single elements, empty ranges, n_max=0, M=0)',
 'Compiled kernels skip bounds checks, so an out-of-range access usually passes silently in tests; no test runs with bounds checking or guards around buffers.',
 ['__init__.py', 'WignerD/__init__.py', 'SWSH/__init__.py', 'multiplication.py', 'recursions/wigner3j.py', 'recursions/wignerH.py', 'WignerD/WignerDRecursion.py', 'recursions/complex_powers.py', 'mode_conversions.py'],
 [('sizes computed by closed forms', '__init__.py:LM_total_size, LMpM_total_size'), ('unchecked kernels', 'all @jit functions')],
 ['all public functions', 'NUMBA_BOUNDSCHECK=1', 'NUMBA_DISABLE_JIT=1'])

prop('C24', 'Functions are pure: inputs untouched, results repeatable and independent',
 "Calling any function of the package leaves every input array bit-for-bit unchanged (other than documented outputs and in-place operations), and returns the same values when repeated - after any other calls, after the caller has overwritten previously returned arrays, for read-only, non-contiguous or Fortran-ordered inputs of equal value, and when many threads call concurrently.  Module tables and settings are never altered by a call.",
 ['histories', 'schedules', 'inputs'], 'all functions, all call histories, thread interleavings, memory layouts of the inputs',
 'Tests call functions once per input in one thread on contiguous arrays and do not look at inputs afterwards.',
 ['__init__.py', 'WignerD/__init__.py', 'SWSH/__init__.py', 'SWSH_modes/__init__.py', 'SWSH_grids/__init__.py', 'multiplication.py', 'mode_conversions.py', 'recursions/wigner3j.py'],
 [('fresh output allocation', 'all public wrappers')],
 ['all public functions', 'thread pool'])

prop('C25', 'The recursion building blocks assemble into the Wigner D matrices',
 "For every unit rotor with both complex parts nonzero, recursions.quaternion_angles returns exp(i beta), exp(i (alpha+gamma)/2) and exp(i (alpha-gamma)/2) for the rotor's Euler angles, and these, raised to powers by complex_powers and combined with the H values of either calculator at that beta, give the same Wigner D matrices as Wigner_D_element: D^n_{mp,m} = eps(mp) eps(-m) H^n_{mp,m}(beta) zp^(mp+m) zm^(mp-m), to roundoff, for every n.",
 ['inputs', 'configurations'], 'all rotors with both parts nonzero, however small, both calculators, all n up to 32',
 'No test calls quaternion_angles, and none combines the recursions with each other.',
 ['recursions/__init__.py', 'recursions/complex_powers.py', 'recursions/wignerH.py', 'WignerD/WignerDRecursion.py', 'WignerD/__init__.py'],
 [('complex angles', 'recursions/__init__.py:quaternion_angles')],
 ['quaternion_angles', 'complex_powers', 'HCalculator', 'Wigner_D_element'])

prop('C26', 'Comparing and testing Modes and Grid objects acts on the stored numbers',
 "For any Modes and Grid objects (finite or not, any leading shape) ==, !=, np.logical_and/or, np.isfinite/isinf/isnan, all and any over any axis, np.allclose, np.isclose and np.array_equal - and for Grid also <, <=, >, >= - give exactly what the same operation gives on the plain arrays of weights or values, as plain boolean results, with the object on either side of another object of the same kind, an array or a number, and with out= and where=.  Ordering Modes is refused.  np.abs of a Modes object is the plain real array of magnitudes of its weights, also written to out= when given; np.abs of a Grid is the Grid of magnitudes with spin weight 0.  The operands are left alone.",
 ['inputs', 'configurations'], 'all Modes and Grid objects and values including nan, infinities and neighbouring floats, all operations and forms of the other operand',
 'Tests use these operations as tools on a few finite objects, where a wrong answer is usually the expected one.',
 ['SWSH_modes/ufuncs.py', 'SWSH_grids/ufuncs.py'],
 [('pass-through ufuncs', 'SWSH_modes/ufuncs.py:__array_ufunc__, SWSH_grids/ufuncs.py:__array_ufunc__')],
 ['==, !=, <, <=, >, >=', 'np.isfinite, isinf, isnan', 'np.logical_and, logical_or, all, any', 'np.allclose, isclose, array_equal', 'np.abs'])

prop('C27', 'Leading axes are independent: rearranging them commutes with operations',
 "A Modes or Grid object with leading axes is a collection of independent functions.  Indexing, slicing (forwards, backwards, strided), index lists, masks, reshaping, exchanging, adding, repeating or rolling leading axes gives an object of the same kind with the same spin weight (and ell_max) and the correspondingly rearranged numbers; and every operation - arithmetic, conjugation, derivatives, norm, products, grid, modes, evaluate - applied to the rearranged object gives the rearranged result of the operation applied to the original, whatever the memory layout and however many functions there are.",
 ['inputs', 'configurations'], 'all leading shapes and rearrangements of leading axes, all operations',
 'Tests use few leading shapes and contiguous arrays, and compare whole results rather than one function of the collection with the same function alone.',
 ['SWSH_modes/__init__.py', 'SWSH_modes/algebra.py', 'SWSH_modes/derivatives.py', 'SWSH_modes/ufuncs.py', 'SWSH_modes/utilities.py', 'SWSH_grids/__init__.py', 'SWSH_grids/ufuncs.py', 'SWSH_grids/utilities.py', 'multiplication.py'],
 [('metadata of derived arrays', 'SWSH_modes/__init__.py:Modes.__array_finalize__, SWSH_grids/__init__.py:Grid.__array_finalize__'), ('ellipsis indexing', 'all operations')],
 ['Modes', 'Grid', 'numpy indexing and reshaping'])

prop('C28', 'Modes, grids, point values and derivatives form one consistent calculus',
 "For spin-weighted functions of any spin weights and band limits, doing an operation on the mode weights, on grids fine enough to avoid aliasing, or on point values describes the same function: sums, differences, scalar multiples and quotients, conjugates, products (also truncated), squares, real and imaginary parts, squared magnitudes and quotients by nowhere-vanishing functions agree in spin weight, ell_max and numbers to roundoff.  The derivatives eth, ethbar, L and R obey the product rule, (op f) g + f (op g) = op(f g), and commute with conjugation up to the known exchange and sign; the squared norm is sqrt(4 pi) times the monopole of f times its conjugate.  Inputs are left alone.",
 ['inputs', 'histories'], 'all pairs of functions (spin weights, ell_max, leading shapes, grid sizes) and all chains of operations across the representations',
 'Each test looks at one operation in one representation; an error shared by an operation and its test oracle, or a mismatch of conventions between parts, shows only across representations.',
 ['SWSH_modes/algebra.py', 'SWSH_modes/derivatives.py', 'SWSH_modes/utilities.py', 'SWSH_grids/algebra.py', 'SWSH_grids/utilities.py', 'multiplication.py'],
 [('conversions', 'SWSH_modes/utilities.py:grid,evaluate, SWSH_grids/utilities.py:modes'), ('products', 'SWSH_modes/algebra.py:multiply, SWSH_grids/algebra.py'), ('derivatives', 'SWSH_modes/derivatives.py')],
 ['Modes.multiply', 'Modes.grid', 'Modes.evaluate', 'Grid.modes', 'eth, ethbar, Lz, Lplus, Lminus, Rplus, Rminus', 'conjugate, real, imag, norm'])

prop('C29', 'D matrices, harmonics, modes, operators and 3-j symbols agree on rotations',
 "All parts of the package describe one action of rotations.  Mode weights combined with the Wigner D matrices of P give the function Q -> f(P Q) when evaluated or put on a grid; this composes like the rotors, preserves the norm and commutes with products, conjugation, eth, ethbar and the Casimir operators.  The operators L+, L-, Lz (and R+, R-, Rz between spin weights) generate exactly these rotations: their exponentials are the D matrices.  Products of D matrices decompose with the Clebsch-Gordan coefficients and 3-j families the package computes, and every form of calling for D matrices gives the same ones.",
 ['inputs', 'configurations'], 'all rotors, spin weights, ell and functions; all axes and angles; all pairs of angular momenta',
 'Tests check single components against hand-written formulas; none lets the D matrices, the modes, the operators and the 3-j symbols meet.',
 ['WignerD/__init__.py', 'SWSH/__init__.py', 'SWSH_modes/derivatives.py', 'SWSH_modes/utilities.py', 'multiplication.py', 'recursions/wigner3j.py'],
 [('D matrices', 'WignerD/__init__.py:Wigner_D_element, Wigner_D_matrices'), ('operators', 'SWSH_modes/derivatives.py'), ('couplings', 'recursions/wigner3j.py')],
 ['Wigner_D_element', 'Wigner_D_matrices', 'Modes.evaluate', 'Modes.grid', 'Lplus, Lminus, Lz, Rplus, Rminus, Rz', 'clebsch_gordan', 'Wigner3j', 'Wigner3jCalculator'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
