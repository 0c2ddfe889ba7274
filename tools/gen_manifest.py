"""Writes /verif/MANIFEST.json and /verif/known_findings.json."""
import json, os, subprocess
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('reference-model monitor on every element', 'compared with an independent evaluation of the d functions (exact rational/extended-precision sums), ell up to 32, rotors aimed at every branch'),
 'C02': ('trace monitor of algebraic laws (composition, unitarity, inverse)', 'the laws are checked on the code\'s own values for pairs of rotors of every kind, integer and half-integer ell up to 32'),
 'C03': ('differential monitor across calling forms and against the reference model', 'all documented forms, index orders, dtypes, shapes'),
 'C04': ('boundary monitor: refused, or zero when errors are off, never another value', 'all kinds of invalid index in every calling form, and ell beyond the table'),
 'C05': ('reference-model monitor', 's and ell up to 32, all forms, all rotor kinds, incl. the work function'),
 'C06': ('trace monitor of transformation laws, quadrature monitor of orthonormality', 'laws checked on the code\'s own values'),
 'C07': ('reference-model monitor with exact rational arithmetic', 'all small symbols enumerated, random and extreme ones up to j=600'),
 'C08': ('history monitor: calculator object reused over call sequences, against exact rationals', 'sequences of calls on one object, families complete'),
 'C09': ('reference-model monitor with exact integers', 'ranges enumerated, large arguments sampled'),
 'C10': ('complete enumeration under a reference monitor', 'every argument of the finite supported range is executed'),
 'C11': ('invariant monitor on live objects through construction, views, slicing, copies, pickling', 'shapes, ell ranges and histories sampled'),
 'C12': ('reference-model monitor: pointwise products of evaluated functions', 'every entry point of multiplication, truncations and broadcasting'),
 'C13': ('reference-model monitor on the represented functions', 'linear operations, conjugation, real and imaginary parts'),
 'C14': ('history monitor: random operation sequences shadowed by a model of (function, spin weight)', 'histories on Modes and Grid objects, plus operations that must be refused without damage'),
 'C15': ('differential monitor: in-place and out= forms against out-of-place, all aliasings', 'aliasing, dirty output arrays, broadcasting, wrong outputs refused'),
 'C16': ('reference-model monitor with exact coefficients and commutators', 'all operators, spins up to 6, ell up to 12'),
 'C17': ('reference-model and round-trip monitor', 'all five operators, ell_min different from 0'),
 'C18': ('reference-model and round-trip monitor', 'shapes and magnitudes sampled'),
 'C19': ('differential monitor between modes, grids and point evaluation', 'round trips and values against the reference model'),
 'C20': ('reference-model monitor on grid values and metadata', 'all operators, methods and ufuncs, refusals, pickling'),
 'C21': ('reference-model monitor and history monitor on workspaces', 'both recursions, n_max up to 40, arrays of any shape, reused workspaces'),
 'C22': ('reference-model monitor', 'all quadrants and axes, M from 0, output arrays of any layout'),
 'C23': ('sanitizers: guard-page allocator, numba bounds checking, two memory fill patterns, compiled/interpreted differential, canaries', 'a catalogue of supported calls over the whole package, run in four modes'),
 'C24': ('purity monitor: input hashes, poisoned results, layouts, call histories, thread stress', 'a catalogue of supported calls over the whole package'),
 'C25': ('differential monitor across components and against the reference model', 'all kinds of rotor with both parts nonzero, both calculators, n_max up to 32'),
 'C26': ('differential monitor: every comparison and test against plain arrays', 'values including nan, infinities and neighbouring floats, all forms of the other operand'),
 'C27': ('metamorphic monitor: operation of rearranged object against rearranged result', 'rearrangements, operations, leading shapes and memory layouts sampled'),
 'C28': ('metamorphic monitor: the same operation on modes, grids and points, product rule', 'pairs of functions with ell_max up to 14, grids without aliasing, sampled'),
 'C29': ('metamorphic monitor: rotations through D matrices, modes, operators and couplings', 'rotors of all kinds, ell up to 20, sampled'),
}
checks = [dict(property=p, quick_cmd='./check.sh %s --tier quick' % p, thorough_cmd='./check.sh %s --tier thorough' % p, technique='runtime monitoring: ' + t,
               level='exploration', level_note='Held on the executions run (counts in the evidence file): ' + n + '. Trusts numpy, numba, quaternion, spinsfast and, where used, mpmath; the reference mathematics is vp/ref.py (exact Python integers).')
          for p, (t, n) in T.items()]
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
           notes='No hooks are needed in /repo: all monitors observe at the public boundary. Every check imports /repo\'s working tree and compiles it into a private numba cache.')
json.dump(man, open(os.path.join(home, 'MANIFEST.json'), 'w'), indent=1)

F = {  # commit subject -> property
 'ell_max is below the spin weight': 'C19', 'ignored their input': 'C15',
 'Wigner 3-j recurrence': 'C07', 'Grid.modes raised': 'C19', 'Grid objects could not be pickled': 'C20', 'Grid error paths': 'C14', 'Grid power': 'C20', 'Grid.multiply and Grid.divide': 'C20',
 'Modes add, subtract': 'C15', 'Modes could not be multiplied or divided by scalars in place': 'C15', 'mix integers': 'C04', 'mistaken for Euler': 'C03', 'IndexError for a single ell': 'C03',
 'sf.error_on_bad_indices': 'C04', 'with an array of rotors skipped': 'C03', 'Wigner_D_matrices read outside': 'C04', 'SWSH and SWSH_grid read': 'C04', 'complex_powers could not use': 'C22',
 'complex_powers wrote outside': 'C23', 'HCalculator dropped': 'C21', 'HCalculator wrote outside': 'C23', 'truncate_ell refused': 'C11', 'multiplication_truncator=None': 'C12',
 'Grid in-place operations overwrote': 'C15', 'complex_powers ignored': 'C22', 'np.conjugate of a Modes': 'C15', 'refused read-only arrays of rotors': 'C24', 'refused read-only arrays of indices': 'C24', 'refuse ufunc methods': 'C14', 'np.abs of Modes': 'C26', '3-j families had the wrong sign': 'C08', '3-j families lost accuracy': 'C08'}
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = [v for k, v in F.items() if k in s]
    assert len(p) == 1, (s, p)
    out.append(dict(id='F%02d' % (len(out) + 1), property=p[0], status='fixed', commit=h, what=s[5:], record='fixed: property=%s %s %s' % (p[0], h, s[5:])))
json.dump(dict(findings=out), open(os.path.join(home, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'fixes')
