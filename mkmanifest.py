#!/usr/bin/python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
R = 'contracts on the real functions, executed symbolically from /repo on every run; obligations discharged by polynomial normal form (verification conditions over exact reals)'
PROOF_NOTE = ('Deductive over the coefficients: for each enumerated signature/subspace case the real function is run on free symbolic '
              'coefficients and every postcondition component is discharged as a polynomial identity for all real values. '
              'Signatures, subspaces and shapes are enumerated up to the bound stated in the evidence (and sampled above it, which counts as bounded). '
              'Trusts CPython, numpy object arrays, dv/ring.py and dv/spec.py; floating point is read as exact reals.')
TT = 'contracts on the real functions, executed on symbolic kernels over arbitrary subspaces (engine T); obligations discharged by kernel normal form and z3 for all subspaces, algebras and coefficients; contracts over coefficients of enumerated subspaces (polynomial normal form) beside them'
T_NOTE = ('Deductive, without bound: the real functions of numga.operator / numga.multivector / numga.backend run on kernels whose axes are labelled by arbitrary blade sets of an arbitrary algebra (dv/tensor.py); '
          'callees are replaced by their contracts (blade products: C01, set operations: C03). Evidence counts these obligations as "kernel normal form" and "z3 kernel conditions". '
          'The obligations counted as "normal-form" hold for all coefficients of enumerated signatures and subspaces; those counted as "enumeration" and "bounded evaluations" are finite. '
          'Trusts dv/tensor.py (semantics of the numpy operations met, symbolic arrays), z3, dv/ring.py, dv/spec.py, CPython, numpy; jax/torch are read by numpy semantics; floats are exact reals.')
SS = 'contracts on the real set code; verification conditions over arbitrary finite blade sets (engine S, AST of the real functions) discharged by z3, and the same contracts decided by execution on enumerated sets'
S_NOTE = ('z3 obligations hold for every set of every algebra (axioms of blades proved on 32-bit words in the same run); constructors by name, histories and values are enumerated up to the bounds in the evidence. '
          'Trusts dv/pvc.py and dv/sets.py (semantics of the Python subset), z3.')
T = {}
def claim(pid, technique=R, level='proof', note=PROOF_NOTE):
	T[pid] = dict(property=pid, quick_cmd=f'/opt/venv/bin/python /verif/run.py {pid}',
	              thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python /verif/run.py {pid}',
	              evidence_file=f'evidence/{pid}.json', technique=technique, level=level, level_note=note)
for p in '13 14 15 16 20'.split(): claim('C' + p)
for p in '02 04 05 06 07 08 09 10 11 12 21'.split(): claim('C' + p, TT, note=T_NOTE)
for p in ('03', '22'): claim('C' + p, SS, note=S_NOTE)
claim('C19', 'frame conditions of every function by ownership analysis of the real source (engine F), cache invariants by z3 (engine P); the same conditions decided by execution on marked operands over enumerated operations and histories',
	note='Deductive for all inputs, shapes and histories: each store of each function goes to storage allocated in the same activation, or to a cache whose invariant (entry = new computation) is proved. Trusts dv/frame.py (external functions outside the listed in-place ones assign nothing; the attributes that hold arrays), dv/pvc.py, z3, functools.cache. Counted as "enumeration" and "bounded evaluations": operations, shapes and histories that are executed.')
claim('C01', 'contracts on the real bit-level functions, executed on symbolic machine words (dv/bits.py) for every n = 1..32; obligations discharged by algebraic normal form over GF(2) (complete for these identities)',
	note='For each n = 1..32 the real Algebra.product/cayley/grade/reverse/involute/complement/pseudo_scalar_squared run on symbolic blades a, b and a symbolic signature; every output bit and sign is compared in canonical form with the generator calculus, so all blades and all signatures are covered. Trusts dv/bits.py, numpy dtype/stride rules (taken from real arrays), and the masks of AlgebraDescription (enumerated up to n = 7/8).')
claim('C17', 'contracts on the real dispatch code; verification conditions generated by symbolic evaluation of its AST (dv/pvc.py) and discharged by z3; histories explored on the real code as labelled bounded stand-in',
	note='register/__get__/call/wrapper of the dispatcher are evaluated from their source in /repo on every run over an arbitrary option list and cache; z3 discharges first-match, cache-soundness and frame obligations for 0..4 arguments. Trusts dv/pvc.py (semantics of the Python subset), z3, and that conditions are pure functions of subspaces.')
claim('C18', 'contracts on the real parsers of descriptions and names: verification conditions over arbitrary texts from their AST (engine P), tiling invariant found by Houdini, discharged by z3; naming and construction decided by executing the real code over enumerated descriptions, names and permutations', 'other',
	'Mixed: parsing, printing, masks, (p, q, r) and products of descriptions, lookup of blades and subspaces by name and the constructors are proved for every text, name set, signature and number of values (z3 obligations over the AST; dv/strings.py, dv/words.py trusted; callees by contract). The same operations are also enumerated on the real code (bounds in the evidence); what composes the proved pieces - wedge of generators to a signed blade, coercion of values, caches - is decided by that enumeration, not proved.')
claim('C23', 'contracts on the real code: the step, any number of steps and the normalisation executed on symbolic coefficients and compared as rational functions (polynomial normal form); loop invariant and contraction lemmas by z3; labelled bounded floating point runs', 'other',
	'Mixed: the real inverse_sandwich and normalize_motor run on symbolic motors with numpy.linalg.solve under its contract (exact solution); the step identity and residual recursion are discharged for every x and s of subspaces of at most two blades (all of them below five dimensions), the loop for any number of iterations (z3 over its AST), contraction on real, dual and complex characters by z3 (nonlinear reals). Five dimensions with six blades: exact rational samples; default parameters in double precision: bounded samples. Rounding and the precision reached by a fixed number of steps are not proved.')
claim('C24', 'contracts on the real code decided by forward error analysis: the functions of /repo are executed on error intervals that stand for every input of a box, one bound per result coefficient in the standard rounding model, truncation of the bisection by a norm lemma; labelled bounded runs against exact rationals', 'other',
	'For every input of the stated boxes (cases enumerate algebras, operations and subspaces) each result coefficient gets a rounding bound from executing the real code on error intervals; sums are charged for every order of summation, so numpy kernels need no assumed order. Standard model assumed; exact value of the bisection functions from C15, ranges of iterated roots from C14. A bound that is not met is undecided unless sampled inputs, compared with exact rationals, violate the distance.')
exec(open(os.path.join(HERE, 'claims.py')).read()) if os.path.exists(os.path.join(HERE, 'claims.py')) else None
NA = {
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[T[i] for i in ids if i in T],
         not_applicable=[dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in T],
         notes='No hooks in /repo: all contracts are sidecars under /verif/dv/checks that import and execute the code of /repo. VERIF_REPO selects another tree.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
