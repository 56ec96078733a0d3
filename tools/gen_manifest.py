"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
NOTES = {
  'C01': ('explicit enumeration of all small scalar programs x regions x degrees, executed on the implementation, against extended-precision function values', 'All compositions of two unary operations and binary combinations over a lattice of reference points, regions, degrees 0..4 and both propagation modes; containment is checked at a lattice of points of each region. Trusts numpy longdouble functions.'),
  'C02': ('explicit enumeration of all small array programs x input dims x boxes x degrees, executed on the implementation', 'Every program of the array grammar up to the stated size; containment at corners and lattice points of the box; Jacobian by exact differentiation of the reference.'),
  'C03': ('explicit enumeration of scalar programs against a jet-arithmetic reference model', 'All program shapes of C01; coefficients compared with longdouble jets.'),
  'C04': ('exhaustive enumeration of namespace functions and of programs around them', 'Every one-argument callable of jax.numpy / jax.lax / jax.nn, with all wrappers, degrees and modes.'),
  'C05': ('exhaustive enumeration of operations x operand intervals x shapes against an exact interval model', 'Exact (dyadic end points, equality) comparison with the optimal interval result; all operation chains up to depth 3.'),
  'C06': ('breadth-first exploration of operation sequences over enclosure states, checked pointwise against an interval-image model', 'All operation sequences up to the stated depth from a menu of enclosures; containment checked on a lattice of the trust region, for all member functions at once.'),
  'C07': ('exhaustive enumeration of elementwise x argument enclosures x degrees, checked pointwise', 'All combinations over a coefficient lattice.'),
  'C08': ('exhaustive enumeration of (x0, region, degree, exponent) over a lattice including all critical points', 'Containment at lattice points with longdouble reference values.'),
  'C09': ('exhaustive enumeration of (x0, region, degree, exponent) against the exact remainder-ratio range', 'End points compared with ratio values; fallback with exact derivative range.'),
  'C10': ('exhaustive enumeration of function ids x intervals against longdouble derivatives, ranges and extrema', 'Every function id and derivative order; all intervals over a lattice that includes all critical points.'),
  'C11': ('exhaustive enumeration of polynomials over a free commutative algebra and over intervals', 'Symbolic (free algebra) execution of the real code by value substitution: exact for all coefficients at once for every length/exponent up to the bound.'),
  'C12': ('exhaustive enumeration of patterns and subject graphs against a brute-force matcher and an evaluator', 'All graphs up to the stated size over a small alphabet.'),
  'C13': ('exhaustive enumeration of pattern/replacement/subject jaxprs, evaluated', 'All jaxprs of the grammar up to the bound, with every variable-counter history of the menu.'),
  'C14': ('enumeration of all operation histories up to a length, compared with a fresh process', 'Every order of calls, failures, registrations and precision switches of the menu.'),
  'C15': ('exhaustive differential enumeration numpy / jax / scalar / batched', 'All operations of the library over the operand lattice.'),
  'C16': ('explicit enumeration of scalar programs in both modes', 'Same program space as C01.'),
  'C17': ('enumeration of all registration/bound histories with recording enclosure functions', 'Every history of the menu up to the stated length.'),
  'C18': ('exhaustive enumeration of programs x degrees x modes, traced and eager', 'jit and vmap of taylor_bounds compared with eager coefficients.'),
  'C19': ('stateless model checking: all interleavings of real threads up to a preemption bound under a controlled scheduler', 'Scheduling points at every line of library code; re-entry at every registered callback.'),
  'C20': ('enumeration of coefficient structures and breadth-first exploration of the step-size loop', 'All accessors and all runs of the safe-step loop from a lattice of starting points.'),
  'C21': ('exhaustive enumeration of functions x (x0, region) triples x degrees against exact remainder-ratio ranges', 'Every function of the table at every lattice triple where its k-th derivative is monotone (or its Hessian even and decreasing); longdouble remainder ratios.'),
  'C22': ('exploration of the lattice of nested trust regions for every program of the grammar', 'Every covering step of the shrinking lattice; the bounds for the two regions are compared with each other (no model needed).'),
  'C23': ('exhaustive enumeration of programs x symmetry transformations, executed on the implementation', 'Every program of the grammar under every listed transformation; the two results are compared coefficient by coefficient (no model needed).'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(V / 'properties.jsonl')]
checks, na = [], []
for p in props:
  if (V / 'mc' / 'checks' / f'{p.lower()}.py').exists():
    t, n = NOTES[p]
    checks.append(dict(property=p, quick_cmd=f'./check.sh {p} --tier quick',
                       thorough_cmd=f'./check.sh {p} --tier thorough',
                       evidence_file=f'evidence/{p}.json',
                       technique='model checking: ' + t,
                       level='model_checking', level_note=n + ' Bounds are in the evidence file; nothing is claimed beyond them.'))
  else:
    na.append(dict(property=p, reason=NA.get(p, 'the check is not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import jax, numpy"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks drive the public API only. One exhaustive explorer (mc/core.py) runs all checks.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks')
