"""Write MANIFEST.json from properties.jsonl (levels, notes, commands)."""
import json
NA = {'C31': 'Rejection by the compiler is a property of programs that do not compile: no function of /repo runs, so there is no pre/postcondition, invariant or lemma over code that could express it; it would take a different technique (negative compilation tests).'}
TECH = 'contract-based deductive verification: per-function contracts, verification conditions generated from the LLVM IR of the current sources, discharged by z3/cvc5'
BASE = 'Every obligation is generated from /repo\'s current sources and must be proved for all inputs of the stated range, callers against callee contracts that are themselves verified in the same run. Trusted: the VC generator, clang -O0, the solvers, the models of library functions; a VC outside their reach falls back to a native search labelled bounded in the evidence.'
NOTE = {
 'C06': ' The leap-second table is the oracle (IERS Bulletin C up to 2017-01-01); dates before 1972 are outside the property.',
 'C15': ' The oracle is the same operation on mathematical integers with an overflow obligation.',
 'C19': ' Floating point is modelled by exact rounding bounds of IEEE binary64.',
 'C20': ' Floating point is modelled by exact rounding bounds of IEEE binary64.',
 'C21': ' Strings are symbolic NUL-terminated byte sequences; ctype functions are modelled for the C locale.',
 'C22': ' strtol/strtod are modelled by uninterpreted field values and end positions constrained by the C standard (any text, any length).',
 'C23': ' strtol/strtod are modelled by uninterpreted field values and end positions constrained by the C standard (any text, any length).',
 'C24': ' Relational contract: two symbolic executions that differ only in errno on entry have the same outcome.',
 'C25': ' printf/ostream formatting of integers and fixed-point numbers is modelled digit by digit.',
 'C26': ' printf/ostream formatting and strtod reading are modelled digit by digit.',
 'C29': ' Frame contracts: only the named object is written; plus an interface-wide scan that no reachable function mentions mutable global state.',
 'C30': ' All date-conversion contracts are proved again on the IR of the build with -DDEBUG, assertions included as obligations.',
}
ps = [json.loads(l) for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3-vt engine/build.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt engine/run.py ' + p['id'], 'thorough_cmd': 'python3-vt engine/run.py %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'proof', 'level_note': BASE + NOTE.get(p['id'], '')} for p in ps if p['id'] not in NA],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the harness (harness/) instantiates the library\'s own templates and calls its functions from outside. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
