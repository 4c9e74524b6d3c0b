"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': ('online monitor on pieri/act under generated workloads, against an independent combinatorial model', 'all classes and special classes of every small space, sampled large spaces'),
    'C02': ('online monitor on qpieri/qact, against an independent quantum model (closed Pieri rules)', 'all classes and special classes of every small space, sampled large spaces'),
    'C03': ('monitor on giambelli/qgiambelli, result evaluated by an independent model', 'all classes of small spaces, sampled combinations and large spaces'),
    'C04': ('online monitor on mult/act/toS, against an independent ring model', 'sampled pairs and polynomials in small, medium and large spaces'),
    'C05': ('online monitor on qmult/qact/qtoS, against an independent quantum ring model', 'sampled pairs and polynomials in small, medium and large spaces'),
    'C06': ('trace checker of ring laws over chained products', 'sampled triples, chains and re-fed results'),
    'C07': ('offline checker of degree and sign over recorded products', 'all pairs of small spaces, sampled larger ones'),
    'C08': ('paired-run monitor: quantum answers at q=0 against classical answers', 'sampled arguments in all spaces'),
    'C09': ('monitor on dualize against the intersection pairing computed by an independent model', 'all classes of small spaces, sampled large ones'),
    'C10': ('monitor on bases, generators, point class and descriptive data against enumeration by another description', 'every space up to a size bound'),
    'C11': ('round-trip and membership monitor on index conversions', 'all classes of small spaces, sampled large ones, all forms'),
    'C12': ('round-trip and membership monitor on pair conversions', 'all classes of small spaces, sampled large ones, all forms'),
    'C13': ('monitor on type_swap, miami_swap and schub_type, with products compared under the exchange', 'all classes of small spaces, sampled products'),
    'C14': ('differential monitor: qmult_rh against an independent model and qmult', 'all pairs of small Grassmannians, sampled larger ones'),
    'C15': ('monitor on remove_rim_hooks against an independent beta-number computation', 'all small partitions, sampled large ones'),
    'C16': ('metamorphic monitor: the same call in different spellings', 'sampled calls of every operation'),
    'C17': ('history checker: calls in generated histories against pristine forks', 'sampled histories over confusable spaces, with failing and mutating callers'),
    'C18': ('stress with injected thread switches; each call compared with the pristine sequential answer', 'sampled scenarios; interleavings observed are counted'),
    'C19': ('cross-process output comparison under different hash seeds, orders and histories', '32 processes'),
    'C20': ('round-trip monitor on printed results', 'sampled results of every operation and generated expressions'),
    'C21': ('monitor on schur_expansion against an independent reader', 'generated combinations and refused expressions'),
    'C22': ('monitor on apply/apply2 against an independent polynomial evaluation', 'generated expressions and functions'),
    'C23': ('monitor on table contents against an independent model', 'every small space, sampled larger ones, all views of the table'),
    'C24': ('monitor on constructors and clones over a range of arguments', 'all arguments in a box, large and ill-typed arguments'),
    'C25': ('monitor on to_polinomial_str against tableau counts', 'all small partitions, sampled larger ones'),
    'C26': ('monitor on drawn text, TikZ and matplotlib artists, counted box by box', 'generated partitions and skew shapes'),
    'C27': ('monitor on conversions run inside real SageMath, with round trips and Schur functions expanded in other bases', 'generated partitions and symmetric functions in every basis'),
    'C28': ('runtime monitor on decorated probes: counted runs and values under histories and threads', 'generated histories, sizes, objects and threads'),
    'C29': ('monitor on enumeration and conjugation helpers against brute force', 'all small boxes, generated partitions'),
    'C30': ('monitor on check_bijection_with_permutation over generated result files', 'generated pairs of equivalent and different files'),
    'C31': ('online checker of operator programs against exact polynomial arithmetic', 'generated programs over pools of objects'),
    'C32': ('fault-history checker: refusals demanded, later calls compared with pristine forks', 'generated histories of meaningless and normal requests'),
    'C33': ('metamorphic monitor: every operation run in two isomorphic spaces and compared under the relabelling', 'all classes of small pairs, sampled large pairs'),
    'C34': ('metamorphic monitor: classical operations run in two related spaces and compared by restriction or powers of 2', 'all classes of small pairs, sampled large pairs'),
    'C35': ('monitor on structure queries against an exact polynomial reader and box counts', 'generated expressions, results of operations and partitions'),
    'C36': ('fault injection: calls cut off by exceptions at drawn library lines; later calls compared with pristine forks', 'sampled histories; the source lines at which calls were cut are counted'),
    'C37': ('differential monitor: copies, deep copies and pickles (also in another interpreter) against the original', 'sampled spaces, values and calls, all ways of copying'),
    'C38': ('online checker of the symmetry of Gromov-Witten invariants over the recorded products of the library', 'all pairs of small spaces, sampled triples in large ones'),
}
EXTRA = {
    'C18': ' Thread schedules are sampled, not enumerated.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks = []
for p in props:
    tech, cover = T[p]
    checks.append({
        'property': p,
        'quick_cmd': 'python3 run.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % p,
        'technique': tech,
        'level': 'exploration',
        'level_note': 'Runtime monitoring of the unmodified code: %s. Exact on what was run; nothing is claimed about inputs that were not run.%s' % (cover, EXTRA.get(p, '')),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/sanity.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks are needed in /repo: all monitors attach from outside. Known and repaired defects are in known_findings.txt; DESIGN.md describes each check.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
