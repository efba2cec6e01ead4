#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = dict(P.NOT_APPLICABLE)
for i in ids:
    if i not in P.PROPS and i not in NA:
        NA[i] = 'not built yet'
NOTE = {
    'K': 'Full-domain, loop-free or completely unwound proof by Kani/CBMC of the contracts on the real functions, compiled from /repo. Trusts Kani, CBMC and the solver. '
         'If the verifier cannot answer on a changed tree, a bounded random search on the real code stands in and is labelled bounded.',
    'V': 'Unbounded proof by Verus of contracts and loop invariants on functions extracted mechanically from /repo/src on every run. Trusts Verus, Z3, the extraction (tools/weave) and the '
         'contracts assumed on std and third-party containers listed in the evidence. If the verifier cannot answer on a changed tree, a bounded random search on the real code stands in and is labelled bounded.',
}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
m = dict(
    version=1,
    setup_cmd='python3 run.py setup',
    hooks=dict(guard='cfg(kani) and cfg(klavier_verif)',
               enable='cargo kani sets cfg(kani); native runs are built with RUSTFLAGS="--cfg klavier_verif"; Verus checks read /repo/src as text',
               source_commits=hook),
    checks=[dict(property=i, quick_cmd='python3 run.py check %s --tier quick' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
                 technique=P.TECHNIQUE[P.PROPS[i]['kind']], level=P.PROPS[i].get('level', 'proof'),
                 level_note=NOTE[P.PROPS[i]['kind']] + (' Assumes: ' + '; '.join(P.PROPS[i]['assumptions']) + '.' if P.PROPS[i]['assumptions'] else ''),
                 **({'theorems': P.PROPS[i]['theorems']} if 'theorems' in P.PROPS[i] else {}))
            for i in ids if i in P.PROPS],
    not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
