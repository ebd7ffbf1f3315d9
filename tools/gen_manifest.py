"""writes MANIFEST.json: every property with a checks/cNN.py is claimed"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = 'python3-vt'
TECH = 'symbolic execution of the LLVM IR rustc emits for the real code; equivalence with an independent specification and no-panic obligations decided by z3 over all input bytes within stated lengths; counterexamples replayed natively'
NOTE = {
    'default': 'Every input byte is a symbolic variable; z3 decides each obligation for all values at the enumerated lengths. Trusted: rustc up to unoptimised LLVM IR (cross-checked against native runs of every case), the IR executor and term rewriter of /verif/vlib, z3, and the hand-written specification. Cases that cannot be decided are printed as UNDECIDED and claim nothing.',
}
NA = {
    'C24': 'Commutativity of scalar multiplication on Curve25519 is a theorem about the elliptic-curve group; the code-dependent half (dh and gen_pk compute the RFC 7748 function) is C14. An SMT solver cannot decide the group law over GF(2^255-19) for 2^256 scalars through two 255-step ladders.',
    'C25': 'Follows from C16, C17, C18 and the group law of edwards25519; the group law ([S]B = R + [k]A for all scalars) is a theorem about the curve that no SMT query over the two 256-step point multiplications can decide. The code-dependent halves are C16, C17, C18.',
}
TODO = {
}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
            cmd = '%s check.py %s' % (PY, p)
            checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                           'technique': TECH, 'level': 'model_checking', 'level_note': NOTE.get(p, NOTE['default'])})
        else:
            na.append({'property': p, 'reason': NA.get(p) or TODO.get(p) or 'Not built yet: the machinery of the other checks does not cover this part of the code so far.'})
    json.dump({'version': 1, 'setup_cmd': PY + ' check.py setup', 'hooks': {'guard': 'cfg(crypto_pure_verif)',
                         'enable': 'the checks build /repo through the path dependency of /verif/harness with --cfg crypto_pure_verif in '
                                   'CARGO_ENCODED_RUSTFLAGS, and without it when the hooks do not compile (what needs them is then undecided)',
                         'source_commits': ['632c3e5dd55837239ee2f00f98aa63fc08c5aa5e', 'ee2062b0f21468766cd900fe8cdd939ef71894ed']},
               'checks': checks, 'not_applicable': na,
               'notes': 'python3-vt check.py replay <file> re-runs a reported violation against the real code.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
