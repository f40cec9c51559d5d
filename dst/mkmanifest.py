"""Writes MANIFEST.json from the registry of checks (python -m dst.mkmanifest)."""
import json
import os

from . import core, propdoc, props

NA_REASON = {
    'N01': 'a pure function of the source text: no scheduling, clock, I/O failure or second party for a simulator to control',
    'N02': 'pure arithmetic on one value; nothing is scheduled and nothing can fail part-way',
    'N03': 'a pure function of the expression tree; no interleaving, time or fault enters it',
    'N04': 'a pure function from module to XML text; no interleaving, time or fault enters it',
    'N05': 'a pure conversion of an array; the memory models that hold the image are decided by C24',
}


def main():
    checks, na = [], []
    for d in propdoc.P:
        pid = d['id']
        if pid in props.REG:
            R = props.REG[pid]
            checks.append({'property': pid, 'quick_cmd': './check %s quick' % pid,
                           'thorough_cmd': './check %s thorough' % pid,
                           'technique': 'deterministic simulation with fault injection: ' + R['technique'],
                           'level': R.get('level', 'exploration'), 'level_note': R['note']})
        else:
            na.append({'property': pid, 'reason': NA_REASON.get(pid, 'no check built yet')})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -m compileall -q dst >/dev/null 2>&1; test -x /usr/bin/iverilog && test -x /usr/bin/vvp',
         'hooks': {'guard': 'none (VERILOGGEN_DST is reserved; no hook was needed in /repo)',
                   'enable': 'nothing to enable: every check imports /repo as it is', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Every check: ./check ID quick|thorough; replay of a counterexample: ./check --replay FILE; '
                  'determinism hash of a whole plan: ./check --selftest ID.'}
    with open(os.path.join(core.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d checks, %d not applicable' % (len(checks), len(na)))


if __name__ == '__main__':
    main()
