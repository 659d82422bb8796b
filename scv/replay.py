"""python3-vt -m scv.replay <file> : run a recorded failing input on the current tree again"""
import json
import os
import sys
sys.setrecursionlimit(40000)


def main():
    from . import registry as RG
    from .verify import load
    from .harness import Harness, replay_unit
    rec = json.load(open(sys.argv[1]))
    root = os.environ.get('SCV_ROOT') or '/repo'
    f = rec.get('failing')
    if not f:
        print('no failing input in this record; the failed obligations are:')
        for o in rec.get('failed_obligations', []):
            print('  %s: %s %s' % (o['obligation'], o['status'], (o['verifier_output'] or '')[:1000]))
        return 2
    prog = load(root)
    if f.get('kind') == 'obsrun':
        if f['inputs']['fn'] in ('main', 'config'):
            from .mainrun import MainHarness as H, judge
        else:
            from .obsrun import ObsHarness as H, judge
        h = H(root, prog)
        try:
            if not h.build():
                print('harness does not build: ' + h.err[-1500:])
                return 2
            st, why = judge(h, rec['property'], f['inputs'])
        finally:
            h.close()
        print('command: %s\nconfiguration: %s' % (f['inputs']['fn'], json.dumps(f['inputs'])))
        print('%s: %s' % why if why else 'as specified')
        print('STILL FAILS' if st == 'fail' else 'holds on the current tree')
        return 1 if st == 'fail' else 0
    h = Harness(root, prog)
    if not h.build():
        print('harness does not build: ' + h.err[-1500:])
        return 2
    try:
        bad, txt = replay_unit(RG.UNITS[rec['unit']](), prog, h, f)
    finally:
        h.close()
    print('contract: %s   ensures: %s' % (rec['unit'], f['post']))
    print('inputs: %s' % json.dumps(f.get('inputs')))
    print(txt)
    print('STILL FAILS' if bad else 'holds on the current tree')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
