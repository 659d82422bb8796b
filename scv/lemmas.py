"""Lemma files (Lean 4 + Mathlib): statements about reals and sequences used as facts by the contracts"""
import os
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lean(*files):
    def run(root, prog, tier, seed):
        t = time.time()
        n = bad = 0
        why = []
        for f in files:
            p = '%s/lemmas/%s.lean' % (HERE, f)
            src = open(p).read()
            k = src.count('\ntheorem ') + src.count('\nlemma ')
            n += k
            try:
                r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=400)
                out = r.stdout + r.stderr
                if r.returncode or 'sorry' in out:
                    bad += k
                    why.append('%s: %s' % (f, out[:300]))
            except (OSError, subprocess.TimeoutExpired) as e:
                bad += k
                why.append('%s: %r' % (f, e))
        # a lemma does not depend on /repo: one that cannot be checked here is reported, never an alarm
        return {'name': 'Lean 4 lemmas ' + ', '.join(files), 'status': 'unknown' if bad else 'proved', 'why': '; '.join(why),
                'obligations': n, 'discharged': n - bad, 'back_end': 'Lean 4 kernel, Mathlib', 'time_s': round(time.time() - t, 1)}
    run.__name__ = 'lean'
    return run
