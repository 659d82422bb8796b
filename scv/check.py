"""One property check: prove its contracts from /repo's current source, run the same
contracts against the real code on drawn inputs, decide, write evidence.

    python3-vt -m scv.check <property> [--tier quick|thorough] [--root /repo]
"""
import argparse
import json
import multiprocessing as mp
import os
import pickle
import re
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)

TRUSTED = [
    'scv (the contract verifier in /verif/scv: Rust front end, symbolic execution, loop rules, normal form): its own implementation; cross-checked on every run by evaluating the same contracts on outputs of the compiled code',
    'f64 arithmetic is read as exact real arithmetic (rounding, overflow to infinity and NaN propagation are outside the proofs; the sampled runs use the real floating point code)',
    'z3 4.x (integer side conditions, small nonlinear real conditions)',
    'real-analysis facts used as rewrite rules: sin^2+cos^2=1, sqrt(x)^2=x for x>=0, parity and addition theorems, range and monotonicity facts of exp, ln, acos, atan2, tanh',
    'random draws are arbitrary values of their range: U01(k) in [0,1), Gidx(k,n) in 0..n-1, N01(k) any real; their distribution is assumed of rand/rand_distr',
    'std, toml, serde, rustfft behave as documented',
]


def prove_task(a):
    name, root, tier = a
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from . import registry as RG
    from .verify import prove_unit, load
    from . import prove as PV
    t = time.time()
    try:
        prog = load(root)
        U = RG.UNITS[name]()
        if tier == 'thorough':
            U.timeout *= 3
            U.item_timeout *= 3
        items, info = prove_unit(U, prog, tier)
    except MemoryError:
        items, info = [{'name': name + '#exec', 'kind': 'exec', 'fn': '', 'line': 0, 'status': 'unsupported', 'why': 'memory', 't': 0, 'model': None}], {}
    except Exception:
        items, info = [{'name': name + '#exec', 'kind': 'exec', 'fn': '', 'line': 0, 'status': 'unsupported', 'why': traceback.format_exc()[-800:], 't': 0, 'model': None}], {}
    info = dict(info)
    info['t'] = round(time.time() - t, 2)
    info['stats'] = dict(PV.STATS)
    return name, items, info


def sample_task(a):
    from .terms import SYMS
    names, root, seed, count, budget, hdir, exe, have, scratch = a
    from . import registry as RG
    from .verify import load
    from .harness import Harness, sample_unit
    prog = load(root)
    h = Harness(root, prog, keep=hdir)
    h.exe, h.have, h.built = exe, have, True
    out = []
    snap = dict(SYMS)
    for n in names:
        SYMS.clear()          # the symbols of one unit are not those of another
        SYMS.update(snap)
        try:
            U = RG.UNITS[n]()
            out.append((n, sample_unit(U, prog, h, seed, int(count * getattr(U, 'sample_factor', 1)), budget)))
        except Exception:
            out.append((n, {'ran': 0, 'tried': 0, 'fuzzy': 0, 'fails': [], 'distinct': 0, 'note': 'internal: ' + traceback.format_exc()[-600:]}))
    h.close()
    return out


def closure(names):
    from . import registry as RG
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        todo += [x for x in RG.UNITS[n].needs]
    return out


def start_build(h):
    """build the real code in a process of its own: the pool forks workers at any time, and one forked
    while a pipe to cargo is open would keep that pipe open (and its reader waiting) for as long as it lives"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                h.build()
            except Exception as e:
                h.built, h.err = False, 'harness: %r' % e
            d = {k: v for k, v in h.__dict__.items() if k != 'prog'}
            with open(h.scratch + '.built', 'wb') as f:
                pickle.dump(d, f)
        finally:
            os._exit(0)
    return pid


def end_build(h, pid):
    os.waitpid(pid, 0)
    p = h.scratch + '.built'
    try:
        with open(p, 'rb') as f:
            h.__dict__.update(pickle.load(f))
        os.remove(p)
    except Exception as e:
        h.built, h.err = False, 'harness: %r' % e


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default=os.environ.get('SCV_ROOT') or '/repo')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    from . import registry as RG
    from .verify import load
    from .harness import Harness
    P = RG.PROPS[a.prop]
    names = closure(P['units'])
    ctx = mp.get_context('fork')
    prog = load(a.root)
    keep = os.environ.get('SCV_HARNESS_DIR')
    h = None
    hnote = ''
    extra_results = []
    builder = None
    try:
        if any(RG.UNITS[n].trials for n in names):
            h = Harness(a.root, prog, keep=keep)
            builder = start_build(h)
    except Exception as e:
        h, hnote = None, 'harness: %r' % e
    pool = ctx.Pool(a.jobs, maxtasksperchild=1)
    order = sorted(names, key=lambda n: -getattr(RG.UNITS[n], 'cost', 1))
    jobs = [pool.apply_async(prove_task, ((n, a.root, a.tier),)) for n in order]
    proofs, infos = {}, {}
    limit = 700 if a.tier == 'quick' else 3000
    for n, j in zip(order, jobs):
        try:
            nm, items, info = j.get(max(5, limit - (time.time() - t0)))
        except mp.TimeoutError:
            nm, items, info = n, [{'name': n + '#exec', 'kind': 'exec', 'fn': '', 'line': 0, 'status': 'unknown', 'why': 'time budget of the check', 't': 0, 'model': None}], {}
        except Exception as e:
            nm, items, info = n, [{'name': n + '#exec', 'kind': 'exec', 'fn': '', 'line': 0, 'status': 'unsupported', 'why': repr(e)[:300], 't': 0, 'model': None}], {}
        proofs[nm], infos[nm] = items, info
    pool.terminate()
    if h is not None:
        end_build(h, builder)
        if not h.built:
            hnote = 'harness does not build: ' + str(getattr(h, 'err', ''))[-800:]
    # sampling on the real code
    samples = {}

    def sample(ns, count, budget, sd):
        if h is None or not h.built:
            return
        groups = [g for g in [ns[i::a.jobs] for i in range(a.jobs)] if g]
        with ctx.Pool(len(groups)) as p2:
            for rs in p2.imap_unordered(sample_task, [(g, a.root, sd, count, budget, h.dir, h.exe, h.have, None) for g in groups]):
                for n, r in rs:
                    if n in samples:
                        q = samples[n]
                        r['ran'] += q['ran']
                        r['distinct'] += q['distinct']
                        r['fails'] = q['fails'] + r['fails']
                    samples[n] = r
    base = 150 if a.tier == 'quick' else 3000
    snames = [n for n in names if RG.UNITS[n].trials]
    if snames:
        sample(snames, base, 25 if a.tier == 'quick' else 240, seed)

    def bad(n):
        return [i for i in proofs[n] if i['status'] in ('failed', 'refuted')]

    def open_(n):
        return [i for i in proofs[n] if i['status'] in ('unknown', 'unsupported', 'pending')]
    # undischarged somewhere and nothing found yet: search harder on the real code
    again = [n for n in snames if (bad(n) or open_(n)) and not samples.get(n, {}).get('fails')]
    if again and not any(samples.get(n, {}).get('fails') for n in snames):
        left = max(20, (600 if a.tier == 'quick' else 2400) - (time.time() - t0))
        sample(again, base * 20, min(90 if a.tier == 'quick' else 600, left / 2), seed + 7919)
    # other engines a property brings along (lemma files, text level checks)
    for f in P.get('extra', ()):
        try:
            extra_results.append(f(a.root, prog, a.tier, seed))
        except Exception:
            extra_results.append({'name': getattr(f, '__name__', 'extra'), 'status': 'unknown', 'why': traceback.format_exc()[-500:], 'obligations': 0, 'discharged': 0})
    if h is not None:
        h.close()
    # ---------------------------------------------------------------- verdict
    os.makedirs(HERE + '/replays', exist_ok=True)
    known = read_known(a.prop)
    viol = []
    knownhit = []
    for n in names:
        r = samples.get(n)
        if r and r['fails']:
            f = r['fails'][0]
            k = match_known(known, n, f['post'])
            if k:
                knownhit.append(k)
                continue
            viol.append(('input', n, f))
            continue
        b = bad(n)
        b = [i for i in b if not match_known(known, n, i['name'].split('#')[-1])]
        if b:
            viol.append(('proof', n, b))
    for x in extra_results:
        if x['status'] == 'failed':
            k = match_known(known, x['inputs']['fn'] if x.get('inputs') else x['name'], x.get('post', ''))
            if k:
                knownhit.append(k)
                continue
            viol.append(('extra', x['name'], x))
    for k in known:
        if k not in knownhit and k['kind'] == 'known':
            knownhit.append(k)
    lines = []
    for i, (kind, n, f) in enumerate(viol):
        path = '%s/replays/%s-%s-%d.json' % (HERE, a.prop, re.sub(r'[^A-Za-z0-9]+', '_', n)[:60], i)
        rec = {'property': a.prop, 'unit': n, 'functions': ['::'.join(k) for k in RG.UNITS[n].fns] if n in RG.UNITS else [], 'root': a.root, 'seed': seed}
        if kind == 'input' or (kind == 'extra' and f.get('inputs')):
            rec.update(failing={k: v for k, v in f.items() if k not in ('obligations', 'discharged', 'cases')}, replay_cmd='python3-vt -m scv.replay %s' % path,
                       undischarged=[{'obligation': x['name'], 'status': x['status'], 'why': x['why'][:600]} for x in bad(n)][:10] if n in proofs else [])
            tail = ''
        else:
            fs = f if isinstance(f, list) else [f]
            rec.update(failed_obligations=[{'obligation': x['name'], 'status': x['status'], 'line': x.get('line'), 'verifier_output': x['why'], 'counter_model': x.get('model')} for x in fs],
                       searched={'inputs_tried': samples.get(n, {}).get('ran', 0), 'harness': hnote or 'ok', 'note': samples.get(n, {}).get('note', '')})
            tail = ' no-failing-input-found'
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        lines.append((tail != '', 'VIOLATION property=%s replay=%s%s' % (a.prop, path, tail)))
    for k in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    # violations shown with an input first
    for _, l in sorted(lines):
        print(l)
    # ---------------------------------------------------------------- evidence
    items = [i for n in names for i in proofs[n]]
    nob = len(items) + sum(x['obligations'] for x in extra_results)
    ndis = sum(i['status'] == 'proved' for i in items) + sum(x['discharged'] for x in extra_results)
    units = []
    for n in names:
        it = proofs[n]
        s = samples.get(n, {})
        st = 'proved' if all(i['status'] == 'proved' for i in it) else ('violated' if bad(n) or s.get('fails') else 'bounded stand-in (sampling)')
        units.append({'contract': n, 'functions': ['::'.join(k) for k in RG.UNITS[n].fns], 'status': st,
                      'ensures': [i['name'].split('#', 1)[-1] for i in it if i['kind'] == 'ensures'],
                      'obligations': len(it), 'discharged': sum(i['status'] == 'proved' for i in it),
                      'time_s': infos[n].get('t'), 'executed_bodies': infos[n].get('inlined', []), 'assumed_contracts': infos[n].get('assumed', []),
                      'by_evaluation': infos[n].get('trivial', 0),
                      'real_runs': s.get('ran', 0), 'real_runs_note': s.get('note', ''), 'bound': getattr(RG.UNITS[n], 'bound', None),
                      'undischarged': [{'name': i['name'], 'status': i['status'], 'why': i['why'][:300]} for i in it if i['status'] != 'proved'][:20]})
    z = {}
    for n in names:
        for k, v in infos[n].get('stats', {}).items():
            z[k] = round(z.get(k, 0) + v, 3)
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': P.get('level', 'proof'),
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': 'python3-vt -m scv.check %s --tier %s' % (a.prop, a.tier),
              'trusted_base': TRUSTED + list(P.get('trusted', ())),
              'contracts': units, 'solver': z,
              'functions_under_contract': sorted({f for u in units for f in u['functions']}),
              'bounded_standins': [u['contract'] for u in units if u['status'].startswith('bounded')],
              'evaluations': sum(s.get('ran', 0) for s in samples.values()) + sum(x.get('runs', 0) for x in extra_results),
              'distinct_nontrivial': sum(s.get('distinct', 0) for s in samples.values()) + sum(x.get('runs', 0) for x in extra_results),
              'rule': 'inputs drawn from each contract\'s requires (sizes 2..10, edge sites, axis-aligned and generic spins, zero and generic fields) and scripted random draws; distinct = different inputs or draws; the ensures are evaluated on what the compiled code returned',
              'samples': [{'contract': n, 'real_runs': s.get('ran', 0)} for n, s in list(samples.items())[:12]] + [c for x in extra_results for c in x.get('cases', [])],
              'lemma_files': [x for x in extra_results if 'runs' not in x], 'bounded_runs_of_the_commands': [{k: v for k, v in x.items() if k != 'cases'} for x in extra_results if 'runs' in x], 'harness': hnote or 'built from the current tree'},
          'assumptions': list(P.get('assumptions', ())) + ['contracts assumed at call sites are each proved by their own unit of this run: ' + ', '.join(n for n in names if n not in P['units'])] ,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not a.no_evidence:
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (HERE, a.prop), 'w'), indent=1, default=str)
    if a.v or viol:
        for u in units:
            print('  %-60s %-28s %d/%d runs %d  %ss %s' % (u['contract'], u['status'], u['discharged'], u['obligations'], u['real_runs'], u['time_s'], u['real_runs_note'][:150]))
            for x in u['undischarged'][:4]:
                print('      %s: %s %s' % (x['name'], x['status'], x['why'][:200].replace('\n', ' | ')))
            s = samples.get(u['contract'], {})
            for f in s.get('fails', []):
                print('      on real code: %s: %s' % (f['post'], f['how']))
        for x in extra_results:
            print('  extra', x['name'], x['status'], x.get('why', '')[:200])
        if hnote:
            print('  ' + hnote)
    print('%s: %d obligations, %d discharged, %d runs of the real code, %.1fs, %s' % (
        a.prop, nob, ndis, ev['coverage']['evaluations'], time.time() - t0, 'VIOLATED' if viol else 'held'))
    sys.stdout.flush()
    return 1 if viol else 0


def read_known(prop):
    """known_findings.txt:  known: property=<id> unit=<unit>|<ensures> :: <what fails>"""
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) at=(.+?)\|(.+?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append({'kind': 'known', 'unit': m.group(2), 'post': m.group(3), 'what': m.group(4)})
    return out


def match_known(known, unit, post):
    for k in known:
        if k['unit'] == unit and k['post'] == post:
            return k
    return None


if __name__ == '__main__':
    sys.exit(main())
