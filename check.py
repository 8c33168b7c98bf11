#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--root /repo]

Decides one property from the current source of the repository; nothing of the repository is imported or run."""
import argparse, json, multiprocessing as mp, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known():
    """{(property, obligation): text}"""
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    for pr in d['properties']:
                        out[(pr, d['obligation'])] = d
    return out


def work(a):
    i, root = a
    sys.setrecursionlimit(20000)
    from sa import groups
    return groups.run_group(i, root)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    t0 = time.time()
    os.environ['SA_TIER'] = o.tier
    import threading
    threading.stack_size(512 << 20)
    from sa import groups
    sel = [i for i, g in enumerate(groups.GROUPS) if o.prop in g[1] or o.prop == 'ALL']
    if not sel:
        print('no obligations registered for', o.prop)
        return 2
    try:
        groups.get_repo(o.root)
    except SyntaxError as e:
        print('source does not parse: %s' % e)
        return 2
    with mp.Pool(min(o.jobs, len(sel)), maxtasksperchild=1) as pool:
        res = list(pool.imap_unordered(work, [(i, o.root) for i in sel], chunksize=1))
    order = {groups.GROUPS[i][0]: i for i in sel}
    res.sort(key=lambda r: order[r[0]])
    kn = known()
    viol, seen, und, okc, obl, unm, fns = [], [], [], 0, [], [], set()
    for name, rs, un, fs, secs in res:
        fns |= set(fs)
        unm += un
        if o.v:
            print('group %-50s %.1fs %d obligations' % (name, secs, len(rs)))
        for n, s, w, d in rs:
            obl.append({'obligation': n, 'status': s, 'where': w, **({'detail': d[:1500]} if d else {})})
            if s == 'ok':
                okc += 1
            elif s == 'violation':
                if (o.prop, n) in kn:
                    seen.append((n, w, kn[(o.prop, n)]))
                else:
                    viol.append((n, w, d))
            else:
                und.append((n, w, d))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, '%s.violations.json' % o.prop)
    if os.path.exists(rep):
        os.remove(rep)
    level, expl, trusted = meta(o.prop)
    assumptions = trusted + ['not modelled, hence not decided: %s' % u for u in sorted(set(unm))[:20]]
    json.dump({
        'property': o.prop, 'tier': o.tier if o.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol), 'assumptions': assumptions,
        'coverage': {'explanation': expl, 'obligations': len(obl), 'discharged': okc, 'undecided': len(und),
                     'known_findings': len(seen), 'routines_analysed': sorted(fns),
                     'rule': 'each obligation compares the symbolic effect of a routine (or a fact derived from it) with the reference rule; ok = identical in every region of the joint case split',
                     'samples': obl[:12], 'all_obligations': obl},
    }, open(os.path.join(ev, '%s.json' % o.prop), 'w'), indent=1)
    for n, w, d in und:
        print('undecided: %s [%s] %s' % (n, w, d[:200]))
    for n, w, k in seen:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (o.prop, n, w, k['what']))
    print('%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1fs)' % (o.prop, len(obl), okc, len(und), len(seen), len(viol), time.time() - t0))
    if viol:
        json.dump([{'obligation': n, 'where': w, 'detail': d} for n, w, d in viol], open(rep, 'w'), indent=1)
        for n, w, d in viol[:20]:
            print('  violated: %s at %s\n     %s' % (n, w, d[:600]))
        print('VIOLATION property=%s replay=%s' % (o.prop, rep))
        return 1
    return 0


def meta(p):
    expl = ('Static value analysis: the current source of the routines is parsed, loops over arrays are summarised as maps/sums/scans over '
            'symbolic networks of any size, calls and numba kernels are followed, and the resulting piecewise-rational effect is compared with '
            'the reference effect (sa/specs) by canonical normal forms under case splits. No code of the repository is executed.')
    return 'other', expl, [
        'real arithmetic: floating-point rounding, overflow and NaN propagation are not modelled',
        'the ontology in sa/ontology.py (which index space an attribute belongs to, which sizes are positive) describes the model state correctly',
        'the meaning of the numpy/scipy/pandas operations used is as modelled in sa/npmodel.py',
    ]


if __name__ == '__main__':
    sys.exit(main())
