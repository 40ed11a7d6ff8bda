"""python3 -m hwsa Cxx [--tier quick|thorough] [--repo DIR] [-v]"""
import argparse
import importlib
import json
import os
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ('props_bv', 'props_st', 'props_adt', 'props_misc', 'props_fp')


def find(prop):
    for m in MODS:
        try:
            M = importlib.import_module('hwsa.' + m)
        except ImportError as e:
            if e.name != 'hwsa.' + m:
                raise
            continue
        if hasattr(M, prop):
            return getattr(M, prop)
    return None


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('kind') == 'known':
                        out.append(d)
    return out


def match(known, prop, row):
    for k in known:
        if k['property'] == prop and k['construct'] == row['construct'] and k.get('deviation') and k['deviation'] == row.get('deviation'):
            return k
    return None


def run(args, out):
    from .check import Checker
    from .scen import Lab
    prop, tier = args.property, args.tier
    t0 = time.time()
    fn = find(prop)
    if fn is None:
        print('ERROR no check for property', prop)
        out.append(2)
        return
    lab = Lab(args.repo)
    ck = Checker(lab, prop, tier)
    try:
        fn(ck)
    except Exception as e:
        if os.environ.get('HWSA_DEBUG') or not ck.rows:
            raise
        import traceback
        ck.add('every obligation of the property is generated', 'obligations after the %d recorded' % len(ck.rows), 'undecided',
               'not modelled: ' + traceback.format_exc().strip().splitlines()[-1])
    rows = ck.rows
    known = known_findings()
    new, old, ok, und = [], [], [], []
    for r in rows:
        if r['status'] == 'ok':
            ok.append(r)
        elif r['status'] == 'violation':
            k = match(known, prop, r)
            (old if k else new).append(r)
            if k:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, r['construct'], k['what']))
        else:
            und.append(r)
    rules = {}
    for r in rows:
        d = rules.setdefault(r['rule'], {'ok': 0, 'violation': 0, 'undecided': 0})
        d[r['status']] += 1
    ev_dir = os.environ.get('HWSA_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(ev_dir, exist_ok=True)
    locs = sorted({r['loc'] for r in rows if r.get('loc')})
    cov = dict(
        explanation='Abstract interpretation of /repo source: each construct is an API entry point evaluated on abstract operands '
                    '(symbolic widths and values, symbolic type parameters); the value graph, result class and raised exceptions on '
                    'every path are compared with the specified ones after normalisation. "discharged" obligations are equal normal '
                    'forms on every path; "undecided" ones could not be decided and are listed.',
        obligations=len(rows), discharged=len(ok), known_findings=len(old), undecided=len(und), violations=len(new),
        rules=rules,
        functions_analysed=locs,
        source_files=sorted(os.path.relpath(p, args.repo) for p in {v[0] for k, v in lab.it.sources.items() if not k.startswith('fixture_')}),
        definitions_not_modelled=lab.it.poisoned[:40],
        undecided_list=['%s: %s' % (r['construct'], r['detail'][:200]) for r in und][:60],
        samples=['%s | %s | %s' % (r['construct'], r['rule'], r['status']) for r in rows[:: max(1, len(rows) // 12)]][:14],
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=['semantic models of the Python built-ins and of the pysmt / z3 / gmpy2 constructors used by the package',
                           'CPython evaluation order and attribute lookup as modelled in hwsa/interp.py'],
              wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rep_dir = os.path.join(ev_dir, 'reports')
    for w in lab.it.poisoned:
        print('  not modelled:', w)
    print('%s: %d obligations, %d hold, %d known findings, %d undecided, %d violations (%.1fs)' % (
        prop, len(rows), len(ok), len(old), len(und), len(new), time.time() - t0))
    if args.verbose:
        for r in und:
            print('  undecided', r['construct'], '|', r['rule'], '|', r['detail'][:400])
    if new:
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, prop + '.txt')
        with open(path, 'w') as f:
            for r in new:
                f.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (r['construct'], r['rule'], r.get('loc'), r['detail']))
        for r in new[:20]:
            print('  %s [%s] at %s: %s' % (r['construct'], r['rule'], r.get('loc'), r['detail'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        out.append(1)
        return
    if not ok and not old:
        print('ERROR %s: the analysis decided none of its %d obligations' % (prop, len(rows)))
        out.append(2)
        return
    out.append(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--repo', default=os.environ.get('HWSA_REPO', '/repo'))
    ap.add_argument('-v', '--verbose', action='store_true')
    args = ap.parse_args()
    sys.setrecursionlimit(40000)
    threading.stack_size(512 << 20)
    out = []

    def target():
        try:
            run(args, out)
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(out[0] if out else 3)


if __name__ == '__main__':
    main()
