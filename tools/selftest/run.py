"""Compares the engine with CPython on constructs.py (development aid; no check uses it)."""
import importlib.util
import os
import re
import sys
import threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', '..'))


def main():
    from hwsa.scen import Lab
    from hwsa.values import ListV, DictV, Poison
    src = os.path.join(HERE, 'constructs.py')
    spec = importlib.util.spec_from_file_location('constructs', src)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    L = Lab('/repo')
    it = L.it
    env = it.load('constructs', src)
    it.seal()
    g = it.rec(env)
    for w in it.poisoned:
        print('POISON', w)

    def conv(v):
        if isinstance(v, tuple):
            return tuple(map(conv, v))
        if isinstance(v, ListV):
            x = it.rec(v)['items']
            return [conv(y) for y in x] if isinstance(x, tuple) else x
        if isinstance(v, DictV):
            x = it.rec(v)['items']
            return {conv(a): conv(b) for a, b in x} if isinstance(x, tuple) else x
        return v
    only = sys.argv[1] if len(sys.argv) > 1 else '.'
    good = bad = 0
    for n in [k for k in vars(m) if k.startswith('t_') and re.search(only, k)]:
        want = getattr(m, n)()
        L.reset()
        try:
            if isinstance(g[n], Poison):
                raise Exception(g[n].why)
            r = L.run(lambda: it.call(g[n], [], {}))
            if r.st is not None:
                it.st = r.st
                got = conv(r.value)
                if got == want and not r.excs and not r.unk:
                    good += 1
                    continue
                print('DIFF %s: %r, CPython %r %s' % (n, got, want, r.unk))
            else:
                print('DIFF %s: unk=%s exc=%s' % (n, [u[1] for u in r.unk], [(e, st.heap.get(e.oid)) for st, e in r.excs][:2]))
        except Exception as e:
            if os.environ.get('HWSA_DEBUG'):
                raise
            print('FAIL %s: %s: %s' % (n, type(e).__name__, e))
        bad += 1
    print(good, 'agree', bad, 'differ')


sys.setrecursionlimit(40000)
threading.stack_size(512 << 20)
t = threading.Thread(target=main)
t.start()
t.join()
