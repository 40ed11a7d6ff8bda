"""Scenario harness: abstract operands, entry points, guarded outcomes."""
import os
from . import terms as T
from .terms import I, B, P, nb, mb
from .values import *
from .interp import Interp, State, Frame
from .builtins_ import SYMNAME

MODULES = ('bit_vector_abc', 'bit_vector_util', 'bit_vector', 'fp_vector_abc', 'fp_vector', 'smt_bit_vector', 'smt_fp_vector',
           'smt_int', 'smt_utils', 'z3_bit_vector', 'adt_meta', 'adt', 'adt_util', 'modifiers', 'util', 'compatibility')


class Result:
    """guarded outcomes of one abstract call"""

    def __init__(self, st, value, excs, unk):
        self.st, self.value, self.excs, self.unk = st, value, excs, unk

    def __repr__(self):
        p = []
        if self.st is not None:
            p.append('returns %r when %r' % (self.value, mb(self.st.guard)))
        for s, e in self.excs:
            p.append('raises %r when %r' % (e, mb(s.guard)))
        for g, m in self.unk:
            p.append('? %s when %r' % (m, mb(g)))
        return '\n   '.join(p)


def den(it, a, k):
    """denotation of a symbolic value of the package: the number (vectors, ints) or truth (bits) of its term"""
    def go(x):
        if isinstance(x, SNode):
            return P(x.den) if x.sort in ('bv', 'int') else x.den
        return it.case(it.getattr(x, '_value'), go)
    return it.case(a[0], go)


def _atom(it, v, f):
    """f(the atom a symbolic value of the package consists of, None if it is not one)"""
    return it.case(v, lambda v: it.case(it.getattr(v, '_value'), lambda x: f(_node_atom(x))))


def _node_atom(x):
    if not isinstance(x, SNode):
        raise Unsupported('atom of %r' % (x,))
    d = x.den
    if isinstance(d, B):
        sup = T.bdd_support(d.n)
        return sup[0] if len(sup) == 1 and T._bdd_var(sup[0]) == d.n else None
    return d.single() if isinstance(d, I) else None


def symname(it, a, k):
    """name of the variable a symbolic value is, None when it is not just a variable"""
    def go(at):
        return SYMNAME[at.args[0]] if at is not None and at.op == 'sym' else None
    return _atom(it, a[0], go)


def app(it, a, k):
    """(function symbol name, arguments) of a symbolic value that is an application, else None"""
    def go(at):
        if at is None or at.op != 'apply':
            return None
        n = len(at.args) - (1 if at.sort == 'bool' else 2)
        return (SYMNAME[at.args[0]],) + tuple(x if isinstance(x, (B, bool)) else P(x) for x in at.args[len(at.args) - n:])
    return _atom(it, a[0], go)


def warned(it, a, k):
    """number of warnings issued so far"""
    return sum(1 for e in it.effects if e[0] == 'warn')


class Lab:
    def __init__(self, repo='/repo', modules=MODULES):
        T.set_facts(T.Facts())
        self.it = Interp(repo)
        self.broken = {}
        self.it.load_package()
        for m in modules:
            self.it.import_module('hwtypes.' + m)
        fx = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixtures')
        for f in sorted(os.listdir(fx)):
            if f.endswith('.py'):
                st = self.it.st
                try:
                    self.it.load('fixture_' + f[:-3], os.path.join(fx, f))
                except (Unsupported, Dead) as e:
                    # concerns the properties decided on this module only
                    self.it.st = st
                    self.broken[f[:-3]] = str(e)
                    continue
                self.it.rec(self.it.modules['fixture_' + f[:-3]]).update(
                    {b.__name__: Builtin(b.__name__, b) for b in (den, symname, app, warned)})
        self.it.seal()
        self.env = self.it.modules['hwtypes']
        self.reset()

    def mod(self, name):
        if self.it.st is None:
            self.reset()
        return self.it.rec(self.it.modules['hwtypes.' + name])

    def fix(self, name, mod='client'):
        return self.it.rec(self.it.modules['fixture_' + mod])[name]

    def cls(self, mod, name):
        return self.mod(mod)[name]

    def reset(self):
        T.set_facts(T.Facts())
        it = self.it
        it.st = State(1, {})
        it.reset_caches()
        it.unknowns = []
        it.collect = [[]]
        it.steps = 0
        it.depth = 0
        it.frames = [Frame(None, self.env)]
        return it

    def run(self, f, *a, **k):
        """abstractly run f() from the current state; the state afterwards is the normal-return state"""
        it = self.it
        it.collect.append([])
        unk0, it.unknowns = it.unknowns, []
        frames, depth = list(it.frames), it.depth
        v, st = None, None
        g0 = it.st.guard
        try:
            v = f(*a, **k)
            st = it.st
        except Dead:
            st = None
        except Unsupported as e:
            it.unknowns.append((it.st.guard if it.st is not None else g0, str(e)))
            st = None
        finally:
            excs = it.collect.pop()
            it.frames = frames
            it.depth = depth
        unk, it.unknowns = it.unknowns, unk0
        return Result(st, v, it._split_exc(excs) if False else excs, unk)

    # ---- symbols
    def nat(self, name, lo=0, hi=None):
        a = T.ivar(name)
        T.FACTS.bound(a, lo, hi)
        return P(a)

    def size(self, name='n', lo=1):
        return self.nat(name, lo)

    def uint(self, name, n):
        return self.nat(name, 0, T.pow2(n) - 1)

    def int(self, name):
        return P(T.ivar(name))

    def bool(self, name):
        return T.bvar(name) if isinstance(T.bvar(name), B) else B(T._bdd_var(T.bvar(name)))
