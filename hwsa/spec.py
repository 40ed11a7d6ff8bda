"""Families of types, abstract operands and result predicates."""
from . import terms as T
from .terms import I, B, P, nb, mb
from .values import *
from . import builtins_ as BI


class Fam:
    def __init__(self, lab, key):
        self.lab, self.it, self.key = lab, lab.it, key
        g = lab.cls
        if key == 'py':
            m = 'bit_vector'
            self.BV, self.Bit, self.U, self.S, self.N = (g(m, x) for x in ('BitVector', 'Bit', 'UIntVector', 'SIntVector', 'NumVector'))
            self.eng = None
        elif key == 'smt':
            m = 'smt_bit_vector'
            self.BV, self.Bit, self.U, self.S, self.N = (g(m, x) for x in ('SMTBitVector', 'SMTBit', 'SMTUIntVector', 'SMTSIntVector', 'SMTNumVector'))
            self.eng = 'pysmt'
        else:
            m = 'z3_bit_vector'
            self.BV, self.Bit, self.U, self.S, self.N = (g(m, x) for x in ('z3BitVector', 'z3Bit', 'z3UIntVector', 'z3SIntVector', 'z3NumVector'))
            self.eng = 'z3'
        self.mod = m

    def vec(self, base, n):
        return self.it.getitem(base, n)

    def val(self, C, x, n):
        """instance of the sized class C holding the unsigned value x"""
        if self.eng is None:
            return self.it.call(C, [x], {})
        return self.it.call(C, [SNode(self.eng, 'bv', P(x), n)], {})

    def bit(self, b):
        if self.eng is None:
            return self.it.call(self.Bit, [b], {})
        return self.it.call(self.Bit, [SNode(self.eng, 'bool', b)], {})

    def rawbit(self, b):
        return b if self.eng is None else SNode(self.eng, 'bool', b)

    # -- observations
    def width(self, v):
        return self.it.getattr(self.it.type_of(v), 'size')

    def den(self, v):
        """unsigned value of a vector (and its node's own width)"""
        it = self.it
        if self.eng is None:
            return P(BI.to_num(it.call(it.getattr(v, 'as_uint'), [], {}))), None
        nd = it.getattr(v, 'value')
        if not isinstance(nd, SNode) or nd.sort != 'bv':
            return None, None
        return P(nd.den), nd.w

    def bden(self, v):
        it = self.it
        if self.eng is None:
            return it.truth(v)
        nd = it.getattr(v, 'value')
        if not isinstance(nd, SNode) or nd.sort != 'bool':
            return None
        return nd.den


def pred(text, whole=False):
    def d(f):
        f.text = text
        f.whole = whole
        return f
    return d


def small_widths(g):
    """a width fixed to a small constant by the guard, and the numbers of that width as sums of their bits"""
    mp = {}
    for a, v in T.literals(g).items():
        if a.op == 'eq0' and v and len(a.args[0].t) <= 2:
            for m, c in a.args[0].t:
                rest = T.sub(a.args[0], T._mk({m: c}))
                if len(m) == 1 and not m[0].args and rest.const is not None and (-rest.const / c) in (1, 2, 3):
                    mp[m[0]] = P(-rest.const / c)
    if mp:
        for x, hs in T.FACTS.hi.items():
            if x.args or x in mp or not any(l.const == 0 for l in T.FACTS.lo.get(x, ())):
                continue
            for h in hs:
                w = T.pow2_exp(T.add(T.subst(h, mp), 1))
                if h.const is None and w is not None and w.const in (1, 2, 3):
                    mp[x] = sum((T.mul(2 ** i, T.ind(T.tb(P(x), i))) for i in range(int(w.const))), P(0))
                    break
    return mp


def by_cube(it, f):
    """f() decided under the facts of the current guard, by cases if need be"""
    def go(g, depth):
        with T.guard_facts(mb(g)):
            r = f(lambda t: t)
            if isinstance(r, B) and g > 1:
                # equations of the guard that fix a whole term
                mp = {}
                for a, v in T.literals(g).items():
                    if a.op == 'eq0' and v:
                        p = a.args[0]
                        for m, c in p.t:
                            if len(m) == 1 and m[0].args and m[0].op not in ('ind', 'pow2') and T.sub(p, T._mk({m: c})).const is not None:
                                mp[m[0]] = T.mul(-1 / c, T.sub(p, T._mk({m: c})))
                if mp:
                    r = f(lambda t: T.subst(t, mp))
                if isinstance(r, B) and it.known(r, g) is not True:
                    mp = small_widths(g)
                    if mp:
                        r2 = f(lambda t: T.subst(t, mp))
                        g2 = T.subst(mb(g), mp)
                        if T.band_(g2, T.bnot_(r2)) is False:
                            return True
        if r is True or r is False:
            return r
        if g > 1 and it.known(r, g) is True:
            return True
        if depth <= 0:
            return r
        split = None
        if g > 1:
            lits = T.literals(g)
            split = next((a for a in T.bdd_support(g) if a not in lits), None)
        else:
            lits = {}
        if split is None:
            split = next((a for a in T.bdd_support(nb(r)) if a not in lits and a.op in ('lt0', 'eq0')), None)
        if split is None and len(T.bdd_support(nb(r))) <= 3:
            split = next((a for a in T.bdd_support(nb(r)) if a not in lits and a.op == 'tb' and T.fits(a.args[0], T.add(a.args[1], 1))), None)
        if split is None:
            return r
        x = T._bdd_var(split)
        out = None
        for v in (1, 0):
            gv = T.bdd_ite(g, x if v else T.bdd_ite(x, 0, 1), 0)
            if gv == 0 or not it.feasible(gv):
                rv = True
            else:
                rv = go(gv, depth - 1)
            out = rv if out is None else T.bite(B(x), out, rv)
        return out
    return go(it.st.guard, 6)


def eq_in(it, a, b):
    """a == b as decided in the current state"""
    return by_cube(it, lambda s: T.eq(s(T.refresh(P(a))), s(T.refresh(P(b)))))


def iff_in(it, a, b):
    return by_cube(it, lambda s: T.biff_(s(T.refresh(a)) if isinstance(a, B) else a, s(T.refresh(b)) if isinstance(b, B) else b))


def is_vec(F, C, val, text=None):
    """instance of exactly the class C with unsigned value val"""
    it = F.it

    @pred(text or '%s value %r' % (C.name if isinstance(C, ClassV) else C, val))
    def f(v):
        if not isinstance(v, Inst):
            return False
        c = it.same_class(v.cls, C)
        if c is False or it.known(c) is False:
            return False

        def chk(nd):
            if not isinstance(nd, SNode) or nd.sort != 'bv':
                return False
            return T.band_(eq_in(it, P(nd.den), val), eq_in(it, nd.w, it.getattr(C, 'size')))

        def go():
            if F.eng is not None:
                return it.case(it.getattr(v, 'value'), chk)
            return eq_in(it, F.den(v)[0], val)
        if c is True:
            return go()
        return it.branch(c, go, lambda: False)
    return f


def is_bit(F, b, text=None):
    it = F.it

    @pred(text or 'Bit %r' % (b,))
    def f(v):
        if not isinstance(v, Inst) or v.cls is not F.Bit:
            return False
        if F.eng is None:
            return iff_in(it, it.truth(v), b)

        def chk(nd):
            if not isinstance(nd, SNode) or nd.sort != 'bool':
                return False
            return iff_in(it, nd.den, b)
        return it.truth(it.case(it.getattr(v, 'value'), chk))
    return f


def is_int(F, val):
    it = F.it

    @pred('int %r' % (val,))
    def f(v):
        if isinstance(v, bool) or isinstance(v, B) or not isinstance(v, (int, I)):
            return False
        return eq_in(it, v, val)
    return f


def is_bool(F, b):
    it = F.it

    @pred('bool %r' % (b,))
    def f(v):
        if not isinstance(v, (bool, B)):
            return False
        return iff_in(it, v, b)
    return f


def is_obj(o, text='that object'):
    @pred(text)
    def f(v):
        return v is o or identical(v, o)
    return f


def is_class(it, C):
    @pred('class %s' % (C.name,))
    def f(v):
        if not isinstance(v, ClassV):
            return False
        return it.same_class(v, C)
    return f


def is_tuple(F, *ps):
    it = F.it

    @pred('a tuple (%s)' % ', '.join(p.text for p in ps))
    def f(v):
        if isinstance(v, tuple):
            items = v
        else:
            return False
        if len(items) != len(ps):
            return False

        def go(i):
            if i == len(ps):
                return True
            r = it.truth(it.case(items[i], ps[i]))
            k = it.known(r)
            if k is False:
                return False
            return T.band_(r, go(i + 1))
        return go(0)
    return f


def is_seq(F, n, el):
    """sequence of length n with el(i) a predicate for element i"""
    it = F.it

    @pred('a sequence of %r elements' % (n,))
    def f(v):
        items = it.iterate(v)
        if isinstance(items, SymSeq):
            r = eq_in(it, items.n, n)
            iv = T.fresh_var()
            T.FACTS.bound(iv, 0, T.sub(P(n), 1))
            q = it.case(items.get(P(iv)), el(P(iv)))
            return T.band_(r, q)
        r = eq_in(it, len(items), n)
        if r is False:
            return False
        for i, x in enumerate(items):
            q = it.case(x, el(i))
            r = T.band_(r, q)
        return r
    return f


NOTIMPL = pred('NotImplemented')(lambda v: v is NotImplemented)
NONE = pred('None')(lambda v: v is None)
ANY = pred('anything')(lambda v: True)
