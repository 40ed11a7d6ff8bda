"""C34: random values."""
import itertools
from . import terms as T
from .terms import P, nb
from .values import *
from .spec import pred, is_bit, is_vec, Fam, eq_in
from .props_fp import FP
from . import builtins_ as BI

DRAWS = 1 << 15          # largest number of combinations of draws that is enumerated


def draws_of(*ts):
    return [a for a in T.leaves(ts) if a.op.startswith('rnd#')]


def spans(it, ds):
    """inclusive ranges of independent draws with constant bounds, or None"""
    out = []
    for a in ds:
        if a.sort == 'bool':
            out.append((0, 1))
            continue
        lo, hi = T.FACTS.lo.get(a, []), T.FACTS.hi.get(a, [])
        lo, hi = [P(x).const for x in lo], [P(x).const for x in hi]
        if not lo or not hi or None in lo or None in hi:
            return None
        out.append((int(max(lo)), int(min(hi))))
    return out


def results(it, ds, terms):
    """the set of tuples the terms evaluate to over all draws, or None when there are too many"""
    sp = spans(it, ds)
    if sp is None:
        return None
    n = 1
    for lo, hi in sp:
        n *= hi - lo + 1
    if n > DRAWS:
        return None
    out = set()
    for xs in itertools.product(*(range(lo, hi + 1) for lo, hi in sp)):
        ev = T.Eval({a: bool(x) if a.sort == 'bool' else x for a, x in zip(ds, xs)})
        out.add(tuple(int(x) if not isinstance(x, bool) else x for x in (ev.ev(t) for t in terms)))
    return out


def in_term(v, acc):
    """terms inside a value that is not fully understood"""
    if isinstance(v, UF):
        for a in v.args:
            in_term(a, acc)
    elif isinstance(v, (I, B)):
        acc.append(v)
    elif isinstance(v, (tuple, list)):
        for a in v:
            in_term(a, acc)
    elif isinstance(v, Choice):
        for g, a in v.alts:
            acc.append(B(g) if not isinstance(g, (bool, B)) else g)
            in_term(a, acc)
    return acc


def capacity(it, ds):
    sp = spans(it, ds)
    if sp is None:
        return None
    n = 1
    for lo, hi in sp:
        n *= hi - lo + 1
    return n


def onto(it, v, n):
    """every value of n bits is the value of v for some outcome of the draws: a witness for every target"""
    ds = draws_of(v)
    if any(a.sort == 'bool' for a in ds):
        return False
    t = T.atom('target', (), 'int')
    T.FACTS.bound(t, 0, T.sub(T.pow2(n), 1))
    for a in ds:
        for lo in T.FACTS.lo.get(a, []):
            v0 = T.subst(v, {b: (T.FACTS.lo[b][0] if b is not a else lo) for b in ds})
            r = T.add(lo, T.fmod(T.sub(P(t), v0), T.pow2(n)))
            if not all(it.known(T.le(r, hi)) is True for hi in T.FACTS.hi.get(a, [])):
                continue
            got = T.subst(v, {b: (T.FACTS.lo[b][0] if b is not a else r) for b in ds})
            if eq_in(it, got, P(t)) is True:
                return True
    return False


def C34(ck):
    it, L = ck.it, ck.lab
    R1, R2 = 'a random vector is a value of its type', 'every value of the type can be drawn'
    F = Fam(L, 'py')

    def ints(base):
        loc = ck.method_loc(base, 'random')

        def setup(c):
            c['n'] = L.size('n', lo=1)
            c['C'] = it.getitem(base, c['n'])

        @pred('a vector of exactly the type drawn from')
        def typed(v):
            return isinstance(v, Inst) and v.cls is cur['C'] and is_vec(F, cur['C'], F.den(v)[0])(v)

        cur = {}

        def draw(c):
            cur.update(c)
            return it.call(it.getattr(c['C'], 'random'), [c['n']], {})
        ck.oblige(R1, '%s[n].random(n)' % base.name, setup, draw, lambda c: [(True, 'ret', typed)], loc)

        @pred('a draw with every value of n bits as an outcome')
        def full(v):
            d = F.den(v)[0]
            if onto(it, d, P(cur['n'])):
                return True
            raise Unsupported('no witness')
        # the general witness, and every small width by enumeration
        for k in (1, 2, 3, 4, 5):
            def s2(c, k=k):
                c['n'] = k
                c['C'] = it.getitem(base, k)

            @pred('a draw with all %d values as outcomes' % (1 << k))
            def all_(v, k=k):
                d = F.den(v)[0]
                ds = draws_of(d)
                cap = capacity(it, ds)
                if cap is not None and cap < 1 << k:
                    return False
                rs = results(it, ds, [d])
                if rs is None:
                    raise Unsupported('draws without constant ranges')
                return {x for x, in rs} == set(range(1 << k))
            ck.oblige(R2, '%s[%d].random(%d)' % (base.name, k, k), s2, draw, lambda c: [(True, 'ret', all_)], loc)
        ck.oblige(R2, '%s[n].random(n)' % base.name, setup, draw, lambda c: [(True, 'ret', full)], loc)
    for base in (F.BV, F.U, F.S):
        ints(base)

    @pred('a Bit with both values as outcomes')
    def both(v):
        if not isinstance(v, Inst) or v.cls is not F.Bit:
            return False
        b = F.bden(v)
        if isinstance(b, bool):
            return False
        rs = results(it, draws_of(b), [b])
        if rs is None:
            raise Unsupported('draws without constant ranges')
        return {bool(x) for x, in rs} == {True, False}
    ck.oblige(R2, 'Bit.random()', lambda c: None, lambda c: it.call(it.getattr(F.Bit, 'random'), [], {}), lambda c: [(True, 'ret', both)],
              ck.method_loc(F.Bit, 'random'))
    C34_fp(ck)


def C34_fp(ck):
    it, L = ck.it, ck.lab
    RT, RE, RI = ('a random number is a value of its type', 'every normal number of the format can be drawn', 'no infinity is drawn when it is excluded')
    FPV = L.cls('fp_vector', 'FPVector')
    loc = ck.method_loc(FPV, 'random')
    cur = {}

    def parts(v):
        """set of (negative, significand, exponent) over all draws; capacity of the draws"""
        x = it.getattr(v, '_value')
        alts = x.alts if isinstance(x, Choice) else [(True, x)]
        terms = in_term(x, [])
        ds = draws_of(*terms)
        cap = capacity(it, ds)
        out = set()
        for g, y in alts:
            if not isinstance(y, UF) or y.op != 'finite':
                return None, cap
            gb = B(g) if not isinstance(g, (bool, B)) else g
            rs = results(it, ds, [gb, *y.args[:3]])
            if rs is None:
                return None, cap
            out |= {r[1:] for r in rs if r[0]}
        return out, cap

    from fractions import Fraction

    for eb, mb in ((2, 3), (3, 4), (4, 2), (2, 8)):
        for ieee in (True, False):
            for inf in (True, False):
                def setup(c, eb=eb, mb=mb, ieee=ieee, inf=inf):
                    c['T'] = it.getitem(FPV, (eb, mb, it.getattr(L.cls('fp_vector_abc', 'RoundingMode'), 'RNE'), ieee))
                    cur.update(T=c['T'], eb=eb, mb=mb, inf=inf)

                def body(c, inf=inf):
                    return it.call(it.getattr(c['T'], 'random'), [], {'allow_inf': inf})

                @pred('a value of exactly the type')
                def typed(v):
                    return isinstance(v, Inst) and v.cls is cur['T']

                @pred('a draw with every normal number as an outcome')
                def normals(v):
                    eb, mb = cur['eb'], cur['mb']
                    bias = (1 << (eb - 1)) - 1
                    want = {s * Fraction((1 << mb) + m) * Fraction(2) ** (e - mb) for s in (1, -1) for m in range(1 << mb) for e in range(1 - bias, bias + 1)}
                    out, cap = parts(v)
                    if cap is not None and cap < len(want):
                        return False       # fewer outcomes of the draws than numbers
                    if out is None:
                        raise Unsupported('number not understood')
                    return want <= {(-1 if neg else 1) * Fraction(m) * Fraction(2) ** e for neg, m, e in out}

                @pred('a draw without infinities')
                def finite(v):
                    bias = (1 << (cur['eb'] - 1)) - 1
                    out, cap = parts(v)
                    if out is None:
                        raise Unsupported('number not understood')
                    return all(Fraction(m) * Fraction(2) ** e < Fraction(2) ** (bias + 1) for neg, m, e in out)
                tag = 'FPVector[%d, %d, RNE, %s].random(allow_inf=%s)' % (eb, mb, ieee, inf)
                ck.oblige(RT, tag, setup, body, lambda c: [(True, 'ret', typed)], loc)
                ck.oblige(RE, tag, setup, body, lambda c: [(True, 'ret', normals)], loc)
                if not inf:
                    ck.oblige(RI, tag, setup, body, lambda c: [(True, 'ret', finite)], loc)

    # formats whose numbers are too many to list: at least as many outcomes of the draws as numbers
    RN = 'a draw has as many outcomes as there are normal numbers'
    for eb, mb in ((8, 23), (8, 7), (11, 52), (15, 112), (5, 236), (19, 300)):
        for inf in (True, False):
            def setup(c, eb=eb, mb=mb):
                c['T'] = it.getitem(FPV, (eb, mb, it.getattr(L.cls('fp_vector_abc', 'RoundingMode'), 'RNE'), True))

            def body(c, inf=inf):
                return it.call(it.getattr(c['T'], 'random'), [], {'allow_inf': inf})

            @pred('a draw with as many outcomes as there are normal numbers')
            def enough(v, eb=eb, mb=mb):
                x = it.getattr(v, '_value')
                ds = draws_of(*in_term(x, []))
                cap = capacity(it, ds)
                if cap is None:
                    raise Unsupported('range of a draw not understood')
                return cap >= 2 * (1 << mb) * ((1 << eb) - 2)
            ck.oblige(RN, 'FPVector[%d, %d].random(allow_inf=%s)' % (eb, mb, inf), setup, body, lambda c: [(True, 'ret', enough)], loc)


def C27(ck):
    from .clients import run_clients
    run_clients(ck, 'vtypes', 'C27')


def C32(ck):
    """overflow(a, b, a + b) is the signed overflow of the addition, in every family"""
    it, L = ck.it, ck.lab
    rule = 'overflow is set exactly when the signed sum does not fit'
    for key in ('py', 'smt', 'z3'):
        F = Fam(L, key)
        for base in (F.BV, F.U, F.S):
            def setup(c, F=F, base=base):
                n = c['n'] = L.size('n', lo=1)
                C = it.getitem(base, n)
                c['x'], c['y'] = L.uint('x', n), L.uint('y', n)
                c['a'], c['b'] = F.val(C, c['x'], n), F.val(C, c['y'], n)

            def body(c):
                s = it.binop('Add', c['a'], c['b'])
                return it.call(L.cls('bit_vector', 'overflow'), [c['a'], c['b'], s], {})

            def expect(c, F=F):
                n, x, y = c['n'], c['x'], c['y']
                # textbook fact: the signed sum of two n-bit numbers is unrepresentable iff the
                # operands have one sign and the wrapped sum has the other
                i = T.sub(n, 1)
                p, q, r = T.tb(x, i), T.tb(y, i), T.tb(T.add(x, y), i)
                return [(True, 'ret', is_bit(F, T.band_(T.biff_(p, q), T.bnot_(T.biff_(p, r)))))]
            ck.oblige(rule, 'overflow(a, b, a + b) [%s[n]]' % base.name, setup, body, expect, ck.loc_of(L.cls('bit_vector', 'overflow')))


def C35(ck):
    from .clients import run_clients
    run_clients(ck, 'misc', 'C35')


def C28(ck):
    """every name, attribute of self and argument of a call within the package resolves"""
    import ast
    from . import lint
    from .check import OK, BAD as VIOLATION
    mods = lint.load(ck.it.repo)
    R1, R2, R3, R4, R5 = ('a name that is read is bound in an enclosing scope, the module or the builtins', 'some assignment reaches every read of a local',
                          'an attribute read from self or cls is defined somewhere in the package', 'arguments of a call bind to the parameters',
                          'an imported name exists in the module')

    def loc(m, line, where):
        return '%s:%d %s' % (m.rel, line, where)
    for m in mods.values():
        bad, n = lint.unresolved(mods, m)
        by = {}
        for where, name, line in bad:
            by.setdefault(where, []).append(name)
        nodes = {lint.qual(nd, st): nd for nd, st in lint.scopes(m)}
        for where in ['<module>'] + list(nodes):
            names = by.get(where)
            if names:
                line = nodes[where].lineno if where in nodes else 1
                ck.add(R1, '%s.%s' % (m.name, where), VIOLATION, 'unresolved: %s' % ', '.join(sorted(set(names))), loc(m, line, where))
        ck.add(R1, '%s: %d reads' % (m.name, n), OK, '', m.rel)
        reads = k = 0
        for nd, st in lint.scopes(m):
            if isinstance(nd, ast.FunctionDef):
                f = lint.Flow(nd)
                reads, k = reads + f.reads, k + 1
                if f.bad:
                    ck.add(R2, '%s.%s' % (m.name, lint.qual(nd, st)), VIOLATION, 'read before any assignment: %s' % ', '.join(sorted({x for x, _ in f.bad})),
                           loc(m, nd.lineno, lint.qual(nd, st)))
        ck.add(R2, '%s: %d functions, %d reads' % (m.name, k, reads), OK, '', m.rel)
    for rule, f in ((R3, lint.self_attributes), (R4, lint.calls), (R5, lint.imports)):
        bad, n = f(mods)
        for m, where, what, line in bad:
            ck.add(rule, '%s.%s' % (m.name, where), VIOLATION, what, loc(m, line, where))
        ck.add(rule, 'package: %d sites' % n, OK if n else 'undecided', '' if n else 'no site found', 'hwtypes')


FAMS = (('bit_vector', ('Bit', 'BitVector', 'UIntVector', 'SIntVector')), ('smt_bit_vector', ('SMTBit', 'SMTBitVector', 'SMTUIntVector', 'SMTSIntVector')),
        ('z3_bit_vector', ('z3Bit', 'z3BitVector', 'z3UIntVector', 'z3SIntVector')), ('fp_vector', ('FPVector',)), ('smt_fp_vector', ('SMTFPVector',)))


def arity(f):
    """(least, most) number of positional arguments of a function value, first parameter included; most None: any"""
    a = f.node.args
    pos = len(a.posonlyargs) + len(a.args)
    return pos - len(a.defaults), (None if a.vararg else pos), [x.arg for x in a.kwonlyargs if True and x.arg not in f.kwdefaults]


def C29(ck):
    """the implementations provide the whole abstract interface"""
    from .check import OK, BAD as VIOLATION
    it, L = ck.it, ck.lab
    RI, RA, RF = ('every abstract operation has an implementation', 'an implementation takes the arguments of the abstract operation',
                  'the family of a type is the four types of its own module')
    lab = ck.lab

    def kind(v):
        return {ClassMV: 'class method', StaticV: 'static method', PropV: 'property'}.get(type(v), 'method')

    def fn(v):
        if isinstance(v, (ClassMV, StaticV)):
            return fn(v.fn)
        if isinstance(v, PropV):
            return fn(v.fget)
        return v
    for mod, names in FAMS:
        for name in names:
            C = L.cls(mod, name)
            abstract = set(it.abstract_names(C))
            decl = {}
            for k in C.mro:
                for n, v in it.rec(k).items():
                    if it.is_abstract(v):
                        decl[n] = (k, v)
            for n, (k, v) in sorted(decl.items()):
                cons = '%s.%s' % (name, n)
                if n in abstract:
                    ck.add(RI, cons, VIOLATION, 'declared in %s, not implemented' % k.name, ck.loc_of(fn(v)))
                    continue
                w = it.mro_lookup(C, n)
                ck.add(RI, cons, OK, '', None)
                if w is None:
                    ck.add(RA, cons, VIOLATION, 'is None', ck.loc_of(fn(v)))
                    continue
                if (kind(v) == 'property') != (kind(w) == 'property'):
                    ck.add(RA, cons, VIOLATION, 'a %s, declared as a %s' % (kind(w), kind(v)), ck.loc_of(fn(w)))
                    continue
                f, g = fn(v), fn(w)
                if not isinstance(g, FuncV):
                    ck.add(RA, cons, OK, 'not a function', None)
                    continue
                lo, hi, kw = arity(f)
                lo2, hi2, kw2 = arity(g)
                if kind(v) == 'static method':
                    d1 = 0
                else:
                    d1 = 1
                d2 = 0 if kind(w) == 'static method' else 1
                bad = []
                if lo2 - d2 > lo - d1:
                    bad.append('needs %d arguments, declared with %d' % (lo2 - d2, lo - d1))
                if hi2 is not None and (hi is not None and hi2 - d2 < hi - d1):
                    bad.append('takes %d arguments, declared with %d' % (hi2 - d2, hi - d1))
                if set(kw2) - set(kw):
                    bad.append('needs keyword arguments %s' % ', '.join(sorted(kw2)))
                ck.add(RA, cons, VIOLATION if bad else OK, '; '.join(bad), ck.loc_of(g))
    for mod, names in FAMS[:3]:
        four = [L.cls(mod, n) for n in names]

        @pred('(%s)' % ', '.join(names), whole=True)
        def fam(v, four=four):
            vals = [it.getattr(v, f) for f in ('Bit', 'BitVector', 'Unsigned', 'Signed')]
            return all(a is b for a, b in zip(vals, four))
        for i, name in enumerate(names):
            C = four[i]
            loc = ck.method_loc(C, 'get_family')
            ck.oblige(RF, '%s.get_family()' % name, lambda c: None, lambda c, C=C: it.call(it.getattr(C, 'get_family'), [], {}), lambda c, f=fam: [(True, 'ret', f)], loc)
            if i:
                def setup(c, C=C):
                    c['n'] = L.size('n', lo=1)
                    c['T'] = it.getitem(C, c['n'])
                ck.oblige(RF, '%s[n].get_family()' % name, setup, lambda c: it.call(it.getattr(c['T'], 'get_family'), [], {}), lambda c, f=fam: [(True, 'ret', f)], loc)
        for a, b in ((1, 2), (1, 3)):
            ok = four[a] in four[b].mro
            ck.add(RF, '%s is a %s' % (names[b], names[a]), OK if ok else VIOLATION, '' if ok else 'not a subclass', None)
        ab = [L.cls('bit_vector_abc', 'AbstractBit')] + [L.cls('bit_vector_abc', 'AbstractBitVector')] * 3
        for C, A, n in zip(four, ab, names):
            ok = A in C.mro
            ck.add(RF, '%s is a %s' % (n, A.name), OK if ok else VIOLATION, '' if ok else 'not a subclass', None)
