"""C15-C18: floating point vectors."""
from . import terms as T
from .terms import P, B, nb, mb
from .values import *
from .spec import pred, is_bit, is_vec, Fam, eq_in, iff_in, by_cube
from . import builtins_ as BI

MODES = ('RNE', 'RNA', 'RTP', 'RTN', 'RTZ')
GMODE = dict(RNE='RoundToNearest', RTP='RoundUp', RTN='RoundDown', RTZ='RoundToZero')


class FP:
    """one floating point type with symbolic field sizes"""

    def __init__(self, ck, mode, ieee, base=None, sizes=('eb', 'mb')):
        self.ck, self.lab, self.it = ck, ck.lab, ck.it
        it, L = self.it, ck.lab
        self.eb, self.mb = L.size(sizes[0]), L.size(sizes[1])
        self.mode_name = mode
        self.mode = it.getattr(L.cls('fp_vector_abc', 'RoundingMode'), mode)
        self.base = base or L.cls('fp_vector', 'FPVector')
        self.ieee = ieee
        self.T = it.getitem(self.base, (self.eb, self.mb, self.mode, ieee))
        self.ctx = it.getattr(self.T, '_ctx_')
        self.mp = BI.CLS['mpfr']

    def uf(self, op, *args):
        return UF(op, tuple(args) + (self.ctx,), self.mp)

    def num(self, name):
        """an arbitrary number of the type's format"""
        return self.uf('leaf', name)

    def val(self, num, C=None):
        """value of the type holding that number"""
        it = self.it
        o = it.call(it.getattr(C or self.T, '__new__'), [C or self.T], {})
        it.put(o, '_value', num)
        return o

    def atom(self, op, *nums):
        return B(T._bdd_var(T.atom(op, tuple(self.it.canon(x) for x in nums), 'bool')))

    def stored(self, num):
        """what is kept of a number: NaN becomes an infinity unless the type is IEEE compliant"""
        if self.ieee:
            return num
        nan, neg = BI.fp_class(self.it, 'is_nan', num), BI.fp_class(self.it, 'is_signed', num)
        if nan is False:
            return num
        return Choice([(T.band_(nan, neg), self.uf('mpfr', '-inf')), (T.band_(nan, T.bnot_(neg)), self.uf('mpfr', 'inf')), (T.bnot_(nan), num)])


def is_fp(F, num, text=None, C=None):
    """value of exactly the type, holding that number (up to the NaN rule)"""
    it = F.it
    want = F.stored(num)

    @pred(text or '%s(%s) rounded in the context of the type' % (num.op, ', '.join(repr(a) for a in num.args[:-1])))
    def f(v):
        if not isinstance(v, Inst):
            return False
        c = it.same_class(v.cls, C or F.T)
        if it.known(c) is not True:
            return False
        return it.case(it.getattr(v, '_value'), lambda a: it.case(want, lambda b: isinstance(a, UF) and it.canon(a) == it.canon(b)))
    return f


def each_type(ck, rule, construct, setup, body, expect, loc=None, modes=('RNE', 'RTZ'), ieees=(True, False), base=None):
    for m in (modes if ck.tier == 'quick' else MODES):
        for ieee in ieees:
            def s(c, m=m, ieee=ieee):
                c['F'] = FP(ck, m, ieee, base)
                setup(c, c['F'])
            ck.oblige(rule, '%s [%s, %s]' % (construct, m, 'IEEE' if ieee else 'not IEEE'), s, lambda c: body(c, c['F']), lambda c: expect(c, c['F']), loc)


# ------------------------------------------------------------------ C15
def C15(ck):
    it, L = ck.it, ck.lab
    FPV = L.cls('fp_vector', 'FPVector')
    loc = ck.loc_of(it.rec(FPV)['__init_subclass__'])
    iloc = ck.method_loc(FPV, '__init__')

    def attrs(F):
        two_e = T.pow2(T.sub(F.eb, 1))
        prec = T.add(F.mb, 1)
        return dict(precision=prec, emax=two_e, emin=T.sub(T.sub(4, two_e), prec) if F.ieee else T.sub(3, two_e), subnormalize=F.ieee, allow_complex=False)

    def same(v, w):
        if isinstance(w, bool):
            return v is w
        return eq_in(it, P(BI.to_num(v)), w)

    @pred('the gmpy2 context of the format')
    def good(v):
        F = cur['F']
        r = True
        for k, w in attrs(F).items():
            r = T.band_(r, it.truth(it.case(BI.ctx_attr(it, v, k), lambda x: same(x, w))))
        return r

    @pred('the rounding of the type\'s mode')
    def mode_ok(v):
        F = cur['F']
        w = GMODE.get(cur['m'])
        r = BI.ctx_attr(it, v, 'round')
        if w is None:
            return False       # gmpy2 contexts have no round-to-nearest, ties-away
        return isinstance(r, Opaque) and r.name == 'gmpy2.' + w

    @pred('rounding away from zero')
    def away(v):
        r = BI.ctx_attr(it, v, 'round')
        return isinstance(r, Opaque) and r.name == 'gmpy2.RoundAwayZero'

    @pred('a context with default traps and per-part roundings')
    def default_ok(v):
        return all(isinstance(BI.ctx_attr(it, v, k), UF) for k in ('trap_underflow', 'trap_overflow', 'trap_inexact', 'trap_erange', 'trap_divzero',
                                                                   'trap_invalid'))
    cur = {}
    for m in MODES:
        for ieee in (True, False):
            for sub in (False, True):
                def setup(c, m=m, ieee=ieee, sub=sub):
                    c['F'] = cur['F'] = FP(ck, m, ieee)
                    cur['m'] = m
                    if sub:
                        c['T'] = it.call(it.type_of(c['F'].T), ['Sub', (c['F'].T,), it.new_dict([])], {})
                    else:
                        c['T'] = c['F'].T
                tag = '%s%s [%s, %s]' % ('FPVector[eb, mb, mode, ieee]', ' subclass' if sub else '', m, 'IEEE' if ieee else 'not IEEE')
                body = lambda c: it.getattr(c['T'], '_ctx_')
                ck.oblige('context precision and exponent range', tag, setup, body, lambda c: [(True, 'ret', good)], loc)
                if m != 'RNA' or not sub:
                    ck.oblige('context rounding mode', tag, setup, body, lambda c: [(True, 'ret', mode_ok)], loc)
                    row = ck.rows[-1]
                    if m == 'RNA' and row['status'] == 'violation':
                        ck.oblige('context rounding mode', tag, setup, body, lambda c: [(True, 'ret', away)], loc)
                        if ck.rows.pop()['status'] == 'ok':
                            row['deviation'] = 'round-away-from-zero'
                ck.oblige('context does not trap', tag, setup, body, lambda c: [(True, 'ret', default_ok)], loc)

    # construction
    def other(F):
        return FP(ck, 'RTP', True, sizes=('eb2', 'mb2'))
    def o_fp(c, F):
        c['G'] = other(F)
        c['v'] = c['G'].val(c['G'].num('x'))
        return F.uf('mpfr', c['G'].num('x'), T.add(F.mb, 1))
    KINDS = {
        'int': lambda c, F: setv(c, L.int('k'), lambda v: F.uf('mpfr', v)),
        'bool': lambda c, F: setv(c, L.bool('b'), lambda v: F.uf('mpfr', v)),
        'float': lambda c, F: setv(c, UF('float', ('f',), BI.CLS['float']), lambda v: F.uf('mpfr', v)),
        'mpz': lambda c, F: setv(c, UF('mpz', ('z',), BI.CLS['mpz']), lambda v: F.uf('mpfr', v)),
        'mpq': lambda c, F: setv(c, UF('mpq', ('q',), BI.CLS['mpq']), lambda v: F.uf('mpfr', v)),
        'mpfr of another precision': lambda c, F: setv(c, UF('leaf', ('m', 'elsewhere'), BI.CLS['mpfr']), lambda v: F.uf('mpfr', v, T.add(F.mb, 1))),
        'value of the type': lambda c, F: setv(c, F.val(F.num('x')), lambda v: F.num('x')),
        'value of another type': o_fp,
        'object with __float__': lambda c, F: setv(c, it.call(L.fix('HasFloat'), [UF('float', ('f',), BI.CLS['float'])], {}), lambda v: F.uf('mpfr', UF('float', ('f',), BI.CLS['float']))),
        'object with __float__ and __int__': lambda c, F: setv(c, it.call(L.fix('HasBoth'), [UF('float', ('f',), BI.CLS['float']), L.int('k')], {}), lambda v: F.uf('mpfr', UF('float', ('f',), BI.CLS['float']))),
        'object with __int__': lambda c, F: setv(c, it.call(L.fix('HasInt'), [L.int('k')], {}), lambda v: F.uf('mpfr', L.int('k'))),
    }

    def setv(c, v, w):
        c['v'] = v
        return w(v)
    for k, mk in KINDS.items():
        def setup(c, F, mk=mk):
            c['w'] = mk(c, F)
        each_type(ck, 'construction rounds once, in the context of the type', 'FPVector(%s)' % k, setup, lambda c, F: it.call(F.T, [c['v']], {}),
                  lambda c, F: [(True, 'ret', is_fp(F, c['w']))], iloc, modes=('RNE', 'RTP'))

    def text(c, F):
        c['v'] = Opaque('text', BI.CLS['str'])

    def text_exp(c, F):
        bad = B(T._bdd_var(T.atom('badnum', (it.canon(c['v']),), 'bool')))
        frac = B(T._bdd_var(T.atom('badfrac', (it.canon(c['v']),), 'bool')))
        return [(T.bnot_(bad), 'ret', is_fp(F, F.uf('mpfr', c['v']))),
                (T.band_(bad, T.bnot_(frac)), 'ret', is_fp(F, F.uf('mpfr', UF('mpq', (c['v'],), BI.CLS['mpq'])))),
                (T.band_(bad, frac), 'exc', ('ValueError',))]
    each_type(ck, 'a numeral or fraction is read in the context of the type', 'FPVector(str)', text, lambda c, F: it.call(F.T, [c['v']], {}), text_exp, iloc)

    for k, mk in (('None', lambda: None), ('object', lambda: it.call(L.fix('Plain'), [], {})), ('list', lambda: it.new_list([1, 2]))):
        def setup(c, F, mk=mk):
            c['v'] = mk()
        each_type(ck, 'other objects are rejected', 'FPVector(%s)' % k, setup, lambda c, F: it.call(F.T, [c['v']], {}),
                  lambda c, F: [(True, 'exc', ('TypeError',))], iloc)

    # the caller's context is untouched
    def restore(c, F):
        c['outer'] = UF('context', (('precision', 53),), BI.CLS['gmpy2ctx'])
        it.put(it.gctx, 'ctx', c['outer'])
        c['x'], c['y'] = F.val(F.num('x')), F.val(F.num('y'))

    def kept(c):
        @pred('the caller\'s gmpy2 context in force')
        def f(v):
            return BI.curctx(it) is c['outer'] or it.canon(BI.curctx(it)) == it.canon(c['outer'])
        f.whole = True
        return f
    for name, call in (('fp_add', lambda c, F: it.call(it.getattr(c['x'], 'fp_add'), [c['y']], {})),
                       ('FPVector(0)', lambda c, F: it.call(F.T, [0], {})),
                       ('fp_sqrt', lambda c, F: it.call(it.getattr(c['x'], 'fp_sqrt'), [], {})),
                       ('reinterpret_as_bv', lambda c, F: it.call(it.getattr(c['x'], 'fp_is_zero'), [], {}))):
        each_type(ck, 'the gmpy2 context of the caller is restored', name, restore, call, lambda c, F: [(True, 'ret', kept(c))], iloc, modes=('RNE',))

    def fails(c, F):
        r = L.run(lambda: it.call(F.T, [None], {}))
        for st, e in r.excs:
            it.st = st
            return None
        return 1
    each_type(ck, 'the gmpy2 context of the caller is restored', 'failing construction', restore, fails, lambda c, F: [(True, 'ret', kept(c))], iloc, modes=('RNE',))


# ------------------------------------------------------------------ C16
UN = {'fp_abs': 'abs', 'fp_neg': 'neg', 'fp_sqrt': 'sqrt', 'fp_round_to_integral': 'rint'}
BIN = {'fp_add': 'add', 'fp_sub': 'sub', 'fp_mul': 'mult', 'fp_div': 'div', 'fp_rem': 'remainder', 'fp_min': 'minnum', 'fp_max': 'maxnum'}
REL = {'fp_leq': ('fpLtE', 0), 'fp_lt': ('fpLt', 0), 'fp_geq': ('fpLtE', 1), 'fp_gt': ('fpLt', 1), 'fp_eq': ('fpEq', 0)}
OPS = {'__add__': 'fp_add', '__sub__': 'fp_sub', '__mul__': 'fp_mul', '__truediv__': 'fp_div', '__mod__': 'fp_rem'}
RELOPS = {'__le__': 'fp_leq', '__lt__': 'fp_lt', '__ge__': 'fp_geq', '__gt__': 'fp_gt', '__eq__': 'fp_eq'}
PREDS = {'fp_is_zero': 'is_zero', 'fp_is_infinite': 'is_infinite', 'fp_is_NaN': 'is_nan'}
PYOP = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__mod__': 'Mod'}
PYREL = {'__le__': 'LtE', '__lt__': 'Lt', '__ge__': 'GtE', '__gt__': 'Gt', '__eq__': 'Eq', '__ne__': 'NotEq'}


def C16(ck):
    it, L = ck.it, ck.lab
    FPV = L.cls('fp_vector', 'FPVector')
    py = Fam(L, 'py')

    def operands(c, F):
        for k in 'xyz':
            c[k] = F.num(k)
            c[k.upper()] = F.val(c[k])

    def meth(name, *args):
        return lambda c, F: it.call(it.getattr(c['X'], name), [c[a] for a in args], {})

    def rel(F, name, x, y):
        op, sw = REL[name]
        return F.atom(op, y, x) if sw else F.atom(op, x, y)
    ML = lambda n: ck.method_loc(FPV, n)
    for n, op in UN.items():
        each_type(ck, 'the primitive of that name, rounded in the type\'s context', n, operands, meth(n), lambda c, F: [(True, 'ret', is_fp(F, F.uf(op, c['x'])))], ML(n))
    for n, op in BIN.items():
        each_type(ck, 'the primitive of that name, operands in order, rounded in the type\'s context', n, operands, meth(n, 'Y'),
                  lambda c, F: [(True, 'ret', is_fp(F, F.uf(op, c['x'], c['y'])))], ML(n))
    each_type(ck, 'x * coef + offset, rounded once in the type\'s context', 'fp_fma', operands, meth('fp_fma', 'Y', 'Z'),
              lambda c, F: [(True, 'ret', is_fp(F, F.uf('fma', c['x'], c['y'], c['z'])))], ML('fp_fma'))
    for n in REL:
        each_type(ck, 'the relation of that name, false on NaN', n, operands, meth(n, 'Y'), lambda c, F: [(True, 'ret', is_bit(py, rel(F, n, c['x'], c['y'])))], ML(n))
    for n, op in PREDS.items():
        each_type(ck, 'the classification of that name', n, operands, meth(n), lambda c, F: [(True, 'ret', is_bit(py, F.atom(op, c['x'])))], ML(n))

    for n, sw in (('fp_is_negative', 0), ('fp_is_positive', 1)):
        each_type(ck, 'the number is below (above) zero', n, operands, meth(n),
                  lambda c, F: [(True, 'ret', is_bit(py, F.atom('fpLt', 0, c['x']) if sw else F.atom('fpLt', c['x'], 0)))], ML(n))

    # operators
    for n, m in OPS.items():
        each_type(ck, 'the operator is the named operation', 'operator ' + n, operands, lambda c, F: it.binop(PYOP[n], c['X'], c['Y']),
                  lambda c, F: [(True, 'ret', is_fp(F, F.uf(BIN[m], c['x'], c['y'])))], ML(n))
    for n, m in RELOPS.items():
        each_type(ck, 'the operator is the named relation', 'operator ' + n, operands, lambda c, F: it.compare(PYREL[n], c['X'], c['Y']),
                  lambda c, F: [(True, 'ret', is_bit(py, rel(F, m, c['x'], c['y'])))], ML(n))
    each_type(ck, 'the operator is the negated relation', 'operator __ne__', operands, lambda c, F: it.compare('NotEq', c['X'], c['Y']),
              lambda c, F: [(True, 'ret', is_bit(py, T.bnot_(rel(F, 'fp_eq', c['x'], c['y']))))], ML('__ne__'))
    each_type(ck, 'the operator is the named operation', 'operator __neg__', operands, lambda c, F: it.unop('USub', c['X']),
              lambda c, F: [(True, 'ret', is_fp(F, F.uf('neg', c['x'])))], ML('__neg__'))
    each_type(ck, 'the operator is the named operation', 'operator __abs__', operands, lambda c, F: it.call(it.BI.BUILTINS['abs'], [c['X']], {}),
              lambda c, F: [(True, 'ret', is_fp(F, F.uf('abs', c['x'])))], ML('__abs__'))

    # coercion of the other operand
    OTHERS = {
        'int': lambda c, F: (L.int('k'),) * 2,
        'float': lambda c, F: (UF('float', ('f',), BI.CLS['float']),) * 2,
        'mpfr': lambda c, F: (UF('leaf', ('m', 'elsewhere'), BI.CLS['mpfr']), None),
    }
    for kind, mk in OTHERS.items():
        def setup(c, F, mk=mk, kind=kind):
            operands(c, F)
            c['Y'], w = mk(c, F)
            num = F.uf('mpfr', c['Y']) if kind != 'mpfr' else F.uf('mpfr', c['Y'], T.add(F.mb, 1))
            c['y'] = F.stored(num)
        for n in list(BIN) + ['fp_fma']:
            def exp(c, F, n=n):
                def one(y):
                    return F.uf('fma', c['x'], y, c['z']) if n == 'fp_fma' else F.uf(BIN[n], c['x'], y)
                alts = c['y'].alts if isinstance(c['y'], Choice) else [(True, c['y'])]
                return [(g, 'ret', is_fp(F, one(y))) for g, y in alts]
            each_type(ck, 'the other operand is first converted to the type', '%s, %s' % (n, kind), setup,
                      meth(n, 'Y', 'Z') if n == 'fp_fma' else meth(n, 'Y'), exp, ML(n), modes=('RNE',))
        for n in REL:
            def exp(c, F, n=n):
                alts = c['y'].alts if isinstance(c['y'], Choice) else [(True, c['y'])]
                return [(g, 'ret', is_bit(py, rel(F, n, c['x'], y))) for g, y in alts]
            each_type(ck, 'the other operand is first converted to the type', '%s, %s' % (n, kind), setup, meth(n, 'Y'), exp, ML(n), modes=('RNE',))

    def mismatch(how):
        def setup(c, F):
            operands(c, F)
            if how == 'mode':
                G = FP(ck, 'RTN' if F.mode_name == 'RTP' else 'RTP', F.ieee)
            elif how == 'ieee':
                G = FP(ck, F.mode_name, not F.ieee)
            elif how == 'exponent size':
                G = FP(ck, F.mode_name, F.ieee, sizes=('eb2', 'mb'))
                it.assume(T.ne(G.eb, F.eb)) if hasattr(it, 'assume') else None
            else:
                G = FP(ck, F.mode_name, F.ieee, sizes=('eb', 'mb2'))
            c['diff'] = T.bor_(T.ne(G.eb, F.eb), T.ne(G.mb, F.mb)) if how.endswith('size') else True
            c['Y'] = G.val(G.num('y'))
        return setup
    for how in ('mode', 'ieee', 'exponent size', 'mantissa size'):
        for n in list(BIN) + list(REL) + ['fp_fma']:
            each_type(ck, 'values of another format are rejected', '%s, other %s' % (n, how), mismatch(how),
                      meth(n, 'Y', 'Y') if n == 'fp_fma' else meth(n, 'Y'), lambda c, F: [(c['diff'], 'exc', ('TypeError',))], ML(n), modes=('RNE',), ieees=(True,))

    # integers
    def sz(c, F):
        operands(c, F)
        c['n'] = L.size('n')
        c['C'] = {V: py.vec(V, c['n']) for V in (py.BV, py.S)}
    for n, V in (('to_ubv', py.BV), ('to_sbv', py.S)):
        def exp(c, F, V=V):
            k = P(T.atom('toint', (it.canon(c['x']),), 'int'))
            return [(True, 'ret', is_vec(py, c['C'][V], T.wrap(k, c['n'])))]
        each_type(ck, 'the integer part, modulo 2**n', n, sz, meth(n, 'n'), exp, ML(n), modes=('RNE',))

    @pred('float of the number')
    def fl(v):
        return isinstance(v, UF) and v.op == 'float' and it.canon(v.args[0]) == it.canon(cur['x'])
    cur = {}

    def ops2(c, F):
        operands(c, F)
        cur['x'] = c['x']
    each_type(ck, 'float() is the number', '__float__', ops2, lambda c, F: it.call(BI.CLS['float'], [c['X']], {}), lambda c, F: [(True, 'ret', fl)], ML('__float__'), modes=('RNE',))


# ------------------------------------------------------------------ C17
def C17(ck):
    it, L = ck.it, ck.lab
    FPV = L.cls('fp_vector', 'FPVector')
    py = Fam(L, 'py')
    ML = lambda n: ck.method_loc(FPV, n)
    RA, RF, RC, RR = ('the value is encoded as sign, biased exponent, fraction', 'the encoding denotes its value', 'classification agrees with the encoding',
                      'a vector of another size is rejected')

    def kinds(c, F):
        """every datum of the format: (name, number, significand field, exponent field, sign)"""
        s = L.bool('s')
        f = L.nat('f', 0, T.sub(T.pow2(F.mb), 1))
        E = L.nat('E', 1, T.sub(T.pow2(F.eb), 2))
        k = L.nat('k', 1, F.mb)
        g = L.nat('g', T.pow2(T.sub(F.mb, k)), T.sub(T.pow2(T.add(T.sub(F.mb, k), 1)), 1))
        bias = T.sub(T.pow2(T.sub(F.eb, 1)), 1)
        top = T.sub(T.pow2(F.eb), 1)
        return dict(
            s=s, f=f, E=E, k=k, g=g, bias=bias, top=top,
            normal=(F.uf('finite', s, T.add(T.pow2(F.mb), f), T.sub(T.sub(E, bias), F.mb)), f, E, s),
            subnormal=(F.uf('finite', s, T.mul(g, T.pow2(k)), T.sub(T.sub(T.sub(1, bias), F.mb), k)), g, P(0), s),
            **{'+zero': (F.uf('mpfr', '0'), P(0), P(0), False), '-zero': (F.uf('mpfr', '-0'), P(0), P(0), True),
               '+infinity': (F.uf('mpfr', 'inf'), P(0), top, False), '-infinity': (F.uf('mpfr', '-inf'), P(0), top, True),
               'NaN': (F.uf('mpfr', 'nan'), P(1), top, None)})

    def enc(F, f, E, s):
        return T.add(T.add(f, T.mul(T.pow2(F.mb), E)), T.mul(T.pow2(T.add(F.mb, F.eb)), T.ind(s)))
    FIN = ('normal', '+zero', '-zero', '+infinity', '-infinity')
    for kind in FIN + ('subnormal', 'NaN'):
        ies = (True,) if kind in ('subnormal', 'NaN') else (True, False)

        def setup(c, F, kind=kind):
            c['num'], f, E, s = kinds(c, F)[kind]
            c['f'], c['E'], c['s'] = f, E, s
            c['X'] = F.val(c['num'])
            c['C'] = py.vec(py.BV, T.add(T.add(F.eb, F.mb), 1))

        def exp(c, F):
            if c['s'] is None:
                @pred('exponent all ones, fraction not zero')
                def nan(v):
                    d = py.den(v)[0]
                    r = eq_in(it, T.wrap(T.shr(d, F.mb), F.eb), T.sub(T.pow2(F.eb), 1))
                    return T.band_(r, T.bnot_(eq_in(it, T.wrap(d, F.mb), 0)))
                return [(True, 'ret', nan)]
            return [(True, 'ret', is_vec(py, c['C'], enc(F, c['f'], c['E'], c['s'])))]
        each_type(ck, RA, 'reinterpret_as_bv of %s' % kind, setup, lambda c, F: it.call(it.getattr(c['X'], 'reinterpret_as_bv'), [], {}), exp,
                  ML('reinterpret_as_bv'), ieees=ies)
        for n, yes in (('fp_is_subnormal', ('subnormal',)), ('fp_is_normal', ('normal',)), ('fp_is_zero', ('+zero', '-zero')),
                       ('fp_is_infinite', ('+infinity', '-infinity')), ('fp_is_NaN', ('NaN',))):
            each_type(ck, RC, '%s of %s' % (n, kind), setup, lambda c, F: it.call(it.getattr(c['X'], n), [], {}),
                      lambda c, F: [(True, 'ret', is_bit(py, kind in yes))], ML(n), ieees=ies)

    def is_number(F, num):
        if num.op != 'finite':
            return is_fp(F, num)

        @pred('the number of that sign, significand and exponent')
        def p(v):
            if not isinstance(v, Inst) or it.known(it.same_class(v.cls, F.T)) is not True:
                return False

            def go(u):
                if not isinstance(u, UF):
                    return False
                if u.op != 'finite':
                    if u.op == 'mpfr' and BI.fp_kind(u) is not None:
                        return False
                    raise Unsupported('number %s' % u.op)
                r = T.biff_(u.args[0], num.args[0])
                d = T.sub(P(u.args[2]), P(num.args[2]))
                r = T.band_(r, eq_in(it, T.mul(P(u.args[1]), T.pow2(d)), num.args[1]) if T.prove_ge0(d) else
                            eq_in(it, P(u.args[1]), T.mul(P(num.args[1]), T.pow2(T.sub(0, d)))))
                return T.band_(r, BI.same_ctx(it, u.args[-1], F.ctx))
            return it.case(it.getattr(v, '_value'), go)
        return p

    for kind in FIN + ('subnormal', 'NaN'):
        def setup(c, F, kind=kind):
            K = kinds(c, F)
            num, f, E, s = K[kind]
            if kind == 'NaN':
                f, s = L.nat('h', 1, T.sub(T.pow2(F.mb), 1)), K['s']
            if kind == 'subnormal':
                f = L.nat('h', 1, T.sub(T.pow2(F.mb), 1))
                num = F.uf('finite', K['s'], f, T.sub(T.sub(1, K['bias']), F.mb))
            C = py.vec(py.BV, T.add(T.add(F.eb, F.mb), 1))
            c['B'] = it.call(C, [enc(F, f, E, s)], {})
            c['num'], c['s'] = num, s

        def exp(c, F, kind=kind):
            if kind == 'subnormal' and not F.ieee:
                return [(c['s'], 'ret', is_fp(F, F.uf('mpfr', '-0'))), (T.bnot_(c['s']), 'ret', is_fp(F, F.uf('mpfr', '0')))]
            if kind == 'NaN':
                alts = F.stored(c['num'])
                alts = alts.alts if isinstance(alts, Choice) else [(True, c['num'])]
                return [(g, 'ret', is_fp(F, n)) for g, n in alts]
            return [(True, 'ret', is_number(F, c['num']))]
        each_type(ck, RF, 'reinterpret_from_bv of %s' % kind, setup, lambda c, F: it.call(it.getattr(F.T, 'reinterpret_from_bv'), [c['B']], {}), exp,
                  ML('reinterpret_from_bv'), modes=('RNE',))

    def other(c, F):
        n = L.size('n')
        c['diff'] = T.ne(n, T.add(T.add(F.eb, F.mb), 1))
        c['B'] = it.call(py.vec(py.BV, n), [L.uint('x', n)], {})
    each_type(ck, RR, 'reinterpret_from_bv, other size', other, lambda c, F: it.call(it.getattr(F.T, 'reinterpret_from_bv'), [c['B']], {}),
              lambda c, F: [(c['diff'], 'exc', ('TypeError',))], ML('reinterpret_from_bv'), modes=('RNE',))
