"""C01-C08: bit vector and bit semantics of the three families."""
from . import terms as T
from .terms import I, B, P, nb, mb
from .values import *
from . import builtins_ as BI
from .spec import *
from .clients import run_clients

ARITH = {'bvand': 'and', 'bvor': 'or', 'bvxor': 'xor', 'bvadd': 'add', 'bvsub': 'sub', 'bvmul': 'mul', 'bvudiv': 'udiv',
         'bvurem': 'urem', 'bvsdiv': 'sdiv', 'bvsrem': 'srem', 'bvshl': 'shl', 'bvlshr': 'lshr', 'bvashr': 'ashr',
         'bvrol': 'rol', 'bvror': 'ror'}
NEGATED = {'bvnand': 'and', 'bvnor': 'or', 'bvxnor': 'xor'}
RELS = ('ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge')


def ev(op, x, y, n):
    """value denoted by SMT-LIB function op at width n"""
    return T.wrap(BI.sem(op, P(x), P(y), n), n)


def floor_sdiv(x, y, n):
    sa, sb = sgn(x, n), sgn(y, n)
    z = T.eq(y, 0)
    return T.wrap(T.iite(z, T.sub(T.pow2(n), 1), T.fdiv(sa, sb)), n)


def floor_srem(x, y, n):
    sa, sb = sgn(x, n), sgn(y, n)
    z = T.eq(y, 0)
    return T.wrap(T.iite(z, x, T.fmod(sa, sb)), n)


def sgn(x, n):
    return T.sub(P(x), T.mul(T.ind(T.tb(P(x), T.sub(n, 1))), T.pow2(n)))


def two(F, base, lo=1, ybase=None):
    """operands X, Y of the same symbolic size"""
    L = F.lab

    def setup(c):
        c['n'] = n = L.size('n', lo)
        c['x'], c['y'] = L.uint('x', n), L.uint('y', n)
        c['C'] = F.vec(base, n)
        c['X'] = F.val(c['C'], c['x'], n)
        c['Y'] = F.val(F.vec(ybase, n) if ybase is not None else c['C'], c['y'], n)
    return setup


def one(F, base, lo=1, **ints):
    L = F.lab

    def setup(c):
        c['n'] = n = L.size('n', lo)
        c['x'] = L.uint('x', n)
        for k, (a, b) in ints.items():
            c[k] = L.nat(k, a, b) if a is not None or b is not None else L.int(k)
        c['C'] = F.vec(base, n)
        c['X'] = F.val(c['C'], c['x'], n)
    return setup


def bases(F):
    return [F.BV, F.U, F.S]


def others(F, base):
    """the remaining vector classes of the family (z3 coerces only within one class)"""
    return [b for b in bases(F) if b is not base]


def meth(F, name, *keys, **kw):
    it = F.it

    def body(c):
        return it.call(it.getattr(c['X'], name), [c[k] if isinstance(k, str) else k for k in keys], dict(kw))
    return body


def bv_ops(ck, F, rule, skip=()):
    """every bv* method denotes the SMT-LIB function of that name"""
    it = F.it
    T1 = True
    for base in bases(F):
        bn = base.name
        for m, op in list(ARITH.items()) + list(NEGATED.items()):
            if m in skip:
                continue
            if F.key == 'smt' and m in ('bvrol', 'bvror'):
                # rotation amounts are integers here; any integer is taken modulo the size
                ck.oblige(rule, '%s.%s' % (bn, m), one(F, base, k=(None, None)), meth(F, m, 'k'),
                          lambda c, op=op: [(True, 'ret', is_vec(F, c['C'], ev(op, c['x'], c['k'], c['n'])))], ck.method_loc(base, m))
                continue
            neg = m in NEGATED

            def exp(c, op=op, neg=neg):
                v = ev(op, c['x'], c['y'], c['n'])
                if neg:
                    v = T.sub(T.sub(T.pow2(c['n']), 1), v)
                return [(True, 'ret', is_vec(F, c['C'], v, 'the SMT-LIB value of %s' % m))]
            alt = None
            if F.key == 'py' and m in ('bvsdiv', 'bvsrem'):
                fl = floor_sdiv if m == 'bvsdiv' else floor_srem
                alt = ('python-floor-division', lambda c, fl=fl: [(True, 'ret', is_vec(F, c['C'], fl(c['x'], c['y'], c['n'])))])
            oblige_alt(ck, rule, '%s.%s' % (bn, m), two(F, base), meth(F, m, 'Y'), exp, ck.method_loc(base, m), alt)
            # the result is of the left operand's type
            for ob in others(F, base):
                if alt is not None:
                    continue       # C04 has the mixed divisions of Python vectors
                ck.oblige(rule, '%s.%s(%s)' % (bn, m, ob.name), two(F, base, 1, ob), meth(F, m, 'Y'), exp, ck.method_loc(base, m))
        for r in RELS:
            m = 'bv' + r
            for ob in [None] + others(F, base):
                ck.oblige(rule, '%s.%s' % (bn, m) + ('(%s)' % ob.name if ob else ''), two(F, base, 1, ob), meth(F, m, 'Y'),
                          lambda c, r=r: [(True, 'ret', is_bit(F, BI.rel(r, c['x'], c['y'], c['n']), 'Bit of SMT-LIB bv' + r))],
                          ck.method_loc(base, m))
        for m, e in (('bveq', lambda c: T.eq(c['x'], c['y'])), ('bvne', lambda c: T.ne(c['x'], c['y']))):
            for ob in [None] + others(F, base):
                ck.oblige(rule, '%s.%s' % (bn, m) + ('(%s)' % ob.name if ob else ''), two(F, base, 0, ob), meth(F, m, 'Y'),
                          lambda c, e=e: [(True, 'ret', is_bit(F, e(c)))], ck.method_loc(base, m))

        def compexp(c):
            return [(True, 'ret', is_vec(F, it.getitem(F.BV, 1), T.ind(T.eq(c['x'], c['y']))))]
        ck.oblige(rule, '%s.bvcomp' % bn, two(F, base), meth(F, 'bvcomp', 'Y'), compexp_for(F, base), ck.method_loc(base, 'bvcomp'))
        for m, f in (('bvnot', lambda c: T.sub(T.sub(T.pow2(c['n']), 1), c['x'])), ('bvneg', lambda c: T.wrap(T.mul(-1, c['x']), c['n']))):
            ck.oblige(rule, '%s.%s' % (bn, m), one(F, base), meth(F, m),
                      lambda c, f=f: [(True, 'ret', is_vec(F, c['C'], f(c)))], ck.method_loc(base, m))

        inherited_defaults(ck, F, base, rule)

        # add with carry
        def adc_setup(c):
            two(F, base)(c)
            c['b'] = F.lab.bool('c')
            c['K'] = F.bit(c['b'])

        def adc_exp(c):
            s = T.add(T.add(c['x'], c['y']), T.ind(c['b']))
            return [(True, 'ret', is_tuple(F, is_vec(F, c['C'], T.wrap(s, c['n']), 'the sum'),
                                           is_bit(F, T.ge(s, T.pow2(c['n'])), 'the carry out')))]
        ck.oblige(rule, '%s.adc' % bn, adc_setup, meth(F, 'adc', 'Y', 'K'), adc_exp, ck.method_loc(base, 'adc'))
        def adc_wide(c):
            two(F, base)(c)
            m = F.lab.size('m', 1)
            c['odd'] = T.ne(m, 1)
            c['K'] = F.val(F.vec(base, m), F.lab.uint('u', m), m)
        ck.oblige(rule, '%s.adc with a carry vector' % bn, adc_wide, meth(F, 'adc', 'Y', 'K'), lambda c: [(c['odd'], 'exc', ('InconsistentSizeError',))], ck.method_loc(base, 'adc'))
        for ob in others(F, base):
            def adc_mixed(c, ob=ob):
                two(F, base, 1, ob)(c)
                c['b'] = F.lab.bool('c')
                c['K'] = F.bit(c['b'])
            ck.oblige(rule, '%s.adc(%s)' % (bn, ob.name), adc_mixed, meth(F, 'adc', 'Y', 'K'), adc_exp, ck.method_loc(base, 'adc'))


def inherited_defaults(ck, F, base, rule):
    """operations that the abstract vector defines by means of others and that the family overrides"""
    it = F.it
    A = it.rec(it.modules['hwtypes.bit_vector_abc']).get('AbstractBitVector')
    if not isinstance(A, ClassV):
        return
    for m in list(NEGATED) + ['bv' + r for r in RELS] + ['bvne']:
        f = it.rec(A).get(m)
        if not isinstance(f, FuncV) or it.is_abstract(f) or f is it.mro_lookup(base, m):
            continue

        def exp(c, m=m):
            x, y, n = c['x'], c['y'], c['n']
            if m in NEGATED:
                return [(True, 'ret', is_vec(F, c['C'], T.sub(T.sub(T.pow2(n), 1), ev(NEGATED[m], x, y, n))))]
            return [(True, 'ret', is_bit(F, T.ne(x, y) if m == 'bvne' else BI.rel(m[2:], x, y, n)))]
        ck.oblige(rule, 'AbstractBitVector.%s on %s' % (m, base.name), two(F, base), lambda c, f=f: it.call(f, [c['X'], c['Y']], {}), exp, ck.method_loc(A, m))


def compexp_for(F, base):
    it = F.it

    def exp(c):
        v = T.ind(T.eq(c['x'], c['y']))

        @pred('a one-bit vector equal to 1 iff the operands agree')
        def f(r):
            if not isinstance(r, Inst) or not it.is_subclass(r.cls, F.BV):
                return False
            w = eq_in(it, F.width(r), 1)
            if w is False:
                return False
            d, nw = F.den(r)
            if d is None:
                return False
            w = T.band_(w, eq_in(it, d, v))
            return T.band_(w, eq_in(it, nw, 1)) if nw is not None else w
        return [(True, 'ret', f)]
    return exp


def oblige_alt(ck, rule, construct, setup, body, exp, loc, alt):
    """alt: a recorded deviation; its row is a known finding as long as the code still computes exactly it"""
    i = len(ck.rows)
    ck.oblige(rule, construct, setup, body, exp, loc)
    if alt is None or ck.rows[i]['status'] != 'violation':
        return
    name, aexp = alt
    row = ck.rows.pop(i)
    ck.oblige(rule, construct, setup, body, aexp, loc)
    r2 = ck.rows.pop(i)
    if r2['status'] == 'ok':
        row['deviation'] = name
    ck.rows.append(row)


def C01(ck):
    F = Fam(ck.lab, 'py')
    run_clients(ck, 'small', 'C01')
    bv_ops(ck, F, 'bv-op denotes SMT-LIB function')


def C02(ck):
    F = Fam(ck.lab, 'smt')
    run_clients(ck, 'small', 'C02')
    bv_ops(ck, F, 'bv-op node denotes SMT-LIB function')


def C03(ck):
    F = Fam(ck.lab, 'z3')
    run_clients(ck, 'small', 'C03')
    bv_ops(ck, F, 'bv-op node denotes SMT-LIB function')


# ----------------------------------------------------------------- C04 operators
BINOPS = [('BitAnd', '&', 'bvand', 'and'), ('BitOr', '|', 'bvor', 'or'), ('BitXor', '^', 'bvxor', 'xor'), ('LShift', '<<', 'bvshl', 'shl'),
          ('RShift', '>>', 'bvlshr', 'lshr'), ('Add', '+', 'bvadd', 'add'), ('Sub', '-', 'bvsub', 'sub'), ('Mult', '*', 'bvmul', 'mul'),
          ('FloorDiv', '//', 'bvudiv', 'udiv'), ('Mod', '%', 'bvurem', 'urem')]
SIGNED = {'RShift': ('bvashr', 'ashr'), 'FloorDiv': ('bvsdiv', 'sdiv'), 'Mod': ('bvsrem', 'srem')}
CMPOPS = [('Eq', '==', 'eq'), ('NotEq', '!=', 'ne'), ('Lt', '<', 'lt'), ('LtE', '<=', 'le'), ('Gt', '>', 'gt'), ('GtE', '>=', 'ge')]
FWDN = {'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'Add': '__add__',
        'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'Eq': '__eq__', 'NotEq': '__ne__',
        'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}


def opval(F, base, op, x, y, n):
    if F.key == 'py' and op in ('sdiv', 'srem'):
        return (floor_sdiv if op == 'sdiv' else floor_srem)(x, y, n)
    return ev(op, x, y, n)


def relval(base, F, r, x, y, n):
    if r in ('eq', 'ne'):
        return (T.eq if r == 'eq' else T.ne)(P(x), P(y))
    return BI.rel(('s' if base is F.S else 'u') + r, x, y, n)


def operand_kinds(F):
    """(label, builder(c) -> python value, denotation(c))"""
    L, it = F.lab, F.it

    def k_int(c):
        c['k'] = L.int('k')
        return c['k']

    def k_bool(c):
        c['kb'] = L.bool('kb')
        return c['kb']

    def k_bit(c):
        c['kb'] = L.bool('kb')
        return F.bit(c['kb'])
    return [('int', k_int, lambda c: T.wrap(c['k'], c['n'])), ('bool', k_bool, lambda c: T.wrap(T.ind(c['kb']), c['n'])),
            ('Bit', k_bit, lambda c: T.wrap(T.ind(c['kb']), c['n']))]


def ops_check(ck, F):
    it, L = F.it, F.lab
    RV, RI, RF, RM, RJ = ('operator computes the named operation', 'operator coerces its right operand', 'reflected operator keeps operand order',
                          'operands of different widths are rejected', 'foreign operands give TypeError, or inequality')
    for base in bases(F):
        bn = base.name
        allops = []
        for o, sym, m, op in BINOPS:
            if base is F.S and o in SIGNED:
                m, op = SIGNED[o]
            allops.append((o, sym, lambda it_, o=o: (lambda a, b: it_.binop(o, a, b)),
                           lambda c, x, y, op=op: is_vec(F, c['C'], opval(F, base, op, x, y, c['n'])), False))
        for o, sym, r in CMPOPS:
            allops.append((o, sym, lambda it_, o=o: (lambda a, b: it_.compare(o, a, b)),
                           lambda c, x, y, r=r: is_bit(F, relval(base, F, r, x, y, c['n'])), True))
        for o, sym, mk, exp, rel in allops:
            loc = ck.method_loc(base, FWDN[o])
            ap = mk(it)
            ck.oblige(RV, '%s %s %s' % (bn, sym, bn), two(F, base), lambda c: ap(c['X'], c['Y']),
                      lambda c: [(True, 'ret', exp(c, c['x'], c['y']))], loc)
            for lab, bld, den in operand_kinds(F):
                def setup(c, bld=bld):
                    one(F, base)(c)
                    c['K'] = bld(c)
                ck.oblige(RI, '%s %s %s' % (bn, sym, lab), setup, lambda c: ap(c['X'], c['K']),
                          lambda c, den=den: [(True, 'ret', exp(c, c['x'], den(c)))], loc)
                if lab == 'Bit' or (F.key == 'z3' and not rel):
                    continue      # z3 vectors define no reflected arithmetic
                ck.oblige(RF, '%s %s %s' % (lab, sym, bn), setup, lambda c: ap(c['K'], c['X']),
                          lambda c, den=den: [(True, 'ret', exp(c, den(c), c['x']))], loc)

            def mixed(c):
                two(F, base)(c)
                c['m'] = L.size('m', 1)
                it.st.guard = T.bdd_ite(it.st.guard, nb(T.ne(c['n'], c['m'])), 0)
                c['Y'] = F.val(F.vec(base, c['m']), T.wrap(c['y'], c['m']), c['m'])
            ck.oblige(RM, '%s[n] %s %s[m], m != n' % (bn, sym, bn), mixed, lambda c: ap(c['X'], c['Y']),
                      lambda c: [(True, 'exc', ('InconsistentSizeError',))], loc)
            if F.key != 'z3':
                for jl, junk in (('None', lambda: None), ('object()', lambda: it.call(BI.CLS['object'], [], {}))):
                    for side in ('right', 'left'):
                        def js(c, junk=junk):
                            one(F, base)(c)
                            c['J'] = junk()

                        def jb(c, side=side):
                            return ap(c['X'], c['J']) if side == 'right' else ap(c['J'], c['X'])
                        if o in ('Eq', 'NotEq'):
                            je = lambda c: [(True, 'ret', is_bool(F, o == 'NotEq'))]
                        else:
                            je = lambda c: [(True, 'exc', ('TypeError',))]
                        ck.oblige(RJ, '%s %s %s (%s)' % (bn, sym, jl, side), js, jb, je, loc)
        # the reflected methods themselves, on vectors of any type of the family
        if F.key != 'z3':
            for ob in bases(F):
                for o, sym, m, op in BINOPS:
                    if ob is base:
                        if base is F.S and o in SIGNED:
                            m, op = SIGNED[o]
                    elif o in SIGNED:
                        continue
                    rn = '__r' + FWDN[o][2:]
                    ck.oblige(RF, '%s.%s(%s)' % (bn, rn, ob.name), two(F, ob, 1, base), lambda c, rn=rn: it.call(it.getattr(c['Y'], rn), [c['X']], {}),
                              lambda c, op=op, ob=ob: [(True, 'ret', is_vec(F, c['C'], opval(F, ob, op, c['x'], c['y'], c['n'])))], ck.method_loc(base, rn))
            Odd = L.fix('Odd' if F.key == 'py' else 'SMTOdd', 'vectors')
            ck.oblige(RF, '%s + %s, left type declining' % (Odd.name, bn), two(F, Odd, 1, base), lambda c: it.binop('Add', c['X'], c['Y']),
                      lambda c: [(True, 'ret', has_value(F, F.BV, c['n'], T.wrap(T.add(c['x'], c['y']), c['n'])))], ck.method_loc(base, '__radd__'))
        # mixed subclasses of one family: the left operand's type is kept
        for ob in bases(F):
            if ob is base:
                continue
            for o, sym, m, op in BINOPS[:3] + BINOPS[5:8]:
                ck.oblige(RV, '%s %s %s' % (bn, sym, ob.name), two(F, base, 1, ob), lambda c, o=o: it.binop(o, c['X'], c['Y']),
                          lambda c, op=op: [(True, 'ret', is_vec(F, c['C'], ev(op, c['x'], c['y'], c['n'])))], ck.method_loc(base, FWDN[o]))
            if F.key == 'py':
                for m, op in (('bvsdiv', 'sdiv'), ('bvsrem', 'srem')):
                    ck.oblige(RV, '%s.%s(%s)' % (bn, m, ob.name), two(F, base, 1, ob), meth(F, m, 'Y'),
                              lambda c, op=op: [(True, 'ret', is_vec(F, c['C'], opval(F, base, op, c['x'], c['y'], c['n'])))], ck.method_loc(base, m))
        ck.oblige(RV, '~%s' % bn, one(F, base), lambda c: it.unop('Invert', c['X']),
                  lambda c: [(True, 'ret', is_vec(F, c['C'], T.sub(T.sub(T.pow2(c['n']), 1), c['x'])))], ck.method_loc(base, '__invert__'))
        ck.oblige(RV, '-%s' % bn, one(F, base), lambda c: it.unop('USub', c['X']),
                  lambda c: [(True, 'ret', is_vec(F, c['C'], T.wrap(T.mul(-1, c['x']), c['n'])))], ck.method_loc(base, '__neg__'))
        # named operations coerce and check widths like the operators do
        for m, op in list(ARITH.items()):
            if F.key == 'smt' and m in ('bvrol', 'bvror'):
                continue
            if m in ('bvsdiv', 'bvsrem') and F.key == 'py':
                val = lambda c, y, op=op: (floor_sdiv if op == 'sdiv' else floor_srem)(c['x'], y, c['n'])
            else:
                val = lambda c, y, op=op: ev(op, c['x'], y, c['n'])

            def setup(c):
                one(F, base)(c)
                c['K'] = L.int('k')
            ck.oblige(RI, '%s.%s(int)' % (bn, m), setup, meth(F, m, 'K'),
                      lambda c, val=val: [(True, 'ret', is_vec(F, c['C'], val(c, T.wrap(c['K'], c['n']))))], ck.method_loc(base, m))
        for m in list(ARITH) + list(NEGATED) + ['bvcomp', 'bveq', 'bvne'] + ['bv' + r for r in RELS]:
            if F.key == 'smt' and m in ('bvrol', 'bvror'):
                continue
            ck.oblige(RM, '%s[n].%s(%s[m]), m != n' % (bn, m, bn), mixed, meth(F, m, 'Y'),
                      lambda c: [(True, 'exc', ('InconsistentSizeError',))], ck.method_loc(base, m))


def has_value(F, base, n, val):
    it = F.it

    @pred('%s of width %r and value %r' % (base.name, n, val))
    def f(v):
        if not isinstance(v, Inst) or base not in v.cls.mro:
            return False
        r = eq_in(it, F.width(v), n)

        def chk(nd):
            if F.eng is None:
                return eq_in(it, nd, val)
            if not isinstance(nd, SNode) or nd.sort != 'bv':
                return False
            return T.band_(eq_in(it, P(nd.den), val), eq_in(it, nd.w, n))
        return T.band_(r, it.truth(it.case(it.getattr(v, 'value') if F.eng else F.den(v)[0], chk)))
    return f


def C04(ck):
    for k in ('py', 'smt', 'z3'):
        ops_check(ck, Fam(ck.lab, k))


# ----------------------------------------------------------------- C05 construction
def bitseq(F, s, m, kind):
    """abstract LSB-first sequence of m bits of the unsigned value s"""
    if kind == 'bool':
        return SymSeq(m, lambda i: T.tb(P(s), i), 'list')
    if kind == 'int':
        return SymSeq(m, lambda i: norm_int(T.ind(T.tb(P(s), i))), 'list')
    return SymSeq(m, lambda i: F.bit(T.tb(P(s), i)), 'list')


def slist(F, seq):
    l = ListV('list')
    F.it.setrec(l, {'items': seq})
    return l


def boolean(c, b):
    return b


def C05_family(ck, F):
    it, L = F.it, F.lab
    HasInt, Plain = L.fix('HasInt'), L.fix('Plain')
    R, RS, RI = 'constructor reduces its argument modulo 2**size', 'item assignment changes exactly the addressed bit', 'rejected arguments'
    for base in bases(F):
        bn = base.name
        loc = ck.method_loc(base, '__init__')

        def con(c):
            return it.call(c['C'], [c['a']], {})

        def src(build, lo=1):
            def setup(c):
                c['n'] = n = L.size('n', lo)
                c['C'] = F.vec(base, n)
                build(c)
            return setup

        def s_int(c):
            c['a'] = c['v'] = L.int('k')

        def s_bool(c):
            c['a'] = L.bool('b')
            c['v'] = T.ind(c['a'])

        def s_bit(c):
            b = L.bool('b')
            c['a'], c['v'] = F.bit(b), T.ind(b)

        def s_obj(c):
            c['v'] = L.int('k')
            c['a'] = it.call(HasInt, [c['v']], {})
        kinds = [('int', s_int), ('bool', s_bool), ('Bit', s_bit), ('object with __int__', s_obj)]
        for ob in bases(F):
            def s_vec(c, ob=ob):
                m = L.size('m', 1)
                c['v'] = L.uint('y', m)
                c['a'] = F.val(F.vec(ob, m), c['v'], m)
            kinds.append(('%s of any size' % ob.name, s_vec))
        for lab, b in kinds:
            ck.oblige(R, '%s[n](%s)' % (bn, lab), src(b), con, lambda c: [(True, 'ret', is_vec(F, c['C'], T.wrap(c['v'], c['n'])))], loc)
            if lab in ('int', 'Bit'):
                def mcs(c):
                    c['n'] = n = L.size('n', 1)
                    c['m'] = m = L.size('w', 1)
                    b(c)
                    c['C'], c['D'] = F.vec(base, n), F.vec(base, m)
                ck.oblige(R, '%s[n].make_constant(%s)' % (bn, lab), mcs, lambda c: it.call(it.getattr(c['C'], 'make_constant'), [c['a']], {}),
                          lambda c: [(True, 'ret', is_vec(F, c['C'], T.wrap(c['v'], c['n'])))], ck.method_loc(base, 'make_constant'))
                ck.oblige(R, '%s[n].make_constant(%s, w)' % (bn, lab), mcs,
                          lambda c: it.call(it.getattr(c['C'], 'make_constant'), [c['a'], c['m']], {}),
                          lambda c: [(True, 'ret', is_vec(F, c['D'], T.wrap(c['v'], c['m'])))], ck.method_loc(base, 'make_constant'))
        # sequences of bits, least significant first
        if F.key == 'py':
            for kind in ('bool', 'int', 'Bit'):
                def s_seq(c, kind=kind):
                    m = L.nat('m', 0)
                    c['v'] = L.uint('s', m)
                    c['a'] = slist(F, bitseq(F, c['v'], m, kind))
                ck.oblige(R, '%s[n]([%s, ...])' % (bn, kind), src(s_seq), con,
                          lambda c: [(True, 'ret', is_vec(F, c['C'], T.wrap(c['v'], c['n'])))], loc)
        else:
            for kind in ('bool', 'int', 'Bit'):
                for ln in (1, 2, 5, 8):
                    def s_seq(c, kind=kind, ln=ln):
                        c['n'] = ln
                        c['C'] = F.vec(base, ln)
                        s = L.uint('s', ln)
                        c['v'] = P(0)
                        for i in range(ln):
                            c['v'] = T.add(c['v'], T.mul(1 << i, T.ind(T.tb(s, i))))
                        q = bitseq(F, s, ln, kind)
                        c['a'] = it.new_list([q.get(P(i)) for i in range(ln)])
                    ck.oblige(R, '%s[%d]([%s, ...])' % (bn, ln, kind), s_seq, con,
                              lambda c: [(True, 'ret', is_vec(F, c['C'], c['v']))], loc)

            def s_wrong(c):
                m = L.nat('m', 0)
                it.st.guard = T.bdd_ite(it.st.guard, nb(T.ne(m, c['n'])), 0)
                c['a'] = slist(F, bitseq(F, L.uint('s', m), m, 'bool'))
            ck.oblige(RI, '%s[n](sequence of another length)' % bn, src(s_wrong), con, lambda c: [(True, 'exc', ('ValueError',))], loc)

            def s_node(c):
                m = L.size('m', 1)
                it.st.guard = T.bdd_ite(it.st.guard, nb(T.ne(m, c['n'])), 0)
                c['a'] = SNode(F.eng, 'bv', L.uint('y', m), m)
            ck.oblige(RI, '%s[n](term of another width)' % bn, src(s_node), con, lambda c: [(True, 'exc', ('TypeError',))], loc)
        for jl, junk in (('None', lambda: None), ('object', lambda: it.call(Plain, [], {}))):
            def s_junk(c, junk=junk):
                c['a'] = junk()
            ck.oblige(RI, '%s[n](%s)' % (bn, jl), src(s_junk), con, lambda c: [(True, 'exc', ('TypeError',))], loc)
        # implicitly sized construction
        ul = ck.loc_of(it.mro_lookup(base.meta, '__call__'))

        def u_int(c):
            c['k'] = L.nat('k', 0)
        ck.oblige('implicit size is the smallest holding the value', '%s(int)' % bn, u_int, lambda c: it.call(base, [c['k']], {}),
                  lambda c: [(True, 'ret', is_sized(F, base, T.iite(T.eq(c['k'], 0), P(1), T.bitlen(c['k'])), c['k']))], ul)

        def u_bit(c):
            c['b'] = L.bool('b')
            c['a'] = F.bit(c['b'])
        ck.oblige('implicit size is the smallest holding the value', '%s(Bit)' % bn, u_bit, lambda c: it.call(base, [c['a']], {}),
                  lambda c: [(True, 'ret', is_sized(F, base, P(1), T.ind(c['b'])))], ul)

        def u_vec(c):
            one(F, base)(c)
        ck.oblige('implicit size is the smallest holding the value', '%s(%s[n])' % (bn, bn), u_vec, lambda c: it.call(base, [c['X']], {}),
                  lambda c: [(True, 'ret', is_sized(F, base, c['n'], c['x']))], ul)
        ck.oblige(RI, '%s()' % bn, lambda c: None, lambda c: it.call(base, [], {}), lambda c: [(True, 'exc', ('TypeError',))], ul)
        # item assignment
        sl = ck.method_loc(base, '__setitem__')
        for lab in ('bool', 'int', 'Bit'):
            def s_set(c, lab=lab):
                one(F, base, 1, i=(None, None))(c)
                b = c['b'] = L.bool('b')
                c['v'] = b if lab == 'bool' else norm_int(T.ind(b)) if lab == 'int' else F.bit(b)

            def b_set(c):
                it.setitem(c['X'], c['i'], c['v'])
                return c['X']

            def e_set(c):
                i, n = c['i'], c['n']
                j = T.iite(T.lt(i, 0), T.add(i, n), i)
                inr = T.band_(T.ge(i, T.mul(-1, n)), T.lt(i, n))
                new = T.add(c['x'], T.mul(T.sub(T.ind(c['b']), T.ind(T.tb(c['x'], j))), T.pow2(j)))
                return [(inr, 'ret', is_vec(F, c['C'], new)), (T.bnot_(inr), 'exc', ('IndexError',))]
            ck.oblige(RS, '%s[n][i] = %s' % (bn, lab), s_set, b_set, e_set, sl)

        def s_setbad(c):
            one(F, base, 1, v=(None, None))(c)
            it.st.guard = T.bdd_ite(it.st.guard, nb(T.band_(T.ne(c['v'], 0), T.ne(c['v'], 1))), 0)
        ck.oblige(RI, '%s[n][0] = int other than 0, 1' % bn, s_setbad, lambda c: it.setitem(c['X'], 0, c['v']),
                  lambda c: [(True, 'exc', ('ValueError',))], sl)


def is_sized(F, base, n, val):
    it = F.it

    @pred('%s[%r] value %r' % (base.name, n, val))
    def f(v):
        if not isinstance(v, Inst) or base not in v.cls.mro or v.cls is base:
            return False
        w = eq_in(it, F.width(v), n)
        u = it.getattr(v.cls, 'unsized_t')
        if u is not base:
            return False
        def chk(nd):
            if F.eng is None:
                return eq_in(it, nd, val)
            if not isinstance(nd, SNode) or nd.sort != 'bv':
                return False
            return T.band_(eq_in(it, P(nd.den), val), eq_in(it, nd.w, n))
        return T.band_(w, it.truth(it.case(it.getattr(v, 'value') if F.eng else F.den(v)[0], chk)))
    return f


def C05(ck):
    run_clients(ck, 'small', 'C05')
    for k in ('py', 'smt', 'z3'):
        C05_family(ck, Fam(ck.lab, k))
    run_clients(ck, 'vectors', 'C05')


# ----------------------------------------------------------------- C06 structure
def restrict(it, b):
    """assume b in the scenario"""
    it.st.guard = T.bdd_ite(it.st.guard, nb(b), 0)
    if it.st.guard == 0:
        raise Dead()


def clamp(a, n, default):
    if a is None:
        return P(default)
    a, n = P(a), P(n)
    j = T.iite(T.lt(a, 0), T.add(a, n), a)
    j = T.iite(T.lt(j, 0), 0, j)
    return T.iite(T.lt(n, j), n, j)


def is_unsized(F, base, n, val):
    """instance of base[n] with that unsigned value"""
    it = F.it

    @pred('%s[%r] of value %r' % (base.name, n, val))
    def f(v):
        C = F.vec(base, norm_int(P(n)))
        return it.truth(it.case(v, is_vec(F, C, val)))
    return f


def is_digits(F, n, el, pre=''):
    """string pre + the decimal renderings of el(0..n-1)"""
    it = F.it

    @pred('the digits of the value')
    def f(v):
        if not isinstance(v, SymStr) or v.sep != '':
            raise Unsupported('string %r' % (v,))
        if v.pre != pre:
            return False
        s = v.seq
        if not isinstance(s, SymSeq):
            raise Unsupported('string of %r' % (s,))
        r = eq_in(it, s.n, n)
        iv = T.fresh_var()
        T.FACTS.bound(iv, 0, T.sub(P(n), 1))

        def chk(x):
            if isinstance(x, str):
                if x in ('0', '1'):
                    return eq_in(it, int(x), el(P(iv)))
                return False
            if isinstance(x, FStr) and len(x.parts) == 1 and isinstance(x.parts[0], tuple):
                p = x.parts[0]
                w = p[1]
                if isinstance(w, (int, I)) and not isinstance(w, bool):
                    return eq_in(it, w, el(P(iv)))
            raise Unsupported('digit %r' % (x,))
        return T.band_(r, it.truth(it.case(s.get(P(iv)), chk)))
    return f


def C06_family(ck, F):
    it, L = F.it, F.lab
    RI, RS, RC, RX, RR = ('indexing selects bit i, least significant first', 'slicing selects the addressed bits', 'concatenation appends above',
                          'extension keeps the low bits and fills the high ones', 'repetition tiles the value')
    RO = 'observations of the value'
    RJ = 'rejected arguments'
    for base in bases(F):
        bn = base.name
        # index
        def e_idx(c):
            i, n = c['i'], c['n']
            j = T.iite(T.lt(i, 0), T.add(i, n), i)
            inr = T.band_(T.ge(i, T.mul(-1, n)), T.lt(i, n))
            return [(inr, 'ret', is_bit(F, T.tb(c['x'], j))), (T.bnot_(inr), 'exc', ('IndexError',))]
        gl = ck.method_loc(base, '__getitem__')
        ck.oblige(RI, '%s[n][i]' % bn, one(F, base, 1, i=(None, None)), lambda c: it.getitem(c['X'], c['i']), e_idx, gl)
        ck.oblige(RJ, "%s[n]['0']" % bn, one(F, base), lambda c: it.getitem(c['X'], '0'), lambda c: [(True, 'exc', ('TypeError',))], gl)
        ck.oblige(RJ, "%s[n][None]" % bn, one(F, base), lambda c: it.getitem(c['X'], None), lambda c: [(True, 'exc', ('TypeError',))], gl)
        # slices
        for ka in ('a', None):
            for kb in ('b', None):
                for neg in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    if (ka is None and neg[0]) or (kb is None and neg[1]):
                        continue

                    def s_sl(c, ka=ka, kb=kb, neg=neg):
                        one(F, base)(c)
                        n = c['n']
                        c['a'] = c['b'] = None
                        if ka:
                            c['a'] = L.int('a')
                            restrict(it, T.lt(c['a'], 0) if neg[0] else T.ge(c['a'], 0))
                        if kb:
                            c['b'] = L.int('b')
                            restrict(it, T.lt(c['b'], 0) if neg[1] else T.ge(c['b'], 0))
                        if F.eng is not None:
                            # terms have at least one bit
                            lo, hi = (T.add(c['a'], n) if ka and neg[0] else c['a']), (T.add(c['b'], n) if kb and neg[1] else c['b'])
                            if ka and neg[0]:
                                restrict(it, T.ge(lo, 0))
                            if ka:
                                restrict(it, T.lt(lo, n))
                            if kb:
                                restrict(it, T.gt(hi, 0))
                                if ka:
                                    restrict(it, T.gt(hi, lo))
                        c['s'] = SliceV(c['a'], c['b'], None)

                    def e_sl(c):
                        lo, hi = clamp(c['a'], c['n'], 0), clamp(c['b'], c['n'], c['n'])
                        w = T.sub(hi, lo)
                        w = T.iite(T.lt(w, 0), 0, w)
                        return [(True, 'ret', slice_pred(F, base, c, lo, w))]
                    ck.oblige(RS, '%s[n][%s:%s]' % (bn, ('-' * neg[0] + 'a') if ka else '', ('-' * neg[1] + 'b') if kb else ''), s_sl,
                              lambda c: it.getitem(c['X'], c['s']), e_sl, gl)
        # fixed widths, every start, stop and step
        for n in ((3 if base is F.BV else 2,) if ck.tier == 'quick' else (1, 2, 3, 4, 5)):
            idx = [None] + list(range(-n - 1, n + 2))
            steps = (None, 1) if F.eng is not None else (None, 1, 2, -1, -2)
            for a in idx:
                for b in idx:
                    for stp in steps:
                        bits = list(range(n))[slice(a, b, stp)]
                        if F.eng is not None and (not bits or (a is not None and a < -n)):
                            continue

                        def s_fs(c, n=n, a=a, b=b, stp=stp):
                            c['x'] = L.uint('x', n)
                            c['X'] = F.val(F.vec(base, n), c['x'], n)
                            c['s'] = SliceV(a, b, stp)

                        def e_fs(c, bits=bits):
                            v = P(0)
                            for k, i in enumerate(bits):
                                v = T.add(v, T.mul(1 << k, T.ind(T.tb(c['x'], i))))
                            return [(True, 'ret', is_bits(F, base, c['x'], bits))]
                        ck.oblige(RS, '%s[%d][%s:%s:%s]' % (bn, n, a, b, stp), s_fs, lambda c: it.getitem(c['X'], c['s']), e_fs, gl)
        if F.eng is not None:
            ck.oblige(RJ, '%s[8][::2]' % bn, lambda c: c.__setitem__('X', F.val(F.vec(base, 8), L.uint('x', 8), 8)),
                      lambda c: it.getitem(c['X'], SliceV(None, None, 2)), lambda c: [(True, 'exc', ('IndexError',))], gl)
        # concat
        def s_cc(c):
            one(F, base)(c)
            c['m'] = L.size('m', 1)
            c['y'] = L.uint('y', c['m'])
            c['Y'] = F.val(F.vec(base, c['m']), c['y'], c['m'])
        cl = ck.method_loc(base, 'concat')
        ck.oblige(RC, '%s[n].concat(%s[m])' % (bn, bn), s_cc, meth(F, 'concat', 'Y'),
                  lambda c: [(True, 'ret', is_unsized(F, base, T.add(c['n'], c['m']), T.add(c['x'], T.mul(T.pow2(c['n']), c['y']))))], cl)
        for jl, junk in (('int', lambda: L.int('k')), ('Bit', lambda: F.bit(L.bool('b'))), ('list', lambda: it.new_list([0, 1]))):
            def s_cj(c, junk=junk):
                one(F, base)(c)
                c['J'] = junk()
            ck.oblige(RJ, '%s[n].concat(%s)' % (bn, jl), s_cj, meth(F, 'concat', 'J'), lambda c: [(True, 'exc', ('TypeError',))], cl)
        # extensions
        for m in ('zext', 'sext', 'ext'):
            signed = m == 'sext' or (m == 'ext' and base is F.S)

            def e_x(c, signed=signed):
                n, k = c['n'], c['k']
                v = c['x']
                if signed:
                    fill = T.mul(T.sub(T.pow2(k), 1), T.pow2(n))
                    v = T.add(v, T.mul(T.ind(T.tb(c['x'], T.sub(n, 1))), fill))
                return [(T.ge(k, 0), 'ret', is_unsized(F, base, T.add(n, k), v)), (T.lt(k, 0), 'exc', ('ValueError',))]
            ck.oblige(RX, '%s[n].%s(k)' % (bn, m), one(F, base, 1, k=(None, None)), meth(F, m, 'k'), e_x, ck.method_loc(base, m))
        # repeat
        for r in ((1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 4, 5, 8)):
            def e_r(c, r=r):
                v = P(0)
                for i in range(r):
                    v = T.add(v, T.mul(c['x'], T.pow2(T.mul(i, c['n']))))
                return [(True, 'ret', is_unsized(F, base, T.mul(r, c['n']), v))]
            ck.oblige(RR, '%s[n].repeat(%d)' % (bn, r), one(F, base), meth(F, 'repeat', r), e_r, ck.method_loc(base, 'repeat'))
        ck.oblige(RR, '%s[n].repeat(r <= 0)' % bn, one(F, base, 1, r=(None, 0)), meth(F, 'repeat', 'r'), lambda c: [(True, 'exc', ('ValueError',))],
                  ck.method_loc(base, 'repeat'))
        for n in (1, 2, 3):
            def s_r(c, n=n):
                c['n'] = n
                c['x'] = L.uint('x', n)
                c['r'] = L.nat('r', 1)
                c['X'] = F.val(F.vec(base, n), c['x'], n)

            @pred('class size n*r')
            def width_ok(v):
                return isinstance(v, Inst) and base in v.cls.mro
            ck.oblige(RR, '%s[%d].repeat(r)' % (bn, n), s_r, meth(F, 'repeat', 'r'),
                      lambda c: [(True, 'ret', has_width(F, base, T.mul(c['r'], c['n'])))], ck.method_loc(base, 'repeat'))
        # observations
        obs = [('len()', lambda c: it.call(it.builtins['len'], [c['X']], {}) if False else BI.py_len(it, c['X']), lambda c: is_int(F, c['n']), '__len__'),
               ('size', lambda c: it.getattr(c['X'], 'size'), lambda c: is_int(F, c['n']), 'size'),
               ('num_bits', lambda c: it.getattr(c['X'], 'num_bits'), lambda c: is_int(F, c['n']), 'num_bits')]
        if F.key == 'py':
            X, sg = (lambda c: c['x']), (lambda c: sgn(c['x'], c['n']))
            obs += [('as_uint()', meth(F, 'as_uint'), lambda c: is_int(F, c['x']), 'as_uint'),
                    ('as_sint()', meth(F, 'as_sint'), lambda c: is_int(F, sg(c)), 'as_sint'),
                    ('as_int()', meth(F, 'as_int'), lambda c: is_int(F, sg(c)), 'as_int'),
                    ('value', lambda c: it.getattr(c['X'], 'value'), lambda c: is_int(F, c['x']), 'value'),
                    ('int()', lambda c: it.call(BI.CLS['int'], [c['X']], {}), lambda c: is_int(F, sg(c) if base is F.S else c['x']), '__int__'),
                    ('bool()', lambda c: it.truth(c['X']), lambda c: is_bool(F, T.ne(c['x'], 0)), '__bool__'),
                    ('bits()', meth(F, 'bits'), lambda c: is_seq(F, c['n'], lambda i: is_int(F, T.ind(T.tb(c['x'], i)))), 'bits'),
                    ('as_bool_list()', meth(F, 'as_bool_list'), lambda c: is_seq(F, c['n'], lambda i: is_bool(F, T.tb(c['x'], i))), 'as_bool_list'),
                    ('binary_string()', meth(F, 'binary_string'),
                     lambda c: is_digits(F, c['n'], lambda i: T.ind(T.tb(c['x'], T.sub(T.sub(c['n'], 1), i)))), 'binary_string'),
                    ('as_binary_string()', meth(F, 'as_binary_string'),
                     lambda c: is_digits(F, c['n'], lambda i: T.ind(T.tb(c['x'], T.sub(T.sub(c['n'], 1), i))), '0b'), 'as_binary_string')]
        elif F.key == 'smt':
            SI = L.cls('smt_int', 'SMTInt')
            obs += [('as_uint()', meth(F, 'as_uint'), lambda c: is_smtint(F, SI, c['x']), 'as_uint'),
                    ('as_sint()', meth(F, 'as_sint'), lambda c: is_smtint(F, SI, sgn(c['x'], c['n'])), 'as_sint')]
        for lab, body, exp, m in obs:
            ck.oblige(RO, '%s[n]: %s' % (bn, lab), one(F, base), body, lambda c, exp=exp: [(True, 'ret', exp(c))], ck.method_loc(base, m))


def has_width(F, base, n):
    it = F.it

    @pred('%s[%r]' % (base.name, n))
    def f(v):
        if not isinstance(v, Inst) or base not in v.cls.mro:
            return False
        return eq_in(it, F.width(v), n)
    return f


def is_smtint(F, SI, val):
    it = F.it

    @pred('SMTInt %r' % (val,))
    def f(v):
        if not isinstance(v, Inst) or v.cls is not SI:
            return False

        def g(nd):
            if not isinstance(nd, SNode) or nd.sort != 'int':
                return False
            return eq_in(it, nd.den, val)
        return it.truth(it.case(it.getattr(v, 'value'), g))
    return f


def is_bits(F, base, x, bits):
    """base[len(bits)] whose bit k is bit bits[k] of x"""
    it = F.it

    @pred('bits %s of the operand' % (bits,))
    def f(v):
        if not isinstance(v, Inst) or base not in v.cls.mro:
            return False
        r = eq_in(it, F.width(v), len(bits))
        d, w = F.den(v)
        if d is None:
            raise Unsupported('value %r' % (v,))
        for k, i in enumerate(bits):
            r = T.band_(r, iff_in(it, T.tb(d, k), T.tb(P(x), i)))
        return r
    return f


def slice_pred(F, base, c, lo, w):
    it = F.it
    val = T.wrap(T.fdiv(c['x'], T.pow2(lo)), w)

    @pred('%s of bits [start, stop)' % base.name)
    def f(v):
        if not isinstance(v, Inst) or base not in v.cls.mro:
            return False
        r = eq_in(it, F.width(v), w)

        def g(nd):
            if isinstance(nd, SNode):
                return eq_in(it, nd.den, val)
            return eq_in(it, nd, val)
        q = it.truth(it.case(it.getattr(v, 'value'), g))
        return T.band_(r, q)
    return f


def C06(ck):
    run_clients(ck, 'small', 'C06')
    for k in ('py', 'smt', 'z3'):
        C06_family(ck, Fam(ck.lab, k))


# ----------------------------------------------------------------- C07 bits
BITOPS = [('BitAnd', '&', lambda a, b: T.band_(a, b)), ('BitOr', '|', lambda a, b: T.bor_(a, b)), ('BitXor', '^', lambda a, b: T.bnot_(T.biff_(a, b)))]
BITCMP = [('Eq', '==', lambda a, b: T.biff_(a, b)), ('NotEq', '!=', lambda a, b: T.bnot_(T.biff_(a, b)))]


def bit_operands(F):
    """(label, builder(c, key), denotation(c, key))"""
    L, it = F.lab, F.it
    HB = L.fix('HasBool')

    def k_bit(c, k):
        c['%' + k] = L.bool(k)
        c[k] = F.bit(c['%' + k])

    def k_bool(c, k):
        c[k] = c['%' + k] = L.bool(k)

    def k_int(c, k):
        c['%' + k] = L.bool(k)
        c[k] = norm_int(T.ind(c['%' + k]))

    def k_obj(c, k):
        c['%' + k] = L.bool(k)
        c[k] = it.call(HB, [c['%' + k]], {})
    return [('Bit', k_bit), ('bool', k_bool), ('int', k_int), ('object with __bool__', k_obj)]


def C07_family(ck, F):
    it, L = F.it, F.lab
    Plain = L.fix('Plain')
    bn = F.Bit.name
    RC, RA, RR, RJ = 'construction of a Bit', 'Boolean algebra of Bits', 'reflected Boolean operators', 'foreign operands'
    loc = ck.method_loc(F.Bit, '__init__')
    for lab, bld in bit_operands(F):
        ck.oblige(RC, '%s(%s)' % (bn, lab), lambda c: bld(c, 'a'), lambda c: it.call(F.Bit, [c['a']], {}),
                  lambda c: [(True, 'ret', is_bit(F, c['%a']))], loc)
    if F.eng is not None:
        ck.oblige(RC, '%s(term)' % bn, lambda c: c.__setitem__('b', L.bool('b')), lambda c: it.call(F.Bit, [F.rawbit(c['b'])], {}),
                  lambda c: [(True, 'ret', is_bit(F, c['b']))], loc)

    def s_badint(c):
        c['k'] = L.int('k')
        restrict(it, T.band_(T.ne(c['k'], 0), T.ne(c['k'], 1)))
    ck.oblige(RC, '%s(int other than 0, 1)' % bn, s_badint, lambda c: it.call(F.Bit, [c['k']], {}), lambda c: [(True, 'exc', ('ValueError',))], loc)
    ck.oblige(RC, '%s(object without __bool__)' % bn, lambda c: c.__setitem__('a', it.call(Plain, [], {})),
              lambda c: it.call(F.Bit, [c['a']], {}), lambda c: [(True, 'exc', ('TypeError',))], loc)
    ck.oblige(RA, '~%s' % bn, lambda c: bit_operands(F)[0][1](c, 'a'), lambda c: it.unop('Invert', c['a']),
              lambda c: [(True, 'ret', is_bit(F, T.bnot_(c['%a'])))], ck.method_loc(F.Bit, '__invert__'))
    for o, sym, f in BITOPS + BITCMP:
        rel = o in ('Eq', 'NotEq')
        ap = (lambda a, b, o=o: it.compare(o, a, b)) if rel else (lambda a, b, o=o: it.binop(o, a, b))
        ol = ck.method_loc(F.Bit, FWDN[o])
        for lab, bld in bit_operands(F):
            def s2(c):
                bit_operands(F)[0][1](c, 'a')
                bld(c, 'b')
            ck.oblige(RA, '%s %s %s' % (bn, sym, lab), s2, lambda c: ap(c['a'], c['b']),
                      lambda c: [(True, 'ret', is_bit(F, f(c['%a'], c['%b'])))], ol)
            if lab != 'Bit' and F.key != 'z3':
                ck.oblige(RR, '%s %s %s' % (lab, sym, bn), s2, lambda c: ap(c['b'], c['a']),
                          lambda c: [(True, 'ret', is_bit(F, f(c['%b'], c['%a'])))], ol)

        def s_bad(c):
            bit_operands(F)[0][1](c, 'a')
            s_badint(c)
        ck.oblige(RJ, '%s %s int other than 0, 1' % (bn, sym), s_bad, lambda c: ap(c['a'], c['k']), lambda c: [(True, 'exc', ('ValueError',))], ol)
        if F.key != 'z3':
            for side in ('right', 'left'):
                def s_j(c):
                    bit_operands(F)[0][1](c, 'a')
                    c['J'] = it.call(Plain, [], {})
                ck.oblige(RJ, '%s %s object (%s)' % (bn, sym, side), s_j,
                          lambda c: ap(c['a'], c['J']) if side == 'right' else ap(c['J'], c['a']),
                          lambda c: [(True, 'ret', is_bool(F, o == 'NotEq'))] if rel else [(True, 'exc', ('TypeError',))], ol)
    if F.key == 'py':
        ck.oblige('observations of a Bit', 'bool(Bit)', lambda c: bit_operands(F)[0][1](c, 'a'), lambda c: it.truth(c['a']),
                  lambda c: [(True, 'ret', is_bool(F, c['%a']))], ck.method_loc(F.Bit, '__bool__'))
        ck.oblige('observations of a Bit', 'int(Bit)', lambda c: bit_operands(F)[0][1](c, 'a'), lambda c: it.call(BI.CLS['int'], [c['a']], {}),
                  lambda c: [(True, 'ret', is_int(F, T.ind(c['%a'])))], ck.method_loc(F.Bit, '__int__'))
    elif F.key == 'smt':
        ck.oblige('a symbolic Bit has no truth value', 'bool(SMTBit)', lambda c: bit_operands(F)[0][1](c, 'a'), lambda c: it.truth(c['a']),
                  lambda c: [(True, 'exc', ('TypeError',))], ck.method_loc(F.Bit, '__bool__'))


def C07(ck):
    for k in ('py', 'smt', 'z3'):
        C07_family(ck, Fam(ck.lab, k))
    run_clients(ck, 'vectors', 'C07')
    run_clients(ck, 'small', 'C07')


# ----------------------------------------------------------------- C08 ite
def C08_family(ck, F):
    it, L = F.it, F.lab
    R, RT, RJ = 'ite selects a branch', 'ite on nested tuples', 'branches without a common type are rejected'
    loc = ck.method_loc(F.Bit, 'ite')
    bn = F.Bit.name

    def sel(c):
        c['s'] = L.bool('s')
        c['S'] = F.bit(c['s'])

    def ite(c, a='X', b='Y'):
        return it.call(it.getattr(c['S'], 'ite'), [c[a], c[b]], {})

    def mux(c, a, b):
        return T.iite(c['s'], P(a), P(b))
    for base in bases(F):
        def s_vv(c):
            sel(c)
            two(F, base, 1)(c)
        ck.oblige(R, '%s.ite(%s[n], %s[n])' % (bn, base.name, base.name), s_vv, ite,
                  lambda c: [(True, 'ret', is_vec(F, c['C'], mux(c, c['x'], c['y'])))], loc)

        def s_mix(c):
            sel(c)
            two(F, base, 1)(c)
            m = L.size('m', 1)
            restrict(it, T.ne(m, c['n']))
            c['Y'] = F.val(F.vec(base, m), L.uint('z', m), m)
        ck.oblige(RJ, '%s.ite(%s[n], %s[m]), m != n' % (bn, base.name, base.name), s_mix, ite, lambda c: [(True, 'exc', ('TypeError',))], loc)
        # the select of a vector is its non-zero test
        def s_vsel(c):
            two(F, base, 1)(c)
            c['a'], c['b'] = L.uint('a', c['n']), L.uint('b', c['n'])
            c['A'], c['B'] = F.val(c['C'], c['a'], c['n']), F.val(c['C'], c['b'], c['n'])
        ck.oblige(R, '%s[n].ite(a, b)' % base.name, s_vsel, meth(F, 'ite', 'A', 'B'),
                  lambda c: [(True, 'ret', is_vec(F, c['C'], T.iite(T.ne(c['x'], 0), P(c['a']), P(c['b']))))], ck.method_loc(base, 'ite'))
    if F.key == 'z3':
        for base in bases(F):
            def s_vi(c):
                sel(c)
                one(F, base, 1)(c)
                c['k'] = L.int('k')
            ck.oblige(R, '%s.ite(%s[n], int)' % (bn, base.name), s_vi, lambda c: ite(c, 'X', 'k'),
                      lambda c: [(True, 'ret', is_vec(F, c['C'], mux(c, c['x'], T.wrap(c['k'], c['n']))))], loc)
            ck.oblige(R, '%s.ite(int, %s[n])' % (bn, base.name), s_vi, lambda c: ite(c, 'k', 'X'),
                      lambda c: [(True, 'ret', is_vec(F, c['C'], mux(c, T.wrap(c['k'], c['n']), c['x'])))], loc)
            for ob in bases(F):
                if ob is base:
                    continue

                def s_ty(c, ob=ob):
                    sel(c)
                    two(F, base, 1, ob)(c)
                ck.oblige(RJ, '%s.ite(%s[n], %s[n])' % (bn, base.name, ob.name), s_ty, ite, lambda c: [(True, 'exc', ('TypeError',))], loc)

        def s_ii(c):
            sel(c)
            c['a'], c['b'] = L.nat('a', 1), L.nat('b', 1)
        def e_ii(c):
            la, lb = [T.iite(T.eq(c[k], 0), P(1), T.bitlen(c[k])) for k in 'ab']
            return [(True, 'ret', is_sized(F, F.BV, T.iite(T.lt(la, lb), lb, la), mux(c, c['a'], c['b'])))]
        ck.oblige(R, '%s.ite(int, int)' % bn, s_ii, lambda c: ite(c, 'a', 'b'), e_ii, loc)
        return

    def s_bb(c):
        sel(c)
        c['p'], c['q'] = L.bool('p'), L.bool('q')
        c['X'], c['Y'] = F.bit(c['p']), F.bit(c['q'])

    def bmux(c, a, b):
        return T.bor_(T.band_(c['s'], a), T.band_(T.bnot_(c['s']), b))
    ck.oblige(R, '%s.ite(Bit, Bit)' % bn, s_bb, ite, lambda c: [(True, 'ret', is_bit(F, bmux(c, c['p'], c['q'])))], loc)

    # tuples
    def s_t(c):
        sel(c)
        two(F, F.BV, 1)(c)
        c['p'], c['q'] = L.bool('p'), L.bool('q')
        m = c['m'] = L.size('m', 1)
        c['D'] = F.vec(F.S, m)
        c['u'], c['w'] = L.uint('u', m), L.uint('w', m)
        c['X1'], c['Y1'] = c['X'], c['Y']
        c['X'] = (c['X1'], F.bit(c['p']), (F.val(c['D'], c['u'], m),))
        c['Y'] = (c['Y1'], F.bit(c['q']), (F.val(c['D'], c['w'], m),))
    ck.oblige(RT, '%s.ite((bv, bit, (sint,)), (bv, bit, (sint,)))' % bn, s_t, ite,
              lambda c: [(True, 'ret', is_tuple(F, is_vec(F, c['C'], mux(c, c['x'], c['y'])), is_bit(F, bmux(c, c['p'], c['q'])),
                                                is_tuple(F, is_vec(F, c['D'], mux(c, c['u'], c['w'])))))], loc)
    def s_sh(c):
        s_t(c)
        c['X'] = (c['X1'], c['X'][2], c['X'][2][0])
        c['Y'] = (c['Y1'], c['X'][1], c['X'][2])
    ck.oblige(RT, '%s.ite with a part that both branches share' % bn, s_sh, ite,
              lambda c: [(True, 'ret', is_tuple(F, is_vec(F, c['C'], mux(c, c['x'], c['y'])), is_tuple(F, is_vec(F, c['D'], c['u'])), is_vec(F, c['D'], c['u'])))], loc)
    ck.oblige(RT, '%s.ite((), ())' % bn, lambda c: (sel(c), c.update(X=(), Y=())), ite, lambda c: [(True, 'ret', is_tuple(F))], loc)

    def bad(label, f):
        def s(c):
            sel(c)
            two(F, F.BV, 1)(c)
            c['bit'] = F.bit(L.bool('p'))
            c['X'], c['Y'] = f(c)
        ck.oblige(RJ, '%s.ite%s' % (bn, label), s, ite, lambda c: [(True, 'exc', ('TypeError',))], loc)
    bad('((bv,), (bv, bv))', lambda c: ((c['X'],), (c['Y'], c['Y'])))
    bad('((bv, bv), (bv,))', lambda c: ((c['X'], c['X']), (c['Y'],)))
    bad('((bv,), ())', lambda c: ((c['X'],), ()))
    bad('((), (bv,))', lambda c: ((), (c['X'],)))
    bad('((), bv)', lambda c: ((), c['X']))
    bad('(bit, ())', lambda c: (c['bit'], ()))
    bad('((bv, bit, bv), (bv, bit))', lambda c: ((c['X'], c['bit'], c['X']), (c['X'], c['bit'])))
    bad('(((bv,), bit), ((bv, bv), bit))', lambda c: (((c['X'],), c['bit']), ((c['X'], c['Y']), c['bit'])))
    bad('(((bv,), bit), ((), bit))', lambda c: (((c['X'],), c['bit']), ((), c['bit'])))
    bad('((bv, (bit,)), (bv, bit))', lambda c: ((c['X'], (c['bit'],)), (c['X'], c['bit'])))
    bad('([bv], [bv])', lambda c: (it.new_list([c['X']]), it.new_list([c['Y']])))
    bad('((bv,), ((bv,),))', lambda c: ((c['X'],), ((c['Y'],),)))
    bad('((bv,), bv)', lambda c: ((c['X'],), c['Y']))
    bad('(bv, (bv,))', lambda c: (c['X'], (c['Y'],)))
    bad('(bv, bit)', lambda c: (c['X'], c['bit']))
    bad('(bit, bv)', lambda c: (c['bit'], c['X']))
    bad('((bv, bit), (bit, bv))', lambda c: ((c['X'], c['bit']), (c['bit'], c['Y'])))
    bad('(bv, int)', lambda c: (c['X'], L.int('k')))
    bad('(int, int)', lambda c: (L.int('k'), L.int('j')))
    bad('(bool, bool)', lambda c: (L.bool('j'), L.bool('k')))
    bad('(bv, None)', lambda c: (c['X'], None))

    def badfam(G):
        def s(c):
            sel(c)
            n = c['n'] = L.size('n', 1)
            c['X'], c['Y'] = F.val(F.vec(F.BV, n), L.uint('x', n), n), G.val(G.vec(G.BV, n), L.uint('y', n), n)
        ck.oblige(RJ, '%s.ite(%s[n], %s[n])' % (bn, F.BV.name, G.BV.name), s, ite, lambda c: [(True, 'exc', ('TypeError',))], loc)
    for k in ('py', 'smt'):
        if k != F.key:
            badfam(Fam(L, k))


def C08(ck):
    for k in ('py', 'smt', 'z3'):
        C08_family(ck, Fam(ck.lab, k))


# ----------------------------------------------------------------- C09 polymorphic dispatch
def is_poly(F, n, val, *bs):
    """vector of width n and that value, of a type below every class of bs and below no other vector class of the family"""
    it = F.it

    @pred('a vector of value %r below %s' % (val, [b.name for b in bs]))
    def f(v):
        if not isinstance(v, Inst):
            return False
        for b in bs:
            if b not in v.cls.mro:
                return False
        for b in (F.U, F.S):
            if b in v.cls.mro and b not in bs:
                return False
        r = eq_in(it, F.width(v), n)

        def chk(nd):
            if F.eng is None:
                return eq_in(it, nd, val)
            if not isinstance(nd, SNode) or nd.sort != 'bv':
                return False
            return T.band_(eq_in(it, P(nd.den), val), eq_in(it, nd.w, n))
        return T.band_(r, it.truth(it.case(it.getattr(v, 'value') if F.eng else F.den(v)[0], chk)))
    return f


def C09_family(ck, F):
    it, L = F.it, F.lab
    R, RD, RJ = 'mixed branches give the value of the selected branch', 'operators follow the type of the selected branch', 'rejected mixtures'
    loc = ck.method_loc(F.Bit, 'ite')
    bn = F.Bit.name
    for A in bases(F):
        for Bt in bases(F):
            if A is Bt:
                continue

            def setup(c, A=A, Bt=Bt):
                c['s'] = L.bool('s')
                c['S'] = F.bit(c['s'])
                n = c['n'] = L.size('n', 1)
                c['x'], c['y'], c['z'] = L.uint('x', n), L.uint('y', n), L.uint('z', n)
                c['X'], c['Y'] = F.val(F.vec(A, n), c['x'], n), F.val(F.vec(Bt, n), c['y'], n)
                c['Z'] = F.val(F.vec(F.BV, n), c['z'], n)
                c['p'] = T.iite(c['s'], P(c['x']), P(c['y']))

            def ite(c):
                return it.call(it.getattr(c['S'], 'ite'), [c['X'], c['Y']], {})

            def psetup(c):
                setup(c)
                c['P'] = ite(c)
            nm = '%s.ite(%s[n], %s[n])' % (bn, A.name, Bt.name)
            common = [b for b in (F.U, F.S) if issub(it, A, b) and issub(it, Bt, b)] or [F.BV]
            ck.oblige(R, nm, setup, ite, lambda c: [(True, 'ret', is_poly(F, c['n'], c['p'], *common))], loc)
            for o, sym, m, op in BINOPS:
                def ops(C, o=o, op=op):
                    return SIGNED[o][1] if C is F.S and o in SIGNED else op

                def exp(c, ops=ops):
                    v = T.iite(c['s'], opval(F, A, ops(A), c['p'], c['z'], c['n']), opval(F, Bt, ops(Bt), c['p'], c['z'], c['n']))
                    return [(True, 'ret', is_poly(F, c['n'], v, *common))]
                ck.oblige(RD, '%s %s %s[n]' % (nm, sym, F.BV.name), psetup, lambda c: it.binop(o, c['P'], c['Z']), exp, ck.method_loc(A, FWDN[o]))
            for o, sym, r in CMPOPS:
                def exp(c, r=r):
                    g0, g1 = relval(A, F, r, c['p'], c['z'], c['n']), relval(Bt, F, r, c['p'], c['z'], c['n'])
                    return [(True, 'ret', is_bit(F, T.bor_(T.band_(c['s'], g0), T.band_(T.bnot_(c['s']), g1))))]
                ck.oblige(RD, '%s %s %s[n]' % (nm, sym, F.BV.name), psetup, lambda c: it.compare(o, c['P'], c['Z']), exp, ck.method_loc(A, FWDN[o]))

            for o, sym, m, op in BINOPS:
                def rops(C, o=o, op=op):
                    return SIGNED[o][1] if C is F.S and o in SIGNED else op

                def isetup(c):
                    psetup(c)
                    c['k'] = L.int('k')

                def exp(c, ops=rops):
                    k = T.wrap(c['k'], c['n'])
                    v = T.iite(c['s'], opval(F, A, ops(A), k, c['p'], c['n']), opval(F, Bt, ops(Bt), k, c['p'], c['n']))
                    return [(True, 'ret', is_poly(F, c['n'], v, *common))]
                ck.oblige(RD, 'int %s %s' % (sym, nm), isetup, lambda c: it.binop(o, c['k'], c['P']), exp, ck.method_loc(A, '__r' + FWDN[o][2:]))
            for o, sym, r in CMPOPS:
                def exp(c, r=r):
                    k = T.wrap(c['k'], c['n'])
                    g0, g1 = relval(A, F, r, k, c['p'], c['n']), relval(Bt, F, r, k, c['p'], c['n'])
                    return [(True, 'ret', is_bit(F, T.bor_(T.band_(c['s'], g0), T.band_(T.bnot_(c['s']), g1))))]
                ck.oblige(RD, 'int %s %s' % (sym, nm), isetup, lambda c: it.compare(o, c['k'], c['P']), exp, ck.method_loc(A, FWDN[o]))

            def ksetup(c):
                psetup(c)
                c['k'] = L.nat('k', 0)

            def extv(C, c):
                v = c['p']
                if C is F.S:
                    v = T.add(v, T.mul(T.ind(T.tb(c['p'], T.sub(c['n'], 1))), T.mul(T.sub(T.pow2(c['k']), 1), T.pow2(c['n']))))
                return v
            ck.oblige(RD, '%s.ext(k)' % nm, ksetup, lambda c: it.call(it.getattr(c['P'], 'ext'), [c['k']], {}),
                      lambda c: [(True, 'ret', is_poly(F, T.add(c['n'], c['k']), T.iite(c['s'], extv(A, c), extv(Bt, c))))], ck.method_loc(A, 'ext'))
            ck.oblige(RD, '~%s' % nm, psetup, lambda c: it.unop('Invert', c['P']),
                      lambda c: [(True, 'ret', is_poly(F, c['n'], T.sub(T.sub(T.pow2(c['n']), 1), c['p'])))], ck.method_loc(A, '__invert__'))

            for o, sym in [(o, y) for o, y, *_ in BINOPS + CMPOPS]:
                if ck.tier == 'quick' and o not in ('BitAnd', 'RShift', 'Add', 'Eq', 'NotEq', 'Lt'):
                    continue

                def fsetup(c):
                    psetup(c)
                    c['J'] = it.call(L.fix('Plain'), [], {})
                ap = (lambda a, b: it.compare(o, a, b)) if o in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE') else (lambda a, b: it.binop(o, a, b))
                fe = (lambda c: [(True, 'ret', is_bool(F, o == 'NotEq'))]) if o in ('Eq', 'NotEq') else (lambda c: [(True, 'exc', ('TypeError',))])
                ck.oblige(RJ, '%s %s object' % (nm, sym), fsetup, lambda c: ap(c['P'], c['J']), fe, ck.method_loc(A, FWDN[o]))

            def sz(c):
                setup(c)
                m = L.size('m', 1)
                restrict(it, T.ne(m, c['n']))
                c['Y'] = F.val(F.vec(Bt, m), L.uint('w', m), m)
            ck.oblige(RJ, '%s.ite(%s[n], %s[m]), m != n' % (bn, A.name, Bt.name), sz, ite, lambda c: [(True, 'exc', ('TypeError',))], loc)


    # a branch type that declines an operator leaves it to the other operand
    Odd = L.fix('Odd' if F.key == 'py' else 'SMTOdd', 'vectors')
    for A, Bt in ((F.BV, Odd), (Odd, F.BV)):
        def osetup(c):
            c['s'] = L.bool('s')
            n = c['n'] = L.size('n', 1)
            c['x'], c['y'], c['z'] = L.uint('x', n), L.uint('y', n), L.uint('z', n)
            c['P'] = it.call(it.getattr(F.bit(c['s']), 'ite'), [F.val(F.vec(A, n), c['x'], n), F.val(F.vec(Bt, n), c['y'], n)], {})
            c['Z'] = F.val(F.vec(F.BV, n), c['z'], n)
            c['p'] = T.iite(c['s'], P(c['x']), P(c['y']))
        ck.oblige(RD, '%s.ite(%s, %s) + vector, one branch type without +' % (bn, A.name, Bt.name), osetup, lambda c: it.binop('Add', c['P'], c['Z']),
                  lambda c: [(True, 'ret', is_poly(F, c['n'], T.wrap(T.add(c['p'], c['z']), c['n']), F.BV))], loc)


def issub(it, a, b):
    return b in a.mro


def C09(ck):
    for k in ('py', 'smt'):
        C09_family(ck, Fam(ck.lab, k))
    run_clients(ck, 'vectors', 'C09')
