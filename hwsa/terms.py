"""Value-graph nodes and their normal forms.

Integers are polynomials (Fraction coefficients) over hash-consed atoms; at most
one `pow2` atom per monomial, indicators `ind(c)` are idempotent.  Booleans are
ROBDD nodes over hash-consed atoms.  Everything is normalised on construction,
so two value-graph nodes denote the same function when they are the same node.
Nothing here enumerates paths or calls a solver.
"""
from fractions import Fraction
import itertools, random, hashlib


class TermError(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'op', 'args', 'sort')

    def __repr__(self):
        if not self.args:
            return self.op
        if self.op == 'var':
            return '%%%s' % self.args[0]
        if self.op == 'pow2':
            return '2^(%r)' % (self.args[0],)
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


_ATOMS = {}
_ATOMLIST = []


def atom(op, args=(), sort='int'):
    key = (op, args, sort)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMLIST)
        a.op, a.args, a.sort = op, args, sort
        _ATOMS[key] = a
        _ATOMLIST.append(a)
    return a


# ---------------------------------------------------------------- ints
class I:
    """integer polynomial"""
    __slots__ = ('t', 'd', '_h')

    def __hash__(self):
        return self._h

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t:
            s = '*'.join(map(repr, m))
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        return ' + '.join(out)

    @property
    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __neg__(s): return mul(-1, s)

    def single(self):
        """the atom if self is exactly one atom with coefficient 1"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None


_POLYS = {}


def _mk(d):
    t = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                     key=lambda mc: tuple(a.id for a in mc[0])))
    p = _POLYS.get(t)
    if p is None:
        p = I()
        p.t = t
        p._h = hash(t)
        p.d = None
        _POLYS[t] = p
    return p


def P(x):
    """coerce to polynomial"""
    if isinstance(x, I):
        return x
    if isinstance(x, bool):
        return _mk({(): Fraction(int(x))})
    if isinstance(x, (int, Fraction)):
        return _mk({(): Fraction(x)})
    if isinstance(x, Atom):
        return _mk({(x,): Fraction(1)})
    if isinstance(x, B):
        return ind(x)
    raise TermError('not an int term: %r' % (x,))


def ivar(name):
    return P(atom(name, (), 'int'))


def bvar(name):
    return B(_bdd_var(atom(name, (), 'bool')))


def add(a, b):
    a, b = P(a), P(b)
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return _mk(d)


def sub(a, b):
    return add(a, mul(-1, b))


def _mulmono(m1, m2):
    """-> (coeff, mono)"""
    coeff = Fraction(1)
    atoms = []
    e = None
    seen_ind = set()
    for x in m1 + m2:
        if x.op == 'pow2':
            e = x.args[0] if e is None else add(e, x.args[0])
        elif x.op == 'ind':
            if x in seen_ind:
                continue
            seen_ind.add(x)
            atoms.append(x)
        else:
            atoms.append(x)
    if e is not None:
        c, rest = _split_const(e)
        coeff *= Fraction(2) ** int(c)
        if rest.t:
            atoms.append(atom('pow2', (rest,)))
    atoms.sort(key=lambda a: a.id)
    return coeff, tuple(atoms)


def _split_const(p):
    c = Fraction(0)
    d = {}
    for m, k in p.t:
        if not m:
            c = k
        else:
            d[m] = k
    if c.denominator != 1:
        # keep the fractional part in the rest (never happens for int exponents)
        raise TermError('fractional exponent')
    return c, _mk(d)


def mul(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const, b.const
    if ca is not None:
        return _mk({m: c * ca for m, c in b.t})
    if cb is not None:
        return _mk({m: c * cb for m, c in a.t})
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            k, m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + k * c1 * c2
    return _mk(d)


def tops(p):
    """top-level indicator atoms of a polynomial"""
    s = []
    for m, _ in p.t:
        for a in m:
            if a.op == 'ind' and a not in s:
                s.append(a)
    return s


def cof_ind(p, a, v):
    d = {}
    for m, c in p.t:
        if a in m:
            if v:
                m2 = tuple(x for x in m if x is not a)
                d[m2] = d.get(m2, 0) + c
        else:
            d[m] = d.get(m, 0) + c
    return _mk(d)


def shannon(f, *ps):
    """lift a non-linear integer operation over top-level indicators"""
    for p in ps:
        if isinstance(p, I):
            t = tops(p)
            if t:
                a = t[0]
                p1 = shannon(f, *[cof_ind(q, a, 1) if isinstance(q, I) else q for q in ps])
                p0 = shannon(f, *[cof_ind(q, a, 0) if isinstance(q, I) else q for q in ps])
                if p1 is p0:
                    return p1
                return add(p0, mul(P(a), sub(p1, p0)))
    return f(*ps)


def shannon_b(f, *ps):
    for p in ps:
        if isinstance(p, I):
            t = tops(p)
            if t:
                a = t[0]
                p1 = shannon_b(f, *[cof_ind(q, a, 1) if isinstance(q, I) else q for q in ps])
                p0 = shannon_b(f, *[cof_ind(q, a, 0) if isinstance(q, I) else q for q in ps])
                return bite(B(_bdd_var(a.args[0])), p1, p0)
    return f(*ps)


# ---------------------------------------------------------------- BDD
# node: 0 False, 1 True, else index; _N[i] = (atom, hi, lo)
_N = [None, None]
_NU = {}


class B:
    __slots__ = ('n',)
    _c = {}

    def __new__(cls, n):
        b = cls._c.get(n)
        if b is None:
            b = object.__new__(cls)
            b.n = n
            cls._c[n] = b
        return b

    def __repr__(self):
        return bdd_str(self.n)


def _bdd_node(a, hi, lo):
    if hi == lo:
        return hi
    k = (a.id, hi, lo)
    n = _NU.get(k)
    if n is None:
        n = len(_N)
        _N.append((a, hi, lo))
        _NU[k] = n
    return n


def _bdd_var(a):
    return _bdd_node(a, 1, 0)


_ITE = {}


def _top(n):
    return _N[n][0].id if n > 1 else 1 << 60


def _cof(n, vid):
    if n > 1 and _N[n][0].id == vid:
        return _N[n][1], _N[n][2]
    return n, n


def bdd_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = min(_top(f), _top(g), _top(h))
    f1, f0 = _cof(f, v)
    g1, g0 = _cof(g, v)
    h1, h0 = _cof(h, v)
    r = _bdd_node(_ATOMLIST[v], bdd_ite(f1, g1, h1), bdd_ite(f0, g0, h0))
    _ITE[k] = r
    return r


def nb(x):
    """to bdd node"""
    if x is True:
        return 1
    if x is False:
        return 0
    if isinstance(x, B):
        return x.n
    raise TermError('not a bool term %r' % (x,))


def mb(n):
    if n == 1:
        return True
    if n == 0:
        return False
    return B(n)


def band_(a, b): return mb(bdd_ite(nb(a), nb(b), 0))
def bor_(a, b): return mb(bdd_ite(nb(a), 1, nb(b)))
def bnot_(a): return mb(bdd_ite(nb(a), 0, 1))
def bite(c, a, b): return mb(bdd_ite(nb(c), nb(a), nb(b)))
def bxor_(a, b): return bite(a, bnot_(b), b)
def biff_(a, b): return bite(a, b, bnot_(b))


def conj(*xs):
    r = True
    for x in xs:
        r = band_(r, x)
    return r


def disj(*xs):
    r = False
    for x in xs:
        r = bor_(r, x)
    return r


def bdd_restrict(f, c):
    """simplify f given care set c (c non-zero)"""
    memo = {}

    def go(f, c):
        if c == 1 or f < 2:
            return f
        k = (f, c)
        if k in memo:
            return memo[k]
        vc, vf = _top(c), _top(f)
        if vc < vf:
            c1, c0 = _cof(c, vc)
            r = go(f, bdd_ite(c1, 1, c0))
        elif vf < vc:
            f1, f0 = _cof(f, vf)
            r = _bdd_node(_ATOMLIST[vf], go(f1, c), go(f0, c))
        else:
            c1, c0 = _cof(c, vf)
            f1, f0 = _cof(f, vf)
            if c1 == 0:
                r = go(f0, c0)
            elif c0 == 0:
                r = go(f1, c1)
            else:
                r = _bdd_node(_ATOMLIST[vf], go(f1, c1), go(f0, c0))
        memo[k] = r
        return r
    if c == 0:
        return f
    return go(f, c)


def bdd_support(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        a, hi, lo = _N[x]
        if a not in out:
            out.append(a)
        st += [hi, lo]
    return sorted(out, key=lambda a: a.id)


def bdd_cofactor(n, a, v):
    memo = {}

    def go(n):
        if n < 2 or _N[n][0].id > a.id:
            return n
        if n in memo:
            return memo[n]
        x, hi, lo = _N[n]
        if x is a:
            r = hi if v else lo
        else:
            r = _bdd_node(x, go(hi), go(lo))
        memo[n] = r
        return r
    return go(n)


def bdd_cubes(n, limit=64):
    """iterate cubes as dict atom->bool; raises if over limit"""
    count = [0]

    def go(n, cube):
        if n == 0:
            return
        if n == 1:
            count[0] += 1
            if count[0] > limit:
                raise TermError('too many cubes')
            yield dict(cube)
            return
        a, hi, lo = _N[n]
        cube[a] = True
        yield from go(hi, cube)
        cube[a] = False
        yield from go(lo, cube)
        del cube[a]
    yield from go(n, {})


def literals(n):
    """literals implied by node n: dict atom->bool"""
    out = {}
    for a in bdd_support(n):
        if bdd_cofactor(n, a, False) == 0:
            out[a] = True
        elif bdd_cofactor(n, a, True) == 0:
            out[a] = False
    return out


def bdd_str(n, depth=0):
    if n == 0:
        return 'False'
    if n == 1:
        return 'True'
    try:
        cs = list(bdd_cubes(n, 12))
    except TermError:
        return '<cond over %s>' % ', '.join(map(repr, bdd_support(n)))
    return '(' + ' | '.join(' & '.join(('' if v else '!') + repr(a) for a, v in c.items()) for c in cs) + ')'


def ind(b):
    """indicator of a boolean as a multilinear polynomial in atom indicators"""
    if b is True:
        return P(1)
    if b is False:
        return P(0)
    memo = {0: P(0), 1: P(1)}

    def go(n):
        if n in memo:
            return memo[n]
        a, hi, lo = _N[n]
        h, l = go(hi), go(lo)
        r = add(l, mul(P(atom('ind', (a,))), sub(h, l)))
        memo[n] = r
        return r
    return go(b.n)


def iite(c, p, q):
    if c is True:
        return P(p)
    if c is False:
        return P(q)
    p, q = P(p), P(q)
    if p is q:
        return p
    # drop indicators decided by c inside the arms
    r = _cross(c, p, q)
    if r is not None:
        c, p, q = r
        if c is True or c is False:
            return p if c else q
    return add(q, mul(ind(c), sub(p, q)))


def _cross(c, p, q):
    """d < 0 ? p : q where p = q at d = 0 or at d = -1 (min, max, abs, clamps): one form for the equivalent conditions d < 0, d <= 0, ..."""
    n = c.n
    if n in (0, 1):
        return None
    a, hi, lo = _N[n]
    if a.op != 'lt0' or hi not in (0, 1) or lo not in (0, 1) or hi == lo:
        return None
    if hi == 0:
        p, q = q, p
    d = a.args[0]
    diff = sub(p, q)
    if not _prop(diff, d):
        d = add(d, 1)
        if not _prop(diff, d):
            return None
    for m, k in d.t:
        if m:
            if k < 0:
                return lt0(sub(0, d)), q, p
            break
    return lt0(d), p, q


def _prop(x, y):
    """x is a constant multiple of y"""
    if len(x.t) != len(y.t):
        return False
    k = None
    for (m, c), (m2, c2) in zip(x.t, y.t):
        if m != m2:
            return False
        if k is None:
            k = (c, c2)
        elif c * k[1] != c2 * k[0]:
            return False
    return k is not None


# ---------------------------------------------------------------- facts
class Facts:
    """bounds on atoms (scenario facts) plus facts implied by a guard"""

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.ge = []          # list of polys known >= 0 (from guards)
        self.lits = {}
        self.memo = {}
        self.ver = 0

    def bound(self, a, lo=None, hi=None):
        if isinstance(a, I):
            a = a.single()
        if lo is not None:
            self.lo.setdefault(a, []).append(P(lo))
        if hi is not None:
            self.hi.setdefault(a, []).append(P(hi))
        self.memo.clear()


FACTS = Facts()


def set_facts(f):
    global FACTS
    FACTS = f


class guard_facts:
    """context: add arithmetic facts implied by the guard's literals"""

    def __init__(self, guard):
        self.g = nb(guard)

    def __enter__(self):
        f = FACTS
        self.save = (f.ge, f.lits, f.memo)
        if self.g > 1:
            key = self.g
            cache = f.__dict__.setdefault('_gcache', {})
            ent = cache.get(key)
            if ent is None:
                lits = literals(self.g)
                ge = []
                for a, v in lits.items():
                    if a.op == 'lt0':
                        p = a.args[0]
                        ge.append(sub(mul(-1, p), 1) if v else p)
                    elif a.op == 'eq0' and v:
                        ge.append(a.args[0])
                        ge.append(mul(-1, a.args[0]))
                f.ge, f.lits, f.memo = list(ge), {}, {}
                for a, v in lits.items():
                    if a.op == 'eq0' and not v:
                        # p != 0: with p >= 0 known gives p >= 1 (done lazily)
                        p = a.args[0]
                        if prove_ge0(p):
                            ge.append(sub(p, 1))
                        elif prove_ge0(mul(-1, p)):
                            ge.append(sub(mul(-1, p), 1))
                    elif a.op == 'tb' and len(a.args[0].t) <= 3 and fits(a.args[0], add(a.args[1], 1)):
                        x, e = a.args[0], pow2(a.args[1])
                        ge.append(sub(x, e) if v else sub(sub(e, 1), x))
                ent = (ge, lits, {})
                cache[key] = ent
            f.ge, f.lits, f.memo = ent
        else:
            f.ge, f.lits, f.memo = [], {}, f.__dict__.setdefault('_m0', {})
        return self

    def __exit__(self, *a):
        f = FACTS
        f.ge, f.lits, f.memo = self.save


def _fits_bounds_bw(a):
    """extra bounds for a bitwise atom"""
    tt, args = a.args[0], a.args[1:]
    los, his = [], []
    if all(prove_ge0(x) for x in args):
        los.append(P(0))
        k = len(args)
        # and-like: f implies arg j
        for j in range(k):
            if all(not ((tt >> r) & 1) or (r >> j) & 1 for r in range(1 << k)):
                his.append(args[j])
        s = P(0)
        for x in args:
            s = add(s, x)
        for w in _width_candidates(a):
            m = sub(pow2(w), 1)
            if all(prove_ge0(sub(m, x)) for x in args):
                his.append(m)
        his.append(s)
    return los, his


def _width_candidates(a):
    c = []
    for f in FACTS.hi.values():
        for p in f:
            for m, k in p.t:
                for x in m:
                    if x.op == 'pow2' and x.args[0] not in c:
                        c.append(x.args[0])
    for arg in a.args:
        if isinstance(arg, I):
            for m, k in arg.t:
                for x in m:
                    if x.op == 'wrap' and x.args[1] not in c:
                        c.append(x.args[1])
    return c[:6]


_inprog = set()


def bounds(a):
    """(lower polys, upper polys) for an atom"""
    lo = list(FACTS.lo.get(a, ()))
    hi = list(FACTS.hi.get(a, ()))
    key = ('bounds', a)
    r = FACTS.memo.get(key)
    if r is not None:
        return r
    if a in _inprog:
        return lo, hi
    _inprog.add(a)
    try:
        op = a.op
        if op == 'ind':
            lo.append(P(0))
            hi.append(P(1))
        elif op == 'wrap':
            lo.append(P(0))
            hi.append(sub(pow2(a.args[1]), 1))
        elif op == 'pow2':
            e = a.args[0]
            if prove_ge0(sub(e, 1)):
                lo.append(P(2))
            elif prove_ge0(e):
                lo.append(P(1))
            lo.append(P(0))
        elif op == 'fmod':
            if prove_ge0(sub(a.args[1], 1)):
                lo.append(P(0))
                hi.append(sub(a.args[1], 1))
        elif op == 'fdiv':
            x, y = a.args
            if prove_ge0(sub(y, 1)) and prove_ge0(x):
                lo.append(P(0))
                hi.append(x)
                # x <= y*q + (y-1)  ->  x//y <= q
                if y.t and len(y.t) == 1:
                    for cand in _div_upper(x, y):
                        hi.append(cand)
        elif op in ('len', 'bitlen', 'abs', 'nat'):
            lo.append(P(0))
            if op == 'bitlen':
                x = a.args[0]
                seen = []
                for b in list(atoms_of(x))[:12]:
                    for h in (FACTS.hi.get(b, ()) if b.op == 'var' or not b.args else ()):
                        for m, c in h.t:
                            e = pow2_exp(_mk({m: c})) if m and c > 0 else None
                            if e is not None and e not in seen:
                                seen.append(e)
                for e in seen[:4]:
                    if prove_ge0(e) and fits(x, e):
                        hi.append(e)
        elif op == 'bw':
            l, h = _fits_bounds_bw(a)
            lo += l
            hi += h
        elif op == 'fromseq':
            lo.append(P(0))
            hi.append(sub(pow2(a.args[1]), 1))
        if op == 'var' or not a.args:
            bl = _ATOMS.get(('bitlen', (P(a),), 'int'))
            if bl is not None and any(l.const is not None and l.const >= 0 for l in lo):
                hi.append(sub(pow2(P(bl)), 1))
        for fp in FACTS.ge:
            for m, c in fp.t:
                if m == (a,):
                    rest = add(fp, _mk({m: -c}))
                    # c*a + rest >= 0
                    if c > 0:
                        lo.append(mul(Fraction(-1) / c, rest))
                    else:
                        hi.append(mul(Fraction(-1) / c, rest))
        r = (list(dict.fromkeys(lo)), list(dict.fromkeys(hi)))
    finally:
        _inprog.discard(a)
    if not _inprog:
        FACTS.memo[key] = r
    return r


def _div_upper(x, y):
    """upper bounds of x//y when y is 2^k and x <= 2^(k+j)-1"""
    out = []
    (m, c), = y.t
    if len(m) == 1 and m[0].op == 'pow2' and c > 0:
        for a in {q for mm, _ in x.t for q in mm}:
            for h in FACTS.hi.get(a, ()):
                # h = 2^w - 1 ?
                for mm, cc in h.t:
                    if mm and mm[-1].op == 'pow2' and cc > 0 and x.single() is a:
                        if add(h, 1) is _mk({mm: cc}):
                            out.append(sub(mul(_mk({mm: cc}), inv_pow2(y)), 1) if prove_ge0_nodiv(mul(_mk({mm: cc}), inv_pow2(y))) else None)
    return [o for o in out if o is not None]


def prove_ge0_nodiv(p):
    # 2^(w)/2^(k) is an integer only if w >= k
    for m, c in p.t:
        for a in m:
            if a.op == 'pow2' and not prove_ge0(a.args[0]):
                return False
    return True


def inv_pow2(y):
    (m, c), = y.t
    e = m[0].args[0]
    return mul(Fraction(1) / c, pow2(mul(-1, e)))


def mono_ge0(m):
    for a in m:
        if a.op in ('pow2', 'ind', 'wrap', 'len', 'bitlen', 'abs', 'nat', 'fromseq'):
            continue
        if a in _ge0_stack:
            return False
        if not atom_ge0(a):
            return False
    return True


_ge0_stack = []


def atom_ge0(a):
    key = ('age0', a)
    r = FACTS.memo.get(key)
    if r is not None:
        return r
    _ge0_stack.append(a)
    try:
        r = False
        for l in bounds(a)[0]:
            c = l.const
            if c is not None:
                if c >= 0:
                    r = True
                    break
            elif prove_ge0(l, 2):
                r = True
                break
    finally:
        _ge0_stack.pop()
    if not _ge0_stack:
        FACTS.memo[key] = r
    return r


def prove_ge0(p, depth=4):
    p = P(p)
    c = p.const
    if c is not None:
        return c >= 0
    key = ('ge0', p, depth)
    r = FACTS.memo.get(key)
    if r is not None:
        return r
    FACTS.memo[key] = False     # cut cycles
    r = _prove_ge0(p, depth)
    if r or not (_inprog or _ge0_stack):
        FACTS.memo[key] = r
    else:
        FACTS.memo.pop(key, None)
    return r


def _prove_ge0(p, depth):
    if all(c >= 0 for m, c in p.t) and all(mono_ge0(m) for m, c in p.t):
        return True
    for f in FACTS.ge:
        if f is p:
            return True
        d = sub(p, f)
        dc = d.const
        if dc is not None and dc >= 0:
            return True
    if depth <= 0:
        return False
    cand = []
    pows = {a for m, _ in p.t for a in m if a.op == 'pow2'}
    hasconstneg = any(not m and c < 0 for m, c in p.t)
    for m, c in p.t:
        if not m:
            continue
        for a in set(m):
            i = m.index(a)
            restm = m[:i] + m[i + 1:]
            if restm and not mono_ge0(restm):
                continue
            rest = _mk({restm: c})
            base = sub(p, _mk({m: c}))
            lo, hi = bounds(a)
            if c < 0:
                bs = list(hi)
                if a.op == 'pow2':
                    for b in pows:
                        if b is not a:
                            e = sub(b.args[0], a.args[0])
                            if prove_ge0(e, 1):
                                bs.append(P(b))
            else:
                bs = list(lo)
                if a.op == 'pow2':
                    for b in pows:
                        if b is not a:
                            e = sub(a.args[0], b.args[0])
                            if prove_ge0(sub(e, 1), 1):
                                bs.append(mul(2, P(b)))
                            elif prove_ge0(e, 1):
                                bs.append(P(b))
            for b in bs:
                q = add(base, mul(rest, b))
                if q is not p:
                    cand.append((c >= 0, len(q.t), q))
    for f in FACTS.ge[:8]:
        d = sub(p, f)
        if len(d.t) <= len(p.t):
            cand.append((True, len(d.t) + 1, d))
    cand.sort(key=lambda x: (x[0], x[1]))
    for _, _, q in cand[:14]:
        if prove_ge0(q, depth - 1):
            return True
    return False


def fits(p, n):
    """0 <= p < 2^n provable"""
    return prove_ge0(p) and prove_ge0(sub(sub(pow2(n), 1), p))


# ---------------------------------------------------------------- integer ops
def pow2(e):
    e = P(e)
    t = tops(e)
    if t:
        return shannon(pow2, e)
    c, rest = _split_const(e)
    r = P(Fraction(2) ** int(c))
    if rest.t:
        r = mul(r, P(atom('pow2', (rest,))))
    return r


def pow2_exp(p):
    """if p == 2^e for a polynomial e, return e else None"""
    p = P(p)
    if len(p.t) != 1:
        return None
    m, c = p.t[0]
    e = P(0)
    num, den = c.numerator, c.denominator
    if num <= 0:
        return None
    if num & (num - 1) or den & (den - 1):
        return None
    e = P(num.bit_length() - 1 - (den.bit_length() - 1))
    if len(m) == 0:
        return e
    if len(m) == 1 and m[0].op == 'pow2':
        return add(e, m[0].args[0])
    return None


def _integral(m, c):
    """monomial c*m is provably an integer"""
    e = P(0)
    den = c.denominator
    if den & (den - 1):
        return False
    e = P(-(den.bit_length() - 1))
    for a in m:
        if a.op == 'pow2':
            e = add(e, a.args[0])
    return prove_ge0(e)


def _divisible(m, c, n):
    """c*m is provably an integer multiple of 2^n"""
    num, den = c.numerator, c.denominator
    if den & (den - 1):
        return False
    v = (num & -num).bit_length() - 1 if num else 0
    e = sub(P(v - (den.bit_length() - 1)), n)
    for a in m:
        if a.op == 'pow2':
            e = add(e, a.args[0])
    return prove_ge0(e)


def wrap(p, n):
    """p mod 2^n"""
    p, n = P(p), P(n)
    for a in tops(p):
        b = a.args[0]
        if isinstance(b, Atom) and b.op == 'tb':
            # y with bit i set or cleared is as wide as y
            y, i = b.args
            two = pow2(i)
            d = sub(p, y)
            if (d is sub(two, mul(two, P(a))) or d is sub(0, mul(two, P(a)))) and fits(y, n) and prove_ge0(sub(sub(n, 1), i)):
                return p
    return shannon(_wrap, p, n)


def _wrap(p, n):
    nc = n.const
    if nc == 0:
        return P(0)
    changed = True
    guard = 0
    while changed and guard < 8:
        changed = False
        guard += 1
        d = {}
        for m, c in p.t:
            if _divisible(m, c, n):
                changed = True
                continue
            if nc is not None and c.denominator == 1 and _integral(m, Fraction(1)):
                c2 = Fraction(int(c) % (1 << int(nc)))
                if c2 > (1 << int(nc)) / 2 and m:
                    c2 -= 1 << int(nc)
                if c2 != c:
                    changed = True
                    c = c2
            d[m] = d.get(m, 0) + c
        p = _mk(d)
        # unwrap inner wraps
        for m, c in p.t:
            done = False
            if c.denominator != 1:
                continue
            for a in m:
                if a.op == 'wrap' and prove_ge0(sub(a.args[1], n)) and _integral(tuple(x for x in m if x is not a), c):
                    rest = list(m)
                    rest.remove(a)
                    p = add(sub(p, _mk({m: c})), mul(_mk({tuple(rest): c}), a.args[0]))
                    changed = done = True
                    break
            if done:
                break
        if tops(p):
            return shannon(_wrap, p, n)
    c = p.const
    if c is not None and c.denominator == 1:
        if nc is not None:
            return P(int(c) % (1 << int(nc)))
        # fall through to the range rules for symbolic n
    if prove_ge0(p) and prove_ge0(sub(sub(pow2(n), 1), p)):
        return p
    for m, cc in n.t:
        # p < 2^bitlen(p)
        if cc == 1 and len(m) == 1 and m[0].op == 'bitlen' and m[0].args[0] is p and prove_ge0(p) and prove_ge0(sub(n, P(m[0]))):
            return p
    q = add(p, pow2(n))
    if prove_ge0(sub(-1, p)) and prove_ge0(q):
        return q
    if FACTS.lits and nc is None and FACTS.lits.get(_ATOMS.get(('tb', (p, n), 'bool'))) and fits(p, add(n, 1)):
        return sub(p, pow2(n))
    if FACTS.lits:
        for a, v in FACTS.lits.items():
            if a.op == 'tb' and not v and fits(a.args[0], n) and sub(p, a.args[0]) is pow2(a.args[1]) and prove_ge0(sub(sub(n, 1), a.args[1])):
                return p
    if nc == 1:
        return ind(tb(p, 0))
    if _negform(p) and prove_ge0(n):
        return sub(sub(pow2(n), 1), wrap(sub(-1, p), n))
    s = p.single()
    if s is not None and s.op == 'bw' and s.args[0] is not None:
        args = [wrap(x, n) for x in s.args[1:]]
        if tuple(args) != s.args[1:]:
            return bw(s.args[0], args)
    if len(p.t) > 1:
        # wrap(A * 2^e + R, n) = 2^e * wrap(A, n - e) + R   for 0 <= R < 2^e, e <= n
        for pa in {a for m, _ in p.t for a in m if a.op == 'pow2'}:
            hi = {m: c for m, c in p.t if pa in m}
            lo = {m: c for m, c in p.t if pa not in m}
            e = pa.args[0]
            if not lo or not prove_ge0(e) or not prove_ge0(sub(n, e)) or not fits(_mk(lo), e):
                continue
            a = {}
            for m, c in hi.items():
                r = list(m)
                r.remove(pa)
                a[tuple(r)] = c
            if all(c.denominator == 1 and _integral(m, c) for m, c in a.items()):
                return add(mul(P(pa), wrap(_mk(a), sub(n, e))), _mk(lo))
    return P(atom('wrap', (p, n)))


def fdiv(p, q):
    """floor division, q != 0"""
    p, q = P(p), P(q)
    return shannon(_fdiv, p, q)


def _fdiv(p, q):
    pc, qc = p.const, q.const
    if pc is not None and qc is not None and pc.denominator == 1 and qc.denominator == 1:
        return P(int(pc) // int(qc)) if qc != 0 else P(atom('fdiv', (p, q)))
    if pc == 0:
        return P(0)
    if qc == 1:
        return p
    e = pow2_exp(q)
    if e is not None:
        # split exact multiples
        whole, rest = {}, {}
        for m, c in p.t:
            (whole if _divisible(m, c, e) else rest)[m] = c
        whole, rest = _mk(whole), _mk(rest)
        w = mul(whole, pow2(mul(-1, e))) if whole.t else P(0)
        if fits(rest, e):
            return w
        if prove_ge0(sub(-1, rest)) and prove_ge0(add(rest, pow2(e))):
            return sub(w, 1)
        if whole.t:
            return add(w, _fdiv(rest, q))
        if prove_ge0(e) and fits(rest, add(e, 1)):
            return ind(tb(rest, e))
        s = rest.single()
        if s is not None and s.op == 'fdiv':
            e2 = pow2_exp(s.args[1])
            if e2 is not None and prove_ge0(e) and prove_ge0(e2):
                return fdiv(s.args[0], pow2(add(e, e2)))
        # complement: (-1-x) >> e == -1 - (x >> e)
        if _negform(rest):
            return sub(-1, fdiv(sub(-1, rest), q))
        return P(atom('fdiv', (rest, q)))
    if qc is not None and qc == -1:
        return mul(-1, p)
    if prove_ge0(p) and prove_ge0(sub(sub(q, 1), p)):
        return P(0)
    return P(atom('fdiv', (p, q)))


def _negform(p):
    """canonical choice: is -1-p simpler than p?"""
    if not p.t:
        return False
    nonconst = [(m, c) for m, c in p.t if m]
    if not nonconst:
        return False
    return nonconst[-1][1] < 0


def fmod(p, q):
    p, q = P(p), P(q)
    return shannon(_fmod, p, q)


def _fmod(p, q):
    e = pow2_exp(q)
    if e is not None and prove_ge0(e):
        return wrap(p, e)
    pc, qc = p.const, q.const
    if pc is not None and qc is not None and qc != 0 and pc.denominator == 1 and qc.denominator == 1:
        return P(int(pc) % int(qc))
    # drop multiples of q (q a single monomial with coefficient 1)
    if len(q.t) == 1 and q.t[0][1] == 1:
        qm = q.t[0][0]
        d = {}
        for m, c in p.t:
            rest = list(m)
            ok = c.denominator == 1
            if ok:
                for a in qm:
                    if a in rest:
                        rest.remove(a)
                    else:
                        ok = False
                        break
            if ok and all(a.op != 'pow2' for a in rest):
                continue
            d[m] = c
        p = _mk(d)
    # unwrap nested fmod by same q
    for m, c in p.t:
        if c.denominator == 1 and len(m) == 1 and m[0].op == 'fmod' and m[0].args[1] is q:
            return _fmod(add(sub(p, _mk({m: c})), mul(c, m[0].args[0])), q)
    if not p.t:
        return P(0)
    if prove_ge0(sub(sub(q, 1), p)):
        if prove_ge0(p):
            return p
        if prove_ge0(add(p, q)):
            # -q <= p < q
            return add(p, q) if prove_ge0(sub(-1, p)) else add(p, mul(q, ind(lt(p, 0))))
    if all(c < 0 for _, c in p.t) and prove_ge0(sub(q, 1)):
        # -p mod q is q - (p mod q) unless that is q
        r = _fmod(sub(0, p), q)
        return mul(sub(q, r), ind(bnot_(eq0(r))))
    return P(atom('fmod', (p, q)))


def tdiv(p, q):
    """truncating division (toward zero)"""
    return shannon(lambda a, b: (P(int(abs(a.const) // abs(b.const)) * (1 if (a.const < 0) == (b.const < 0) else -1))
                                 if a.const is not None and b.const not in (None, 0)
                                 else fdiv(a, b) if prove_ge0(a) and prove_ge0(b) else P(atom('tdiv', (a, b)))),
                   P(p), P(q))


def trem(p, q):
    p, q = P(p), P(q)
    return shannon(lambda a, b: fmod(a, b) if prove_ge0(a) and prove_ge0(b) and b.const != 0 else P(atom('trem', (a, b))), p, q)


# bitwise: truth table over args; row r has bit j = value of arg j
def bw(tt, args):
    args = [P(a) for a in args]
    return shannon(lambda *a: _bw(tt, list(a)), *args)


def _bw(tt, args):
    k = len(args)
    # complement arguments to positive form, constants -1/0
    j = 0
    while j < len(args):
        a = args[j]
        c = a.const
        if c is not None and c in (0, -1):
            v = 1 if c == -1 else 0
            tt = _tt_cof(tt, len(args), j, v)
            args.pop(j)
            continue
        if _negform(a) or (c is not None and c < 0):
            args[j] = sub(-1, a)
            tt = _tt_neg(tt, len(args), j)
            continue
        s = a.single()
        if s is not None and s.op == 'bw':
            inner = list(s.args[1:])
            tt, args = _tt_inline(tt, args, j, s.args[0], inner)
            continue
        if a in args[:j]:
            i = args.index(a)
            tt, args = _tt_merge(tt, args, i, j)
            continue
        j += 1
    # drop irrelevant
    j = 0
    while j < len(args):
        k = len(args)
        c1, c0 = _tt_cof(tt, k, j, 1), _tt_cof(tt, k, j, 0)
        if c1 == c0:
            tt = c0
            args.pop(j)
        else:
            j += 1
    k = len(args)
    if k == 0:
        return P(-1) if tt & 1 else P(0)
    if tt & 1:
        full = (1 << (1 << k)) - 1
        return sub(-1, _bw(full ^ tt, args))
    if k == 1:
        return args[0]
    if len(args) > 5:
        raise TermError('bitwise too wide')
    # sort args
    order = sorted(range(k), key=lambda i: _pkey(args[i]))
    if order != list(range(k)):
        tt = _tt_perm(tt, order)
        args = [args[i] for i in order]
    if all(a.const is not None for a in args):
        return P(_bw_eval(tt, [int(a.const) for a in args]))
    if k >= 2:
        r = _onehot_rule(tt, args)
        if r is not None:
            return r
        r = _mask_rule(tt, args)
        if r is not None:
            return r
    if k == 2 and tt == 0b1000:
        r = _band_special(args[0], args[1])
        if r is not None:
            return r
        r = _band_special(args[1], args[0])
        if r is not None:
            return r
    if k == 2 and tt in (0b1110, 0b0110):
        r = _bor_disjoint(args[0], args[1])
        if r is not None:
            return r
    if k == 2 and tt in (0b0010, 0b0100):
        # a & ~b with b mask
        a, b = (args[0], args[1]) if tt == 0b0010 else (args[1], args[0])
        e = pow2_exp(add(b, 1))
        if e is not None and prove_ge0(e):
            return sub(a, wrap(a, e))
    return P(atom('bw', (tt,) + tuple(args)))


def _onehot_rule(tt, args):
    """an argument 2^e affects bit e only"""
    k = len(args)
    for j in range(k):
        e = pow2_exp(args[j])
        if e is None or not prove_ge0(e):
            continue
        others = args[:j] + args[j + 1:]
        c0, c1 = _tt_cof(tt, k, j, 0), _tt_cof(tt, k, j, 1)
        bs = [tb(x, e) for x in others]
        r = bw(c0, others)
        return add(r, mul(pow2(e), sub(ind(tt_bool(c1, bs)), ind(tt_bool(c0, bs)))))
    return None


def _mask_rule(tt, args):
    """an argument 2^e - 1 selects the low e bits"""
    k = len(args)
    for j in range(k):
        e = pow2_exp(add(args[j], 1))
        if e is None or not prove_ge0(e):
            continue
        others = args[:j] + args[j + 1:]
        if _tt_cof(tt, k, j, 0) == 0 or all(fits(x, e) for x in others):
            return wrap(bw(_tt_cof(tt, k, j, 1), others), e)
    return None


def _pkey(p):
    return tuple((tuple(a.id for a in m), c) for m, c in p.t)


def _band_special(a, mask):
    e = pow2_exp(add(mask, 1))
    if e is not None and prove_ge0(e):
        return wrap(a, e)
    e = pow2_exp(mask)
    if e is not None and prove_ge0(e):
        return mul(pow2(e), ind(tb(a, e)))
    return None


def _bor_disjoint(a, b):
    for x, y in ((a, b), (b, a)):
        # y multiple of 2^e and x < 2^e
        for m, c in y.t:
            if not m:
                num = c.numerator
                e = P((num & -num).bit_length() - 1) if num and c.denominator == 1 else None
            else:
                e = P(0)
                num, den = c.numerator, c.denominator
                if num == 0 or den & (den - 1):
                    e = None
                else:
                    e = P((num & -num).bit_length() - 1 - (den.bit_length() - 1))
                    for q in m:
                        if q.op == 'pow2':
                            e = add(e, q.args[0])
            if e is None:
                continue
            if e.const == 0:
                continue
            if all(_divisible(mm, cc, e) for mm, cc in y.t) and fits(x, e):
                return add(x, y)
    return None


def _tt_cof(tt, k, j, v):
    r = 0
    o = 0
    for row in range(1 << k):
        if ((row >> j) & 1) == v:
            if (tt >> row) & 1:
                r |= 1 << o
            o += 1
    return r


def _tt_neg(tt, k, j):
    r = 0
    for row in range(1 << k):
        if (tt >> row) & 1:
            r |= 1 << (row ^ (1 << j))
    return r


def _tt_perm(tt, order):
    k = len(order)
    r = 0
    for row in range(1 << k):
        if (tt >> row) & 1:
            nr = 0
            for newj, oldj in enumerate(order):
                if (row >> oldj) & 1:
                    nr |= 1 << newj
            r |= 1 << nr
    return r


def _tt_inline(tt, args, j, itt, inner):
    rest = args[:j] + args[j + 1:]
    nargs = rest + inner
    k = len(nargs)
    nr = len(rest)
    r = 0
    for row in range(1 << k):
        low = row & ((1 << nr) - 1)
        hi = row >> nr
        v = (itt >> hi) & 1
        # rebuild original row with arg j = v
        orow = (low & ((1 << j) - 1)) | (v << j) | ((low >> j) << (j + 1))
        if (tt >> orow) & 1:
            r |= 1 << row
    return r, nargs


def _tt_merge(tt, args, i, j):
    k = len(args)
    rest = args[:j] + args[j + 1:]
    r = 0
    for row in range(1 << (k - 1)):
        v = (row >> i) & 1
        orow = (row & ((1 << j) - 1)) | (v << j) | ((row >> j) << (j + 1))
        if (tt >> orow) & 1:
            r |= 1 << row
    return r, rest


def _bw_eval(tt, vals):
    k = len(vals)
    w = max(v.bit_length() for v in vals) + 2
    r = 0
    for i in range(w):
        row = 0
        for j, v in enumerate(vals):
            row |= ((v >> i) & 1) << j
        if (tt >> row) & 1:
            r |= 1 << i
    # sign extend
    if (r >> (w - 1)) & 1:
        r -= 1 << w
    return r


def iand(a, b): return bw(0b1000, [a, b])
def ior(a, b): return bw(0b1110, [a, b])
def ixor(a, b): return bw(0b0110, [a, b])
def inot(a): return sub(-1, a)
def shl(a, e): return mul(a, pow2(e))
def shr(a, e): return fdiv(a, pow2(e))


def bitlen(p):
    p = P(p)
    return shannon(lambda a: P(int(a.const).bit_length()) if a.const is not None else P(atom('bitlen', (a,))), p)


def iabs(p):
    p = P(p)
    return iite(lt0(p), mul(-1, p), p)


# ---------------------------------------------------------------- booleans over ints
def _norm_scale(p):
    """divide by content (positive)"""
    from math import gcd
    dens = 1
    for m, c in p.t:
        dens = dens * c.denominator // gcd(dens, c.denominator)
    g = 0
    for m, c in p.t:
        g = gcd(g, int(c * dens))
    return dens, g


def lt0(p):
    p = P(p)
    return shannon_b(_lt0, p)


def _bitlen_zero(p):
    """p = bitlen(k) - 1 -> k"""
    if len(p.t) == 2:
        k = None
        for m, c in p.t:
            if not m and c == -1:
                continue
            if len(m) == 1 and c == 1 and m[0].op == 'bitlen':
                k = m[0].args[0]
                continue
            return None
        return k
    return None


def _lt0(p):
    c = p.const
    if c is not None:
        return c < 0
    k = _bitlen_zero(p)
    if k is not None:
        return eq0(k)
    if prove_ge0(p):
        return False
    if prove_ge0(sub(-1, p)):
        return True
    r = _msb_rule(p)
    if r is not None:
        return r
    # integer normalisation: clear denominators / gcd of non-constant part
    from math import gcd
    dens = 1
    for m, k in p.t:
        dens = dens * k.denominator // gcd(dens, k.denominator)
    q = mul(dens, p)
    if dens == 1:
        g = 0
        cst = 0
        for m, k in q.t:
            if m:
                g = gcd(g, int(k))
            else:
                cst = int(k)
        if g > 1:
            # g*r + cst < 0  <=>  r < -cst/g <=> r <= ceil(-cst/g)-1 <=> r + floor(cst/g) < 0 ... (integers)
            r = mul(Fraction(1, g), sub(q, cst))
            q = add(r, -((-cst) // g)) if cst % g == 0 else add(r, cst // g)
            # r*g + cst < 0  <=> r < -cst/g <=> r < ceil(-cst/g) (r integer) <=> r - ceil(-cst/g) < 0
            q = sub(r, -(cst // g))
    if _negform(q) and dens == 1:
        return bnot_(B(_bdd_var(atom('lt0', (sub(-1, q),), 'bool'))))
    if dens != 1 and q.t and [c for m, c in q.t if m][-1] < 0:
        # -q > 0 ; over integers of p: keep a canonical sign through ¬(−p−1 < 0)
        return bnot_(_lt0_raw(sub(-1, p)))
    return B(_bdd_var(atom('lt0', (q,), 'bool')))


def _lt0_raw(p):
    from math import gcd
    dens = 1
    for m, k in p.t:
        dens = dens * k.denominator // gcd(dens, k.denominator)
    return B(_bdd_var(atom('lt0', (mul(dens, p),), 'bool')))


def _msb_rule(p):
    """x - 2^k < 0 with 0 <= x < 2^(k+1)   <=>  bit k of x is 0"""
    for sign in (1, -1):
        q = p if sign == 1 else sub(-1, p)      # q<0 or not(q<0)
        for m, c in q.t:
            if c < 0 and (not m or (len(m) == 1 and m[0].op == 'pow2')):
                e = pow2_exp(_mk({m: -c}))
                if e is None:
                    continue
                x = sub(q, _mk({m: c}))
                if x.const is not None or not prove_ge0(e):
                    continue
                if fits(x, add(e, 1)):
                    r = bnot_(tb(x, e))
                    return r if sign == 1 else bnot_(r)
    return None


def lt(a, b): return lt0(sub(a, b))
def le(a, b): return lt0(sub(sub(a, b), 1))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq0(p):
    p = P(p)
    return shannon_b(_eq0, p)


def _eq0(p):
    c = p.const
    if c is not None:
        return c == 0
    s = p.single()
    if s is not None and s.op == 'bitlen':
        return eq0(s.args[0])
    if prove_ge0(sub(p, 1)) or prove_ge0(sub(-1, p)):
        return False
    # x mod 2^e = x - 2^e * bit e   for x < 2^(e+1)
    mp = {}
    for m, k in p.t:
        for a in m:
            if a.op == 'wrap' and prove_ge0(a.args[1]) and fits(a.args[0], add(a.args[1], 1)):
                mp[a] = sub(a.args[0], mul(pow2(a.args[1]), ind(tb(a.args[0], a.args[1]))))
    if mp:
        q = P(0)
        for m, k in p.t:
            x = P(k)
            for a in m:
                x = mul(x, mp.get(a, P(a)))
            q = add(q, x)
        if q.const is not None:
            return q.const == 0
    from math import gcd
    dens = 1
    for m, k in p.t:
        dens = dens * k.denominator // gcd(dens, k.denominator)
    q = mul(dens, p)
    g = 0
    for m, k in q.t:
        g = gcd(g, int(k))
    if g > 1:
        q = mul(Fraction(1, g), q)
    if dens == 1:
        g = 0
        cst = 0
        for m, k in q.t:
            if m:
                g = gcd(g, int(k))
            else:
                cst = int(k)
        if g > 1 and cst % g:
            return False
    if q.t[-1][1] < 0:
        q = mul(-1, q)
    r = B(_bdd_var(atom('eq0', (q,), 'bool')))
    if len(q.t) == 2 and all(len(m) == 1 and m[0].op == 'hash' for m, k in q.t) and q.t[0][1] == -q.t[1][1]:
        e = _key_eq(q.t[0][0][0].args[0], q.t[1][0][0].args[0])
        if e is not False:
            return bor_(e, r)
    return r


def _key_eq(x, y):
    """equality of structural keys, as far as their parts allow"""
    if isinstance(x, (B, bool)) and isinstance(y, (B, bool)):
        return biff_(x, y)
    if isinstance(x, I) and isinstance(y, I):
        return eq(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        r = True
        for a, b in zip(x, y):
            r = band_(r, _key_eq(a, b))
            if r is False:
                return False
        return r
    return type(x) is type(y) and x == y


def eq(a, b): return eq0(sub(a, b))
def ne(a, b): return bnot_(eq(a, b))


def tb(x, i):
    """bit i of x (two's complement, i >= 0)"""
    return shannon_b(_tb, P(x), P(i))


def _tb(x, i):
    xc, ic = x.const, i.const
    if xc is not None:
        if xc == 0:
            return False
        if xc == -1:
            return True
        if ic is not None:
            return bool((int(xc) >> int(ic)) & 1)
    if _negform(x) or (xc is not None and xc < 0):
        return bnot_(tb(sub(-1, x), i))
    if fits(x, i):
        return False
    s = x.single()
    if s is not None:
        if s.op == 'wrap':
            if prove_ge0(sub(sub(s.args[1], 1), i)):
                return tb(s.args[0], i)
        elif s.op == 'fdiv':
            e = pow2_exp(s.args[1])
            if e is not None and prove_ge0(e):
                return tb(s.args[0], add(i, e))
        elif s.op == 'bw':
            tt, args = s.args[0], s.args[1:]
            bs = [tb(a, i) for a in args]
            return tt_bool(tt, bs)
        elif s.op == 'fromseq':
            body, n, v = s.args
            if prove_ge0(sub(sub(n, 1), i)) and prove_ge0(i):
                return subst(body, {v: i})
    e = pow2_exp(x)
    if e is not None:
        return eq(e, i)
    # 2^e - 1 mask
    e = pow2_exp(add(x, 1))
    if e is not None and prove_ge0(e):
        return lt(i, e)
    # the sign bit of a number in range
    if len(x.t) > 1 and any(c < 0 for _, c in x.t) and prove_ge0(add(x, pow2(i))) and prove_ge0(sub(sub(pow2(i), 1), x)):
        return lt0(x)
    # the parity of a sum
    if ic == 0 and (len(x.t) > 1 or len(x.t[0][0]) > 1) and all(c.denominator == 1 and _integral(m, Fraction(1)) and all(a.op != 'pow2' for a in m)
                                                               for m, c in x.t):
        r = False
        for m, c in x.t:
            if c % 2:
                q = True
                for a in m:
                    q = band_(q, tb(P(a), 0))
                r = bxor_(r, q)
        return r
    # multiples of 2^(i+1) do not reach bit i
    if len(x.t) > 1 and prove_ge0(i):
        keep = {m: c for m, c in x.t if not _divisible(m, c, add(i, 1))}
        if len(keep) < len(x.t):
            return tb(_mk(keep), i)
    # split x = a + 2^k*b  with a < 2^k
    if len(x.t) >= 1:
        for k in _pow_exps(x):
            whole, rest = {}, {}
            for m, c in x.t:
                (whole if _divisible(m, c, k) else rest)[m] = c
            if not whole:
                continue
            if k.const == 0:
                continue
            whole, rest = _mk(whole), _mk(rest)
            if rest.t and not fits(rest, k):
                continue
            if prove_ge0(sub(i, k)):
                return tb(mul(whole, pow2(mul(-1, k))), sub(i, k))
            if prove_ge0(sub(sub(k, 1), i)):
                return tb(rest, i)
    return B(_bdd_var(atom('tb', (x, i), 'bool')))


def _pow_exps(x):
    out = []
    for m, c in x.t:
        e = P(0)
        num, den = c.numerator, c.denominator
        if den & (den - 1):
            continue
        e = P((num & -num).bit_length() - 1 - (den.bit_length() - 1))
        has = e.const != 0
        for a in m:
            if a.op == 'pow2':
                e = add(e, a.args[0])
                has = True
        if has and e not in out:
            out.append(e)
    return out


def tt_bool(tt, bs):
    k = len(bs)
    if k == 0:
        return bool(tt & 1)
    half = _tt_cof(tt, k, k - 1, 1), _tt_cof(tt, k, k - 1, 0)
    return bite(bs[-1], tt_bool(half[0], bs[:-1]), tt_bool(half[1], bs[:-1]))


# ---------------------------------------------------------------- binders
_var_ctr = itertools.count()


def fresh_var():
    return atom('var', (next(_var_ctr),))


def depth_var(d):
    return atom('bv', (d,))


def occurs(t, a):
    return a in atoms_of(t)


_AO = {}


def atoms_of(t):
    """all atoms (deep)"""
    if isinstance(t, (bool, int, str, Fraction)) or t is None:
        return frozenset()
    k = ('B', t.n) if isinstance(t, B) else t
    try:
        r = _AO.get(k)
    except TypeError:
        return frozenset()
    if r is not None:
        return r
    s = set()
    if isinstance(t, I):
        for m, _ in t.t:
            for a in m:
                s |= atoms_of(a)
    elif isinstance(t, B):
        for a in bdd_support(t.n):
            s |= atoms_of(a)
    elif isinstance(t, Atom):
        s.add(t)
        for x in t.args:
            s |= atoms_of(x)
    elif isinstance(t, (tuple, list)):
        for x in t:
            s |= atoms_of(x)
    else:
        return frozenset()
    r = frozenset(s)
    _AO[k] = r
    return r


def fromseq(body, n, v):
    """sum over 0<=i<n of ind(body(i)) * 2^i ; v is the bound variable"""
    n = P(n)
    nc = n.const
    if body is True:
        return sub(pow2(n), 1)
    if body is False:
        return P(0)
    if nc is not None and nc <= 64:
        r = P(0)
        for i in range(int(nc)):
            r = add(r, mul(1 << i, ind(subst(body, {v: P(i)}))))
        return r
    vp = P(v)
    if not occurs(body, v):
        return mul(ind(body), sub(pow2(n), 1))
    # split on conditions independent of i
    sup = bdd_support(body.n)
    for a in sup:
        if not occurs(B(_bdd_var(a)), v):
            return iite(B(_bdd_var(a)), fromseq(mb(bdd_cofactor(body.n, a, True)), n, v),
                        fromseq(mb(bdd_cofactor(body.n, a, False)), n, v))
    # periodic body: conditions on i mod m over c*m positions
    for a in atoms_of(body):
        if a.op == 'fmod' and a.args[0] is vp and not occurs(a.args[1], v):
            mm = a.args[1]
            for cnt in range(2, 17):
                if sub(n, mul(cnt, mm)).const == 0:
                    w = fresh_var()
                    one = subst(subst(body, {a: P(w)}), {v: P(w)})
                    if occurs(one, v):
                        break
                    FACTS.bound(w, 0, sub(mm, 1))
                    q = fromseq(one, mm, w)
                    r = P(0)
                    for i in range(cnt):
                        r = add(r, mul(pow2(mul(i, mm)), q))
                    return r
            break
    # split on conditions i < m
    for a in sup:
        if a.op == 'lt0' and occurs(a, v):
            d = sub(a.args[0], vp)
            e = add(a.args[0], vp)
            if not occurs(d, v):
                m, first = mul(-1, d), True       # i < m
            elif not occurs(e, v):
                m, first = e, False               # e - i < 0 : i > e : i >= e+1
                m = add(e, 1)
            else:
                continue
            if not (prove_ge0(m) and prove_ge0(sub(n, m))):
                continue
            b1 = mb(bdd_cofactor(body.n, a, first))
            b2 = mb(bdd_cofactor(body.n, a, not first))
            return add(fromseq(b1, m, v), mul(pow2(m), fromseq(subst(b2, {v: add(vp, m)}), sub(n, m), v)))
    # boolean combination of tb(x, i+lo)
    dep = [a for a in sup if occurs(a, v)]
    if 0 < len(dep) <= 4 and all(a.op == 'tb' and not occurs(a.args[0], v)
                                 and not occurs(sub(a.args[1], vp), v) for a in dep):
        indep = [a for a in sup if not occurs(a, v)]
        if indep:
            a = indep[0]
            return iite(B(_bdd_var(a)), fromseq(mb(bdd_cofactor(body.n, a, True)), n, v),
                        fromseq(mb(bdd_cofactor(body.n, a, False)), n, v))
        tt = 0
        for row in range(1 << len(dep)):
            x = body.n
            for j, a in enumerate(dep):
                x = bdd_cofactor(x, a, bool((row >> j) & 1))
            if x == 1:
                tt |= 1 << row
        args = [wrap(shr(a.args[0], sub(a.args[1], vp)), n) for a in dep]
        return wrap(bw(tt, args), n)
    return P(atom('fromseq', (body, n, v)))


# ---------------------------------------------------------------- substitution / rebuild
def subst(t, mp, memo=None):
    """substitute atoms (by value terms) and renormalise"""
    if memo is None:
        memo = {}
    keys = mp.keys()

    def go(t):
        if isinstance(t, (bool, int, str, Fraction)) or t is None:
            return t
        ao = atoms_of(t)
        if not any(k in ao for k in keys):
            return t
        k = ('B', t.n) if isinstance(t, B) else t
        if k in memo:
            return memo[k]
        if isinstance(t, I):
            r = P(0)
            for m, c in t.t:
                x = P(c)
                for a in m:
                    x = mul(x, P(go_atom(a)))
                r = add(r, x)
        elif isinstance(t, B):
            r = mb(go_bdd(t.n))
        elif isinstance(t, Atom):
            r = go_atom(t)
        elif isinstance(t, tuple):
            r = tuple(go(x) for x in t)
        else:
            r = t
        memo[k] = r
        return r

    bmemo = {}

    def go_bdd(n):
        if n < 2:
            return n
        if n in bmemo:
            return bmemo[n]
        a, hi, lo = _N[n]
        v = go_atom(a)
        r = bdd_ite(nb(v if isinstance(v, (B, bool)) else B(_bdd_var(v))), go_bdd(hi), go_bdd(lo))
        bmemo[n] = r
        return r

    amemo = {}

    def go_atom(a):
        if a in mp:
            return mp[a]
        if a in amemo:
            return amemo[a]
        ao = atoms_of(a)
        if not any(k in ao for k in keys):
            r = a if a.sort not in ('bool',) else B(_bdd_var(a))
        elif a.op == 'ind':
            v = go_atom(a.args[0])
            r = ind(v if isinstance(v, (B, bool)) else B(_bdd_var(v)))
        elif a.op in ('fold', 'fromseq', 'bigex') and any(b in mp for b in _bound(a)):
            mp2 = {k: v for k, v in mp.items() if k not in _bound(a)}
            i = 0 if a.op == 'fold' else 1
            args = list(a.args)
            for j, x in enumerate(args):
                # the bound variables do not occur free in the number of elements
                args[j] = go(x) if j == i else subst(x, mp2)
            r = rebuild(a.op, tuple(args), a.sort)
        else:
            args = tuple(go(x) for x in a.args)
            r = rebuild(a.op, args, a.sort)
        amemo[a] = r
        return r

    return go(t)


def _bound(a):
    """variables a fold, sequence value or quantifier binds"""
    if a.op == 'fold':
        return (a.args[1],) + a.args[2]
    return (a.args[2],)


def _the_atom(x):
    if isinstance(x, I) and len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        return x.t[0][0][0]
    if isinstance(x, B) and _N[x.n][1:] == (1, 0):
        return _N[x.n][0]
    return x


def rebuild(op, args, sort):
    f = _CONS.get(op)
    if f is not None:
        return f(*args)
    if op == 'fold':
        args = (args[0], _the_atom(args[1]), tuple(_the_atom(x) for x in args[2])) + args[3:]
    a = atom(op, args, sort)
    if sort == 'bool':
        return B(_bdd_var(a))
    if sort == 'int':
        return P(a)
    return a


_CONS = {
    'pow2': pow2, 'wrap': wrap, 'fdiv': fdiv, 'fmod': fmod, 'tdiv': tdiv, 'trem': trem,
    'lt0': lt0, 'eq0': eq0, 'tb': tb, 'bitlen': bitlen,
    'bw': lambda tt, *args: bw(tt, list(args)),
    'fromseq': fromseq,
}


def simplify_under(t, guard):
    """renormalise t using what the guard implies"""
    g = nb(guard)
    if isinstance(t, B):
        t = mb(bdd_restrict(t.n, g))
        if isinstance(t, bool):
            return t
    lits = literals(g)
    with guard_facts(guard):
        if not isinstance(t, (I, B)):
            return t
        mp = {a: v for a, v in lits.items()}
        # eq0 literals give substitutions for single-atom equalities x - p == 0
        for a, v in lits.items():
            if a.op == 'eq0' and v:
                p = a.args[0]
                for m, c in reversed(p.t):
                    if len(m) == 1 and abs(c) == 1 and not m[0].args and m[0].op not in ('ind',):
                        rest = mul(Fraction(-1) / c, sub(p, _mk({m: c})))
                        if not occurs(rest, m[0]):
                            mp[m[0]] = rest
                            break
        t = subst(t, mp)
        return refresh(t)


def assume_false(p, b):
    """p with the boolean atom b (a single literal) set to false in its indicators"""
    a = _N[b.n][0]
    if _N[b.n][1:] != (1, 0):
        return p
    r = P(0)
    for m, c in p.t:
        x = P(c)
        for q in m:
            x = mul(x, ind(mb(bdd_cofactor(_bdd_var(q.args[0]) if isinstance(q.args[0], Atom) else nb(q.args[0]), a, False))) if q.op == 'ind' else P(q))
        r = add(r, x)
    return r


def refresh(t, memo=None):
    """rebuild t bottom-up under the current facts"""
    if memo is None:
        memo = {}

    def go(t):
        if isinstance(t, (bool, int, str, Fraction)) or t is None:
            return t
        k = ('B', t.n) if isinstance(t, B) else t
        try:
            if k in memo:
                return memo[k]
        except TypeError:
            return t
        if isinstance(t, I):
            r = P(0)
            for m, c in t.t:
                x = P(c)
                for a in m:
                    x = mul(x, P(go_atom(a)))
                r = add(r, x)
        elif isinstance(t, B):
            r = mb(go_bdd(t.n))
        elif isinstance(t, Atom):
            r = go_atom(t)
        elif isinstance(t, tuple):
            r = tuple(go(x) for x in t)
        else:
            r = t
        memo[k] = r
        return r
    bm = {}

    def go_bdd(n):
        if n < 2:
            return n
        if n not in bm:
            a, hi, lo = _N[n]
            v = go_atom(a)
            bm[n] = bdd_ite(nb(v if isinstance(v, (B, bool)) else B(_bdd_var(v))), go_bdd(hi), go_bdd(lo))
        return bm[n]
    am = {}

    def go_atom(a):
        if a in am:
            return am[a]
        if not a.args or a.op in ('var', 'bv', 'acc'):
            r = a if a.sort != 'bool' else B(_bdd_var(a))
        elif a.op == 'ind':
            v = go_atom(a.args[0])
            r = ind(v if isinstance(v, (B, bool)) else B(_bdd_var(v)))
        elif a.op == 'fromseq':
            r = P(a)
        else:
            r = rebuild(a.op, tuple(go(x) for x in a.args), a.sort)
        am[a] = r
        return r
    return go(t)


# ---------------------------------------------------------------- random interpretation
class EvalError(Exception):
    pass


class FreeVar(EvalError):
    pass


def _h(*xs):
    s = repr(xs)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=6).digest(), 'big')


class Eval:
    """random interpretation of value-graph nodes (Gulwani & Necula): leaf atoms are
    given values, uninterpreted functions become hashes."""
    strict = False

    def __init__(self, val, uf=None):
        self.val = dict(val)
        self.memo = {}
        self.uf = uf or {}

    def ev(self, t):
        if isinstance(t, bool) or isinstance(t, int):
            return t
        if isinstance(t, (str, Fraction)) or t is None:
            return t
        if isinstance(t, I):
            r = Fraction(0)
            for m, c in t.t:
                x = c
                if any(a.op == 'ind' and not self.atom(a) for a in m):
                    continue
                for a in m:
                    v = self.atom(a)
                    if isinstance(v, bool):
                        v = int(v)
                    if not isinstance(v, (int, Fraction)):
                        raise EvalError('non-int %r' % (a,))
                    x = x * v
                r += x
            return int(r) if r.denominator == 1 else r
        if isinstance(t, B):
            n = t.n
            while n > 1:
                a, hi, lo = _N[n]
                n = hi if self.atom(a) else lo
            return bool(n)
        if isinstance(t, Atom):
            return self.atom(t)
        if isinstance(t, tuple):
            return tuple(self.ev(x) for x in t)
        return repr(t)

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        if a in self.memo:
            return self.memo[a]
        r = self._atom(a)
        self.memo[a] = r
        return r

    def _small(self, p, n):
        """p modulo 2^n without the multiples of a 2^e with a huge e >= n"""
        keep = {}
        for m, c in p.t:
            if c.denominator == 1 and any(a.op == 'pow2' and self._int(a.args[0]) > 1 << 12 for a in m):
                big = [a for a in m if a.op == 'pow2' and self._int(a.args[0]) >= n]
                rest = [a for a in m if a.op != 'pow2']
                if big and all(self._int(a.args[0]) >= 0 for a in m if a.op == 'pow2') \
                        and all(isinstance(self.atom(a), int) for a in rest):
                    continue
            keep[m] = c
        return _mk(keep)

    def _int(self, t):
        v = self.ev(t)
        if isinstance(v, Fraction) or not isinstance(v, int):
            raise EvalError('non-integer')
        return int(v)

    def _atom(self, a):
        op = a.op
        A = a.args
        if op == 'ind':
            return int(bool(self.atom(A[0])))
        if op == 'pow2':
            e = self._int(A[0])
            if abs(e) > 1 << 18:
                raise EvalError('huge')
            return (1 << e) if e >= 0 else Fraction(1, 1 << -e)
        if op == 'wrap':
            n = self._int(A[1])
            if n < 0 or n > 1 << 18:
                raise EvalError('neg width')
            p = A[0]
            if len(p.t) <= 8:
                p = self._small(p, n)
            return self._int(p) % (1 << n)
        if op in ('fdiv', 'fmod'):
            e = pow2_exp(A[1])
            if e is not None:
                e = self._int(e)
                if e > 1 << 18:
                    p = self._int(A[0])
                    if p.bit_length() < 1 << 18:
                        if op == 'fdiv':
                            return -1 if p < 0 else 0
                        if p >= 0:
                            return p
        if op in ('fdiv', 'fmod', 'tdiv', 'trem'):
            p, q = self._int(A[0]), self._int(A[1])
            if q == 0:
                if self.strict:
                    raise EvalError('division by zero')
                return _h(op, p) % 1009       # a fixed total extension: such nodes only occur under a refuted guard
            if op == 'fdiv':
                return p // q
            if op == 'fmod':
                return p % q
            t = abs(p) // abs(q)
            if (p < 0) != (q < 0):
                t = -t
            return t if op == 'tdiv' else p - q * t
        if op == 'bw':
            return _bw_eval(A[0], [self._int(x) for x in A[1:]])
        if op == 'bitlen':
            return self._int(A[0]).bit_length()
        if op == 'lt0':
            return self.ev(A[0]) < 0
        if op == 'eq0':
            return self.ev(A[0]) == 0
        if op == 'tb':
            i = self._int(A[1])
            if i < 0:
                raise EvalError('neg bit')
            return bool((self._int(A[0]) >> i) & 1)
        if op == 'fromseq':
            n = self._int(A[1])
            if n > 2100:
                raise EvalError('huge')
            r = 0
            for i in range(n):
                e = type(self)(self.val, self.uf)
                e.val[A[2]] = i
                if e.ev(A[0]):
                    r |= 1 << i
            return r
        if op == 'fold':
            # fold(kind, n, ivar, names..., inits..., bodies..., which)
            n, iv, accs, inits, bodies, which = A
            n = self._int(n)
            if n > 2100:
                raise EvalError('huge')
            vals = [self.ev(x) for x in inits]
            for i in range(max(n, 0)):
                e = type(self)(self.val, self.uf)
                e.val[iv] = i
                for ac, v in zip(accs, vals):
                    e.val[ac] = v
                vals = [e.ev(b) for b in bodies]
            return vals[which]
        if op == 'bigex':
            # exists i<n. body
            body, n, v = A
            n = self._int(n)
            for i in range(n):
                e = type(self)(self.val, self.uf)
                e.val[v] = i
                if e.ev(body):
                    return True
            return False
        if op in ('var', 'bv'):
            raise FreeVar('free bound variable')
        # uninterpreted
        if self.strict:
            raise EvalError('uninterpreted')
        args = tuple(self.ev(x) for x in A)
        h = _h(op, args)
        if a.sort == 'bool':
            return bool(h & 1)
        if a.sort == 'int':
            return h % 257 - 128
        return 'u%d' % h


class StrictEval(Eval):
    """only what the interpretation determines has a value"""
    strict = True


def leaves(ts):
    out = set()
    for t in ts:
        for a in atoms_of(t):
            if not a.args and a.op not in ('var', 'bv'):
                out.add(a)
    return sorted(out, key=lambda a: a.id)
