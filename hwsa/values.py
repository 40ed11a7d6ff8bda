"""Abstract values of the value-flow analysis."""
import itertools
from . import terms as T
from .terms import I, B, P

_oid = itertools.count(1)


class Unsupported(Exception):
    """the analysis has no rule for a construct: the obligation is UNDECIDED"""


class Dead(Exception):
    """the current abstract state is unreachable (returned / raised / broke out)"""


class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


UNBOUND = _S('<unbound>')
ABSENT = _S('<absent>')


class V:
    __slots__ = ()


class Heapy(V):
    """value with a heap record"""
    __slots__ = ('oid', '__weakref__')

    def __init__(self):
        self.oid = next(_oid)


class Inst(Heapy):
    __slots__ = ('cls', 'tag')

    def __init__(self, cls, tag=None):
        Heapy.__init__(self)
        self.cls = cls
        self.tag = tag

    def __repr__(self):
        return '<%s%s>' % (self.cls.name, ' ' + self.tag if self.tag else '')


class ListV(Heapy):      # heap: {'items': tuple | SymSeq}
    __slots__ = ('kind',)

    def __init__(self, kind='list'):
        Heapy.__init__(self)
        self.kind = kind    # list | set | frozenset

    def __repr__(self): return '<%s>' % self.kind


class DictV(Heapy):      # heap: {'items': tuple of (k, v)}
    __slots__ = ('kind', 'cls')

    def __init__(self, kind='dict'):
        Heapy.__init__(self)
        self.kind = kind     # dict | odict | proxy | weakval | weakkey | default

    def __repr__(self): return '<%s>' % self.kind


class IterV(Heapy):      # heap: {'items': tuple, 'pos': int}
    __slots__ = ('kind',)

    def __init__(self, kind='iterator'):
        Heapy.__init__(self)
        self.kind = kind


class CountV(Heapy):
    __slots__ = ()


class ClassV(Heapy):
    """heap record = class namespace (own attributes)"""
    __slots__ = ('name', 'bases', 'mro', 'meta', 'builtin', 'qualname', 'node', 'module')

    def __init__(self, name, bases, meta, builtin=None):
        Heapy.__init__(self)
        self.name = name
        self.bases = tuple(bases)
        self.meta = meta
        self.builtin = builtin
        self.node = None
        self.module = None
        self.mro = None

    def __repr__(self): return '<class %s>' % (self.name,)


class FuncV(Heapy):
    __slots__ = ('node', 'env', 'name', 'defaults', 'kwdefaults', 'abstract', 'cls', 'module', 'isgen', 'locals_', 'qual')

    def __init__(self, node, env, name, module):
        Heapy.__init__(self)
        self.node = node
        self.env = env
        self.name = name
        self.module = module
        self.defaults = ()
        self.kwdefaults = {}
        self.abstract = False
        self.cls = None

    def __repr__(self): return '<fn %s:%s>' % (self.module, self.name)


class Builtin(V):
    __slots__ = ('name', 'fn', 'lift', 'attrs')

    def __init__(self, name, fn, lift=False, attrs=None):
        self.attrs = attrs
        self.name = name
        self.fn = fn
        self.lift = lift

    def __repr__(self): return '<builtin %s>' % self.name


class BoundM(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self): return '<bound %r of %r>' % (self.fn, self.self)


class PropV(V):
    __slots__ = ('fget', 'fset', 'fdel', 'abstract')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticV(V):
    __slots__ = ('fn',)

    def __init__(self, fn): self.fn = fn


class ClassMV(V):
    __slots__ = ('fn',)

    def __init__(self, fn): self.fn = fn


class SuperV(V):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class ModuleV(Heapy):
    __slots__ = ('name', 'attrs')

    def __init__(self, name, attrs=None):
        Heapy.__init__(self)
        self.name = name
        self.attrs = attrs       # external module: python dict or callable(name)

    def __repr__(self): return '<module %s>' % self.name


class SliceV(V):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, a, b, c): self.start, self.stop, self.step = a, b, c


class SymSeq(V):
    """immutable sequence of symbolic length: get(i: I) -> value"""
    __slots__ = ('n', 'get', 'kind')

    def __init__(self, n, get, kind='list'):
        self.n = P(n)
        self.get = get
        self.kind = kind

    def __repr__(self): return '<symseq len %r>' % (self.n,)


class FiltSeq(V):
    """the selected elements of a sequence of symbolic length: get(i) -> (kept, value)"""
    __slots__ = ('n', 'get', 'pairs')

    def __init__(self, n, get, pairs=None):
        self.n = P(n)
        self.get = get
        self.pairs = pairs      # (kept, value) of every element when their number is known


class FStr(V):
    """symbolic string: concatenation of parts (str or ('fmt', value))"""
    __slots__ = ('parts',)

    def __init__(self, parts): self.parts = tuple(parts)

    def __repr__(self): return 'f%r' % (self.parts,)


class SymStr(V):
    """''.join of a symbolic sequence of strings"""
    __slots__ = ('sep', 'seq', 'pre')

    def __init__(self, sep, seq, pre=''): self.sep, self.seq, self.pre = sep, seq, pre


class SNode(V):
    """an expression object of pysmt / z3: sort plus denotation"""
    __slots__ = ('fam', 'sort', 'den', 'w')

    def __init__(self, fam, sort, den, w=None):
        self.fam, self.sort, self.den, self.w = fam, sort, den, (P(w) if w is not None else None)

    def __repr__(self):
        return '<%s %s%s %r>' % (self.fam, self.sort, '' if self.w is None else '[%r]' % self.w, self.den)


class SType(V):
    """pysmt/z3 sort object"""
    __slots__ = ('fam', 'sort', 'w')

    def __init__(self, fam, sort, w=None):
        self.fam, self.sort, self.w = fam, sort, (P(w) if w is not None else None)

    def __repr__(self): return '<sort %s %r>' % (self.sort, self.w)


class Opaque(V):
    """an object the analysis knows only by name and class"""
    __slots__ = ('name', 'cls', 'attrs')

    def __init__(self, name, cls, attrs=None):
        self.name, self.cls, self.attrs = name, cls, attrs or {}

    def __repr__(self): return '<opaque %s>' % self.name


class UF(V):
    """uninterpreted result: op applied to values (gmpy2 numbers, etc.)"""
    __slots__ = ('op', 'args', 'cls')

    def __init__(self, op, args, cls=None):
        self.op, self.args, self.cls = op, tuple(args), cls

    def __repr__(self): return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Poison(V):
    """a module or class variable whose definition is not modelled; every use is undecided"""
    __slots__ = ('why',)

    def __init__(self, why): self.why = why

    def __repr__(self): return '<not modelled: %s>' % self.why


class Choice(V):
    """gamma node: mutually exclusive guarded alternatives"""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = tuple(alts)

    def __repr__(self): return '<choice %s>' % ('; '.join('%r -> %r' % a for a in self.alts))


class Env(Heapy):
    """scope; heap record = variables"""
    __slots__ = ('parent', 'kind', 'module', 'names', 'globs', 'func', 'cellcls')

    def __init__(self, parent, kind, module, names=None, globs=None):
        Heapy.__init__(self)
        self.parent = parent
        self.kind = kind          # module | function | class
        self.module = module
        self.names = names        # function: set of local names
        self.globs = globs
        self.func = None
        self.cellcls = None


def is_int(v):
    return isinstance(v, I) or (isinstance(v, int) and not isinstance(v, bool))


def is_bool(v):
    return isinstance(v, (bool, B))


def is_num(v):
    return isinstance(v, (I, B, int))


def identical(a, b):
    if a is b:
        return True
    ta, tb_ = type(a), type(b)
    if ta is I and isinstance(b, int) and not isinstance(b, bool):
        return a is P(b)
    if tb_ is I and isinstance(a, int) and not isinstance(a, bool):
        return b is P(a)
    if ta is not tb_:
        return False
    if ta in (int, str, bool, float, bytes):
        return a == b
    if ta is tuple:
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if ta is SNode:
        return a.fam == b.fam and a.sort == b.sort and identical(a.den, b.den) and a.w is b.w
    if ta is SType:
        return a.fam == b.fam and a.sort == b.sort and a.w is b.w
    if ta is BoundM:
        return a.fn is b.fn and identical(a.self, b.self)
    if ta is Choice:
        return len(a.alts) == len(b.alts) and all(x[0] is y[0] and identical(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if ta is FStr:
        return identical(a.parts, b.parts)
    if ta is UF:
        return a.op == b.op and a.cls is b.cls and identical(a.args, b.args)
    if ta is SliceV:
        return identical((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if ta is SuperV:
        return a.cls is b.cls and identical(a.obj, b.obj)
    if ta is StaticV or ta is ClassMV:
        return a.fn is b.fn
    if ta is SymSeq:
        if a.kind != b.kind or a.n is not b.n:
            return False
        v = P(T.depth_var(7))
        try:
            return identical(a.get(v), b.get(v))
        except Exception:
            return False
    if ta is SymStr:
        return a.sep == b.sep and identical(a.seq, b.seq) and a.pre == b.pre
    return False


def mkchoice(alts):
    """alts: [(guard bool/B, value)] mutually exclusive and (relatively) exhaustive"""
    flat = []
    for g, v in alts:
        if g is False:
            continue
        if isinstance(v, Choice):
            for g2, v2 in v.alts:
                gg = T.band_(g, g2)
                if gg is not False:
                    flat.append((gg, v2))
        else:
            flat.append((g, v))
    out = []
    for g, v in flat:
        for k, (g2, v2) in enumerate(out):
            if identical(v, v2):
                out[k] = (T.bor_(g, g2), v2)
                break
        else:
            out.append((g, v))
    if not out:
        raise Unsupported('empty choice')
    if len(out) == 1:
        return out[0][1]
    vs = [v for _, v in out]
    if all(is_bool(v) for v in vs):
        r = vs[-1]
        for g, v in out[:-1]:
            r = T.bite(g, v, r)
        return r
    if all(is_int(v) for v in vs):
        r = P(vs[-1])
        for g, v in out[:-1]:
            r = T.iite(g, v, r)
        return norm_int(r)
    if all(isinstance(v, SNode) for v in vs) and len({(v.fam, v.sort, v.w) for v in vs}) == 1:
        r = vs[-1].den
        for g, v in out[:-1]:
            r = T.bite(g, v.den, r) if v.sort == 'bool' else T.iite(g, v.den, r)
        return SNode(vs[0].fam, vs[0].sort, r, vs[0].w)
    if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        return tuple(mkchoice([(g, v[k]) for g, v in out]) for k in range(len(vs[0])))
    return Choice(out)


def norm_int(p):
    """I with constant value -> python int"""
    if isinstance(p, I):
        c = p.const
        if c is not None and c == int(c):
            return int(c)
    return p
