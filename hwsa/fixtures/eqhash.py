"""equality, hashing, read-only dictionaries and typed properties of a client"""
from hwtypes import Bit, BitVector, SIntVector, UIntVector, Tuple, Product, Sum, TaggedUnion, Enum
from hwtypes.adt import AnonymousProduct
from hwtypes.util import FrozenDict, OrderedFrozenDict, TypedProperty, Method
from hwtypes.modifiers import make_modifier


class A:
    pass


class SubA(A):
    pass


class B0:
    pass


class E2(Enum):
    p = 0
    q = 1


class E2b(Enum):
    p = 0
    q = 1


class PI(Product):
    x = int
    y = int


class PJ(Product):
    x = int
    y = int


class PA(Product):
    x = A
    y = B0


class UI(TaggedUnion):
    l = int
    r = int
    b = Bit


class UA(TaggedUnion):
    x = A
    y = B0


class MyTuple(Tuple):
    pass


APX = AnonymousProduct[{'x': int, 'y': int}]
API = AnonymousProduct[{'u': int, 'v': int}]
TI = Tuple[int, int]
MTI = MyTuple[int, int]


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def agree(a, b, equal):
    """a == b exactly when `equal`, != is the negation, equal values hash alike, both ways round"""
    if equal:
        assert a == b and b == a, 'equal values compare unequal'
        assert not (a != b) and not (b != a), '!= is not the negation of =='
        assert hash(a) == hash(b), 'equal values have different hashes'
    else:
        assert not (a == b) and not (b == a), 'different values compare equal'
        assert a != b and b != a, '!= is not the negation of =='


def warm(v):
    """observe everything a value could remember, before it is assigned to"""
    hash(v)
    assert v == v and not (v != v)
    for k in v.value_dict:
        v.value_dict[k]


# ------------------------------------------------------------------ C11
def C11_tuple(i: 'int', j: 'int', k: 'int', l: 'int', K: 'each class:TI|class:MTI|class:PI|class:APX'):
    """adt.Tuple.__eq__: values of one type are equal exactly when their fields are, and hash alike then"""
    agree(K(i, j), K(k, l), i == k and j == l)
    assert K(i, j) == K(i, j) and hash(K(i, j)) == hash(K(i, j))


def C11_tuple_objects(a: 'A', c: 'A', b: 'B0', d: 'B0', s: 'bool', u: 'bool'):
    """adt.Tuple.__eq__: values of one type are equal exactly when their fields are, and hash alike then"""
    x, y = PA(a, b), PA(a if s else c, b if u else d)
    agree(x, y, s and u)
    T = Tuple[A, B0]
    agree(T(a, b), T(a if s else c, b if u else d), s and u)


def C11_tuple_types(i: 'int', j: 'int'):
    """adt.Tuple.__eq__: unrelated types are never equal, a subtype's values equal its structural type's, and hash alike"""
    agree(PI(i, j), PJ(i, j), False)
    agree(PI(i, j), API(i, j), False)
    agree(PI(i, j), APX(i, j), True)
    agree(PI(i, j), TI(i, j), True)
    agree(MTI(i, j), TI(i, j), True)
    agree(MTI(i, j), PI(i, j), False)
    assert not (TI(i, j) == (i, j)) and TI(i, j) != (i, j)
    assert not (TI(i, j) == None) and TI(i, j) != i


def C11_tuple_after_set(i: 'int', j: 'int', k: 'int', idx: 'each -2..1', K: 'each class:TI|class:PI'):
    """adt.Tuple.__setitem__: a value that was assigned to equals, and hashes like, one built with those fields"""
    t = K(i, j)
    warm(t)
    t[idx] = k
    w = K(i, k) if idx % 2 else K(k, j)
    agree(t, w, True)
    agree(K(i, j), t, i == k if idx % 2 == 0 else j == k)
    t = K(i, j)
    warm(t)
    t[idx] = t[idx]
    agree(t, K(i, j), True)


def C11_product_after_set(i: 'int', j: 'int', k: 'int'):
    """adt_meta.AnonymousProductMeta._namespace_from_idx: a value that was assigned to equals, and hashes like, one built with those fields"""
    t = PI(i, j)
    warm(t)
    t.y = k
    agree(t, PI(i, k), True)
    t.x = k
    agree(t, PI(k, k), True)
    assert t.value_dict["x"] == k and t.value_dict["y"] == k


def C11_nested(i: 'int', j: 'int', k: 'int', b: 'bool', c: 'bool'):
    """adt.Tuple.__eq__: equality and hashing are structural at every level"""
    T = Tuple[TI, Bit, E2]
    x = T(TI(i, j), Bit(b), E2.p)
    agree(x, T(TI(i, k), Bit(b), E2.p), j == k)
    agree(x, T(TI(i, j), Bit(b), E2.q), False)


def C11_nested_after_set(i: 'int', j: 'int', k: 'int', b: 'bool', c: 'bool'):
    """adt.Tuple.__setitem__: assignments inside a component show in the equality and the hash of the whole"""
    T = Tuple[TI, Bit]
    x = T(TI(i, j), Bit(b))
    warm(x)
    x[0][1] = k
    agree(x, T(TI(i, k), Bit(b)), True)
    warm(x)
    x[1] = Bit(c)
    agree(x, T(TI(i, k), Bit(c)), True)
    x[0] = TI(j, j)
    agree(x, T(TI(j, j), Bit(c)), True)


def C11_sum(i: 'int', j: 'int', b: 'bool'):
    """adt.Sum.__eq__: sums of one type are equal exactly when their values are, and hash alike then"""
    S = Sum[int, A, B0]
    agree(S(i), S(j), i == j)
    a = A()
    agree(S(a), S(a), True)
    agree(S(a), S(A()), False)
    agree(S(a), S(B0()), False)
    assert not (S(i) == i) and S(i) != i
    agree(S(a), Sum[A, B0](a), False)


def C11_sum_after_set(i: 'int', j: 'int'):
    """adt.Sum.__setitem__: a value that was assigned to equals, and hashes like, one built with that value"""
    S = Sum[int, A]
    s = S(A())
    warm(s)
    s[int] = j
    agree(s, S(j), True)
    s[int] = i
    agree(s, S(j), i == j)


def C11_union(i: 'int', j: 'int', f: 'each 0..1', g: 'each 0..1'):
    """adt.TaggedUnion.__eq__: unions are equal exactly when tag and value are, and hash alike then"""
    n = ('l', 'r')
    agree(UI(**{n[f]: i}), UI(**{n[g]: j}), f == g and i == j)


def C11_union_after_set(i: 'int', j: 'int', f: 'each 0..1', g: 'each 0..1'):
    """adt_meta.TaggedUnionMeta._from_fields: a value that was assigned to equals, and hashes like, one built with that tag"""
    n = ('l', 'r')
    u = UI(**{n[f]: i})
    warm(u)
    setattr(u, n[g], j)
    agree(u, UI(**{n[g]: j}), True)
    agree(u, UI(**{n[f]: i}), f == g and i == j)


def C11_union_sum(w: 'A|B0'):
    """adt.TaggedUnion.__hash__: a union that equals a sum hashes like it"""
    u = UA(x=w) if isinstance(w, A) else UA(y=w)
    s = Sum[A, B0](w)
    if u == s:
        assert hash(u) == hash(s)
    if s == u:
        assert hash(u) == hash(s)


def C11_symbolic(x: 'SMTBitVector[n]', y: 'SMTBitVector[n]', p: 'SMTBit', q: 'SMTBit'):
    """adt.TaggedUnion.__eq__: a value with symbolic contents is equal to another exactly when the contents are"""
    K, L = type(x), type(p)
    U = type(UI)('Q', (TaggedUnion,), {'l': K, 'r': K, 'b': L})
    S = Sum[K, L]
    for a, b, c in ((U(l=x), U(l=y), x == y), (U(r=y), U(r=x), y == x), (U(b=p), U(b=q), p == q), (S(x), S(y), x == y), (S(p), S(q), p == q)):
        e = a == b
        assert isinstance(e, type(p)) and den(e) == den(c), 'not the equality of the contents'
    assert (U(l=x) == U(r=x)) is False and (U(l=x) == U(b=p)) is False


def C11_enum():
    """adt.Enum.__eq__: enum values are equal exactly when they are the same member of the same enum"""
    agree(E2.p, E2.p, True)
    agree(E2.p, E2.q, False)
    agree(E2.p, E2b.p, False)
    assert not (E2.p == 0) and E2.p != 0 and E2.p != 'p'
    d = {E2.p: 5, E2.q: 6}
    assert d[E2.p] == 5 and d[E2.q] == 6


def C11_bit(b: 'bool', c: 'bool'):
    """bit_vector.Bit.__hash__: equal bits hash alike"""
    assert bool(Bit(b) == Bit(c)) == (b == c)
    if Bit(b) == Bit(c):
        assert hash(Bit(b)) == hash(Bit(c))
    assert hash(Bit(b)) == hash(Bit(Bit(b)))
    d = {Bit(0): 5, Bit(1): 6}
    assert d[Bit(False)] == 5 and d[Bit(True)] == 6


def C11_vector(n: 'size', k: 'int', K: 'each class:BitVector|class:SIntVector|class:UIntVector'):
    """bit_vector.BitVector.__hash__: equal vectors of one type hash alike"""
    a, b = K[n](k), K[n](k + 2 ** n)
    assert bool(a == b) and not bool(a != b)
    assert hash(a) == hash(b), 'equal vectors have different hashes'
    assert hash(K[n](a)) == hash(a)
    assert hash(~~a) == hash(a)


def C11_vector_eq(x: 'BitVector[n]', y: 'BitVector[n]'):
    """bit_vector.BitVector.__hash__: equal vectors of one type hash alike"""
    if x == y:
        assert x.as_uint() == y.as_uint()
        assert hash(x) == hash(y), 'equal vectors have different hashes'
    else:
        assert x.as_uint() != y.as_uint()


def C11_vector_after_set(x: 'BitVector[4]', i: 'each 0..3'):
    """bit_vector.BitVector.__hash__: a vector whose bits were assigned hashes like an equal one"""
    y = type(x)(x)
    hash(y)
    y[i] = 1
    z = x | (1 << i)
    assert bool(y == z) and hash(y) == hash(z)


def C11_modified(i: 'int', j: 'int'):
    """adt.Tuple.__eq__: values of modified types compare and hash like their fields"""
    M = make_modifier('M')
    agree(M(TI)(i, j), M(TI)(i, j), True)
    agree(M(TI)(i, j), TI(i, j), True)


def C11_frozen(i: 'int', j: 'int', K: 'each class:FrozenDict|class:OrderedFrozenDict', L: 'each class:FrozenDict|class:OrderedFrozenDict'):
    """util.FrozenDict.__eq__: read-only dictionaries are equal exactly when their items are, whatever the order, and hash alike then"""
    a = K([('x', i), ('y', j)])
    agree(a, L([('x', i), ('y', j)]), True)
    if K is FrozenDict or L is FrozenDict:
        agree(a, L([('y', j), ('x', i)]), True)
    else:
        b = L([('y', j), ('x', i)])
        if a == b:
            assert hash(a) == hash(b)
    agree(a, L([('x', i)]), False)
    agree(a, L([('x', i), ('y', j), ('z', j)]), False)
    agree(a, L([('x', i), ('z', j)]), False)
    if i != j:
        agree(a, L([('x', j), ('y', i)]), False)
    assert a == {'x': i, 'y': j} and not (a != {'x': i, 'y': j})
    assert not (a == {'x': i}) and a != {'x': i}


def C11_frozen_access(i: 'int', j: 'int', K: 'each class:FrozenDict|class:OrderedFrozenDict'):
    """util.FrozenDict.__getitem__: a read-only dictionary reads like a dictionary, in order of insertion, and can not be changed"""
    a = K([('x', i), ('y', j), ('a', i)])
    assert a['x'] == i and a['y'] == j and a['a'] == i and len(a) == 3
    assert list(a) == ['x', 'y', 'a'] and list(a.keys()) == ['x', 'y', 'a']
    assert 'x' in a and 'q' not in a
    assert raises(KeyError, lambda: a['q'])
    assert a.get('q') is None and a.get('x') == i
    assert raises(TypeError, lambda: a.__setitem__('x', 0) if hasattr(a, '__setitem__') else setitem(a))
    assert K() == {} and len(K()) == 0
    assert K(x=i) == K({'x': i})
    src = {'x': i}
    f = K(src)
    src['x'] = i + 1
    assert f['x'] == i, 'changes with the dictionary it was made from'


def setitem(a):
    a['x'] = 0


# ------------------------------------------------------------------ C33
class H:
    def __init__(self, v):
        self.v = v
        self.log = 0

    @TypedProperty(A)
    def foo(self):
        return self.v

    @foo.setter
    def foo(self, v):
        self.v = v
        self.log = self.log + 1

    @foo.deleter
    def foo(self):
        self.v = None

    @TypedProperty(B0)
    def ro(self):
        return self.v

    def wo(self, v):
        self.v = v
    wo = TypedProperty(A)().setter(wo)


class H2(H):
    pass


def C33_get(v: 'A|SubA|B0', K: 'each class:H|class:H2'):
    """util.TypedProperty.__get__: on an instance the getter's value, on the class the declared type"""
    h = K(v)
    assert h.foo is v and h.ro is v
    assert K.foo is A and K.ro is B0
    assert raises(AttributeError, lambda: h.wo)


def C33_set(v: 'A|SubA|B0|int|None', K: 'each class:H|class:H2'):
    """util.TypedProperty.__set__: assignment needs a setter and a value of the declared type"""
    o = A()
    h = K(o)
    try:
        h.foo = v
    except TypeError:
        assert not isinstance(v, A), 'rejects a value of the declared type'
        assert h.v is o and h.log == 0
        return
    assert isinstance(v, A), 'accepts a value of another type'
    assert h.v is v and h.foo is v and h.log == 1
    assert raises(AttributeError, lambda: setattr(h, 'ro', B0()))
    assert raises(AttributeError, lambda: setattr(h, 'ro', v))
    h.wo = o
    assert h.v is o


def C33_delete():
    """util.TypedProperty.__delete__: deletion needs a deleter"""
    h = H(A())
    del h.foo
    assert h.v is None
    assert raises(AttributeError, lambda: delattr(h, 'ro'))


def C33_decorators():
    """util.TypedProperty.setter: getter, setter and deleter give a new property of the same type with one function replaced"""
    def f(self):
        return 1

    def g(self, v):
        pass

    def d(self):
        pass
    p = TypedProperty(A)(f)
    q = p.setter(g)
    r = q.deleter(d)
    s = r.getter(d)
    assert p.fget is f and p.fset is None and p.fdel is None and p.T is A
    assert q is not p and q.fget is f and q.fset is g and q.fdel is None and q.T is A
    assert r is not q and r.fget is f and r.fset is g and r.fdel is d and r.T is A
    assert s.fget is d and s.fset is g and s.fdel is d and s.T is A
    assert q.fdel is None and p.fset is None
    def h(self):
        'what h does'
        return 1

    def k(self, v=None):
        'what k does'
    p = TypedProperty(A)(h)
    assert p.__doc__ == 'what h does'
    for q in (p.setter(k), p.deleter(k), p.setter(k).deleter(k), p.deleter(g).setter(k), p.getter(k), p.setter(g).getter(f)):
        assert q.__doc__ == 'what h does', 'the documentation was lost'
    assert TypedProperty(A)(h, doc='').__doc__ == '' and TypedProperty(A)(f).__doc__ is None
    assert TypedProperty(A)(h, doc='other').__doc__ == 'other' and TypedProperty(A)(h, doc='other').setter(k).__doc__ == 'other'
    for order in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        p = TypedProperty(B0)()
        for k in order:
            if k == 0:
                p = p.getter(f)
            elif k == 1:
                p = p.setter(g)
            else:
                p = p.deleter(d)
        assert p.fget is f and p.fset is g and p.fdel is d and p.T is B0, 'a function was lost'
    t = TypedProperty(A)(f, g, d)
    assert t.getter(d).fset is g and t.getter(d).fdel is d and t.setter(f).fget is f and t.setter(f).fdel is d
    assert t.deleter(f).fget is f and t.deleter(f).fset is g and t.fget is f and t.fset is g and t.fdel is d


def C33_set_falsy(v: 'bool', k: 'int'):
    """util.TypedProperty.__set__: falsy values are values"""
    class K:
        def __init__(self):
            self.v = None

        @TypedProperty(int)
        def foo(self):
            return self.v

        @foo.setter
        def foo(self, v):
            self.v = v
    x = K()
    x.foo = k
    assert x.foo == k
    x.foo = v
    assert x.foo == v
    for w in (None, '', (), NotImplemented):
        assert raises(TypeError, lambda: setattr(x, 'foo', w))
    assert x.foo == v and K.foo is int


def C33_names(k: 'each 0..5', v: 'A|B0'):
    """util.TypedProperty.__get__: the attribute's name does not matter"""
    n = ('_p', '__q', 'Value', 'T', 'x_', '_y_')[k]

    def f(self):
        return self.v

    def g(self, w):
        self.v = w
    K = type('K', (), {n: TypedProperty(A)(f, g)})
    L = type('L', (K,), {})
    for C in (K, L):
        assert getattr(C, n) is A, 'not the declared type'
        o, w = C(), A()
        setattr(o, n, w)
        assert getattr(o, n) is w
        assert isinstance(v, A) or raises(TypeError, lambda: setattr(o, n, v))
        assert getattr(o, n) is w


def C33_method():
    """util.Method.__get__: a Method binds like a function and takes its attribute's name"""
    def f(self, x):
        return (self, x)

    class K:
        m = Method(f)
    k = K()
    r = k.m(3)
    assert r[0] is k and r[1] == 3
    assert K.m is f
    assert f.__name__ == 'm'

    def g(self):
        return self

    def h(self):
        return None

    gg = Method(g)

    class L:
        g = h
        n = gg
    assert L.n.__name__ == 'n' and L().n() is not None and L.n is g

    class N(L):
        o = Method(lambda self: self)
    x = N()
    assert x.o() is x and x.n() is x and N.o.__name__ == 'o' and Method(g)(x) is x
