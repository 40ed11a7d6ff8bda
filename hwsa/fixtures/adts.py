"""algebraic data types and field types of a client"""
from hwtypes import Bit, BitVector, Tuple, Product, Sum, TaggedUnion, Enum, SIntVector, UIntVector
from hwtypes import SMTBit, SMTBitVector, SMTSIntVector
from hwtypes.adt import new_instruction, AnonymousProduct
from hwtypes.adt_meta import ReservedNameError


class A:
    pass


class SubA(A):
    pass


class B0:
    pass


class C0:
    pass


class P2(Product):
    x = A
    y = B0


class P2s(Product):
    y = B0
    x = A


class P3(Product):
    a = A
    b = A
    c = B0


class P1(Product):
    only = A


class U2(TaggedUnion):
    x = A
    y = B0


class U3(TaggedUnion):
    l = A
    r = A
    o = B0


class E3(Enum):
    p = 0
    q = 1
    r = 5


class E2(Enum):
    p = 0
    q = 1


class Auto2(Enum):
    s = new_instruction()
    t = new_instruction()


class Auto3(Enum):
    s = new_instruction()
    t = new_instruction()
    u = new_instruction()


class E3b(Enum):
    p = 2
    q = 7
    r = 1


class BV4P(Product):
    i = BitVector[4]
    b = Bit


class Nest(Product):
    inner = P2
    e = E3
    t = Tuple[A, Bit]
    s = Sum[A, B0]
    u = U2


class U4(TaggedUnion):
    z = A
    a = A
    m = A
    b = A


class EP(Product):
    e = E3
    d = E2


class EU(TaggedUnion):
    a = E2
    b = E2
    c = E3


class NE(Product):
    u = EU
    e = E2


TAB = Tuple[A, B0]
SumAB = Sum[A, B0]


class PI(Product):
    i = int
    b = Bit
    v = BitVector[4]


class UI(TaggedUnion):
    i = int
    j = int
    b = Bit
    v = BitVector[4]


def mk_bad1():
    class Bad(P2, P3):
        pass
    return Bad


def mk_bad2():
    class Bad(Tuple[A], Tuple[B0]):
        pass
    return Bad


class MyTuple(Tuple):
    pass


class MySum(Sum):
    pass


def mk_product(cache=True):
    class Local(Product, cache=cache):
        x = A
        y = B0
    return Local


def mk_product_swapped():
    class Local(Product):
        y = B0
        x = A
    return Local


def mk_product_other():
    class Local(Product):
        x = A
        y = C0
    return Local


def mk_union():
    class LocalU(TaggedUnion):
        x = A
        y = B0
    return LocalU


def mk_union_swapped():
    class LocalU(TaggedUnion):
        y = B0
        x = A
    return LocalU


def mk_union_other():
    class LocalU(TaggedUnion):
        x = A
        z = B0
    return LocalU


def mk_enum():
    class LocalE(Enum):
        a = 0
        b = 1
    return LocalE


def mk_enum_other():
    class LocalE(Enum):
        a = 0
        b = 2
    return LocalE


# ------------------------------------------------------------------ helpers
def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def same(x, y):
    """identical sequences"""
    x, y = tuple(x), tuple(y)
    return len(x) == len(y) and all(a is b for a, b in zip(x, y))


AP2 = AnonymousProduct[{'x': A, 'y': B0}]


# ------------------------------------------------------------------ C19
def C19_tuple_new(v: 'A|SubA|B0|C0|int|None', w: 'A|SubA|B0|C0|bool'):
    """adt.Tuple.__init__: construction stores exactly the given values, of the declared types"""
    T = Tuple[A, B0]
    ok = isinstance(v, A) and isinstance(w, B0)
    try:
        t = T(v, w)
    except TypeError:
        assert not ok, 'rejects values of the declared types'
        return
    assert ok, 'accepts a value of another type'
    assert type(t) is T
    assert t[0] is v and t[1] is w, 'stores other values'
    assert t[-1] is w


def C19_tuple_arity(v: 'A', w: 'B0'):
    """adt.Tuple.__init__: the number of values must be the number of fields"""
    T = Tuple[A, B0]
    assert raises(ValueError, lambda: T())
    assert raises(ValueError, lambda: T(v))
    assert raises(ValueError, lambda: T(v, w, w))


def warm(v):
    """observe everything a value could remember, before it is assigned to"""
    assert v == v and not (v != v)
    for k in v.value_dict:
        v.value_dict[k]


def C19_tuple_set(i: 'each -4..4', v: 'A|SubA|B0|C0|int|None'):
    """adt.Tuple.__setitem__: assignment replaces exactly the addressed field, by a value of its type"""
    T = Tuple[A, B0, A]
    a, b, c = A(), B0(), SubA()
    t = T(a, b, c)
    warm(t)
    try:
        t[i] = v
    except (TypeError, IndexError):
        assert t[0] is a and t[1] is b and t[2] is c, 'a rejected assignment changed the value'
        assert i < -3 or i > 2 or not isinstance(v, T.fields[i]), 'rejects a value of the declared type'
        return
    assert -3 <= i <= 2
    assert isinstance(v, T.fields[i]), 'accepts a value of another type'
    j = i + 3 if i < 0 else i
    assert t[0] is (v if j == 0 else a)
    assert t[1] is (v if j == 1 else b)
    assert t[2] is (v if j == 2 else c)
    assert t[-3] is t[0] and t[-2] is t[1] and t[-1] is t[2], 'the assignment added or removed entries'
    assert raises(IndexError, lambda: t[3]) and raises(IndexError, lambda: t[-4])
    assert t == T(t[0], t[1], t[2]) and len(t.value_dict) == 3


def C19_tuple_set_slice_bits(n: 'each 2..3', P: 'each 0..1'):
    """adt.Tuple.__setitem__: an iterable value of a member's type is not spread over a slice"""
    T = Tuple[BitVector[2], Tuple[Bit, Bit]]
    a, b = BitVector[2](1), Tuple[Bit, Bit](Bit(0), Bit(1))
    t = T(a, b)
    w = BitVector[2](2) if P else Tuple[Bit, Bit](Bit(1), Bit(1))
    assert raises(TypeError, lambda: t.__setitem__(slice(0, n), w))
    assert raises(TypeError, lambda: t.__setitem__(slice(None, None), w))
    assert t[0] is a and t[1] is b


def C19_tuple_set_slice(v: 'A|B0', w: 'A|B0', P: 'each class:P2|class:AP2|class:TAB'):
    """adt.Tuple.__setitem__: a slice can not be assigned"""
    t = P(A(), B0())
    a, b = t[0], t[1]
    assert raises(TypeError, lambda: t.__setitem__(slice(0, 2), (v, w)))
    assert raises(TypeError, lambda: t.__setitem__(slice(None), [v]))
    assert t[0] is a and t[1] is b


def C19_tuple_index_out_of_range(i: 'each -4..-3|2..4'):
    """adt.Tuple.__getitem__: an index out of range raises IndexError"""
    t = Tuple[A, B0](A(), B0())
    assert raises(IndexError, lambda: t[i])


def C19_tuple_infer(v: 'A|SubA|B0|C0', w: 'A|SubA|B0|C0'):
    """adt.Tuple.__new__: an unbound Tuple is bound to the types of its values"""
    t = Tuple(v, w)
    assert type(t) is Tuple[type(v), type(w)]
    assert t[0] is v and t[1] is w


def C19_empty_tuple():
    """adt.Tuple.__new__: the empty tuple"""
    t = Tuple[()]()
    assert type(t) is Tuple[()]
    assert raises(ValueError, lambda: Tuple[()](1))


def C19_product_new(v: 'A|SubA|B0|C0|int|None', w: 'A|SubA|B0|C0|bool', P: 'each class:P2|class:AP2', how: 'each 0..3'):
    """adt.AnonymousProduct: construction by position and by name stores the given values, of the declared types"""
    ok = isinstance(v, A) and isinstance(w, B0)
    try:
        if how == 0:
            t = P(v, w)
        elif how == 1:
            t = P(x=v, y=w)
        elif how == 2:
            t = P(y=w, x=v)
        else:
            t = P(v, y=w)
    except TypeError:
        assert not ok, 'rejects values of the declared types'
        return
    assert ok, 'accepts a value of another type'
    assert type(t) is P
    assert t.x is v and t.y is w, 'stores other values'
    assert t[0] is v and t[1] is w, 'field order'


def C19_product_arity(P: 'each class:P2|class:AP2'):
    """adt_meta.AnonymousProductMeta._from_idx: missing, extra and unknown fields are rejected"""
    assert raises(TypeError, lambda: P(A()))
    assert raises(TypeError, lambda: P(A(), B0(), B0()))
    assert raises(TypeError, lambda: P(x=A()))
    assert raises(TypeError, lambda: P(x=A(), y=B0(), z=B0()))
    assert raises(TypeError, lambda: P(A(), z=B0()))
    assert raises(TypeError, lambda: P())


def C19_product_set(f: 'each 0..2', v: 'A|SubA|B0|C0|int|None'):
    """adt_meta.AnonymousProductMeta._namespace_from_idx: attribute assignment replaces exactly that field, by a value of its type"""
    a, b, c = A(), SubA(), B0()
    t = P3(a, b, c)
    warm(t)
    name = ('a', 'b', 'c')[f]
    F = (A, A, B0)[f]
    try:
        setattr(t, name, v)
    except TypeError:
        assert not isinstance(v, F), 'rejects a value of the declared type'
        assert t.a is a and t.b is b and t.c is c, 'a rejected assignment changed the value'
        return
    assert isinstance(v, F), 'accepts a value of another type'
    assert t.a is (v if f == 0 else a)
    assert t.b is (v if f == 1 else b)
    assert t.c is (v if f == 2 else c)
    assert t[0] is t.a and t[1] is t.b and t[2] is t.c


def C19_product_index_alias(i: 'each 0..2', v: 'A|SubA|B0|C0'):
    """adt.Tuple.__setitem__: fields assigned by index are those read by name"""
    t = P3(A(), A(), B0())
    F = (A, A, B0)[i]
    if isinstance(v, F):
        t[i] = v
        assert getattr(t, ('a', 'b', 'c')[i]) is v
    else:
        assert raises(TypeError, lambda: t.__setitem__(i, v))


def C19_sum_new(v: 'A|SubA|B0|C0|int|None'):
    """adt.Sum.__init__: a sum holds a value whose type is a member"""
    S = Sum[A, B0]
    ok = type(v) is A or type(v) is B0
    try:
        s = S(v)
    except TypeError:
        assert not ok, 'rejects a value of a member type'
        return
    assert ok, 'accepts a value of another type'
    assert s[type(v)].value is v


def C19_sum_set(T: 'class:A|B0|C0|SubA', v: 'A|SubA|B0|C0|int|None', o: 'A|B0'):
    """adt.Sum.__setitem__: assignment needs a member type and a value of it"""
    s = Sum[A, B0](o)
    warm(s)
    ok = (T is A or T is B0) and isinstance(v, T)
    try:
        s[T] = v
    except TypeError:
        assert not ok, 'rejects a value of a member type'
        assert s[A].match is isinstance(o, A)
        assert s[type(o)].value is o, 'a rejected assignment changed the value'
        return
    assert ok, 'accepts a value of another type'
    assert s[T].match and s[T].value is v


def C19_union_new(f: 'each 0..3', v: 'A|SubA|B0|C0|int'):
    """adt.TaggedUnion.__init__: a union holds a value of the type of its tag"""
    n = ('l', 'r', 'o', 'nosuch')[f]
    F = (A, A, B0, C0)[f]
    try:
        u = U3(**{n: v})
    except TypeError:
        assert f != 3 and not isinstance(v, F), 'rejects a value of the declared type'
        return
    except ValueError:
        assert f == 3, 'rejects a declared tag'
        return
    assert f != 3, 'accepts an unknown tag'
    assert isinstance(v, F), 'accepts a value of another type'
    assert getattr(u, n).match and getattr(u, n).value is v


def C19_union_arity(v: 'A', w: 'B0'):
    """adt.TaggedUnion.__init__: exactly one tag is given"""
    assert raises(ValueError, lambda: U3())
    assert raises(ValueError, lambda: U3(l=v, o=w))
    assert raises(ValueError, lambda: U3(l=v, r=v))
    assert raises(ValueError, lambda: U3(l=v, o=None))
    assert raises(ValueError, lambda: U3(l=None, r=v))
    assert raises(ValueError, lambda: U3(l=v, nosuch=None))
    assert raises(TypeError, lambda: U3(v))
    assert raises(TypeError, lambda: U3(l=None))


def C19_union_unknown_tag(k: 'each 0..11', v: 'A'):
    """adt.TaggedUnion.__init__: only declared tags are tags, whatever else the class or its values have"""
    n = ('Match', 'value', 'value_dict', 'field_dict', 'fields', 'mro', 'unbound_t', '_value_', '_tag_', '__class__', 'enumerate', 'L')[k]
    assert raises(ValueError, lambda: U3(**{n: v})), 'accepts an attribute that is no tag'


def C19_union_set(f: 'each 0..2', v: 'A|SubA|B0|C0|int|None', g: 'each 0..2'):
    """adt_meta.TaggedUnionMeta._from_fields: assigning a tag needs a value of its type"""
    names, Fs = ('l', 'r', 'o'), (A, A, B0)
    old = Fs[g]()
    u = U3(**{names[g]: old})
    warm(u)
    try:
        setattr(u, names[f], v)
    except TypeError:
        assert not isinstance(v, Fs[f]), 'rejects a value of the declared type'
        assert getattr(u, names[g]).match and getattr(u, names[g]).value is old, 'a rejected assignment changed the value'
        return
    assert isinstance(v, Fs[f]), 'accepts a value of another type'
    assert getattr(u, names[f]).match and getattr(u, names[f]).value is v


def C19_union_setitem():
    """adt.TaggedUnion.__setitem__: unions are not assigned by type"""
    u = U2(x=A())
    assert raises(TypeError, lambda: u.__setitem__(A, A()))


class Epriv(Enum):
    _a = 0
    a_ = 1
    __b = 2
    C = 3


def C19_enum_names_private(k: 'each 0..3', f: 'each 0..3'):
    """adt.Enum.__getattribute__: a member does not give access to other members, whatever their names"""
    names = list(Epriv.field_dict)
    m = Epriv.field_dict[names[k]]
    assert raises(AttributeError, lambda: getattr(m, names[f]))
    assert m.name == names[k] and getattr(Epriv, names[f]) is Epriv.field_dict[names[f]]


def C19_enum_closed(v: 'int|A|None'):
    """adt_meta.EnumMeta.__call__: enums have no values besides their members"""
    assert raises(TypeError, lambda: E3(v))
    assert raises(TypeError, lambda: E3(E2.p))
    assert E3(E3.q) is E3.q
    assert isinstance(E3.p, E3) and isinstance(E3.r, E3)
    assert not isinstance(E2.p, E3)
    assert raises(AttributeError, lambda: E3.p.q)
    assert raises(AttributeError, lambda: E3.p.p)
    assert E3.p.name == 'p' and E3.r.name == 'r'


def C19_nested():
    """adt.Tuple.__init__: nested types are checked at every level"""
    p, e, t, s, u = P2(A(), B0()), E3.q, Tuple[A, Bit](A(), Bit(0)), Sum[A, B0](B0()), U2(y=B0())
    n = Nest(p, e, t, s, u)
    assert n.inner is p and n.e is e and n.t is t and n.s is s and n.u is u
    assert raises(TypeError, lambda: Nest(P2s(B0(), A()), e, t, s, u))
    assert raises(TypeError, lambda: Nest(p, E2.q, t, s, u))
    assert raises(TypeError, lambda: Nest(p, e, Tuple[A, A](A(), A()), s, u))
    assert raises(TypeError, lambda: Nest(p, e, t, Sum[A, C0](A()), u))
    assert raises(TypeError, lambda: Nest(p, e, t, s, U3(l=A())))


def C19_unbound(v: 'A'):
    """adt_meta.BoundMeta.__call__: types without fields have no instances"""
    for f in (lambda: Sum(v), lambda: Sum(), lambda: Product(v), lambda: Product(), lambda: TaggedUnion(x=v), lambda: TaggedUnion(),
              lambda: Enum(1), lambda: MySum(v), lambda: AnonymousProduct(v), lambda: MyProduct(v), lambda: MyProduct(x=v)):
        assert raises(TypeError, f), 'an instance of a type without fields'
    t = MyTuple(v, 1)
    assert type(t) is MyTuple[A, int] and t[0] is v and t[1] == 1


class MyProduct(Product):
    pass


class EnumA(Enum):
    pass


class EnumB(Enum):
    pass


def C19_enum_bases():
    """adt_meta.EnumMeta._from_fields: an enum has one enum base"""
    M = type(Enum)
    assert raises(TypeError, lambda: M('Q', (EnumA, EnumB), {'a': 0}))
    E = M('Q', (EnumA,), {'a': 0, 'b': 1})
    assert issubclass(E, EnumA) and not issubclass(E, EnumB) and E.unbound_t is EnumA
    assert isinstance(E.a, EnumA) and E.a is not E.b


# ------------------------------------------------------------------ C20
def C20_sum_active(v: 'A|B0|C0'):
    """adt.Sum.__getitem__: exactly the member of the value's type matches"""
    s = Sum[A, B0, C0](v)
    n = 0
    for T in (A, B0, C0):
        m = s[T]
        assert m.match == (type(v) is T), 'wrong member matches'
        if m.match:
            n = n + 1
            assert m.value is v
        else:
            assert raises(TypeError, lambda: m.value), 'an unmatched member has a value'
    assert n == 1
    assert raises(TypeError, lambda: s[SubA])
    assert raises(TypeError, lambda: s[int])


def C20_sum_reassign(v: 'A|B0|C0', w: 'A|B0|C0'):
    """adt.Sum.__setitem__: after assignment the new value is the only one"""
    s = Sum[A, B0, C0](v)
    warm(s)
    s[type(w)] = w
    for T in (A, B0, C0):
        assert s[T].match == (type(w) is T)
        if s[T].match:
            assert s[T].value is w


def C20_union_active(f: 'each 0..2', g: 'each 0..2'):
    """adt_meta.TaggedUnionMeta._from_fields: exactly the assigned tag matches, also among tags of one type"""
    names, Fs = ('l', 'r', 'o'), (A, A, B0)
    v, w = Fs[f](), Fs[g]()
    u = U3(**{names[f]: v})
    for k in range(3):
        m = getattr(u, names[k])
        assert m.match == (k == f), 'wrong tag matches'
        if m.match:
            assert m.value is v
        else:
            assert raises(TypeError, lambda: m.value), 'an unmatched tag has a value'
    setattr(u, names[g], w)
    for k in range(3):
        m = getattr(u, names[k])
        assert m.match == (k == g), 'wrong tag matches after assignment'
        if m.match:
            assert m.value is w


def C20_union_active_many(f: 'each 0..3'):
    """adt_meta.TaggedUnionMeta._from_fields: tags stay distinct whatever the order of the declarations"""
    v = A()
    u = U4(**{('z', 'a', 'm', 'b')[f]: v})
    for k in range(4):
        assert getattr(u, ('z', 'a', 'm', 'b')[k]).match == (k == f)


class U8(TaggedUnion):
    ab = A
    ba = A
    aB = A
    bc = A
    b = A
    a_b = A
    b_a = A
    ab1 = A


U8_NAMES = ('ab', 'ba', 'aB', 'bc', 'b', 'a_b', 'b_a', 'ab1')


def C20_union_active_names(f: 'each 0..7', g: 'each 0..7'):
    """adt_meta.TaggedUnionMeta._from_fields: tags stay distinct whatever their names"""
    v, w = A(), A()
    u = U8(**{U8_NAMES[f]: v})
    for k in U8_NAMES:
        assert getattr(u, k).match == (k == U8_NAMES[f])
    setattr(u, U8_NAMES[g], w)
    for k in U8_NAMES:
        assert getattr(u, k).match == (k == U8_NAMES[g])
    d = u.value_dict
    for k in U8_NAMES:
        assert d[k] is (w if k == U8_NAMES[g] else None)
    x = U8(**{U8_NAMES[f]: w})
    assert (u == x) == (f == g), 'unions with different tags are equal'


def C20_union_same_object(f: 'each 0..3', g: 'each 0..3', h: 'each 0..1'):
    """adt_meta.TaggedUnionMeta._from_fields: the tag follows the assignment, also when the value stays the same object"""
    names = ('z', 'a', 'm', 'b')
    v = U4.field_dict[names[f]]()
    u = U4(**{names[f]: v})
    if U4.field_dict[names[g]] is U4.field_dict[names[f]]:
        if h:
            warm(u)
        setattr(u, names[g], v)
        for k in range(4):
            assert getattr(u, names[k]).match == (k == g), 'wrong tag matches after assignment'
        assert getattr(u, names[g]).value is v
        setattr(u, names[f], v)
        for k in range(4):
            assert getattr(u, names[k]).match == (k == f), 'wrong tag matches after assignment'


def C20_sum_subclass_value(S: 'each class:Sum|class:MySumK'):
    """adt.Sum.__getitem__: the member a value of a subclass was assigned to is the one that matches"""
    K = S[A, B0]
    s = K(B0())
    w = SubA()
    s[A] = w
    assert s[A].match and s[A].value is w and not s[B0].match
    assert raises(TypeError, lambda: s[B0].value)
    b = B0()
    s[B0] = b
    assert not s[A].match and s[B0].match and s[B0].value is b


class MySumK(Sum):
    pass


def C20_match_safe(v: 'A|B0', b: 'bool'):
    """adt.Sum.Match.value: a safe match only yields matched values"""
    m = Sum.Match(b, v)
    assert m.match is b
    if b:
        assert m.value is v
    else:
        assert raises(TypeError, lambda: m.value)
    assert Sum.Match(b, v, safe=False).value is v
    for w in (None, 0, False, '', ()):
        m = Sum.Match(b, w)
        assert m.match is b
        if b:
            assert m.value is w
        else:
            assert raises(TypeError, lambda: m.value)
        assert Sum.Match(b, w, safe=False).value is w


def C20_sum_none(v: 'A'):
    """adt.Sum.__getitem__: None is a member value like any other"""
    K = Sum[A, type(None)]
    s, t = K(v), K(None)
    assert s[A].match and not s[type(None)].match and s[A].value is v
    assert t[type(None)].match and not t[A].match and t[type(None)].value is None
    assert raises(TypeError, lambda: s[type(None)].value) and raises(TypeError, lambda: t[A].value)
    s[type(None)] = None
    assert s[type(None)].match and not s[A].match
    assert raises(TypeError, lambda: s[A].value)


def C20_union_by_type(f: 'each 0..1'):
    """adt.Sum.__getitem__: the types of a union's tags can be asked for like those of a sum"""
    u = U2(x=A()) if f == 0 else U2(y=B0())
    assert u[A].match == (f == 0)
    assert u[B0].match == (f == 1)
    assert raises(TypeError, lambda: u[C0])


# ------------------------------------------------------------------ C21
def read_only(d):
    try:
        d['nosuch'] = 0
    except TypeError:
        return True
    return False


def C21_tuple(v: 'A|SubA', w: 'B0'):
    """adt.Tuple.value_dict: value_dict and from_values are inverse"""
    T = Tuple[A, B0]
    t = T(v, w)
    d = t.value_dict
    assert same(d.keys(), T.field_dict.keys()) or list(d.keys()) == [0, 1]
    assert d[0] is v and d[1] is w
    assert read_only(d) and read_only(T.field_dict)
    r = T.from_values(d)
    assert type(r) is T and r[0] is v and r[1] is w
    assert r == t
    r = T.from_values({1: w, 0: v})
    assert r[0] is v and r[1] is w, 'from_values depends on key order'


def C21_product(v: 'A|SubA', w: 'B0', P: 'each class:P2|class:AP2'):
    """adt.AnonymousProduct.value_dict: value_dict and from_values are inverse"""
    t = P(v, w)
    d = t.value_dict
    assert list(d.keys()) == ['x', 'y'], 'declaration order'
    assert list(P.field_dict.keys()) == ['x', 'y'], 'declaration order'
    assert P.field_dict['x'] is A and P.field_dict['y'] is B0
    assert d['x'] is v and d['y'] is w
    assert read_only(d) and read_only(P.field_dict)
    r = P.from_values(d)
    assert type(r) is P and r.x is v and r.y is w
    assert r == t
    r = P.from_values({'y': w, 'x': v})
    assert r.x is v and r.y is w, 'from_values depends on key order'


def C21_product_after_set(v: 'A|SubA', w: 'B0'):
    """adt.AnonymousProduct.value_dict: value_dict follows assignments"""
    t = P3(A(), A(), B0())
    warm(t)
    t.b = v
    t[2] = w
    d = t.value_dict
    assert d['b'] is v and d['c'] is w and d['a'] is t.a
    assert list(d.keys()) == ['a', 'b', 'c']


def C21_rejects(v: 'A|SubA|B0|C0', w: 'A|B0|C0'):
    """adt.Tuple.from_values: only the declared keys and types are accepted"""
    assert raises(ValueError, lambda: P2.from_values({'x': A()}))
    assert raises(ValueError, lambda: P2.from_values({'x': A(), 'z': B0()}))
    assert raises(ValueError, lambda: P2.from_values({'x': A(), 'y': B0(), 'z': B0()}))
    assert raises(ValueError, lambda: Tuple[A, B0].from_values({0: A()}))
    assert raises(ValueError, lambda: Tuple[A, B0].from_values({0: A(), 2: B0()}))
    ok = isinstance(v, A) and isinstance(w, B0)
    try:
        P2.from_values({'x': v, 'y': w})
        Tuple[A, B0].from_values({0: v, 1: w})
    except TypeError:
        assert not ok, 'rejects values of the declared types'
        return
    assert ok, 'accepts values of other types'


def C21_sum(v: 'A|B0'):
    """adt.Sum.value_dict: exactly the active member has a value, and from_values is the inverse"""
    S = Sum[A, B0]
    s = S(v)
    d = s.value_dict
    assert len(d) == 2
    assert d[A] is (v if isinstance(v, A) else None)
    assert d[B0] is (v if isinstance(v, B0) else None)
    assert read_only(d) and read_only(S.field_dict)
    r = S.from_values(d)
    assert type(r) is S and r == s
    assert r[type(v)].value is v


def C21_sum_rejects(v: 'A|B0|C0|None', w: 'A|B0|C0|None'):
    """adt.Sum.from_values: exactly one value, of its member type"""
    S = Sum[A, B0]
    assert raises(ValueError, lambda: S.from_values({A: v}))
    assert raises(ValueError, lambda: S.from_values({A: v, C0: w}))
    okt = (v is None or isinstance(v, A)) and (w is None or isinstance(w, B0))
    one = (v is None) != (w is None)
    try:
        S.from_values({A: v, B0: w})
    except TypeError:
        assert not okt, 'rejects values of the declared types'
        return
    except ValueError:
        assert not one, 'rejects a single value'
        return
    assert okt and one, 'accepts values of other types, none or several'


def C21_union(f: 'each 0..2'):
    """adt.TaggedUnion.value_dict: exactly the active tag has a value, and from_values is the inverse"""
    names, Fs = ('l', 'r', 'o'), (A, A, B0)
    v = Fs[f]()
    u = U3(**{names[f]: v})
    d = u.value_dict
    assert len(d) == 3
    for k in range(3):
        assert d[names[k]] is (v if k == f else None)
    assert U3.field_dict['l'] is A and U3.field_dict['r'] is A and U3.field_dict['o'] is B0
    assert len(U3.field_dict) == 3
    assert read_only(d) and read_only(U3.field_dict)
    r = U3.from_values(d)
    assert type(r) is U3 and r == u
    assert getattr(r, names[f]).match and getattr(r, names[f]).value is v


def C21_union_rejects(v: 'each A|B0|None', w: 'each A|B0|None'):
    """adt.Sum.from_values: exactly one value, of its tag's type"""
    assert raises(ValueError, lambda: U2.from_values({'x': v}))
    assert raises(ValueError, lambda: U2.from_values({'x': v, 'z': w}))
    okt = (v is None or isinstance(v, A)) and (w is None or isinstance(w, B0))
    one = (v is None) != (w is None)
    try:
        U2.from_values({'x': v, 'y': w})
    except TypeError:
        assert not okt, 'rejects values of the declared types'
        return
    except ValueError:
        assert not one, 'rejects a single value'
        return
    assert okt and one, 'accepts values of other types, none or several'


def sel(v, x):
    """the value x itself (ints have no identity)"""
    return v == x if isinstance(x, int) else v is x


def C21_values(i: 'int', b: 'Bit', v: 'BitVector[4]'):
    """adt.Tuple.value_dict: value_dict and from_values are inverse whatever the values, falsy ones included"""
    t = PI(i, b, v)
    assert t.i == i and t.b is b and t.v is v
    d = t.value_dict
    assert d['i'] == i and d['b'] is b and d['v'] is v
    r = PI.from_values(d)
    assert r.i == i and r.b is b and r.v is v
    T = Tuple[int, Bit, BitVector[4]]
    t = T(i, b, v)
    d = t.value_dict
    assert d[0] == i and d[1] is b and d[2] is v
    r = T.from_values(d)
    assert r[0] == i and r[1] is b and r[2] is v


def C21_sum_values(k: 'each 0..2', i: 'int', b: 'Bit', v: 'BitVector[4]'):
    """adt.Sum.value_dict: value_dict and from_values are inverse whatever the value, falsy ones included"""
    S = Sum[int, Bit, BitVector[4]]
    x = (i, b, v)[k]
    Ts = (int, Bit, BitVector[4])
    s = S(x)
    d = s.value_dict
    for n in range(3):
        assert s[Ts[n]].match == (n == k)
        assert (sel(d[Ts[n]], x) if n == k else d[Ts[n]] is None)
    assert sel(s[Ts[k]].value, x)
    r = S.from_values(d)
    assert r[Ts[k]].match and sel(r[Ts[k]].value, x)


def C21_union_values(k: 'each 0..3', i: 'int', b: 'Bit', v: 'BitVector[4]'):
    """adt.TaggedUnion.value_dict: value_dict and from_values are inverse whatever the value, falsy ones included"""
    x = (i, i, b, v)[k]
    names = ('i', 'j', 'b', 'v')
    s = UI(**{names[k]: x})
    d = s.value_dict
    for n in range(4):
        assert getattr(s, names[n]).match == (n == k)
        assert (sel(d[names[n]], x) if n == k else d[names[n]] is None)
    assert sel(getattr(s, names[k]).value, x)
    r = UI.from_values(d)
    assert getattr(r, names[k]).match and sel(getattr(r, names[k]).value, x)


def C21_enum():
    """adt_meta.EnumMeta.field_dict: field_dict maps the names to the members"""
    d = E3.field_dict
    assert list(d.keys()) == ['p', 'q', 'r']
    assert d['p'] is E3.p and d['q'] is E3.q and d['r'] is E3.r
    assert same(E3.fields, (E3.p, E3.q, E3.r))
    assert read_only(d)


# ------------------------------------------------------------------ C22
def C22_tuple_types(X: 'each class:A|class:B0', Y: 'each class:A|class:B0|class:C0'):
    """adt_meta._GetitemSyntax._cache_handler: equal parameters give the same type, others a different one"""
    T = Tuple[X, Y]
    assert T is Tuple[X, Y]
    assert T is Tuple[[X, Y]]
    assert (T is Tuple[Y, X]) == (X is Y)
    assert T is not Tuple[X, Y, Y] and T is not Tuple[X]
    assert T.fields == (X, Y)
    assert T.is_bound and not Tuple.is_bound
    assert T.unbound_t is Tuple
    assert T.is_cached
    assert issubclass(T, Tuple)
    assert T[0] is X and T[1] is Y and T[-1] is Y
    assert list(T.field_dict.keys()) == [0, 1] and T.field_dict[0] is X and T.field_dict[1] is Y
    assert raises(IndexError, lambda: T[2])
    U = MyTuple[X, Y]
    assert U is not T and U is MyTuple[X, Y]
    assert issubclass(U, T) and issubclass(U, MyTuple) and not issubclass(T, U)
    assert U.unbound_t is MyTuple and U.fields == (X, Y)


def C22_single():
    """adt_meta._GetitemSyntax._get_idx: a single parameter is a tuple of one"""
    assert Tuple[A] is Tuple[(A,)] and Tuple[A].fields == (A,)
    assert Sum[A] is Sum[(A,)]
    assert Tuple[()] is Tuple[()] and Tuple[()].fields == ()


def C22_sum_types():
    """adt_meta._GetitemSyntax._get_idx: sums do not depend on order or repetition"""
    S = Sum[A, B0]
    assert S is Sum[A, B0] and S is Sum[B0, A] and S is Sum[A, B0, A]
    assert S is not Sum[A] and S is not Sum[A, C0] and S is not Sum[A, B0, C0]
    assert len(S.fields) == 2 and A in S.fields and B0 in S.fields
    assert A in S and B0 in S and C0 not in S and SubA not in S
    assert S[A] is A and raises(KeyError, lambda: S[C0])
    assert S.unbound_t is Sum and S.is_bound and not Sum.is_bound
    assert S.field_dict[A] is A and len(S.field_dict) == 2
    U = MySum[A, B0]
    assert U is not S and issubclass(U, S) and issubclass(U, MySum) and U.unbound_t is MySum
    assert S is not Tuple[A, B0] and not issubclass(S, Tuple)


def C22_product_types():
    """adt_meta._AttrSyntax._cache_handler: products of one name, base and field list are the same type"""
    P = mk_product()
    assert P is mk_product()
    assert P is not mk_product_swapped(), 'order is part of a product type'
    assert P is not mk_product_other()
    assert mk_product_swapped() is mk_product_swapped()
    N = mk_product(False)
    assert N is not P and N is not mk_product(False) and not N.is_cached and P.is_cached
    assert P.fields == (A, B0)
    assert list(P.field_dict.keys()) == ['x', 'y']
    assert P.unbound_t is Product and P.is_bound and not Product.is_bound
    assert issubclass(P, Product) and issubclass(P, AP2) and issubclass(P, Tuple[A, B0])
    assert not issubclass(P, Tuple[B0, A])
    assert P['x'] is A and P['y'] is B0 and P[0] is A and P[1] is B0
    assert P.x is A and P.y is B0
    assert raises(TypeError, lambda: Product[A, B0])
    assert raises(KeyError, lambda: P['z'])


def C22_from_fields(X: 'each class:A|class:B0', Y: 'each class:B0|class:C0'):
    """adt_meta._AttrSyntax.from_fields: from_fields gives the type with these fields, cached unless told otherwise"""
    f = {'u': X, 'v': Y}
    P = Product.from_fields('Q', f)
    assert P is Product.from_fields('Q', {'u': X, 'v': Y})
    assert P is not Product.from_fields('R', f)
    assert P is not Product.from_fields('Q', {'v': Y, 'u': X})
    assert P is not Product.from_fields('Q', {'u': X, 'w': Y})
    assert P is not Product.from_fields('Q', {'u': X, 'v': A})
    assert P.__name__ == 'Q' and P.fields == (X, Y) and list(P.field_dict.keys()) == ['u', 'v']
    assert P.u is X and P.v is Y
    N = Product.from_fields('Q', f, cache=False)
    assert N is not P and not N.is_cached and P.is_cached
    assert N is not Product.from_fields('Q', f, cache=False)
    assert Product.from_fields('Q', f, cache=True) is P
    U = TaggedUnion.from_fields('Q', f)
    assert U is TaggedUnion.from_fields('Q', {'v': Y, 'u': X}), 'order is not part of a union type'
    assert U is not P and issubclass(U, TaggedUnion) and issubclass(U, Sum[X, Y])
    assert U is not TaggedUnion.from_fields('Q', {'u': X, 'w': Y})
    assert raises(TypeError, lambda: P2.from_fields('Q', f))
    assert raises(TypeError, lambda: U2.from_fields('Q', f))


def C22_anonymous():
    """adt_meta.AnonymousProductMeta._get_idx: anonymous products are identified by names, types and order"""
    Q = AnonymousProduct[{'x': A, 'y': B0}]
    assert Q is AP2
    assert Q is not AnonymousProduct[{'y': B0, 'x': A}]
    assert Q is not AnonymousProduct[{'x': A, 'z': B0}]
    assert Q is not AnonymousProduct[{'x': A, 'y': C0}]
    assert Q.fields == (A, B0) and list(Q.field_dict.keys()) == ['x', 'y']
    assert issubclass(Q, Tuple[A, B0]) and Q.unbound_t is AnonymousProduct
    assert Q.x is A and Q.y is B0
    assert raises(TypeError, lambda: AnonymousProduct[A, B0])


def C22_union_types():
    """adt_meta._AttrSyntax._cache_handler: unions of one name, base and field set are the same type"""
    U = mk_union()
    assert U is mk_union() and U is mk_union_swapped()
    assert U is not mk_union_other()
    assert issubclass(U, Sum[A, B0]) and issubclass(U, TaggedUnion) and U.unbound_t is TaggedUnion
    assert U.x is A and U.y is B0
    assert raises(TypeError, lambda: TaggedUnion[A, B0])


def C22_enum_types():
    """adt_meta._AttrSyntax._cache_handler: enums of one name and member table are the same type"""
    E = mk_enum()
    assert E is mk_enum()
    assert E is not mk_enum_other()
    assert E.is_bound and not Enum.is_bound and E.unbound_t is Enum
    assert E.a is not E.b and E.a != E.b


def C22_body_is_identity(K: 'each class:Product|class:TaggedUnion'):
    """adt_meta._AttrSyntax._cache_handler: classes that differ outside their fields are different types"""
    M = type(K)

    def meth(self):
        return 1

    def meth2(self):
        return 2
    f = {'x': A, 'y': B0}
    P = M('Q', (K,), f)
    assert P is M('Q', (K,), {'x': A, 'y': B0})
    N7 = M('Q', (K,), {'x': A, 'y': B0, 'num': 7})
    assert N7 is not P and N7.num == 7 and not hasattr(P, 'num')
    assert N7 is M('Q', (K,), {'x': A, 'y': B0, 'num': 7})
    N8 = M('Q', (K,), {'x': A, 'y': B0, 'num': 8})
    assert N8 is not N7 and N8.num == 8 and N7.num == 7
    S7 = M('Q', (K,), {'x': A, 'y': B0, '_num_': 7})
    assert S7 is not P and S7 is not N7 and S7._num_ == 7
    M1, M2 = M('Q', (K,), {'x': A, 'y': B0, 'm': meth}), M('Q', (K,), {'x': A, 'y': B0, 'm': meth2})
    assert M1 is not M2 and M1 is not P and not hasattr(P, 'm')
    assert M1 is M('Q', (K,), {'x': A, 'y': B0, 'm': meth})
    if K is Product:
        assert M1(A(), B0()).m() == 1 and M2(A(), B0()).m() == 2
    else:
        assert M1(x=A()).m() == 1 and M2(x=A()).m() == 2


class Tagging(Product):
    def __init_subclass__(cls, tag=None, mark=None, **kwargs):
        cls.labels_ = (tag, mark)


class TaggingU(TaggedUnion):
    def __init_subclass__(cls, tag=None, mark=None, **kwargs):
        cls.labels_ = (tag, mark)


def C22_class_keywords(K: 'each class:Tagging|class:TaggingU'):
    """adt_meta._AttrSyntax._cache_handler: class keywords are part of the definition"""
    M = type(K)

    def make(**kw):
        return M('Q', (K,), {'x': A}, **kw)
    P, Q, R, S = make(tag=1), make(tag=2), make(mark=1), make()
    xs = (P, Q, R, S, make(tag=1, mark=1), make(tag=1, mark=2))
    for i in range(6):
        for j in range(i):
            assert xs[i] is not xs[j], 'different keywords give one class'
    assert make(tag=1) is P and make(tag=2) is Q and make(mark=1) is R and make() is S
    assert make(mark=2, tag=1) is xs[5]
    if K is Tagging:
        assert [x.labels_ for x in xs] == [(1, None), (2, None), (None, 1), (None, None), (1, 1), (1, 2)]


def C22_base_is_identity():
    """adt_meta._AttrSyntax._cache_handler: classes with different bases are different types"""
    M = type(Product)
    P, Q = M('Q', (Product,), {'x': A}), M('Q', (MyProduct,), {'x': A})
    assert P is not Q and issubclass(Q, MyProduct) and not issubclass(P, MyProduct)
    assert Q.unbound_t is MyProduct and P.unbound_t is Product
    assert Q is M('Q', (MyProduct,), {'x': A}) and Q is MyProduct.from_fields('Q', {'x': A})


def C22_bound_is_final():
    """adt_meta.BoundMeta.__new__: a type can not have two field lists"""
    assert raises(TypeError, lambda: mk_bad1())
    assert raises(TypeError, lambda: mk_bad2())
    class Ok(P2):
        pass
    assert Ok.fields == (A, B0) and issubclass(Ok, P2)
    t = Ok(A(), B0())
    assert isinstance(t, P2) and isinstance(t, Ok)


def C22_unbound(K: 'each class:Tuple|class:Sum|class:AnonymousProduct|class:Product|class:TaggedUnion|class:Enum|class:MyTuple|class:MySum|class:MyProduct'):
    """adt_meta.BoundMeta.__new__: a type without fields is its own unbound type"""
    assert not K.is_bound and K.unbound_t is K


class Mix0:
    def hello(self):
        return 1


class Mix1(Mix0):
    pass


def C22_mixin(K: 'each class:Product|class:TaggedUnion|class:Enum|class:MyProduct', X: 'each class:Mix0|class:Mix1', first: 'each 0..1'):
    """adt_meta._AttrSyntax._from_fields: a class body may have further bases"""
    M = type(K)
    ns = {'x': 0, 'y': 1} if K is Enum else {'x': A, 'y': B0}
    P = M('Q', (X, K) if first else (K, X), ns)
    assert P.is_bound and issubclass(P, K) and issubclass(P, X) and issubclass(P, Mix0)
    assert P is M('Q', (X, K) if first else (K, X), ns) and P is not M('Q', (K,), ns)
    assert dict(P.field_dict).keys() == {'x', 'y'}
    if K is Enum:
        assert P.x.hello() == 1 and P.x != P.y and isinstance(P.x, P)
    elif K is TaggedUnion:
        assert issubclass(P, Sum[A, B0]) and P(x=A()).hello() == 1 and set(P.fields) == {A, B0}
    else:
        a, b = A(), B0()
        v = P(a, b)
        assert issubclass(P, AnonymousProduct[{'x': A, 'y': B0}]) and v.hello() == 1 and v.x is a and v[1] is b and P.fields == (A, B0)


def C22_mixin_order(K: 'each class:Product|class:TaggedUnion', first: 'each 0..1', X: 'each class:Mix0|class:Mix1'):
    """adt_meta._AttrSyntax._cache_handler: the order of fields counts also for bodies with several bases"""
    M = type(K)
    bases = (X, K) if first else (K, X)
    P = M('Q', bases, {'x': A, 'y': B0})
    R = M('Q', bases, {'y': B0, 'x': A})
    if K is Product:
        assert P is not R and P.fields == (A, B0) and R.fields == (B0, A)
        assert list(P.field_dict) == ['x', 'y'] and list(R.field_dict) == ['y', 'x']
    else:
        assert P is R
    assert M('Q', bases[::-1], {'x': A, 'y': B0}) is not P, 'the order of bases does not count'
    assert M('Q2', bases, {'x': A, 'y': B0}) is not P
    assert M('Q', bases, {'x': A, 'y': C0}) is not P


def C22_inherited(K: 'each class:P2|class:AP2|class:U2|class:TAB|class:SumAB|class:E3'):
    """adt_meta.BoundMeta.__new__: a subclass of a bound type has its fields and is no parameterisation"""
    class S(K):
        pass
    assert S.is_bound and S is not K and issubclass(S, K) and S.fields == K.fields
    assert raises(AttributeError, lambda: S.unbound_t) or K is E3
    assert S.field_dict == K.field_dict


# ------------------------------------------------------------------ C23
RESERVED = ('enumerate', 'fields', 'field_dict', 'is_bound', 'is_cached', 'value_dict', 'from_values')
SUNDERS = ('_value_', '_tag_', '_cached_', '_fields_', '_field_table_', '_unbound_base_', '_syntax_')


def C23_from_fields(K: 'each class:Product|class:TaggedUnion', i: 'each 0..6'):
    """adt_meta._AttrSyntax.from_fields: names the ADT machinery uses can not be fields"""
    assert raises(ReservedNameError, lambda: K.from_fields('Q', {RESERVED[i]: A}))
    assert raises(ReservedNameError, lambda: K.from_fields('Q', {'x': A, RESERVED[i]: A}))
    assert raises(ReservedNameError, lambda: K.from_fields('Q', {SUNDERS[i]: A}))
    assert raises(ReservedNameError, lambda: K.from_fields('Q', {SUNDERS[i]: A, 'x': A}))


def C23_class_body(K: 'each class:Product|class:TaggedUnion', i: 'each 0..6'):
    """adt_meta._AttrSyntax.__new__: names the ADT machinery uses can not be fields"""
    M = type(K)
    assert raises(ReservedNameError, lambda: M('Q', (K,), {RESERVED[i]: A}))
    assert raises(ReservedNameError, lambda: M('Q', (K,), {'x': A, RESERVED[i]: A}))
    assert raises(ReservedNameError, lambda: M('Q', (K,), {SUNDERS[i]: A}))
    assert raises(ReservedNameError, lambda: M('Q', (K,), {SUNDERS[i]: 0}))
    assert raises(ReservedNameError, lambda: M('Q', (K,), {'x': A, SUNDERS[i]: 0}))


def C23_enum_body(i: 'each 0..6'):
    """adt_meta._AttrSyntax.__new__: names the ADT machinery uses can not be enum members"""
    M = type(Enum)
    assert raises(ReservedNameError, lambda: M('Q', (Enum,), {RESERVED[i]: 0}))
    assert raises(ReservedNameError, lambda: M('Q', (Enum,), {'x': 1, RESERVED[i]: 0}))
    assert raises(ReservedNameError, lambda: M('Q', (Enum,), {SUNDERS[i]: 0}))
    assert raises(ReservedNameError, lambda: Enum.from_fields('Q', {RESERVED[i]: 0}))
    assert raises(ReservedNameError, lambda: Enum.from_fields('Q', {SUNDERS[i]: 0}))
    assert raises(ReservedNameError, lambda: Enum.from_fields('Q', {'x': 1, RESERVED[i]: 0}))
    assert raises(ReservedNameError, lambda: Enum.from_fields('Q', {SUNDERS[i]: 0, 'x': 1}))
    assert raises(ReservedNameError, lambda: Enum.from_fields('Q', {SUNDERS[i]: 0, 'x': 1}, cache=False))


def C23_getitem_types(i: 'each 0..6'):
    """adt_meta.BoundMeta.__new__: a subclass can not replace the machinery's private attributes"""
    assert raises(ReservedNameError, lambda: type(Tuple)('Q', (Tuple,), {SUNDERS[i]: 0}))
    assert raises(ReservedNameError, lambda: type(Sum)('Q', (Sum,), {SUNDERS[i]: 0}))


def C23_methods_allowed():
    """adt_meta._AttrSyntax.__new__: methods, properties and private names are not fields"""
    class Q(Product):
        x = A
        _priv_ = 3
        num = 7

        def meth(self):
            return self.x

        @property
        def prop(self):
            return self.x

        @staticmethod
        def st():
            return 5
    v = A()
    q = Q(v)
    assert list(Q.field_dict.keys()) == ['x']
    assert q.meth() is v and q.prop is v and q.st() == 5 and Q._priv_ == 3 and Q.num == 7


def C23_field_names(K: 'each class:Product|class:TaggedUnion'):
    """adt_meta._is_sunder: only names wrapped in single or double underscores are left to the class"""
    M = type(K)
    for name in ('_x', 'x_', '__x', 'x__', '_x__', '__x_', '_', '__', '___', '____', '_____', 'x', '_x_y', '__x___', '___x__', '___x___', '_x___', '___x_', '__x_y___', '___xy__'):
        Q = M('Q', (K,), {name: A, 'other': B0})
        assert list(Q.field_dict.keys()) == [name, 'other'] and Q.field_dict[name] is A, 'a field was lost'
        q = Q(**{name: A(), 'other': B0()}) if K is Product else Q(**{name: A()})
        if K is Product:
            assert q[0] is getattr(q, name) and isinstance(q[0], A) and q.other is q[1]
        else:
            assert isinstance(getattr(q, name).value, A) and not q.other.match
    for name in ('_x_', '__x__', '_xyz_', '__xyz__', '_x_y_'):
        Q = M('Q' + name, (K,), {name: A, 'other': B0})
        assert list(Q.field_dict.keys()) == ['other'], 'a private name became a field'
        assert getattr(Q, name) is A


def C23_enum_names():
    """adt_meta._is_sunder: only names wrapped in single or double underscores are left to the class"""
    M = type(Enum)
    for name in ('_x', 'x_', '__x', 'x__', '_', 'x', '__x___', '___x__', '___x___', '_x__', '__x_'):
        Q = M('Q', (Enum,), {name: 3, 'other': 1})
        assert list(Q.field_dict.keys()) == [name, 'other']
        assert isinstance(getattr(Q, name), Q) and getattr(Q, name) is not Q.other
    for name in ('_x_', '__x__'):
        Q = M('Q', (Enum,), {name: 3, 'other': 1})
        assert list(Q.field_dict.keys()) == ['other'] and getattr(Q, name) == 3


# ------------------------------------------------------------------ C31
def C31_product():
    """adt_meta.TupleMeta.enumerate: every combination of the component values, once"""
    vals = list(EP.enumerate())
    assert len(vals) == 6
    for e in (E3.p, E3.q, E3.r):
        for d in (E2.p, E2.q):
            n = 0
            for v in vals:
                assert type(v) is EP
                if v.e is e and v.d is d:
                    n = n + 1
            assert n == 1, 'a combination is missing or repeated'


def C31_tuple():
    """adt_meta.TupleMeta.enumerate: every combination of the component values, once"""
    T = Tuple[E2, E2, E3]
    vals = list(T.enumerate())
    assert len(vals) == 12
    for a in (E2.p, E2.q):
        for b in (E2.p, E2.q):
            for c in (E3.p, E3.q, E3.r):
                n = 0
                for v in vals:
                    assert type(v) is T
                    if v[0] is a and v[1] is b and v[2] is c:
                        n = n + 1
                assert n == 1, 'a combination is missing or repeated'


def C31_shapes(k: 'each 1..4'):
    """adt_meta.TupleMeta.enumerate: every combination, once, for each number of fields"""
    T = Tuple[(E2,) * k]
    vals = list(T.enumerate())
    assert len(vals) == 2 ** k
    for v in vals:
        assert type(v) is T
        n = 0
        for w in vals:
            if all(v[i] is w[i] for i in range(k)):
                n = n + 1
        assert n == 1, 'a combination is repeated'
        for i in range(k):
            assert v[i] is E2.p or v[i] is E2.q


def C31_same_sizes():
    """adt_meta.TupleMeta.enumerate: every combination of the component values, once"""
    S = Tuple[E3, Auto3, E3b]
    vals = list(S.enumerate())
    assert len(vals) == 27
    for a in E3.fields:
        for b in Auto3.fields:
            for c in E3b.fields:
                n = 0
                for v in vals:
                    if v[0] is a and v[1] is b and v[2] is c:
                        n = n + 1
                assert n == 1, 'a combination is missing or repeated'


def C31_sum():
    """adt_meta.SumMeta.enumerate: every value of every member, once"""
    S = Sum[E2, E3]
    vals = list(S.enumerate())
    assert len(vals) == 5
    for e in (E2.p, E2.q, E3.p, E3.q, E3.r):
        n = 0
        for v in vals:
            assert type(v) is S
            m = v[type(e)]
            if m.match and m.value is e:
                n = n + 1
        assert n == 1, 'a value is missing or repeated'


def C31_sum_none():
    """adt_meta.SumMeta.enumerate: None is the one value of its type"""
    S = Sum[type(None), E2]
    vals = list(S.enumerate())
    assert len(vals) == 3
    assert [v[type(None)].match for v in vals].count(True) == 1
    assert sorted([v[E2].match for v in vals]) == [False, True, True]


def C31_union():
    """adt_meta.TaggedUnionMeta.enumerate: every value of every tag, once"""
    vals = list(EU.enumerate())
    assert len(vals) == 7
    for tag, E in (('a', E2), ('b', E2), ('c', E3)):
        for e in E.fields:
            n = 0
            for v in vals:
                assert type(v) is EU
                m = getattr(v, tag)
                if m.match and m.value is e:
                    n = n + 1
            assert n == 1, 'a value is missing or repeated'


def C31_nested():
    """adt_meta.TupleMeta.enumerate: nested types enumerate recursively"""
    vals = list(NE.enumerate())
    assert len(vals) == 14
    for u in EU.enumerate():
        for e in E2.fields:
            n = 0
            for v in vals:
                if v.u == u and v.e is e:
                    n = n + 1
            assert n == 1


class MyTup(Tuple[E2, E3]):
    pass


class MyProd(EP):
    pass


class MySumT(Sum[E2, E3]):
    pass


class MyUnion(EU):
    pass


class KSum(Sum):
    pass


def C31_subclasses():
    """adt_meta.SumMeta.enumerate: the values of a user's subclass are of that class"""
    for T, n in ((MyTup, 6), (MyProd, 6), (MySumT, 5), (MyUnion, 7), (KSum[E2, E3], 5)):
        vals = list(T.enumerate())
        assert len(vals) == n
        for v in vals:
            assert type(v) is T, 'a value of another type'
            k = 0
            for w in vals:
                if v == w:
                    k = k + 1
            assert k == 1, 'a value is repeated'


def C31_sum_nested():
    """adt_meta.SumMeta.enumerate: members that are products, sums and unions enumerate recursively"""
    S = Sum[EP, E3, EU]
    vals = list(S.enumerate())
    assert len(vals) == 16
    for T, n in ((EP, 6), (E3, 3), (EU, 7)):
        k = 0
        for v in vals:
            assert type(v) is S
            if v[T].match:
                k = k + 1
        assert k == n
    U = TaggedUnion.from_fields('UN', {'a': EP, 'b': E2, 'c': EP})
    vals = list(U.enumerate())
    assert len(vals) == 14
    for tag, n in (('a', 6), ('b', 2), ('c', 6)):
        k = 0
        for v in vals:
            if getattr(v, tag).match:
                k = k + 1
        assert k == n


def C31_enum():
    """adt_meta.EnumMeta.enumerate: the members in declaration order"""
    assert same(E3.enumerate(), (E3.p, E3.q, E3.r))
    assert same(Auto2.enumerate(), (Auto2.s, Auto2.t))
