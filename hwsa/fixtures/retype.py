"""rebinding, modifiers, visitors, protocols of a client"""
from hwtypes import AbstractBit, AbstractBitVector, Bit, BitVector, SIntVector, UIntVector
from hwtypes import SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, z3Bit, z3BitVector
from hwtypes import Tuple, Product, Sum, TaggedUnion, Enum
from hwtypes.adt import AnonymousProduct
from hwtypes.adt_util import rebind_bitvector, rebind_keep_modifiers, rebind_type
from hwtypes.modifiers import new, make_modifier, is_modified, is_modifier, get_modifier, get_unmodified
from hwtypes.modifiers import get_all_modifiers, unwrap_modifier, wrap_modifier, strip_modifiers, push_modifiers


class A:
    pass


class SubA(A):
    pass


class SubSubA(SubA):
    pass


class B0:
    pass


class C0:
    pass


class E2(Enum):
    p = 0
    q = 1


class MyTuple(Tuple):
    pass


class MySum(Sum):
    pass


class P2(Product):
    x = A
    y = B0


class PS(Product):
    s = SubA
    x = A
    z = A
    y = B0


class PU(Product, cache=False):
    x = A
    y = B0


class U2(TaggedUnion):
    x = A
    y = B0


class U3(TaggedUnion):
    l = A
    r = A
    s = SubA


class Deep(Product):
    a = A
    t = Tuple[A, Tuple[SubA, A]]
    p = P2
    s = Sum[A, B0]
    u = U2
    e = E2


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def same(x, y):
    x, y = tuple(x), tuple(y)
    return len(x) == len(y) and all(a is b for a, b in zip(x, y))


# ------------------------------------------------------------------ C24
def sub(T, X, Y, subs):
    """what one field type becomes"""
    return Y if T is X or (subs and issubclass(T, X)) else T


def C24_tuple(X: 'each class:A|class:SubA|class:B0|class:C0', Y: 'each class:C0|class:A|class:SubSubA', subs: 'each 0..1', K: 'each class:Tuple|class:MyTuple'):
    """adt_meta.BoundMeta.rebind: exactly the fields of that type (with rebind_sub_types, of its subclasses too) are replaced"""
    T = K[A, SubA, B0, A, SubSubA]
    R = T.rebind(X, Y, bool(subs))
    assert same(R.fields, [sub(F, X, Y, subs) for F in (A, SubA, B0, A, SubSubA)])
    assert R is K[tuple(sub(F, X, Y, subs) for F in (A, SubA, B0, A, SubSubA))]
    assert R.unbound_t is K
    assert same(T.fields, (A, SubA, B0, A, SubSubA)), 'rebind changed the original type'
    if not subs:
        assert T.rebind(X, Y) is R


def C24_sum(X: 'each class:A|class:SubA|class:B0|class:C0', Y: 'each class:C0|class:A|class:SubSubA', subs: 'each 0..1', K: 'each class:Sum|class:MySum'):
    """adt_meta.BoundMeta.rebind: exactly the members of that type (with rebind_sub_types, of its subclasses too) are replaced"""
    T = K[A, SubA, B0]
    R = T.rebind(X, Y, bool(subs))
    assert R is K[sub(A, X, Y, subs), sub(SubA, X, Y, subs), sub(B0, X, Y, subs)]
    assert R.unbound_t is K
    assert len(T.fields) == 3


def C24_product(X: 'each class:A|class:SubA|class:B0|class:C0', Y: 'each class:C0|class:A|class:SubSubA', subs: 'each 0..1'):
    """adt_meta._AttrSyntax.rebind: exactly the fields of that type are replaced, names and order are kept"""
    R = PS.rebind(X, Y, bool(subs))
    want = {'s': sub(SubA, X, Y, subs), 'x': sub(A, X, Y, subs), 'z': sub(A, X, Y, subs), 'y': sub(B0, X, Y, subs)}
    assert list(R.field_dict.keys()) == ['s', 'x', 'z', 'y']
    for k, F in want.items():
        assert R.field_dict[k] is F
        assert getattr(R, k) is F
    assert R.__name__ == 'PS' and issubclass(R, Product)
    assert R is PS.rebind(X, Y, bool(subs))
    assert list(PS.field_dict.keys()) == ['s', 'x', 'z', 'y'] and same(PS.fields, (SubA, A, A, B0))
    if all(want[k] is PS.field_dict[k] for k in want):
        assert R is PS, 'an unaffected type is itself'
    else:
        assert R is Product.from_fields('PS', want)


def C24_union(X: 'each class:A|class:SubA|class:C0', Y: 'each class:C0|class:A|class:SubSubA', subs: 'each 0..1'):
    """adt_meta._AttrSyntax.rebind: exactly the tags of that type are replaced, names are kept"""
    R = U3.rebind(X, Y, bool(subs))
    want = {'l': sub(A, X, Y, subs), 'r': sub(A, X, Y, subs), 's': sub(SubA, X, Y, subs)}
    assert len(R.field_dict) == 3
    for k, F in want.items():
        assert R.field_dict[k] is F
    assert R.__name__ == 'U3' and issubclass(R, TaggedUnion)
    if all(want[k] is U3.field_dict[k] for k in want):
        assert R is U3, 'an unaffected type is itself'
    else:
        assert R is TaggedUnion.from_fields('U3', want)


def C24_anonymous(X: 'each class:A|class:SubA|class:B0|class:C0', Y: 'each class:C0|class:A', subs: 'each 0..1'):
    """adt_meta.AnonymousProductMeta.rebind: exactly the fields of that type are replaced, names and order are kept"""
    T = AnonymousProduct[{'s': SubA, 'x': A, 'y': B0}]
    R = T.rebind(X, Y, bool(subs))
    assert R is AnonymousProduct[{'s': sub(SubA, X, Y, subs), 'x': sub(A, X, Y, subs), 'y': sub(B0, X, Y, subs)}]


def C24_enum(X: 'each class:A|class:int|class:E2'):
    """adt_meta.EnumMeta.rebind: enums are not rebound"""
    assert E2.rebind(X, B0) is E2
    assert E2.rebind(X, B0, True) is E2
    assert Tuple[E2, A].rebind(E2, B0) is Tuple[B0, A]


def C24_uncached():
    """adt_meta._AttrSyntax.rebind: rebinding an uncached type gives an uncached type"""
    R = PU.rebind(A, C0)
    assert not R.is_cached and R.x is C0 and R.y is B0
    assert R is not PU.rebind(A, C0)
    assert PU.rebind(C0, A) is PU
    assert P2.rebind(A, C0).is_cached


def C24_recursive(subs: 'each 0..1'):
    """adt_meta.BoundMeta.rebind: nested types are rebound with the same arguments"""
    R = Deep.rebind(A, C0, bool(subs))
    S = C0 if subs else SubA
    assert R.a is C0
    assert R.t is Tuple[C0, Tuple[S, C0]]
    assert R.p is P2.rebind(A, C0, bool(subs)) and R.p.x is C0 and R.p.y is B0
    assert R.s is Sum[C0, B0]
    assert R.u.x is C0 and R.u.y is B0
    assert R.e is E2
    T = Tuple[Tuple[A, SubA], Sum[P2, A], A]
    assert T.rebind(A, C0, bool(subs)) is Tuple[Tuple[C0, S], Sum[P2.rebind(A, C0), C0], C0]
    Q = AnonymousProduct[{'t': Tuple[A, SubA], 'q': AnonymousProduct[{'a': A}]}]
    assert Q.rebind(A, C0, bool(subs)) is AnonymousProduct[{'t': Tuple[C0, S], 'q': AnonymousProduct[{'a': C0}]}]
    V = Sum[Tuple[A, SubA], A]
    assert V.rebind(A, C0, bool(subs)) is Sum[Tuple[C0, S], C0]


def C24_not_recursive(subs: 'each 0..1'):
    """adt_meta.BoundMeta.rebind: rebind_recursive=False only replaces the type's own fields"""
    R = Deep.rebind(A, C0, bool(subs), rebind_recursive=False)
    assert R.a is C0 and R.t is Deep.t and R.p is P2 and R.s is Deep.s and R.u is U2
    T = Tuple[Tuple[A], A]
    assert T.rebind(A, C0, bool(subs), False) is Tuple[Tuple[A], C0]
    Q = AnonymousProduct[{'t': Tuple[A], 'a': A}]
    assert Q.rebind(A, C0, bool(subs), False) is AnonymousProduct[{'t': Tuple[A], 'a': C0}]


def C24_whole_field(subs: 'each 0..1'):
    """adt_meta.BoundMeta.rebind: an ADT type can be replaced as a field"""
    T = Tuple[A, B0]
    assert Tuple[T, A].rebind(T, C0, bool(subs)) is Tuple[C0, A]
    assert Deep.rebind(P2, C0, bool(subs)).p is C0
    assert Deep.rebind(P2, C0, bool(subs)).a is A


def C24_bitvector(n: 'each 1|6', m: 'each 2|6', keep: 'each 0..1'):
    """adt_util.rebind_bitvector: every vector type below the old one becomes the new one of the same size"""
    k = bool(keep)
    assert rebind_bitvector(BitVector[n], BitVector, SMTBitVector, k) is SMTBitVector[n]
    assert rebind_bitvector(BitVector[n], AbstractBitVector, SMTBitVector, k) is SMTBitVector[n]
    assert rebind_bitvector(SIntVector[n], BitVector, SMTBitVector, k) is SMTBitVector[n]
    assert rebind_bitvector(BitVector[n], SIntVector, SMTBitVector, k) is BitVector[n]
    assert rebind_bitvector(BitVector[n], SMTBitVector, BitVector, k) is BitVector[n]
    assert rebind_bitvector(BitVector, AbstractBitVector, SMTBitVector, k) is SMTBitVector
    assert rebind_bitvector(Bit, AbstractBitVector, SMTBitVector, k) is Bit
    assert rebind_bitvector(A, AbstractBitVector, SMTBitVector, k) is A
    assert rebind_bitvector(E2, AbstractBitVector, SMTBitVector, k) is E2
    T = Tuple[BitVector[n], Bit, Tuple[BitVector[m], BitVector], A]
    assert rebind_bitvector(T, AbstractBitVector, SMTBitVector, k) is Tuple[SMTBitVector[n], Bit, Tuple[SMTBitVector[m], SMTBitVector], A]
    assert rebind_bitvector(T, UIntVector, SMTBitVector, k) is T
    S = Sum[BitVector[n], A]
    assert rebind_bitvector(S, AbstractBitVector, SMTBitVector, k) is Sum[SMTBitVector[n], A]


class PBV(Product):
    a = BitVector[4]
    s = SIntVector[4]
    b = Bit
    t = Tuple[BitVector[7], A]
    u = Sum[BitVector[3], Bit]


def C24_bitvector_product(keep: 'each 0..1'):
    """adt_util.rebind_bitvector: products are rebound field by field, at every level"""
    k = bool(keep)
    R = rebind_bitvector(PBV, AbstractBitVector, SMTBitVector, k)
    assert list(R.field_dict.keys()) == ['a', 's', 'b', 't', 'u']
    assert R.a is SMTBitVector[4] and R.s is SMTBitVector[4] and R.b is Bit
    assert R.t is Tuple[SMTBitVector[7], A] and R.u is Sum[SMTBitVector[3], Bit]
    R = rebind_bitvector(PBV, SIntVector, SMTSIntVector, k)
    assert R.a is BitVector[4] and R.s is SMTSIntVector[4] and R.t is PBV.t
    R = rebind_bitvector(Tuple[PBV, A], SIntVector, SMTSIntVector, k)
    assert R[0].s is SMTSIntVector[4] and R[1] is A


def C24_bitvector_leaf(n: 'size', keep: 'each 0..1'):
    """adt_util.rebind_bitvector: every vector type below the old one becomes the new one of the same size"""
    k = bool(keep)
    assert rebind_bitvector(BitVector[n], BitVector, SMTBitVector, k) is SMTBitVector[n]
    assert rebind_bitvector(SIntVector[n], AbstractBitVector, SMTSIntVector, k) is SMTSIntVector[n]
    assert rebind_bitvector(SIntVector[n], BitVector, SMTBitVector, k) is SMTBitVector[n]
    assert rebind_bitvector(BitVector[n], SIntVector, SMTBitVector, k) is BitVector[n]
    T = Tuple[BitVector[n], Bit, Tuple[BitVector, SIntVector[n]], A]
    assert rebind_bitvector(T, AbstractBitVector, SMTBitVector, k) is Tuple[SMTBitVector[n], Bit, Tuple[SMTBitVector, SMTBitVector[n]], A]
    assert rebind_bitvector(T, UIntVector, SMTBitVector, k) is T


def C24_bitvector_contained(n: 'each 1|6'):
    """adt_util.rebind_bitvector: a member contained in another member is rebound once"""
    T = Tuple[BitVector[n], Bit]
    S = Sum[T, BitVector[n]]
    assert rebind_bitvector(S, AbstractBitVector, SMTBitVector) is Sum[Tuple[SMTBitVector[n], Bit], SMTBitVector[n]]


Mod = make_modifier('Mod')
Nod = make_modifier('Nod')


def C24_modified(n: 'size'):
    """adt_util.rebind_bitvector: keep_modifiers keeps the modifiers, in order"""
    assert rebind_bitvector(Mod(BitVector[n]), AbstractBitVector, SMTBitVector, True) is Mod(SMTBitVector[n])
    assert rebind_bitvector(Nod(Mod(BitVector[n])), AbstractBitVector, SMTBitVector, True) is Nod(Mod(SMTBitVector[n]))
    assert rebind_bitvector(Mod(BitVector[n]), AbstractBitVector, SMTBitVector) is SMTBitVector[n]
    assert rebind_bitvector(Mod(A), AbstractBitVector, SMTBitVector, True) is Mod(A)
    T = Tuple[Mod(BitVector[n]), BitVector[n], Nod(Mod(Bit))]
    assert rebind_bitvector(T, AbstractBitVector, SMTBitVector, True) is Tuple[Mod(SMTBitVector[n]), SMTBitVector[n], Nod(Mod(Bit))]


def C24_keep_modifiers(n: 'size'):
    """adt_util.rebind_keep_modifiers: types below A become B under their modifiers"""
    assert rebind_keep_modifiers(SubA, A, C0) is C0
    assert rebind_keep_modifiers(A, A, C0) is C0
    assert rebind_keep_modifiers(B0, A, C0) is B0
    assert rebind_keep_modifiers(Mod(SubA), A, C0) is Mod(C0)
    assert rebind_keep_modifiers(Nod(Mod(A)), A, C0) is Nod(Mod(C0))
    assert rebind_keep_modifiers(Mod(B0), A, C0) is Mod(B0)
    assert rebind_keep_modifiers(Bit, AbstractBit, SMTBit) is SMTBit
    T = Tuple[Mod(A), B0, Tuple[Nod(SubA), A], E2]
    assert rebind_keep_modifiers(T, A, C0) is Tuple[Mod(C0), B0, Tuple[Nod(C0), C0], E2]
    S = Sum[Mod(A), B0]
    assert rebind_keep_modifiers(S, A, C0) is Sum[Mod(C0), B0]
    R = rebind_keep_modifiers(PBV, AbstractBit, SMTBit)
    assert R.b is SMTBit and R.a is BitVector[4] and R.u is Sum[BitVector[3], SMTBit]


def C24_rebind_type(n: 'size', Fb: 'each class:Bit|class:SMTBit|class:z3Bit'):
    """adt_util.rebind_type: bits and vectors at every level become those of the family"""
    F = Fb.get_family()
    for Src in (Bit, SMTBit, z3Bit):
        S = Src.get_family()
        assert rebind_type(S.Bit, F) is F.Bit
        assert rebind_type(S.BitVector[n], F) is F.BitVector[n]
        assert rebind_type(S.BitVector, F) is F.BitVector
        for V in (S.Unsigned, S.Signed):
            assert rebind_type(V[n], F) is F.BitVector[n] and rebind_type(V, F) is F.BitVector
            assert rebind_type(Tuple[V[n], S.Bit], F) is Tuple[F.BitVector[n], F.Bit]
            assert rebind_type(Mod(V[n]), F) is Mod(F.BitVector[n])
        assert rebind_type(Tuple[S.BitVector[n], S.Bit, A], F) is Tuple[F.BitVector[n], F.Bit, A]
        assert rebind_type(Sum[S.BitVector[n], S.Bit, E2], F) is Sum[F.BitVector[n], F.Bit, E2]
        assert rebind_type(Tuple[A, Tuple[S.Bit, Sum[S.Bit, A]]], F) is Tuple[A, Tuple[F.Bit, Sum[F.Bit, A]]]
        assert rebind_type(Mod(S.BitVector[n]), F) is Mod(F.BitVector[n])
        assert rebind_type(Nod(Mod(S.Bit)), F) is Nod(Mod(F.Bit))
        assert rebind_type(Mod(Tuple[S.Bit, A]), F) is Mod(Tuple[F.Bit, A])
    assert rebind_type(A, F) is A
    assert rebind_type(E2, F) is E2
    assert rebind_type(Mod(A), F) is Mod(A)
    assert rebind_type(5, F) == 5
    assert rebind_type('x', F) == 'x'
    R = rebind_type(PBV, F)
    assert list(R.field_dict.keys()) == ['a', 's', 'b', 't', 'u']
    assert R.a is F.BitVector[4] and R.b is F.Bit and R.t is Tuple[F.BitVector[7], A] and R.u is Sum[F.BitVector[3], F.Bit]


# ------------------------------------------------------------------ C25
def C25_apply(X: 'each class:A|class:SubA|class:Bit|class:E2|class:P2|class:U2'):
    """modifiers._ModifierMeta.__call__: a modified type is a subclass of the type, the modifier, and the modified bases"""
    M, N = make_modifier('M'), make_modifier('N')
    T = M(X)
    assert T is M(X), 'modified types are cached'
    assert T is not N(X) and T is not X
    assert issubclass(T, X) and issubclass(T, M) and not issubclass(T, N) and not issubclass(X, M)
    assert issubclass(T, M(X)) and not issubclass(T, N(X))
    assert not issubclass(X, T)
    for base in X.__bases__:
        assert issubclass(T, M(base)) and issubclass(M(base), M)
    assert is_modified(T) and not is_modified(X) and not is_modified(M)
    assert is_modifier(M) and not is_modifier(T) and not is_modifier(X)
    assert get_modifier(T) is M and get_unmodified(T) is X
    assert raises(TypeError, lambda: get_modifier(X))
    assert raises(TypeError, lambda: get_unmodified(X))
    assert T.__name__ == 'M' + X.__name__


def C25_sub_modified():
    """modifiers._ModifierMeta.__call__: modification is monotone in the type"""
    M, N = make_modifier('M'), make_modifier('N')
    assert issubclass(M(SubSubA), M(A)) and issubclass(M(SubSubA), M(SubA)) and not issubclass(M(A), M(SubA))
    assert issubclass(N(M(SubA)), N(SubA)) or not issubclass(M(SubA), N)
    assert issubclass(N(M(SubA)), M(SubA)) and issubclass(N(M(SubA)), N)
    assert issubclass(N(M(SubA)), M)  == issubclass(N(M(A)), M)
    assert N(M(A)) is not M(N(A))
    assert get_modifier(N(M(A))) is N and get_unmodified(N(M(A))) is M(A)


def C25_instances(v: 'A', n: 'size', b: 'bool', k: 'int'):
    """modifiers._ModifierMeta.__instancecheck__: instances of a modified type behave as those of the type"""
    M, N = make_modifier('M'), make_modifier('N')
    x = M(A)()
    assert isinstance(x, A) and isinstance(x, M) and isinstance(x, M(A)) and not isinstance(x, N)
    assert not isinstance(v, M) and not isinstance(v, M(A)) and isinstance(v, A)
    y = M(Bit)(b)
    assert isinstance(y, M) and isinstance(y, Bit) and type(y) is M(Bit)
    assert bool(y) == b
    z = M(BitVector[n])(k)
    assert isinstance(z, BitVector[n]) and isinstance(z, M) and type(z) is M(BitVector[n])
    assert z.as_uint() == BitVector[n](k).as_uint()
    assert M(BitVector[n]).size == n
    w = M(P2)(v, B0())
    assert isinstance(w, P2) and isinstance(w, M) and w.x is v and type(w) is M(P2)
    s = M(Sum[A, B0])(v)
    assert s[A].match and s[A].value is v and isinstance(s, Sum[A, B0])


def C25_lists():
    """modifiers.unwrap_modifier: unwrap and wrap are inverse, innermost first"""
    M, N, O = make_modifier('M'), make_modifier('N'), make_modifier('O')
    T = O(N(M(A)))
    base, mods = unwrap_modifier(T)
    assert base is A and same(mods, [M, N, O])
    assert wrap_modifier(A, [M, N, O]) is T
    assert wrap_modifier(A, [N, M, O]) is not T
    assert wrap_modifier(A, []) is A
    base, mods = unwrap_modifier(A)
    assert base is A and list(mods) == []
    assert same(list(get_all_modifiers(T)), [M, N, O])
    assert list(get_all_modifiers(A)) == []
    assert raises(TypeError, lambda: wrap_modifier(A, [M, M]))
    assert raises(TypeError, lambda: wrap_modifier(A, [M, N, O, M]))


def C25_make():
    """modifiers.make_modifier: only cache=True returns the same modifier for a name"""
    G = make_modifier('G', cache=True)
    assert make_modifier('G', cache=True) is G
    assert make_modifier('G') is not G
    assert make_modifier('G') is not make_modifier('G')
    names = ('H', 'g', 'G_', 'GG', '', 'h', 'AbC', 'abc', 'ABC')
    ms = [make_modifier(n, cache=True) for n in names]
    for i in range(9):
        assert ms[i] is not G and ms[i].__name__ == names[i] and make_modifier(names[i], cache=True) is ms[i]
        for j in range(i):
            assert ms[i] is not ms[j], 'two names give one modifier'
    assert make_modifier('G', cache=True) is G
    assert G.__name__ == 'G' and is_modifier(G)
    K = make_modifier('K')
    L = make_modifier('K', cache=True)
    assert L is not K and make_modifier('K', cache=True) is L
    assert make_modifier('K') is not K and make_modifier('K') is not L
    assert make_modifier('K', cache=True) is L and K(A) is not L(A) and get_modifier(K(A)) is K


def C25_user_subclass():
    """modifiers.is_modified: a user's subclass of a modified type is a type of its own, not a modified one"""
    M, N = make_modifier('M'), make_modifier('N')

    class S(M(A)):
        pass
    assert not is_modified(S) and issubclass(S, M(A)) and issubclass(S, A)
    assert raises(TypeError, lambda: get_modifier(S)) and raises(TypeError, lambda: get_unmodified(S))
    base, mods = unwrap_modifier(S)
    assert base is S and list(mods) == []
    base, mods = unwrap_modifier(N(S))
    assert base is S and same(mods, [N])
    assert strip_modifiers(S) is S and strip_modifiers(N(S)) is S and push_modifiers(S) is S


def C25_strip_deep():
    """modifiers.strip_modifiers: every modifier, at every level, whatever the kinds of the nodes"""
    M, N = make_modifier('M'), make_modifier('N')
    shapes = (lambda T: Tuple[T, B0], lambda T: AnonymousProduct[{'f': T, 'g': B0}], lambda T: Sum[T, B0],
              lambda T: Product.from_fields('DP', {'f': T, 'g': B0}), lambda T: TaggedUnion.from_fields('DU', {'f': T, 'g': B0}))
    for f in shapes:
        for g in shapes:
            assert strip_modifiers(M(f(N(g(M(A)))))) is f(g(A)), 'a modifier is left'
            assert strip_modifiers(f(g(N(M(A))))) is f(g(A)), 'a modifier is left'


def C25_push_deep():
    """modifiers.push_modifiers: modifiers of every inner node move to the leaves, whatever the kinds of the nodes"""
    M, N, O = make_modifier('M'), make_modifier('N'), make_modifier('O')
    shapes = (lambda T, B: Tuple[T, B], lambda T, B: AnonymousProduct[{'f': T, 'g': B}], lambda T, B: Sum[T, B],
              lambda T, B: Product.from_fields('DP', {'f': T, 'g': B}), lambda T, B: TaggedUnion.from_fields('DU', {'f': T, 'g': B}))
    for f in shapes:
        for g in shapes:
            assert push_modifiers(M(f(N(g(O(A), B0)), B0))) is f(g(M(N(O(A))), M(N(B0))), M(B0)), 'wrong order or place'


def C25_distinct():
    """modifiers.AbstractModifier.__init_subclass__: modifiers do not share their tables"""
    M, N = make_modifier('M'), make_modifier('N')
    T = M(A)
    assert N(A) is not T and get_modifier(N(A)) is N and get_modifier(M(A)) is M
    assert not issubclass(N(A), M) and not issubclass(M(A), N)
    assert raises(TypeError, lambda: AbstractModifier_call())


def AbstractModifier_call():
    from hwtypes.modifiers import AbstractModifier
    return AbstractModifier(A)


def C25_new(X: 'each class:A|class:SubA|class:Bit|class:P2', n: 'size'):
    """modifiers.new: new makes a type of its own below the given one, every time"""
    T = new(X)
    assert issubclass(T, X) and T is not X and T is not new(X)
    assert X.__subclasscheck__(T) if X is Bit else True
    U = new(X, name='Other', module='somewhere')
    assert U.__name__ == 'Other' and U.__module__ == 'somewhere' and issubclass(U, X)
    V = new(BitVector, n)
    assert issubclass(V, BitVector) and V.size == n and V is not BitVector[n] and V is not new(BitVector, n)
    W = new(BitVector, n, name='W')
    assert W.unsized_t.__name__ == 'W' and W.unsized_t is not BitVector
    Y = new(Tuple, (A, B0))
    assert issubclass(Y, Tuple) and Y.fields == (A, B0) and Y is not Tuple[A, B0] and issubclass(Y, Tuple[A, B0])


def C25_strip(n: 'size'):
    """modifiers.strip_modifiers: every modifier, at every level, is removed; the shape is kept"""
    M, N = make_modifier('M'), make_modifier('N')
    assert strip_modifiers(A) is A and strip_modifiers(M(A)) is A and strip_modifiers(N(M(A))) is A
    assert strip_modifiers(M(BitVector[n])) is BitVector[n] and strip_modifiers(N(M(Bit))) is Bit
    assert strip_modifiers(M(E2)) is E2
    T = Tuple[M(A), N(Tuple[B0, M(N(Bit))]), E2]
    assert strip_modifiers(T) is Tuple[A, Tuple[B0, Bit], E2]
    assert strip_modifiers(M(T)) is Tuple[A, Tuple[B0, Bit], E2]
    S = Sum[M(A), B0]
    assert strip_modifiers(S) is Sum[A, B0] and strip_modifiers(N(S)) is Sum[A, B0]
    Q = AnonymousProduct[{'y': M(A), 'x': N(B0)}]
    assert strip_modifiers(Q) is AnonymousProduct[{'y': A, 'x': B0}]
    assert strip_modifiers(M(Q)) is AnonymousProduct[{'y': A, 'x': B0}]
    P = Product.from_fields('P', {'y': M(T), 'x': N(B0)})
    R = strip_modifiers(P)
    assert list(R.field_dict.keys()) == ['y', 'x'] and R.x is B0 and R.y is Tuple[A, Tuple[B0, Bit], E2] and issubclass(R, Product)
    assert R.__name__ == 'P'
    U = TaggedUnion.from_fields('U', {'y': M(T), 'x': N(B0)})
    R = strip_modifiers(U)
    assert R.x is B0 and R.y is Tuple[A, Tuple[B0, Bit], E2] and issubclass(R, TaggedUnion) and R.__name__ == 'U'


def C25_push(n: 'size'):
    """modifiers.push_modifiers: modifiers of inner nodes move to the leaves, outside the leaf's own"""
    M, N, O = make_modifier('M'), make_modifier('N'), make_modifier('O')
    assert push_modifiers(A) is A and push_modifiers(M(A)) is M(A)
    assert push_modifiers(N(M(A))) is N(M(A))
    assert push_modifiers(M(BitVector[n])) is M(BitVector[n])
    assert push_modifiers(M(E2)) is M(E2)
    T = Tuple[A, N(Bit)]
    assert push_modifiers(T) is T
    assert push_modifiers(M(T)) is Tuple[M(A), M(N(Bit))]
    assert push_modifiers(O(M(T))) is Tuple[O(M(A)), O(M(N(Bit)))]
    assert push_modifiers(M(Tuple[O(Tuple[A, N(B0)]), E2])) is Tuple[Tuple[M(O(A)), M(O(N(B0)))], M(E2)]
    assert push_modifiers(M(Sum[A, N(B0)])) is Sum[M(A), M(N(B0))]
    assert push_modifiers(M(AnonymousProduct[{'y': A, 'x': N(B0)}])) is AnonymousProduct[{'y': M(A), 'x': M(N(B0))}]
    P = Product.from_fields('P', {'y': T, 'x': N(B0)})
    R = push_modifiers(M(P))
    assert list(R.field_dict.keys()) == ['y', 'x'] and R.x is M(N(B0)) and R.y is Tuple[M(A), M(N(Bit))] and issubclass(R, Product)
    U = TaggedUnion.from_fields('U', {'y': T, 'x': N(B0)})
    R = push_modifiers(U)
    assert R.x is N(B0) and R.y is T and issubclass(R, TaggedUnion)


# ------------------------------------------------------------------ C26
from hwtypes.adt_util import ADTVisitor, ADTInstVisitor


class TV(ADTVisitor):
    def __init__(self):
        self.log = []

    def visit_leaf(self, t):
        self.log.append(('leaf', t))

    def visit_Enum(self, t):
        self.log.append(('Enum', t))

    def visit_Product(self, t):
        self.log.append(('Product', t))
        self.generic_visit(t)

    def visit_Tuple(self, t):
        self.log.append(('Tuple', t))
        self.generic_visit(t)

    def visit_TaggedUnion(self, t):
        self.log.append(('TaggedUnion', t))
        self.generic_visit(t)

    def visit_Sum(self, t):
        self.log.append(('Sum', t))
        self.generic_visit(t)


class IV(ADTInstVisitor):
    def __init__(self):
        self.log = []

    def visit_leaf(self, t):
        self.log.append(('leaf', t))

    def visit_Enum(self, t):
        self.log.append(('Enum', t))

    def visit_Product(self, t):
        self.log.append(('Product', t))
        self.generic_visit(t)

    def visit_Tuple(self, t):
        self.log.append(('Tuple', t))
        self.generic_visit(t)

    def visit_TaggedUnion(self, t):
        self.log.append(('TaggedUnion', t))
        self.generic_visit(t)

    def visit_Sum(self, t):
        self.log.append(('Sum', t))
        self.generic_visit(t)


class LeafT(ADTVisitor):
    def __init__(self):
        self.log = []

    def visit_leaf(self, t):
        self.log.append(t)


class LeafI(ADTInstVisitor):
    def __init__(self):
        self.log = []

    def visit_leaf(self, t):
        self.log.append(t)


def has(log, kind, t):
    return len([1 for k, x in log if k == kind and x is t])


class VP(Product):
    a = A
    t = Tuple[B0, A]
    u = U2
    e = E2


def C26_types():
    """adt_util._ADTVisitor.visit: every node of a type is visited once per occurrence, by the method of its kind"""
    v = TV()
    v.visit(VP)
    L = v.log
    assert same([k for k, t in L][:1], ['Product']) and L[0][1] is VP
    assert len(L) == 9
    assert has(L, 'leaf', A) == 3 and has(L, 'leaf', B0) == 2
    assert has(L, 'Tuple', Tuple[B0, A]) == 1 and has(L, 'TaggedUnion', U2) == 1 and has(L, 'Enum', E2) == 1


def C26_order():
    """adt_util.ADTVisitor.generic_visit: the fields of products and tuples are visited in order, depth first"""
    v = LeafT()
    v.visit(Tuple[A, Tuple[B0, C0], SubA])
    assert same(v.log, [A, B0, C0, SubA])
    v = LeafT()
    v.visit(PS)
    assert same(v.log, [SubA, A, A, B0])
    v = LeafT()
    v.visit(AnonymousProduct[{'y': B0, 'x': Tuple[A, C0]}])
    assert same(v.log, [B0, A, C0])


def C26_kinds():
    """adt_util._ADTVisitor.visit: each kind of type is dispatched to its method; anything else is a leaf"""
    for T, kind, n in ((Tuple[A, A], 'Tuple', 3), (P2, 'Product', 3), (Sum[A, B0], 'Sum', 3), (U2, 'TaggedUnion', 3), (E2, 'Enum', 1),
                       (AnonymousProduct[{'x': A}], 'Tuple', 2), (A, 'leaf', 1), (Bit, 'leaf', 1), (BitVector[4], 'leaf', 1), (int, 'leaf', 1),
                       (MyTuple[A], 'Tuple', 2), (MySum[A], 'Sum', 2), (make_modifier('VM')(P2), 'Product', 3), (make_modifier('VN')(A), 'leaf', 1)):
        v = TV()
        v.visit(T)
        assert v.log[0][0] == kind and v.log[0][1] is T, 'wrong method'
        assert len(v.log) == n
    v = TV()
    v.visit(5)
    assert len(v.log) == 1 and v.log[0][0] == 'leaf'


def C26_defaults():
    """adt_util._ADTVisitor.visit_Product: the default methods descend through every kind of node"""
    v = LeafT()
    v.visit(Tuple[Sum[Tuple[A, B0]], AnonymousProduct[{'x': C0}], Product.from_fields('W', {'q': SubA})])
    assert same(v.log, [A, B0, C0, SubA])
    v = LeafT()
    v.visit(TaggedUnion.from_fields('V', {'a': A, 'b': A}))
    assert same(v.log, [A, A])
    v = LeafT()
    v.visit(E2)
    assert v.log == []


def C26_instances(a: 'A|SubA', b: 'B0', f: 'each 0..1'):
    """adt_util._ADTVisitor.visit: every component of a value is visited once; inactive members are not"""
    u = U2(x=a) if f == 0 else U2(y=b)
    t = Tuple[B0, A](b, a)
    p = VP(a, t, u, E2.q)
    v = IV()
    v.visit(p)
    L = v.log
    assert L[0][0] == 'Product' and L[0][1] is p
    assert has(L, 'Tuple', t) == 1 and has(L, 'TaggedUnion', u) == 1 and has(L, 'Enum', E2.q) == 1
    assert has(L, 'leaf', a) == (3 if f == 0 else 2)
    assert has(L, 'leaf', b) == (1 if f == 0 else 2)
    assert len(L) == 8
    v = LeafI()
    v.visit(p)
    assert same(v.log, [a, b, a, a if f == 0 else b])


def C26_instance_kinds(a: 'A', b: 'B0', w: 'A|B0'):
    """adt_util._ADTVisitor.visit: each kind of value is dispatched to its method"""
    for x, kind, n in ((Tuple[A, A](a, a), 'Tuple', 3), (P2(a, b), 'Product', 3), (Sum[A, B0](w), 'Sum', 2), (U2(x=a), 'TaggedUnion', 2),
                       (E2.p, 'Enum', 1), (AnonymousProduct[{'x': A}](a), 'Tuple', 2), (a, 'leaf', 1), (MyTuple[A](a), 'Tuple', 2)):
        v = IV()
        v.visit(x)
        assert v.log[0][0] == kind and v.log[0][1] is x, 'wrong method'
        assert len(v.log) == n


class UZ(TaggedUnion):
    i = int
    b = Bit
    v = BitVector[4]


def C26_falsy(k: 'each 0..2', i: 'int', b: 'Bit', v: 'BitVector[4]'):
    """adt_util.ADTInstVisitor.generic_visit: components are visited whatever their value"""
    t = Tuple[int, Bit, BitVector[4]](i, b, v)
    w = LeafI()
    w.visit(t)
    assert len(w.log) == 3 and w.log[0] == i and w.log[1] is b and w.log[2] is v
    u = UZ(i=i) if k == 0 else UZ(b=b) if k == 1 else UZ(v=v)
    w = LeafI()
    w.visit(u)
    assert len(w.log) == 1
    assert w.log[0] == i if k == 0 else w.log[0] is (b if k == 1 else v)
    s = Sum[int, Bit, BitVector[4]]((i, b, v)[k])
    w = LeafI()
    w.visit(s)
    assert len(w.log) == 1
    assert w.log[0] == i if k == 0 else w.log[0] is (b if k == 1 else v)


# ------------------------------------------------------------------ C30
from hwtypes.bit_vector_util import BitVectorProtocol, BitVectorProtocolMeta, build_ite


def mk_boxes(T):
    class BoxMeta(type):
        def _bitvector_t_(cls):
            return T

    class Box(metaclass=BoxMeta):
        def __init__(self, w):
            self.w = w

        @classmethod
        def _from_bitvector_(cls, bv):
            return cls(bv)

        def _to_bitvector_(self):
            return self.w

    class SubBox(Box):
        pass

    return BoxMeta, Box, SubBox


BoxMeta, Box, SubBox = mk_boxes(BitVector)


class OtherBox(metaclass=BoxMeta):
    def __init__(self, w):
        self.w = w

    @classmethod
    def _from_bitvector_(cls, bv):
        return cls(bv)

    def _to_bitvector_(self):
        return self.w


class NoFrom(metaclass=BoxMeta):
    def _to_bitvector_(self):
        return None


class NoTo(metaclass=BoxMeta):
    @classmethod
    def _from_bitvector_(cls, bv):
        return cls()


class NoMeta:
    @classmethod
    def _from_bitvector_(cls, bv):
        return cls()

    def _to_bitvector_(self):
        return None


class Explicit(BitVectorProtocol):
    pass


def C30_recognition(w: 'BitVector[n]'):
    """bit_vector_util.BitVectorProtocolMeta.__subclasscheck__: exactly types with the three methods follow the protocol"""
    b = Box(w)
    assert isinstance(b, BitVectorProtocol) and isinstance(SubBox(w), BitVectorProtocol)
    assert issubclass(Box, BitVectorProtocol) and issubclass(SubBox, BitVectorProtocol)
    assert isinstance(Box, BitVectorProtocolMeta) and issubclass(BoxMeta, BitVectorProtocolMeta)
    assert not isinstance(b, BitVectorProtocolMeta) and not issubclass(Box, BitVectorProtocolMeta)
    assert not issubclass(BitVectorProtocol, BitVectorProtocolMeta)
    for K in (NoFrom, NoTo, NoMeta):
        assert not isinstance(K(), BitVectorProtocol), 'a protocol method is missing'
        assert not issubclass(K, BitVectorProtocol)
    assert not isinstance(NoMeta, BitVectorProtocolMeta)
    for x in (w, Bit(0), 3, 'x', A()):
        assert not isinstance(x, BitVectorProtocol)
    for K in (BitVector, BitVector[4], Bit, int, A):
        assert not issubclass(K, BitVectorProtocol) and not isinstance(K, BitVectorProtocolMeta)
    assert issubclass(BitVectorProtocol, BitVectorProtocol) and issubclass(Explicit, BitVectorProtocol)


def C30_ite(s: 'Bit', x: 'BitVector[n]', y: 'BitVector[n]', K: 'each 1..2'):
    """bit_vector_util.build_ite: ite of two values of one protocol type is that type's value of the ite of the vectors"""
    K = mk_boxes(type(x))[K]
    r = s.ite(K(x), K(y))
    assert type(r) is K
    assert type(r.w) is type(x)
    assert r.w.as_uint() == (x.as_uint() if s else y.as_uint())


def C30_ite_smt(s: 'SMTBit', x: 'SMTBitVector[n]', y: 'SMTBitVector[n]', K: 'each 1..2'):
    """bit_vector_util.build_ite: ite of two values of one protocol type is that type's value of the ite of the vectors"""
    K = mk_boxes(type(x))[K]
    r = s.ite(K(x), K(y))
    assert type(r) is K
    assert type(r.w) is type(x)
    assert den(r.w) == (den(x) if den(s) else den(y))


def C30_ite_mixed(s: 'Bit', x: 'BitVector[n]', y: 'BitVector[n]'):
    """bit_vector_util.build_ite: different protocol types do not mix"""
    assert raises(TypeError, lambda: s.ite(Box(x), OtherBox(y)))
    assert raises(TypeError, lambda: s.ite(Box(x), SubBox(y)))
    assert raises(TypeError, lambda: s.ite(SubBox(x), Box(y)))
    assert raises(TypeError, lambda: s.ite((Box(x), x), (SubBox(y), y)))
    assert raises(TypeError, lambda: s.ite(Box(x), y))
    assert raises(TypeError, lambda: s.ite(x, Box(y)))


def C30_ite_same(s: 'Bit', x: 'BitVector[n]', y: 'BitVector[n]', v: 'BitVector[n]', K: 'each 1..2'):
    """bit_vector_util.build_ite: the branches may share values"""
    K = mk_boxes(type(x))[K]
    b, t = K(x), (K(v), v)
    r = s.ite(b, b)
    assert type(r) is K and type(r.w) is type(x) and r.w.as_uint() == x.as_uint()
    r = s.ite((b, t), (K(y), t))
    assert type(r) is tuple and len(r) == 2 and type(r[0]) is K and r[0].w.as_uint() == (x.as_uint() if s else y.as_uint())
    assert type(r[1]) is tuple and len(r[1]) == 2 and type(r[1][0]) is K
    assert r[1][0].w.as_uint() == v.as_uint() and r[1][1].as_uint() == v.as_uint()
    r = s.ite((t, b), (t, K(y)))
    assert type(r[1]) is K and type(r[0]) is tuple and type(r[0][0]) is K and r[0][1].as_uint() == v.as_uint()


def C30_ite_nested(s: 'Bit', x: 'BitVector[n]', y: 'BitVector[n]', v: 'BitVector[n]', w: 'BitVector[n]'):
    """bit_vector_util.build_ite: protocol values in tuples are merged elementwise"""
    r = s.ite((Box(x), v), (Box(y), w))
    assert type(r) is tuple and len(r) == 2 and type(r[0]) is Box
    assert r[0].w.as_uint() == (x.as_uint() if s else y.as_uint())
    assert r[1].as_uint() == (v.as_uint() if s else w.as_uint())
