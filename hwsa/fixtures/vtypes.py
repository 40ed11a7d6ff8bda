"""construction of sized and bound types"""
from hwtypes import (BitVector, UIntVector, SIntVector, SMTBitVector, SMTUIntVector, SMTSIntVector, z3BitVector, z3UIntVector, z3SIntVector,
                     FPVector, SMTFPVector, RoundingMode, Bit, SMTBit, z3Bit)


class Mixin:
    def extra(self):
        return 1


class Other:
    pass


class MyVec(BitVector):
    pass


class MyU(UIntVector, Mixin):
    pass


class MySMT(SMTSIntVector):
    pass


class MyFP(FPVector):
    pass


class HasInt:
    def __int__(self):
        return 8

    def __index__(self):
        return 8


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def C27_sized(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTUIntVector|class:SMTSIntVector|class:z3BitVector|class:z3UIntVector|class:z3SIntVector|class:MyVec|class:MyU|class:MySMT', n: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: T[n] is the type of width n"""
    T = B[n]
    assert isinstance(T, type(B))
    assert T.size == n and T.is_sized and len(T) == n
    assert T.unsized_t is B
    assert issubclass(T, B) and T is not B
    assert T.__name__ == f'{B.__name__}[{n}]' and T.__module__ == B.__module__
    assert not B.is_sized and B.size is None and B.unsized_t is B
    assert raises(AttributeError, lambda: len(B))


def C27_one_type(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:z3SIntVector|class:MyVec', C: 'each class:BitVector|class:SIntVector|class:SMTBitVector|class:MyVec', n: 'nat', m: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: two sized types are one exactly when family and width agree"""
    T, U = B[n], C[m]
    assert B[n] is T and C[m] is U
    assert (T is U) == (B is C and n == m)
    assert issubclass(T, U) == (issubclass(B, C) and n == m)


def C27_lattice(n: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: sized types inherit like the unsized ones"""
    for C, B in ((UIntVector, BitVector), (SIntVector, BitVector), (SMTUIntVector, SMTBitVector), (SMTSIntVector, SMTBitVector),
                 (z3UIntVector, z3BitVector), (z3SIntVector, z3BitVector), (MyVec, BitVector), (MyU, UIntVector), (MyU, BitVector),
                 (MySMT, SMTSIntVector), (MySMT, SMTBitVector)):
        assert issubclass(C[n], B[n]), 'sized subclass is no subclass of the sized class'
        assert not issubclass(B[n], C[n])
        assert not issubclass(B[n], C)
    assert not issubclass(UIntVector[n], SIntVector[n]) and not issubclass(SIntVector[n], UIntVector[n])
    assert issubclass(MyU[n], Mixin)


def C27_method_order(n: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: a sized type finds attributes in its own unsized type first"""
    for C in (MyVec, MyU, MySMT, UIntVector, SMTSIntVector, z3SIntVector):
        T = C[n]
        assert T.__mro__[0] is T and T.__mro__[1] is C, 'attributes of the unsized type are shadowed'


def C27_bad_size(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:z3BitVector|class:MyVec', n: 'int'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: what is no width is refused, whatever was asked for before"""
    if n < 0:
        assert raises(ValueError, lambda: B[n]), 'negative width accepted'
        assert raises(ValueError, lambda: B[n]), 'negative width accepted the second time'
    B[8], B[1], B[0]
    for bad in (8.0, 1.0, '8', None, (8,), 8.5, HasInt(), BitVector, (8, 8)):
        assert raises(TypeError, lambda: B[bad]), 'width that is no int accepted'


def C27_bool_size(B: 'each class:BitVector|class:SIntVector|class:SMTBitVector|class:z3BitVector', first: 'each 0..1'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: the stored width is a plain int"""
    class V(B):
        pass
    if first:
        V[1], V[0]
    T, Z = V[True], V[False]
    assert T is V[1] and Z is V[0] and type(T.size) is int and type(Z.size) is int and T.__name__ == 'V[1]' and Z.__name__ == 'V[0]'
    if first:
        B[1], B[0]
    T, Z = B[True], B[False]
    assert T is B[1] and Z is B[0]
    assert type(T.size) is int and T.size == 1 and T.__name__ == f'{B.__name__}[1]'
    assert type(B[1].size) is int and B[1].__name__ == f'{B.__name__}[1]'


def C27_resize(B: 'each class:BitVector|class:UIntVector|class:SMTSIntVector|class:z3BitVector|class:MyVec', n: 'nat', m: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: a sized type has no other widths"""
    T = B[n]
    assert raises(TypeError, lambda: T[m]), 'a sized type was sized again'

    class D(T):
        pass
    assert raises(TypeError, lambda: D[m]), 'a subclass of a sized type was sized again'


def C27_subclass_of_sized(B: 'each class:BitVector|class:SIntVector|class:SMTBitVector|class:z3UIntVector|class:MyU', n: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__new__: a subclass of a sized type has its width"""
    class D(B[n]):
        pass

    class E(D, Other):
        pass

    class F(Other, D):
        pass
    for X in (D, E, F):
        assert X.size == n and X.is_sized and len(X) == n
        assert issubclass(X, B[n])
        assert raises(AttributeError, lambda: X.unsized_t), 'a width of one type leaks into another'


def C27_two_sizes(B: 'each class:BitVector|class:SMTBitVector|class:z3BitVector', C: 'each class:UIntVector|class:SIntVector|class:MyVec', n: 'nat', m: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__new__: one width per type"""
    def make():
        class D(C[n], BitVector[m]):
            pass
        return D
    if n != m:
        assert raises(TypeError, make), 'a type with two widths'
    else:
        assert make().size == n

    def make2():
        class D(B[n], B[m]):
            pass
        return D
    if n != m:
        assert raises(TypeError, make2), 'a type with two widths'


def C27_reserved(B: 'each class:BitVector|class:SMTBitVector|class:z3BitVector', n: 'nat', m: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__new__: the width of a type cannot be forged"""
    try:
        class D(B):
            _info_ = None, n
        assert not D.is_sized and D.unsized_t is D
    except TypeError:
        pass
    try:
        class E(B[m]):
            _info_ = None, n
        assert E.is_sized and E.size == m and raises(AttributeError, lambda: E.unsized_t)
    except TypeError:
        pass


def C27_known_widths(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTSIntVector|class:z3UIntVector|class:z3BitVector|class:MyVec'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: the same width gives the same type, whatever was asked for in between"""
    first = [B[n] for n in (0, 1, 8, 9, 64)]
    BitVector[8], SMTBitVector[8], z3BitVector[9], SIntVector[64], B[2]
    again = [B[n] for n in (0, 1, 8, 9, 64)]
    for i in range(5):
        assert first[i] is again[i] and first[i].size == (0, 1, 8, 9, 64)[i]
        for j in range(i):
            assert first[i] is not first[j] and not issubclass(first[i], first[j]) and not issubclass(first[j], first[i])
    assert B[1].unsized_t is B and B[1].unsized_t[9] is B[9]


def C27_user_subclass(B: 'each class:BitVector|class:SIntVector|class:SMTBitVector|class:z3BitVector', n: 'nat'):
    """bit_vector_abc.AbstractBitVectorMeta.__getitem__: unrelated classes of one name have their own sized types"""
    class D(B):
        x = 1
    D1 = D

    class D(B):
        x = 2
    assert D1[n] is not D[n] and D1[n].x == 1 and D[n].x == 2
    assert not issubclass(D1[n], D) and D1[n].unsized_t is D1


def C27_instance_size(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:z3BitVector|class:MyVec', n: 'size'):
    """bit_vector_abc.AbstractBitVector.size: a value has its type's width"""
    x = B[n](0)
    assert type(x) is B[n]
    assert x.size == n and len(x) == n


def C27_unsized_call(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:z3BitVector', n: 'size'):
    """bit_vector_abc.AbstractBitVectorMeta.__call__: an unsized call takes the width of its argument"""
    assert raises(TypeError, lambda: B())
    v = B[n](0)
    assert type(B(v)) is B[n]


def C27_fp_bound(B: 'each class:FPVector|class:SMTFPVector|class:MyFP', eb: 'int', mb: 'int', mode: 'each lit:RNE|lit:RNA|lit:RTP|lit:RTN|lit:RTZ', ieee: 'bool'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: the parameters of a floating point type"""
    m = getattr(RoundingMode, mode)
    try:
        T = B[eb, mb, m, ieee]
    except ValueError:
        assert eb <= 0 or mb <= 0, 'a valid format is refused'
        assert raises(ValueError, lambda: B[eb, mb, m, ieee])
    else:
        assert eb > 0 and mb > 0, 'an empty exponent or mantissa is accepted'
        assert T.exponent_size == eb and T.mantissa_size == mb and T.mode is m and T.ieee_compliance is ieee
        assert T.size == 1 + eb + mb and T.is_bound
        assert T.binding == (eb, mb, m, ieee)
        assert T.unbound_t is B and issubclass(T, B)
        assert B[eb, mb, m, ieee] is T
        assert T.__module__ == B.__module__


def C27_fp_unbound(B: 'each class:FPVector|class:SMTFPVector|class:MyFP'):
    """fp_vector_abc.AbstractFPVectorMeta: an unbound type has no parameters"""
    assert not B.is_bound and B.binding is None and B.unbound_t is B
    for f in (lambda: B.exponent_size, lambda: B.mantissa_size, lambda: B.mode, lambda: B.ieee_compliance, lambda: B.size):
        assert raises(AttributeError, f)


def C27_fp_one_type(B: 'each class:FPVector|class:SMTFPVector', a: 'size', b: 'size', c: 'size', d: 'size', p: 'bool', q: 'bool', m1: 'each lit:RNE|lit:RTZ', m2: 'each lit:RNE|lit:RTZ'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: two formats are one type exactly when all four parameters agree"""
    T = B[a, b, getattr(RoundingMode, m1), p]
    U = B[c, d, getattr(RoundingMode, m2), q]
    assert (T is U) == (a == c and b == d and m1 == m2 and p == q)
    assert issubclass(T, U) == (T is U)


def C27_fp_user_class(B: 'each class:FPVector|class:SMTFPVector', eb: 'size', mb: 'size', p: 'bool'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: user classes can be bound like the library's"""
    class D(B):
        pass
    T = D[eb, mb, RoundingMode.RNE, p]
    assert not D.is_bound and D.unbound_t is D
    assert T.size == 1 + eb + mb and T.unbound_t is D
    assert issubclass(T, D) and issubclass(T, B[eb, mb, RoundingMode.RNE, p])
    assert D[eb, mb, RoundingMode.RNE, p] is T

    class E(T):
        pass
    assert E.size == 1 + eb + mb and E.is_bound and issubclass(E, T)


def C27_fp_lattice(eb: 'size', mb: 'size', p: 'bool'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: bound types inherit like the unbound ones"""
    A, M = FPVector[eb, mb, RoundingMode.RNE, p], MyFP[eb, mb, RoundingMode.RNE, p]
    assert issubclass(M, A) and not issubclass(A, M) and not issubclass(A, MyFP)
    assert not issubclass(A, SMTFPVector[eb, mb, RoundingMode.RNE, p])


def C27_fp_bad(B: 'each class:FPVector|class:SMTFPVector'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: what is no format is refused, whatever was asked for before"""
    RNE = RoundingMode.RNE
    B[8, 23, RNE, True], B[1, 1, RNE, True]
    for bad in ((8.0, 23, RNE, True), (8, 23.0, RNE, True), (8, 23, RNE, 1), (True, True, RNE, True), (8, 23, 'RNE', True), (8, 23, RNE),
                (8, 23), (8, 23, RNE, True, True), (8, 23, True, RNE), (8, 23, RNE, None), (8, 23, 1, True)):
        assert raises(IndexError, lambda: B[bad]), 'malformed format accepted'


def C27_fp_inherit(B: 'each class:FPVector|class:SMTFPVector', k: 'each 0..3'):
    """fp_vector_abc.AbstractFPVectorMeta.__new__: no class inherits two formats"""
    class C(B):
        pass
    RNE, RTZ = RoundingMode.RNE, RoundingMode.RTZ
    T = B[8, 7, RNE, True]
    U = C[((9, 7, RNE, True), (8, 6, RNE, True), (8, 7, RTZ, True), (8, 7, RNE, False))[k]]
    M = type(B)
    assert raises(TypeError, lambda: M('Q', (T, U), {})) and raises(TypeError, lambda: M('Q', (U, T), {})), 'a class of two formats'
    V = C[8, 7, RNE, True]
    W = M('Q', (V, T), {})
    assert W.is_bound and W.binding == (8, 7, RNE, True) and W.size == 16 and raises(AttributeError, lambda: W.unbound_t)
    assert raises(TypeError, lambda: M('Q', (B,), {'_info_': (None, None)}))


def C27_fp_rebind(B: 'each class:FPVector|class:SMTFPVector', eb: 'size', mb: 'size', n: 'size'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: a bound type has no other formats"""
    T = B[eb, mb, RoundingMode.RNE, True]
    assert raises(TypeError, lambda: T[n, mb, RoundingMode.RNE, True])
    assert raises(TypeError, lambda: T[eb, mb, RoundingMode.RNE, True])


def C27_fp_subclass(eb: 'size', mb: 'size', n: 'size', p: 'bool'):
    """fp_vector_abc.AbstractFPVectorMeta.__new__: a subclass of a bound type has its format"""
    T = FPVector[eb, mb, RoundingMode.RTZ, p]

    class D(T):
        pass
    assert D.exponent_size == eb and D.mantissa_size == mb and D.mode is RoundingMode.RTZ and D.ieee_compliance is p and D.is_bound
    assert raises(AttributeError, lambda: D.unbound_t)
    assert raises(TypeError, lambda: D[eb, mb, RoundingMode.RTZ, p])

    def make():
        class E(FPVector[eb, mb, RoundingMode.RTZ, p], FPVector[n, mb, RoundingMode.RTZ, p]):
            pass
    if n != eb:
        assert raises(TypeError, make), 'a type with two formats'

    try:
        class F(FPVector):
            _info_ = None, (eb, mb, RoundingMode.RTZ, p)
        assert not F.is_bound and F.binding is None
    except TypeError:
        pass


def C27_fp_known_formats(B: 'each class:FPVector|class:SMTFPVector|class:MyFP'):
    """fp_vector_abc.AbstractFPVectorMeta.__getitem__: the same format gives the same type, whatever was asked for in between"""
    keys = [(8, 23, RoundingMode.RNE, True), (8, 23, RoundingMode.RNE, False), (8, 23, RoundingMode.RTZ, True), (8, 7, RoundingMode.RNE, True),
            (5, 23, RoundingMode.RNE, True), (11, 52, RoundingMode.RNE, True), (7, 8, RoundingMode.RNE, True)]
    first = [B[k] for k in keys]
    FPVector[8, 23, RoundingMode.RNE, True], SMTFPVector[8, 23, RoundingMode.RNE, True], B[5, 10, RoundingMode.RNE, True]
    again = [B[k] for k in keys]
    for i in range(len(keys)):
        T = first[i]
        assert T is again[i] and T.binding == keys[i] and T.unbound_t is B
        assert (T.exponent_size, T.mantissa_size, T.mode, T.ieee_compliance) == keys[i]
        for j in range(i):
            assert T is not first[j] and not issubclass(T, first[j]) and not issubclass(first[j], T)


def C27_fp_known_subclass(B: 'each class:FPVector|class:SMTFPVector|class:MyFP'):
    """fp_vector_abc.AbstractFPVectorMeta.__new__: a subclass of a bound type has its parameters"""
    class E(B[8, 23, RoundingMode.RTZ, True]):
        pass

    class G(E):
        pass
    for T in (E, G):
        assert T.is_bound and T.binding == (8, 23, RoundingMode.RTZ, True)
        assert T.size == 32 and T.exponent_size == 8 and T.mantissa_size == 23 and T.mode is RoundingMode.RTZ and T.ieee_compliance is True
        assert raises(AttributeError, lambda: T.unbound_t) and raises(TypeError, lambda: T[8, 23, RoundingMode.RTZ, True])

    def make():
        class H(E, B[8, 22, RoundingMode.RTZ, True]):
            pass
    assert raises(TypeError, make)


def C27_fp_instance(eb: 'size', mb: 'size', p: 'bool'):
    """fp_vector_abc.AbstractFPVector.size: a value has its type's width"""
    if eb > 1:
        x = FPVector[eb, mb, RoundingMode.RNE, p](0)
        assert x.size == 1 + eb + mb
        assert type(x) is FPVector[eb, mb, RoundingMode.RNE, p]
