"""user-defined vector types"""
from hwtypes import Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, SMTUIntVector, SMTSIntVector, z3Bit, z3BitVector, z3SIntVector
from hwtypes.bit_vector_util import PolyVector, PolyBit, PolyBase


class Odd(BitVector):
    def __add__(self, other):
        return NotImplemented


class SMTOdd(SMTBitVector):
    def __add__(self, other):
        return NotImplemented


class MyBit(Bit):
    pass


class SMTMyBit(SMTBit):
    pass


class z3MyBit(z3Bit):
    pass


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class Plain:
    pass


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


# ------------------------------------------------------------------ C05
def _assign_bad(x, bads, val):
    before = val(x)
    for v in bads:
        assert raises(ValueError, lambda: x.__setitem__(0, v)), 'accepts a value that is not a bit'
        assert raises(ValueError, lambda: x.__setitem__(-1, v)), 'accepts a value that is not a bit'
    assert raises(NotImplementedError, lambda: x.__setitem__(slice(0, 1), 1))
    assert raises(TypeError, lambda: x.__setitem__('0', 1))
    assert raises(TypeError, lambda: x.__setitem__(None, 1))
    assert val(x) == before, 'a rejected assignment changed the value'


def C05_assign_bad(x: 'each BitVector[n]|UIntVector[n]|SIntVector[n]', b: 'bool'):
    """bit_vector.BitVector.__setitem__: only a bit, a Boolean, 0 or 1 is assigned to a position"""
    _assign_bad(x, [None, '1', [1], (), Plain(), HasInt(1), BitVector[1](b), SMTBit(b)], int)


def C05_assign_bad_smt(x: 'each SMTBitVector[n]|SMTUIntVector[n]|SMTSIntVector[n]', b: 'bool'):
    """smt_bit_vector.SMTBitVector.__setitem__: only a bit, a Boolean, 0 or 1 is assigned to a position"""
    _assign_bad(x, [None, '1', [1], (), Plain(), HasInt(1), SMTBitVector[1](b), Bit(b)], den)


def C05_assign_bad_z3(x: 'each z3BitVector[n]|z3UIntVector[n]|z3SIntVector[n]', b: 'bool'):
    """z3_bit_vector.z3BitVector.__setitem__: only a bit, a Boolean, 0 or 1 is assigned to a position"""
    _assign_bad(x, [None, '1', [1], (), Plain(), HasInt(1), z3BitVector[1](b), Bit(b)], den)


def C05_assign_keeps_others(x: 'each BitVector[n]|UIntVector[n]|SIntVector[n]', b: 'bool'):
    """bit_vector.BitVector.__setitem__: assignment changes one object only"""
    y = type(x)(x)
    v = x.as_uint()
    x[0] = b
    assert y.as_uint() == v, 'a copy changed with the original'
    assert type(x) is type(y)


def _derived(x):
    """vectors computed from x"""
    T = type(x)
    return [lambda: T(x), lambda: x | 0, lambda: x & -1, lambda: x ^ 0, lambda: x + 0, lambda: x - 0, lambda: x << 0, lambda: x >> 0,
            lambda: x * 1, lambda: ~~x, lambda: -x, lambda: x.zext(0), lambda: x.sext(0), lambda: x.ext(0), lambda: x.zext(1),
            lambda: x[:], lambda: x.concat(T(0)), lambda: T(0).concat(x), lambda: x.repeat(1), lambda: x.repeat(2),
            lambda: x.get_family().Bit(1).ite(x, x), lambda: (x == x).ite(x, T(0)),
            lambda: x % 0, lambda: x.bvurem(T(0)), lambda: x.bvsrem(T(0)), lambda: x.bvrol(0), lambda: x.bvror(0), lambda: x[0:x.size], lambda: T.make_constant(x)]



def _assign_isolated(x, b, val, k):
    """what was computed from x before an assignment keeps its value, x keeps its value when the result is assigned to"""
    f = _derived(x)[k]
    before = val(x)
    y = f()
    was = val(y)
    y[0] = b
    assert val(x) == before, 'an operand changed with the result of an operation'
    assert val(f()) == was, 'an operation remembers a result that was assigned to'
    y = f()
    x[0] = b
    x[x.size - 1] = b
    assert val(y) == was, 'the result of an operation changed with its operand'
    w = type(x)(x)
    z = f()
    assert val(z) == val(_derived(w)[k]()), 'an operation does not see an assignment to its operand'


def C05_assign_isolated(x: 'each BitVector[3]|UIntVector[3]|SIntVector[3]', b: 'bool', k: 'each 0..28'):
    """bit_vector.BitVector.__setitem__: assignment changes one object only, whatever was computed from it"""
    _assign_isolated(x, b, int, k)


def C05_assign_isolated_smt(x: 'each SMTBitVector[3]|SMTSIntVector[3]', b: 'bool', k: 'each 0..28'):
    """smt_bit_vector.SMTBitVector.__setitem__: assignment changes one object only, whatever was computed from it"""
    _assign_isolated(x, b, den, k)


def C05_assign_isolated_var(B: 'each class:SMTBitVector|class:SMTSIntVector|class:z3BitVector|class:z3SIntVector', named: 'each 0..1', b: 'bool', k: 'each 0..28'):
    """smt_bit_vector.SMTBitVector.__setitem__: assignment changes one object only, whatever was computed from it"""
    _assign_isolated(B[3](name='a') if named else B[3](), b, den, k)


def C05_assign_isolated_z3(x: 'each z3BitVector[3]|z3SIntVector[3]', b: 'bool', k: 'each 0..28'):
    """z3_bit_vector.z3BitVector.__setitem__: assignment changes one object only, whatever was computed from it"""
    _assign_isolated(x, b, den, k)


def C05_assign_observed(x: 'each BitVector[n]|UIntVector[n]|SIntVector[n]', i: 'each -1..0', b: 'bool'):
    """bit_vector.BitVector.__setitem__: every observation sees the assignment"""
    hash(x)
    old = (int(x), x.as_uint(), x.as_sint(), bool(x), x.bits(), x[i], x.binary_string(), x.as_binary_string())
    x[i] = b
    y = type(x)(x)
    assert bool(x[i]) == b
    assert x.as_uint() == y.as_uint() and x.as_sint() == y.as_sint() and int(x) == int(y) and bool(x) == bool(y)
    assert x.bits()[i] == b and hash(x) == hash(y) and bool(x == y)


def C05_narrowing_warns(x: 'each BitVector[n]|SIntVector[n]|SMTBitVector[n]|SMTSIntVector[n]|z3BitVector[n]|z3UIntVector[n]', k: '1..6'):
    """bit_vector.BitVector.__init__: converting to a narrower type warns, converting to a type as wide does not"""
    T = type(x)
    W = T.unsized_t[x.size + k]
    w0 = warned()
    y = W(x)
    T(x)
    assert warned() == w0, 'a conversion that keeps every bit warns'
    T(y)
    assert warned() == w0 + 1, 'a conversion to a narrower type does not warn'


def C05_sequence_warns(n: 'each 1..3', m: 'each 1..4'):
    """bit_vector.BitVector.__init__: a sequence or integer-like object that does not fit warns, one that fits does not"""
    w0 = warned()
    x = BitVector[n]([1] * m)
    assert warned() == w0 + (m > n)
    assert x.as_uint() == (1 << min(m, n)) - 1
    w0 = warned()
    y = UIntVector[n](HasInt((1 << m) - 1))
    assert warned() == w0 + (m > n)
    assert y.as_uint() == (1 << min(m, n)) - 1
    w0 = warned()
    BitVector[n]((1 << n) - 1)
    BitVector[n](n % 2)
    assert warned() == w0


# ------------------------------------------------------------------ C07
def _algebra(M, N, x, y, p, q, truth):
    """results have the left operand's type; a plain value takes the type of the bit it meets"""
    cases = [(x & y, p and q), (x | y, p or q), (x ^ y, p != q), (x == y, p == q), (x != y, p != q), (~x, not p)]
    for r, e in cases:
        assert type(r) is M, 'result of another type'
        assert truth(r) == e, 'wrong value'
    for r, e in [(x & q, p and q), (x | q, p or q), (x ^ q, p != q), (x == q, p == q), (x != q, p != q)]:
        assert type(r) is M, 'result of another type'
        assert truth(r) == e, 'wrong value'
    for r, e in [(y & x, p and q), (y | x, p or q), (y ^ x, p != q)]:
        assert type(r) is N, 'result of another type'
        assert truth(r) == e, 'wrong value'


def C07_subclass(p: 'bool', q: 'bool'):
    """bit_vector.Bit.__and__: Boolean operators keep the type of a user's bit class"""
    _algebra(MyBit, Bit, MyBit(p), Bit(q), p, q, bool)
    _algebra(Bit, Bit, Bit(p), Bit(q), p, q, bool)
    for r, e in [(q & MyBit(p), p and q), (q | MyBit(p), p or q), (q ^ MyBit(p), p != q)]:
        assert type(r) is MyBit and bool(r) == e
    assert type(Bit(MyBit(p))) is Bit and bool(Bit(MyBit(p))) == p
    assert type(MyBit(Bit(p))) is MyBit and bool(MyBit(Bit(p))) == p


def C07_subclass_smt(p: 'bool', q: 'bool'):
    """smt_bit_vector.SMTBit.__and__: Boolean operators keep the type of a user's bit class"""
    _algebra(SMTMyBit, SMTBit, SMTMyBit(p), SMTBit(q), p, q, den)
    for r, e in [(q & SMTMyBit(p), p and q), (q | SMTMyBit(p), p or q), (q ^ SMTMyBit(p), p != q)]:
        assert type(r) is SMTMyBit and den(r) == e
    assert type(SMTBit(SMTMyBit(p))) is SMTBit and den(SMTBit(SMTMyBit(p))) == p


def C07_subclass_z3(p: 'bool', q: 'bool'):
    """z3_bit_vector.z3Bit.__and__: Boolean operators keep the type of a user's bit class"""
    _algebra(z3MyBit, z3Bit, z3MyBit(p), z3Bit(q), p, q, den)
    assert type(z3Bit(z3MyBit(p))) is z3Bit and den(z3Bit(z3MyBit(p))) == p


# ------------------------------------------------------------------ C09
def C09_poly_index(s: 'Bit', t: 'SMTBit'):
    """bit_vector_util.PolyType.__getitem__: polymorphic types exist for two vectors of one size, or two bits, of one family"""
    V, U, S = BitVector[4], UIntVector[4], SIntVector[4]
    for T0, T1 in ((Bit, V), (V, Bit), (Bit, Bit), (int, V), (V, int), (bool, bool), (object, V)):
        assert raises(TypeError, lambda: PolyVector[T0, T1, s]), 'a polymorphic vector of something else'
    for T0, T1 in ((Bit, V), (V, Bit), (U, S), (int, Bit), (Bit, bool)):
        assert raises(TypeError, lambda: PolyBit[T0, T1, s]), 'a polymorphic bit of something else'
    for T0, T1 in ((U, SIntVector[5]), (BitVector[3], V)):
        assert raises(TypeError, lambda: PolyVector[T0, T1, s]), 'a polymorphic vector of two sizes'
    for sel in (True, 1, None, V(0)):
        assert raises(TypeError, lambda: PolyVector[U, S, sel]), 'selected by something that is not a bit'
    assert raises(TypeError, lambda: PolyVector[U, SMTSIntVector[4], s])
    assert raises(TypeError, lambda: PolyVector[SMTUIntVector[4], S, s])
    assert raises(TypeError, lambda: PolyVector[U, S, t])
    assert raises(TypeError, lambda: PolyBit[MyBit, Bit, t])
    P = PolyVector[U, S, s]
    assert issubclass(P, BitVector) and issubclass(P, PolyBase) and P.size == 4 and P.is_sized
    assert not issubclass(P, UIntVector) and not issubclass(P, SIntVector)


def C09_bits(s: 'Bit', p: 'bool', q: 'bool'):
    """bit_vector_util.PolyBit._get_bases: a choice of bits of two classes has the value and the operators of the selected one"""
    r = s.ite(MyBit(p), Bit(q))
    assert isinstance(r, Bit) and bool(r) == (p if bool(s) else q)
    r = s.ite(Bit(p), MyBit(q))
    assert isinstance(r, Bit) and bool(r) == (p if bool(s) else q)
    assert bool(~r) == (not (p if bool(s) else q))
    assert bool(r & Bit(q)) == ((p and q) if bool(s) else q)
    r = s.ite(LoudBit(p), Bit(q))
    assert isinstance(r, Bit)
    assert bool(~r) == (p if bool(s) else not q), 'the operator of the other branch'


class Documented(UIntVector):
    def __add__(self, other):
        """sum of two vectors"""
        return BitVector[self.size](UIntVector[self.size](self).bvadd(other))

    def ext(self, k):
        """wider"""
        return BitVector[self.size + 1](self)

    def __invert__(self):
        """complement"""
        return UIntVector[self.size](1)


class Redocumented(UIntVector):
    def __add__(self, other):
        """sum of two vectors"""
        return BitVector[self.size](7)

    def ext(self, k):
        """wider"""
        return BitVector[self.size + 2](self)

    def __invert__(self):
        """complement"""
        return UIntVector[self.size](2)


def C09_documented(s: 'Bit', x: '0..15', y: '0..15'):
    """bit_vector_util.build_VCall: methods of one name and one documentation are still two methods"""
    r = s.ite(Documented[4](x), Redocumented[4](y))
    assert bool(s) or int(r + BitVector[4](1)) == 7
    assert not bool(s) or int(r + BitVector[4](1)) == (x + 1) % 16
    assert int(~r) == (1 if bool(s) else 2), 'complement of the other branch'
    r = s.ite(Redocumented[4](x), Documented[4](y))
    assert int(~r) == (2 if bool(s) else 1), 'complement of the other branch'


class LoudBit(Bit):
    def __invert__(self):
        return Bit(self)
