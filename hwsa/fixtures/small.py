"""Vectors of small widths: loops over the bits are unrolled, so no closed form is needed."""
from hwtypes import Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, SMTUIntVector, SMTSIntVector, z3Bit, z3BitVector, z3UIntVector, z3SIntVector


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def val(x):
    return x.as_uint() if isinstance(x, (Bit, BitVector)) else den(x)


def bit(x):
    return bool(x) if isinstance(x, Bit) else den(x)


def C06_small(x: 'each BitVector[1]|BitVector[2]|BitVector[3]|SIntVector[2]|SMTBitVector[1]|SMTBitVector[2]|SMTSIntVector[3]|z3BitVector[1]|z3BitVector[2]|z3UIntVector[3]', k: 'each 0..5'):
    """bit_vector.BitVector.repeat: extension and repetition of small vectors"""
    T, n, v = type(x).unsized_t, x.size, val(x)
    neg = v >= 1 << (n - 1)
    r = x.zext(k)
    assert type(r) is T[n + k] and val(r) == v
    r = x.sext(k)
    assert type(r) is T[n + k] and val(r) == v + ((((1 << k) - 1) << n) if neg else 0)
    if k:
        r = x.repeat(k)
        assert type(r) is T[n * k] and val(r) == v * sum([1 << (i * n) for i in range(k)])


def C06_small_slice(x: 'each BitVector[1]|BitVector[3]|UIntVector[4]|SMTBitVector[3]|SMTUIntVector[4]|z3BitVector[3]|z3SIntVector[4]', i: 'each 0..3'):
    """bit_vector.BitVector.__getitem__: every slice and index of a small vector"""
    T, n, v = type(x).unsized_t, x.size, val(x)
    if i >= n:
        assert raises(IndexError, lambda: x[i]) and raises(IndexError, lambda: x[-1 - i])
        return
    assert bit(x[i]) == (v >> i) % 2
    assert bit(x[i - n]) == (v >> i) % 2
    for j in range(i + 1, n + 1):
        r = x[i:j]
        assert type(r) is T[j - i] and val(r) == (v >> i) % (1 << (j - i))


def C06_small_slice_any(x: 'each SMTBitVector[1]|SMTUIntVector[3]|z3BitVector[1]|z3SIntVector[3]', a: 'each -5..4', b: 'each -5..4'):
    """bit_vector.BitVector.__getitem__: a slice of a symbolic vector is refused or has the bits of the Python slice"""
    n, v = x.size, val(x)
    idx = list(range(n))[a:b]
    try:
        r = x[a:b]
    except Exception:
        return
    assert r.size == len(idx)
    assert val(r) == sum([((v >> i) % 2) << k for k, i in enumerate(idx)])


def C06_small_slice_step(x: 'each SMTBitVector[1]|SMTUIntVector[3]|z3BitVector[1]|z3SIntVector[3]', c: 'each -3..3'):
    """bit_vector.BitVector.__getitem__: symbolic vectors have no slices with a step"""
    if c != 1:
        assert raises(IndexError, lambda: x[::c])
        assert raises(IndexError, lambda: x[0:1:c])


def C06_small_concat(x: 'each BitVector[1]|BitVector[3]|SIntVector[2]|SMTBitVector[3]|SMTUIntVector[2]|z3BitVector[3]|z3SIntVector[2]', y: '0..7', m: 'each 1..3'):
    """bit_vector.BitVector.concat: the parts of a concatenation, least significant first"""
    T, n, v = type(x).unsized_t, x.size, val(x)
    w = y % (1 << m)
    r = x.concat(T[m](w))
    assert type(r) is T[n + m] and val(r) == v + (w << n)
    r = T[m](w).concat(x)
    assert type(r) is T[n + m] and val(r) == w + (v << m)


def C05_small(x: 'each BitVector[1]|BitVector[3]|SIntVector[2]|SMTBitVector[2]|z3BitVector[2]'):
    """bit_vector.BitVector.bits: the bits of a small vector and back"""
    T, n, v = type(x), x.size, val(x)
    bs = [bit(x[i]) for i in range(n)]
    if isinstance(x, BitVector):
        assert [bool(b) for b in x.bits()] == bs
        assert val(T(x.bits())) == v and val(T(bs)) == v and val(T(list(x))) == v and val(T([int(b) for b in bs])) == v
    assert v == sum([bs[i] << i for i in range(n)])
    assert len(x) == n


class Whole:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def C05_implicit(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTSIntVector|class:z3BitVector|class:z3SIntVector', k: '0..40'):
    """bit_vector_abc.AbstractBitVectorMeta.__call__: without a size the width is the smallest that holds the value"""
    n = max([1] + [i + 1 for i in range(6) if (k >> i) % 2])
    for x in (B(k), B(Whole(k))):
        assert type(x) is B[n] and val(x) == k
    x = B(k > 20)
    assert type(x) is B[1] and val(x) == (1 if k > 20 else 0)


def C05_implicit_seq(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTSIntVector|class:z3BitVector|class:z3SIntVector', k: '0..15', m: 'each 1..4'):
    """bit_vector_abc.AbstractBitVectorMeta.__call__: without a size a sequence of bits gives a vector as wide"""
    bs = [(k >> i) % 2 for i in range(m)]
    for x in (B(bs), B(tuple(bs)), B([b == 1 for b in bs])):
        assert type(x) is B[m] and val(x) == k % (1 << m)
    assert type(B[3](k)) is B[3] and type(B(B[3](k))) is B[3] and val(B(B[3](k))) == k % 8


def C06_small_observe(x: 'each BitVector[1]|BitVector[2]|SIntVector[1]|SIntVector[3]|UIntVector[2]|SMTBitVector[1]|SMTBitVector[2]|SMTSIntVector[1]|SMTSIntVector[3]'):
    """bit_vector.BitVector.as_sint: the numbers a small vector stands for"""
    n, v = x.size, val(x)
    s = v - (1 << n) if v >= 1 << (n - 1) else v
    if isinstance(x, BitVector):
        assert x.as_uint() == v and x.as_sint() == s and int(x) == (s if isinstance(x, SIntVector) else v) and bool(x) == (v != 0)
    else:
        assert den(x.as_uint()) == v and den(x.as_sint()) == s


def C05_small_assign(x: 'each BitVector[1]|BitVector[3]|SIntVector[2]|SMTBitVector[2]|z3BitVector[2]', i: 'each 0..2', b: 'each 0..1'):
    """bit_vector.BitVector.__setitem__: assigning one bit of a small vector"""
    T, n, v = type(x), x.size, val(x)
    if i < n:
        z = T(x)
        z[i] = b
        assert val(z) == v - ((v >> i) % 2 << i) + (b << i)
        assert val(x) == v


def _ops(x, y, o):
    T, n, v = type(x), x.size, val(x)
    w = y % (1 << n)
    z = T(w)
    s = v - (1 << n) if v >= 1 << (n - 1) else v
    k = w if w < n else n
    r, e = [lambda: (x.bvadd(z), v + w), lambda: (x.bvsub(z), v - w), lambda: (x.bvmul(z), v * w), lambda: (x.bvneg(), -v),
            lambda: (x.bvand(z), v & w), lambda: (x.bvor(z), v | w), lambda: (x.bvxor(z), v ^ w), lambda: (x.bvnot(), ~v),
            lambda: (x.bvshl(z), v << k), lambda: (x.bvlshr(z), v >> k), lambda: (x.bvashr(z), s >> k)][o]()
    assert type(r) is T and val(r) == e % (1 << n)


def _compare(x, y):
    T, n, v = type(x), x.size, val(x)
    w = y % (1 << n)
    z = T(w)
    s = v - (1 << n) if v >= 1 << (n - 1) else v
    t = w - (1 << n) if w >= 1 << (n - 1) else w
    assert bit(x.bvult(z)) == (v < w) and bit(x.bvule(z)) == (v <= w) and bit(x.bvugt(z)) == (v > w) and bit(x.bvuge(z)) == (v >= w)
    assert bit(x.bvslt(z)) == (s < t) and bit(x.bvsle(z)) == (s <= t) and bit(x.bvsgt(z)) == (s > t) and bit(x.bvsge(z)) == (s >= t)
    assert bit(x.bveq(z)) == (v == w) and bit(x.bvne(z)) == (v != w)


def C01_small(x: 'each BitVector[1]|BitVector[2]|BitVector[3]|SIntVector[3]', y: '0..7', o: 'each 0..10'):
    """bit_vector.BitVector.bvadd: operations on small vectors"""
    _ops(x, y, o)


def C01_small_compare(x: 'each BitVector[1]|BitVector[2]|BitVector[3]|SIntVector[3]', y: '0..7'):
    """bit_vector.BitVector.bvult: comparisons of small vectors"""
    _compare(x, y)


def C02_small(x: 'each SMTBitVector[1]|SMTBitVector[2]|SMTSIntVector[3]', y: '0..7', o: 'each 0..10'):
    """smt_bit_vector.SMTBitVector.bvadd: operations on small vectors"""
    _ops(x, y, o)


def C02_small_compare(x: 'each SMTBitVector[1]|SMTBitVector[2]|SMTSIntVector[3]', y: '0..7'):
    """smt_bit_vector.SMTBitVector.bvult: comparisons of small vectors"""
    _compare(x, y)


def C03_small(x: 'each z3BitVector[1]|z3BitVector[2]|z3SIntVector[3]', y: '0..7', o: 'each 0..10'):
    """z3_bit_vector.z3BitVector.bvadd: operations on small vectors"""
    _ops(x, y, o)


def C03_small_compare(x: 'each z3BitVector[1]|z3BitVector[2]|z3SIntVector[3]', y: '0..7'):
    """z3_bit_vector.z3BitVector.bvult: comparisons of small vectors"""
    _compare(x, y)


def C07_not_a_bit(B: 'each class:Bit|class:SMTBit|class:z3Bit', k: 'each 0..7', m: 'int'):
    """bit_vector.Bit.__init__: sequences, strings and mappings are no bits; integers are only when 0 or 1"""
    v = ([], [1], (), (False,), '', '1', {}, {1: 1})[k]
    assert raises(TypeError, lambda: B(v))
    assert raises(TypeError, lambda: B(1) & v) and raises(TypeError, lambda: B(0) | v) and raises(TypeError, lambda: B(0) ^ v)
    if m == 0 or m == 1:
        assert bit(B(m)) == (m == 1)
    else:
        assert raises(ValueError, lambda: B(m))


def C05_make_constant(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTSIntVector|class:z3BitVector|class:z3SIntVector', m: 'each 1..5', k: 'int'):
    """bit_vector.BitVector.make_constant: a constant of the given size, from the sized and the unsized type"""
    for T in (B, B[1], B[3], B[8]):
        x = T.make_constant(k, m)
        assert type(x) is B[m] and val(x) == k % (1 << m)
    assert type(B[3].make_constant(k)) is B[3] and val(B[3].make_constant(k)) == k % 8


def C05_make_constant_empty(B: 'each class:BitVector|class:UIntVector|class:SIntVector|class:SMTBitVector|class:SMTSIntVector', k: 'int'):
    """bit_vector.BitVector.make_constant: size 0 is a size"""
    assert type(B[8].make_constant(k, 0)) is B[0] and type(B.make_constant(k, 0)) is B[0]


def C05_seq_kinds(B: 'each class:BitVector|class:UIntVector|class:SIntVector', n: 'each 1..4', k: '0..15', j: 'int'):
    """bit_vector.BitVector.__init__: every element of a sequence counts by its truth value, whatever kind of sequence"""
    bs = [(k >> i) % 2 for i in range(n)]
    for s in (bs, tuple(bs), [b == 1 for b in bs], [Bit(b) for b in bs], [BitVector[2](b + b) for b in bs]):
        assert int(B[n](s)) % (1 << n) == k % (1 << n) and B[n](s).as_uint() == k % (1 << n)
    assert B[n]([j] + [0] * (n - 1)).as_uint() == (0 if j == 0 else 1)
    assert B[2](range(2)).as_uint() == 2 and B[3](range(2)).as_uint() == 2
