"""substitution in symbolic expressions"""
from hwtypes import SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector

V8, V16, S8, U8 = SMTBitVector[8], SMTBitVector[16], SMTSIntVector[8], SMTUIntVector[8]


def C35_vector(T: 'each class:V8|class:S8|class:U8'):
    """smt_bit_vector.SMTBitVector.substitute: variables are replaced, nothing else changes"""
    a, b, c, d, e = T(name='a'), T(name='b'), T(name='c'), T(name='d'), T(name='e')
    for f in (lambda x, y: x + y * e, lambda x, y: x.bvudiv(y), lambda x, y: (x & e).concat(y)[4:12], lambda x, y: x.bvult(y).ite(x, e), lambda x, y: x):
        r = f(a, b).substitute((a, c), (b, d))
        assert isinstance(r, SMTBitVector) and r.size == 8
        assert den(r) == den(f(c, d)), 'substitution changed the expression'
        assert den(f(a, b).substitute()) == den(f(a, b))
        assert den(f(a, b).substitute((c, d))) == den(f(a, b)), 'a variable that does not occur was replaced'
        assert den(f(a, b).substitute((a, T(7)))) == den(f(T(7), b))
        assert den(f(a, b).substitute((a, d + e))) == den(f(d + e, b))


def C35_simultaneous(T: 'each class:V8|class:S8|class:U8'):
    """smt_bit_vector.SMTBitVector.substitute: all replacements happen at once"""
    a, b, c = T(name='a'), T(name='b'), T(name='c')
    x = a - b
    assert den(x.substitute((a, b), (b, a))) == den(b - a), 'replacements were applied one after the other'
    assert den(x.substitute((a, b), (b, c))) == den(b - c), 'replacements were applied one after the other'
    assert den(x.substitute((b, c), (a, b))) == den(b - c), 'replacements were applied one after the other'


def C35_mixed_sorts():
    """smt_bit_vector.SMTBitVector.substitute: bits inside vector expressions and vectors inside bit expressions"""
    a, b, p, q = V8(name='a'), V8(name='b'), SMTBit(name='p'), SMTBit(name='q')
    assert den(p.ite(a, b).substitute((p, q))) == den(q.ite(a, b))
    assert den(p.ite(a, b).substitute((p, q), (a, b), (b, a))) == den(q.ite(b, a))
    r = (a == b).substitute((a, V8(3)))
    assert isinstance(r, SMTBit) and den(r) == den(V8(3) == b)
    r = (p & (a != b)).substitute((p, a.bvult(b)))
    assert den(r) == den(a.bvult(b) & (a != b))


def C35_bit(x: 'bool'):
    """smt_bit_vector.SMTBit.substitute: variables are replaced, nothing else changes"""
    a, b, c, d = SMTBit(name='a'), SMTBit(name='b'), SMTBit(name='c'), SMTBit(name='d')
    for f in (lambda x, y: x & ~y, lambda x, y: x ^ y | d, lambda x, y: x.ite(y, d), lambda x, y: y):
        r = f(a, b).substitute((a, c), (b, d))
        assert isinstance(r, SMTBit)
        assert den(r) == den(f(c, d)), 'substitution changed the expression'
        assert den(f(a, b).substitute((a, b), (b, a))) == den(f(b, a)), 'replacements were applied one after the other'
        assert den(f(a, b).substitute((b, c), (a, b))) == den(f(b, c)), 'replacements were applied one after the other'
        assert den(f(a, b).substitute()) == den(f(a, b))
        assert den(f(a, b).substitute((b, SMTBit(x)))) == den(f(a, SMTBit(x)))


def C35_unchanged(T: 'each class:SMTBit|class:V8|class:S8'):
    """smt_bit_vector.SMTBitVector.substitute: the original expression keeps its meaning"""
    a, b, c = T(name='a'), T(name='b'), T(name='c')
    x = a ^ b
    before = den(x)
    x.substitute((a, c))
    assert den(x) == before


def C35_sorts(T: 'each class:SMTBit|class:V8|class:S8', U: 'each class:V16|class:SMTBit'):
    """smt_bit_vector.SMTBitVector.substitute: a variable is replaced by a value of its own sort"""
    if not issubclass(T, U):
        a, b, c = T(name='a'), T(name='b'), U(name='c')
        failed = False
        try:
            (a ^ b).substitute((a, c))
        except Exception:
            failed = True
        assert failed, 'ill-sorted expression built'
