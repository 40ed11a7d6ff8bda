"""symbolic variables, integers and formulas of a client"""
import warnings
from hwtypes import (SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, SMTInt, SMTFPVector, z3Bit, z3BitVector, z3SIntVector,
                     z3UIntVector, Bit, BitVector, RoundingMode)
from hwtypes.smt_utils import And, Or, Implies, FormulaConstructor
from pysmt.typing import BVType, BOOL, INT
from hwtypes import smt_bit_vector as sbv, z3_bit_vector as zbv


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class Plain:
    pass


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


V8, V16, S8, U8 = SMTBitVector[8], SMTBitVector[16], SMTSIntVector[8], SMTUIntVector[8]
Z8, Z16, ZS8 = z3BitVector[8], z3BitVector[16], z3SIntVector[8]
F32 = SMTFPVector[8, 23, RoundingMode.RNE, True]


# ------------------------------------------------------------------ C12
def C12_fresh_distinct(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32'):
    """smt_bit_vector._gen_name: two unnamed variables are different variables"""
    a, b = T(), U()
    assert symname(a) is not None and symname(b) is not None
    assert symname(a) != symname(b), 'two live variables share a name'
    c = T()
    assert symname(c) != symname(a) and symname(c) != symname(b)


def C12_avoids_user_names(T: 'each class:SMTBit|class:V8|class:V16|class:S8|class:U8|class:SMTInt|class:F32', W: 'each class:SMTBit|class:V8|class:V16|class:S8|class:U8|class:SMTInt|class:F32', j: 'nat', l: 'nat'):
    """smt_bit_vector._gen_name: a generated name is never one a live variable was given"""
    if j != l:
        x, y = T(name=f'V_{j}'), T(name=f'V_{l}')
        a, b = W(), T()
        assert symname(x) == f'V_{j}' and symname(y) == f'V_{l}', 'an explicit name is used verbatim'
        assert symname(a) != symname(x) and symname(a) != symname(y), 'generated name clashes with an explicit one'
        assert symname(b) != symname(x) and symname(b) != symname(y), 'generated name clashes with an explicit one'
        assert symname(a) != symname(b)


def C12_verbatim(T: 'each class:SMTBit|class:V8|class:S8|class:SMTInt|class:F32', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32'):
    """smt_bit_vector.SMTBitVector.__init__: names are told apart by every character"""
    names = ('x', 'X', ' x', 'x ', 'x_0', 'x-0', 'x.0', '|x|', 'x y', '0', 'V', 'v_0', 'V_', 'V_0x', '_', 'x\u00e9', 'V_01')
    live = []
    for n in names:
        v = T(name=n)
        assert symname(v) == n, 'an explicit name is used verbatim'
        live.append(v)
    for n in names:
        assert raises(ValueError, lambda: U(name=n)), 'a name in use is accepted'
    for i in range(len(names)):
        assert symname(live[i]) == names[i]


def C12_verbatim_z3(T: 'each class:z3Bit|class:Z8|class:ZS8', U: 'class:z3Bit|Z8|Z16|ZS8'):
    """z3_bit_vector.z3BitVector.__init__: names are told apart by every character"""
    names = ('x', 'X', ' x', 'x ', 'x_0', 'x-0', 'x.0', '|x|', 'x y', '0', 'V', 'v_0', 'V_', 'V_0x', '_', 'x\u00e9', 'V_01')
    live = []
    for n in names:
        v = T(name=n)
        assert symname(v) == n, 'an explicit name is used verbatim'
        live.append(v)
    for n in names:
        assert raises(ValueError, lambda: U(name=n)), 'a name in use is accepted'
    for i in range(len(names)):
        assert symname(live[i]) == names[i]


def C12_user_name_after_generated(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', j: 'nat'):
    """smt_bit_vector._gen_name: an explicit name equal to a live generated one is refused"""
    a, b = T(), U()
    n = f'V_{j}'
    taken = n == symname(a) or n == symname(b)
    try:
        c = U(name=n)
    except ValueError:
        assert taken, 'a free name is refused'
    else:
        assert not taken, 'two live variables share a name'
        assert symname(c) == n


def C12_duplicate_name(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', j: 'nat'):
    """smt_bit_vector._gen_name: a name in use is refused, and its first variable keeps it"""
    x = T(name=f'x{j}')
    d = den(x)
    assert raises(ValueError, lambda: U(name=f'x{j}')), 'duplicate name accepted'
    assert raises(ValueError, lambda: T(name=f'x{j}')), 'duplicate name accepted'
    assert symname(x) == f'x{j}' and den(x) == d
    y = U(name=f'x{j + 1}')
    assert symname(y) == f'x{j + 1}'


def C12_name_with_value(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', v: 'bool'):
    """smt_bit_vector._gen_name: a value cannot be named, and the refused name stays free"""
    assert raises(TypeError, lambda: T(v, name='x'))
    assert raises(TypeError, lambda: T(T(), name='x'))
    assert raises(TypeError, lambda: T(T(name='y'), name='y'))
    assert symname(T(name='x')) == 'x'


def C12_name_type(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', i: 'int'):
    """smt_bit_vector._gen_name: names are strings"""
    assert raises(TypeError, lambda: T(name=i))
    assert raises(TypeError, lambda: T(name=None))
    assert raises(TypeError, lambda: T(name=Plain()))
    assert raises(TypeError, lambda: T(name=('x',)))


def C12_values_are_not_variables(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', v: 'bool'):
    """smt_bit_vector._gen_name: constructing from a value or a variable makes no variable"""
    c = T(v)
    assert symname(c) is None
    x = T()
    y = T(x)
    assert symname(y) == symname(x) and symname(T(y.value if hasattr(y, 'value') else y._value)) == symname(x)
    z = U()
    assert symname(z) != symname(x)


def C12_warns(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt', j: 'nat'):
    """smt_bit_vector._gen_name: a warning is given for a name that looks generated, and for no other"""
    n = warned()
    T(name='x')
    T(name='V_')
    T(name='V_1x')
    T(name='xV_1')
    T(name='v_1')
    T()
    assert warned() == n, 'warning about an innocent name'
    T(name='V_7')
    assert warned() > n
    n = warned()
    T(name='V_123')
    assert warned() > n


def C12_prefix(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt', W: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', j: 'nat', p: 'each lit:p|lit:V|lit:p_0|lit:V_0'):
    """smt_bit_vector._gen_name: a prefix gives a new name that starts with it"""
    u = W(name=f'{p}_{j}')
    a, b = T(prefix=p), U(prefix=p)
    c = W()
    assert symname(a).startswith(p + '_') and symname(b).startswith(p + '_')
    xs = [symname(x) for x in (u, a, b, c)]
    for i in range(4):
        for k in range(i):
            assert xs[i] != xs[k], 'two live variables share a name'


def C12_prefixes(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt', p: 'each lit:p|lit:V|lit:p_0|lit:p_1|lit:V_0', q: 'each lit:p|lit:V|lit:p_0|lit:p_1|lit:V_0'):
    """smt_bit_vector._gen_name: variables of several prefixes are all different"""
    xs = [symname(x) for x in (T(prefix=p), U(prefix=q), U(), T(prefix=q), U(prefix=p), T())]
    for i in range(6):
        for k in range(i):
            assert xs[i] != xs[k], 'two live variables share a name'


def C12_prefix_taken(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt', U: 'class:SMTBit|V8|V16|S8|U8|SMTInt|F32', p: 'each lit:p|lit:V|lit:p_0'):
    """smt_bit_vector._gen_name: a name generated from a prefix is in use"""
    a = T(prefix=p)
    n = symname(a)
    assert raises(ValueError, lambda: U(name=n)), 'two live variables share a name'
    b = T(prefix=p)
    assert raises(ValueError, lambda: U(name=symname(b))), 'two live variables share a name'
    assert symname(a) == n and symname(b) != n
    U(name=p)
    assert raises(ValueError, lambda: T(name=p))


def C12_name_and_prefix(T: 'class:SMTBit|V8|V16|S8|U8|SMTInt', v: 'bool'):
    """smt_bit_vector._gen_name: a name and a prefix together are refused, as is a prefix for a value"""
    assert raises(ValueError, lambda: T(name='x', prefix='p'))
    assert raises(TypeError, lambda: T(v, prefix='p'))
    assert raises(TypeError, lambda: T(v, name='x', prefix='p'))
    assert symname(T(name='x')) == 'x'


def C12_fresh_distinct_z3(T: 'class:z3Bit|Z8|Z16|ZS8', U: 'class:z3Bit|Z8|Z16|ZS8'):
    """z3_bit_vector._gen_name: two unnamed variables are different variables"""
    a, b = T(), U()
    assert symname(a) is not None and symname(b) is not None
    assert symname(a) != symname(b), 'two live variables share a name'
    c = T()
    assert symname(c) != symname(a) and symname(c) != symname(b)


def C12_avoids_user_names_z3(T: 'each class:z3Bit|class:Z8|class:Z16|class:ZS8', W: 'each class:z3Bit|class:Z8|class:Z16|class:ZS8', j: 'nat', l: 'nat'):
    """z3_bit_vector._gen_name: a generated name is never one a live variable was given"""
    if j != l:
        x, y = T(name=f'V_{j}'), T(name=f'V_{l}')
        a, b = W(), T()
        assert symname(x) == f'V_{j}' and symname(y) == f'V_{l}', 'an explicit name is used verbatim'
        assert symname(a) != symname(x) and symname(a) != symname(y), 'generated name clashes with an explicit one'
        assert symname(b) != symname(x) and symname(b) != symname(y), 'generated name clashes with an explicit one'
        assert symname(a) != symname(b)


def C12_user_name_after_generated_z3(T: 'class:z3Bit|Z8|Z16|ZS8', U: 'class:z3Bit|Z8|Z16|ZS8', j: 'nat'):
    """z3_bit_vector._gen_name: an explicit name equal to a live generated one is refused"""
    a, b = T(), U()
    n = f'V_{j}'
    taken = n == symname(a) or n == symname(b)
    try:
        c = U(name=n)
    except ValueError:
        assert taken, 'a free name is refused'
    else:
        assert not taken, 'two live variables share a name'
        assert symname(c) == n


def C12_duplicate_name_z3(T: 'class:z3Bit|Z8|Z16|ZS8', U: 'class:z3Bit|Z8|Z16|ZS8', j: 'nat'):
    """z3_bit_vector._gen_name: a name in use is refused, and its first variable keeps it"""
    x = T(name=f'x{j}')
    d = den(x)
    assert raises(ValueError, lambda: U(name=f'x{j}')), 'duplicate name accepted'
    assert raises(ValueError, lambda: T(name=f'x{j}')), 'duplicate name accepted'
    assert symname(x) == f'x{j}' and den(x) == d
    y = U(name=f'x{j + 1}')
    assert symname(y) == f'x{j + 1}'


def C12_name_with_value_z3(T: 'class:z3Bit|Z8|Z16|ZS8', v: 'bool'):
    """z3_bit_vector._gen_name: a value cannot be named, and the refused name stays free"""
    assert raises(TypeError, lambda: T(v, name='x'))
    assert raises(TypeError, lambda: T(T(), name='x'))
    assert raises(TypeError, lambda: T(T(name='y'), name='y'))
    assert symname(T(name='x')) == 'x'


def C12_name_type_z3(T: 'class:z3Bit|Z8|Z16|ZS8', i: 'int'):
    """z3_bit_vector._gen_name: names are strings"""
    assert raises(TypeError, lambda: T(name=i))
    assert raises(TypeError, lambda: T(name=None))
    assert raises(TypeError, lambda: T(name=Plain()))
    assert raises(TypeError, lambda: T(name=('x',)))


def C12_values_are_not_variables_z3(T: 'class:z3Bit|Z8|Z16|ZS8', U: 'class:z3Bit|Z8|Z16|ZS8', v: 'bool'):
    """z3_bit_vector._gen_name: constructing from a value or a variable makes no variable"""
    c = T(v)
    assert symname(c) is None
    x = T()
    y = T(x)
    assert symname(y) == symname(x) and symname(T(y.value if hasattr(y, 'value') else y._value)) == symname(x)
    z = U()
    assert symname(z) != symname(x)


def C12_warns_z3(T: 'class:z3Bit|Z8|Z16|ZS8', j: 'nat'):
    """z3_bit_vector._gen_name: a warning is given for a name that looks generated, and for no other"""
    n = warned()
    T(name='x')
    T(name='V_')
    T(name='V_1x')
    T(name='xV_1')
    T(name='v_1')
    T()
    assert warned() == n, 'warning about an innocent name'
    T(name='V_7')
    assert warned() > n
    n = warned()
    T(name='V_123')
    assert warned() > n


def C12_types():
    """smt_bit_vector.SMTBitVector.__init__: a variable has the sort of its type"""
    assert SMTBit().value.get_type() is BOOL and V8().value.get_type() is BVType(8) and S8(name='x').value.get_type() is BVType(8)
    assert V16(prefix='p').value.get_type() is BVType(16) and SMTInt().value.get_type() is INT and F32()._value.get_type() is BVType(32)
    assert type(S8()) is S8 and type(V16()) is V16 and type(SMTBit()) is SMTBit and type(F32()) is F32


def C12_ops_make_no_variables(j: 'nat'):
    """smt_bit_vector._gen_name: results of operations take no name"""
    a, b = V8(name=f'V_{j}'), V8()
    c = a + b
    d = (a == b).ite(a, c)
    e = V8()
    assert symname(c) is None and symname(d) is None
    assert symname(e) != symname(a) and symname(e) != symname(b)


# ------------------------------------------------------------------ C13
def ints(K, i):
    """an SMT integer of unknown value (variable or constant)"""
    return SMTInt(name='k') if K == 'var' else SMTInt(i)


def C13_arith(x: 'each lit:var|lit:const', y: 'each lit:var|lit:const|lit:int', i: 'int', j: 'int'):
    """smt_int.SMTInt.__add__: + - * and unary minus are integer arithmetic"""
    a = ints(x, i)
    b = SMTInt(name='b') if y == 'var' else (SMTInt(j) if y == 'const' else j)
    m, n = den(a), (j if y == 'int' else den(b))
    for r, v in ((a + b, m + n), (a - b, m - n), (a * b, m * n), (-a, -m), (b + a, n + m), (b - a, n - m), (b * a, n * m)):
        assert type(r) is SMTInt, 'result type'
        assert den(r) == v, 'wrong value'


def C13_order(x: 'each lit:var|lit:const', y: 'each lit:var|lit:const|lit:int', i: 'int', j: 'int'):
    """smt_int.SMTInt.__le__: comparisons are those of the integers, as symbolic bits"""
    a = ints(x, i)
    b = SMTInt(name='b') if y == 'var' else (SMTInt(j) if y == 'const' else j)
    m, n = den(a), (j if y == 'int' else den(b))
    for r, v in ((a < b, m < n), (a <= b, m <= n), (a > b, m > n), (a >= b, m >= n), (a == b, m == n), (a != b, m != n),
                 (b < a, n < m), (b <= a, n <= m), (b > a, n > m), (b >= a, n >= m), (b == a, n == m), (b != a, n != m)):
        assert type(r) is SMTBit, 'result type'
        assert den(r) == v, 'wrong relation'


def C13_floordiv(x: 'each lit:var|lit:const', y: 'each lit:var|lit:const|lit:int', i: 'int', j: 'int'):
    """smt_int.SMTInt.__floordiv__: // is SMT-LIB integer division (the remainder is never negative)"""
    a = ints(x, i)
    b = SMTInt(name='b') if y == 'var' else (SMTInt(j) if y == 'const' else j)
    m, n = den(a), (j if y == 'int' else den(b))
    if n > 0:
        r = a // b
        assert type(r) is SMTInt
        assert den(r) == m // n, 'wrong quotient'
    elif n < 0:
        assert den(a // b) == -(m // -n), 'wrong quotient'
    if m > 0:
        r = b // a
        assert type(r) is SMTInt
        assert den(r) == n // m, 'wrong quotient'
    elif m < 0:
        assert den(b // a) == -(n // -m), 'wrong quotient'


def C13_coerce_python(i: 'int', b: 'bool'):
    """smt_int.SMTInt.__init__: an int, a bool and an object with __int__ give their integer"""
    assert den(SMTInt(i)) == i
    assert den(SMTInt(b)) == int(b)
    assert den(SMTInt(HasInt(i))) == i
    x = SMTInt(name='x')
    assert den(SMTInt(x)) == den(x) and den(SMTInt(x.value)) == den(x)
    assert den(SMTInt(BitVector[8](i % 256))) == i % 256
    assert type(SMTInt(i)) is SMTInt and SMTInt(i).value.get_type() is INT


def C13_coerce_vector(v: 'SMTBitVector[n]', s: 'SMTSIntVector[m]', u: 'SMTUIntVector[m]'):
    """smt_int.SMTInt.__init__: a symbolic vector gives its unsigned value"""
    for x in (v, s, u):
        assert den(SMTInt(x)) == den(x)
        assert den(SMTInt(x.value)) == den(x)
        assert SMTInt(x).value.get_type() is INT


def C13_reject(K: 'each Plain|SMTBit|None'):
    """smt_int.SMTInt.__init__: what is not an integer is refused"""
    assert raises(TypeError, lambda: SMTInt(K))
    x = SMTInt(name='x')
    assert raises(TypeError, lambda: x + K)
    assert raises(TypeError, lambda: x - K)
    assert raises(TypeError, lambda: x * K)
    assert raises(TypeError, lambda: x // K)
    assert raises(TypeError, lambda: x < K)
    assert raises(TypeError, lambda: x <= K)
    assert raises(TypeError, lambda: x > K)
    assert raises(TypeError, lambda: x >= K)


def C13_reject_left(K: 'each Plain|None'):
    """smt_int.SMTInt.__radd__: what is not an integer is refused on the left too"""
    x = SMTInt(name='x')
    assert raises(TypeError, lambda: K + x)
    assert raises(TypeError, lambda: K - x)
    assert raises(TypeError, lambda: K * x)
    assert raises(TypeError, lambda: K // x)


def C13_reject_terms():
    """smt_int.SMTInt.__init__: terms of other sorts are refused"""
    assert raises(TypeError, lambda: SMTInt(SMTBit(name='p').value))


def C13_eq_foreign(K: 'each Plain|None'):
    """smt_int.SMTInt.__eq__: == with a foreign object is False, != True"""
    x = SMTInt(name='x')
    assert (x == K) is False
    assert (x != K) is True


def C13_mixed(v: 'SMTBitVector[n]', i: 'int'):
    """smt_int.int_cast: a vector operand on the right is its unsigned value; operands are not changed"""
    x = SMTInt(name='x')
    m, n = den(x), den(v)
    for r, w in ((x + v, m + n), (x - v, m - n), (x * v, m * n)):
        assert type(r) is SMTInt
        assert den(r) == w
    for r, w in ((x < v, m < n), (x <= v, m <= n), (x > v, m > n), (x >= v, m >= n), (x == v, m == n), (x != v, m != n)):
        assert type(r) is SMTBit
        assert den(r) == w
    if n > 0:
        assert den(x // v) == m // n
    assert den(x) == m and den(v) == n
    y = x + HasInt(i)
    assert den(y) == m + i
    assert den(x - HasInt(i)) == m - i


def C13_bits(i: 'int', j: 'int'):
    """smt_int.SMTInt.__eq__: comparisons combine as bits"""
    x, y = SMTInt(name='x'), SMTInt(name='y')
    m, n = den(x), den(y)
    assert den((x < y) | (x == y)) == (m <= n)
    assert den(~(x < y)) == (m >= n)
    assert den((x < i) & (y > j)) == (m < i and n > j)


# ------------------------------------------------------------------ C14
def C14_and(p: 'SMTBit', q: 'SMTBit', r: 'SMTBit'):
    """smt_utils.And.to_hwtypes: the conjunction of the members"""
    assert den(And([]).to_hwtypes()) is True and type(And([]).to_hwtypes()) is SMTBit
    assert den(And([p]).to_hwtypes()) == den(p)
    for f, v in ((And([p, q]), den(p) and den(q)), (And([p, q, r]), den(p) and den(q) and den(r)), (And([p, p]), den(p)), (And((q, r)), den(q) and den(r))):
        assert type(f.to_hwtypes()) is SMTBit
        assert den(f.to_hwtypes()) == v


def C14_or(p: 'SMTBit', q: 'SMTBit', r: 'SMTBit'):
    """smt_utils.Or.to_hwtypes: the disjunction of the members"""
    assert den(Or([]).to_hwtypes()) is False and type(Or([]).to_hwtypes()) is SMTBit
    assert den(Or([p]).to_hwtypes()) == den(p)
    for f, v in ((Or([p, q]), den(p) or den(q)), (Or([p, q, r]), den(p) or den(q) or den(r)), (Or([p, p]), den(p)), (Or((q, r)), den(q) or den(r))):
        assert type(f.to_hwtypes()) is SMTBit
        assert den(f.to_hwtypes()) == v


def C14_long(p: 'SMTBit', q: 'SMTBit', j: 'each 0..7', i: 'each 0..3'):
    """smt_utils.And.to_hwtypes: every member counts, however many there are"""
    n = (3, 9, 17, 33, 65, 101, 130, 260)[j]
    k = (0, 1, n // 2, n - 2)[i]
    for F, unit in ((And, SMTBit(1)), (Or, SMTBit(0))):
        xs = [unit] * n
        xs[k] = p
        xs[n - 1] = q
        v = (den(p) and den(q)) if F is And else (den(p) or den(q))
        assert den(F(xs).to_hwtypes()) == v
        assert den(F(tuple(xs)).to_hwtypes()) == v
        assert den(F([F([x]) for x in xs]).to_hwtypes()) == v


def C14_implies(p: 'SMTBit', q: 'SMTBit'):
    """smt_utils.Implies.to_hwtypes: the implication, in the order given"""
    f = Implies(p, q)
    assert type(f.to_hwtypes()) is SMTBit
    assert den(f.to_hwtypes()) == (not den(p) or den(q))
    assert den(Implies(q, p).to_hwtypes()) == (not den(q) or den(p))
    assert den(Implies(p, p).to_hwtypes()) == True


def formula(k, d, xs):
    """the k-th formula of depth d over the bits xs, and its truth"""
    if d == 0:
        return xs[k % 3], den(xs[k % 3])
    a, va = formula(k + 1, d - 1, xs)
    b, vb = formula(k // 3 + d, d - 1 if k % 2 else 0, xs)
    c, vc = xs[(k + d) % 3], den(xs[(k + d) % 3])
    if k % 3 == 0:
        return And([a, b, c]), va and vb and vc
    if k % 3 == 1:
        return Or([a, c, b]), va or vc or vb
    return Implies(a, b), not va or vb


def C14_nested(p: 'SMTBit', q: 'SMTBit', r: 'SMTBit', k: 'each 0..11', d: 'each 1..4'):
    """smt_utils._to_hwtypes: members may be formulas, to any depth"""
    f, v = formula(k, d, (p, q, r))
    g = f.to_hwtypes()
    assert type(g) is SMTBit
    assert den(g) == v
    assert den(f.to_hwtypes()) == v, 'a second conversion gives the same'


def C14_empty_members(p: 'SMTBit'):
    """smt_utils.And.to_hwtypes: empty conjunctions and disjunctions are the units"""
    assert den(And([Or([]), p]).to_hwtypes()) == False
    assert den(Or([And([]), p]).to_hwtypes()) == True
    assert den(And([And([]), p]).to_hwtypes()) == den(p)
    assert den(Or([Or([]), p]).to_hwtypes()) == den(p)
    assert den(Implies(Or([]), p).to_hwtypes()) == True
    assert den(Implies(And([]), p).to_hwtypes()) == den(p)
    assert den(Implies(p, Or([])).to_hwtypes()) == (not den(p))


def C14_reject(x: 'Plain|None|bool|int|Bit|z3Bit|SMTBitVector[n]', p: 'SMTBit', i: 'each 0..2'):
    """smt_utils._check: members other than symbolic bits and formulas are refused"""
    xs = [p, p]
    xs.insert(i, x)
    assert raises(ValueError, lambda: And(xs))
    assert raises(ValueError, lambda: Or(xs))
    assert raises(ValueError, lambda: And([x]))
    assert raises(ValueError, lambda: Or([x]))
    assert raises(ValueError, lambda: Implies(x, p))
    assert raises(ValueError, lambda: Implies(p, x))
    assert raises(ValueError, lambda: Implies(And([p]), x))


def C14_copied(p: 'SMTBit', q: 'SMTBit', r: 'SMTBit'):
    """smt_utils.And.__init__: later changes of the list passed in do not change the formula"""
    xs = [p, q]
    f, g = And(xs), Or(xs)
    xs.append(r)
    xs[0] = r
    assert den(f.to_hwtypes()) == (den(p) and den(q))
    assert den(g.to_hwtypes()) == (den(p) or den(q))
    f.to_hwtypes()
    assert len(xs) == 3 and xs[0] is r and xs[1] is q


def C14_is_constructor(p: 'SMTBit'):
    """smt_utils.FormulaConstructor: the three connectives are formulas"""
    for f in (And([p]), Or([p]), Implies(p, p)):
        assert isinstance(f, FormulaConstructor)
    assert raises(TypeError, lambda: FormulaConstructor())


# ------------------------------------------------------------------ C18
F32R = SMTFPVector[8, 23, RoundingMode.RNE, False]
F32Z = SMTFPVector[8, 23, RoundingMode.RTZ, True]
F16 = SMTFPVector[5, 10, RoundingMode.RNE, True]
UNARY = ['fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral']
BINARY = ['fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max']
RELATION = ['fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq']
PREDICATE = ['fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive']
CLASSES = (F32, F32R, F32Z, F16)


def ops(F):
    """every operation of a class on three variables: (name, result, argument values)"""
    a, b, c = F(), F(), F()
    m, n, k = den(a), den(b), den(c)
    out = [(o, getattr(a, o)(), (m,)) for o in UNARY + PREDICATE]
    out += [(o, getattr(a, o)(b), (m, n)) for o in BINARY + RELATION]
    out.append(('fp_fma', a.fp_fma(b, c), (m, n, k)))
    return out


def C18_application(F: 'each class:F32|class:F32R|class:F32Z|class:F16'):
    """smt_fp_vector.SMTFPVector._fp_method: an operation is a function of its operands, in order, with the right result type"""
    for o, r, args in ops(F):
        assert type(r) is (SMTBit if o in RELATION or o in PREDICATE else F), 'result type'
        p = app(r)
        assert p is not None, 'not an application'
        assert p[1:] == args, 'operands out of order'


def C18_functional(F: 'each class:F32|class:F32R|class:F32Z|class:F16'):
    """smt_fp_vector.SMTFPVector._fp_method: equal operands give equal terms"""
    xs, ys = ops(F), ops(F)
    for (o, r, _), (_, s, _) in zip(xs, ys):
        assert app(r)[0] == app(s)[0], 'two applications of one operation use two functions'
    a, b = F(), F()
    for o in BINARY + RELATION:
        assert den(getattr(a, o)(b)) == den(getattr(a, o)(b))
        assert den(getattr(F(a), o)(F(b))) == den(getattr(a, o)(b))
    for o in UNARY + PREDICATE:
        assert den(getattr(a, o)()) == den(getattr(F(a), o)())


def C18_distinct():
    """smt_fp_vector.SMTFPVector.__init_subclass__: operations and formats never share a function"""
    names = [app(r)[0] for F in CLASSES for _, r, _ in ops(F)]
    for F in CLASSES:
        a = F()
        names += [app(a.to_ubv(8))[0], app(a.to_ubv(16))[0], app(a.to_sbv(8))[0], app(a.to_sbv(16))[0]]
    assert len(set(names)) == len(names), 'two operations share a function'


def C18_operators(F: 'each class:F32|class:F32R|class:F32Z|class:F16'):
    """smt_fp_vector.SMTFPVector.__add__: the Python operators are the named operations"""
    a, b = F(), F()
    for r, s in ((-a, a.fp_neg()), (abs(a), a.fp_abs()), (a + b, a.fp_add(b)), (a - b, a.fp_sub(b)), (a * b, a.fp_mul(b)),
                 (a / b, a.fp_div(b)), (a % b, a.fp_rem(b)), (a == b, a.fp_eq(b)), (a < b, a.fp_lt(b)), (a <= b, a.fp_leq(b)),
                 (a > b, a.fp_gt(b)), (a >= b, a.fp_geq(b))):
        assert type(r) is type(s)
        assert den(r) == den(s)
    r = a != b
    assert type(r) is SMTBit and den(r) == (not den(a.fp_eq(b)))


def C18_integers(F: 'each class:F32|class:F32R|class:F16', k: 'each 1|8|32|33'):
    """smt_fp_vector.SMTFPVector.to_ubv: conversions to vectors are functions of the value, one per width and signedness"""
    a, b = F(), F()
    u, s = a.to_ubv(k), a.to_sbv(k)
    assert u.size == k and s.size == k and isinstance(u, SMTBitVector) and isinstance(s, SMTBitVector)
    assert app(u)[1:] == (den(a),) and app(s)[1:] == (den(a),)
    assert app(u)[0] != app(s)[0]
    assert app(a.to_ubv(k + 1))[0] != app(u)[0] and app(a.to_sbv(k + 1))[0] != app(s)[0]
    assert app(b.to_ubv(k))[0] == app(u)[0] and app(b.to_ubv(k))[1:] == (den(b),)
    assert app(b.to_sbv(k))[0] == app(s)[0] and app(b.to_sbv(k))[1:] == (den(b),)
    assert den(a.to_ubv(k)) == den(u) and den(a.to_sbv(k)) == den(s)


def C18_width(F: 'each class:F32|class:F16', k: 'nat'):
    """smt_fp_vector.SMTFPVector.to_ubv: a conversion has the width asked for"""
    a = F()
    if k > 0:
        assert a.to_ubv(k).size == k and a.to_sbv(k).size == k


def C18_reinterpret(F: 'each class:F32|class:F32R|class:F32Z', v: 'SMTBitVector[32]'):
    """smt_fp_vector.SMTFPVector.reinterpret_from_bv: reinterpretation keeps the bits, both ways"""
    x = F.reinterpret_from_bv(v)
    assert type(x) is F and den(x) == den(v)
    y = x.reinterpret_as_bv()
    assert isinstance(y, SMTBitVector) and y.size == 32 and den(y) == den(v)
    a = F()
    assert den(a.reinterpret_as_bv()) == den(a) and den(F.reinterpret_from_bv(a.reinterpret_as_bv())) == den(a)


def C18_reinterpret_width(v: 'SMTBitVector[n]'):
    """smt_fp_vector.SMTFPVector.reinterpret_from_bv: a vector of another width is refused"""
    if v.size != 16:
        assert raises(TypeError, lambda: F16.reinterpret_from_bv(v))
        assert raises(TypeError, lambda: F16(v.value))
    else:
        assert den(F16.reinterpret_from_bv(v)) == den(v)


def C18_construct(F: 'each class:F32|class:F32R|class:F16', K: 'each Plain|None|SMTBit'):
    """smt_fp_vector.SMTFPVector.__init__: a value is a term of the right sort, an int encoding or a value of the type"""
    a = F()
    assert den(F(a)) == den(a) and den(F(a._value)) == den(a)
    assert raises(TypeError, lambda: F(K))
    assert raises(TypeError, lambda: F(SMTBit(name='p').value))
    assert type(F(a)) is F


def C18_construct_int(i: '0..65535'):
    """smt_fp_vector.SMTFPVector.__init__: an int is the encoding"""
    assert den(F16(i)) == i
    assert den(F16(i).reinterpret_as_bv()) == i


def C18_other_format():
    """smt_fp_vector.SMTFPVector.__init__: values of another format are refused"""
    assert raises(TypeError, lambda: F32(F16()))
    assert raises(TypeError, lambda: F32(F32R()))
    assert raises(TypeError, lambda: F16(F32()))


def C18_subclass():
    """smt_fp_vector.SMTFPVector.__init_subclass__: a subclass of a format has its own functions"""
    class G(F32):
        pass

    for (o, r, _), (_, s, args) in zip(ops(F32), ops(G)):
        assert app(r)[0] != app(s)[0]
        assert app(s)[1:] == args
        assert type(s) is (SMTBit if o in RELATION or o in PREDICATE else G)
