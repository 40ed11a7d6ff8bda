"""Python constructs a refactoring may introduce: the engine must agree with CPython on each."""
import functools
import itertools
import operator
import warnings
import random
import typing as tp
from collections import namedtuple, OrderedDict, defaultdict, ChainMap, Counter, deque
from functools import partial, reduce, wraps, lru_cache
from contextlib import contextmanager, suppress
from dataclasses import dataclass
from types import SimpleNamespace, MappingProxyType
from enum import Enum, IntEnum


def t_partial():
    f = partial(operator.add, 3)
    return f(4), f.func is operator.add, f.args


def t_partial_kw():
    def g(a, b=1, *, c=2):
        return a, b, c
    return partial(g, b=5)(1), partial(g, 1, c=7)(b=2)


def t_reduce():
    return reduce(lambda a, b: a * 2 + b, [1, 0, 1, 1]), reduce(operator.or_, [1, 2, 4], 8)


def t_itertools():
    return (list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])),
            list(itertools.islice(itertools.count(3), 3)), list(itertools.product([1, 2], 'ab')),
            list(itertools.repeat(1, 3)), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.accumulate([1, 2, 3])), list(itertools.starmap(operator.add, [(1, 2), (3, 4)])),
            list(itertools.zip_longest([1, 2], [3], fillvalue=0)))


def t_pairwise():
    return list(itertools.combinations([1, 2, 3], 2)), list(itertools.permutations([1, 2]))


def t_walrus():
    if (n := len([1, 2])) > 1:
        return n
    return 0


def t_while_else():
    i = 0
    while i < 3:
        if i == 7:
            break
        i += 1
    else:
        i = 100
    return i


def t_for_else():
    for i in range(3):
        if i == 1:
            break
    else:
        i = 10
    for j in range(3):
        pass
    else:
        j = 10
    return i, j


def t_try_else_finally():
    log = []

    def f(x):
        try:
            log.append('t')
            if x:
                raise KeyError('k')
        except KeyError as e:
            log.append(e.args[0])
            return 1
        else:
            log.append('e')
        finally:
            log.append('f')
        return 2
    return f(0), f(1), log


def t_nested_except():
    try:
        try:
            {}['a']
        except KeyError as e:
            raise ValueError('v') from e
    except (TypeError, ValueError) as e:
        return str(e), type(e.__cause__) is KeyError


def t_reraise():
    try:
        try:
            raise TypeError('x')
        except Exception:
            raise
    except TypeError as e:
        return e.args


def t_generator():
    def g(n):
        for i in range(n):
            yield i
        yield from [10, 11]
    return list(g(2)), sum(g(3)), tuple(x for x in g(1))


def t_genexp_in_call():
    return any(x > 2 for x in [1, 2, 3]), all(x > 2 for x in [1, 2, 3]), max((x for x in [1, 5, 2])), min([3, 1], key=lambda v: -v)


def t_closure_nonlocal():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    return inc(), inc(), n


def t_star_unpack():
    a, *b, c = [1, 2, 3, 4]
    (d, e), f = (1, 2), 3
    return a, b, c, d, e, f, [*b, 5], {**{'x': 1}, 'y': 2}, (*b,)


def t_slices():
    l = list(range(6))
    l[1:3] = [9]
    del l[0]
    return l, l[::-1], l[-2:], l[1:4:2]


def t_dict_methods():
    d = {'a': 1}
    d.setdefault('b', 2)
    d.update(c=3)
    e = dict(d, z=0)
    p = d.pop('a')
    return d, e, p, list(d.items()), d.get('q', 7), sorted(d), 'b' in d, {k: v for k, v in d.items() if v > 2}, dict(zip('ab', [1, 2])), d | {'b': 5}


def t_set_ops():
    s = {1, 2} | {3}
    return sorted(s), s - {1} == {2, 3}, s & {1} == {1}, s >= {1}, frozenset([1]) == {1}, s.isdisjoint({9}), not ({1} - {1})


def t_string_ops():
    return ('{}-{b}'.format(1, b=2), '%s:%d' % ('a', 3), 'abc'[::-1], 'a,b'.split(','), 'x'.join(['1', '2']), 'ab'.upper(), 'abc'.startswith('ab'),
            f'{3!r:>4}', f'{5:b}', f'{5:#x}', '7'.zfill(3), 'aXb'.replace('X', '-'), 'abc'.find('c'), 'a' * 3, ' a '.strip(), 'a.b'.rpartition('.'), 'ab'.isidentifier(),
            '_x_'.startswith('_') and '_x_'.endswith('_'), str(10).rjust(4), 'abc'.index('b'), 'aba'.count('a'), format(5, '04b'))


def t_int_ops():
    return ((5).bit_length(), divmod(-7, 3), pow(2, 10), int('101', 2), abs(-3), -7 // 2, -7 % 3, ~5, 5 ^ 3, 1 << 4, bin(5), hex(255), int(True), bool(0), round(2.0), pow(3, 4, 5), (5).to_bytes(2, 'big'), int.from_bytes(b'\x01\x02', 'little'))


def t_match():
    def f(x):
        match x:
            case int():
                return 'int'
            case (a, b):
                return a + b
            case {'k': v}:
                return v
            case str() | bytes():
                return 's'
            case _:
                return None
    return f(1), f((1, 2)), f({'k': 5}), f('q'), f(2.5)


class Base:
    registry = []

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        Base.registry.append(cls.__name__)

    @property
    def p(self):
        return 1

    @staticmethod
    def s(x):
        return x + 1

    @classmethod
    def c(cls):
        return cls.__name__


class Child(Base):
    @property
    def p(self):
        return super().p + 1


def t_classes():
    c = Child()
    return c.p, Child.s(1), c.c(), Base.registry[:1], isinstance(c, Base), issubclass(Child, Base), hasattr(c, 'zz'), getattr(c, 'zz', 3), vars(c) == {}, Child.__mro__[1] is Base, type(c).__name__


def t_slots():
    class S:
        __slots__ = ('a',)

        def __init__(self):
            self.a = 1
    s = S()
    try:
        s.b = 2
    except AttributeError:
        return s.a


def t_getattr_hook():
    class G:
        def __getattr__(self, n):
            if n.startswith('x'):
                return n
            raise AttributeError(n)
    return G().xy, hasattr(G(), 'y')


def t_descriptor():
    class D:
        def __set_name__(self, owner, name):
            self.name = name

        def __get__(self, o, t=None):
            return self if o is None else (self.name, o.v)

    class A:
        d = D()
        v = 5
    return A().d, A.d.name


def t_dunder():
    class V:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return isinstance(o, V) and self.v == o.v
        def __hash__(self): return hash(self.v)
        def __add__(self, o): return V(self.v + o.v) if isinstance(o, V) else NotImplemented
        def __radd__(self, o): return V(self.v + o)
        def __iadd__(self, o):
            self.v += 100
            return self
        def __getitem__(self, i): return (self.v, i)
        def __len__(self): return 3
        def __contains__(self, x): return x == self.v
        def __iter__(self): return iter([self.v])
        def __call__(self, *a, **k): return a, k
        def __bool__(self): return False
        def __neg__(self): return V(-self.v)
        def __enter__(self): return self
        def __exit__(self, *a): return True
        def __index__(self): return self.v
    a = V(1)
    b = a + V(2)
    c = 5 + a
    a += 1
    with V(3) as w:
        raise KeyError
    return b.v, c.v, a.v, a[0, 1], a[1:2] == (101, slice(1, 2)), len(a), 101 in a, list(a), a(1, k=2), bool(a), (-b).v, w.v, {V(1): 2}[V(1)], V(1) != V(2), [5, 6, 7][V(1)]


def t_contextmanager():
    log = []

    @contextmanager
    def cm(x):
        log.append('in')
        try:
            yield x
        finally:
            log.append('out')
    with cm(3) as y:
        log.append(y)
    with suppress(KeyError):
        {}['a']
    return log


def t_decorators():
    def deco(n):
        def d(f):
            @wraps(f)
            def w(*a, **k):
                return f(*a, **k) + n
            return w
        return d

    @deco(10)
    @deco(1)
    def f(x):
        """doc"""
        return x
    return f(1), f.__name__, f.__doc__, f.__wrapped__(1)


def t_lru():
    calls = []

    @lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x * 2
    return f(1), f(1), calls


def t_functools_cache():
    calls = []

    @functools.cache
    def f(x):
        calls.append(x)
        return x
    return f(2), f(2), calls


def t_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def p(self):
            self.n += 1
            return self.n
    a = A()
    return a.p, a.p


def t_singledispatch():
    @functools.singledispatch
    def f(x):
        return 'obj'

    @f.register(int)
    def _(x):
        return 'int'

    @f.register
    def _(x: str):
        return 'str'
    return f(1), f('a'), f(None)


def t_namedtuple():
    P = namedtuple('P', 'a b')
    p = P(1, b=2)
    return p.a, p[1], p._replace(a=5).a, p._fields, tuple(p), p == (1, 2), p._asdict()


class NT(tp.NamedTuple):
    x: int
    y: str = 'q'


def t_typed_namedtuple():
    return NT(1).y, NT(1, 'z')[1], NT(x=3).x


@dataclass
class DC:
    a: int
    b: int = 3

    def s(self):
        return self.a + self.b


def t_dataclass():
    return DC(1).s(), DC(1, 2).b, DC(1) == DC(1, 3)


def t_simplenamespace():
    return SimpleNamespace(a=1).a


def t_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    return dict(d), d['zz'], OrderedDict([('a', 1)])['a'], len(Counter('aab')), list(deque([1, 2]))


def t_enum():
    class E(Enum):
        A = 1
        B = 2
    return E.A.value, E['B'].name, [e.name for e in E], E(1) is E.A


def t_operator():
    return (operator.itemgetter(1)([5, 6]), operator.attrgetter('real')(3), operator.methodcaller('upper')('a'), operator.itemgetter(0, 1)('ab'),
            operator.not_(0), operator.truth(3), operator.lshift(1, 3), operator.invert(2), operator.getitem([1, 2], 0), operator.floordiv(7, 2), operator.index(3), operator.contains([1], 1))


def t_ops_table():
    table = {'add': operator.add, 'sub': operator.sub, 'cmp': lambda a, b: a < b}
    return {k: f(5, 3) for k, f in table.items()}


def t_method_table():
    class A:
        def f(self): return 1
        def g(self): return 2
        T = {'f': f, 'g': g}

        def call(self, n): return self.T[n](self)
    return A().call('g'), A.__dict__['f'](A()), getattr(A(), 'f')(), A.f(A())


def t_setattr_loop():
    class A:
        pass
    for i, n in enumerate(['x', 'y']):
        def f(self, i=i):
            return i
        f.__name__ = n
        setattr(A, n, f)
    return A().x(), A().y(), A.x.__name__


def t_type3():
    T = type('T', (Base,), {'q': 3, 'm': lambda self: self.q})
    return T().m(), T.__name__, T.__bases__[0] is Base


def t_meta():
    class M(type):
        def __new__(mcs, name, bases, ns, **kw):
            ns['added'] = sorted(k for k in ns if not k.startswith('__'))
            return super().__new__(mcs, name, bases, ns)

        def __init__(cls, name, bases, ns, **kw):
            super().__init__(name, bases, ns)
            cls.kw = kw

        def __call__(cls, *a):
            o = super().__call__(*a)
            return ('made', o.v)

        def __getitem__(cls, i):
            return cls.__name__, i

        def __len__(cls):
            return 7

        def __iter__(cls):
            return iter([1, 2])

    class A(metaclass=M, opt=1):
        a = 1

        def __init__(self, v):
            self.v = v
    return A.added, A.kw, A(5), A[3], len(A), list(A)


def t_prepare():
    class M(type):
        @classmethod
        def __prepare__(mcs, name, bases):
            return {'pre': 1}

    class A(metaclass=M):
        x = pre + 1
    return A.x, A.pre


def t_class_body_flow():
    class A:
        for _i in range(2):
            locals()['v%d' % _i] = _i
        if True:
            y = 1
        z = [y for _ in range(2)] if False else 5
    return A.v1, A.y, A.z


def t_global_helpers():
    return _helper(3), _TABLE['a'](2), _Lazy().value


def _helper(x, *, scale=2):
    return x * scale


_TABLE = {'a': lambda x: x + 1}


class _Lazy:
    value = property(lambda self: 42)


def t_lambda_default():
    fs = [lambda x, k=k: x * k for k in range(3)]
    return [f(2) for f in fs]


def t_cond_expr_chain():
    x = 5
    return 1 if x < 3 else 2 if x < 4 else 3, 1 < x < 10, not x == 5, x in (1, 5), x is not None, x and 0 or 7


def t_chained_assign():
    a = b = [1]
    a.append(2)
    x, y = 1, 2
    x, y = y, x
    return b, x, y


def t_augmented():
    l = [1]
    l += [2]
    l *= 2
    d = {'a': 1}
    d['a'] |= 4
    s = 'a'
    s += 'b'
    return l, d, s


def t_assert_msg():
    try:
        assert 1 == 2, 'msg'
    except AssertionError as e:
        return e.args


def t_isinstance_tuple():
    kinds = (int, str)
    return isinstance(1, kinds), isinstance(1.5, kinds), isinstance(True, int), issubclass(bool, (int,)), isinstance(1, int | str)


def t_kwargs():
    def f(a, /, b, *args, c=1, **kw):
        return a, b, args, c, kw
    return f(1, 2), f(1, 2, 3, c=4, d=5), f(*[1, 2], **{'c': 9})


def t_sorted():
    return sorted([3, 1, 2], reverse=True), sorted('bca'), sorted([(1, 'b'), (0, 'a')], key=lambda t: t[1]), list(reversed([1, 2])), [1, 2].index(2), [1, 1].count(1)


def t_list_methods():
    l = [3, 1]
    l.sort()
    l.extend((5, 6))
    l.insert(0, 0)
    l.reverse()
    x = l.pop()
    l.remove(5)
    m = l.copy()
    m.clear()
    return l, x, m, [0] * 3, [[]] * 0, (1,) + (2,), (1, 2) * 2


def t_iter_next():
    it = iter([1, 2])
    a = next(it)
    b = next(it)
    c = next(it, 'end')
    return a, b, c, list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(None, [0, 1])), list(zip([1, 2], 'ab')), list(enumerate('a', 1))


def t_ann():
    x: int = 3
    y: tp.Optional[int]
    return x


def t_fn_attrs():
    def f(): return 1
    f.tag = 'x'
    return f.tag, f.__name__, callable(f), f.__defaults__


def t_eval_order():
    log = []

    def p(x):
        log.append(x)
        return x
    p(1) + p(2) * p(3)
    {p(4): p(5)}
    p(6) if p(0) else p(7)
    return log


def t_del():
    x = [1, 2]
    del x[0]
    d = {'a': 1}
    del d['a']

    class A:
        q = 1
    del A.q
    return x, d, hasattr(A, 'q')


def t_mapping_proxy():
    m = MappingProxyType({'a': 1})
    try:
        m['b'] = 2
    except TypeError:
        return m['a'], len(m), 'a' in m, list(m)


def t_warn():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        warnings.warn('x')
    return 1


def t_recursion():
    def f(n):
        return 1 if n == 0 else n * f(n - 1)
    return f(5)


def t_inner_class_super():
    class A:
        def __init__(self, x):
            self.x = x

    class B(A):
        def __init__(self, x):
            super(B, self).__init__(x + 1)

        def __repr__(self):
            return f'{type(self).__name__}({self.x})'
    return repr(B(1)), str(B(2)), f'{B(3)}', f'{B(4)!r}'


def t_new():
    class A:
        cache = {}

        def __new__(cls, k):
            try:
                return cls.cache[k]
            except KeyError:
                o = object.__new__(cls)
                o.k = k
                return cls.cache.setdefault(k, o)
    return A(1) is A(1), A(1) is A(2), A(2).k


def t_bytes():
    return b'ab'[0], bytes([1, 2]) == b'\x01\x02', list(b'ab')


def t_type_checks():
    return type(1) is int, type('a') == str, type(None) is type(None), type([]) in (list, tuple), int.__name__, callable(len), isinstance(len, type)


def t_partialmethod():
    class A:
        def f(self, a, b): return a, b
        g = functools.partialmethod(f, 1)
    return A().g(2)


def t_total_ordering():
    @functools.total_ordering
    class A:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __lt__(self, o): return self.v < o.v
    return A(1) <= A(1), A(2) > A(1), A(1) >= A(2)


def t_chainmap():
    return ChainMap({'a': 1}, {'b': 2})['b']


def t_product_loop():
    out = []
    for a, b in itertools.product(range(2), repeat=2):
        out.append((a, b))
    return out


def t_groupby():
    return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])]


def t_ternary_call():
    return (max if True else min)(1, 2), [min, max][0](3, 4), (lambda *a: a)(1, 2)


def t_string_iter():
    return [c for c in 'abc'], {c: i for i, c in enumerate('ab')}, 'abc'.translate({97: 'x'})


def t_unpack_nested_for():
    return [(i, a, b) for i, (a, b) in enumerate([(1, 2), (3, 4)])], [x for r in [[1], [2, 3]] for x in r if x > 1]


def t_try_return_finally_order():
    def f():
        for i in range(3):
            try:
                if i == 1:
                    continue
                if i == 2:
                    return i
            finally:
                log.append(i)
    log = []
    return f(), log


def t_with_multiple():
    log = []

    class C:
        def __init__(self, n): self.n = n
        def __enter__(self): log.append(self.n); return self.n
        def __exit__(self, *a): log.append(-self.n)
    with C(1) as a, C(2) as b:
        log.append(a + b)
    return log


def t_exc_class():
    class MyErr(TypeError):
        pass
    try:
        raise MyErr('a', 1)
    except TypeError as e:
        return type(e).__name__, e.args, str(MyErr('z')), repr(MyErr('z'))


def t_exception_group_order():
    def f(x):
        try:
            return int(x)
        except ValueError:
            return 'v'
        except TypeError:
            return 't'
    return f('5'), f('q'), f(None)


def t_math():
    import math
    return math.ceil(2.5), math.floor(2.5), math.log2(8), math.gcd(4, 6)


def t_nested_functions():
    def outer(op):
        def inner(a):
            return op(a)
        inner.__qualname__ = 'X.inner'
        return inner
    return outer(lambda v: v + 1)(2), outer(abs).__qualname__


def t_class_vars():
    class A:
        x = 1
        y = x + 1

        def set(self):
            self.x = 5
            return self.x, type(self).x, A.x
    return A().set(), A.y, A.__dict__['x'], 'set' in vars(A)


def t_property_setter():
    class A:
        _v = 1

        @property
        def v(self):
            return self._v

        @v.setter
        def v(self, x):
            self._v = x * 2

        @v.deleter
        def v(self):
            self._v = 0
    a = A()
    a.v = 4
    r = a.v
    del a.v
    w = property(lambda self: 9)
    A.w = w
    return r, a.v, a.w, A.v.fget(a)


def t_abc():
    from abc import ABC, abstractmethod, ABCMeta

    class A(ABC):
        @abstractmethod
        def f(self): ...

    class B(A):
        def f(self): return 1
    try:
        A()
    except TypeError:
        return B().f(), sorted(A.__abstractmethods__)


def t_generic_alias():
    x: tp.List[int] = [1]
    T = tp.TypeVar('T')

    def f(a: 'tp.Dict[str, T]') -> tp.Optional[T]:
        return a.get('k')
    return f({'k': 1}), f({}), tp.cast(int, 3)


def t_weakref():
    import weakref

    class A:
        pass
    a = A()
    d = weakref.WeakValueDictionary()
    d['x'] = a
    k = weakref.WeakKeyDictionary()
    k[a] = 3
    r = weakref.ref(a)
    return d['x'] is a, 'y' in d, k[a], r() is a


def t_format_spec():
    n = 6
    return f'{5:0{n}b}', '{:>{w}}'.format('a', w=3), f'{1}{2}'


def t_copy():
    import copy
    a = [1, [2]]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[1].append(3)
    return b, c


def t_bool_funcs():
    return bool([]), bool(''), bool((0,)), not None, any([]), all([]), sum([[1], [2]], []), max([], default=3)


def t_range_ops():
    r = range(2, 9, 3)
    return r[0], r[-1], list(r[1:]), len(r), list(r) == list(r), 5 in r, 6 in r, list(reversed(r)), r == range(2, 9, 3), bool(range(0)), r.start, r.stop, r.step


def t_range_index_error():
    try:
        range(3)[3]
    except IndexError:
        return 'ie'


def t_itertools2():
    import itertools as it
    return (list(it.chain([1], [2, 3])), list(it.chain.from_iterable([[1], [2]])), list(it.islice(it.count(3), 2)),
            list(it.accumulate([1, 2, 3])), list(it.zip_longest([1, 2], [3], fillvalue=0)), list(it.starmap(pow, [(2, 3), (3, 2)])),
            list(it.repeat(1, 3)), list(it.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(it.dropwhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(it.combinations([1, 2, 3], 2)), list(it.permutations([1, 2])), list(it.compress([1, 2, 3], [1, 0, 1])))


def t_itertools_pairwise_group():
    import itertools as it
    return list(it.pairwise([1, 2, 3])), [(k, list(g)) for k, g in it.groupby([1, 1, 2])], list(it.filterfalse(lambda x: x % 2, [1, 2, 3]))


def t_operator2():
    import operator as op
    return (op.itemgetter(1)([3, 4]), op.itemgetter(0, 1)([3, 4]), op.attrgetter('real')(3), op.methodcaller('upper')('a'),
            op.not_(0), op.index(3), op.truth([]), op.is_(None, None), op.contains([1], 1), op.floordiv(7, 2), op.mod(7, 2), op.lshift(1, 3), op.invert(4), op.neg(2), op.getitem([1, 2], 1))


def t_str_methods2():
    return ('abc'.zfill(5), 'a'.ljust(3) + '|', 'a'.rjust(3, '*'), 'a,b'.split(','), 'a b'.partition(' '), 'abc'.removeprefix('a'), 'abc'.removesuffix('c'),
            'aXb'.lower(), 'abc'[::-1], 'abc'.find('c'), 'abc'.index('b'), 'aab'.count('a'), 'ab'.replace('a', 'c'), 'x'.isidentifier(), '1'.isdigit(),
            ' a '.strip(), 'a-b'.rsplit('-', 1), 'ab'.startswith(('x', 'a')), '-'.join(map(str, [1, 2])))


def t_int_methods2():
    return (5).bit_length(), (5).bit_count(), divmod(7, 3), divmod(-7, 3), pow(3, 4, 5), int('101', 2), int('ff', 16), bin(5), hex(255), oct(8), abs(-3), round(2.5), min(3, 1), max([1, 5, 2]), int(True), ~5, -7 // 2, -7 % 2


def t_dict_methods2():
    d = {'a': 1}
    d.setdefault('b', []).append(2)
    d.update(c=3)
    x = d.pop('a')
    y = d.pop('zz', None)
    e = d | {'d': 4}
    d |= {'q': 5}
    return list(d.items()), x, y, e, list(e), 'b' in d, d.get('nope', 7), dict.fromkeys('ab', 0), list(reversed(e)), e.keys() == {'b', 'c', 'd'}, {**d, 'z': 1}


def t_set_ops2():
    a = {1, 2, 3}
    return sorted(a & {2, 3, 4}), sorted(a | {9}), sorted(a - {1}), sorted(a ^ {1, 9}), a <= {1, 2, 3}, a.isdisjoint({7}), a.issubset({1, 2, 3, 4}), frozenset(a) == a, len(a.union([5])), sorted({x % 2 for x in a})


def t_star_assign():
    a, *b, c = range(5)
    (d, e), f = (1, 2), 3
    *g, h = 'xy'
    return a, b, c, d, e, f, g, h, [*b, *g], (*b,), {*b} == {1, 2, 3}


def t_walrus():
    if (n := 3) > 2:
        out = [y := n, y + 1]
    return out, n, [z for x in range(3) if (z := x * 2) > 0]


def t_try_else_finally():
    log = []

    def f(x):
        try:
            if x == 0:
                raise ValueError('a')
            if x == 1:
                return 'ret'
        except ValueError as e:
            log.append(str(e))
        else:
            log.append('else')
        finally:
            log.append('fin')
        return 'end'
    return f(0), f(1), f(2), log


def t_exc_chain():
    try:
        try:
            raise KeyError('k')
        except KeyError as e:
            raise TypeError('t') from e
    except TypeError as e:
        return type(e.__cause__).__name__, e.args, str(e), isinstance(e.__context__, KeyError)


def t_custom_exc():
    class E(ValueError):
        def __init__(self, a, b):
            super().__init__(a, b)
            self.b = b
    try:
        raise E(1, 2)
    except (TypeError, ValueError) as e:
        return e.args, e.b, isinstance(e, E)


def t_generators2():
    def g():
        x = yield 1
        yield x
        return 9

    def h():
        r = yield from g()
        yield r
    i = g()
    a = next(i)
    b = i.send(5)
    return a, b, list(h()), next(iter([]), 'd'), sum(x for x in (1, 2)), list(x for y in ((1, 2), (3,)) for x in y)


def t_contextmanager():
    import contextlib
    log = []

    @contextlib.contextmanager
    def cm(v):
        log.append('in')
        try:
            yield v
        finally:
            log.append('out')
    with cm(3) as x, contextlib.suppress(KeyError):
        log.append(x)
        raise KeyError
    return log


def t_functools2():
    import functools as ft

    @ft.lru_cache(maxsize=None)
    def f(x):
        return x + 1

    class A:
        @ft.cached_property
        def p(self):
            return [1]

        def m(self, a, b):
            return a, b
        pm = ft.partialmethod(m, 1)
    a = A()
    return f(1), f(1), a.p is a.p, a.pm(2), ft.reduce(lambda x, y: x * y, [1, 2, 3], 4), ft.partial(divmod, 7)(2), ft.partial(int, base=2)('11')


def t_singledispatch():
    import functools as ft

    @ft.singledispatch
    def f(x):
        return 'o'

    @f.register
    def _(x: int):
        return 'i'

    @f.register(str)
    def _(x):
        return 's'
    return f(1), f(''), f(None), f(True)


def t_namedtuple2():
    import collections
    P = collections.namedtuple('P', 'x y')
    p = P(1, y=2)
    return p.x, p[1], tuple(p), p == (1, 2), p._replace(x=5), P._fields, len(p), [*p]


def t_dataclass2():
    import dataclasses as dc

    @dc.dataclass(frozen=True)
    class D:
        a: int
        b: int = 3

        def s(self):
            return self.a + self.b
    d = D(1)
    e = dc.replace(d, b=7)
    try:
        d.a = 2
    except dc.FrozenInstanceError:
        fr = True
    return d.a, d.b, d == D(1, 3), d != e, e.s(), fr, hash(d) == hash(D(1))


def t_simple_ns():
    import types
    n = types.SimpleNamespace(a=1, b=2)
    n.c = 3
    return n.a + n.b + n.c, vars(n) == {'a': 1, 'b': 2, 'c': 3}


def t_match2():
    def f(x):
        match x:
            case None:
                return 'none'
            case 0 | 1:
                return 'bit'
            case int(n) if n > 10:
                return 'big'
            case [a, *r]:
                return a, r
            case {'k': v}:
                return v
            case str():
                return 'str'
            case _:
                return 'other'
    return [f(x) for x in (None, 1, 11, 5, [1, 2], {'k': 3}, 's', 2.5)]


def t_class_features():
    class M(type):
        def __new__(m, n, b, ns, **kw):
            c = super().__new__(m, n, b, ns)
            c.kw = kw
            return c

        def __getitem__(c, k):
            return c, k

        @property
        def pp(c):
            return c.__name__

    class D:
        def __set_name__(self, o, n):
            self.n = n

        def __get__(self, o, t=None):
            return self if o is None else (self.n, o.v)

    class A(metaclass=M, q=1):
        __slots__ = ('v',)
        d = D()

        def __init__(self, v):
            self.v = v

        @classmethod
        def mk(cls, v):
            return cls(v)

        @staticmethod
        def st(x):
            return x
    a = A.mk(4)
    try:
        a.w = 1
    except AttributeError:
        s = 'slots'
    return A.kw, A[3] == (A, 3), A.pp, a.d, A.d.n, a.st(2), s, type(a) is A, isinstance(A, M), A.__mro__ == (A, object)


def t_init_subclass2():
    reg = []

    class B:
        def __init_subclass__(cls, tag=None, **kw):
            super().__init_subclass__(**kw)
            reg.append((cls.__name__, tag))

    class C(B, tag='x'):
        pass
    D = type('D', (C,), {'z': 1})
    return reg, D.z, issubclass(D, B), D.__bases__ == (C,), D.__qualname__, D.__mro__[1] is C


def t_dunder_attr():
    class A:
        def __getattr__(self, n):
            if n.startswith('x'):
                return n * 2
            raise AttributeError(n)

        def __setattr__(self, n, v):
            object.__setattr__(self, n, (v,))

        def __delattr__(self, n):
            object.__delattr__(self, n)
    a = A()
    a.y = 1
    r = a.y, a.xx, hasattr(a, 'q'), getattr(a, 'q', 5)
    del a.y
    return r, hasattr(a, 'y')


def t_operators_overload():
    class V:
        def __init__(self, v):
            self.v = v

        def __add__(self, o):
            if isinstance(o, V):
                return V(self.v + o.v)
            return NotImplemented

        def __radd__(self, o):
            return V(100 + o)

        def __iadd__(self, o):
            self.v += 1
            return self

        def __eq__(self, o):
            return isinstance(o, V) and self.v == o.v

        def __lt__(self, o):
            return self.v < o.v

        def __hash__(self):
            return 1

        def __len__(self):
            return self.v

        def __contains__(self, x):
            return x == self.v

        def __call__(self, *a, **k):
            return a, k

        def __neg__(self):
            return V(-self.v)

        def __matmul__(self, o):
            return 'mm'
    a = V(2)
    b = a
    b += 3
    try:
        a + 'x'
    except TypeError:
        te = 1
    return (a + V(1)).v, (3 + a).v, b.v, b is a, a == V(3), a != V(3), a < V(9), V(9) > a, bool(V(0)), 3 in a, a(1, k=2), (-a).v, a @ a, te, sorted([V(3), V(1)])[0].v, max(V(1), V(4)).v


def t_closures2():
    def mk():
        n = 0

        def inc(k=1):
            nonlocal n
            n += k
            return n
        return inc
    f = mk()
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return f(), f(5), [h() for h in fs], [h() for h in gs], (lambda *a, b=2, **k: (a, b, k))(1, 3, c=4)


def t_kwonly():
    def f(a, /, b, *, c=3, **kw):
        return a, b, c, kw
    try:
        f(a=1, b=2)
    except TypeError:
        te = 'te'
    return f(1, 2), f(1, b=5, c=6, a=7), te, f(*[1, 2], **{'c': 9})


def t_bytes():
    return (258).to_bytes(2, 'big'), int.from_bytes(b'\x01\x02', 'big'), len(b'abc'), b'abc'[0], list(b'ab')


def t_slices2():
    a = list(range(10))
    a[2:4] = [0]
    del a[0]
    b = a[::-2]
    a.insert(1, 99)
    a.reverse()
    return a, b, a[-3:], a[slice(1, 3)], slice(None, 3).indices(10), (1, 2, 3)[:-1], a.index(99), a.pop(), a.count(5)


def t_while_else():
    n = 0
    while n < 3:
        n += 1
        if n == 5:
            break
    else:
        n = 100
    for i in range(3):
        if i == 1:
            break
    else:
        i = 50
    return n, i


def t_enum_std():
    import enum

    class E(enum.Enum):
        A = 1
        B = 2

        @property
        def dbl(self):
            return self.value * 2
    return E.A.name, E(2) is E.B, [e.value for e in E], E['A'].dbl, E.A == E.A, E.A != E.B, isinstance(E.A, E), len(E)


def t_abc_std():
    import abc

    class A(abc.ABC):
        @abc.abstractmethod
        def f(self): ...

    class B(A):
        def f(self):
            return 1
    try:
        A()
    except TypeError:
        te = 1
    return B().f(), te, B.__abstractmethods__ == frozenset(), sorted(A.__abstractmethods__)


def t_sorted_key():
    return sorted([3, 1, 2], key=lambda x: -x), sorted('bca', reverse=True), [x for x, _ in sorted({'a': 2, 'b': 1}.items(), key=lambda kv: kv[1])], min('abc', key=lambda c: -ord(c)), list(zip(*[(1, 2), (3, 4)])), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(enumerate('ab', 1))


def t_inspect2():
    import inspect

    def f(a, b=1, *c, d, **e):
        pass

    class A:
        x = 1

        def m(self): pass
    return list(inspect.signature(f).parameters), inspect.isclass(A), inspect.isfunction(A.m), inspect.ismethod(A().m), 'x' in dict(inspect.getmembers(A)), inspect.getattr_static(A, 'x')


def t_deque_counter():
    import collections
    d = collections.deque([1, 2])
    d.appendleft(0)
    d.append(3)
    c = collections.Counter('aab')
    dd = collections.defaultdict(list)
    dd['a'].append(1)
    cm = collections.ChainMap({'a': 1}, {'b': 2})
    return list(d), d.popleft(), d.pop(), c['a'], c['z'], dict(dd), cm['b'], c.most_common(1)


def t_math():
    import math
    return math.ceil(2.1), math.floor(-2.1), math.gcd(4, 6), math.isinf(float('inf')), math.isnan(float('nan')), math.copysign(1, -0.0), math.log2(8), math.comb(4, 2), math.prod([2, 3]), math.inf > 1, math.frexp(0.5), math.ldexp(1, 3), math.trunc(-2.5)


def t_global_del():
    x = [1, 2]
    y = x
    del x
    z = {}
    z['a'] = 1
    del z['a']
    return y, z


def t_chained_cmp():
    a = 3
    return 1 < a < 5, 1 < a > 5, a == 3 == 3, a is not None is not False, not a == 3, 0 <= a <= 1


def t_cond_expr_short():
    return (0 or 5), (1 and 2), ('' or None), (3 if [] else 4), [] or {} or (1,), not [], all(x > 0 for x in ()), any(x for x in (0, 0))
