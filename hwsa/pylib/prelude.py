"""Library functions, written out so that the analysis reads them like any other source."""


def total_ordering(cls):
    has = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if getattr(cls, n) is not getattr(object, n)]
    if not has:
        raise ValueError('must define at least one ordering operation')

    if '__lt__' in has:
        def gt(self, o):
            r = type(self).__lt__(self, o)
            return r if r is NotImplemented else not r and self != o

        def le(self, o):
            r = type(self).__lt__(self, o)
            return r if r is NotImplemented else r or self == o

        def ge(self, o):
            r = type(self).__lt__(self, o)
            return r if r is NotImplemented else not r
        new = {'__gt__': gt, '__le__': le, '__ge__': ge}
    elif '__le__' in has:
        def ge(self, o):
            r = type(self).__le__(self, o)
            return r if r is NotImplemented else not r or self == o

        def lt(self, o):
            r = type(self).__le__(self, o)
            return r if r is NotImplemented else r and self != o

        def gt(self, o):
            r = type(self).__le__(self, o)
            return r if r is NotImplemented else not r
        new = {'__ge__': ge, '__lt__': lt, '__gt__': gt}
    elif '__gt__' in has:
        def lt(self, o):
            r = type(self).__gt__(self, o)
            return r if r is NotImplemented else not (r or self == o)

        def ge(self, o):
            r = type(self).__gt__(self, o)
            return r if r is NotImplemented else r or self == o

        def le(self, o):
            r = type(self).__gt__(self, o)
            return r if r is NotImplemented else not r
        new = {'__lt__': lt, '__ge__': ge, '__le__': le}
    else:
        def le(self, o):
            r = type(self).__ge__(self, o)
            return r if r is NotImplemented else not r or self == o

        def gt(self, o):
            r = type(self).__ge__(self, o)
            return r if r is NotImplemented else r and self != o

        def lt(self, o):
            r = type(self).__ge__(self, o)
            return r if r is NotImplemented else not r
        new = {'__le__': le, '__gt__': gt, '__lt__': lt}
    for n, f in new.items():
        if n not in has:
            setattr(cls, n, f)
    return cls


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if self.attrname is None:
            raise TypeError('no name')
        v = self.func(obj)
        object.__setattr__(obj, self.attrname, v)
        return v


class partialmethod:
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __get__(self, obj, cls=None):
        f, args, kw = self.func, self.args, self.keywords
        if obj is None:
            def unbound(self, *a, **k):
                return f(self, *args, *a, **{**kw, **k})
            return unbound

        def bound(*a, **k):
            return f(obj, *args, *a, **{**kw, **k})
        return bound


class singledispatch:
    def __init__(self, func):
        self.func = func
        self.registry = {object: func}
        self.__name__ = func.__name__

    def register(self, cls, func=None):
        if func is not None:
            self.registry[cls] = func
            return func
        if isinstance(cls, type):
            def deco(f):
                self.registry[cls] = f
                return f
            return deco
        for k in list(cls.__annotations__.values())[:1]:
            self.registry[k] = cls
            return cls
        raise TypeError('no annotation')

    def dispatch(self, cls):
        for k in cls.__mro__:
            if k in self.registry:
                return self.registry[k]
        for k in self.registry:
            if k is not object and issubclass(cls, k):
                return self.registry[k]
        return self.func

    def __call__(self, *args, **kw):
        if not args:
            raise TypeError('at least 1 positional argument')
        return self.dispatch(type(args[0]))(*args, **kw)


class singledispatchmethod:
    def __init__(self, func):
        self.dispatcher = singledispatch(func)
        self.func = func

    def register(self, cls, method=None):
        return self.dispatcher.register(cls, method)

    def __get__(self, obj, cls=None):
        def method(*args, **kw):
            return self.dispatcher.dispatch(type(args[0])).__get__(obj, cls)(*args, **kw)
        return method


class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, o):
        if isinstance(o, SimpleNamespace):
            return self.__dict__ == o.__dict__
        return NotImplemented


class suppress:
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None


class catch_warnings:
    def __init__(self, *, record=False, module=None, action=None, category=None, lineno=0, append=False):
        if record:
            __hwsa_unsupported__('catch_warnings(record=True)')

    def __enter__(self):
        return None

    def __exit__(self, *exc):
        return None


def groupby(iterable, key=None):
    out = []
    for x in iterable:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(g)) for k, g in out])


def accumulate(iterable, func=None, initial=None):
    out = []
    for x in iterable:
        if not out:
            if initial is not None:
                out.append(initial)
                out.append(initial + x if func is None else func(initial, x))
            else:
                out.append(x)
        else:
            out.append(out[-1] + x if func is None else func(out[-1], x))
    return iter(out)


def takewhile(pred, iterable):
    for x in iterable:
        if not pred(x):
            break
        yield x


def dropwhile(pred, iterable):
    drop = True
    for x in iterable:
        if drop and pred(x):
            continue
        drop = False
        yield x


def permutations(iterable, r=None):
    pool = list(iterable)
    n = len(pool) if r is None else r
    if n == 0:
        yield ()
    else:
        for i, x in enumerate(pool):
            for rest in permutations(pool[:i] + pool[i + 1:], n - 1):
                yield (x,) + rest


def copy(x):
    if isinstance(x, list):
        return x[:]
    if isinstance(x, dict):
        return x.copy()
    if isinstance(x, (int, str, tuple, float, type, type(None), type(copy))):
        return x
    if hasattr(x, '__copy__'):
        return x.__copy__()
    __hwsa_unsupported__('copy of an object')


def deepcopy(x, memo=None):
    if isinstance(x, list):
        return [deepcopy(y) for y in x]
    if isinstance(x, dict):
        return {deepcopy(k): deepcopy(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple([deepcopy(y) for y in x])
    if isinstance(x, (int, str, float, type, type(None), type(copy))):
        return x
    if hasattr(x, '__deepcopy__'):
        return x.__deepcopy__({})
    __hwsa_unsupported__('deepcopy of an object')


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            for k in m:
                d[k] = None
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))


class deque:
    def __init__(self, iterable=(), maxlen=None):
        if maxlen is not None:
            __hwsa_unsupported__('deque(maxlen)')
        self._l = list(iterable)

    def append(self, x): self._l.append(x)
    def appendleft(self, x): self._l.insert(0, x)
    def pop(self): return self._l.pop()
    def popleft(self): return self._l.pop(0)
    def extend(self, xs): self._l.extend(xs)
    def extendleft(self, xs):
        for x in xs:
            self._l.insert(0, x)
    def clear(self): self._l.clear()
    def __iter__(self): return iter(self._l)
    def __len__(self): return len(self._l)
    def __getitem__(self, i): return self._l[i]
    def __contains__(self, x): return x in self._l
    def reverse(self): self._l.reverse()
    def rotate(self, n=1):
        if self._l:
            n = n % len(self._l)
            self._l = self._l[len(self._l) - n:] + self._l[:len(self._l) - n]


def _nt_replace(self, **kw):
    vals = [kw.pop(f, getattr(self, f)) for f in self._fields]
    if kw:
        raise ValueError('unexpected field names')
    return type(self)(*vals)


def _nt_asdict(self):
    return {f: getattr(self, f) for f in self._fields}


def dataclass(cls=None, *, frozen=False, eq=True, order=False, repr=True, init=True, unsafe_hash=False, slots=False, kw_only=False):
    def deco(cls):
        if order or unsafe_hash or slots or kw_only:
            __hwsa_unsupported__('dataclass option')
        fields, defaults = [], {}
        for k in reversed(cls.__mro__):
            for n in k.__dict__.get('__annotations__', {}):
                if n not in fields:
                    fields.append(n)
                if n in k.__dict__:
                    defaults[n] = k.__dict__[n]

        def __init__(self, *args, **kw):
            if len(args) > len(fields):
                raise TypeError('too many arguments')
            vals = dict(zip(fields, args))
            for n in kw:
                if n in vals or n not in fields:
                    raise TypeError('bad keyword')
                vals[n] = kw[n]
            for n in fields:
                if n in vals:
                    object.__setattr__(self, n, vals[n])
                elif n in defaults:
                    object.__setattr__(self, n, defaults[n])
                else:
                    raise TypeError('missing argument')
            if hasattr(self, '__post_init__'):
                self.__post_init__()

        def __eq__(self, o):
            if type(o) is type(self):
                return tuple(getattr(self, n) for n in fields) == tuple(getattr(o, n) for n in fields)
            return NotImplemented

        def __hash__(self):
            return hash(tuple(getattr(self, n) for n in fields))

        def __repr__(self):
            return type(self).__qualname__ + '(' + ', '.join(['%s=%r' % (n, getattr(self, n)) for n in fields]) + ')'

        def __setattr__(self, n, v):
            raise AttributeError('cannot assign to field')
        if init and '__init__' not in cls.__dict__:
            cls.__init__ = __init__
        if eq and '__eq__' not in cls.__dict__:
            cls.__eq__ = __eq__
            if '__hash__' not in cls.__dict__:
                cls.__hash__ = __hash__ if frozen else None
        if repr and '__repr__' not in cls.__dict__:
            cls.__repr__ = __repr__
        if frozen:
            cls.__setattr__ = __setattr__
        return cls
    return deco if cls is None else deco(cls)


def pairwise(xs):
    xs = list(xs)
    return iter([(xs[i], xs[i + 1]) for i in range(len(xs) - 1)])


def compress(xs, sel):
    return iter([x for x, s in zip(xs, sel) if s])


def filterfalse(f, xs):
    return iter([x for x in xs if not (x if f is None else f(x))])
