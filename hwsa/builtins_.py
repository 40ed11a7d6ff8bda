"""Models of Python builtins and of the external modules hwtypes uses."""
import ast
import builtins
import collections
import string as _string
import types
import weakref
from . import terms as T
from .terms import I, B, P, nb
from .values import *

CLS = {}
BUILTINS = {}
CTORS = {}
METHODS = {}
UNMODELLED = {'open', 'input', 'eval', 'compile', 'globals', 'locals', '__import__', 'memoryview', 'bytes',
              'bytearray', 'complex', 'help', 'breakpoint', 'ascii'}

EXC = {
    'BaseException': 'object', 'Exception': 'BaseException', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'OSError': 'Exception', 'EOFError': 'Exception',
    'Warning': 'Exception', 'DeprecationWarning': 'Warning', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning',
    'FutureWarning': 'Warning', 'SyntaxError': 'Exception', 'MemoryError': 'Exception', 'UnicodeError': 'ValueError',
    'GeneratorExit': 'BaseException', 'PendingDeprecationWarning': 'Warning', 'FloatingPointError': 'ArithmeticError',
    'PysmtException': 'Exception', 'PysmtTypeError': 'TypeError', 'PysmtValueError': 'ValueError', 'Z3Exception': 'Exception',
}

# dunder methods of builtin types (for hasattr and unbound lookups)
_NUM = '__int__ __bool__ __float__ __index__ __abs__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __neg__ __floordiv__ __mod__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __repr__ __str__'
DUNDERS = {
    'int': _NUM + ' __and__ __or__ __xor__ __invert__ __lshift__ __rshift__ __trunc__ __round__ real imag numerator denominator',
    'bool': '',
    'float': '__int__ __bool__ __float__ __add__ __radd__ __sub__ __mul__ __neg__ __abs__ __trunc__ is_integer __truediv__ as_integer_ratio',
    'str': '__len__ __iter__ __getitem__ __contains__ __add__ __mod__ __mul__',
    'list': '__len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__ __add__ __mul__ __reversed__',
    'tuple': '__len__ __iter__ __getitem__ __contains__ __add__ __mul__',
    'range': '__len__ __iter__ __getitem__ __contains__ __reversed__',
    'dict': '__len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__ __or__ __reversed__',
    'mappingproxy': '__len__ __iter__ __getitem__ __contains__ __or__',
    'WeakValueDictionary': '__len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__',
    'WeakKeyDictionary': '__len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__',
    'set': '__len__ __iter__ __contains__ __and__ __or__ __sub__ __xor__',
    'frozenset': '__len__ __iter__ __contains__ __and__ __or__ __sub__ __xor__',
    'NoneType': '__bool__',
    'generator': '__iter__ __next__ send throw close',
    'iterator': '__iter__ __next__',
    'function': '__call__ __get__ __code__ __defaults__',
    'method': '__call__ __get__ __func__ __self__',
    'builtin_function_or_method': '__call__',
    'property': '__get__ __set__ __delete__ fget fset fdel',
    'staticmethod': '__get__ __func__ __wrapped__ __call__',
    'classmethod': '__get__ __func__ __wrapped__',
    'slice': '',
    'mpfr': '__int__ __bool__ __float__ __add__ __sub__ __mul__ __neg__ __abs__',
    'mpz': '__int__ __bool__ __float__ __index__',
    'mpq': '__int__ __bool__ __float__',
}
REALT = {'int': int, 'bool': bool, 'float': float, 'str': str, 'list': list, 'tuple': tuple, 'range': range, 'dict': dict, 'set': set,
         'frozenset': frozenset, 'mappingproxy': type(type.__dict__), 'WeakValueDictionary': weakref.WeakValueDictionary,
         'WeakKeyDictionary': weakref.WeakKeyDictionary, 'WeakSet': weakref.WeakSet, 'NoneType': type(None), 'bytes': bytes,
         'generator': type(x for x in ()), 'function': type(lambda: 0), 'method': types.MethodType,
         'property': property, 'staticmethod': staticmethod, 'classmethod': classmethod, 'slice': slice, 'OrderedDict': collections.OrderedDict,
         'defaultdict': collections.defaultdict}
OBJ_DUNDERS = set('__class__ __doc__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __repr__ __str__ __init__ __new__ '
                  '__getattribute__ __setattr__ __delattr__ __reduce__ __sizeof__ __format__ __dir__ __init_subclass__ '
                  '__subclasshook__'.split())


# attributes of library objects that exist but are not modelled (an access to them is undecided, not an AttributeError)
LIBATTR = {
    'smt': set(
        'And BVAShr BVAdd BVAnd BVComp BVConcat BVExtract BVLShl BVLShr BVMul BVNand BVNor BVOr BVRepeat BVRol BVRor BVSDiv '
        'BVSExt BVSGE BVSGT BVSLE BVSLT BVSMod BVSRem BVSub BVUDiv BVUGE BVUGT BVULE BVULT BVURem BVXnor BVXor BVZExt Equals Iff '
        'Implies Ite NotEquals Or Select Store __add__ __and__ __call__ __dict__ __div__ __doc__ __getitem__ __invert__ '
        '__lshift__ __mod__ __module__ __mul__ __neg__ __or__ __radd__ __rand__ __rmul__ __ror__ __rshift__ __rsub__ __rxor__ '
        '__slots__ __sub__ __truediv__ __xor__ _apply_infix _content _infix_prepare_arg _node_id algebraic_approx_value arg args '
        'array_value_assigned_values_map array_value_default array_value_get array_value_index_type bv2nat bv_bin_str '
        'bv_extend_step bv_extract_end bv_extract_start bv_rotation_step bv_signed_value bv_str bv_unsigned_value bv_width '
        'constant_type constant_value function_name get_atoms get_free_variables get_type is_algebraic_constant is_and '
        'is_array_op is_array_value is_bool_constant is_bool_op is_bv_add is_bv_and is_bv_ashr is_bv_comp is_bv_concat '
        'is_bv_constant is_bv_extract is_bv_lshl is_bv_lshr is_bv_mul is_bv_neg is_bv_not is_bv_op is_bv_or is_bv_rol is_bv_ror '
        'is_bv_sdiv is_bv_sext is_bv_sle is_bv_slt is_bv_srem is_bv_sub is_bv_udiv is_bv_ule is_bv_ult is_bv_urem is_bv_xor '
        'is_bv_zext is_constant is_div is_equals is_exists is_false is_forall is_function_application is_iff is_implies '
        'is_int_constant is_ira_op is_ite is_le is_lira_op is_literal is_lt is_minus is_not is_one is_or is_plus is_quantifier '
        'is_real_constant is_select is_store is_str_op is_string_constant is_symbol is_term is_theory_op is_theory_relation '
        'is_times is_toreal is_true is_zero node_id node_type quantifier_vars serialize simplify size substitute symbol_name '
        'symbol_type to_smtlib '
        .split()),
    'z3': set(
        '__abs__ __add__ __and__ __bool__ __copy__ __deepcopy__ __del__ __dict__ __div__ __doc__ __invert__ __lshift__ __mod__ '
        '__module__ __mul__ __neg__ __nonzero__ __or__ __pos__ __pow__ __radd__ __rand__ __rdiv__ __rlshift__ __rmod__ __rmul__ '
        '__ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __sub__ __truediv__ __weakref__ __xor__ '
        '_repr_html_ arg as_ast as_binary_string as_long as_signed_long as_string children ctx_ref decl eq from_string get_id '
        'hash is_int is_real kind num_args params py_value serialize sexpr size sort sort_kind translate update use_pp '
        .split()),
    'sort': set(
        '__bool__ __copy__ __deepcopy__ __del__ __dict__ __doc__ __module__ __nonzero__ __weakref__ _instances _repr_html_ as_ast '
        'as_smtlib cast ctx_ref eq get_id hash is_array_type is_bool is_bool_type is_bv_type is_custom_type is_function_type '
        'is_int is_int_type is_real is_real_type is_string_type kind name param_types py_value return_type sexpr size subsort '
        'translate use_pp '
        .split()),
}


def real_attr(it, mro, name):
    """raise Unsupported when a builtin class of the mro has an attribute the model lacks"""
    for k in mro:
        t = REALT.get(k.name) if k.builtin else None
        if t is None and k.builtin:
            t = getattr(builtins, k.name, None) if isinstance(k.name, str) else None
        if isinstance(t, type) and any(name in b.__dict__ for b in t.__mro__):
            raise Unsupported('attribute %s of %s' % (name, k.name))


def bi(name, lift=False):
    def deco(fn):
        BUILTINS[name] = Builtin(name, fn, lift)
        return fn
    return deco


def mk(it, name, bases=('object',), meta='type', attrs=None):
    bs = [CLS[b] if isinstance(b, str) else b for b in bases]
    c = ClassV(name, bs, CLS.get(meta) if isinstance(meta, str) else meta, builtin=True)
    c.mro = tuple([c] + it.c3(bs)) if bs else (c,)
    it.setrec(c, dict(attrs or {}))
    CLS[name] = c
    return c


def install(it):
    CLS.clear()
    CTORS.clear()
    ob = ClassV('object', (), None, builtin=True)
    ob.mro = (ob,)
    ty = ClassV('type', (ob,), None, builtin=True)
    ty.mro = (ty, ob)
    ob.meta = ty
    ty.meta = ty
    CLS['object'], CLS['type'] = ob, ty
    it.setrec(ob, {
        '__new__': StaticV(Builtin('object.__new__', lambda it, a, k: it.object_new(a[0], a[1:], k))),
        '__init__': Builtin('object.__init__', lambda it, a, k: None),
        '__init_subclass__': ClassMV(Builtin('object.__init_subclass__', _init_subclass)),
        '__getattribute__': Builtin('object.__getattribute__', lambda it, a, k: it.case(a[0], lambda o: it.generic_getattr(o, a[1]) if isinstance(o, Inst) else it.getattr(o, a[1]))),
        '__delattr__': Builtin('object.__delattr__', lambda it, a, k: it.generic_delattr(a[0], a[1])),
        '__setattr__': Builtin('object.__setattr__', lambda it, a, k: it.generic_setattr(a[0], a[1], a[2])),
        '__eq__': Builtin('object.__eq__', lambda it, a, k: True if identical(a[0], a[1]) else NotImplemented),
        '__ne__': Builtin('object.__ne__', _object_ne),
        '__hash__': Builtin('object.__hash__', lambda it, a, k: hash_default(it, a[0])),
        '__repr__': Builtin('object.__repr__', lambda it, a, k: FStr(['<', ('obj', a[0]), '>'])),
        '__str__': Builtin('object.__str__', lambda it, a, k: py_repr(it, a[0])),
        '__format__': Builtin('object.__format__', lambda it, a, k: py_str(it, a[0])),
        '__dir__': Builtin('object.__dir__', _unsup('dir')),
        '__lt__': Builtin('object.__lt__', lambda it, a, k: NotImplemented),
        '__le__': Builtin('object.__le__', lambda it, a, k: NotImplemented),
        '__gt__': Builtin('object.__gt__', lambda it, a, k: NotImplemented),
        '__ge__': Builtin('object.__ge__', lambda it, a, k: NotImplemented),
        '__reduce__': Builtin('object.__reduce__', _unsup('reduce')),
        '__sizeof__': Builtin('object.__sizeof__', _unsup('sizeof')),
        '__subclasshook__': ClassMV(Builtin('object.__subclasshook__', lambda it, a, k: NotImplemented)),
    })
    it.setrec(ty, {
        '__new__': StaticV(Builtin('type.__new__', _type_new)),
        '__init__': Builtin('type.__init__', lambda it, a, k: None),
        '__call__': Builtin('type.__call__', lambda it, a, k: it.type_call(a[0], a[1:], k)),
        '__instancecheck__': Builtin('type.__instancecheck__', lambda it, a, k: it.nominal_sub(it.type_of(a[1]), a[0])),
        '__subclasscheck__': Builtin('type.__subclasscheck__', _type_subclasscheck),
        '__getattribute__': Builtin('type.__getattribute__', lambda it, a, k: it.class_getattr(a[0], a[1])),
        '__setattr__': Builtin('type.__setattr__', lambda it, a, k: it.setattr(a[0], a[1], a[2])),
        'mro': Builtin('type.mro', lambda it, a, k: it.new_list(a[0].mro)),
        '__prepare__': ClassMV(Builtin('type.__prepare__', lambda it, a, k: it.new_dict([]))),
        '__subclasses__': Builtin('type.__subclasses__', _unsup('__subclasses__')),
        '__repr__': Builtin('type.__repr__', lambda it, a, k: FStr(["<class '", ('cls', a[0]), "'>"])),
        '__or__': Builtin('type.__or__', lambda it, a, k: tuple(a)),
    })
    for n, b in EXC.items():
        mk(it, n, (b,))
    it.put(CLS['BaseException'], 'with_traceback', Builtin('with_traceback', lambda it, a, k: a[0]))
    it.put(CLS['BaseException'], '__str__', Builtin('BaseException.__str__', exc_str))
    it.put(CLS['BaseException'], '__repr__', Builtin('BaseException.__repr__', exc_repr))
    it.put(CLS['BaseException'], '__cause__', None)
    it.put(CLS['BaseException'], '__suppress_context__', PropV(Builtin('suppress_context', lambda it, a, k: '__cause__' in it.rec(a[0])), None, None))
    it.put(CLS['BaseException'], '__context__', PropV(Builtin('context', lambda it, a, k: it.excctx.get(id(a[0]), (None, None))[1]), None, None))
    it.put(CLS['BaseException'], '__traceback__', Opaque('traceback', None))
    it.put(CLS['BaseException'], 'add_note', Builtin('add_note', lambda it, a, k: None))
    it.put(CLS['BaseException'], '__init__', Builtin('BaseException.__init__', lambda it, a, k: None))
    # abstract collections
    for n in ('Sized', 'Iterable', 'Container', 'Hashable', 'Callable'):
        mk(it, n)
    mk(it, 'Collection', ('Sized', 'Iterable', 'Container'))
    mk(it, 'Iterator', ('Iterable',))
    mk(it, 'Generator', ('Iterator',))
    mk(it, 'Reversible', ('Iterable',))
    mk(it, 'Sequence', ('Reversible', 'Collection'))
    mk(it, 'MutableSequence', ('Sequence',))
    mk(it, 'Mapping', ('Collection',))
    mk(it, 'MutableMapping', ('Mapping',))
    mk(it, 'Set', ('Collection',))
    mk(it, 'MutableSet', ('Set',))
    mk(it, 'Number')
    mk(it, 'Integral', ('Number',))
    it.setrec(CLS['Mapping'], {
        'keys': Builtin('Mapping.keys', lambda it, a, k: it.new_list(it.iterate(a[0]), 'set')),
        'items': Builtin('Mapping.items', lambda it, a, k: it.new_list([(x, it.getitem(a[0], x)) for x in it.iterate(a[0])])),
        'values': Builtin('Mapping.values', lambda it, a, k: it.new_list([it.getitem(a[0], x) for x in it.iterate(a[0])])),
        'get': Builtin('Mapping.get', _mapping_get),
        '__contains__': Builtin('Mapping.__contains__', _mapping_contains),
        '__eq__': Builtin('Mapping.__eq__', _mapping_eq),
        '__hash__': None,
    })
    mk(it, 'ABCMeta', ('type',))
    CLS['ABC'] = mk(it, 'ABC', meta=CLS['ABCMeta'])
    it.setrec(CLS['ABCMeta'], {'register': Builtin('ABCMeta.register', _unsup('register'))})
    for n in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'NoneType', 'function', 'method',
              'builtin_function_or_method', 'property', 'staticmethod', 'classmethod', 'slice', 'range', 'generator',
              'module', 'super', 'NotImplementedType', 'ellipsis', 'mappingproxy', 'WeakValueDictionary',
              'WeakKeyDictionary', 'WeakSet', 'partial', 'Pattern', 'iterator', 'methodcaller', 'count', 'bytes', 'complex'):
        mk(it, n)
    mk(it, 'bool', ('int',))
    mk(it, 'OrderedDict', ('dict',))
    mk(it, 'defaultdict', ('dict',))
    mk(it, 'EnumType', ('type',))

    def enumitem(it, a, k):
        if isinstance(a[1], (FStr, SymStr)):
            raise Unsupported('enumeration member by a computed name')
        r = it.rec(a[0])
        m = r.get(a[1]) if isinstance(a[1], str) else None
        if not (isinstance(m, Inst) and m.cls is a[0]):
            it.raise_('KeyError', a[1])
        return m
    it.put(CLS['EnumType'], '__getitem__', Builtin('EnumType.__getitem__', lambda it, a, k: it.case(a[1], lambda x: enumitem(it, [a[0], x], k))))
    def members(it, c):
        out = []
        for v in it.rec(c).values():
            if isinstance(v, Inst) and v.cls is c and v not in out:
                out.append(v)
        return out
    it.put(CLS['EnumType'], '__iter__', Builtin('EnumType.__iter__', lambda it, a, k: it.new_iter(members(it, a[0]))))
    def fromkeys(it, a, k):
        d = it.call(a[0], [], {})
        for x in it.iterate(a[1]):
            it.setitem(d, x, a[2] if len(a) > 2 else None)
        return d
    it.put(CLS['dict'], 'fromkeys', ClassMV(Builtin('dict.fromkeys', fromkeys)))

    def enumvalue(it, c, a, k):
        """E(value): the member with that value"""
        if len(a) != 1 or k or any('_missing_' in it.rec(x) for x in c.mro if not x.builtin):
            raise Unsupported('enumeration call')
        v = a[0]
        if isinstance(v, Inst) and v.cls is c:
            return v
        for m in members(it, c):
            w = it.rec(m)['_value_']
            if isinstance(v, (int, str, tuple, float)) and isinstance(w, (int, str, tuple, float)):
                if v == w:
                    return m
            elif it.eq_known(w, v):
                return m
            elif not isinstance(v, (int, str, tuple, float)):
                raise Unsupported('enumeration member by a symbolic value')
        it.raise_('ValueError')
    it.enumvalue = enumvalue
    it.put(CLS['EnumType'], '__reversed__', Builtin('EnumType.__reversed__', lambda it, a, k: it.new_iter(members(it, a[0])[::-1])))
    it.put(CLS['EnumType'], '__len__', Builtin('EnumType.__len__', lambda it, a, k: len(set(id(v) for v in it.rec(a[0]).values() if isinstance(v, Inst) and v.cls is a[0]))))
    it.put(CLS['EnumType'], '__members__', PropV(Builtin('EnumType.__members__', lambda it, a, k: it.new_dict([
        (n, v) for n, v in it.rec(a[0]).items() if isinstance(v, Inst) and v.cls is a[0]])), None, None))
    mk(it, 'Enum', meta=CLS['EnumType'])
    mk(it, 'IntEnum', ('Enum', 'int'), meta=CLS['EnumType'])
    # pysmt / z3 / gmpy2 object classes
    for n in ('FNode', 'PySMTType', 'FormulaManager', 'Environment', 'mpfr', 'mpz', 'mpq', 'gmpy2ctx', 'local_context'):
        mk(it, n)
    mk(it, 'AstRef')
    mk(it, 'ExprRef', ('AstRef',))
    mk(it, 'BoolRef', ('ExprRef',))
    mk(it, 'BitVecRef', ('ExprRef',))
    mk(it, 'BitVecNumRef', ('BitVecRef',))
    mk(it, 'ArithRef', ('ExprRef',))
    mk(it, 'SortRef', ('AstRef',))
    mk(it, '_GeneratorContextManager')
    for tn, names in DUNDERS.items():
        pass
    for n in ('object', 'type', 'int', 'bool', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'property',
              'staticmethod', 'classmethod', 'slice', 'range'):
        BUILTINS[n] = CLS[n]
    for n in EXC:
        if not n.startswith(('Pysmt', 'Z3')):
            BUILTINS[n] = CLS[n]
    BUILTINS['NotImplemented'] = NotImplemented
    BUILTINS['Ellipsis'] = Ellipsis
    BUILTINS['None'] = None
    BUILTINS['__name__'] = '__main__'
    BUILTINS['__debug__'] = True
    BUILTINS['__hwsa_unsupported__'] = Builtin('unsupported', lambda it, a, k: _unsup(a[0])(it, a, k))
    _ctors(it)
    it.gctx = Env(None, 'ctx', None)
    it.symbols = Env(None, 'symbols', None)
    it.setrec(it.symbols, {})
    it.setrec(it.gctx, {'ctx': None})
    it.externals = {}


def exc_str(it, a, k):
    e = a[0]
    r = it.rec(e)
    args = r.get('args', ())
    if r.get('%eng') or not isinstance(args, tuple):
        return FStr([('exc', e)])
    if not args:
        return ''
    if len(args) == 1:
        return py_repr(it, args[0]) if CLS['KeyError'] in e.cls.mro else py_str(it, args[0])
    return py_repr(it, args)


def exc_repr(it, a, k):
    e = a[0]
    r = it.rec(e)
    args = r.get('args', ())
    if r.get('%eng') or not isinstance(args, tuple) or not isinstance(e.cls.name, str):
        return FStr([('excrepr', e)])
    if len(args) == 1:
        return it.mkstr([e.cls.name + '(', *joinable(py_repr(it, args[0])), ')'])
    return it.mkstr([e.cls.name, *joinable(py_repr(it, args))])


def joinable(s):
    return list(s.parts) if isinstance(s, FStr) else [s]


def _unsup(what):
    def f(it, a, k):
        raise Unsupported(what)
    return f


def _init_subclass(it, a, k):
    if k:
        it.raise_('TypeError')
    return None


def _object_ne(it, a, k):
    r = rich(it, '__eq__', a[0], a[1])
    return it.case(r, lambda r: r if r is NotImplemented else T.bnot_(it.truth(r)))


def _type_new(it, a, k):
    if len(a) == 2:
        return it.type_of(a[1])
    mcs, name, bases, ns = a[:4]
    items = it.dict_items(ns, lambda x: x)
    if isinstance(items, Choice):
        raise Unsupported('class namespace differs between branches')
    return it.create_class(mcs, name, tuple(it.iterate(bases)), items, k)


def _type_subclasscheck(it, a, k):
    c = a[1]
    if not isinstance(c, ClassV):
        it.raise_('TypeError')
    return it.nominal_sub(c, a[0])


def _mapping_get(it, a, k):
    o, key = a[0], a[1]
    d = a[2] if len(a) > 2 else k.get('default')
    return _except(it, lambda: it.getitem(o, key), 'KeyError', lambda: d)


def _mapping_contains(it, a, k):
    return _except(it, lambda: (it.getitem(a[0], a[1]), True)[1], 'KeyError', lambda: False)


def _mapping_eq(it, a, k):
    o = a[1]
    if it.isinst(o, CLS['Mapping']) is not True:
        return NotImplemented
    return dict_eq(it, it.mapping_items(a[0]), it.mapping_items(o))


def _except(it, f, exc, g):
    """try f() except exc: g()"""
    it.collect.append([])
    outs = []
    try:
        try:
            v = f()
            outs.append((it.st, v))
        except Dead:
            it.st = None
    finally:
        excs = it.collect.pop()
    for st, e in excs:
        es = e.alts if isinstance(e, Choice) else [(True, e)]
        for gd, x in es:
            s2 = st.clone(T.bdd_ite(st.guard, nb(gd), 0))
            if s2.guard == 0:
                continue
            if CLS[exc] in x.cls.mro:
                it.st = s2
                try:
                    v = g()
                    outs.append((it.st, v))
                except Dead:
                    pass
            else:
                it.collect[-1].append((s2, x))
    return it.merge(outs)


# ------------------------------------------------------------------ classes of values
def snode_class(v):
    if v.fam == 'pysmt':
        return CLS['FNode']
    return CLS[{'bool': 'BoolRef', 'bv': 'BitVecRef', 'int': 'ArithRef'}.get(v.sort, 'ExprRef')]


def stype_class(v):
    return CLS['PySMTType'] if v.fam == 'pysmt' else CLS['SortRef']


def is_abc(it, c):
    return CLS['ABCMeta'] in c.meta.mro


_REG = {
    'Sequence': ('list', 'tuple', 'str', 'range', 'bytes'),
    'MutableSequence': ('list',),
    'Mapping': ('dict', 'mappingproxy', 'WeakValueDictionary', 'WeakKeyDictionary'),
    'MutableMapping': ('dict', 'WeakValueDictionary', 'WeakKeyDictionary'),
    'Set': ('set', 'frozenset'), 'MutableSet': ('set',),
    'Number': ('int', 'float'), 'Integral': ('int',),
    'Generator': ('generator',),
}
_HOOK = {'Sized': ('__len__',), 'Iterable': ('__iter__',), 'Container': ('__contains__',), 'Hashable': ('__hash__',),
         'Callable': ('__call__',), 'Collection': ('__len__', '__iter__', '__contains__'), 'Iterator': ('__iter__', '__next__'),
         'Reversible': ('__iter__', '__reversed__')}


def class_has(it, c, name):
    """does class c (builtin or not) define the special method `name`"""
    for k in c.mro:
        r = it.rec(k)
        if name in r:
            return r[name] is not None
        if k.builtin and name in DUNDERS.get(k.name, '').split():
            return True
        if k.builtin and k.name in METHODS and name in METHODS[k.name]:
            return True
    if c.builtin and c.name in ('list', 'dict', 'set') and name == '__hash__':
        return False
    return False


def abc_subclass(it, c, d):
    if d.name in _HOOK:
        if d.name == 'Hashable' and c.builtin and c.name in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict'):
            return False
        return all(class_has(it, c, n) for n in _HOOK[d.name])
    if d.name in _REG:
        return any(CLS[n] in c.mro for n in _REG[d.name]) or any(CLS[s] in c.mro for s in _REG if s != d.name and CLS[d.name] in CLS[s].mro and CLS[s] in c.mro)
    return False


# ------------------------------------------------------------------ str / repr / format / hash
def py_repr(it, v):
    if isinstance(v, Choice):
        return it.case(v, lambda x: py_repr(it, x))
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, float)):
        return repr(v)
    if isinstance(v, Inst):
        m = it.mro_lookup(v.cls, '__repr__')
        return it.call(it.bind(m, v, v.cls), [], {})
    if isinstance(v, ClassV):
        m = it.mro_lookup(v.meta, '__repr__')
        if m is not None and not isinstance(m, Builtin):
            return it.call(it.bind(m, v, v.meta), [], {})
        return it.mkstr(["<class '", ('cls', v), "'>"])
    if isinstance(v, tuple) or isinstance(v, ListV) and v.kind == 'list':
        items = v if isinstance(v, tuple) else it.rec(v)['items']
        if isinstance(items, tuple) and len(items) < 64:
            rs = [py_repr(it, x) for x in items]
            if all(isinstance(x, (str, FStr)) for x in rs):
                parts = ['(' if isinstance(v, tuple) else '[']
                for i, x in enumerate(rs):
                    parts += ([', '] if i else []) + joinable(x)
                parts.append((',)' if len(rs) == 1 else ')') if isinstance(v, tuple) else ']')
                return it.mkstr(parts)
    return it.mkstr([('fmt', v, 114, '')])


def py_str(it, v):
    if isinstance(v, Choice):
        return it.case(v, lambda x: py_str(it, x))
    if isinstance(v, (str, FStr, SymStr)):
        return v
    if isinstance(v, Inst):
        m = it.mro_lookup(v.cls, '__str__')
        if m is not None and not (isinstance(m, Builtin) and m.name == 'object.__str__'):
            return it.call(it.bind(m, v, v.cls), [], {})
        return py_repr(it, v)
    if isinstance(v, (bool, int, float)) or v is None:
        return str(v)
    if isinstance(v, (I, B)):
        return it.mkstr([('fmt', v, -1, '')])
    if isinstance(v, ClassV):
        return py_repr(it, v)
    if isinstance(v, (tuple, ListV)):
        return py_repr(it, v)
    return it.mkstr([('fmt', v, -1, '')])


def py_format(it, v, conv, spec):
    """one replacement field of an f-string or str.format"""
    if conv in (114, 'r'):
        v = py_repr(it, v)
    elif conv in (115, 's'):
        v = py_str(it, v)
    if isinstance(v, (Inst, ClassV)) and spec == '':
        return py_str(it, v)
    if isinstance(v, Choice):
        return it.case(v, lambda x: py_format(it, x, None, spec))
    if spec == '':
        return py_str(it, v)
    if isinstance(v, (int, float, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            it.raise_('ValueError')
    return it.mkstr([('fmt', v, -1, spec)])


def hash_default(it, v):
    return P(T.atom('hash', (it.canon(v),), 'int'))


def hcanon(it, v):
    """structural key of hash(v): equal keys <=> same hash term"""
    if isinstance(v, (I, B)) or isinstance(v, (bool, int)):
        return P(T.ind(v)) if isinstance(v, (bool, B)) else P(v)
    if isinstance(v, Choice):
        vs = v.alts
        return ('choice',) + tuple((g, hcanon(it, x)) for g, x in vs)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(hcanon(it, x) for x in v)
    if isinstance(v, ListV):
        if v.kind != 'frozenset':
            it.raise_('TypeError', 'unhashable')
        items = it.rec(v)['items']
        if isinstance(items, Choice):
            raise Unsupported('hash of joined set')
        return ('fset',) + tuple(sorted((hcanon(it, x) for x in items), key=repr))
    if isinstance(v, DictV):
        it.raise_('TypeError', 'unhashable')
    if isinstance(v, Inst):
        return py_hash(it, v)
    if isinstance(v, (str, float)) or v is None:
        return v
    if isinstance(v, ClassV):
        m = it.mro_lookup(v.meta, '__hash__')
        if isinstance(m, FuncV):
            return py_hash(it, v)
    return it.canon(v)


def py_hash(it, v):
    if isinstance(v, Choice):
        return it.case(v, lambda x: py_hash(it, x))
    if isinstance(v, (Inst, ClassV)):
        t = it.type_of(v)
        if it.mro_has(t, '__hash__'):
            m = it.mro_lookup(t, '__hash__')
            if m is None:
                it.raise_('TypeError', 'unhashable')
            if not isinstance(m, Builtin):
                return it.call(it.bind(m, v, t), [], {})
        return hash_default(it, v)
    if isinstance(v, (ListV, DictV)) and v.kind not in ('frozenset',):
        it.raise_('TypeError', 'unhashable')
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            if isinstance(x, Choice):
                return it.case(x, lambda y: py_hash(it, v[:i] + (y,) + v[i + 1:]))
    return P(T.atom('hash', (hcanon(it, v),), 'int'))


# ------------------------------------------------------------------ attribute access on builtin values
def builtin_getattr(it, o, name):
    t = it.type_of(o)
    if name == '__class__':
        return t
    if name == '__doc__':
        if isinstance(o, FuncV) and '__doc__' not in it.rec(o):
            return None if isinstance(o.node, ast.Lambda) else ast.get_docstring(o.node, clean=False)
        if not isinstance(o, FuncV):
            return None
    if isinstance(o, FuncV):
        r = it.rec(o)
        if name in r:
            return r[name]
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qual
        if name == '__module__':
            return o.module
        if name == '__dict__':
            return it.new_dict(r.items())
        if name == '__isabstractmethod__' and o.abstract:
            return True
        if name == '__get__':
            return Builtin('function.__get__', lambda it, a, k: BoundM(o, a[0]) if a[0] is not None else o)
        if name in ('__code__', '__defaults__', '__wrapped__', '__annotations__', '__closure__'):
            if name == '__wrapped__':
                it.raise_('AttributeError', name)
            if name == '__defaults__':
                return o.defaults or None
            if name == '__annotations__':
                return it.annotations(o)
            raise Unsupported('function attribute %s' % name)
        if name == '__call__':
            return o
    if isinstance(o, BoundM):
        if name == '__func__':
            return o.fn
        if name == '__self__':
            return o.self
        if name in ('__name__', '__qualname__', '__module__'):
            return it.getattr(o.fn, name)
        if name == '__call__':
            return o
        if isinstance(o.fn, FuncV):
            r = it.rec(o.fn)
            if name in r:
                return r[name]
    if isinstance(o, PropV):
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name == '__get__':
            return Builtin('property.__get__', lambda it, a, k: o if a[0] is None else it.call(o.fget, [a[0]], {}))
        if name == '__set__':
            return Builtin('property.__set__', lambda it, a, k: it.call(o.fset, [a[0], a[1]], {}))
        if name == '__delete__':
            return Builtin('property.__delete__', _unsup('property delete'))
        if name == 'setter':
            return Builtin('property.setter', lambda it, a, k: PropV(o.fget, a[0], o.fdel))
        if name == 'getter':
            return Builtin('property.getter', lambda it, a, k: PropV(a[0], o.fset, o.fdel))
        if name == 'deleter':
            return Builtin('property.deleter', lambda it, a, k: PropV(o.fget, o.fset, a[0]))
        if name == '__isabstractmethod__':
            return it.is_abstract(o)
    if isinstance(o, (StaticV, ClassMV)):
        if name in ('__func__', '__wrapped__'):
            return o.fn
        if name == '__get__':
            if isinstance(o, StaticV):
                return Builtin('staticmethod.__get__', lambda it, a, k: o.fn)
            return Builtin('classmethod.__get__', lambda it, a, k: BoundM(o.fn, a[1] if len(a) > 1 and a[1] is not None else it.type_of(a[0])))
        if name in ('__name__', '__qualname__', '__module__'):
            return it.getattr(o.fn, name)
    if isinstance(o, SliceV) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, SliceV) and name == 'indices':
        return Builtin('slice.indices', lambda it, a, k: slice_indices(it, o, a[0]))
    if isinstance(o, Opaque):
        if name in o.attrs:
            v = o.attrs[name]
            return v(it, o) if callable(v) and not isinstance(v, V) else v
        if o.cls is not None:
            for k in o.cls.mro:
                r = it.rec(k)
                if name in r and not (k.builtin and k.name == 'object'):
                    return it.bind(r[name], o, o.cls)
        if name == '__name__':
            return o.name
    if isinstance(o, Builtin):
        if o.attrs and name in o.attrs:
            return o.attrs[name]
        if name in ('__name__', '__qualname__'):
            return o.name.rstrip('.').split('.')[-1] if name == '__name__' else o.name.rstrip('.')
        if name == '__call__':
            return o
        if name in ('__self__', '__func__', '__wrapped__', '__get__', '__dict__', '__code__', '__module__', 'cache_info', 'cache_clear', '__defaults__',
                    '__isabstractmethod__', '__annotations__', 'register', 'dispatch'):
            if name in ('__isabstractmethod__', '__get__', '__code__', '__defaults__') and o.name in BUILTINS:
                it.raise_('AttributeError', name)
            raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, SNode):
        m = SNODE_ATTR.get((o.fam, name))
        if m is not None:
            return m(it, o)
        if name in LIBATTR.get(o.fam, ()):
            raise Unsupported('attribute %s of a solver term' % name)
        it.raise_('AttributeError', name)
    if isinstance(o, SType):
        if name == 'width' and o.w is not None:
            return norm_int(o.w)
        if name == 'size' and o.w is not None:
            return Builtin('sort.size', lambda it, a, k: norm_int(o.w))
        if name in ('is_bool_type', 'is_bv_type', 'is_int_type', 'is_real_type', 'is_function_type', 'is_string_type', 'is_array_type'):
            s = {'is_bool_type': 'bool', 'is_bv_type': 'bv', 'is_int_type': 'int', 'is_function_type': 'fun'}.get(name, '?')

            def f(it, a, k):
                r = o.sort == s
                if r and a:
                    return T.eq(o.w, a[0])
                return r
            return Builtin(name, f)
        if name in ('param_types', 'return_type') and o.sort == 'fun':
            raise Unsupported('function type attribute')
        if name in LIBATTR['sort']:
            raise Unsupported('attribute %s of a solver sort' % name)
        it.raise_('AttributeError', name)
    if isinstance(o, UF):
        m = UF_ATTR.get(name)
        if m is not None:
            return m(it, o)
        if name in DUNDERS.get(t.name, '').split() or name in OBJ_DUNDERS:
            return _dunder(it, o, name)
        if o.cls is CLS['gmpy2ctx'] and name not in CTX_METHODS:
            it.raise_('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, IterV) and o.kind == 'range' and name in ('start', 'stop', 'step') and 'args' in it.rec(o):
        return it.rec(o)['args'][('start', 'stop', 'step').index(name)]
    for k in t.mro:
        tab = METHODS.get(k.name)
        if tab and name in tab:
            return BoundM(Builtin(k.name + '.' + name, tab[name]), o)
    if name in ('real', 'numerator') and isinstance(o, (int, I, B)):
        return norm_int(P(to_num(o)))
    if name in ('imag', 'denominator') and isinstance(o, (int, I, B)):
        return 0 if name == 'imag' else 1
    for k in t.mro:
        if name in DUNDERS.get(k.name, '').split():
            return _dunder(it, o, name)
    if name in OBJ_DUNDERS:
        return _dunder(it, o, name)
    if t.name in REALT and any(name in k.__dict__ for k in REALT[t.name].__mro__):
        raise Unsupported('attribute %s of %s' % (name, t.name))
    known = t.name in DUNDERS or t.name in METHODS or t.name in ('builtin_function_or_method', 'object', 'ellipsis', 'NotImplementedType', 'module') or isinstance(o, Opaque)
    if known or o is None:
        it.raise_('AttributeError', name)
    raise Unsupported('attribute %s of %r' % (name, o))


_BINNAMES = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__floordiv__': 'FloorDiv', '__mod__': 'Mod', '__and__': 'BitAnd',
             '__or__': 'BitOr', '__xor__': 'BitXor', '__lshift__': 'LShift', '__rshift__': 'RShift', '__truediv__': 'Div',
             '__pow__': 'Pow', '__matmul__': 'MatMult', '__divmod__': 'divmod'}
_CMPNAMES = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}
_UNNAMES = {'__neg__': 'USub', '__pos__': 'UAdd', '__invert__': 'Invert'}
_REV = {v: '__r' + k[2:] for k, v in _BINNAMES.items()}
_FWD = {v: k for k, v in _BINNAMES.items()}
_CFWD = {v: k for k, v in _CMPNAMES.items()}
_SWAP = {'__eq__': '__eq__', '__ne__': '__ne__', '__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}


def _dunder(it, o, name):
    """special method of a builtin value as a callable"""
    if name in _BINNAMES:
        return Builtin(name, lambda it, a, k: prim_binop(it, _BINNAMES[name], o, a[0]))
    if name.startswith('__r') and '__' + name[3:] in _BINNAMES:
        return Builtin(name, lambda it, a, k: prim_binop(it, _BINNAMES['__' + name[3:]], a[0], o))
    if name in _CMPNAMES:
        return Builtin(name, lambda it, a, k: prim_compare(it, _CMPNAMES[name], o, a[0]))
    if name in _UNNAMES:
        return Builtin(name, lambda it, a, k: unop(it, _UNNAMES[name], o))
    f = {'__len__': 'len', '__iter__': 'iter', '__hash__': 'hash', '__repr__': 'repr', '__abs__': 'abs', '__next__': 'next'}.get(name)
    if f:
        return Builtin(name, lambda it, a, k: it.call(BUILTINS[f], [o], {}))
    if name in ('__int__', '__index__', '__trunc__'):
        return Builtin(name, lambda it, a, k: it.call(CLS['int'], [o], {}))
    if name == '__bool__':
        return Builtin(name, lambda it, a, k: it.truth(o))
    if name == '__float__':
        return Builtin(name, lambda it, a, k: it.call(CLS['float'], [o], {}))
    if name == '__str__':
        return Builtin(name, lambda it, a, k: py_str(it, o))
    if name == '__getitem__':
        return Builtin(name, lambda it, a, k: it.getitem(o, a[0]))
    if name == '__setitem__':
        return Builtin(name, lambda it, a, k: it.setitem(o, a[0], a[1]))
    if name == '__delitem__':
        return Builtin(name, lambda it, a, k: it.delitem(o, a[0]))
    if name == '__contains__':
        return Builtin(name, lambda it, a, k: contains(it, o, a[0]))
    return Builtin(name, _unsup('special method %s' % name))


def slice_indices(it, s, n):
    if s.step not in (None, 1):
        raise Unsupported('slice.indices step')
    return (norm_int(P(it.slice_bound(s.start, n, 0))), norm_int(P(it.slice_bound(s.stop, n, n))), 1)


# ------------------------------------------------------------------ operators
def to_num(v):
    return T.ind(v) if isinstance(v, B) else v


def unop(it, op, v):
    if isinstance(v, (I, B, int)):
        if op == 'USub':
            return norm_int(T.mul(-1, P(to_num(v))))
        if op == 'UAdd':
            return norm_int(P(to_num(v)))
        if op == 'Invert':
            return norm_int(T.inot(P(to_num(v))))
    if isinstance(v, float):
        if op == 'Invert':
            it.raise_('TypeError', 'bad operand type for unary')
        return {'USub': -v, 'UAdd': v}[op]
    if isinstance(v, (Inst, ClassV)):
        t = it.type_of(v)
        n = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
        m = it.mro_lookup(t, n)
        if m is None:
            it.raise_('TypeError', 'bad operand type for unary')
        return it.call(it.bind(m, v, t), [], {})
    if isinstance(v, SNode):
        if v.fam == 'z3' and v.sort == 'bv':
            if op == 'Invert':
                return bvnode(v, T.sub(T.sub(T.pow2(v.w), 1), v.den))
            if op == 'USub':
                return bvnode(v, T.mul(-1, v.den))
        if v.fam == 'pysmt':
            if op == 'Invert':
                if v.sort == 'bv':
                    return bvnode(v, T.sub(T.sub(T.pow2(v.w), 1), v.den))
                if v.sort == 'bool':
                    return SNode('pysmt', 'bool', T.bnot_(v.den))
            if op == 'USub':
                if v.sort == 'bv':
                    return bvnode(v, T.mul(-1, v.den))
                if v.sort == 'int':
                    return SNode('pysmt', 'int', T.mul(-1, v.den))
        raise Unsupported('unary %s on %r' % (op, v))
    if isinstance(v, UF):
        return UF({'USub': 'neg', 'UAdd': 'pos', 'Invert': 'invert'}[op], (v, curctx(it)), v.cls)
    if v is None or isinstance(v, (str, tuple, ListV, DictV, FuncV, Opaque, FStr)):
        it.raise_('TypeError', 'bad operand type for unary')
    raise Unsupported('unary %s on %r' % (op, v))


def divzero(it, b):
    it.raise_if(T.eq(P(b), 0), 'ZeroDivisionError')


def prim_int(it, op, a, b):
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) and op in ('BitAnd', 'BitOr', 'BitXor'):
        return {'BitAnd': T.band_, 'BitOr': T.bor_, 'BitXor': T.bxor_}[op](a, b)
    a, b = P(to_num(a)), P(to_num(b))
    with T.guard_facts(T.mb(it.st.guard)):
        r = _prim_int(it, op, a, b)
    return norm_int(r) if isinstance(r, I) else r


def _prim_int(it, op, a, b):
    if op == 'Add':
        return T.add(a, b)
    if op == 'Sub':
        return T.sub(a, b)
    if op == 'Mult':
        return T.mul(a, b)
    if op == 'BitAnd':
        return T.iand(a, b)
    if op == 'BitOr':
        return T.ior(a, b)
    if op == 'BitXor':
        return T.ixor(a, b)
    if op in ('FloorDiv', 'Mod'):
        divzero(it, b)
        with T.guard_facts(T.mb(it.st.guard)):
            return T.fdiv(a, b) if op == 'FloorDiv' else T.fmod(a, b)
    if op in ('LShift', 'RShift'):
        it.raise_if(T.lt(b, 0), 'ValueError')
        with T.guard_facts(T.mb(it.st.guard)):
            return T.shl(a, b) if op == 'LShift' else T.shr(a, b)
    if op == 'Pow':
        if a.const == 2:
            neg = T.lt(b, 0)
            if it.known(neg) is not False:
                raise Unsupported('power with possibly negative exponent')
            return T.pow2(b)
        if a.const is not None and b.const is not None and b.const >= 0:
            return P(int(a.const) ** int(b.const))
        if b.const is not None and 0 <= b.const <= 4:
            r = P(1)
            for _ in range(int(b.const)):
                r = T.mul(r, a)
            return r
        raise Unsupported('power')
    if op == 'Div':
        divzero(it, b)
        return UF('truediv', (a, b), CLS['float'])
    raise Unsupported('int operator %s' % op)


def special(it, op, a, b, name, rname):
    """Python's binary operator protocol"""
    ta, tb_ = it.type_of(a), it.type_of(b)
    ma = it.mro_lookup(ta, name) if it.mro_has(ta, name) else None
    mb_ = it.mro_lookup(tb_, rname) if it.mro_has(tb_, rname) else None
    same = it.same_class(ta, tb_)

    def callm(m, t, x, y):
        return it.call(it.bind(m, x, t), [y], {})

    def after(r):
        if r is not NotImplemented:
            return r

        def refl():
            if mb_ is None:
                return prim_binop(it, op, a, b) if not isinstance(a, (Inst, ClassV)) else NotImplemented
            return callm(mb_, tb_, b, a)
        # the reflected method is not tried for operands of the same class
        return it.branch(same, lambda: NotImplemented, refl)
    prio = (tb_ is not ta and mb_ is not None and ta in tb_.mro and it.mro_lookup(ta, rname) is not mb_ and same is not True)
    if prio:
        r = callm(mb_, tb_, b, a)

        def aft2(r):
            if r is not NotImplemented:
                return r
            return callm(ma, ta, a, b) if ma is not None else NotImplemented
        return it.case(r, aft2)
    if ma is not None and isinstance(a, (Inst, ClassV)):
        return it.case(callm(ma, ta, a, b), after)
    return after(NotImplemented)


def binop(it, op, a, b, inplace=False):
    if isinstance(a, (I, B, int)) and isinstance(b, (I, B, int)):
        return prim_int(it, op, a, b)
    if inplace and isinstance(a, Inst):
        n = '__i' + _FWD[op][2:]
        m = it.mro_lookup(a.cls, n)
        if m is not None:
            r = it.call(it.bind(m, a, a.cls), [b], {})
            return it.case(r, lambda r: r if r is not NotImplemented else binop(it, op, a, b))
    if inplace and isinstance(a, ListV) and a.kind in ('list', 'set'):
        if op == 'Add' or op == 'BitOr':
            METHODS['list' if a.kind == 'list' else 'set']['extend' if a.kind == 'list' else 'update'](it, [a, b], {})
            return a
    if isinstance(a, (Inst, ClassV)) or isinstance(b, (Inst, ClassV)):
        if isinstance(a, ClassV) and isinstance(b, (ClassV, type(None))) and op == 'BitOr' and it.mro_lookup(a.meta, '__or__').__class__ is Builtin:
            return (a, b)
        r = special(it, op, a, b, _FWD[op], _REV[op])

        def fin(r):
            if r is NotImplemented:
                it.raise_('TypeError', 'unsupported operand types')
            return r
        return it.case(r, fin)
    r = prim_binop(it, op, a, b)

    def fin2(r):
        if r is NotImplemented:
            it.raise_('TypeError', 'unsupported operand types')
        return r
    return it.case(r, fin2)


def seq_concat(it, a, b):
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        na = a.n if isinstance(a, SymSeq) else P(len(a))
        nb_ = b.n if isinstance(b, SymSeq) else P(len(b))
        if not isinstance(a, SymSeq):
            if len(a) == 0:
                return b
            raise Unsupported('concatenation with a sequence of unknown length')
        if not isinstance(b, SymSeq):
            if len(b) == 0:
                return a
        kind = a.kind

        def get(i):
            c = T.lt(i, na)
            k = it.known(c)
            if k is True:
                return a.get(i)
            second = (lambda j: b.get(j)) if isinstance(b, SymSeq) else (lambda j: it.seq_index(b, norm_int(j), 'tuple'))
            if k is False:
                return second(T.sub(i, na))
            if isinstance(b, SymSeq):
                return mkchoice([(c, a.get(i)), (T.bnot_(c), b.get(T.sub(i, na)))])
            return it.branch(c, lambda: a.get(i), lambda: second(T.sub(i, na)))
        return SymSeq(T.add(na, nb_), get, kind)
    return tuple(a) + tuple(b)


def rat_of(v):
    """(m, e) of an exact rational m * 2**e"""
    if isinstance(v, UF):
        if v.op == 'rat':
            return v.args
        if v.op == 'mpq' and len(v.args) == 1 and is_int(v.args[0]):
            return P(to_num(v.args[0])), P(0)
        return None
    return (P(to_num(v)), P(0)) if is_int(v) else None


def rat_op(op, a, b):
    if not any(isinstance(x, UF) and x.cls is CLS.get('mpq') for x in (a, b)):
        return None
    x, y = rat_of(a), rat_of(b)
    if x is None or y is None:
        return None
    r = None
    if op == 'Mult':
        r = T.mul(x[0], y[0]), T.add(x[1], y[1])
    elif op == 'Pow' and T.eq(x[0], 2) is True and T.eq(x[1], 0) is True and is_int(b):
        r = P(1), y[0]
    elif op == 'Div' and T.eq(y[0], 1) is True:
        r = x[0], T.sub(x[1], y[1])
    return None if r is None else UF('rat', tuple(P(t) for t in r), CLS['mpq'])


def prim_binop(it, op, a, b):
    for x in (a, b):
        if isinstance(x, Choice):
            raise Unsupported('joined operand')
    if isinstance(a, (I, B, int)) and isinstance(b, (I, B, int)):
        return prim_int(it, op, a, b)
    if isinstance(a, SNode) or isinstance(b, SNode):
        return snode_binop(it, op, a, b)
    if isinstance(a, UF) or isinstance(b, UF):
        r = rat_op(op, a, b)
        if r is not None:
            return r
        if isinstance(a, (UF, I, int, float, B)) and isinstance(b, (UF, I, int, float, B)):
            cls = a.cls if isinstance(a, UF) else b.cls
            if cls is CLS['float'] and isinstance(a, UF) and isinstance(b, UF):
                cls = b.cls
            return UF(op.lower(), (a, b, curctx(it)), cls)
        return NotImplemented
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow}.get(op)
        if f is None:
            return NotImplemented
        try:
            return f(a, b)
        except ZeroDivisionError:
            it.raise_('ZeroDivisionError')
    strs = (str, FStr, SymStr)
    if isinstance(a, strs):
        if op == 'Add':
            if isinstance(b, strs):
                if isinstance(b, SymStr) and isinstance(a, str):
                    return SymStr(b.sep, b.seq, a + b.pre)
                return joinparts(it, [a, b])
            return NotImplemented
        if op == 'Mod':
            if isinstance(a, str) and isinstance(b, (str, int)) or (isinstance(a, str) and isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b)):
                try:
                    return a % b
                except (TypeError, ValueError):
                    it.raise_('TypeError')
            return FStr([('mod', a), ('val', b)])
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        return NotImplemented
    if isinstance(b, strs) and op == 'Mult' and isinstance(a, int) and isinstance(b, str):
        return a * b
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (tuple, ListV, SymSeq)) and isinstance(y, (int, I, B)):
                seq = x
                if isinstance(x, ListV):
                    if x.kind != 'list':
                        return NotImplemented
                    seq = it.rec(x)['items']
                return repeat_seq(it, seq, to_num(y), 'list' if isinstance(x, (ListV, SymSeq)) else 'tuple')
    if op == 'Add':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        la = a if isinstance(a, SymSeq) else it.rec(a)['items'] if isinstance(a, ListV) and a.kind == 'list' else None
        lb = b if isinstance(b, SymSeq) else it.rec(b)['items'] if isinstance(b, ListV) and b.kind == 'list' else None
        if la is not None and lb is not None:
            if isinstance(la, Choice) or isinstance(lb, Choice):
                return it.case(la, lambda x: it.case(lb, lambda y: _mkl(it, seq_concat(it, x, y))))
            return _mkl(it, seq_concat(it, la, lb))
    if isinstance(a, ListV) and isinstance(b, ListV) and a.kind in ('set', 'frozenset') and b.kind in ('set', 'frozenset'):
        x, y = it.iterate(a), it.iterate(b)
        inn = lambda v, l: any(it.eq_known(v, w) for w in l)
        if op == 'BitAnd':
            return it.new_list([v for v in x if inn(v, y)], a.kind)
        if op == 'BitOr':
            return it.new_list(x + [v for v in y if not inn(v, x)], a.kind)
        if op == 'Sub':
            return it.new_list([v for v in x if not inn(v, y)], a.kind)
        if op == 'BitXor':
            return it.new_list([v for v in x if not inn(v, y)] + [v for v in y if not inn(v, x)], a.kind)
    if isinstance(a, DictV) and isinstance(b, DictV) and op == 'BitOr':
        d = it.new_dict(it.mapping_items(a), a.kind if a.kind != 'proxy' else 'dict')
        it.dict_update(d, b)
        return d
    import operator as o
    f = getattr(o, _PYOP.get(op, op), None)
    sa, sb = sample(a), sample(b)
    if f is not None and sa is not None and sb is not None:
        try:
            f(sa[0], sb[0])
        except TypeError:
            return NotImplemented
        except Exception:
            pass
        raise Unsupported('%s of %s and %s' % (op, type(sa[0]).__name__, type(sb[0]).__name__))
    return NotImplemented


_PYOP = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'LShift': 'lshift',
         'RShift': 'rshift', 'BitAnd': 'and_', 'BitOr': 'or_', 'BitXor': 'xor', 'MatMult': 'matmul'}


def sample(v):
    """a value of the same builtin type, in a tuple (None: not a builtin value)"""
    if v is None:
        return (None,)
    if isinstance(v, B):
        return (True,)
    if isinstance(v, I):
        return (1,)
    if isinstance(v, (FStr, SymStr)):
        return ('a',)
    if isinstance(v, (bool, int, float, str, bytes, tuple, range, complex)):
        return (v,) if isinstance(v, (bool, str, bytes)) else (type(v)(1),) if not isinstance(v, (tuple, range)) else (v[:0],)
    if isinstance(v, ListV):
        return {'list': ([],), 'set': (set(),), 'frozenset': (frozenset(),)}.get(v.kind)
    if isinstance(v, SymSeq):
        return ([],) if v.kind == 'list' else ((),)
    if isinstance(v, DictV):
        return ({},)
    return None


def _mkl(it, x):
    return x if isinstance(x, SymSeq) else it.new_list(x)


def repeat_seq(it, seq, k, kind):
    if isinstance(k, int):
        if not isinstance(seq, SymSeq):
            r = tuple(seq) * k
            return it.new_list(r) if kind == 'list' else r
        if k == 1:
            return seq
        if k <= 0:
            return it.new_list([]) if kind == 'list' else ()
    if not isinstance(seq, SymSeq):
        if len(seq) == 0:
            return it.new_list([]) if kind == 'list' else ()
        n = P(k)
        with T.guard_facts(T.mb(it.st.guard)):
            n = T.iite(T.lt(n, 0), 0, n)
        if len(seq) == 1:
            x = seq[0]
            return SymSeq(n, lambda i: x, kind)
        items = tuple(seq)

        def pick(i):
            j = T.fmod(P(i), P(len(items)))
            r = items[-1]
            for q in range(len(items) - 2, -1, -1):
                c = T.eq(j, q)
                r = mkchoice([(c, items[q]), (T.bnot_(c), r)])
            return r
        return SymSeq(T.mul(n, len(items)), pick, kind)
    n = seq.n
    kk = P(k)
    with T.guard_facts(T.mb(it.st.guard)):
        kk = T.iite(T.lt(kk, 0), 0, kk)

    def get(i):
        return seq.get(T.fmod(P(i), n))
    return SymSeq(T.mul(kk, n), get, kind)


# ------------------------------------------------------------------ comparison
def has_cmp(it, v, name):
    t = it.type_of(v)
    m = it.mro_lookup(t, name)
    return m if isinstance(m, (FuncV, Inst, StaticV, ClassMV, BoundM)) or (isinstance(m, Builtin) and not m.name.startswith('object.')) else None


def rich(it, name, a, b):
    """one direction: type(a).name(a, b); result may be NotImplemented"""
    if isinstance(a, (Inst, ClassV)) or (isinstance(a, Opaque) and a.cls is not None):
        t = it.type_of(a)
        m = has_cmp(it, a, name)
        if m is not None:
            return it.call(it.bind(m, a, t), [b], {})
        if name == '__ne__':
            e = has_cmp(it, a, '__eq__')
            if e is not None:
                r = it.call(it.bind(e, a, t), [b], {})
                return it.case(r, lambda r: r if r is NotImplemented else T.bnot_(it.truth(r)))
        return NotImplemented
    return prim_compare(it, _CMPNAMES[name], a, b)


def is_same(it, a, b):
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return it.same_class(a, b)
    if isinstance(a, SType) and isinstance(b, SType):
        if a.fam != b.fam or a.sort != b.sort:
            return False
        if a.fam == 'z3':
            raise Unsupported('identity of z3 sorts')
        if a.w is not None:
            return T.eq(a.w, b.w)
        return True
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return T.biff_(a, b)
    if isinstance(a, (bool, B)) != isinstance(b, (bool, B)) and is_num(a) and is_num(b):
        return False
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        raise Unsupported('identity of integers')
    if isinstance(a, (str, FStr)) and isinstance(b, (str, FStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        raise Unsupported('identity of strings')
    return identical(a, b)


def compare(it, op, a, b):
    if op == 'Is':
        return is_same(it, a, b)
    if op == 'IsNot':
        return T.bnot_(is_same(it, a, b))
    if op == 'In':
        return contains(it, b, a)
    if op == 'NotIn':
        return it.case(contains(it, b, a), lambda r: T.bnot_(it.truth(r)))
    name = _CFWD[op]
    ua = isinstance(a, (Inst, ClassV)) or isinstance(a, Opaque)
    ub = isinstance(b, (Inst, ClassV)) or isinstance(b, Opaque)
    if not ua and not ub:
        r = prim_compare(it, op, a, b)
    else:
        ta, tb_ = it.type_of(a), it.type_of(b)
        sw = _SWAP[name]
        prio = ta is not tb_ and ta in tb_.mro and has_cmp(it, b, sw) is not None

        def second(first_done):
            def f(r):
                if r is not NotImplemented:
                    return r
                return rich(it, name, a, b) if first_done else rich(it, sw, b, a)
            return f
        if prio:
            r = it.case(rich(it, sw, b, a), second(True))
        else:
            r = it.case(rich(it, name, a, b), second(False))

    def fin(r):
        if r is NotImplemented:
            if op == 'Eq':
                return is_same(it, a, b)
            if op == 'NotEq':
                return T.bnot_(is_same(it, a, b))
            it.raise_('TypeError', 'unorderable')
        return r
    return it.case(r, fin)


def dict_eq(it, x, y):
    x, y = list(x), list(y)
    if len(x) != len(y):
        return False
    r = True
    for k, v in x:
        hit = False
        for k2, v2 in y:
            c = it.simp(it.key_match(None, k2, k))
            if c is False:
                continue
            hit = T.bor_(hit, T.band_(c, it.truth(item_eq(it, v, v2))))
        r = T.band_(r, hit)
        if r is False:
            return False
    return r


def item_eq(it, x, y):
    """identity-or-equality used by containers"""
    if identical(x, y) and not isinstance(x, (UF,)):
        return True
    if isinstance(x, ClassV) and isinstance(y, ClassV) and has_cmp(it, x, '__eq__') is None:
        return it.same_class(x, y)
    return it.truth(it.compare('Eq', x, y))


def seq_eq(it, x, y):
    if isinstance(x, SymSeq) or isinstance(y, SymSeq):
        raise Unsupported('comparison of sequences of unknown length')
    if len(x) != len(y):
        return False
    r = True
    for p, q in zip(x, y):
        if r is False:
            return False
        r = it.branch(r, lambda: item_eq(it, p, q), lambda: False) if r is not True else item_eq(it, p, q)
    return r


def prim_compare(it, op, a, b):
    if isinstance(a, (I, B, int)) and isinstance(b, (I, B, int)):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) and op in ('Eq', 'NotEq'):
            r = T.biff_(a, b)
            return r if op == 'Eq' else T.bnot_(r)
        a, b = P(to_num(a)), P(to_num(b))
        with T.guard_facts(T.mb(it.st.guard)):
            return {'Eq': T.eq, 'NotEq': T.ne, 'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op](a, b)
    if isinstance(a, SNode) or isinstance(b, SNode):
        return snode_compare(it, op, a, b)
    if isinstance(a, UF) or isinstance(b, UF):
        if isinstance(a, (UF, I, B, int, float)) and isinstance(b, (UF, I, B, int, float)):
            x, y = it.canon(a), it.canon(b)
            if x == y and op in ('Eq', 'NotEq') and isinstance(a, UF) and a.cls is CLS['int']:
                return op == 'Eq'
            if op in ('Gt', 'GtE'):
                # canonical direction; a > b is not ~(a <= b) for NaN
                op, x, y = {'Gt': 'Lt', 'GtE': 'LtE'}[op], y, x
            if op == 'NotEq':
                return T.bnot_(B(T._bdd_var(T.atom('fpEq', (x, y), 'bool'))))
            return B(T._bdd_var(T.atom('fp' + op, (x, y), 'bool')))
        return NotImplemented
    if isinstance(a, IterV) and isinstance(b, IterV) and a.kind == b.kind == 'range' and op in ('Eq', 'NotEq'):
        return (tuple(it.rec(a)['items']) == tuple(it.rec(b)['items'])) == (op == 'Eq')
    if op in ('Eq', 'NotEq'):
        r = _prim_eq(it, a, b)
        if r is NotImplemented:
            return r
        return r if op == 'Eq' else T.bnot_(r)
    if isinstance(a, str) and isinstance(b, str) or (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, (int, str)) for x in a + b):
        try:
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        except TypeError:
            it.raise_('TypeError')
    if isinstance(a, ListV) and isinstance(b, ListV) and a.kind in ('set', 'frozenset') and b.kind in ('set', 'frozenset'):
        x, y = it.iterate(a), it.iterate(b)
        inn = lambda v, l: any(it.eq_known(v, w) for w in l)
        le = all(inn(v, y) for v in x)
        ge = all(inn(v, x) for v in y)
        return {'LtE': le, 'GtE': ge, 'Lt': le and not ge, 'Gt': ge and not le}[op]
    return NotImplemented


def fstr_eq(a, b):
    """equality of strings made of literals and decimal numbers; None: not decided"""
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        return None
    x = [a] if isinstance(a, str) else list(a.parts)
    y = [b] if isinstance(b, str) else list(b.parts)
    dec = lambda p: isinstance(p, tuple) and p[0] == 'fmt' and is_int(p[1]) and p[2:] in ((-1, ''), (-1, 'd'))
    for _ in range(200):
        x, y = [p for p in x if p != ''], [p for p in y if p != '']
        if not x and not y:
            return True
        if not x or not y:
            z = x or y
            return False if any(isinstance(p, str) or dec(p) for p in z) else None
        again = False
        for i in (0, -1):
            p, q = x[i], y[i]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if (p[:n] != q[:n]) if i == 0 else (p[-n:] != q[-n:]):
                    return False
                x[i], y[i] = (p[n:], q[n:]) if i == 0 else (p[:-n], q[:-n])
                again = True
                break
            if not isinstance(p, str) and not isinstance(q, str) and identical(p, q):
                del x[i], y[i]
                again = True
                break
        if not again:
            break
    if len(y) == 1 and dec(y[0]):
        x, y = y, x
    if not (len(x) == 1 and dec(x[0])):
        return None
    if any(isinstance(p, str) and not (p.isdigit() or p[0] == '-' and p[1:].isdigit() or p == '-') for p in y):
        return False
    if len(y) == 1 and isinstance(y[0], str):
        return T.eq(P(x[0][1]), int(y[0])) if y[0] != '-' and str(int(y[0])) == y[0] else False
    if len(y) == 1 and dec(y[0]):
        return T.eq(P(x[0][1]), P(y[0][1]))
    return None


def _prim_eq(it, a, b):
    if a is None or b is None:
        return True if a is b else NotImplemented
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, FStr, SymStr)) and isinstance(b, (str, FStr, SymStr)):
        if identical(a, b):
            return True
        if isinstance(a, str) or isinstance(b, str):
            s, f = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(f, FStr) and str_disjoint(s, f):
                return False
        r = fstr_eq(a, b)
        if r is not None:
            return r
        return B(T._bdd_var(T.atom('streq', tuple(sorted((it.canon(a), it.canon(b)), key=repr)), 'bool')))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_eq(it, a, b)
    if isinstance(a, SType) and isinstance(b, SType):
        if a.fam != b.fam or a.sort != b.sort:
            return False
        return T.eq(a.w, b.w) if a.w is not None else True
    if isinstance(a, ListV) and isinstance(b, ListV):
        sa, sb = a.kind in ('set', 'frozenset'), b.kind in ('set', 'frozenset')
        if sa != sb:
            return NotImplemented
        x, y = it.rec(a)['items'], it.rec(b)['items']

        def f(x, y):
            if sa:
                if len(x) != len(y):
                    return False
                return all(any(it.eq_known(v, w) for w in y) for v in x)
            return seq_eq(it, x, y)
        return it.case(x, lambda x: it.case(y, lambda y: f(x, y)))
    if isinstance(a, DictV) and isinstance(b, DictV):
        x, y = it.rec(a)['items'], it.rec(b)['items']

        def g(x, y):
            if a.kind == 'odict' and b.kind == 'odict':
                if len(x) != len(y):
                    return False
                r = True
                for (k1, v1), (k2, v2) in zip(x, y):
                    r = T.band_(r, T.band_(it.truth(item_eq(it, k1, k2)), it.truth(item_eq(it, v1, v2))))
                return r
            return dict_eq(it, x, y)
        return it.case(x, lambda x: it.case(y, lambda y: g(x, y)))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return identical(a, b)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return seq_eq(it, (a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, SymSeq) and isinstance(b, SymSeq):
        if identical(a, b):
            return True
        raise Unsupported('comparison of sequences of unknown length')
    if isinstance(a, ListV) and isinstance(b, SymSeq) or isinstance(a, SymSeq) and isinstance(b, ListV):
        raise Unsupported('comparison of sequences of unknown length')
    return NotImplemented


def str_disjoint(s, f):
    """concrete s can never equal the template f"""
    ps = f.parts
    if isinstance(ps[0], str) and not s.startswith(ps[0]):
        return True
    if isinstance(ps[-1], str) and not s.endswith(ps[-1]):
        return True
    return False


def contains(it, c, x):
    if isinstance(c, Choice):
        return it.case(c, lambda y: contains(it, y, x))
    if isinstance(c, (tuple, ListV, SymSeq, IterV)):
        if isinstance(c, ListV) and c.kind in ('set', 'frozenset'):
            it.hashable(x)
        items = c
        if isinstance(c, ListV):
            items = it.rec(c)['items']
        elif isinstance(c, IterV):
            items = it.iterate(c)

        def f(items):
            if isinstance(items, SymSeq):
                if items.kind == 'range' and is_num(x):
                    xp = P(to_num(x))
                    first = items.get(P(0))
                    if identical(norm_int(first), 0) and identical(items.get(P(5)), 5):
                        return T.band_(T.ge(xp, 0), T.lt(xp, items.n))
                raise Unsupported('membership in a sequence of unknown length')
            r = False
            for y in items:
                if isinstance(x, (Inst, Opaque, UF, SNode)) and isinstance(c, ListV) and c.kind in ('set', 'frozenset') and not isinstance(y, type(x)):
                    # hash tables compare hashes first; different kinds of objects may still compare equal
                    pass
                q = item_eq(it, y, x) if not (isinstance(x, Inst) and not isinstance(y, Inst)) else item_eq(it, x, y)
                r = T.bor_(r, q)
                if r is True:
                    return True
            return r
        return it.case(items, f)
    if isinstance(c, DictV):
        return it.dict_has(c, x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (str, FStr)):
        if not isinstance(x, (str, FStr)):
            it.raise_('TypeError')
        raise Unsupported('substring test')
    if isinstance(c, (Inst, ClassV)):
        t = it.type_of(c)
        m = it.mro_lookup(t, '__contains__')
        if m is not None:
            r = it.call(it.bind(m, c, t), [x], {})
            return it.truth(r)
        if it.mro_has(t, '__iter__'):
            return contains(it, tuple(it.iterate(c)), x)
        it.raise_('TypeError', 'not a container')
    if c is None or isinstance(c, (int, I, B, FuncV)):
        it.raise_('TypeError', 'not a container')
    raise Unsupported('membership in %r' % (c,))


# ------------------------------------------------------------------ builtin functions
def one(f):
    return lambda it, a, k: f(it, *a)


def _count(it, a, k):
    xs = it.iterate(a[0])
    if isinstance(xs, SymSeq):
        raise Unsupported('count in a sequence of unknown length')
    n = 0
    for x in xs:
        n = it.binop('Add', n, to_num(it.truth(it.compare('Eq', x, a[1]))))
    return n


def _remove(it, a, k):
    xs = it.iterate(a[0])
    if isinstance(xs, SymSeq):
        raise Unsupported('remove from a list of unknown length')
    xs = list(xs)

    def go(i):
        if i == len(xs):
            it.raise_('ValueError', 'not in list')
        c = it.truth(it.compare('Eq', xs[i], a[1]))
        return it.branch(c, lambda: it.put(a[0], 'items', tuple(xs[:i] + xs[i + 1:])), lambda: go(i + 1))
    return go(0)


def _round(it, a, k):
    v = a[0]
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if isinstance(v, (int, I, B)) and nd is None:
        return norm_int(P(to_num(v))) if not isinstance(v, int) else int(v)
    if isinstance(v, (int, float)) and (nd is None or isinstance(nd, int)):
        try:
            return round(v) if nd is None else round(v, nd)
        except (ValueError, OverflowError) as e:
            it.raise_(type(e).__name__)
    if isinstance(v, Inst):
        m = it.mro_lookup(v.cls, '__round__')
        if m is not None:
            return it.call(it.bind(m, v, v.cls), list(a[1:]), {})
        it.raise_('TypeError')
    raise Unsupported('round')


def _reg_builtins():
    def d(name, f, lift=False):
        BUILTINS[name] = Builtin(name, f, lift)

    d('len', one(py_len), True)
    d('isinstance', lambda it, a, k: it.isinst(a[0], a[1]))
    d('issubclass', lambda it, a, k: it.issub(a[0], a[1]))
    d('hasattr', lambda it, a, k: it.case(it.getattr(a[0], a[1], ABSENT), lambda v: v is not ABSENT))
    d('getattr', lambda it, a, k: it.getattr(a[0], _sname(it, a[1]), a[2] if len(a) > 2 else UNBOUND))
    d('setattr', lambda it, a, k: it.setattr(a[0], _sname(it, a[1]), a[2]))
    d('delattr', lambda it, a, k: it.delattr(a[0], a[1]))
    d('callable', lambda it, a, k: isinstance(a[0], (FuncV, BoundM, Builtin, ClassV, StaticV)) or (isinstance(a[0], Inst) and it.mro_has(a[0].cls, '__call__')), True)
    d('repr', lambda it, a, k: py_repr(it, a[0]))
    d('format', lambda it, a, k: py_format(it, a[0], None, a[1] if len(a) > 1 else ''))
    d('hash', lambda it, a, k: py_hash(it, a[0]))
    d('id', lambda it, a, k: P(T.atom('id', (it.canon(a[0]),), 'int')))
    d('print', lambda it, a, k: None)
    d('abs', one(py_abs), True)
    d('min', lambda it, a, k: minmax(it, a, k, True))
    d('max', lambda it, a, k: minmax(it, a, k, False))
    d('sum', py_sum)
    d('any', lambda it, a, k: anyall(it, a[0], True))
    d('all', lambda it, a, k: anyall(it, a[0], False))
    d('map', py_map)
    d('filter', py_filter)
    d('zip', py_zip)
    d('enumerate', py_enumerate)
    d('reversed', py_reversed, True)
    d('sorted', py_sorted)
    d('iter', py_iter, True)
    d('next', py_next)
    d('super', lambda it, a, k: SuperV(a[0], a[1]) if len(a) == 2 else _unsup('super')(it, a, k))
    d('divmod', lambda it, a, k: (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1])))
    d('pow', lambda it, a, k: it.binop('Pow', a[0], a[1]) if len(a) == 2 else pow(*a) if all(isinstance(x, int) for x in a) and a[1] >= 0 and a[2] else _unsup('3-arg pow')(it, a, k))
    d('round', _round)
    d('vars', lambda it, a, k: it.getattr(a[0], '__dict__'))
    d('dir', py_dir)
    d('ord', lambda it, a, k: ord(a[0]) if isinstance(a[0], str) else _unsup('ord')(it, a, k))
    d('chr', lambda it, a, k: chr(a[0]) if isinstance(a[0], int) else _unsup('chr')(it, a, k))
    d('bin', lambda it, a, k: bin(a[0]) if isinstance(a[0], int) else it.mkstr([('fmt', it.to_index(a[0]), -1, '#b')]), True)
    d('oct', lambda it, a, k: oct(a[0]) if isinstance(a[0], int) else it.mkstr([('fmt', it.to_index(a[0]), -1, '#o')]), True)
    d('hex', lambda it, a, k: hex(a[0]) if isinstance(a[0], int) else it.mkstr([('fmt', it.to_index(a[0]), -1, '#x')]), True)
    d('exec', py_exec)


def _sname(it, n):
    if not isinstance(n, str):
        if isinstance(n, FStr):
            raise Unsupported('symbolic attribute name')
        if isinstance(n, Choice):
            raise Unsupported('joined attribute name')
        it.raise_('TypeError', 'attribute name must be string')
    return n


def py_len(it, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SymSeq):
        return norm_int(v.n)
    if isinstance(v, IterV) and v.kind == 'range':
        return len(it.rec(v)['items'])
    if isinstance(v, (ListV, DictV)):
        return it.case(it.rec(v)['items'], lambda x: norm_int(x.n) if isinstance(x, SymSeq) else len(x))
    if isinstance(v, (Inst, ClassV)):
        t = it.type_of(v)
        m = it.mro_lookup(t, '__len__')
        if m is None:
            it.raise_('TypeError', 'no len()')
        r = it.call(it.bind(m, v, t), [], {})

        def chk(r):
            if isinstance(r, (bool, B)):
                r = norm_int(P(to_num(r)))
            if not is_int(r):
                it.raise_('TypeError', '__len__ must return int')
            it.raise_if(T.lt(P(r), 0), 'ValueError')
            return r
        return it.case(r, chk)
    if isinstance(v, (FStr, SymStr)):
        raise Unsupported('len of symbolic string')
    if isinstance(v, (UF, SNode)) and not isinstance(v, SNode):
        it.raise_('TypeError')
    it.raise_('TypeError', 'no len()')


def py_abs(it, v):
    if isinstance(v, (I, B, int)):
        return norm_int(T.iabs(P(to_num(v))))
    if isinstance(v, float):
        return abs(v)
    if isinstance(v, UF):
        return UF('abs', (v, curctx(it)), v.cls)
    if isinstance(v, (Inst,)):
        m = it.mro_lookup(v.cls, '__abs__')
        if m is not None:
            return it.call(it.bind(m, v, v.cls), [], {})
    it.raise_('TypeError', 'bad operand for abs')


def minmax(it, a, k, mn):
    key = k.get('key')
    items = a if len(a) > 1 else it.iterate(a[0])
    if isinstance(items, SymSeq):
        raise Unsupported('min/max over unknown length')
    if not items:
        if 'default' in k:
            return k['default']
        it.raise_('ValueError')
    best = items[0]
    for x in items[1:]:
        kx = it.call(key, [x], {}) if key is not None else x
        kb = it.call(key, [best], {}) if key is not None else best
        c = it.truth(it.compare('Lt' if mn else 'Gt', kx, kb))
        kk = it.known(c)
        if kk is True:
            best = x
        elif kk is None:
            best = mkchoice([(c, x), (T.bnot_(c), best)])
    return best


def py_sum(it, a, k):
    if isinstance(a[0], FiltSeq) and a[0].pairs is not None:
        acc = a[1] if len(a) > 1 else k.get('start', 0)
        for c, x in a[0].pairs:
            acc = it.branch(c, lambda: it.binop('Add', acc, x), lambda: acc)
        return acc
    if isinstance(a[0], FiltSeq):
        q = a[0]

        def get(i):
            c, v = q.get(i)
            if not is_num(v):
                raise Unsupported('sum over unknown length')
            return norm_int(T.mul(P(to_num(v)), T.ind(c)))
        seq = SymSeq(q.n, get)
    else:
        seq = it.iterate(a[0])
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(seq, SymSeq):
        iv = T.fresh_var()
        T.FACTS.bound(iv, 0, seq.n - 1)
        el = seq.get(P(iv))
        if not is_num(el):
            raise Unsupported('sum over unknown length')
        el = P(to_num(el))
        if not T.occurs(el, iv):
            return norm_int(P(to_num(acc)) + T.mul(el, seq.n))
        r = it._sum(el, P(iv), iv)
        if r is None:
            raise Unsupported('sum over unknown length %r %r' % (el, seq.n))
        return norm_int(P(to_num(acc)) + r(seq.n))
    for x in seq:
        acc = it.binop('Add', acc, x)
    return acc


def anyall(it, v, isany):
    if isinstance(v, FiltSeq) and v.pairs is not None:
        def step(ps):
            if not ps:
                return not isany
            (c, x), rest = ps[0], ps[1:]

            def kept():
                t = it.truth(x)
                return it.branch(t, lambda: True if isany else step(rest), lambda: step(rest) if isany else False)
            return it.branch(c, kept, lambda: step(rest))
        return step(v.pairs)
    if isinstance(v, FiltSeq):
        def get(i):
            c, x = v.get(i)
            t = it.truth(x)
            return T.band_(c, t) if isany else T.bor_(T.bnot_(c), t)
        seq = SymSeq(v.n, get)
    else:
        seq = it.iterate(v)
    if isinstance(seq, SymSeq):
        iv = T.fresh_var()
        T.FACTS.bound(iv, 0, seq.n - 1)
        c = it.truth(seq.get(P(iv)))
        if not isany:
            return T.bnot_(it.exists(T.bnot_(c), seq.n, iv))
        return it.exists(c, seq.n, iv)

    def go(xs):
        if not xs:
            return not isany
        c = it.truth(xs[0])
        k = it.known(c)
        if k is True:
            return True if isany else go(xs[1:])
        if k is False:
            return go(xs[1:]) if isany else False
        if isany:
            return it.branch(c, lambda: True, lambda: go(xs[1:]))
        return it.branch(c, lambda: go(xs[1:]), lambda: False)
    return go(seq)


def py_map(it, a, k):
    f = a[0]
    seqs = [it.iterate(x) for x in a[1:]]
    if len(seqs) == 1 and isinstance(seqs[0], SymSeq):
        return sym_apply(it, seqs[0], lambda x: it.call(f, [x], {}))
    if any(isinstance(s, SymSeq) for s in seqs):
        if all(isinstance(s, SymSeq) for s in seqs) and all(s.n is seqs[0].n for s in seqs):
            z = SymSeq(seqs[0].n, lambda i: tuple(s.get(i) for s in seqs))
            return sym_apply(it, z, lambda x: it.call(f, list(x), {}))
        raise Unsupported('map over unknown length')
    out = [it.call(f, list(xs), {}) for xs in zip(*seqs)]
    return it.new_iter(out)


def sym_apply(it, seq, f):
    iv = T.fresh_var()
    T.FACTS.bound(iv, 0, P(seq.n) - 1)
    pre = it.st
    it.collect.append([])
    try:
        try:
            v = f(seq.get(P(iv)))
        except Dead:
            v = None
            it.st = None
    finally:
        excs = it.collect.pop()
    dead = it.st is None
    it.st = pre
    if excs:
        ce = 0
        for st, e in excs:
            ce = T.bdd_ite(ce, 1, st.guard)
        cls = {e.cls for _, e in excs}
        if len(cls) != 1:
            raise Unsupported('map raises different exceptions')
        it.raise_if(it.exists(T.mb(T.bdd_restrict(ce, pre.guard)), seq.n, iv), cls.pop())
    if dead:
        return it.new_iter([])
    return it.seq_from(v, iv, seq.n)


def py_filter(it, a, k):
    seq = it.iterate(a[1])
    if isinstance(seq, SymSeq):
        t = sym_apply(it, seq, lambda x: it.truth(it.call(a[0], [x], {}) if a[0] is not None else x))
        return FiltSeq(seq.n, lambda i: (t.get(i), seq.get(i)))
    acc = ListV()
    it.setrec(acc, {'items': ()})
    for x in seq:
        c = it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)
        it.branch(c, lambda: it.list_append(acc, x), lambda: None)
    return it.new_iter(it.rec(acc)['items'])


def py_zip(it, a, k):
    seqs = [it.iterate(x) for x in a]
    if any(isinstance(s, SymSeq) for s in seqs):
        if all(isinstance(s, SymSeq) for s in seqs):
            n = seqs[0].n
            if all(it.known(T.eq(s.n, n)) is True for s in seqs):
                return SymSeq(n, lambda i: tuple(s.get(i) for s in seqs))
        raise Unsupported('zip over unknown length')
    return it.new_iter([tuple(x) for x in zip(*seqs)])


def py_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    seq = it.iterate(a[0])
    if isinstance(seq, SymSeq):
        return SymSeq(seq.n, lambda i: (norm_int(P(i) + P(to_num(start))), seq.get(i)))
    return it.new_iter([(norm_int(P(i) + P(to_num(start))), x) for i, x in enumerate(seq)])


def py_reversed(it, a, k):
    v = a[0]
    if isinstance(v, (Inst, ClassV)):
        t = it.type_of(v)
        m = it.mro_lookup(t, '__reversed__')
        if m is not None:
            return it.call(it.bind(m, v, t), [], {})
    seq = it.iterate(v)
    if isinstance(seq, SymSeq):
        return SymSeq(seq.n, lambda i: seq.get(T.sub(T.sub(seq.n, 1), i)))
    return it.new_iter(list(seq)[::-1])


def py_sorted(it, a, k):
    seq = it.iterate(a[0])
    if isinstance(seq, SymSeq):
        raise Unsupported('sorted')
    key = k.get('key')
    ks = [it.call(key, [x], {}) if key is not None else x for x in seq]
    if len(ks) > 1 and all(isinstance(x, (Inst, int, str, tuple)) and not isinstance(x, bool) for x in ks) and not all(isinstance(x, (int, str)) for x in ks):
        # stable insertion sort by the values' own ordering
        import functools

        def cmp(i, j):
            for x, y, r in ((i, j, -1), (j, i, 1)):
                b = it.truth(it.compare('Lt', ks[x], ks[y]))
                if b is True:
                    return r
                if b is not False:
                    raise Unsupported('sorted')
            return 0
        order = sorted(range(len(seq)), key=functools.cmp_to_key(cmp), reverse=bool(k.get('reverse', False)))
        return it.new_list([seq[i] for i in order])
    if all(isinstance(x, (int, str)) for x in ks):
        try:
            order = sorted(range(len(seq)), key=lambda i: ks[i], reverse=bool(k.get('reverse', False)))
        except TypeError:
            it.raise_('TypeError')
        return it.new_list([seq[i] for i in order])
    if len(seq) <= 1:
        return it.new_list(seq)
    raise Unsupported('sorted')


def py_iter(it, a, k):
    v = a[0]
    if isinstance(v, (IterV, CountV, SymSeq)):
        return v
    s = it.iterate(v)
    return s if isinstance(s, SymSeq) else it.new_iter(s)


def py_next(it, a, k):
    v = a[0]
    if isinstance(v, Choice):
        return it.case(v, lambda x: py_next(it, [x] + a[1:], k))
    if isinstance(v, CountV):
        r = it.rec(v)
        n = r['pos']
        it.put(v, 'pos', norm_int(P(n) + P(r['step'])))
        return n
    if isinstance(v, IterV):
        r = it.rec(v)
        items, pos = r['items'], r['pos']
        if isinstance(items, (Choice, SymSeq)) or isinstance(pos, Choice):
            raise Unsupported('next on joined iterator')
        if pos >= len(items):
            if len(a) > 1:
                return a[1]
            it.raise_('StopIteration')
        it.put(v, 'pos', pos + 1)
        return items[pos]
    if isinstance(v, Inst):
        m = it.mro_lookup(v.cls, '__next__')
        if m is not None:
            return it.call(it.bind(m, v, v.cls), [], {})
    if isinstance(v, SymSeq):
        raise Unsupported('next on a sequence of unknown length')
    it.raise_('TypeError', 'not an iterator')


def py_dir(it, a, k):
    o = a[0]
    t = o if isinstance(o, ClassV) else it.type_of(o)
    names = set()
    for c in t.mro:
        names.update(n for n in it.rec(c) if isinstance(n, str) and not n.startswith('%'))
    if isinstance(o, Inst):
        names.update(it.rec(o))
    return it.new_list(sorted(names))


def render(s):
    """a Python source string from a symbolic string: symbolic parts become identifiers"""
    if isinstance(s, str):
        return s
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, tuple) and p[0] == 'cls' and isinstance(p[1].name, str):
            out.append(p[1].name)
        else:
            out.append('_sym_')
    return ''.join(out)


def py_exec(it, a, k):
    import ast
    from .interp import Frame
    src = a[0]
    if not isinstance(src, (str, FStr)):
        raise Unsupported('exec of %r' % (src,))
    gs = a[1] if len(a) > 1 else k.get('globals')
    ls = a[2] if len(a) > 2 else gs
    if gs is None:
        raise Unsupported('exec in current scope')
    try:
        tree = ast.parse(render(src))
    except SyntaxError:
        it.raise_('SyntaxError')
    env = Env(None, 'module', it.frame.env.module)
    it.setrec(env, {k: v for k, v in it.mapping_items(gs) if isinstance(k, str)})
    loc = Env(env, 'class', it.frame.env.module)
    it.setrec(loc, {k: v for k, v in it.mapping_items(ls) if isinstance(k, str)} if ls is not gs else {})
    fr = Frame(None, loc if ls is not gs else env)
    it.frames.append(fr)
    n = len(it.frames)
    try:
        it.exec_block(tree.body)
        if it.st is None:
            raise Dead()
    finally:
        del it.frames[n - 1:]
    for k_, v in it.rec(loc if ls is not gs else env).items():
        it.dict_set(ls, k_, v)
    return None


# ------------------------------------------------------------------ constructors
def _ctors(it):
    C = CTORS

    def int_(it, c, a, k):
        if not a:
            return 0
        v = a[0]
        return it.case(v, lambda x: to_int(it, x, a[1] if len(a) > 1 else k.get('base')))
    C['int'] = int_
    C['bool'] = lambda it, c, a, k: it.truth(a[0]) if a else False
    C['NoneType'] = lambda it, c, a, k: it.raise_('TypeError', 'NoneType takes no arguments') if a or k else None
    C['str'] = lambda it, c, a, k: py_str(it, a[0]) if a else ''

    def float_(it, c, a, k):
        if not a:
            return 0.0

        def f(v):
            if isinstance(v, (bool, int, float)):
                return float(v)
            if isinstance(v, (I, B)):
                return UF('float', (P(to_num(v)),), CLS['float'])
            if isinstance(v, UF):
                return v if v.cls is CLS['float'] else UF('float', (v,), CLS['float'])
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    it.raise_('ValueError')
            if isinstance(v, Inst):
                for n in ('__float__', '__index__'):
                    m = it.mro_lookup(v.cls, n)
                    if m is not None:
                        return it.call(it.bind(m, v, v.cls), [], {})
            if isinstance(v, Opaque) and '__float__' in v.attrs:
                return UF('float', (v,), CLS['float'])
            it.raise_('TypeError')
        return it.case(a[0], f)
    C['float'] = float_
    C['object'] = lambda it, c, a, k: it.object_new(c, a, k)

    def type_(it, c, a, k):
        if len(a) == 1:
            return it.case(a[0], it.type_of)
        name, bases, ns = a
        bases = tuple(it.iterate(bases))
        meta = it.calc_meta(CLS['type'], bases)
        new = it.mro_lookup(meta, '__new__')
        if isinstance(new, StaticV):
            new = new.fn
        obj = it.call(new, [meta, name, bases, ns], k)

        def init(o):
            if isinstance(o, ClassV):
                i = it.mro_lookup(o.meta, '__init__')
                if isinstance(i, FuncV):
                    it.call(i, [o, name, bases, ns], k)
            return o
        return it.case(obj, init)
    C['type'] = type_

    def list_(it, c, a, k):
        if not a:
            return it.new_list([])

        def f(v):
            s = it.iterate(v)
            if isinstance(s, SymSeq):
                return SymSeq(s.n, s.get, 'list')
            return it.new_list(s)
        return it.case(a[0], f)
    C['list'] = list_

    def tuple_(it, c, a, k):
        if not a:
            return ()

        def f(v):
            s = it.iterate(v)
            if isinstance(s, SymSeq):
                return SymSeq(s.n, s.get, 'tuple')
            return tuple(s)
        return it.case(a[0], f)
    C['tuple'] = tuple_

    def set_(it, c, a, k):
        if not a:
            return it.new_list([], c.name)

        def f(v):
            s = it.iterate(v)
            if isinstance(s, SymSeq):
                raise Unsupported('set of unknown length')
            for x in s:
                it.hashable(x)
            return it.new_list(s, c.name)
        return it.case(a[0], f)
    C['set'] = C['frozenset'] = set_

    def dict_(it, c, a, k):
        d = it.new_dict([], 'odict' if c.name == 'OrderedDict' else 'dict')
        if a:
            it.dict_update(d, a[0])
        for x, y in k.items():
            it.dict_set(d, x, y)
        return d
    C['dict'] = C['OrderedDict'] = dict_

    def defaultdict(it, c, a, k):
        d = it.new_dict([], 'default')
        it.put(d, 'factory', a[0] if a else None)
        if len(a) > 1:
            it.dict_update(d, a[1])
        return d
    C['defaultdict'] = defaultdict

    def proxy(it, c, a, k):
        def f(m):
            if isinstance(m, DictV):
                d = DictV('proxy')
                it.setrec(d, {'items': it.rec(m)['items'], 'of': m})
                return d
            if isinstance(m, Inst):
                d = it.new_dict(it.mapping_items(m), 'proxy')
                it.put(d, 'of', m)
                return d
            it.raise_('TypeError', 'mappingproxy() argument must be a mapping')
        return it.case(a[0], f)
    C['mappingproxy'] = proxy

    def weak(kind):
        def f(it, c, a, k):
            d = it.new_dict([], kind)
            it.put(d, 'memo', True)
            return d
        return f
    C['WeakValueDictionary'] = weak('weakval')
    C['WeakKeyDictionary'] = weak('weakkey')
    C['WeakSet'] = lambda it, c, a, k: (lambda l: (it.put(l, 'memo', True), l)[1])(it.new_list([], 'set'))
    C['slice'] = lambda it, c, a, k: SliceV(*([None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a))))

    def range_(it, c, a, k):
        a = [it.to_index(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if st == 0:
                it.raise_('ValueError')
            r = range(lo, hi, st)
            if len(r) > 4096:
                raise Unsupported('long range')
            l = it.new_iter(list(r))
            l.kind = 'range'
            it.put(l, 'args', (lo, hi, st))
            return l
        if st == 1:
            n = T.sub(P(hi), P(lo))
            f = lambda i, lo=lo: norm_int(T.add(P(lo), P(i)))
        elif st == -1:
            n = T.sub(P(lo), P(hi))
            f = lambda i, lo=lo: norm_int(T.sub(P(lo), P(i)))
        elif isinstance(st, int) and st > 1:
            n = T.fdiv(T.add(T.sub(P(hi), P(lo)), st - 1), P(st))
            f = lambda i, lo=lo: norm_int(T.add(P(lo), T.mul(st, P(i))))
        else:
            raise Unsupported('range step')
        neg = it.simp(T.lt(n, 0))
        if neg is not False:
            with T.guard_facts(T.mb(it.st.guard)):
                n = T.iite(neg, 0, n)
        return SymSeq(n, f, 'range')
    C['range'] = range_
    C['property'] = lambda it, c, a, k: PropV(*(list(a) + [None] * 3)[:3]) if not k else PropV(
        k.get('fget', a[0] if a else None), k.get('fset', a[1] if len(a) > 1 else None), k.get('fdel'))
    C['staticmethod'] = lambda it, c, a, k: StaticV(a[0])
    C['classmethod'] = lambda it, c, a, k: ClassMV(a[0])

    def method(it, c, a, k):
        return BoundM(a[0], a[1])
    C['method'] = method

    def exc(it, c, a, k):
        return it.object_new(c, a, k)
    for n in EXC:
        C[n] = exc

    def count(it, c, a, k):
        cv = CountV()
        it.setrec(cv, {'pos': a[0] if a else k.get('start', 0), 'step': a[1] if len(a) > 1 else k.get('step', 1)})
        return cv
    C['count'] = count

    def partial(it, c, a, k):
        o = Inst(c)
        it.setrec(o, {'func': a[0], 'args': tuple(a[1:]), 'keywords': it.new_dict(list(k.items()))})
        return o

    def partial_call(it, a, k):
        r = it.rec(a[0])
        return it.call(r['func'], list(r['args']) + list(a[1:]), dict(it.mapping_items(r['keywords']), **k))
    it.put(CLS['partial'], '__call__', Builtin('partial.__call__', partial_call))
    C['partial'] = partial

    def enumtype(it, c, a, k):
        """class statement of an enum.Enum subclass"""
        name, bases, ns = a
        items = it.dict_items(ns, lambda x: x)
        plain = [(n, v) for n, v in items if n.startswith('_') or isinstance(v, (FuncV, PropV, StaticV, ClassMV, Inst))]
        mem = [(n, v) for n, v in items if not (n.startswith('_') or isinstance(v, (FuncV, PropV, StaticV, ClassMV, Inst)))]
        cl = it.create_class(CLS['EnumType'], name, bases, plain, {})
        last = 0
        for n, v in mem:
            if isinstance(v, Opaque) and v.name == 'enum.auto':
                v = last + 1
            if isinstance(v, int):
                last = v
            for o in it.rec(cl).values():
                if isinstance(o, Inst) and o.cls is cl and identical(it.rec(o)['_value_'], v):
                    break       # an alias
            else:
                o = Inst(cl, '%s.%s' % (name, n))
                it.setrec(o, {'_value_': v, '_name_': n, 'value': v, 'name': n})
            it.put(cl, n, o)
        return cl
    C['EnumType'] = enumtype

    def local_context(it, c, a, k):
        o = Inst(c)
        it.setrec(o, {'ctx': a[0] if a else None, 'kw': tuple(sorted(k.items()))})
        return o
    C['local_context'] = local_context


def to_int(it, v, base=None):
    if base is not None:
        if isinstance(v, str) and isinstance(base, int):
            try:
                return int(v, base)
            except ValueError:
                it.raise_('ValueError')
        raise Unsupported('int with base')
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, B):
        return norm_int(T.ind(v))
    if isinstance(v, I):
        return v
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            it.raise_(type(e).__name__)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.raise_('ValueError')
    if isinstance(v, Inst):
        for n in ('__int__', '__index__', '__trunc__'):
            m = it.mro_lookup(v.cls, n)
            if m is not None:
                r = it.call(it.bind(m, v, v.cls), [], {})

                def chk(r):
                    if isinstance(r, (bool, B)):
                        return norm_int(P(to_num(r)))
                    if not is_int(r):
                        it.raise_('TypeError', '__int__ returned non-int')
                    return r
                return it.case(r, chk)
        it.raise_('TypeError', 'int() argument')
    if isinstance(v, UF):
        return P(T.atom('toint', (it.canon(v),), 'int'))
    if isinstance(v, Opaque):
        if '__int__' in v.attrs:
            return v.attrs['%int']
        it.raise_('TypeError')
    if isinstance(v, (FStr, SymStr)):
        raise Unsupported('int of symbolic string')
    if isinstance(v, SNode):
        it.raise_('TypeError')
    it.raise_('TypeError', 'int() argument')


# ------------------------------------------------------------------ methods of builtin types
def _methods():
    M = METHODS

    def L(it, o):
        return it.rec(o)['items']

    M['list'] = {
        'append': lambda it, a, k: it.list_append(a[0], a[1]),
        'extend': _extend,
        'copy': lambda it, a, k: it.new_list(L(it, a[0]), 'list'),
        'index': _index,
        'count': _count,
        'pop': _list_pop,
        'insert': _list_insert,
        'reverse': lambda it, a, k: it.put(a[0], 'items', tuple(reversed(L(it, a[0])))),
        'sort': lambda it, a, k: it.put(a[0], 'items', it.rec(py_sorted(it, [a[0]], k))['items']),
        'clear': lambda it, a, k: it.put(a[0], 'items', ()),
        'remove': _remove,
    }
    M['tuple'] = {'index': _index, 'count': _count}
    M['range'] = {}
    M['set'] = {
        'add': _set_add,
        'update': lambda it, a, k: [_set_add(it, [a[0], x], {}) for s in a[1:] for x in it.iterate(s)] and None,
        'copy': lambda it, a, k: it.new_list(L(it, a[0]), 'set'),
        'discard': _set_discard, 'remove': _set_discard,
        'union': lambda it, a, k: it.new_list(it.iterate(a[0]) + [y for s in a[1:] for y in it.iterate(s)], a[0].kind),
        'intersection': lambda it, a, k: prim_binop(it, 'BitAnd', a[0], it.new_list(it.iterate(a[1]), 'set')),
        'difference': lambda it, a, k: prim_binop(it, 'Sub', a[0], it.new_list(it.iterate(a[1]), 'set')),
        'issubset': lambda it, a, k: prim_compare(it, 'LtE', a[0], it.new_list(it.iterate(a[1]), 'set')),
        'issuperset': lambda it, a, k: prim_compare(it, 'GtE', a[0], it.new_list(it.iterate(a[1]), 'set')),
        'isdisjoint': lambda it, a, k: not it.iterate(prim_binop(it, 'BitAnd', a[0], it.new_list(it.iterate(a[1]), 'set'))),
        'clear': lambda it, a, k: it.put(a[0], 'items', ()),
    }
    M['frozenset'] = {n: M['set'][n] for n in ('copy', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint')}
    dd = {
        'items': lambda it, a, k: it.dict_items(a[0], lambda x: it.new_list([(p, q) for p, q in x])),
        'keys': lambda it, a, k: it.dict_items(a[0], lambda x: _keyset(it, x)),
        'values': lambda it, a, k: it.dict_items(a[0], lambda x: it.new_list([q for p, q in x])),
        'get': lambda it, a, k: it.dict_get(a[0], a[1], a[2] if len(a) > 2 else None),
        'copy': lambda it, a, k: it.new_dict(L(it, a[0]), a[0].kind if a[0].kind != 'proxy' else 'dict'),
        'update': lambda it, a, k: ([it.dict_update(a[0], x) for x in a[1:]], [it.dict_set(a[0], x, y) for x, y in k.items()]) and None,
        'setdefault': _setdefault,
        'pop': _dict_pop,
        'popitem': _popitem,
        'clear': lambda it, a, k: it.put(a[0], 'items', ()),
    }
    M['dict'] = dd
    M['mappingproxy'] = {n: dd[n] for n in ('items', 'keys', 'values', 'get', 'copy')}
    M['WeakValueDictionary'] = {n: dd[n] for n in dd if n != 'clear'}
    M['WeakKeyDictionary'] = {n: dd[n] for n in dd if n != 'clear'}
    M['OrderedDict'] = {'move_to_end': _unsup('move_to_end')}
    M['str'] = {
        'format': str_format, 'join': str_join,
        'fullmatch': _unsup('str'),
    }
    for n in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'isdigit', 'isidentifier',
              'find', 'zfill', 'rjust', 'ljust', 'count', 'index', 'title', 'capitalize', 'partition', 'rpartition', 'isalpha',
              'isalnum', 'splitlines', 'rsplit', 'swapcase', 'casefold', 'expandtabs', 'isspace', 'isdecimal', 'isnumeric', 'rfind', 'rindex', 'center', 'isupper', 'islower', 'removeprefix', 'removesuffix'):
        M['str'][n] = _str_method(n)
    M['int'] = {
        'bit_length': lambda it, a, k: norm_int(T.bitlen(P(to_num(a[0])))),
        'bit_count': lambda it, a, k: bin(abs(a[0])).count('1') if isinstance(a[0], int) else _unsup('bit_count')(it, a, k),
        'conjugate': lambda it, a, k: a[0],
    }
    M['float'] = {}
    M['NoneType'] = {}
    M['generator'] = {'send': _unsup('send'), 'close': lambda it, a, k: None}
    M['Pattern'] = {}
    M['super'] = {}
    M['slice'] = {}


def _keyset(it, x):
    l = ListV('set')
    it.setrec(l, {'items': tuple(p for p, q in x)})
    return l


def _extend(it, a, k):
    s = it.iterate(a[1])
    items = it.rec(a[0])['items']
    if isinstance(s, SymSeq) or isinstance(items, SymSeq):
        r = seq_concat(it, items, s if isinstance(s, SymSeq) else tuple(s))
        it.put(a[0], 'items', r)
        return None
    for x in s:
        it.list_append(a[0], x)


def _index(it, a, k):
    items = it.iterate(a[0])
    if isinstance(items, SymSeq):
        raise Unsupported('index')
    for i, x in enumerate(items):
        if it.eq_known(x, a[1]):
            return i
    it.raise_('ValueError')


def _list_pop(it, a, k):
    items = it.rec(a[0])['items']

    def f(items):
        if isinstance(items, SymSeq):
            if len(a) > 1:
                raise Unsupported('pop from symbolic list')
            raise Unsupported('pop from symbolic list')
        i = a[1] if len(a) > 1 else -1
        if not isinstance(i, int):
            raise Unsupported('pop index')
        if not -len(items) <= i < len(items):
            it.raise_('IndexError')
        i %= len(items)
        it.put(a[0], 'items', items[:i] + items[i + 1:])
        return items[i]
    return it.case(items, f)


def _list_insert(it, a, k):
    items = it.rec(a[0])['items']
    if isinstance(items, (SymSeq, Choice)) or not isinstance(a[1], int):
        raise Unsupported('insert')
    l = list(items)
    l.insert(a[1], a[2])
    it.put(a[0], 'items', tuple(l))


def _set_add(it, a, k):
    it.hashable(a[1])
    items = it.rec(a[0])['items']

    def f(items):
        if not any(it.eq_known(a[1], y) for y in items):
            it.put(a[0], 'items', items + (a[1],))
    it.case(items, f)


def _set_discard(it, a, k):
    items = it.rec(a[0])['items']
    if isinstance(items, Choice):
        raise Unsupported('discard')
    it.put(a[0], 'items', tuple(y for y in items if not it.eq_known(a[1], y)))


def _setdefault(it, a, k):
    d = a[2] if len(a) > 2 else None
    c = it.dict_has(a[0], a[1])

    def miss():
        it.dict_set(a[0], a[1], d)
        return d
    return it.branch(it.truth(c), lambda: it.dict_get(a[0], a[1]), miss)


def _dict_pop(it, a, k):
    c = it.truth(it.dict_has(a[0], a[1]))

    def miss():
        if len(a) > 2:
            return a[2]
        it.raise_('KeyError')
    return it.branch(c, lambda: it.dict_del(a[0], a[1]), miss)


def _popitem(it, a, k):
    def f(items):
        if not items:
            it.raise_('KeyError')
        it.put(a[0], 'items', items[:-1])
        return items[-1]
    return it.dict_items(a[0], f)


def _str_method(n):
    def f(it, a, k):
        if all(isinstance(x, (str, int, tuple)) or x is None for x in a):
            try:
                r = getattr(a[0], n)(*a[1:], **k)
            except (ValueError, TypeError) as e:
                it.raise_(type(e).__name__)
            return it.new_list(r) if isinstance(r, list) else r
        if n in ('startswith', 'endswith') and isinstance(a[0], FStr) and len(a) == 2 and isinstance(a[1], str):
            p, x = a[0].parts[0 if n == 'startswith' else -1], a[1]
            if isinstance(p, str):
                m = min(len(p), len(x))
                if (p[:m] != x[:m]) if n == 'startswith' else m and p[-m:] != x[-m:]:
                    return False
                if len(p) >= len(x):
                    return True
        raise Unsupported('str.%s on symbolic string' % n)
    return f


def str_format(it, a, k):
    f, args = a[0], a[1:]
    if not isinstance(f, str):
        raise Unsupported('format template')
    parts = []
    auto = 0
    try:
        fields = list(_string.Formatter().parse(f))
    except ValueError:
        it.raise_('ValueError')
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(lit)
        if name is None:
            continue
        import re
        m = re.match(r'([^.\[]*)(.*)', name)
        head, rest = m.group(1), m.group(2)
        if head == '':
            idx = auto
            auto += 1
        elif head.isdigit():
            idx = int(head)
        else:
            idx = head
        if isinstance(idx, int):
            if idx >= len(args):
                it.raise_('IndexError')
            v = args[idx]
        else:
            if idx not in k:
                it.raise_('KeyError')
            v = k[idx]
        if rest:
            for attr in rest.split('.')[1:]:
                v = it.getattr(v, attr)
        if spec and '{' in spec:
            spec = str_format(it, [spec] + list(args), k)
        parts.append(py_format(it, v, conv, spec or ''))
    return joinparts(it, parts)


def joinparts(it, parts):
    for i, p in enumerate(parts):
        if isinstance(p, Choice):
            return it.case(p, lambda x: joinparts(it, parts[:i] + [x] + parts[i + 1:]))
        if isinstance(p, SymStr):
            parts = parts[:i] + [('str', p)] + parts[i + 1:]
    return it.mkstr(parts)


def str_join(it, a, k):
    sep = a[0]
    if isinstance(a[1], Choice):
        return it.case(a[1], lambda x: str_join(it, [a[0], x], k))
    seq = it.iterate(a[1])
    if isinstance(seq, SymSeq):
        return SymStr(sep, seq)
    parts = []
    for i, x in enumerate(seq):
        if i:
            parts.append(sep)
        if not isinstance(x, (str, FStr, SymStr, Choice)):
            it.raise_('TypeError', 'sequence item: expected str instance')
        parts.append(x)
    return joinparts(it, parts)


# ------------------------------------------------------------------ expression objects (pysmt / z3)
def bvnode(like, den, w=None):
    w = like.w if w is None else P(w)
    return SNode(like.fam, 'bv', T.wrap(P(den), w), w)


def chk_same(it, a, b):
    bad = 'PysmtTypeError' if a.fam == 'pysmt' else 'Z3Exception'
    if a.sort != b.sort:
        it.raise_(bad, 'sort mismatch')
    if a.w is not None:
        it.raise_if(T.ne(a.w, b.w), bad)


def signed(v):
    """two's complement value of a bv node"""
    s = T.tb(v.den, T.sub(v.w, 1))
    return T.sub(v.den, T.mul(T.ind(s), T.pow2(v.w))), s


def sem_udiv(a, b, w):
    z = T.eq(b, 0)
    return T.iite(z, T.sub(T.pow2(w), 1), T.fdiv(a, b) if z is not True else P(0))


def sem_urem(a, b, w):
    z = T.eq(b, 0)
    return T.iite(z, a, T.fmod(a, b) if z is not True else P(0))


def sem(op, a, b, w):
    """SMT-LIB function `op` on unsigned denotations of width w -> term (before wrap)"""
    w = P(w)
    M = T.pow2(w)
    if op == 'and':
        return T.iand(a, b)
    if op == 'or':
        return T.ior(a, b)
    if op == 'xor':
        return T.ixor(a, b)
    if op == 'add':
        return T.add(a, b)
    if op == 'sub':
        return T.sub(a, b)
    if op == 'mul':
        return T.mul(a, b)
    if op == 'udiv':
        return sem_udiv(a, b, w)
    if op == 'urem':
        return sem_urem(a, b, w)
    if op == 'shl':
        return T.mul(a, T.pow2(b))
    if op == 'lshr':
        return T.fdiv(a, T.pow2(b))
    if op == 'ashr':
        s = T.tb(a, T.sub(w, 1))
        return T.fdiv(T.sub(a, T.mul(T.ind(s), M)), T.pow2(b))
    if op in ('sdiv', 'srem', 'smod'):
        sa = T.sub(a, T.mul(T.ind(T.tb(a, T.sub(w, 1))), M))
        sb = T.sub(b, T.mul(T.ind(T.tb(b, T.sub(w, 1))), M))
        z = T.eq(b, 0)
        neg = T.lt(sa, 0)
        if op == 'sdiv':
            return T.iite(z, T.iite(neg, P(1), T.sub(M, 1)), T.tdiv(sa, sb) if z is not True else P(0))
        if op == 'srem':
            return T.iite(z, a, T.trem(sa, sb) if z is not True else P(0))
        return T.iite(z, a, T.fmod(sa, sb) if z is not True else P(0))
    if op == 'rol':
        return rot(a, T.fmod(T.mul(-1, b), w), w)
    if op == 'ror':
        return rot(a, T.fmod(b, w), w)
    raise Unsupported('bv function %s' % op)


def rot(a, o, w):
    """rotate right by o, 0 <= o < w"""
    return T.add(T.fdiv(a, T.pow2(o)), T.mul(T.pow2(T.sub(w, o)), T.wrap(a, o)))


def rel(op, a, b, w):
    w = P(w)
    if op in ('ult', 'ule', 'ugt', 'uge'):
        return {'ult': T.lt, 'ule': T.le, 'ugt': T.gt, 'uge': T.ge}[op](a, b)
    M = T.pow2(w)
    sa = T.sub(a, T.mul(T.ind(T.tb(a, T.sub(w, 1))), M))
    sb = T.sub(b, T.mul(T.ind(T.tb(b, T.sub(w, 1))), M))
    return {'slt': T.lt, 'sle': T.le, 'sgt': T.gt, 'sge': T.ge}[op](sa, sb)


def as_node(it, v, like):
    """coerce a python value to like's sort (z3 style)"""
    if isinstance(v, SNode):
        return v
    if isinstance(v, (I, B, int)):
        if like.sort == 'bv':
            return bvnode(like, P(to_num(v)))
        if like.sort == 'int':
            return SNode(like.fam, 'int', P(to_num(v)))
        if like.sort == 'bool' and is_bool(v):
            return SNode(like.fam, 'bool', v)
    return None


def snode_binop(it, op, a, b):
    like = a if isinstance(a, SNode) else b
    a, b = as_node(it, a, like), as_node(it, b, like)
    if a is None or b is None:
        if like.fam == 'pysmt':
            raise Unsupported('pysmt infix with foreign operand')
        return NotImplemented if False else it.raise_('Z3Exception')
    chk_same(it, a, b)
    if like.sort == 'bv':
        if like.fam == 'z3':
            m = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'shl',
                 'RShift': 'ashr', 'Div': 'sdiv', 'Mod': 'smod'}.get(op)
        else:
            m = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'shl',
                 'RShift': 'lshr', 'Div': 'udiv', 'Mod': 'urem'}.get(op)
        if m is None:
            return NotImplemented
        return bvnode(like, sem(m, a.den, b.den, like.w))
    if like.sort == 'int':
        if op in ('Add', 'Sub', 'Mult'):
            return SNode(like.fam, 'int', {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul}[op](a.den, b.den))
        if op == 'Div':
            return SNode(like.fam, 'int', ediv(a.den, b.den))
        raise Unsupported('int infix %s' % op)
    if like.sort == 'bool':
        f = {'BitAnd': T.band_, 'BitOr': T.bor_, 'BitXor': T.bxor_}.get(op)
        if f is None:
            return NotImplemented
        return SNode(like.fam, 'bool', f(a.den, b.den))
    raise Unsupported('infix on %r' % (like,))


def ediv(a, b):
    """SMT-LIB integer division: the remainder is not negative; by zero it is an unknown function"""
    a, b = P(a), P(b)
    pos, neg = T.gt(b, 0), T.lt(b, 0)
    r = P(T.atom('ediv0', (a,), 'int'))
    if neg is not False:
        with T.guard_facts(neg):
            q = T.mul(-1, T.fdiv(a, T.mul(-1, b)))
        r = T.iite(neg, q, r)
    if pos is not False:
        with T.guard_facts(pos):
            q = T.fdiv(a, b)
        r = T.iite(pos, q, r)
    return r


def snode_compare(it, op, a, b):
    like = a if isinstance(a, SNode) else b
    if like.fam == 'pysmt':
        if op in ('Eq', 'NotEq'):
            r = isinstance(a, SNode) and isinstance(b, SNode) and identical(a, b)
            return r if op == 'Eq' else not r
        a, b = as_node(it, a, like), as_node(it, b, like)
        if a is None or b is None:
            raise Unsupported('pysmt infix')
        chk_same(it, a, b)
        if like.sort == 'int':
            return SNode('pysmt', 'bool', {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op](a.den, b.den))
        if like.sort == 'bv':
            return SNode('pysmt', 'bool', rel({'Lt': 'ult', 'LtE': 'ule', 'Gt': 'ugt', 'GtE': 'uge'}[op], a.den, b.den, like.w))
        raise Unsupported('pysmt infix')
    if a is None or b is None:
        return op == 'NotEq'
    a, b = as_node(it, a, like), as_node(it, b, like)
    if a is None or b is None:
        it.raise_('Z3Exception')
    chk_same(it, a, b)
    if op in ('Eq', 'NotEq'):
        r = T.biff_(a.den, b.den) if like.sort == 'bool' else T.eq(a.den, b.den)
        return SNode('z3', 'bool', r if op == 'Eq' else T.bnot_(r))
    if like.sort == 'bv':
        return SNode('z3', 'bool', rel({'Lt': 'slt', 'LtE': 'sle', 'Gt': 'sgt', 'GtE': 'sge'}[op], a.den, b.den, like.w))
    if like.sort == 'int':
        return SNode('z3', 'bool', {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op](a.den, b.den))
    it.raise_('TypeError')


def snode_truth(it, v):
    if v.fam == 'pysmt':
        if v.sort == 'bool' and isinstance(v.den, bool):
            return True          # objects are truthy
        return True
    if v.sort == 'bool':
        if isinstance(v.den, bool):
            return v.den
        raise Unsupported('truth of a symbolic z3 expression')
    raise Unsupported('truth of a z3 expression')


def snode_getitem(it, v, k):
    if v.fam == 'pysmt' and v.sort == 'bv':
        if isinstance(k, SliceV):
            if k.step not in (None, 1):
                raise Unsupported('pysmt slice step')
            lo = k.start if k.start is not None else 0
            hi = k.stop if k.stop is not None else T.sub(v.w, 1)
            return extract(it, v, lo, hi)
        k = it.to_index(k)
        return extract(it, v, k, k)
    it.raise_('TypeError')


def extract(it, v, lo, hi):
    if any(x is None or isinstance(x, (Inst, SNode, str, ClassV)) for x in (lo, hi)):
        it.raise_('AssertionError' if v.fam == 'pysmt' else 'Z3Exception')
    lo, hi = P(to_num(lo)), P(to_num(hi))
    bad = T.bor_(T.bor_(T.lt(lo, 0), T.lt(hi, lo)), T.ge(hi, v.w))
    it.raise_if(bad, 'AssertionError' if v.fam == 'pysmt' else 'Z3Exception')
    with T.guard_facts(T.mb(it.st.guard)):
        w = T.refresh(T.add(T.sub(hi, lo), 1))
        return SNode(v.fam, 'bv', T.wrap(T.fdiv(v.den, T.pow2(lo)), w), w)


def snode_call(it, f, args, kw):
    if f.sort != 'fun':
        it.raise_('TypeError', 'not callable')
    name, rtype, params = f.den
    if len(args) != len(params):
        it.raise_('PysmtValueError', 'wrong number of parameters')
    key = []
    for x, p in zip(args, params):
        if not isinstance(x, SNode):
            it.raise_('PysmtTypeError')
        if x.sort != p.sort:
            it.raise_('PysmtTypeError')
        if p.w is not None:
            it.raise_if(T.ne(x.w, p.w), 'PysmtTypeError')
        key.append(x.den)
    return uf_result(it, f.fam, name, rtype, tuple(key))


def uf_result(it, fam, name, rtype, key):
    if rtype.sort == 'bool':
        return SNode(fam, 'bool', B(T._bdd_var(T.atom('apply', (it.canon(name),) + key, 'bool'))))
    a = T.atom('apply', (it.canon(name), rtype.w) + key, 'int')
    if rtype.sort == 'bv':
        T.FACTS.bound(a, 0, T.sub(T.pow2(rtype.w), 1))
        return SNode(fam, 'bv', P(a), rtype.w)
    return SNode(fam, rtype.sort, P(a))


SYMNAME = {}


def join_names(it, name):
    """one string for a joined variable name: numbered names of one stem are joined on the number"""
    if not isinstance(name, Choice):
        return name
    import re
    out = []
    for g, s in name.alts:
        if isinstance(s, str):
            m = re.fullmatch(r'(.*?)(0|[1-9][0-9]*)', s, re.S)
            if not m:
                return name
            out.append((g, m.group(1), P(int(m.group(2)))))
        elif isinstance(s, FStr) and len(s.parts) == 2 and isinstance(s.parts[0], str) and isinstance(s.parts[1], tuple) \
                and s.parts[1][0] == 'fmt' and is_int(s.parts[1][1]) and s.parts[1][2:] in ((-1, ''), (-1, 'd')):
            out.append((g, s.parts[0], P(s.parts[1][1])))
        else:
            return name
    if len({x[1] for x in out}) != 1:
        return name
    v = out[-1][2]
    for g, _, k in reversed(out[:-1]):
        v = T.iite(g, k, v)
    return it.mkstr([out[0][1], it.fmt(norm_int(v))])


def mksym(it, fam, name, t):
    SYMNAME[it.canon(name)] = name
    if t.sort == 'fun':
        return SNode(fam, 'fun', (name,) + t.w_fun if False else (name,) + FUNT[id(t)], None)
    if t.sort == 'bool':
        return SNode(fam, 'bool', B(T._bdd_var(T.atom('sym', (it.canon(name), 'bool'), 'bool'))))
    a = T.atom('sym', (it.canon(name), t.sort, t.w), 'int')
    if t.sort == 'bv':
        T.FACTS.bound(a, 0, T.sub(T.pow2(t.w), 1))
        return SNode(fam, 'bv', P(a), t.w)
    return SNode(fam, t.sort, P(a))


FUNT = {}
_keep = []


def BVTy(fam, w):
    return SType(fam, 'bv', P(to_num(w)))


SNODE_ATTR = {}


def _snode_attrs():
    A = SNODE_ATTR
    A['pysmt', 'get_type'] = lambda it, o: Builtin('get_type', lambda it, a, k: SType('pysmt', o.sort, o.w))
    A['pysmt', 'simplify'] = lambda it, o: Builtin('simplify', lambda it, a, k: o)
    A['pysmt', 'serialize'] = lambda it, o: Builtin('serialize', lambda it, a, k: FStr([('ser', o)]))
    A['pysmt', 'bv_width'] = lambda it, o: Builtin('bv_width', lambda it, a, k: norm_int(o.w))
    def isconst(sorts, val=None):
        # which terms are literals depends on how they were built: any term may be one unless its value depends on a variable
        def g(it, o):
            def f(it, a, k):
                if a or k:
                    raise Unsupported('is_constant with a type or value')
                if o.sort not in sorts:
                    return False
                d = o.den
                if isinstance(d, bool) or isinstance(d, (I, B)) and d.const is not None:
                    c = True
                elif any(x.op in ('sym', 'apply') for x in T.atoms_of(d)):
                    return False
                else:
                    c = B(T._bdd_var(T.atom('literal', (o.sort, o.w, d), 'bool')))
                if val is None:
                    return c
                return T.band_(c, d if val is True else T.bnot_(d) if val is False else T.eq(d, val))
            return Builtin('is_constant', f)
        return g

    def constval(it, o):
        def f(it, a, k):
            if any(x.op in ('sym', 'apply') for x in T.atoms_of(o.den)):
                it.raise_('AssertionError')
            d = o.den
            return d if isinstance(d, (bool, B)) else norm_int(d)
        return Builtin('constant_value', f)
    A['pysmt', 'is_constant'] = isconst(('bool', 'bv', 'int'))
    A['pysmt', 'is_bool_constant'] = isconst(('bool',))
    A['pysmt', 'is_bv_constant'] = isconst(('bv',))
    A['pysmt', 'is_int_constant'] = isconst(('int',))
    A['pysmt', 'is_true'] = isconst(('bool',), True)
    A['pysmt', 'is_false'] = isconst(('bool',), False)
    A['pysmt', 'is_zero'] = isconst(('bv', 'int'), 0)
    A['pysmt', 'is_one'] = isconst(('bv', 'int'), 1)
    A['pysmt', 'constant_value'] = constval
    A['pysmt', 'bv_unsigned_value'] = constval
    A['pysmt', 'is_symbol'] = lambda it, o: Builtin('is_symbol', _unsup('is_symbol'))

    def subst(it, o):
        def f(it, a, k):
            m = {}
            for x, y in it.mapping_items(a[0]):
                if not (isinstance(x, SNode) and isinstance(y, SNode)):
                    it.raise_('PysmtTypeError')
                chk_same(it, x, y)
                at = x.den.single() if isinstance(x.den, I) else None
                if isinstance(x.den, B):
                    sup = T.bdd_support(x.den.n)
                    at = sup[0] if len(sup) == 1 and T._bdd_var(sup[0]) == x.den.n else None
                if at is None or (at.op != 'sym' and at.args):
                    raise Unsupported('substitution of a compound expression')
                m[at] = y.den
            return SNode(o.fam, o.sort, T.subst(o.den, m), o.w)
        return Builtin('substitute', f)
    A['pysmt', 'substitute'] = subst
    # infix methods of FNode
    for n, op in (('Implies', None), ('Iff', None), ('And', None), ('Or', None), ('Ite', None), ('Equals', None), ('NotEquals', None)):
        A['pysmt', n] = (lambda n: lambda it, o: Builtin(n, lambda it, a, k: PYSMT[n](it, [o] + a, k)))(n)
    for n in ('BVAnd', 'BVOr', 'BVXor', 'BVAdd', 'BVSub', 'BVMul', 'BVUDiv', 'BVURem', 'BVSDiv', 'BVSRem', 'BVLShl', 'BVLShr', 'BVAShr',
              'BVConcat', 'BVComp', 'BVULT', 'BVULE', 'BVUGT', 'BVUGE', 'BVSLT', 'BVSLE', 'BVSGT', 'BVSGE', 'BVZExt', 'BVSExt', 'BVRepeat',
              'BVRol', 'BVRor', 'BVExtract'):
        A['pysmt', n] = (lambda n: lambda it, o: Builtin(n, lambda it, a, k: PYSMT[n](it, [o] + a, k)))(n)
    A['z3', 'sort'] = lambda it, o: Builtin('sort', lambda it, a, k: SType('z3', o.sort, o.w))
    A['z3', 'size'] = lambda it, o: Builtin('size', lambda it, a, k: norm_int(o.w))
    A['z3', 'sexpr'] = lambda it, o: Builtin('sexpr', lambda it, a, k: FStr([('ser', o)]))
    A['z3', 'as_long'] = lambda it, o: Builtin('as_long', _unsup('as_long'))
    for n in ('__bool__', '__eq__', '__ne__', '__hash__'):
        A['z3', n] = lambda it, o: Builtin('z3special', _unsup('z3 special method'))
    for n in ('__eq__', '__hash__', '__call__', '__getitem__'):
        A['pysmt', n] = lambda it, o: Builtin('pysmt special', _unsup('FNode special method'))


PYSMT = {}
Z3 = {}


def _den(it, v, sort, fam='pysmt'):
    bad = 'PysmtTypeError' if fam == 'pysmt' else 'Z3Exception'
    if isinstance(v, Choice):
        raise Unsupported('joined expression argument')
    if not isinstance(v, SNode) or v.fam != fam:
        if fam == 'z3' and sort == 'bool' and is_bool(v):
            return SNode('z3', 'bool', v)
        it.raise_(bad, 'not an expression')
    if v.sort != sort:
        it.raise_(bad, 'sort')
    return v


def _flat(it, a):
    if len(a) == 1 and not isinstance(a[0], SNode):
        a = it.iterate(a[0])
        if isinstance(a, SymSeq):
            raise Unsupported('connective over unknown length')
    return a


def _smt_tables():
    S, Z = PYSMT, Z3

    def lift(f, fam):
        def g(it, a, k):
            for i, x in enumerate(a):
                if isinstance(x, Choice):
                    return it.case(x, lambda y: g(it, a[:i] + [y] + a[i + 1:], k))
            return f(it, a, k)
        return g

    def reg(tab, name, f):
        tab[name] = lift(f, None)

    def nary(fam, f, unit):
        def g(it, a, k):
            r = unit
            for x in _flat(it, a):
                r = f(r, _den(it, x, 'bool', fam).den)
            return SNode(fam, 'bool', r)
        return g

    for tab, fam in ((S, 'pysmt'), (Z, 'z3')):
        reg(tab, 'And', nary(fam, T.band_, True))
        reg(tab, 'Or', nary(fam, T.bor_, False))
        reg(tab, 'Not', lambda it, a, k, fam=fam: SNode(fam, 'bool', T.bnot_(_den(it, a[0], 'bool', fam).den)))
        reg(tab, 'Xor', lambda it, a, k, fam=fam: SNode(fam, 'bool', T.bxor_(_den(it, a[0], 'bool', fam).den, _den(it, a[1], 'bool', fam).den)))
        reg(tab, 'Implies', lambda it, a, k, fam=fam: SNode(fam, 'bool', T.bor_(T.bnot_(_den(it, a[0], 'bool', fam).den), _den(it, a[1], 'bool', fam).den)))
        tab['simplify'] = lambda it, a, k: a[0]

        def ite(it, a, k, fam=fam):
            c = _den(it, a[0], 'bool', fam).den
            x, y = a[1], a[2]
            if fam == 'z3':
                like = x if isinstance(x, SNode) else y
                if isinstance(like, SNode):
                    x, y = as_node(it, x, like), as_node(it, y, like)
            if not isinstance(x, SNode) or not isinstance(y, SNode):
                it.raise_('PysmtTypeError' if fam == 'pysmt' else 'Z3Exception')
            chk_same(it, x, y)
            if x.sort == 'bool':
                return SNode(fam, 'bool', T.bite(c, x.den, y.den))
            return SNode(fam, x.sort, T.iite(c, x.den, y.den), x.w)
        reg(tab, 'Ite' if fam == 'pysmt' else 'If', ite)

    reg(S, 'Iff', lambda it, a, k: SNode('pysmt', 'bool', T.biff_(_den(it, a[0], 'bool').den, _den(it, a[1], 'bool').den)))

    def eqs(neg, allowbool=False):
        def g(it, a, k):
            x, y = a
            if not isinstance(x, SNode) or not isinstance(y, SNode):
                it.raise_('PysmtTypeError')
            if x.sort == 'bool' and not allowbool:
                it.raise_('PysmtTypeError')
            chk_same(it, x, y)
            r = T.biff_(x.den, y.den) if x.sort == 'bool' else T.eq(x.den, y.den)
            return SNode('pysmt', 'bool', T.bnot_(r) if neg else r)
        return g
    reg(S, 'Equals', eqs(False))
    reg(S, 'NotEquals', eqs(True))
    reg(S, 'EqualsOrIff', eqs(False, True))
    reg(S, 'Bool', lambda it, a, k: SNode('pysmt', 'bool', a[0]) if is_bool(a[0]) else it.raise_('PysmtTypeError'))
    reg(S, 'TRUE', lambda it, a, k: SNode('pysmt', 'bool', True))
    reg(S, 'FALSE', lambda it, a, k: SNode('pysmt', 'bool', False))
    reg(S, 'Int', lambda it, a, k: SNode('pysmt', 'int', P(a[0])) if is_int(a[0]) else (it.raise_('PysmtTypeError')))

    def bv(it, a, k):
        v = a[0]
        w = a[1] if len(a) > 1 else k.get('width')
        if w is None:
            raise Unsupported('BV without width')
        if not is_num(v):
            raise Unsupported('BV of %r' % (v,))
        v, w = P(to_num(v)), P(to_num(w))
        it.raise_if(T.bor_(T.lt(v, 0), T.ge(v, T.pow2(w))), 'PysmtValueError')
        with T.guard_facts(T.mb(it.st.guard)):
            return SNode('pysmt', 'bv', T.refresh(v), w)
    reg(S, 'BV', bv)

    def sbv(it, a, k):
        w = P(to_num(a[1] if len(a) > 1 else k.get('width')))
        v = P(to_num(a[0]))
        half = T.pow2(T.sub(w, 1))
        it.raise_if(T.bor_(T.lt(v, T.mul(-1, half)), T.ge(v, half)), 'PysmtValueError')
        return SNode('pysmt', 'bv', T.wrap(v, w), w)
    reg(S, 'SBV', sbv)
    reg(S, 'BVOne', lambda it, a, k: SNode('pysmt', 'bv', P(1), P(a[0])))
    reg(S, 'BVZero', lambda it, a, k: SNode('pysmt', 'bv', P(0), P(a[0])))
    b2 = {'BVAnd': 'and', 'BVOr': 'or', 'BVXor': 'xor', 'BVAdd': 'add', 'BVSub': 'sub', 'BVMul': 'mul', 'BVUDiv': 'udiv', 'BVURem': 'urem',
          'BVSDiv': 'sdiv', 'BVSRem': 'srem', 'BVLShl': 'shl', 'BVLShr': 'lshr', 'BVAShr': 'ashr', 'BVSMod': 'smod'}

    def mk2(op, neg=False):
        def g(it, a, k):
            if op in ('and', 'or', 'add', 'mul') and len(a) > 2:
                raise Unsupported('n-ary bit vector operator')
            x, y = a[0], a[1]
            if not isinstance(x, SNode):
                it.raise_('PysmtTypeError')
            if is_num(y) and op in ('shl', 'lshr', 'ashr'):
                y = bv(it, [y, x.w], {})
            x, y = _den(it, x, 'bv'), _den(it, y, 'bv')
            chk_same(it, x, y)
            r = T.wrap(sem(op, x.den, y.den, x.w), x.w)
            if neg:
                r = T.sub(T.sub(T.pow2(x.w), 1), r)
            return SNode('pysmt', 'bv', r, x.w)
        return g
    for n, op in b2.items():
        reg(S, n, mk2(op))
    for n, op in (('BVNand', 'and'), ('BVNor', 'or'), ('BVXnor', 'xor')):
        reg(S, n, mk2(op, True))
    reg(S, 'BVNot', lambda it, a, k: (lambda x: bvnode(x, T.sub(T.sub(T.pow2(x.w), 1), x.den)))(_den(it, a[0], 'bv')))
    reg(S, 'BVNeg', lambda it, a, k: (lambda x: bvnode(x, T.mul(-1, x.den)))(_den(it, a[0], 'bv')))
    for n in ('ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'):
        def g(it, a, k, n=n):
            x, y = _den(it, a[0], 'bv'), _den(it, a[1], 'bv')
            chk_same(it, x, y)
            return SNode('pysmt', 'bool', rel(n, x.den, y.den, x.w))
        reg(S, 'BV' + n.upper(), g)

    def comp(it, a, k):
        x, y = _den(it, a[0], 'bv'), _den(it, a[1], 'bv')
        chk_same(it, x, y)
        return SNode('pysmt', 'bv', T.ind(T.eq(x.den, y.den)), P(1))
    reg(S, 'BVComp', comp)

    def concat(fam):
        def g(it, a, k):
            if len(a) == 1 and not isinstance(a[0], SNode):
                a = it.iterate(a[0])
            if len(a) < 2:
                it.raise_('Z3Exception' if fam == 'z3' else 'TypeError')
            r = _den(it, a[0], 'bv', fam)
            for x in a[1:]:
                x = _den(it, x, 'bv', fam)
                r = SNode(fam, 'bv', T.add(T.mul(r.den, T.pow2(x.w)), x.den), T.add(r.w, x.w))
            return r
        return g
    reg(S, 'BVConcat', concat('pysmt'))
    reg(Z, 'Concat', concat('z3'))

    def bvext(it, a, k):
        lo = a[1] if len(a) > 1 else k.get('start', 0)
        hi = a[2] if len(a) > 2 else k.get('end')
        x = _den(it, a[0], 'bv')
        return extract(it, x, lo, T.sub(x.w, 1) if hi is None else hi)
    reg(S, 'BVExtract', bvext)
    reg(Z, 'Extract', lambda it, a, k: extract(it, _den(it, a[2], 'bv', 'z3'), a[1], a[0]))

    def zext(fam, swap, sign):
        def g(it, a, k):
            x, n = (a[1], a[0]) if swap else (a[0], a[1] if len(a) > 1 else k.get('increase'))
            x = _den(it, x, 'bv', fam)
            if not is_num(n):
                it.raise_('PysmtTypeError' if fam == 'pysmt' else 'Z3Exception')
            n = P(to_num(n))
            it.raise_if(T.lt(n, 0), 'PysmtTypeError' if fam == 'pysmt' else 'Z3Exception')
            w = T.add(x.w, n)
            d = x.den
            if sign:
                d = T.add(d, T.mul(T.ind(T.tb(d, T.sub(x.w, 1))), T.sub(T.pow2(w), T.pow2(x.w))))
            return SNode(fam, 'bv', d, w)
        return g
    reg(S, 'BVZExt', zext('pysmt', False, False))
    reg(S, 'BVSExt', zext('pysmt', False, True))
    reg(Z, 'ZeroExt', zext('z3', True, False))
    reg(Z, 'SignExt', zext('z3', True, True))

    def repeat(fam, swap):
        def g(it, a, k):
            x, n = (a[1], a[0]) if swap else (a[0], a[1] if len(a) > 1 else k.get('count', 1))
            x = _den(it, x, 'bv', fam)
            if isinstance(n, (Inst, SNode, str, ClassV)) or n is None:
                it.raise_('TypeError' if fam == 'pysmt' else 'Z3Exception')
            n = P(to_num(n))
            if fam == 'pysmt':
                return it.branch(T.le(n, 0), lambda: x, lambda: SNode(fam, 'bv', rep_sem(it, x.den, x.w, n), T.mul(n, x.w)))
            it.raise_if(T.le(n, 0), 'Z3Exception')
            return SNode(fam, 'bv', rep_sem(it, x.den, x.w, n), T.mul(n, x.w))
        return g
    reg(S, 'BVRepeat', repeat('pysmt', False))
    reg(Z, 'RepeatBitVec', repeat('z3', True))

    def rotk(op):
        def g(it, a, k):
            x = _den(it, a[0], 'bv')
            n = a[1]
            if not is_num(n):
                it.raise_('PysmtTypeError')
            n = P(to_num(n))
            it.raise_if(T.bor_(T.lt(n, 0), T.gt(n, x.w)), 'PysmtValueError')
            return SNode('pysmt', 'bv', sem(op, x.den, n, x.w), x.w)
        return g
    reg(S, 'BVRol', rotk('rol'))
    reg(S, 'BVRor', rotk('ror'))
    reg(S, 'BVToNatural', lambda it, a, k: SNode('pysmt', 'int', _den(it, a[0], 'bv').den))

    def div(it, a, k):
        x, y = a
        if not isinstance(x, SNode) or not isinstance(y, SNode):
            it.raise_('PysmtTypeError')
        chk_same(it, x, y)
        return SNode('pysmt', 'int', ediv(x.den, y.den))
    reg(S, 'Div', div)

    def arith(f):
        def g(it, a, k):
            a = _flat(it, a)
            r = _den(it, a[0], 'int').den
            for x in a[1:]:
                r = f(r, _den(it, x, 'int').den)
            return SNode('pysmt', 'int', r)
        return g
    reg(S, 'Plus', arith(T.add))
    reg(S, 'Minus', arith(T.sub))
    reg(S, 'Times', arith(T.mul))
    for n, f in (('LT', T.lt), ('LE', T.le), ('GT', T.gt), ('GE', T.ge)):
        reg(S, n, lambda it, a, k, f=f: SNode('pysmt', 'bool', f(_den(it, a[0], 'int').den, _den(it, a[1], 'int').den)))

    def symbol(it, a, k):
        name = join_names(it, a[0])
        if isinstance(name, Choice):
            return it.case(name, lambda n: symbol(it, [n] + list(a[1:]), k))
        t = a[1] if len(a) > 1 else k.get('typename', SType('pysmt', 'bool'))
        if not isinstance(t, SType):
            it.raise_('PysmtTypeError')
        if not isinstance(name, (str, FStr)):
            if isinstance(name, Opaque):
                pass
            else:
                it.raise_('PysmtTypeError')
        it.effects.append(('symbol', name, t))
        key, sig = it.canon(name), (t.sort, t.w, tuple((p.sort, p.w) for p in (FUNT[id(t)][1] if t.sort == 'fun' else ())),
                                    (FUNT[id(t)][0].sort, FUNT[id(t)][0].w) if t.sort == 'fun' else None)

        def chk(old):
            if isinstance(old, Opaque) and old.attrs['sig'] != sig:
                it.raise_('PysmtTypeError', 'symbol redeclared with another type')
            return None
        it.case(it.rec(it.symbols).get(key), chk)
        it.put(it.symbols, key, Opaque('symtype', None, {'sig': sig}))
        return mksym(it, 'pysmt', name, t)
    S['Symbol'] = symbol

    def fresh(it, a, k):
        t = a[0] if a else k.get('typename', SType('pysmt', 'bool'))
        return mksym(it, 'pysmt', FStr(['FV', ('fresh', P(T.fresh_var()))]), t)
    S['FreshSymbol'] = fresh
    env = Opaque('pysmt.env', CLS.get('Environment'), {})

    def get_env(it, a, k):
        fm = Opaque('pysmt.formula_manager', CLS['FormulaManager'], {n: Builtin('fm.' + n, f) for n, f in S.items()})
        return Opaque('pysmt.env', CLS['Environment'], {'formula_manager': fm})
    S['get_env'] = get_env
    S['get_formula_manager'] = lambda it, a, k: it.getattr(get_env(it, [], {}), 'formula_manager')
    S['get_type'] = lambda it, a, k: SType('pysmt', a[0].sort, a[0].w)
    S['substitute'] = lambda it, a, k: it.call(it.getattr(a[0], 'substitute'), [a[1]], {})

    # ---- z3
    def bvval(it, a, k):
        v, s = a[0], a[1]
        w = s.w if isinstance(s, SType) else P(to_num(s))
        if not is_num(v):
            raise Unsupported('BitVecVal of %r' % (v,))
        return SNode('z3', 'bv', T.wrap(P(to_num(v)), w), w)
    reg(Z, 'BitVecVal', bvval)
    reg(Z, 'BoolVal', lambda it, a, k: SNode('z3', 'bool', it.truth(a[0])))
    reg(Z, 'BitVecSort', lambda it, a, k: SType('z3', 'bv', P(to_num(a[0]))))
    reg(Z, 'BoolSort', lambda it, a, k: SType('z3', 'bool'))
    Z['BitVec'] = lambda it, a, k: it.case(join_names(it, a[0]), lambda n: mksym(it, 'z3', n, a[1] if isinstance(a[1], SType) else BVTy('z3', a[1])))
    Z['Bool'] = lambda it, a, k: it.case(join_names(it, a[0]), lambda n: mksym(it, 'z3', n, SType('z3', 'bool')))
    for n, op in (('UDiv', 'udiv'), ('URem', 'urem'), ('SRem', 'srem'), ('LShR', 'lshr'), ('RotateLeft', 'rol'), ('RotateRight', 'ror')):
        def g(it, a, k, op=op):
            like = a[0] if isinstance(a[0], SNode) else a[1]
            if not isinstance(like, SNode):
                it.raise_('Z3Exception')
            x, y = as_node(it, a[0], like), as_node(it, a[1], like)
            if x is None or y is None:
                it.raise_('Z3Exception')
            x, y = _den(it, x, 'bv', 'z3'), _den(it, y, 'bv', 'z3')
            chk_same(it, x, y)
            return SNode('z3', 'bv', T.wrap(sem(op, x.den, y.den, x.w), x.w), x.w)
        reg(Z, n, g)
    for n, op in (('ULT', 'ult'), ('ULE', 'ule'), ('UGT', 'ugt'), ('UGE', 'uge')):
        def g(it, a, k, op=op):
            like = a[0] if isinstance(a[0], SNode) else a[1]
            x, y = as_node(it, a[0], like), as_node(it, a[1], like)
            if x is None or y is None:
                it.raise_('Z3Exception')
            chk_same(it, x, y)
            return SNode('z3', 'bool', rel(op, x.den, y.den, x.w))
        reg(Z, n, g)
    reg(Z, 'Distinct', _unsup('z3.Distinct'))
    reg(Z, 'substitute', _unsup('z3.substitute'))


def rep_sem(it, den, w, n):
    """n copies of a w-bit value, least significant first"""
    c = norm_int(n)
    if isinstance(c, int) and c <= 64:
        r = P(0)
        for i in range(c):
            r = T.add(r, T.mul(den, T.pow2(T.mul(i, w))))
        return r
    iv = T.fresh_var()
    T.FACTS.bound(iv, 0, T.sub(T.mul(n, w), 1))
    return T.fromseq(T.tb(den, T.fmod(P(iv), w)), T.mul(n, w), iv)


# ------------------------------------------------------------------ gmpy2
def curctx(it):
    return it.rec(it.gctx).get('ctx')


def enter(it, cm):
    if isinstance(cm, Choice):
        raise Unsupported('joined context manager')
    if isinstance(cm, Inst) and cm.cls is CLS['local_context']:
        r = it.rec(cm)
        it.put(cm, 'prev', curctx(it))
        if r.get('kw'):
            it.put(it.gctx, 'ctx', UF('context+', (r['ctx'],) + tuple(r['kw'])))
        else:
            it.put(it.gctx, 'ctx', r['ctx'])
        return r['ctx']
    if isinstance(cm, Inst):
        m = it.mro_lookup(cm.cls, '__enter__')
        if isinstance(m, (FuncV, Builtin)):
            return it.call(it.bind(m, cm, cm.cls), [], {})
    raise Unsupported('context manager %r' % (cm,))


def leave(it, cm, e=None):
    """run the exit of cm; the value says whether the exception e is suppressed"""
    if isinstance(cm, Inst) and cm.cls is CLS['local_context']:
        it.put(it.gctx, 'ctx', it.rec(cm).get('prev'))
        return False
    if isinstance(cm, Inst):
        m = it.mro_lookup(cm.cls, '__exit__')
        if isinstance(m, (FuncV, Builtin)):
            args = [None, None, None] if e is None else [e.cls, e, Opaque('traceback', None)]
            return it.call(it.bind(m, cm, cm.cls), args, {})
    raise Unsupported('context manager %r' % (cm,))


def uf_call(it, f, args, kw):
    raise Unsupported('call of %r' % (f,))


UF_ATTR = {}
# public names of a gmpy2 2.3 context besides the settings
CTX_METHODS = set('''abs acos acosh add agm ai asin asinh atan atan2 atanh cbrt ceil check_range clear_flags const_catalan const_euler
    const_log2 const_pi copy cos cosh cot coth csc csch degrees digamma div div_2exp divmod divzero eint erange erf erfc exp exp10 exp2
    expm1 factorial floor floor_div fma fmma fmms fmod fms frac frexp fsum gamma gamma_inc hypot inexact invalid is_finite is_infinite
    is_integer is_nan is_regular is_signed is_zero j0 j1 jn lgamma li2 lngamma log log10 log1p log2 maxnum minnum minus mod modf mul
    mul_2exp next_above next_below next_toward norm overflow phase plus polar pow proj radians rec_sqrt rect reldiff remainder remquo
    rint rint_ceil rint_floor rint_round rint_trunc root root_of_unity rootn round2 round_away sec sech sin sin_cos sinh sinh_cosh sqrt
    square sub tan tanh trunc underflow y0 y1 yn zeta'''.split())
FP_ROUNDED = {'add', 'sub', 'mult', 'div', 'neg', 'abs', 'fma', 'sqrt', 'remainder', 'rint', 'minnum', 'maxnum', 'mpfr', 'leaf', 'finite'}
FP_ALIAS = {'mul': 'mult', 'minus': 'neg'}


def same_ctx(it, a, b):
    return a is b or (isinstance(a, UF) and isinstance(b, UF) and it.canon(a) == it.canon(b))


def fp_kind(v):
    """(kind, sign) of a number known to be special"""
    if v.op == 'mpfr' and isinstance(v.args[0], (str, int, float)) and not isinstance(v.args[0], bool):
        try:
            x = float(v.args[0])
        except ValueError:
            return None
        if x != x:
            return 'nan', None
        if x in (float('inf'), float('-inf')):
            return 'inf', x < 0
        if x == 0:
            return 'zero', str(v.args[0]).strip().startswith('-')
    if v.op == 'finite':
        return 'finite', v.args[0]
    return None


def fp_class(it, name, v):
    name = {'is_inf': 'is_infinite'}.get(name, name)
    k = fp_kind(v) if isinstance(v, UF) else None
    if k is not None:
        kind, neg = k
        z = {'nan': 0, 'inf': 0, 'zero': True}.get(kind)
        if kind == 'finite':
            z = T.eq(v.args[1], 0)
        if name == 'is_nan':
            return kind == 'nan'
        if name == 'is_infinite':
            return kind == 'inf'
        if name in ('is_finite', 'is_number') and (name == 'is_finite' or kind != 'nan'):
            return kind in ('zero', 'finite')  or name == 'is_number'
        if name == 'is_zero':
            return bool(z) if isinstance(z, (bool, int)) else z
        if name == 'is_signed' and neg is not None:
            return neg
        if name == 'is_regular':
            return kind == 'finite' and T.bnot_(z)
    return B(T._bdd_var(T.atom(name, (it.canon(v),), 'bool')))


def numeral(it, v):
    """(sign, significand, binary exponent) of a binary numeral built from digit sequences"""
    parts = [x for x in (v.parts if isinstance(v, FStr) else (('str', v),))]
    toks = []
    for p in parts:
        if isinstance(p, str):
            toks.extend(p)
        elif p[0] == 'str' and isinstance(p[1], SymStr):
            if p[1].sep != '':
                return None
            toks.extend(p[1].pre)
            toks.append(p[1].seq)
        elif p[0] == 'str' and isinstance(p[1], str):
            toks.extend(p[1])
        else:
            toks.append(p)
    neg, m, frac, i = False, P(0), None, 0
    if toks and toks[0] in ('+', '-'):
        neg, i = toks[0] == '-', 1
    any_ = False
    while i < len(toks):
        t = toks[i]
        if t == '.':
            if frac is not None:
                return None
            frac = P(0)
        elif isinstance(t, str) and t in '01':
            m, any_ = T.add(T.mul(2, m), int(t)), True
            frac = None if frac is None else T.add(frac, 1)
        elif isinstance(t, SymSeq):
            d = digits_value(it, t)
            if d is None:
                return None
            m, any_ = T.add(T.mul(T.pow2(P(t.n)), m), d), True
            frac = None if frac is None else T.add(frac, P(t.n))
        else:
            break
        i += 1
    if not any_:
        return None
    e = P(0)
    if i < len(toks):
        if toks[i] not in ('e', 'E', '@', 'p', 'P'):
            return None
        rest = toks[i + 1:]
        if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == 'fmt' and is_int(rest[0][1]) and rest[0][2:] in ((-1, ''), (-1, 'd')):
            e = P(rest[0][1])
        else:
            if not all(isinstance(x, str) for x in rest):
                return None
            try:
                e = P(int(''.join(rest)))
            except ValueError:
                return None
    return neg, m, T.sub(e, frac if frac is not None else 0)


def digits_value(it, seq):
    iv = T.fresh_var()
    T.FACTS.bound(iv, 0, T.sub(P(seq.n), 1))
    x = seq.get(P(iv))

    def bit(x):
        if isinstance(x, str) and x in ('0', '1'):
            return x == '1'
        if isinstance(x, FStr) and len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == 'fmt' and x.parts[0][2:] == (-1, ''):
            w = x.parts[0][1]
            if isinstance(w, (B, bool)) or not is_int(w):
                return None
            if T.prove_ge0(P(w)) and T.prove_ge0(T.sub(1, P(w))):
                return T.eq(P(w), 1)
        return None
    alts = x.alts if isinstance(x, Choice) else [(True, x)]
    b = False
    for g, y in alts:
        d = bit(y)
        if d is None:
            return None
        b = T.bor_(b, T.band_(g, d))
    return T.fromseq(T.subst(b, {iv: T.sub(T.sub(P(seq.n), 1), P(iv))}) if not isinstance(b, bool) else b, P(seq.n), iv)


def _gmpy(it):
    mp = CLS['mpfr']

    def fn(name, cls='mpfr'):
        op = FP_ALIAS.get(name, name)
        if name == 'plus':
            return Builtin('gmpy2.plus', mpfr, True)
        return Builtin('gmpy2.' + name, lambda it, a, k: UF(op, tuple(a) + tuple(sorted(k.items())) + (curctx(it),), CLS[cls]), True)

    def pred(name):
        return Builtin('gmpy2.' + name, lambda it, a, k: fp_class(it, name, a[0]), True)

    def mpfr(it, a, k):
        a = list(a)
        v = a[0] if a else 0
        if isinstance(v, (FStr, SymStr)):
            base = a[2] if len(a) > 2 else k.get('base', 0)
            prec = a[1] if len(a) > 1 else k.get('precision', 0)
            d = numeral(it, v) if base in (2, 0) else None
            if d is not None:
                if base == 0:
                    raise Unsupported('numeral without a base')
                c = curctx(it)
                if isinstance(prec, int) and prec == 0:
                    prec = ctx_attr(it, c, 'precision')
                if is_int(prec) and it.known(T.lt(d[1], T.pow2(P(prec)))) is True:
                    return UF('finite', d + (c,), mp)
                return UF('mpfr', tuple(a) + tuple(sorted(k.items())) + (c,), mp)
        if isinstance(v, (str, FStr, Opaque)) and not (isinstance(v, str) and v in ('inf', '-inf', 'nan', '0', '-0')):
            bad = B(T._bdd_var(T.atom('badnum', (it.canon(v),), 'bool')))
            it.raise_if(bad, 'ValueError' if isinstance(v, (str, FStr)) or v.cls is CLS['str'] else 'TypeError')
        elif not isinstance(v, (UF, I, B, int, float, str, FStr)):
            it.raise_('TypeError')
        c = curctx(it)
        if isinstance(v, UF) and v.op == 'rat' and len(a) == 1 and not k and isinstance(c, UF):
            m, e = v.args
            neg = T.lt(m, 0)
            am = T.iite(neg, T.mul(-1, m), m)
            if it.known(T.lt(am, T.pow2(P(to_num(ctx_attr(it, c, 'precision')))))) is True:
                return UF('finite', (neg, am, e, c), mp)
        if isinstance(v, UF) and v.op in FP_ROUNDED and v.args and same_ctx(it, v.args[-1], c) and not k:
            # already rounded in this context
            if len(a) == 1 or (len(a) == 2 and isinstance(a[1], (int, I)) and isinstance(c, UF)
                               and T.eq(P(a[1]), P(to_num(ctx_attr(it, c, 'precision')))) is True):
                return v
        return UF('mpfr', tuple(a) + tuple(sorted(k.items())) + (c,), mp)

    def mpq(it, a, k):
        v = a[0]
        if isinstance(v, (str, FStr, Opaque)):
            bad = B(T._bdd_var(T.atom('badfrac', (it.canon(v),), 'bool')))
            it.raise_if(bad, 'ValueError')
        return UF('mpq', tuple(a), CLS['mpq'])
    tab = {
        'mpfr': Builtin('gmpy2.mpfr', mpfr, True),
        'mpz': Builtin('gmpy2.mpz', lambda it, a, k: UF('mpz', tuple(a), CLS['mpz']), True),
        'mpq': Builtin('gmpy2.mpq', mpq, True),
        'context': Builtin('gmpy2.context', lambda it, a, k: UF('context', tuple(a) + tuple(sorted(k.items())), CLS['gmpy2ctx'])),
        'local_context': CLS['local_context'],
        'set_context': Builtin('gmpy2.set_context', lambda it, a, k: it.put(it.gctx, 'ctx', a[0])),
        'get_context': Builtin('gmpy2.get_context', lambda it, a, k: curctx(it)),
        'random_state': Builtin('gmpy2.random_state', lambda it, a, k: UF('random_state', tuple(a), CLS['object'])),
        'mpfr_random': Builtin('gmpy2.mpfr_random', lambda it, a, k: UF('mpfr_random', tuple(a) + (curctx(it),), mp)),
    }
    for n in ('is_nan', 'is_signed', 'is_zero', 'is_infinite', 'is_finite', 'is_integer', 'is_regular', 'is_inf', 'is_number'):
        tab[n] = pred(n)
    for n in ('RoundToNearest', 'RoundAwayZero', 'RoundUp', 'RoundDown', 'RoundToZero'):
        tab[n] = Opaque('gmpy2.' + n, CLS['int'])
    for n in ('fma', 'sqrt', 'remainder', 'rint', 'minnum', 'maxnum', 'add', 'sub', 'mul', 'div', 'fmod', 'min2', 'max2', 'rint_ceil',
              'rint_floor', 'rint_round', 'rint_trunc', 'round_away', 'rec_sqrt', 'square', 'fms', 'div_2exp', 'mul_2exp', 'ceil', 'floor',
              'trunc', 'frac', 'next_above', 'next_below', 'reldiff', 'minus', 'plus', 'abs', 'copy_sign', 'set_sign', 'root', 'remquo',
              'round2', 'nan', 'inf', 'zero', 'const_pi', 'factorial', 'check_range', 'roundeven', 'rint_roundeven', 'min', 'max'):
        tab[n] = fn(n)

    def mantexp(it, o):
        if o.op == 'finite':
            neg, m, e = o.args[:3]
            return Builtin('as_mantissa_exp', lambda it, a, k: (norm_int(T.iite(neg, T.mul(-1, m), m)), norm_int(e)))
        return Builtin('as_mantissa_exp', lambda it, a, k: (P(T.atom('mant', (it.canon(o),), 'int')), P(T.atom('exp', (it.canon(o),), 'int'))))
    UF_ATTR['as_mantissa_exp'] = mantexp
    for n in ('precision', 'real_prec', 'imag_prec', 'round', 'real_round', 'imag_round', 'emax', 'emin', 'subnormalize', 'trap_underflow',
              'trap_overflow', 'trap_inexact', 'trap_erange', 'trap_divzero', 'allow_complex', 'trap_invalid', 'allow_release_gil', 'rational_division'):
        UF_ATTR[n] = (lambda n: lambda it, o: ctx_attr(it, o, n))(n)
    for n in ('is_nan', 'is_zero', 'is_infinite', 'is_signed', 'is_integer', 'is_finite', 'is_inf'):
        UF_ATTR[n] = (lambda n: lambda it, o: Builtin(n, lambda it, a, k: fp_class(it, n, o)))(n)
    return tab


def ctx_attr(it, o, n):
    if o.op == 'context':
        for kv in o.args:
            if isinstance(kv, tuple) and kv[0] == n:
                return kv[1]
        return UF('ctxdefault', (n,), CLS['int'])
    if o.cls is CLS['gmpy2ctx']:
        return UF('ctxattr', (n, o), CLS['int'])
    raise Unsupported('attribute %s of %r' % (n, o))


# ------------------------------------------------------------------ external modules
def module_attr(it, m, name):
    if callable(m.attrs):
        return m.attrs(it, name)
    if name in m.attrs:
        return m.attrs[name]
    sub = m.name + '.' + name
    if sub in ('pysmt.shortcuts', 'pysmt.typing', 'pysmt.fnode', 'collections.abc', 'pysmt.exceptions', 'pysmt.environment'):
        return external(it, sub)
    if m.name.split('.')[0] in ('z3', 'gmpy2', 'pysmt', 'functools', 'itertools', 'inspect', 'types', 'random', 're', 'weakref', 'collections',
                                'operator', 'abc', 'enum', 'warnings', 'typing', 'sys', 'math', 'contextlib', 'copy', 'dataclasses'):
        raise Unsupported('external name %s.%s' % (m.name, name))
    it.raise_('AttributeError', name)


def external(it, name):
    m = it.externals.get(name)
    if m is None:
        f = EXT.get(name)
        if f is None:
            raise Unsupported('module %s' % name)
        m = ModuleV(name, f(it))
        it.externals[name] = m
    return m


EXT = {}


def ext(name):
    def d(f):
        EXT[name] = f
        return f
    return d


def pylib(it, *names):
    """library functions analysed from the source in pylib/prelude.py"""
    r = it.rec(it.modules['hwsa_pylib'])
    return {n: r[n] for n in names}


@ext('contextlib')
def _cl(it):
    def cmgr(it, a, k):
        f = a[0]
        if not isinstance(f, FuncV) or not f.isgen:
            raise Unsupported('contextmanager of %r' % (f,))
        def make(it, args, kw):
            o = Inst(CLS['_GeneratorContextManager'])
            it.setrec(o, {'fn': f, 'args': tuple(args), 'kw': dict(kw)})
            return o
        return Builtin('contextmanager.', make)
    return {'contextmanager': Builtin('contextmanager', cmgr), **pylib(it, 'suppress', 'nullcontext')}


@ext('copy')
def _cp(it):
    return pylib(it, 'copy', 'deepcopy')


@ext('dataclasses')
def _dc(it):
    return {**pylib(it, 'dataclass'), 'field': Builtin('field', _unsup('dataclasses.field')), 'replace': Builtin('replace', _unsup('dataclasses.replace'))}


@ext('functools')
def _ft(it):
    def wraps(it, a, k):
        w = a[0]

        def deco(it, b, k2):
            f = b[0]
            if isinstance(f, FuncV):
                r = dict(it.rec(w)) if isinstance(w, FuncV) else {}
                r.pop('__wrapped__', None)
                for n in ('__name__', '__qualname__', '__module__', '__doc__'):
                    if isinstance(w, FuncV):
                        r[n] = it.getattr(w, n)
                r['__wrapped__'] = w
                it.setrec(f, dict(it.rec(f), **r))
                if isinstance(w, FuncV) and w.abstract:
                    f.abstract = True
            return f
        return Builtin('wraps', deco)

    def reduce(it, a, k):
        f = a[0]
        seq = it.iterate(a[1])
        if isinstance(seq, SymSeq):
            raise Unsupported('reduce over unknown length')
        seq = list(seq)
        if len(a) > 2:
            acc = a[2]
        else:
            if not seq:
                it.raise_('TypeError', 'reduce() of empty')
            acc = seq.pop(0)
        for x in seq:
            acc = it.call(f, [acc, x], {})
        return acc

    def memo(it, a, k):
        if a and isinstance(a[0], (FuncV, ClassV)):
            return cached(it, a[0])
        return Builtin('lru_cache', lambda it, b, k2: cached(it, b[0]))

    def cached(it, f):
        d = it.new_dict([], 'weakval')
        it.put(d, 'memo', True)

        def g(it, a, k):
            key = tuple(a) + tuple(sorted(k.items()))
            for x in a:
                it.hashable(x)
            c = it.truth(it.dict_has(d, key))

            def miss():
                v = it.call(f, list(a), k)
                it.dict_set(d, key, v)
                return v
            return it.branch(c, lambda: it.dict_get(d, key), miss)
        return Builtin('cached', g)
    return {'wraps': Builtin('wraps', wraps), 'reduce': Builtin('reduce', reduce), 'partial': CLS['partial'],
            'lru_cache': Builtin('lru_cache', memo), 'cache': Builtin('cache', memo),
            **pylib(it, 'total_ordering', 'partialmethod', 'cached_property', 'singledispatch', 'singledispatchmethod'),
            'update_wrapper': Builtin('update_wrapper', lambda it, a, k: it.call(wraps(it, [a[1]], {}), [a[0]], {}))}


@ext('itertools')
def _itm(it):
    import itertools

    def conc(it, x):
        s = it.iterate(x)
        if isinstance(s, SymSeq):
            raise Unsupported('itertools over unknown length')
        return s

    def product(it, a, k):
        for i, x in enumerate(a):
            if isinstance(x, Choice):
                return it.case(x, lambda y: product(it, a[:i] + [y] + a[i + 1:], k))
        seqs = [conc(it, x) for x in a] * k.get('repeat', 1)
        return it.new_iter([tuple(t) for t in itertools.product(*seqs)])
    def islice(it, a, k):
        if not all(x is None or isinstance(x, int) for x in a[1:]):
            raise Unsupported('islice with a computed bound')
        if isinstance(a[0], (CountV, IterV)) and not any(isinstance(v, Choice) for v in it.rec(a[0]).values()):
            # consumes the iterator
            stop = a[1] if len(a) == 2 else a[2]
            if stop is None:
                if isinstance(a[0], CountV):
                    raise Unsupported('islice without an end')
                return it.new_iter(list(itertools.islice(conc(it, a[0]), *a[1:])))
            xs = []
            for _ in range(stop):
                x = it.call(BUILTINS['next'], [a[0], ABSENT], {})
                if x is ABSENT:
                    break
                xs.append(x)
            return it.new_iter(list(itertools.islice(xs, *a[1:])))
        return it.new_iter(list(itertools.islice(conc(it, a[0]), *a[1:])))
    return {
        'count': CLS['count'], 'product': Builtin('product', product),
        'chain': Builtin('chain', lambda it, a, k: it.new_iter([y for x in a for y in conc(it, x)]), attrs={
            'from_iterable': Builtin('from_iterable', lambda it, a, k: it.new_iter([y for x in conc(it, a[0]) for y in conc(it, x)]))}),
        'repeat': Builtin('repeat', lambda it, a, k: repeat_seq(it, (a[0],), a[1], 'list') if len(a) > 1 else _unsup('repeat')(it, a, k)),
        'zip_longest': Builtin('zip_longest', lambda it, a, k: it.new_iter([tuple(t) for t in itertools.zip_longest(*[conc(it, x) for x in a], fillvalue=k.get('fillvalue'))])),
        'starmap': Builtin('starmap', lambda it, a, k: it.new_iter([it.call(a[0], list(it.iterate(x)), {}) for x in conc(it, a[1])])),
        'islice': Builtin('islice', islice),
        'combinations': Builtin('combinations', lambda it, a, k: it.new_iter(list(itertools.combinations(conc(it, a[0]), a[1])))),
        'tee': Builtin('tee', _unsup('tee')), **pylib(it, 'groupby', 'accumulate', 'permutations', 'takewhile', 'dropwhile', 'pairwise', 'compress', 'filterfalse'),
        'cycle': Builtin('cycle', _unsup('cycle')),
    }


@ext('weakref')
def _wr(it):
    return {'WeakValueDictionary': CLS['WeakValueDictionary'], 'WeakKeyDictionary': CLS['WeakKeyDictionary'], 'WeakSet': CLS['WeakSet'],
            'ref': Builtin('weakref.ref', lambda it, a, k: (lambda o: Builtin('ref', lambda it, a2, k2: o))(a[0])),
            'finalize': Builtin('finalize', lambda it, a, k: None)}


def namedtuple(it, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = it.iterate(fields)
    c = ClassV(name, (CLS['tuple'],), CLS['type'])
    c.mro = (c,) + CLS['tuple'].mro
    fs = tuple(fields)

    def new(it, a, k):
        cls = a[0]
        vals = list(a[1:])
        for f in fs[len(vals):]:
            if f not in k:
                it.raise_('TypeError')
            vals.append(k[f])
        if len(vals) != len(fs):
            it.raise_('TypeError')
        o = Inst(cls)
        d = dict(zip(fs, vals))
        d['%items'] = tuple(vals)
        it.setrec(o, d)
        return o
    def nteq(it, a, k):
        o = it.rec(a[1]).get('%items') if isinstance(a[1], Inst) else a[1]
        return seq_eq(it, it.rec(a[0])['%items'], o) if isinstance(o, tuple) else NotImplemented
    it.setrec(c, {'__new__': StaticV(Builtin('nt.__new__', new)), '_fields': fs, '_replace': pylib(it, '_nt_replace')['_nt_replace'],
                  '_make': ClassMV(Builtin('nt._make', lambda it, a, k: it.call(a[0], list(it.iterate(a[1])), {}))),
                  '_asdict': pylib(it, '_nt_asdict')['_nt_asdict'],
                  '__iter__': _NTIter(), '__getitem__': Builtin('nt.getitem', lambda it, a, k: it.seq_index(it.rec(a[0])['%items'], a[1], 'tuple')),
                  '__init__': Builtin('object.__init__', lambda it, a, k: None),
                  '__len__': Builtin('nt.len', lambda it, a, k: len(fs)),
                  '__eq__': Builtin('nt.eq', nteq)})
    return c


def _NTIter():
    return FakeIter('nt.iter', lambda it, a, k: it.new_iter(it.rec(a[0])['%items']))


class FakeIter(Builtin):
    pass


@ext('collections')
def _co(it):
    return {'OrderedDict': CLS['OrderedDict'], 'defaultdict': CLS['defaultdict'], 'namedtuple': Builtin('namedtuple', namedtuple),
            'abc': external(it, 'collections.abc'), **pylib(it, 'deque', 'ChainMap'), 'Counter': Builtin('Counter', _unsup('Counter'))}


_ABCS = ('Sized', 'Iterable', 'Container', 'Hashable', 'Callable', 'Collection', 'Iterator', 'Generator', 'Reversible', 'Sequence',
         'MutableSequence', 'Mapping', 'MutableMapping', 'Set', 'MutableSet')


@ext('collections.abc')
def _coabc(it):
    return {n: CLS[n] for n in _ABCS}


@ext('typing')
def _tp(it):
    def f(it, name):
        if name in _ABCS and name != 'Callable':
            return CLS[name]
        if name == 'Callable':
            return CLS['Callable']
        if name in ('NamedTuple', 'Protocol', 'Generic'):
            raise Unsupported('typing.%s' % name)
        if name in ('overload', 'no_type_check', 'final', 'runtime_checkable'):
            return Builtin('tp.' + name, lambda it, a, k: a[0])
        if name == 'cast':
            return Builtin('tp.cast', lambda it, a, k: a[1])
        if name == 'TypeVar':
            return Builtin('tp.TypeVar', lambda it, a, k: Opaque('tp.TypeVar', None))
        if name == 'TYPE_CHECKING':
            return False
        return Opaque('tp.' + name, None)
    return f


@ext('types')
def _ty(it):
    def prepare(it, a, k):
        name, bases = a[0], tuple(it.iterate(a[1])) if len(a) > 1 else ()
        kwds = dict(it.mapping_items(a[2])) if len(a) > 2 and a[2] is not None else {}
        meta = kwds.pop('metaclass', None)
        meta = it.calc_meta(meta, bases) if meta is None or isinstance(meta, ClassV) else meta
        return (meta, it.new_dict([]), it.new_dict(kwds.items()))

    def new_class(it, a, k):
        name = a[0]
        bases = tuple(it.iterate(a[1])) if len(a) > 1 else ()
        meta, ns, kw = prepare(it, a, {})
        if len(a) > 3 and a[3] is not None:
            it.call(a[3], [ns], {})
        return it.call(meta, [name, bases, ns], dict(it.mapping_items(kw)))
    return {'MappingProxyType': CLS['mappingproxy'], 'MethodType': CLS['method'], 'FunctionType': CLS['function'],
            'prepare_class': Builtin('prepare_class', prepare), 'new_class': Builtin('new_class', new_class),
            'BuiltinFunctionType': CLS['builtin_function_or_method'], 'GeneratorType': CLS['generator'], 'ModuleType': CLS['module'],
            'NoneType': CLS['NoneType'], **pylib(it, 'SimpleNamespace'), 'LambdaType': CLS['function']}


@ext('inspect')
def _ins(it):
    def getmembers(it, a, k):
        c = a[0]
        if not isinstance(c, ClassV):
            raise Unsupported('getmembers')
        names = {}
        for q in c.mro:
            for n, v in it.rec(q).items():
                if isinstance(n, str) and not n.startswith('%') and n not in names:
                    names[n] = v
        return it.new_list([(n, names[n]) for n in sorted(names)])

    def static(it, a, k):
        o, n = a[0], a[1]
        if isinstance(o, ClassV):
            for q in o.mro:
                if n in it.rec(q):
                    return it.rec(q)[n]
            for q in o.meta.mro:
                if n in it.rec(q):
                    return it.rec(q)[n]
        elif isinstance(o, Inst):
            if n in it.rec(o):
                return it.rec(o)[n]
            for q in o.cls.mro:
                if n in it.rec(q):
                    return it.rec(q)[n]
        if len(a) > 2:
            return a[2]
        it.raise_('AttributeError', n)
    return {'getmembers': Builtin('getmembers', getmembers), 'getattr_static': Builtin('getattr_static', static),
            'isclass': Builtin('isclass', lambda it, a, k: isinstance(a[0], ClassV), True),
            'isfunction': Builtin('isfunction', lambda it, a, k: isinstance(a[0], FuncV), True),
            'ismethod': Builtin('ismethod', lambda it, a, k: isinstance(a[0], BoundM), True),
            'isroutine': Builtin('isroutine', lambda it, a, k: isinstance(a[0], (FuncV, BoundM, Builtin)), True),
            'getmro': Builtin('getmro', lambda it, a, k: a[0].mro),
            'isabstract': Builtin('isabstract', lambda it, a, k: bool(it.abstract_names(a[0]))),
            'signature': Builtin('signature', _unsup('signature')),
            'getmodule': Builtin('getmodule', _unsup('getmodule'))}


@ext('warnings')
def _wa(it):
    def warn(it, a, k):
        it.effects.append(('warn', a[0] if a else None))
        return None
    return {'warn': Builtin('warn', warn), 'simplefilter': Builtin('simplefilter', lambda it, a, k: None),
            'filterwarnings': Builtin('filterwarnings', lambda it, a, k: None), **pylib(it, 'catch_warnings')}


RND = [0]


def rnd_leaf(it, sort='int'):
    """one draw from the random number generator: a fresh leaf"""
    RND[0] += 1
    return T.atom('rnd#%d' % RND[0], (), sort)


@ext('random')
def _ra(it):
    def getrandbits(it, a, k):
        if a[0] == 1:
            return norm_int(T.ind(B(T._bdd_var(rnd_leaf(it, 'bool')))))
        at = rnd_leaf(it)
        T.FACTS.bound(at, 0, T.sub(T.pow2(P(to_num(a[0]))), 1))
        return P(at)

    def randint(it, a, k):
        lo, hi = P(to_num(a[0])), P(to_num(a[1]))
        it.raise_if(T.lt(hi, lo), 'ValueError')
        at = rnd_leaf(it)
        T.FACTS.bound(at, lo, hi)
        return P(at)

    def choice(it, a, k):
        xs = it.iterate(a[0])
        if isinstance(xs, SymSeq) or not xs:
            raise Unsupported('random.choice')
        at = rnd_leaf(it)
        T.FACTS.bound(at, 0, len(xs) - 1)
        return mkchoice([(T.eq(P(at), i), x) for i, x in enumerate(xs)])
    return {'getrandbits': Builtin('getrandbits', getrandbits), 'randint': Builtin('randint', randint), 'choice': Builtin('choice', choice),
            'randrange': Builtin('randrange', lambda it, a, k: randint(it, [0, T.sub(P(a[0]), 1)] if len(a) == 1 else [a[0], T.sub(P(a[1]), 1)], k)),
            'random': Builtin('random', lambda it, a, k: UF('random', (P(T.fresh_var()),), CLS['float']))}


@ext('re')
def _re(it):
    import re as _r

    def compile_(it, a, k):
        pat = a[0]
        if not isinstance(pat, str):
            raise Unsupported('symbolic regex')

        def m(n):
            def f(it, b, k2):
                s = b[0]
                if isinstance(s, str):
                    return Opaque('match', None, {'truth': True}) if getattr(_r.compile(pat), n)(s) else None
                c = B(T._bdd_var(T.atom('re', (n, pat, it.canon(s)), 'bool')))
                return mkchoice([(c, Opaque('match', None, {'truth': True})), (T.bnot_(c), None)])
            return Builtin('re.' + n, f)
        return Opaque('re', CLS['Pattern'], {n: m(n) for n in ('fullmatch', 'match', 'search')})
    return {'compile': Builtin('re.compile', compile_),
            'fullmatch': Builtin('re.fullmatch', lambda it, a, k: it.call(it.getattr(compile_(it, [a[0]], {}), 'fullmatch'), [a[1]], {})),
            'match': Builtin('re.match', lambda it, a, k: it.call(it.getattr(compile_(it, [a[0]], {}), 'match'), [a[1]], {}))}


@ext('operator')
def _op(it):
    d = {}
    for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('and_', 'BitAnd'), ('or_', 'BitOr'),
                  ('xor', 'BitXor'), ('lshift', 'LShift'), ('rshift', 'RShift'), ('truediv', 'Div'), ('pow', 'Pow')):
        f = (lambda op: lambda it, a, k: it.binop(op, a[0], a[1]))(op)
        d[n] = Builtin('operator.' + n, f)
        d['__%s__' % n.strip('_')] = d[n]
    for n, op in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is'), ('is_not', 'IsNot')):
        d[n] = Builtin('operator.' + n, (lambda op: lambda it, a, k: it.compare(op, a[0], a[1]))(op))
    for n, op in (('neg', 'USub'), ('invert', 'Invert'), ('inv', 'Invert'), ('pos', 'UAdd')):
        d[n] = Builtin('operator.' + n, (lambda op: lambda it, a, k: it.case(a[0], lambda x: it.unop(op, x)))(op))
    d['not_'] = Builtin('operator.not_', lambda it, a, k: T.bnot_(it.truth(a[0])))
    d['truth'] = Builtin('operator.truth', lambda it, a, k: it.truth(a[0]))
    d['index'] = Builtin('operator.index', lambda it, a, k: it.to_index(a[0]), True)
    d['getitem'] = Builtin('operator.getitem', lambda it, a, k: it.getitem(a[0], a[1]))
    d['abs'] = BUILTINS['abs']
    d['contains'] = Builtin('operator.contains', lambda it, a, k: contains(it, a[0], a[1]))
    def dotted(it, o, path):
        if not isinstance(path, str):
            raise Unsupported('attrgetter of a computed name')
        for n in path.split('.'):
            o = it.getattr(o, n)
        return o
    d['attrgetter'] = Builtin('attrgetter', lambda it, a, k: Builtin('operator.attrgetter', lambda it, b, k2: dotted(it, b[0], a[0]) if len(a) == 1 else
                                                                     tuple([dotted(it, b[0], x) for x in a])))
    d['itemgetter'] = Builtin('itemgetter', lambda it, a, k: Builtin('operator.itemgetter', lambda it, b, k2: it.getitem(b[0], a[0]) if len(a) == 1 else
                                                                     tuple([it.getitem(b[0], x) for x in a])))
    d['methodcaller'] = Builtin('methodcaller', lambda it, a, k: Builtin('operator.methodcaller', lambda it, b, k2: it.call(it.getattr(b[0], a[0]), list(a[1:]), k)))
    return d


@ext('abc')
def _abc(it):
    def abstractmethod(it, a, k):
        f = a[0]

        def mark(f):
            if isinstance(f, FuncV):
                f.abstract = True
            elif isinstance(f, PropV):
                mark(f.fget)
            elif isinstance(f, (StaticV, ClassMV)):
                mark(f.fn)
        mark(f)
        return f
    return {'ABCMeta': CLS['ABCMeta'], 'ABC': CLS['ABC'], 'abstractmethod': Builtin('abstractmethod', abstractmethod),
            'abstractproperty': Builtin('abstractproperty', lambda it, a, k: PropV(abstractmethod(it, a, k)))}


@ext('enum')
def _en(it):
    return {'Enum': CLS['Enum'], 'IntEnum': CLS['IntEnum'], 'auto': Builtin('enum.auto', lambda it, a, k: Opaque('enum.auto', None)),
            'unique': Builtin('enum.unique', lambda it, a, k: a[0]), 'EnumMeta': CLS['EnumType']}


@ext('sys')
def _sys(it):
    return {'version_info': (3, 12, 3), 'maxsize': 2 ** 63 - 1, 'intern': Builtin('intern', lambda it, a, k: a[0])}


@ext('builtins')
def _bm(it):
    return lambda it, name: BUILTINS[name] if name in BUILTINS else it.raise_('AttributeError', name)


@ext('__builtin__')
def _bm2(it):
    return lambda it, name: it.raise_('AttributeError', name)


@ext('math')
def _math(it):
    import math

    def conc(n):
        def f(it, a, k):
            if all(isinstance(x, (int, float)) for x in a):
                try:
                    return getattr(math, n)(*a)
                except (ValueError, OverflowError, TypeError) as e:
                    it.raise_(type(e).__name__)
            if n in ('ceil', 'floor', 'trunc') and len(a) == 1:
                if isinstance(a[0], (I, B)):
                    return norm_int(P(to_num(a[0])))
                if isinstance(a[0], Inst):
                    m = it.mro_lookup(a[0].cls, '__%s__' % n)
                    if m is not None:
                        return it.call(it.bind(m, a[0], a[0].cls), [], {})
            raise Unsupported('math.%s' % n)
        return Builtin('math.' + n, f, True)
    d = {n: conc(n) for n in dir(math) if not n.startswith('_') and callable(getattr(math, n))}
    d.update({n: getattr(math, n) for n in ('inf', 'nan', 'pi', 'e', 'tau')})
    return d


@ext('pysmt')
def _ps(it):
    return {}


@ext('pysmt.fnode')
def _psf(it):
    return {'FNode': CLS['FNode']}


@ext('pysmt.exceptions')
def _pse(it):
    return {n: CLS[n] for n in ('PysmtException', 'PysmtTypeError', 'PysmtValueError')}


@ext('pysmt.shortcuts')
def _pss(it):
    d = {n: Builtin('smt.' + n, f) for n, f in PYSMT.items()}
    d.update(_pst(it))
    return d


@ext('pysmt.typing')
def _pst(it):
    def bvt(it, a, k):
        w = a[0] if a else k.get('width', 32)
        return it.case(w, lambda w: BVTy('pysmt', w))

    def funt(it, a, k):
        r, ps = a[0], tuple(it.iterate(a[1]))
        t = SType('pysmt', 'fun')
        FUNT[id(t)] = (r, ps)
        _keep.append(t)
        return t
    return {'BVType': Builtin('BVType', bvt), 'BOOL': SType('pysmt', 'bool'), 'INT': SType('pysmt', 'int'), 'REAL': SType('pysmt', 'real'),
            'FunctionType': Builtin('FunctionType', funt), 'PySMTType': CLS['PySMTType']}


@ext('z3')
def _z3(it):
    d = {n: Builtin('z3.' + n, f) for n, f in Z3.items()}
    for n in ('BoolRef', 'BitVecRef', 'BitVecNumRef', 'ExprRef', 'AstRef', 'ArithRef', 'SortRef', 'Z3Exception'):
        d[n] = CLS[n]
    return d


@ext('gmpy2')
def _gm(it):
    return _gmpy(it)


_reg_builtins()
_methods()
_snode_attrs()
_smt_tables()
