"""Name resolution over the source of the package: scopes (symtable), a may-be-assigned dataflow for
locals, attributes of `self`, and arguments of calls to package functions."""
import ast
import builtins
import os
import symtable

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__', '__builtins__',
                                 '__class__', '__module__', '__qualname__', '__annotations__', '__dict__'}


def live_test(t):
    """value of a test on the interpreter version, None when it is something else"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l = ast.unparse(t.left)
        if l in ('sys.version_info', 'sys.version_info[0]', 'sys.version_info.major'):
            try:
                r = ast.literal_eval(t.comparators[0])
            except ValueError:
                return None
            r = r[0] if isinstance(r, tuple) else r
            import operator as o
            f = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge, ast.Eq: o.eq, ast.NotEq: o.ne}.get(type(t.ops[0]))
            if f is None or not isinstance(r, int) or r > 3:
                return None
            return f(3.5, r) if f in (o.lt, o.le, o.gt, o.ge) else f(3, r)
    if isinstance(t, ast.Attribute) and ast.unparse(t).endswith('TYPE_CHECKING') or isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING':
        return False
    return None


class Prune(ast.NodeTransformer):
    """drop branches for other interpreters"""

    def visit_If(self, n):
        self.generic_visit(n)
        v = live_test(n.test)
        if v is None:
            return n
        return (n.body if v else n.orelse) or [ast.copy_location(ast.Pass(), n)]


class Module:
    def __init__(self, root, name):
        self.name = name
        self.path = os.path.join(root, 'hwtypes', name + '.py')
        self.rel = 'hwtypes/%s.py' % name
        with open(self.path) as f:
            self.src = f.read()
        self.tree = ast.fix_missing_locations(Prune().visit(ast.parse(self.src, self.path)))
        self.table = symtable.symtable(ast.unparse(self.tree), self.path, 'exec')


def load(root):
    d = os.path.join(root, 'hwtypes')
    return {f[:-3]: Module(root, f[:-3]) for f in sorted(os.listdir(d)) if f.endswith('.py')}


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            yield n.id


def module_names(mods, m, seen=()):
    """names bound at the top level of a module, star imports of the package included; None: unknown star import"""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            pass
    def go(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(s.name)
                continue
            if isinstance(s, ast.Import):
                for a in s.names:
                    out.add((a.asname or a.name).split('.')[0])
                continue
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name != '*':
                        out.add(a.asname or a.name)
                    else:
                        sub = package_module(mods, s)
                        if sub is None or sub in seen:
                            out.add('*')
                        else:
                            out.update(x for x in exported(mods, mods[sub], seen + (m.name,)))
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
            for f in ('body', 'orelse', 'finalbody'):
                go(getattr(s, f, []) or [])
            for h in getattr(s, 'handlers', []) or []:
                go(h.body)
    go(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def package_module(mods, s):
    """name of the package module an import statement refers to; '__init__' for the package itself"""
    if s.level == 1:
        return s.module if s.module in mods else ('__init__' if not s.module else None)
    if s.level == 0 and s.module:
        p = s.module.split('.')
        if p[0] == 'hwtypes':
            return p[1] if len(p) > 1 and p[1] in mods else ('__init__' if len(p) == 1 else None)
    return None


def exported(mods, m, seen=()):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
            try:
                return set(ast.literal_eval(s.value))
            except ValueError:
                break
    return {n for n in module_names(mods, m, seen) if not n.startswith('_')}


def scopes(m):
    """(scope node, [enclosing nodes]) of functions, lambdas, comprehensions and classes"""
    out = []

    def go(n, stack):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                out.append((c, stack))
                go(c, stack + [c])
            else:
                go(c, stack)
    go(m.tree, [])
    return out


def qual(node, stack):
    return '.'.join([getattr(s, 'name', '<lambda>') for s in stack] + [getattr(node, 'name', '<lambda>')])


def params(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def own(body):
    """nodes of a scope, nested function and class bodies excluded (their decorators, defaults and bases included)"""
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
        elif isinstance(n, ast.Lambda):
            todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
        elif isinstance(n, ast.ClassDef):
            todo.extend(n.decorator_list + n.bases + [k.value for k in n.keywords])
        else:
            if isinstance(n, ast.AnnAssign):
                todo.extend([n.target] + ([n.value] if n.value else []))
                continue
            if isinstance(n, ast.arg):
                continue
            todo.extend(reversed(list(ast.iter_child_nodes(n))))


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bindings(scope):
    """names bound in a function or class scope"""
    body = scope.body if isinstance(scope.body, list) else [scope.body]
    out = set(params(scope)) if not isinstance(scope, ast.ClassDef) else set()
    globs = set()
    for n in own(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0] if isinstance(n, ast.Import) else (a.asname or a.name))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out - globs


def unresolved(mods, m):
    """[(function, name, line)] of names that no scope binds, and the number of reads looked at"""
    top = module_names(mods, m)
    bad, count = [], 0
    star = '*' in top

    def visit(nodes, env, where):
        nonlocal count
        for n in own(nodes):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                count += 1
                if n.id not in BUILTINS and not star and not any(n.id in e for e in env):
                    bad.append((where, n.id, n.lineno))
    visit(m.tree.body, [top], '<module>')
    for node, stack in scopes(m):
        env = [top]
        for s in stack:
            if not isinstance(s, ast.ClassDef):
                env.append(bindings(s))
        env.append(bindings(node))
        if any(isinstance(s, ast.ClassDef) for s in stack):
            env.append({'__class__'})
        body = node.body if isinstance(node.body, list) else [node.body]
        visit(body, env, qual(node, stack))
    return bad, count


# ---------------------------------------------------------------- definite absence of an assignment
class Flow:
    """may-be-assigned names, forward over the statements of one function; a read of a local that no
    assignment reaches is an UnboundLocalError on every run that gets there"""

    def __init__(self, fn):
        self.fn = fn
        self.locals_ = {n for n in bindings(fn)}
        self.bad = []
        self.reads = 0
        nonl = {x for n in own(fn.body) if isinstance(n, ast.Nonlocal) for x in n.names}
        self.locals_ -= nonl
        have = set(params(fn))
        self.loops = []
        self.block(fn.body, have)

    def read(self, e, have):
        if e is None:
            return
        comp = set()
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda,)):
                continue
            if isinstance(n, COMPS):
                for g in n.generators:
                    comp.update(target_names(g.target))
            if isinstance(n, ast.NamedExpr):
                comp.add(n.target.id)
                have.add(n.target.id)
            todo.extend(ast.iter_child_nodes(n))
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals_:
                self.reads += 1
                if n.id not in have and n.id not in comp:
                    self.bad.append((n.id, n.lineno))
            todo.extend(ast.iter_child_nodes(n))

    def assigned(self, stmts):
        out = set()
        for n in own(stmts):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    def block(self, body, have):
        """extends `have`; returns False when the end is not reached"""
        for s in body:
            if not self.stmt(s, have):
                return False
        return True

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.read(d, have)
            have.add(s.name)
            return True
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.read(d, have)
            have.add(s.name)
            return True
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.read(c, have)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1] |= have
            return False
        if isinstance(s, ast.If):
            self.read(s.test, have)
            a, b = set(have), set(have)
            ra, rb = self.block(s.body, a), self.block(s.orelse, b)
            have |= (a if ra else set()) | (b if rb else set())
            return ra or rb
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.read(s.iter if not isinstance(s, ast.While) else s.test, have)
            if not isinstance(s, ast.While):
                have.update(target_names(s.target))
            self.loops.append(set())
            a = set(have) | self.assigned(s.body)     # later iterations
            self.block(s.body, a)
            br = self.loops.pop()
            have |= a | br
            self.block(s.orelse, have)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            return not forever or any(isinstance(n, ast.Break) for n in own(s.body))
        if isinstance(s, ast.Try):
            a = set(have)
            ra = self.block(s.body, a)
            may = have | self.assigned(s.body)
            if ra and s.orelse:
                ra = self.block(s.orelse, a)
            outs = [a] if ra else []
            for h in s.handlers:
                b = set(may)
                self.read(h.type, b)
                if h.name:
                    b.add(h.name)
                if self.block(h.body, b):
                    outs.append(b)
            f = set(may) | a
            for o in outs:
                f |= o
            rf = self.block(s.finalbody, f)
            for o in outs:
                have |= o
            have |= self.assigned(s.finalbody)
            return bool(outs) and rf
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, have)
                if i.optional_vars is not None:
                    have.update(target_names(i.optional_vars))
            self.block(s.body, have)
            return True
        if isinstance(s, ast.Match):
            self.read(s.subject, have)
            have |= self.assigned(s.cases[0].body) if False else set()
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        have.add(n.name)
                b = set(have)
                self.block(c.body, b)
                have |= b
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            have.update((a.asname or a.name).split('.')[0] for a in s.names)
            return True
        if isinstance(s, ast.Assign):
            self.read(s.value, have)
            for t in s.targets:
                self.read(t, have)
                have.update(target_names(t))
            return True
        if isinstance(s, ast.AugAssign):
            self.read(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals_:
                    self.reads += 1
                    if s.target.id not in have:
                        self.bad.append((s.target.id, s.lineno))
                have.add(s.target.id)
            else:
                self.read(s.target, have)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.read(s.value, have)
                have.update(target_names(s.target))
            return True
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.read(t, have)
            return True
        for c in ast.iter_child_nodes(s):
            self.read(c, have)
        return True


# ---------------------------------------------------------------- attributes of self
def attribute_names(mods):
    """every name the package could give an attribute: definitions, assignments, keyword and string literals"""
    out = set()
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.update(n.value.replace(',', ' ').split())
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0] for a in n.names)
    return out


def python_attrs():
    import abc
    import enum
    import typing
    import types
    import collections
    out = set()
    for t in (object, type, int, str, tuple, dict, list, property, abc.ABCMeta, enum.Enum, enum.EnumMeta, types.FunctionType,
              types.MappingProxyType, collections.OrderedDict, collections.abc.Mapping, frozenset, set, BaseException):
        out.update(dir(t))
    out.update(('_fields', '_asdict', '_replace', '_make'))
    return out


def self_attributes(mods):
    """[(module, function, attribute, line)] of attributes read from self or cls that nothing in the package defines"""
    known = attribute_names(mods) | python_attrs()
    bad, count = [], 0
    for m in mods.values():
        for node, stack in scopes(m):
            if not isinstance(node, ast.FunctionDef) or not stack or not isinstance(stack[-1], ast.ClassDef) or not node.args.args:
                continue
            first = node.args.args[0].arg
            if first not in ('self', 'cls', 'mcs'):
                continue
            ext = [b for b in stack[-1].bases if not isinstance(b, (ast.Name,))]
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == first:
                    count += 1
                    if n.attr not in known and not ext:
                        bad.append((m, qual(node, stack), n.attr, n.lineno))
    return bad, count


# ---------------------------------------------------------------- calls of package functions
def accepts(f, npos, kws, skip=0):
    """None, or why a call with so many positional and these keyword arguments cannot bind"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, called with %d' % (len(pos), npos)
    given = set(pos[:npos])
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k in given:
            return 'argument %r given twice' % k
        if k not in names and not a.kwarg:
            return 'no parameter %r' % k
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    need = need + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for p in need:
        if p not in given and p not in kws:
            return 'argument %r is missing' % p
    return None


def calls(mods):
    """(bad, count) for calls whose callee is a function of the package found by its name"""
    bad, count = [], 0
    for m in mods.values():
        fns = {}
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                fns[s.name] = None if s.name in fns else s
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom):
                sub = package_module(mods, s)
                for a in s.names:
                    d = [x for x in mods[sub].tree.body if isinstance(x, ast.FunctionDef) and x.name == a.name] if sub else []
                    if len(d) == 1:
                        fns.setdefault(a.asname or a.name, d[0])
        stores = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for node, stack in [(m.tree, [])] + scopes(m):
            where = '<module>' if node is m.tree else qual(node, stack)
            body = node.body if isinstance(node.body, list) else [node.body]
            local = set()
            for s in stack + ([node] if node is not m.tree else []):
                local |= bindings(s) if not isinstance(s, ast.Module) else set()
            for n in own(body):
                if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                    continue
                f = fns.get(n.func.id)
                if f is None or n.func.id in local or n.func.id in stores or f.decorator_list:
                    continue
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                count += 1
                why = accepts(f, len(n.args), {k.arg for k in n.keywords})
                if why:
                    bad.append((m, where, '%s: %s' % (n.func.id, why), n.lineno))
    return bad, count


def imports(mods):
    """names imported from the package that it does not have"""
    bad, count = [], 0
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                sub = package_module(mods, n)
                if sub is None:
                    if n.level or (n.module or '').split('.')[0] == 'hwtypes':
                        bad.append((m, '<module>', 'no module %s' % n.module, n.lineno))
                    continue
                have = module_names(mods, mods[sub])
                for a in n.names:
                    count += 1
                    if a.name != '*' and a.name not in have and '*' not in have and not (sub == '__init__' and a.name in mods):
                        bad.append((m, '<module>', '%s.%s' % (sub, a.name), n.lineno))
    return bad, count
