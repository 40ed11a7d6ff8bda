"""Abstract interpreter over the syntax trees of /repo/hwtypes.

Every statement of a function is visited once per calling context; the two arms of a
branch are analysed separately and joined into gamma nodes; loops over sequences of
unknown length are summarised.  The result for an entry point is a set of guarded
outcomes (value-graph roots), not a set of paths.
"""
import ast
import builtins
import os
import itertools
from . import terms as T
from .terms import I, B, P, nb, mb
from .values import *


class State:
    __slots__ = ('guard', 'heap')

    def __init__(self, guard, heap):
        self.guard = guard
        self.heap = heap

    def clone(self, guard=None):
        return State(self.guard if guard is None else guard, dict(self.heap))


class Frame:
    __slots__ = ('func', 'env', 'returns', 'loops', 'handled', 'yields', 'selfarg', 'firstname', 'resume')

    def __init__(self, func, env):
        self.func = func
        self.env = env
        self.returns = []
        self.loops = []
        self.handled = []
        self.yields = None
        self.resume = None


MAXDEPTH = 80


def local_names(node):
    """names bound in a function / lambda / comprehension body"""
    names, glob, nonl = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(c.name)
                for d in c.decorator_list:
                    walk_expr(d)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                walk_named(c)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            walk(c)

    def walk_expr(e):
        pass

    def walk_named(c):
        for x in ast.walk(c):
            if isinstance(x, ast.NamedExpr):
                targets(x.target)

    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for s in node.body:
            walk(ast.Module(body=[s], type_ignores=[]))
    elif isinstance(node, ast.Lambda):
        walk(ast.Expression(body=node.body))
    a = getattr(node, 'args', None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    return names - glob - nonl, glob, nonl


def has_yield(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.base = {}
        self.st = State(1, {})
        self.collect = [[]]
        self.frames = []
        self.unknowns = []
        self.loading = False
        self.poisoned = []
        self.modules = {}
        self.sources = {}
        self.depth = 0
        self.steps = 0
        self.maxsteps = 400000
        self.calls = set()       # functions analysed (coverage evidence)
        self.warned = 0
        self.overrides = {}
        self.effects = []
        self.aliases, self.aliased, self.probes, self.stored, self.cached_as = {}, set(), {}, {}, {}
        self.excctx = {}         # id(exception) -> (exception, the one handled when it was raised)
        from . import builtins_ as BI
        self.BI = BI
        BI.install(self)

    # ------------------------------------------------------------ heap
    def rec(self, h):
        r = self.st.heap.get(h.oid)
        if r is None:
            r = self.base.get(h.oid)
            if r is None:
                return {}
        return r

    def recof(self, st, h):
        r = st.heap.get(h.oid)
        return r if r is not None else self.base.get(h.oid, {})

    def put(self, h, key, val):
        d = dict(self.rec(h))
        d[key] = val
        self.st.heap[h.oid] = d

    def setrec(self, h, d):
        self.st.heap[h.oid] = d

    def delkey(self, h, key):
        d = dict(self.rec(h))
        d.pop(key, None)
        self.st.heap[h.oid] = d

    def seal(self):
        """freeze the current heap as base (after module load)"""
        self.base.update(self.st.heap)
        self.st = State(1, {})
        self.aliases0 = dict(self.aliases), set(self.aliased), {}, {}, dict(self.cached_as)

    def reset_caches(self):
        self.aliases, self.aliased, self.probes, self.stored, self.cached_as = [x.copy() for x in self.aliases0]

    # ------------------------------------------------------------ guards
    def known(self, c, guard=None):
        """truth of c in the current state: True/False/None"""
        if isinstance(c, bool):
            return c
        g = self.st.guard if guard is None else guard
        n = nb(c)
        if T.bdd_ite(n, g, 0) == 0:
            return False
        if T.bdd_ite(n, 0, g) == 0:
            return True
        r = T.bdd_restrict(n, g)
        if r < 2:
            return bool(r)
        try:
            with T.guard_facts(mb(g)):
                r2 = T.refresh(mb(r))
        except T.TermError:
            return None
        if isinstance(r2, bool):
            return r2
        n2 = r2.n
        if T.bdd_ite(n2, g, 0) == 0:
            return False
        if T.bdd_ite(n2, 0, g) == 0:
            return True
        return None

    def simp(self, c):
        """boolean simplified in the current state"""
        if isinstance(c, bool):
            return c
        k = self.known(c)
        if k is not None:
            return k
        return mb(T.bdd_restrict(nb(c), self.st.guard))

    def feasible(self, g):
        """cheap arithmetic refutation of a guard"""
        if g == 0:
            return False
        if g == 1:
            return True
        lits = T.literals(g)
        arith = [a for a in lits if a.op in ('lt0', 'eq0', 'tb')]
        if len(arith) < 2:
            return True
        return not self.contradictory(g, lits)

    def contradictory(self, g, lits):
        cache = T.FACTS.__dict__.setdefault('_contra', {})
        r = cache.get(g)
        if r is not None:
            return r
        r = False
        for a, v in lits.items():
            if a.op not in ('lt0', 'eq0', 'tb'):
                continue
            rest = 1
            for b, w in lits.items():
                if b is not a:
                    x = T._bdd_var(b)
                    rest = T.bdd_ite(rest, x if w else T.bdd_ite(x, 0, 1), 0)
            try:
                with T.guard_facts(mb(rest)):
                    t = T.refresh(B(T._bdd_var(a)))
            except T.TermError:
                continue
            if isinstance(t, bool) and t != v:
                r = True
                break
        if not r:
            r = self._range_contra(lits)
        if not r and len(lits) <= 12:
            r = self._eq_contra(lits)
        cache[g] = r
        return r

    def infeasible(self, g, limit=400):
        """every path of a guard is refuted; paths are cut early on equations that exclude each other"""
        left = [limit]

        def excl(p, q):
            c = T.sub(p, q).const
            d = T.add(p, q).const
            return (c is not None and c != 0) or (d is not None and d != 0)

        def go(n, lits, eqs):
            if n == 0:
                return True
            if n == 1:
                left[0] -= 1
                if left[0] < 0:
                    return False
                m = 1
                for a, v in lits.items():
                    x = T._bdd_var(a)
                    m = T.bdd_ite(m, x if v else T.bdd_ite(x, 0, 1), 0)
                return m == 0 or self.contradictory(m, lits)
            a, hi, lo = T._N[n]
            if a.op == 'eq0':
                p = a.args[0]
                bad = any(excl(p, q) for q in eqs)
                if not bad and not go(hi, {**lits, a: True}, eqs + [p]):
                    return False
            elif not go(hi, {**lits, a: True}, eqs):
                return False
            return go(lo, {**lits, a: False}, eqs)
        return go(g, {}, [])

    def _range_contra(self, lits):
        """literals about one integer form L (L < a, L == b, L != c) leave it no value"""
        grp = {}
        for a, v in lits.items():
            if a.op not in ('lt0', 'eq0'):
                continue
            p = a.args[0]
            k = sum(c for m, c in p.t if not m)
            body = T.sub(p, k)
            if not body.t or any(not isinstance(c, int) and getattr(c, 'denominator', 2) != 1 for _, c in body.t) \
                    or getattr(k, 'denominator', 1) != 1:
                continue
            sg = 1
            if body.t[0][1] < 0:
                body, sg = T.mul(-1, body), -1
            g = grp.setdefault(body, [None, None, set(), []])
            # p = sg*L + k
            lo = hi = None
            if a.op == 'lt0':
                if sg > 0:
                    lo, hi = (None, -k - 1) if v else (-k, None)
                else:
                    lo, hi = (k + 1, None) if v else (None, k)
            elif v:
                lo = hi = -k * sg
            else:
                g[2].add(-k * sg)
            if lo is not None and (g[0] is None or lo > g[0]):
                g[0] = lo
            if hi is not None and (g[1] is None or hi < g[1]):
                g[1] = hi
        for body, (lo, hi, ex, _) in grp.items():
            if lo is None or hi is None:
                continue
            while lo in ex and lo <= hi:
                lo += 1
            while hi in ex and lo <= hi:
                hi -= 1
            if lo > hi:
                return True
        return False

    def _eq_contra(self, lits, depth=3):
        """an equality literal solved for a variable and substituted refutes the others"""
        for a, v in lits.items():
            if a.op != 'eq0' or not v:
                continue
            p = a.args[0]
            for m, c in p.t:
                if len(m) == 1 and abs(c) == 1 and m[0].op in ('var', 'sym', 'int') or (len(m) == 1 and abs(c) == 1 and not m[0].args):
                    x = m[0]
                    e = T.sub(P(x), T.mul(c, p))
                    if T.occurs(e, x):
                        continue
                    r = True
                    try:
                        for b, w in lits.items():
                            if b is a or not T.occurs(B(T._bdd_var(b)), x):
                                q = B(T._bdd_var(b))
                            else:
                                q = T.subst(B(T._bdd_var(b)), {x: e})
                            r = T.band_(r, q if w else T.bnot_(q))
                            if r is False:
                                return True
                        if depth and isinstance(r, B):
                            l2 = T.literals(nb(r))
                            if len(l2) > 1 and self._eq_contra(l2, depth - 1):
                                return True
                    except T.TermError:
                        pass
            # wrap(y, n) == 0: no bit of y below n is set
            if len(p.t) == 1:
                (m, c), = p.t
                if len(m) == 1 and m[0].op == 'wrap':
                    y, n = m[0].args
                    for b, w in lits.items():
                        if b.op == 'tb' and w and b.args[0] is y and T.prove_ge0(T.sub(T.sub(n, 1), b.args[1])):
                            return True
        return False

    def merge(self, outs):
        """outs: [(State, value)] -> sets self.st, returns joined value"""
        outs = [o for o in outs if o[0] is not None and o[0].guard != 0]
        if not outs:
            self.st = None
            raise Dead()
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        total = 0
        for s, _ in outs:
            total = T.bdd_ite(s.guard, 1, total)
        gs = [mb(T.bdd_restrict(s.guard, total)) for s, _ in outs]
        st = State(total, dict(outs[0][0].heap))
        keys = set()
        for s, _ in outs:
            keys.update(s.heap)
        for k in keys:
            rs = [s.heap.get(k) for s, _ in outs]
            if rs[0] is not None and all(r is rs[0] for r in rs):
                continue
            b = self.base.get(k)
            rs = [r if r is not None else b for r in rs]
            live = [(g, r) for g, r in zip(gs, rs) if r is not None]
            if len({id(r) for _, r in live}) == 1:
                st.heap[k] = live[0][1]
                continue
            if any(r.get('memo') for _, r in live):
                u = self._union(live)
                if u is not None:
                    st.heap[k] = u
                    continue
            attrs = {}
            for _, r in live:
                for a in r:
                    attrs[a] = None
            nd = {}
            for a in attrs:
                vs = [(g, r.get(a, ABSENT)) for g, r in live]
                v0 = vs[0][1]
                if all(identical(v, v0) for _, v in vs):
                    nd[a] = v0
                else:
                    nd[a] = mkchoice(vs)
                if nd[a] is ABSENT:
                    del nd[a]
            st.heap[k] = nd
        self.st = st
        # the joined value: keep raw (unmerged) guards so that dead alternatives vanish
        vals = [(g, v) for g, (_, v) in zip(gs, outs)]
        v0 = vals[0][1]
        if all(identical(v, v0) for _, v in vals):
            return v0
        return mkchoice(vals)

    def _union(self, live):
        # caches: entries of both arms are kept (a stale entry only identifies more objects)
        d = dict(live[0][1])
        items = []
        for _, r in live:
            if not isinstance(r.get('items'), tuple):
                return None
            for x in r['items']:
                if isinstance(x, tuple) and isinstance(x[0], (str, FStr)):
                    return None      # a table of names: membership matters
                if not any(x is y or identical(x, y) for y in items):
                    items.append(x)
        d['items'] = tuple(items)
        return d

    def branch(self, c, f_true, f_false):
        """analyse both arms and join"""
        k = self.known(c)
        if k is True:
            return f_true()
        if k is False:
            return f_false()
        s0 = self.st
        n = nb(c)
        outs = []
        for arm, f in ((n, f_true), (T.bdd_ite(n, 0, 1), f_false)):
            g = T.bdd_ite(s0.guard, arm, 0)
            if not self.feasible(g):
                continue
            self.st = s0.clone(g)
            try:
                v = f()
                outs.append((self.st, v))
            except Dead:
                pass
            except Unsupported as e:
                self.unknown(e)
        return self.merge(outs)

    def unknown(self, e):
        g = self.st.guard if self.st is not None else 1
        self.unknowns.append((g, str(e)))
        self.st = None

    def case(self, v, f):
        """apply f to every alternative of a gamma node and join"""
        if not isinstance(v, Choice):
            return f(v)
        s0 = self.st
        outs = []
        for g, x in v.alts:
            gg = T.bdd_ite(s0.guard, nb(g), 0)
            if gg == 0 or self.known(g, s0.guard) is False or not self.feasible(gg):
                continue
            self.st = s0.clone(gg)
            try:
                r = f(x)
                outs.append((self.st, r))
            except Dead:
                pass
            except Unsupported as e:
                self.unknown(e)
        return self.merge(outs)

    # ------------------------------------------------------------ exceptions
    def exc_class(self, name):
        return self.BI.CLS[name]

    def raise_(self, cls, *args):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        e = Inst(cls)
        self.setrec(e, {'args': tuple(args), '%eng': True})
        self.raise_value(e)

    def raise_value(self, e):
        self.collect[-1].append((self.st, e))
        self.st = None
        raise Dead()

    def raise_if(self, c, cls, *args):
        """raise under condition c, continue under not c"""
        k = self.known(c)
        if k is False:
            return
        if k is True:
            self.raise_(cls, *args)
        s0 = self.st
        n = nb(c)
        g1 = T.bdd_ite(s0.guard, n, 0)
        if self.feasible(g1):
            self.st = s0.clone(g1)
            try:
                self.raise_(cls, *args)
            except Dead:
                pass
        g0 = T.bdd_ite(s0.guard, T.bdd_ite(n, 0, 1), 0)
        self.st = s0.clone(g0)
        if g0 == 0:
            self.st = None
            raise Dead()

    # ------------------------------------------------------------ modules
    def load_package(self):
        self.pkg = 'hwtypes'
        if 'hwsa_pylib' not in self.modules:
            self.load('hwsa_pylib', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib', 'prelude.py'))
        self.load('hwtypes', os.path.join(self.repo, 'hwtypes', '__init__.py'))
        return self

    def load(self, name, path=None):
        if name in self.modules:
            return self.modules[name]
        if path is None:
            path = os.path.join(self.repo, *name.split('.')) + '.py'
            if not os.path.exists(path):
                raise Unsupported('no module %s' % name)
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        self.sources[name] = (path, src, tree)
        env = Env(None, 'module', name)
        self.modules[name] = env
        self.setrec(env, {'__name__': name})
        fr = Frame(None, env)
        self.frames.append(fr)
        self.collect.append([])
        lenient, self.loading = self.loading, not name.startswith(('fixture_', 'hwsa_'))
        try:
            for s in tree.body:
                if self.loading:
                    self.exec_decl(s)
                    continue
                try:
                    self.exec_stmt(s)
                except Unsupported as e:
                    raise Unsupported('%s:%d: %s' % (path, s.lineno, e))
                except Dead:
                    ex = self.collect[-1][-1:] if self.collect[-1] else None
                    raise Unsupported('%s:%d: module body raises %r %r' % (
                        path, s.lineno, ex and ex[0][1], ex and ex[0][0].heap.get(ex[0][1].oid)))
        finally:
            self.loading = lenient
            self.frames.pop()
            self.collect.pop()
        return env

    def exec_decl(self, s):
        """a statement of a module or class body; what it defines is unusable when it is not modelled"""
        if not self.loading:
            self.exec_block([s])
            if self.st is None:
                raise Dead()
            return
        pre, unk, depth = self.st.clone(), len(self.unknowns), len(self.frames)
        self.collect.append([])
        why = None
        try:
            self.exec_stmt(s)
        except Unsupported as e:
            why = str(e)
        except Dead:
            pass
        excs = self.collect.pop()
        if len(self.unknowns) > unk and why is None:
            why = self.unknowns[unk][1]
        if why is None and (self.st is None or excs):
            self.collect[-1].extend(excs)
            if self.st is None:
                if self.frame.env.kind == 'class':
                    raise Dead()
                why = 'module body raises %r' % (excs[-1:] and [excs[-1][1], excs[-1][0].heap.get(excs[-1][1].oid)],)
        if why is not None:
            if not hasattr(s, 'lineno'):
                raise Unsupported(why)
            why = '%s:%d: %s' % (self.frame.env.module, s.lineno, why)
            self.poisoned.append(why)
            del self.unknowns[unk:]
            del self.frames[depth:]
            self.st = pre
            for n in self._defines(s):
                self.assign_name(self.frame.env, n, Poison(why))

    def _defines(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return [s.name]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [(a.asname or a.name).split('.')[0] for a in s.names if a.name != '*']
        out = []
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.append(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.append(x.name)
        return out

    def modattr(self, mod, name):
        env = self.modules[mod]
        return self.rec(env)[name]

    # ------------------------------------------------------------ scopes
    @property
    def frame(self):
        return self.frames[-1]

    def module_env(self, env):
        e = env
        while e.parent is not None:
            e = e.parent
        return e

    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            if e.kind == 'function' and e.names is not None:
                if name in e.names:
                    v = self.rec(e).get(name, UNBOUND)
                    if isinstance(v, Choice) and any(x is ABSENT or x is UNBOUND for _, x in v.alts):
                        return self.case(v, lambda x: self._unbound(x, name))
                    if v is UNBOUND or v is ABSENT:
                        self.raise_('UnboundLocalError' if e is env else 'NameError', name)
                    return v
                if e.globs and name in e.globs:
                    e = self.module_env(e)
                    first = False
                    continue
            else:
                r = self.rec(e)
                if name in r:
                    if isinstance(r[name], Poison):
                        raise Unsupported(r[name].why)
                    return r[name]
            first = False
            e = e.parent
        b = self.BI.BUILTINS.get(name)
        if b is not None:
            return b
        if name in self.BI.UNMODELLED:
            raise Unsupported('builtin %s' % name)
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        self.raise_('NameError', name)

    def _unbound(self, x, name):
        if x is ABSENT or x is UNBOUND:
            self.raise_('UnboundLocalError', name)
        return x

    def assign_name(self, env, name, val):
        e = env
        if e.kind == 'function' and e.names is not None and name not in e.names:
            if e.globs and name in e.globs:
                e = self.module_env(e)
            else:
                # nonlocal or comprehension leak
                e = e.parent
                while e is not None and not (e.names is not None and name in e.names):
                    e = e.parent
                if e is None:
                    e = env
        self.put(e, name, val)

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            try:
                self.exec_stmt(s)
            except Dead:
                self.st = None
                return
            except Unsupported as e:
                if not hasattr(e, 'line'):
                    e.line = s.lineno
                    e.args = ('%s (%s:%d)' % (e.args[0] if e.args else '', self.frame.env.module, s.lineno),)
                self.unknown(e)
                return
            if self.st is None:
                return

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s): pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        env = self.frame.env
        if env.kind == 'class' and isinstance(s.target, ast.Name):
            self.put(env, '%ann', self.rec(env).get('%ann', ()) + ((s.target.id, s.annotation, self.frame.env),))

    def annotations(self, f):
        a = f.node.args
        d = []
        self.frames.append(Frame(None, f.env))
        try:
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None:
                    d.append((x.arg, self.eval(x.annotation)))
            if getattr(f.node, 'returns', None) is not None:
                d.append(('return', self.eval(f.node.returns)))
        finally:
            self.frames.pop()
        return self.new_dict(d)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(self.frame.env, t.id)
            v = self.binop(type(s.op).__name__, cur, self.eval(s.value), inplace=True)
            self.assign_name(self.frame.env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            v = self.binop(type(s.op).__name__, self.getattr(o, self.mangle(t.attr)), self.eval(s.value), inplace=True)
            self.setattr(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            v = self.binop(type(s.op).__name__, self.getitem(o, k), self.eval(s.value), inplace=True)
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented assignment target')

    def mangle(self, a):
        return a

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(self.frame.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval(t.slice), v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, elts, v):
        if isinstance(v, Choice):
            tl = {len(x) for _, x in v.alts if isinstance(x, tuple)}
            if len(tl) != 1 or not all(isinstance(x, tuple) for _, x in v.alts):
                def f(x):
                    self.unpack(elts, x)
                return self.case(v, f)
            n = tl.pop()
            v = tuple(mkchoice([(g, x[i]) for g, x in v.alts]) for i in range(n))
        items = self.iterate(v)
        if isinstance(items, SymSeq):
            raise Unsupported('unpacking a sequence of unknown length')
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_('ValueError')
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.new_list(items[i:len(items) - after]))
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x)
            return
        if len(items) != len(elts):
            self.raise_('ValueError')
        for e, x in zip(elts, items):
            self.assign(e, x)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.put(self.frame.env, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value), t.attr)
            else:
                raise Unsupported('del')

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.frame.returns.append((self.st, v))
        self.st = None
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            if not self.frame.handled:
                self.raise_('RuntimeError')
            self.raise_value(self.frame.handled[-1])
        e = self.eval(s.exc)
        cause = self.eval(s.cause) if s.cause is not None else UNBOUND

        def f(e):
            if isinstance(e, ClassV):
                e = self.call(e, [], {})
            if isinstance(e, Inst) and self.BI.CLS['BaseException'] not in e.cls.mro or isinstance(e, (str, int, tuple)) or e is None:
                self.raise_('TypeError', 'exceptions must derive from BaseException')
            if not isinstance(e, Inst):
                raise Unsupported('raise of %r' % (e,))
            if cause is not UNBOUND:
                self.put(e, '__cause__', self.call(cause, [], {}) if isinstance(cause, ClassV) else cause)
            self.raise_value(e)
        self.case(e, f)

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if s.msg is None:
            return self.raise_if(T.bnot_(c), 'AssertionError')
        self.branch(c, lambda: None, lambda: self.raise_value(self.object_new(self.BI.CLS['AssertionError'], [self.eval(s.msg)], {})))

    def s_Global(self, s): pass
    def s_Nonlocal(self, s): pass

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        k = self.known(c)
        if k is not None:
            self.exec_block(s.body if k else s.orelse)
            if self.st is None:
                raise Dead()
            return

        def arm(b):
            def f():
                self.exec_block(b)
                if self.st is None:
                    raise Dead()
            return f
        self.branch(c, arm(s.body), arm(s.orelse))

    # -- match
    def s_Match(self, s):
        v = self.eval(s.subject)
        self.case(v, lambda x: self._match(s, x, 0))

    def _match(self, s, v, i):
        if i == len(s.cases):
            return
        c = s.cases[i]

        def take():
            if c.guard is None:
                self.exec_block(c.body)
                if self.st is None:
                    raise Dead()
                return
            g = self.truth(self.eval(c.guard))

            def body():
                self.exec_block(c.body)
                if self.st is None:
                    raise Dead()
            self.branch(g, body, lambda: self._match(s, v, i + 1))
        binds = []
        m = self._pattern(c.pattern, v, binds)

        def yes():
            for n, x in binds:
                self.assign_name(self.frame.env, n, x)
            take()
        self.branch(m, yes, lambda: self._match(s, v, i + 1))

    def _pattern(self, p, v, binds):
        """condition under which v matches; what it binds is added to binds"""
        if isinstance(v, Choice) and not isinstance(p, (ast.MatchAs, ast.MatchValue)):
            raise Unsupported('match of a joined value')
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self._pattern(p.pattern, v, binds)
            if p.name is not None:
                binds.append((p.name, v))
            return c
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                b = []
                c = T.bor_(c, self._pattern(q, v, b))
                if b:
                    raise Unsupported('binding in an or-pattern')
            return c
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListV)):
                if isinstance(v, (str, int, float, I, B, FStr, FuncV, ClassV, DictV)) or v is None:
                    return False
                raise Unsupported('sequence pattern on %r' % (v,))
            xs = self.iterate(v)
            if isinstance(xs, SymSeq):
                raise Unsupported('sequence pattern on a sequence of unknown length')
            xs = list(xs)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if (len(xs) != n) if not star else (len(xs) < n - 1):
                return False
            if star:
                i = star[0]
                k = len(xs) - (n - 1)
                if p.patterns[i].name is not None:
                    binds.append((p.patterns[i].name, self.new_list(xs[i:i + k])))
                pairs = list(zip(p.patterns[:i], xs[:i])) + list(zip(p.patterns[i + 1:], xs[i + k:]))
            else:
                pairs = list(zip(p.patterns, xs))
            c = True
            for q, x in pairs:
                c = T.band_(c, self._pattern(q, x, binds))
                if c is False:
                    return False
            return c
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, DictV):
                if isinstance(v, (str, int, I, B, FStr, FuncV, ClassV, ListV, tuple)) or v is None:
                    return False
                raise Unsupported('mapping pattern on %r' % (v,))
            if p.rest is not None:
                raise Unsupported('rest of a mapping pattern')
            for k, q in zip(p.keys, p.patterns):
                k = self.eval(k)
                c = self.known(self.truth(self.dict_has(v, k)))
                if c is None:
                    raise Unsupported('mapping pattern on an unknown key')
                if not c:
                    return False
                if self._pattern(q, self.dict_get(v, k), binds) is not True:
                    raise Unsupported('nested mapping pattern')
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls)
            c = self.truth(self.call(self.BI.BUILTINS['isinstance'], [v, cls], {}))
            k = self.known(c)
            if k is False:
                return False
            if not p.patterns and not p.kwd_patterns:
                return c
            if k is None:
                raise Unsupported('class pattern on an unknown class')
            names = []
            if p.patterns:
                if isinstance(cls, ClassV) and cls.builtin and len(p.patterns) == 1:
                    return self._pattern(p.patterns[0], v, binds)
                names = list(self.getattr(cls, '__match_args__'))
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                x = self.getattr(v, n, ABSENT)
                if x is ABSENT:
                    return False
                c = T.band_(c, self._pattern(q, x, binds))
                if c is False:
                    return False
            return c
        raise Unsupported('pattern %s' % type(p).__name__)

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.pkg:
                m = self.import_module(a.name)
                self.assign_name(self.frame.env, a.asname or top,
                                 ModuleV(a.name if a.asname else top, 'repo'))
            else:
                self.BI.external(self, a.name)
                self.assign_name(self.frame.env, a.asname or top, self.BI.external(self, a.name if a.asname else top))

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        return self.load(name)

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            mod = self.pkg + ('.' + mod if mod else '')
        if mod.split('.')[0] != self.pkg:
            m = self.BI.external(self, mod)
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('star import from %s' % mod)
                self.assign_name(self.frame.env, a.asname or a.name, self.getattr(m, a.name))
            return
        env = self.import_module(mod)
        ns = self.rec(env)
        for a in s.names:
            if a.name == '*':
                al = ns.get('__all__')
                if al is not None:
                    names = self.iterate(al)
                else:
                    names = [k for k in ns if not k.startswith('_')]
                for k in names:
                    if k not in ns:
                        self.raise_('AttributeError', k)
                    self.assign_name(self.frame.env, k, ns[k])
            else:
                if a.name in ns:
                    v = ns[a.name]
                else:
                    try:
                        self.import_module(mod + '.' + a.name)
                        v = ModuleV(mod + '.' + a.name, 'repo')
                    except Unsupported:
                        self.raise_('ImportError', a.name)
                self.assign_name(self.frame.env, a.asname or a.name, v)
        # submodule attribute on the package
    def s_FunctionDef(self, s):
        f = self.make_function(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            f = self.call(dv, [f], {})
        self.assign_name(self.frame.env, s.name, f)

    def make_function(self, node, name):
        f = FuncV(node, self.frame.env, name, self.frame.env.module)
        a = node.args
        f.defaults = tuple(self.eval(d) for d in a.defaults)
        f.kwdefaults = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.locals_ = local_names(node)
        f.isgen = has_yield(node) if not isinstance(node, ast.Lambda) else False
        f.cls = None
        q = self.frame.env
        parts = [name]
        while q is not None and q.kind != 'module':
            if q.kind == 'class' and q.func:
                parts.append(q.func)
            elif q.kind == 'function' and isinstance(q.func, FuncV):
                parts.append(q.func.name + '.<locals>')
            q = q.parent
        f.qual = '.'.join(reversed(parts))
        self.setrec(f, {})
        return f

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        kw = {k.arg: self.eval(k.value) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        env = Env(self.frame.env, 'class', self.frame.env.module)
        env.func = s.name
        cell = Env(self.frame.env, 'class', None)     # __class__ cell
        env.cellcls = cell
        qual = s.name
        pe = self.frame.env
        if pe.kind == 'class' and pe.func:
            qual = pe.func + '.' + s.name
        self.setrec(env, {'__module__': env.module, '__qualname__': qual})
        prep = self.mro_lookup(self.calc_meta(meta, bases), '__prepare__') if meta is None or isinstance(meta, ClassV) else None
        if isinstance(prep, ClassMV) and not isinstance(prep.fn, Builtin) or isinstance(prep, (FuncV, StaticV)):
            m = self.calc_meta(meta, bases)
            d = self.call(self.class_bind(prep, m), [s.name, tuple(bases)], kw)
            if not isinstance(d, DictV) or not all(isinstance(k, str) for k, _ in self.dict_items(d, lambda x: x)):
                raise Unsupported('namespace of __prepare__')
            self.setrec(env, {**dict(self.dict_items(d, lambda x: x)), **self.rec(env)})
        fr = Frame(None, env)
        fr.handled = self.frame.handled
        self.frames.append(fr)
        try:
            for x in s.body:
                self.exec_decl(x)
        finally:
            self.frames.pop()
        ns = dict(self.rec(env))
        ann = ns.pop('%ann', None)
        if ann and '__annotations__' not in ns:
            def value(x):
                self.frames.append(fr)
                try:
                    return self.eval(x)
                except Unsupported:
                    return Opaque('annotation', None)
                finally:
                    self.frames.pop()
            ns['__annotations__'] = self.new_dict([(n, value(x)) for n, x, _ in ann])
        meta = self.calc_meta(meta, bases)
        nsd = self.new_dict(ns.items())
        cls = self.call(meta, [s.name, tuple(bases), nsd], kw)
        if isinstance(cls, ClassV):
            if cls.node is None:
                cls.node = s
            self.setrec(cell, {'__class__': cls})
            for v in ns.values():
                self._bind_cell(v, cls)
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d), [cls], {})
        self.assign_name(self.frame.env, s.name, cls)

    def _bind_cell(self, v, cls):
        # kept for qualified names only; super() resolves through the scope's class cell
        if isinstance(v, FuncV) and v.cls is None:
            v.cls = cls
        elif isinstance(v, (StaticV, ClassMV)):
            self._bind_cell(v.fn, cls)
        elif isinstance(v, PropV):
            for x in (v.fget, v.fset, v.fdel):
                self._bind_cell(x, cls)

    def calc_meta(self, meta, bases):
        best = meta if meta is not None else None
        for b in bases:
            if not isinstance(b, ClassV):
                raise Unsupported('base %r' % (b,))
            if best is None or (best in b.meta.mro):
                best = b.meta
            elif b.meta in best.mro:
                pass
            else:
                self.raise_('TypeError', 'metaclass conflict')
        return best or self.BI.CLS['type']

    # ---------------------------------------------------------- class creation (type.__new__)
    def c3(self, bases):
        seqs = [list(b.mro) for b in bases] + [list(bases)]
        out = []
        while any(seqs):
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in q[1:] for q in seqs):
                    break
            else:
                return None
            out.append(c)
            for q in seqs:
                if q and q[0] is c:
                    q.pop(0)
        return out

    def create_class(self, meta, name, bases, ns, kwargs=None):
        bases = tuple(bases) or (self.BI.CLS['object'],)
        meta = self.calc_meta(meta, bases)
        if len(set(map(id, bases))) != len(bases):
            self.raise_('TypeError', 'duplicate base class')
        c = ClassV(name, bases, meta)
        mro = self.c3(bases)
        if mro is None:
            self.raise_('TypeError', 'inconsistent MRO')
        for b in mro:
            if b.name in ('bool', 'NoneType') and b.builtin:
                self.raise_('TypeError', 'not an acceptable base type')
        c.mro = tuple([c] + mro)
        c.module = self.frame.env.module if self.frames else None
        d = {}
        for k, v in ns:
            if k == '__new__' and isinstance(v, FuncV):
                v = StaticV(v)
            elif k in ('__init_subclass__', '__class_getitem__') and isinstance(v, FuncV):
                v = ClassMV(v)
            d[k] = v
        if '__eq__' in d and '__hash__' not in d:
            d['__hash__'] = None
        d['%qualname'] = d.pop('__qualname__', name)
        self.setrec(c, d)
        for k, v in list(d.items()):
            if isinstance(v, Inst):
                h = self.mro_lookup(v.cls, '__set_name__')
                if h is not None:
                    self.call(h, [v, c, k], {})
        # super().__init_subclass__(**kwargs)
        for b in c.mro[1:]:
            r = self.rec(b)
            if '__init_subclass__' in r:
                f = r['__init_subclass__']
                fn = f.fn if isinstance(f, ClassMV) else f
                if not (isinstance(fn, Builtin)):
                    self.call(fn, [c], dict(kwargs or {}))
                elif kwargs:
                    self.raise_('TypeError', '__init_subclass__() takes no keyword arguments')
                break
        return c

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        self.case(it, lambda x: self._for(s, x))

    def _for(self, s, it):
        if isinstance(it, CountV):
            return self._for_count(s, it)
        if isinstance(it, IterV) and it.kind == 'iterator':
            rec = self.rec(it)
            if not isinstance(rec['items'], Choice) and not isinstance(rec['pos'], Choice):
                items = list(rec['items'])[rec['pos']:] if not isinstance(rec['items'], SymSeq) else rec['items']
                self.put(it, 'pos', len(rec['items']) if not isinstance(rec['items'], SymSeq) else 0)
            else:
                items = self.iterate(it)
        else:
            items = self.iterate(it)
        if isinstance(items, SymSeq):
            return self.sym_for(s, items)
        breaks = []
        fr = self.frame
        for x in items:
            conts = []
            fr.loops.append((breaks, conts))
            try:
                try:
                    self.assign(s.target, x)
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
            finally:
                fr.loops.pop()
            outs = [(c, None) for c in conts]
            if self.st is not None:
                outs.append((self.st, None))
            try:
                self.merge(outs)
            except Dead:
                self.st = None
                break
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        outs = [(b, None) for b in breaks]
        if self.st is not None:
            outs.append((self.st, None))
        self.merge(outs)

    def _for_count(self, s, it):
        """for x in count(): left through a return or break"""
        breaks = []
        fr = self.frame
        for n in range(301):
            if n >= 2 and self.infeasible(self.st.guard):
                self.st = None
                break
            if n == 300:
                raise Unsupported('unbounded loop')
            conts = []
            fr.loops.append((breaks, conts))
            try:
                self.assign(s.target, self.call(self.BI.BUILTINS['next'], [it], {}))
                self.exec_block(s.body)
            finally:
                fr.loops.pop()
            outs = [(q, None) for q in conts]
            if self.st is not None:
                outs.append((self.st, None))
            try:
                self.merge(outs)
            except Dead:
                self.st = None
                break
        self.merge([(b, None) for b in breaks])

    def s_While(self, s):
        breaks = []
        fr = self.frame
        n = 0
        start = self.st.clone()
        while True:
            c = self.truth(self.eval(s.test))
            k = self.known(c)
            if k is None and n <= 1 and not breaks:
                # unknown from the first round, or known only for the first: summarise from the start
                here, c0, nunk = self.st, c, len(self.unknowns)
                self.st = start.clone()
                try:
                    return self.sym_while(s)
                except (Unsupported, Dead):
                    del self.unknowns[nunk:]
                    self.st, c = here, c0
            if k is None and n >= 0:
                # bounded unrolling is only used when the loop provably ends
                if n >= 40:
                    raise Unsupported('while loop with unknown trip count')
                s0 = self.st
                nn = nb(c)
                if n >= 2 and self.infeasible(T.bdd_ite(s0.guard, nn, 0)):
                    break
                gf = T.bdd_ite(s0.guard, T.bdd_ite(nn, 0, 1), 0)
                exit_st = s0.clone(gf)
                breaks.append(exit_st)
                self.st = s0.clone(T.bdd_ite(s0.guard, nn, 0))
                k = True
            if k is False:
                break
            if n >= 2 and isinstance(s.test, ast.Constant) and self.infeasible(self.st.guard):
                # `while True` left through a return or break: no path gets here
                self.st = None
                break
            n += 1
            if n > 300:
                raise Unsupported('while loop too long')
            conts = []
            fr.loops.append((breaks, conts))
            try:
                self.exec_block(s.body)
            finally:
                fr.loops.pop()
            outs = [(q, None) for q in conts]
            if self.st is not None:
                outs.append((self.st, None))
            try:
                self.merge(outs)
            except Dead:
                self.st = None
                break
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        outs = [(b, None) for b in breaks]
        if self.st is not None:
            outs.append((self.st, None))
        self.merge(outs)

    def s_Break(self, s):
        self.frame.loops[-1][0].append(self.st)
        self.st = None
        raise Dead()

    def s_Continue(self, s):
        self.frame.loops[-1][1].append(self.st)
        self.st = None
        raise Dead()

    # -- loop summaries
    def loop_vars(self, s):
        names = set()
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
        return names

    def _loop_body(self, s, assign_target):
        """analyse a loop body once in the current state; returns via state"""
        fr = self.frame
        breaks, conts = [], []
        nret = len(fr.returns)
        self.collect.append([])
        fr.loops.append((breaks, conts))
        try:
            assign_target()
            self.exec_block(s.body)
        except Dead:
            self.st = None
        finally:
            fr.loops.pop()
            excs = self.collect.pop()
        outs = [(q, None) for q in conts]
        if self.st is not None:
            outs.append((self.st, None))
        try:
            self.merge(outs)
        except Dead:
            self.st = None
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        return breaks, rets, excs

    def sym_for(self, s, seq):
        if s.orelse:
            raise Unsupported('for-else over a sequence of unknown length')
        env = self.frame.env
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        names = self.loop_vars(s)
        pre = self.st
        prerec = self.rec(env)
        iv = T.fresh_var()
        T.FACTS.bound(iv, 0, P(seq.n) - 1)
        accs = {}
        st = self.st = pre.clone()
        for nme in names - tnames:
            v0 = prerec.get(nme, UNBOUND)
            if v0 is UNBOUND:
                continue
            if is_num(v0):
                a = T.atom('acc', (iv, nme), 'bool' if is_bool(v0) else 'int')
                accs[nme] = (a, v0)
                self.put(env, nme, B(T._bdd_var(a)) if is_bool(v0) else P(a))
            else:
                accs[nme] = (None, v0)
        heap_before = dict(self.st.heap)
        nunk = len(self.unknowns)
        breaks, rets, excs = self._loop_body(s, lambda: self.assign(s.target, seq.get(P(iv))))
        if len(self.unknowns) > nunk:
            del self.unknowns[nunk:]
            self.st = pre
            raise Unsupported('loop body')
        if breaks:
            self.st = pre
            raise Unsupported('break in a loop over an unknown length')
        if rets or excs:
            return self._search_loop(s, seq, pre, iv, accs, rets, excs)
        if self.st is None:
            self.st = pre
            raise Unsupported('loop body never completes')
        post = self.st
        postrec = self.rec(env)
        # heap effects other than local variables: only appends to one list are summarised
        eff = []
        for k, r in post.heap.items():
            if k == env.oid:
                continue
            if heap_before.get(k) is not r and (heap_before.get(k) is not None or k in self.base):
                eff.append(k)
        new = {}
        for nme, (a, v0) in accs.items():
            new[nme] = postrec.get(nme, UNBOUND)
        self.st = pre
        if eff:
            return self._append_loop(seq, iv, post, eff, heap_before, accs, new, names, tnames)
        self._close(seq.n, iv, accs, new, names, tnames)

    def _append_loop(self, seq, iv, post, eff, heap_before, accs, new, names, tnames):
        here = self.st
        at = {}
        if any(a is not None and not identical(new[k], P(a) if a.sort == 'int' else B(T._bdd_var(a))) for k, (a, v) in accs.items()):
            # the accumulators' closed forms at iteration i replace them in the appended element
            at = self._close(seq.n, iv, accs, new, names, tnames)
        else:
            at = {a: (P(v0) if a.sort == 'int' else v0) for a, v0 in accs.values() if a is not None}
        for k in eff:
            old = heap_before.get(k) or self.base.get(k)
            nw = post.heap[k]
            if set(nw) != {'items'} or not isinstance(old.get('items'), tuple) or not isinstance(nw['items'], (tuple, SymSeq)):
                raise Unsupported('loop with heap effects')
            o, n = old['items'], nw['items']
            if isinstance(n, tuple) and (len(n) <= len(o) or not identical(n[:len(o)], o)):
                raise Unsupported('loop with heap effects')
            if len(o):
                raise Unsupported('append to a non-empty list in a loop')
            w = P(n.n) if isinstance(n, SymSeq) else P(len(n))
            if isinstance(n, SymSeq) and T.occurs(w, iv):
                raise Unsupported('loop extending a list by unequal amounts')

            def fix(el, at=at):
                if at:
                    el = subst_value(el, at)
                if any(occurs_value(el, a) for a, _ in accs.values() if a is not None):
                    raise Unsupported('appended element depends on a loop-carried variable')
                return el
            if isinstance(n, SymSeq) or len(n) != 1:
                from . import builtins_ as b
                if isinstance(n, SymSeq):
                    j = T.fresh_var()
                    el = n.get(P(j))
                    dep = occurs_value(el, iv) or fix(el) is not el and not identical(fix(el), el)
                    n2 = n
                else:
                    n2 = tuple(fix(x) for x in n)
                    dep = any(occurs_value(x, iv) for x in n2)
                if dep:
                    raise Unsupported('loop extending a list by changing elements')
                self.st.heap[k] = {'items': b.repeat_seq(self, n2, seq.n, 'list')}
                continue
            el = fix(n[-1])
            self.st.heap[k] = {'items': self.seq_from(el, iv, seq.n)}

    def seq_from(self, el, iv, n, kind='list'):
        def get(i, el=el, iv=iv):
            return subst_value(el, {iv: P(i)})
        return SymSeq(n, get, kind)

    def _search_loop(self, s, seq, pre, iv, accs, rets, excs):
        """`for x in seq: if c(x): return k` with a constant result"""
        self.st = pre
        for nme, (a, v0) in accs.items():
            raise Unsupported('search loop with accumulators')
        conds = []
        c = 0
        for st, v in rets:
            c = T.bdd_ite(c, 1, st.guard)
            if isinstance(v, (I, B)) and T.occurs(v, iv):
                raise Unsupported('search loop result depends on the position')
        ce = 0
        for st, e in excs:
            ce = T.bdd_ite(ce, 1, st.guard)
        if c and ce:
            raise Unsupported('loop both returns and raises')
        if c:
            if len({repr(v) for _, v in rets}) != 1:
                raise Unsupported('search loop results differ')
            cond = self.exists(mb(T.bdd_restrict(c, pre.guard)), seq.n, iv)

            def t():
                self.frame.returns.append((self.st, rets[0][1]))
                self.st = None
                raise Dead()
            return self.branch(cond, t, lambda: None)
        cls = {e.cls for _, e in excs if isinstance(e, Inst)}
        if len(cls) != 1:
            raise Unsupported('loop raises different exceptions')
        cond = self.exists(mb(T.bdd_restrict(ce, pre.guard)), seq.n, iv)
        self.raise_if(cond, cls.pop())

    def exists(self, cond, n, iv):
        if isinstance(cond, bool):
            return T.band_(cond, T.gt(n, 0))
        if not T.occurs(cond, iv):
            return T.band_(cond, T.gt(n, 0))
        return B(T._bdd_var(T.atom('bigex', (cond, P(n), iv), 'bool')))

    def _close(self, n, iv, accs, new, names, tnames):
        """closed forms / folds for accumulators after n iterations"""
        env = self.frame.env
        ivp = P(iv)
        closed = {}
        pend = {}
        for nme, (a, v0) in accs.items():
            if a is None:
                if not identical(new[nme], v0):
                    raise Unsupported('loop-carried non-numeric variable %s' % nme)
                continue
            pend[nme] = (a, v0, new[nme])
        # self-contained recurrences first
        progress = True
        while progress and pend:
            progress = False
            for nme, (a, v0, nv) in list(pend.items()):
                if a.sort != 'int' or not is_int(nv):
                    continue
                # substitute already closed accumulators (value at iteration i)
                sub = {ca: cf for (ca, cf, _) in closed.values()}
                nvs = T.subst(P(nv), sub) if sub else P(nv)
                if any(x in T.atoms_of(nvs) for (x, _, _) in pend.values() if x is not a):
                    continue
                cf = self._closed(a, P(v0), nvs, ivp, iv)
                if cf is None:
                    continue
                closed[nme] = (a, cf[0], cf[1](P(n)))
                del pend[nme]
                progress = True
        if pend:
            order = list(pend)
            sub = {ca: cf for (ca, cf, _) in closed.values()}
            accs_ = tuple(pend[k][0] for k in order)
            inits = tuple(P(pend[k][1]) if accs[k][0].sort == 'int' else pend[k][1] for k in order)
            bodies = []
            for k in order:
                x = pend[k][2]
                if not is_num(x):
                    raise Unsupported('loop-carried variable %s changes kind' % k)
                x = P(x) if accs[k][0].sort == 'int' else x
                bodies.append(T.subst(x, sub) if sub and isinstance(x, (I, B)) else x)
            for j, k in enumerate(order):
                so = accs[k][0].sort
                at = T.atom('fold', (P(n), iv, accs_, inits, tuple(bodies), j), so)
                self.put(env, k, B(T._bdd_var(at)) if so == 'bool' else P(at))
        for k, (_, _, fin) in closed.items():
            self.put(env, k, norm_int(fin))
        # loop targets keep an unusable value
        for k in tnames | (names - set(accs)):
            self.put(env, k, UNBOUND)
        return {a: cf for (a, cf, _) in closed.values()}

    def _closed(self, a, v0, nv, ivp, iv):
        """closed form of acc' = nv(acc, i): (value at i, value after n)"""
        ap = P(a)
        d = nv - ap
        if not T.occurs(d, a):
            if not T.occurs(d, iv):
                return v0 + d * ivp, lambda n: v0 + d * n
            # sum of c * ind(b(i)) * 2^i
            r = self._sum(d, ivp, iv)
            if r is not None:
                return v0 + r(ivp), lambda n: v0 + r(n)
            return None
        # or-accumulation of disjoint bits
        if v0.const == 0:
            # while acc < 2^i its bit i is clear (acc = sum of bits below i, by induction)
            clear = T.tb(ap, ivp)
            nv2 = nv
            if isinstance(clear, B):
                nv2 = T.assume_false(nv, clear)
            b = self._bitcond(nv2, ap, ivp)
            if b is not None and not (isinstance(b, B) and T.occurs(b, a)):
                return P(T.atom('fromseq', (b, ivp, iv))), lambda n, b=b: T.fromseq(b, n, iv)
        # Horner: acc' = 2*acc + ind(b(i))
        h = nv - 2 * ap
        if not T.occurs(h, a) and v0.const == 0:
            t = T.tops(h)
            if len(t) == 1 and T.cof_ind(h, t[0], 0).const == 0 and T.cof_ind(h, t[0], 1).const == 1:
                b = B(T._bdd_var(t[0].args[0]))
                if not T.occurs(b, a):
                    return None if False else (P(T.atom('horner', (b, ivp, iv))),
                                               lambda n, b=b: T.fromseq(T.subst(b, {iv: n - 1 - ivp}), n, iv))
        # acc' = acc >> c
        s = nv.single()
        if s is not None and s.op == 'fdiv' and s.args[0] is ap:
            e = T.pow2_exp(s.args[1])
            if e is not None and not T.occurs(e, iv) and not T.occurs(e, a):
                return T.shr(v0, e * ivp), lambda n: T.shr(v0, e * n)
        # acc' = acc * 2^c
        if len(nv.t) == 1 and a in nv.t[0][0] and nv.t[0][0].count(a) == 1:
            m, c = nv.t[0]
            rest = T._mk({tuple(x for x in m if x is not a): c})
            e = T.pow2_exp(rest)
            if e is not None and not T.occurs(e, iv):
                return v0 * T.pow2(e * ivp), lambda n: v0 * T.pow2(e * n)
        return None

    def _bitcond(self, p, ap, ivp, depth=0):
        """condition under which p is acc with bit i added (None: some case is neither)"""
        if p is ap:
            return False
        two = T.pow2(ivp)
        if T.sub(p, ap) is two:
            return True
        s = p.single()
        if s is not None and s.op == 'bw' and s.args[0] in (0b1110, 0b0110) and set(s.args[1:]) == {ap, two}:
            return True
        t = T.tops(p)
        if not t or depth > 6:
            return None
        ia = t[0]
        h = self._bitcond(T.cof_ind(p, ia, 1), ap, ivp, depth + 1)
        if h is None:
            return None
        l = self._bitcond(T.cof_ind(p, ia, 0), ap, ivp, depth + 1)
        if l is None:
            return None
        return T.bite(B(T._bdd_var(ia.args[0])), h, l)

    def _sum(self, d, ivp, iv, depth=0):
        """closed form of the sum over i of d, where d is w*2^i or 0 on every case"""
        t = T.tops(d)
        if depth > 8:
            return None
        for a in t:
            if not T.occurs(P(a), iv):
                h = self._sum(T.cof_ind(d, a, 1), ivp, iv, depth + 1)
                l = self._sum(T.cof_ind(d, a, 0), ivp, iv, depth + 1)
                if h is None or l is None:
                    return None
                return lambda n: T.add(T.mul(P(a), h(n)), T.mul(T.sub(1, P(a)), l(n)))
        ws = []

        def bit(p, depth):
            t = T.tops(p)
            if not t:
                if p.const == 0:
                    return False
                # w = c * 2^i
                ws.append(T.mul(p, T.pow2(-ivp)))
                if ws[-1] is not ws[0] or T.occurs(ws[0], iv):
                    return None
                return True
            if depth > 6:
                return None
            h = bit(T.cof_ind(p, t[0], 1), depth + 1)
            l = None if h is None else bit(T.cof_ind(p, t[0], 0), depth + 1)
            if l is None:
                return None
            return T.bite(B(T._bdd_var(t[0].args[0])), h, l)
        b = bit(d, 0)
        if b is None:
            return None
        if b is False:
            return lambda n: P(0)
        if b is True:
            return lambda n: T.mul(ws[0], T.sub(T.pow2(n), 1))
        return lambda n: T.mul(ws[0], T.fromseq(b, n, iv))

    def sym_while(self, s):
        """while i < N: ...; i += k   with a recognisable counter"""
        if s.orelse:
            raise Unsupported('while-else')
        env = self.frame.env
        names = self.loop_vars(s)
        pre = self.st
        prerec = self.rec(env)
        iv = T.fresh_var()
        accs = {}
        self.st = pre.clone()
        for nme in names:
            v0 = prerec.get(nme, UNBOUND)
            if v0 is UNBOUND:
                continue
            if is_num(v0):
                a = T.atom('acc', (iv, nme), 'bool' if is_bool(v0) else 'int')
                accs[nme] = (a, v0)
                self.put(env, nme, B(T._bdd_var(a)) if is_bool(v0) else P(a))
            else:
                accs[nme] = (None, v0)
        c = self.truth(self.eval(s.test))
        if isinstance(c, bool):
            self.st = pre
            raise Unsupported('while condition')
        # find counter
        sup = T.bdd_support(nb(c))
        cnt = None
        for nme, (a, v0) in accs.items():
            if a is not None and a.sort == 'int' and any(a in T.atoms_of(x) for x in sup):
                if cnt is not None:
                    self.st = pre
                    raise Unsupported('while condition over two variables')
                cnt = nme
        if cnt is None or len(sup) != 1 or sup[0].op != 'lt0':
            self.st = pre
            raise Unsupported('while condition')
        a, v0 = accs[cnt]
        body_guard = T.bdd_ite(self.st.guard, nb(c), 0)
        heap_before = dict(self.st.heap)
        self.st = self.st.clone(body_guard)
        nunk = len(self.unknowns)
        breaks, rets, excs = self._loop_body(s, lambda: None)
        if len(self.unknowns) > nunk or breaks or rets or excs or self.st is None:
            del self.unknowns[nunk:]
            self.st = pre
            raise Unsupported('while body')
        post = self.st
        postrec = self.rec(env)
        for k, r in post.heap.items():
            if k != env.oid and heap_before.get(k) is not r and (heap_before.get(k) is not None or k in self.base):
                self.st = pre
                raise Unsupported('while loop with heap effects')
        new = {k: postrec.get(k, UNBOUND) for k in accs}
        self.st = pre
        stride = P(new[cnt]) - P(a)
        if stride.const not in (1, -1):
            raise Unsupported('while stride')
        sc = int(stride.const)
        neg = T.nb(c) != T._bdd_var(sup[0])
        p = sup[0].args[0]
        if neg:
            p = T.sub(-1, p)          # continue while p < 0
        # p = sc*a*... : need coefficient of a == sc so that p grows by 1
        cf = [k for m, k in p.t if m == (a,)]
        if len(cf) == 1 and cf[0] * sc > 0:
            p = T.mul(1 / T.Fraction(abs(cf[0])), p)
        rest = p - sc * P(a)
        if not all(T._integral(m, k) for m, k in rest.t):
            raise Unsupported('while bound')
        if T.occurs(rest, a):
            raise Unsupported('while bound')
        if any(x is not None and T.occurs(rest, x) for x, _ in accs.values()):
            raise Unsupported('while bound changes')
        start = sc * P(v0) + rest      # loop while start + k < 0
        n = T.mul(-1, start)
        k = self.known(T.lt(n, 0))
        if k is True:
            n = P(0)
        elif k is None:
            n = T.iite(T.lt(n, 0), 0, n)
        T.FACTS.bound(iv, 0, n - 1)
        self._close(n, iv, accs, new, names, set())
        for nm, (aa, vv) in accs.items():
            pass

    # ------------------------------------------------------------ try / with
    def _loop_marks(self):
        return [(len(b), len(c)) for b, c in self.frame.loops]

    def _take_jumps(self, marks):
        """break / continue states recorded since `marks`, removed: [(list, state)]"""
        out = []
        for (b, c), (nb_, nc) in zip(self.frame.loops, marks):
            for lst, n in ((b, nb_), (c, nc)):
                out += [(lst, st) for st in lst[n:]]
                del lst[n:]
        return out

    def s_Try(self, s):
        fr = self.frame
        nret = len(fr.returns)
        marks = self._loop_marks()
        self.collect.append([])
        try:
            self.exec_block(s.body)
            body_st = self.st
        finally:
            excs = self.collect.pop()
        outs = []
        pending = []          # exceptions leaving the statement (before finally)
        self.st = body_st
        if self.st is not None and s.orelse:
            self.collect.append([])
            try:
                self.exec_block(s.orelse)
            finally:
                pending += self.collect.pop()
        if self.st is not None:
            outs.append((self.st, None))
        for st, e in self._split_exc(excs):
            self.st = st
            self.collect.append([])
            try:
                try:
                    h = self._find_handler(s.handlers, e)
                    dead = False
                except Dead:
                    dead = True
                if dead:
                    self.st = None
                elif h is None:
                    pending.append((self.st, e))
                    self.st = None
                else:
                    fr.handled.append(e)
                    try:
                        if h.name:
                            self.assign_name(fr.env, h.name, e)
                        self.exec_block(h.body)
                        if self.st is not None and h.name:
                            self.put(fr.env, h.name, UNBOUND)
                    finally:
                        fr.handled.pop()
            finally:
                new = self.collect.pop()
                for _, x in new:
                    self.exc_context(x, e)
                pending += new
            if self.st is not None:
                outs.append((self.st, None))
        if s.finalbody:
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            jumps = self._take_jumps(marks)

            def run_final(st):
                self.st = st
                self.exec_block(s.finalbody)
                return self.st
            newp = []
            for st, e in pending:
                fr.handled.append(e)
                try:
                    q = run_final(st)
                finally:
                    fr.handled.pop()
                if q is not None:
                    newp.append((q, e))
            pending = newp
            for st, v in rets:
                q = run_final(st)
                if q is not None:
                    fr.returns.append((q, v))
            for lst, st in jumps:
                q = run_final(st)
                if q is not None:
                    lst.append(q)
            outs = [(q, None) for q in (run_final(st) for st, _ in outs) if q is not None]
        self.collect[-1].extend(pending)
        self.merge(outs)

    def exc_context(self, e, ctx):
        """remember the exception being handled when e was raised"""
        if isinstance(e, Inst) and isinstance(ctx, Inst) and e is not ctx:
            self.excctx.setdefault(id(e), (e, ctx))

    def _split_exc(self, excs):
        out = []
        for st, e in excs:
            if isinstance(e, Choice):
                for g, x in e.alts:
                    gg = T.bdd_ite(st.guard, nb(g), 0)
                    if gg:
                        out.append((st.clone(gg), x))
            else:
                out.append((st, e))
        # join exceptions of the same class
        groups = {}
        for st, e in out:
            groups.setdefault(e.cls, []).append((st, e))
        res = []
        for cls, lst in groups.items():
            if len(lst) == 1:
                res.append(lst[0])
            else:
                e = lst[0][1]
                recs = [self.recof(st, x) for st, x in lst]
                if any(x is not e for _, x in lst) and any(r.get('args') is not recs[0].get('args') for r in recs):
                    if any(set(r) - {'args', '__cause__'} for r in recs):
                        res += lst
                        continue
                    args = self.merge([(st, r.get('args', ())) for (st, _), r in zip(lst, recs)])
                    e = Inst(cls)
                    self.setrec(e, {'args': args})
                else:
                    self.merge([(st, None) for st, _ in lst])
                res.append((self.st, e))
        return res

    def _find_handler(self, handlers, e):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if isinstance(x, ClassV) and x in e.cls.mro:
                    return h
        return None

    def s_With(self, s):
        self._with(s, 0)

    def _with(self, s, n):
        if n == len(s.items):
            self.exec_block(s.body)
            if self.st is None:
                raise Dead()
            return
        item = s.items[n]
        cm = self.eval(item.context_expr)
        self.case(cm, lambda x: self._with_item(s, n, item, x))

    def _with_item(self, s, n, item, cm):
        """one context manager: every way out of the body passes its exit"""
        fr = self.frame

        def inner(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            self._with(s, n + 1)
        if isinstance(cm, Inst) and cm.cls is self.BI.CLS['_GeneratorContextManager']:
            return self._with_gen(cm, inner)
        v = self.BI.enter(self, cm)
        nret = len(fr.returns)
        marks = self._loop_marks()
        self.collect.append([])
        try:
            try:
                inner(v)
            except Dead:
                self.st = None
            except Unsupported as e:
                self.unknown(e)
        finally:
            excs = self.collect.pop()
        live = self.st
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        jumps = self._take_jumps(marks)
        outs = []

        def leave(st, e=None):
            """(state, suppressed?) after the exit"""
            self.st = st
            try:
                r = self.BI.leave(self, cm, e)
            except Dead:
                return None, False
            return self.st, r
        for st, v in rets:
            q, _ = leave(st)
            if q is not None:
                fr.returns.append((q, v))
        for lst, st in jumps:
            q, _ = leave(st)
            if q is not None:
                lst.append(q)
        for st, e in self._split_exc(excs):
            q, r = leave(st, e)
            if q is None:
                continue
            if r is False or r is None:
                self.collect[-1].append((q, e))
                continue
            self.st = q
            c = self.truth(r)

            def again(e=e):
                self.raise_value(e)
            try:
                self.branch(c, lambda: None, again)
                outs.append((self.st, None))
            except Dead:
                pass
        if live is not None:
            q, _ = leave(live)
            if q is not None:
                outs.append((q, None))
        self.merge(outs)

    def _with_gen(self, cm, inner):
        """a generator function used as a context manager: its yield runs the body"""
        fr = self.frame
        r = self.rec(cm)
        mark = ListV()
        depth, frames = self.depth, list(self.frames)
        count = [0]

        def resume(v):
            count[0] += 1
            if count[0] > 1:
                raise Unsupported('second yield of a context manager')
            nret = len(fr.returns)
            marks = self._loop_marks_of(fr)
            here = self.frames
            self.frames = list(frames)
            outs = []
            try:
                try:
                    inner(v)
                except Dead:
                    self.st = None
            finally:
                self.frames = here
            if self.st is not None:
                outs.append((self.st, 0))
            for st, x in fr.returns[nret:]:
                outs.append((st, ('ret', x)))
            del fr.returns[nret:]
            for i, ((b, c), (nb_, nc)) in enumerate(zip(fr.loops, marks)):
                for j, lst, n in ((0, b, nb_), (1, c, nc)):
                    for st in lst[n:]:
                        outs.append((st, ('jump', '%d:%d' % (i, j))))
                    del lst[n:]
            d = self.merge(outs)
            self.setrec(mark, {'d': d})
            return None
        self.setrec(mark, {'d': 'none'})
        self.call_func(r['fn'], list(r['args']), dict(r['kw']), resume=resume)
        d = self.rec(mark)['d']

        def go(d):
            if d == 'none':
                # the body did not run, or its exception was suppressed
                return
            if d == 0:
                return
            if d[0] == 'ret':
                fr.returns.append((self.st, d[1]))
                self.st = None
                raise Dead()

            def jump(w):
                i, j = map(int, w.split(':'))
                fr.loops[i][j].append(self.st)
                self.st = None
                raise Dead()
            self.case(d[1], jump)
        self.case(d, go)

    def _loop_marks_of(self, fr):
        return [(len(b), len(c)) for b, c in fr.loops]

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e): return e.value

    def e_Name(self, e):
        return self.lookup(self.frame.env, e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        env = self.frame.env
        while env.kind == 'comp':
            env = env.parent
        self.assign_name(env, e.target.id, v)
        return v

    def e_Tuple(self, e): return tuple(self.elts(e.elts))

    def e_List(self, e): return self.new_list(self.elts(e.elts))

    def e_Set(self, e): return self.new_list(self.elts(e.elts), 'set')

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.iterate(v)
                if isinstance(it, SymSeq):
                    raise Unsupported('star of unknown length')
                out.extend(it)
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = self.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v))
            else:
                kk = self.eval(k)
                self.dict_set(d, kk, self.eval(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value)
                spec = self.eval(x.format_spec) if x.format_spec is not None else ''
                parts.append(self.fmt(v, x.conversion, spec))
        return self.BI.joinparts(self, parts)

    def fmt(self, v, conv=-1, spec=''):
        if isinstance(v, (str, FStr, SymStr)) and conv in (-1, 115) and not spec:
            return v
        if isinstance(v, Choice) and conv in (-1, 115) and not spec and all(isinstance(x, (str, FStr, SymStr)) for _, x in v.alts):
            return v
        if isinstance(v, Inst) and not spec and conv in (-1, 115) and self.BI.CLS['Enum'] in v.cls.mro and self.BI.CLS['int'] not in v.cls.mro:
            # str() of an enumeration member
            if not any(n in self.rec(c) for c in v.cls.mro for n in ('__str__', '__format__') if c.module):
                n = self.rec(v).get('_name_')
                if isinstance(n, str) and isinstance(v.cls.name, str):
                    return '%s.%s' % (v.cls.name, n)
        if isinstance(v, I) and not spec:
            return ('fmt', v, -1, '')
        if isinstance(v, (int, float, str, Inst, ClassV, Choice, tuple, ListV)) or v is None:
            return self.opaque_on_failure(lambda: self.BI.py_format(self, v, conv, spec), ('fmt', v, conv, spec))
        return ('fmt', v, conv, spec)

    def opaque_on_failure(self, f, part):
        """text of a value; a value whose text is not modelled stays an opaque part"""
        if self.st is None:
            return part
        pre, unk, depth, nf = self.st.clone(), len(self.unknowns), self.depth, len(self.frames)
        self.collect.append([])
        try:
            r = f()
        except Unsupported:
            r = None
        except Dead:
            excs = self.collect.pop()
            if len(self.unknowns) == unk:
                self.collect[-1].extend(excs)
                raise
            self.collect.append([])
            r = None
        excs = self.collect.pop()
        if r is None or len(self.unknowns) > unk:
            del self.unknowns[unk:]
            del self.frames[nf:]
            self.depth, self.st = depth, pre
            return part
        self.collect[-1].extend(excs)
        return r

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, FStr):
                for q in p.parts:
                    out.append(q)
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != '':
                res.append(p)
        if not res:
            return ''
        if len(res) == 1 and isinstance(res[0], str):
            return res[0]
        return FStr(res)

    def e_FormattedValue(self, e):
        return self.mkstr([self.fmt(self.eval(e.value))])

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        return self.getitem(o, self.eval(e.slice))

    def e_Slice(self, e):
        f = lambda x: self.eval(x) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return T.bnot_(self.truth(v))
        return self.case(v, lambda x: self.unop(type(e.op).__name__, x))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        return self.binop(type(e.op).__name__, a, self.eval(e.right))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            return self.case(v, lambda x: alt(x, vals))

        def alt(x, vals):
            c = self.truth(x)
            k = self.known(c)
            if k is not None:
                if k == isand:
                    return go(vals[1:])
                return x
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: x if not isinstance(x, B) else False)
            return self.branch(c, lambda: x if not isinstance(x, B) else True, lambda: go(vals[1:]))
        return go(e.values)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(left, ops, comps):
            right = self.eval(comps[0])
            r = self.compare(type(ops[0]).__name__, left, right)
            if len(ops) == 1:
                return r
            return self.case(r, lambda r: self.branch(
                self.truth(r), lambda: go(right, ops[1:], comps[1:]), lambda: r if not isinstance(r, B) else False))
        return go(left, e.ops, e.comparators)

    def e_Lambda(self, e):
        return self.make_function(e, '<lambda>')

    def e_Await(self, e): raise Unsupported('await')

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        if self.frame.resume is not None:
            return self.frame.resume(v)
        y = self.frame.yields
        self.list_append(y, v)
        return None

    def e_YieldFrom(self, e):
        it = self.eval(e.value)

        def f(x):
            items = self.iterate(x)
            if isinstance(items, SymSeq):
                raise Unsupported('yield from unknown length')
            for v in items:
                self.list_append(self.frame.yields, v)
        self.case(it, f)
        return None

    def e_ListComp(self, e):
        r = self.comp(e, e.elt)
        if isinstance(r, (SymSeq, FiltSeq)):
            return r
        return self.new_list(r)

    def e_GeneratorExp(self, e):
        r = self.comp(e, e.elt, True)
        if isinstance(r, (SymSeq, FiltSeq)):
            return r
        return self.new_iter(r)

    def e_SetComp(self, e):
        r = self.comp(e, e.elt)
        if isinstance(r, (SymSeq, FiltSeq)):
            raise Unsupported('set of unknown length')
        return self.make_set(r)

    def e_DictComp(self, e):
        r = self.comp(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        if isinstance(r, (SymSeq, FiltSeq)):
            raise Unsupported('dict of unknown length')
        d = self.new_dict([])

        def fill(items):
            for k, v in items:
                self.dict_set(d, k, v)
        self.case(r, fill)
        return d

    def comp(self, e, elt, lazy=False):
        gens = e.generators
        it0 = self.eval(gens[0].iter)

        def run(it0):
            env = Env(self.frame.env, 'function', self.frame.env.module,
                      names={x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)})
            if self.frame.env.kind == 'class':
                env.parent = self.frame.env
            self.setrec(env, {})
            fr = Frame(self.frame.func, env)
            fr.yields = self.frame.yields
            fr.handled = self.frame.handled
            if hasattr(self.frame, 'selfarg'):
                fr.selfarg = self.frame.selfarg
            self.frames.append(fr)
            depth = len(self.frames)
            try:
                if len(gens) == 1:
                    items = self.iterate(it0)
                    if isinstance(items, SymSeq):
                        return self.sym_map(items, gens[0], elt)
                    it0 = tuple(items)
                    if lazy and gens[0].ifs:
                        return self._filtered(gens[0], elt, it0)
                acc = ListV()
                self.setrec(acc, {'items': ()})
                self._comp_rec(gens, 0, elt, acc, it0)
                r = self.rec(acc)['items']
                return r
            finally:
                del self.frames[depth - 1:]
        r = self.case(it0, run)
        return r

    def _filtered(self, g, elt, items):
        pairs = []
        for x in items:
            self.assign(g.target, x)
            keep = True

            def conds(cs):
                if not cs:
                    return True, self.eval(elt)
                return self.branch(self.truth(self.eval(cs[0])), lambda: conds(cs[1:]), lambda: (False, None))
            v = conds(g.ifs)
            if isinstance(v, Choice):
                gs = [(c, x) for c, x in v.alts]
                keep = mb(0)
                for c, x in gs:
                    keep = T.bor_(keep, T.band_(c, x[0]))
                vals = [(c, x[1]) for c, x in gs if x[0] is not False]
                if any(x[0] is not True for _, x in gs if x[0] is not False):
                    raise Unsupported('filter condition')
                pairs.append((keep, mkchoice(vals) if len(vals) > 1 else vals[0][1]))
            elif v[0] is not False:
                pairs.append(v)
        if all(k is True for k, _ in pairs):
            return tuple(v for _, v in pairs)
        return FiltSeq(len(pairs), None, tuple(pairs))

    def _comp_rec(self, gens, i, elt, acc, it0=None):
        if i == len(gens):
            self.list_append(acc, self.eval(elt))
            return
        g = gens[i]
        src = it0 if i == 0 else self.eval(g.iter)

        def f(src):
            items = self.iterate(src)
            if isinstance(items, SymSeq):
                raise Unsupported('nested comprehension over unknown length')
            for x in items:
                self.assign(g.target, x)

                def conds(cs):
                    if not cs:
                        self._comp_rec(gens, i + 1, elt, acc)
                        return
                    c = self.truth(self.eval(cs[0]))
                    self.branch(c, lambda: conds(cs[1:]), lambda: None)
                conds(g.ifs)
        self.case(src, f)

    def sym_map(self, seq, g, elt):
        iv = T.fresh_var()
        T.FACTS.bound(iv, 0, P(seq.n) - 1)
        pre = self.st
        self.collect.append([])
        keep = True
        try:
            self.assign(g.target, seq.get(P(iv)))
            for c in g.ifs:
                # evaluated on every element; selecting elements is left to the consumers that can
                keep = T.band_(keep, self.truth(self.eval(c)))
            v = self.eval(elt)
        except Dead:
            v = None
            self.st = None
        finally:
            excs = self.collect.pop()
        if self.st is None and not excs:
            raise Dead()
        post = self.st
        self.st = pre
        if excs:
            ce = 0
            for st, e in excs:
                ce = T.bdd_ite(ce, 1, st.guard)
            cls = {e.cls for _, e in excs}
            if len(cls) != 1:
                raise Unsupported('map raises different exceptions')
            if keep is not True:
                raise Unsupported('filter that may raise')
            self.raise_if(self.exists(mb(T.bdd_restrict(ce, pre.guard)), seq.n, iv), cls.pop())
        if keep is not True:
            return self.filt_seq(iv, seq.n, v, keep)
        return self.seq_from(v, iv, seq.n)

    def filt_seq(self, iv, n, v, keep):
        if keep is False:
            return ()
        return FiltSeq(n, lambda i: (subst_value(keep, {iv: P(i)}), subst_value(v, {iv: P(i)})))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super()
        f = self.eval(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for kk, vv in self.mapping_items(v):
                    if not isinstance(kk, str):
                        raise Unsupported('symbolic keyword name')
                    if kk in kw:
                        self.raise_('TypeError')
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, node=e)

    def make_super(self):
        fr = self.frame
        env = fr.env
        while env is not None and env.cellcls is None:
            env = env.parent
        if env is None:
            raise Unsupported('super() outside a class')
        cls = self.rec(env.cellcls).get('__class__')
        if cls is None:
            raise Unsupported('super() before class creation')
        if not hasattr(fr, 'selfarg'):
            raise Unsupported('super(): no arguments')
        return SuperV(cls, fr.selfarg)

    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        if isinstance(f, Choice):
            return self.case(f, lambda g: self.call(g, args, kw, node))
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.lift:
                return self.lift_call(f, list(args), kw)
            return self.split_joined(lambda a: f.fn(self, a, kw), list(args))
        if isinstance(f, ClassV):
            return self.call_class(f, args, kw)
        if isinstance(f, (StaticV, ClassMV)):
            if isinstance(f, StaticV):
                return self.call(f.fn, args, kw)
            self.raise_('TypeError', 'classmethod not callable')
        if isinstance(f, Inst):
            m = self.mro_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kw, node)
            self.raise_('TypeError', 'not callable')
        if isinstance(f, SNode):
            return self.BI.snode_call(self, f, args, kw)
        if isinstance(f, UF):
            return self.BI.uf_call(self, f, args, kw)
        if isinstance(f, Opaque):
            raise Unsupported('call of opaque %s' % f.name)
        if f is None or isinstance(f, (int, str, tuple, I, B, FStr, ListV, DictV)) or f is NotImplemented:
            self.raise_('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def split_joined(self, run, args):
        """a built-in that has no rule for a gamma node is applied to its alternatives"""
        if not any(isinstance(a, Choice) or isinstance(a, (ListV, DictV, IterV)) for a in args):
            return run(args)
        s0 = self.st
        n = len(self.collect[-1])
        s1 = s0.clone(s0.guard)
        try:
            return run(args)
        except Unsupported as e:
            if not str(e).startswith(('iteration over a joined', 'hash of joined', 'next on joined', 'joined')):
                raise
            for i, a in enumerate(args):
                if isinstance(a, Choice):
                    v, f = a, lambda x: self.split_joined(run, args[:i] + [x] + args[i + 1:])
                    break
                if isinstance(a, (ListV, DictV, IterV)) and isinstance(self.recof(s1, a).get('items'), Choice):
                    def f(x):
                        self.put(a, 'items', x)
                        return self.split_joined(run, args)
                    v = self.recof(s1, a)['items']
                    break
            else:
                raise
            self.st = s1
            del self.collect[-1][n:]
            return self.case(v, f)

    def lift_call(self, f, args, kw):
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                return self.case(a, lambda x: self.lift_call(f, args[:i] + [x] + args[i + 1:], kw))
        return f.fn(self, args, kw)

    def call_func(self, f, args, kw, resume=None):
        ov = self.overrides.get((f.module, f.qual))
        if ov is not None:
            return ov(self, f, args, kw)
        if self.depth > MAXDEPTH:
            raise Unsupported('call depth')
        node = f.node
        env = Env(f.env, 'function', f.module, names=f.locals_[0], globs=f.locals_[1])
        env.func = f
        self.calls.add((f.module, f.qual))
        d = self.bind_args(f, args, kw)
        self.setrec(env, d)
        fr = Frame(f, env)
        a = node.args
        if a.posonlyargs or a.args:
            fr.selfarg = d[(a.posonlyargs + a.args)[0].arg]
        elif a.vararg and d.get(a.vararg.arg):
            fr.selfarg = d[a.vararg.arg][0]
        self.frames.append(fr)
        nframes = len(self.frames)
        self.depth += 1
        if f.isgen:
            fr.yields = ListV()
            fr.resume = resume
            self.setrec(fr.yields, {'items': ()})
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                return v
            self.exec_block(node.body)
            if self.st is not None:
                fr.returns.append((self.st, None))
        finally:
            del self.frames[nframes - 1:]
            self.depth -= 1
        v = self.merge(fr.returns)
        # the frame's scope record is dead unless captured; keep it (closures)
        if f.isgen:
            items = self.rec(fr.yields)['items']
            it = IterV()
            if isinstance(items, Choice):
                self.setrec(it, {'items': items, 'pos': 0})
            else:
                self.setrec(it, {'items': items, 'pos': 0})
            return it
        return v

    def bind_args(self, f, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        d = {}
        args = list(args)
        if len(args) > len(params) and not a.vararg:
            self.raise_('TypeError', 'too many positional arguments for %s' % f.name)
        for p, v in zip(params, args):
            d[p] = v
        if a.vararg:
            d[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params[npos:] or k in kwonly:
                if k in d:
                    self.raise_('TypeError', 'multiple values for %s' % k)
                d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', 'unexpected keyword %s' % k)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in d:
                j = i - (len(params) - nd)
                if j >= 0:
                    d[p] = f.defaults[j]
                else:
                    self.raise_('TypeError', 'missing argument %s of %s' % (p, f.name))
        for k in kwonly:
            if k not in d:
                if k in f.kwdefaults:
                    d[k] = f.kwdefaults[k]
                else:
                    self.raise_('TypeError', 'missing keyword %s' % k)
        if a.kwarg:
            d[a.kwarg.arg] = self.new_dict(extra.items())
        return d

    def call_class(self, c, args, kw):
        m = self.mro_lookup(c.meta, '__call__')
        if isinstance(m, Builtin) or m is None:
            return self.type_call(c, args, kw)
        return self.call(self.bind(m, c, c.meta), args, kw)

    def type_call(self, c, args, kw):
        if c.builtin is not None and (c is self.BI.CLS['type'] or self.BI.CLS['type'] not in c.mro or c.name == 'EnumType'):
            ctor = self.BI.CTORS.get(c.name)
            if ctor is None:
                raise Unsupported('constructor of %s' % c.name)
            return self.split_joined(lambda a: ctor(self, c, a, kw), list(args))
        if self.BI.CLS['EnumType'] in c.meta.mro:
            return self.case(args[0], lambda x: self.enumvalue(self, c, [x] + list(args[1:]), kw)) if args else self.enumvalue(self, c, [], kw)
        new = self.mro_lookup(c, '__new__')
        if isinstance(new, StaticV):
            new = new.fn
        if isinstance(new, Builtin) and new.name == 'object.__new__':
            obj = self.object_new(c, args, kw)
        elif isinstance(new, FuncV):
            obj = self.call(new, [c] + list(args), kw)
        else:
            obj = self.call(new, [c] + list(args), kw)

        def init(o):
            if self.type_of(o) is None or c not in self.type_of(o).mro:
                return o
            i = self.mro_lookup(self.type_of(o), '__init__')
            if isinstance(i, Builtin) and i.name == 'object.__init__':
                n = self.mro_lookup(c, '__new__')
                if (args or kw) and isinstance(n, StaticV) and isinstance(n.fn, Builtin) and n.fn.name == 'object.__new__':
                    self.raise_('TypeError', '%s() takes no arguments' % c.name)
                return o
            self.call(i, [o] + list(args), kw)
            return o
        return self.case(obj, init)

    def object_new(self, c, args, kw):
        if self.BI.is_abc(self, c) and self.abstract_names(c):
            self.raise_('TypeError', 'abstract class')
        o = Inst(c)
        self.setrec(o, {})
        for b in c.mro:
            if b.builtin and b.name in ('BaseException',):
                self.put(o, 'args', tuple(args))
        return o

    def abstract_names(self, c):
        out = []
        seen = set()
        for k in c.mro:
            for n, v in self.rec(k).items():
                if n in seen:
                    continue
                seen.add(n)
                if self.is_abstract(v):
                    out.append(n)
        return out

    def is_abstract(self, v):
        if isinstance(v, FuncV):
            return v.abstract
        if isinstance(v, (StaticV, ClassMV)):
            return self.is_abstract(v.fn)
        if isinstance(v, PropV):
            return any(self.is_abstract(x) for x in (v.fget, v.fset, v.fdel) if x is not None)
        return False

    # ------------------------------------------------------------ types
    def type_of(self, v):
        C = self.BI.CLS
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, ClassV):
            return v.meta
        if isinstance(v, bool) or isinstance(v, B):
            return C['bool']
        if isinstance(v, (int, I)):
            return C['int']
        if v is None:
            return C['NoneType']
        if isinstance(v, (str, FStr, SymStr)):
            return C['str']
        if isinstance(v, tuple):
            return C['tuple']
        if isinstance(v, float):
            return C['float']
        if isinstance(v, SymSeq):
            return C[v.kind]
        if isinstance(v, ListV):
            return C[v.kind]
        if isinstance(v, DictV):
            return C[{'dict': 'dict', 'odict': 'OrderedDict', 'proxy': 'mappingproxy', 'weakval': 'WeakValueDictionary',
                      'weakkey': 'WeakKeyDictionary', 'default': 'defaultdict'}[v.kind]]
        if isinstance(v, FuncV):
            return C['function']
        if isinstance(v, BoundM):
            return C['method']
        if isinstance(v, Builtin):
            return C['builtin_function_or_method']
        if isinstance(v, PropV):
            return C['property']
        if isinstance(v, StaticV):
            return C['staticmethod']
        if isinstance(v, ClassMV):
            return C['classmethod']
        if isinstance(v, (Opaque, UF)):
            return v.cls or C['object']
        if isinstance(v, SNode):
            return self.BI.snode_class(v)
        if isinstance(v, SType):
            return self.BI.stype_class(v)
        if isinstance(v, SliceV):
            return C['slice']
        if isinstance(v, IterV) and v.kind == 'range':
            return C['range']
        if isinstance(v, (IterV, CountV)):
            return C['generator']
        if isinstance(v, ModuleV):
            return C['module']
        if isinstance(v, SuperV):
            return C['super']
        if v is NotImplemented:
            return C['NotImplementedType']
        if v is Ellipsis:
            return C['ellipsis']
        raise Unsupported('type of %r' % (v,))

    def mro_lookup(self, cls, name):
        for k in cls.mro:
            r = self.rec(k)
            if name in r:
                if isinstance(r[name], Poison):
                    raise Unsupported(r[name].why)
                return r[name]
        return None

    def mro_has(self, cls, name):
        return any(name in self.rec(k) for k in cls.mro)

    def is_subclass(self, c, d):
        """nominal subclass test (no hooks)"""
        if d in c.mro:
            return True
        if d.builtin:
            return self.BI.abc_subclass(self, c, d)
        return False

    def same_class(self, a, b):
        """identity of classes. Looking a symbolic key up in a cache of classes counts as a miss unless the key is known to be there; the class
        then made and stored is the one stored under another key exactly when the keys are equal (the lookup would have found it)."""
        if a is b:
            return True
        c = self.aliases.get((a.oid, b.oid) if a.oid < b.oid else (b.oid, a.oid))
        if c is None:
            return False
        return c

    def is_cache(self, d):
        return isinstance(d, DictV) and d.kind in ('weakval', 'weakkey')

    def cache_key(self, key):
        """like canon, but True and 1 (equal keys) are told apart: classes made from them are not interchangeable"""
        def kind(k):
            return tuple(kind(x) for x in k) if isinstance(k, tuple) else 'b' if isinstance(k, (bool, B)) else 'f' if isinstance(k, float) else ''
        return self.canon(key), kind(key)

    def cache_probe(self, d, key, items):
        """remember the entries that a lookup which counts as a miss would have found under a condition"""
        ps = []
        for k, v in items:
            if isinstance(v, ClassV):
                c = self.key_match(None, k, key)
                if c is not False:
                    ps.append((v, c))
        self.probes[d.oid, self.cache_key(key)] = ps

    def cache_store(self, d, key, val, items):
        if not isinstance(val, ClassV):
            return
        ck = self.cache_key(key)
        for v, c in self.probes.get((d.oid, ck), ()):
            self.alias(v, val, c)
        if not any(identical(k, key) for k, _ in items):
            # the same key may have been stored on an exclusive path: one class
            for v in self.stored.get((d.oid, ck), ()):
                self.alias(v, val, True)
            self.cached_as.setdefault(val.oid, ('cached', d.oid, ck))
        self.stored.setdefault((d.oid, ck), []).append(val)

    def alias(self, a, b, c):
        if a is not b:
            self.aliases[(a.oid, b.oid) if a.oid < b.oid else (b.oid, a.oid)] = c
            self.aliased.add(a.oid)
            self.aliased.add(b.oid)

    def issub(self, c, d):
        """issubclass(c, d) with hooks; returns bool/B"""
        if isinstance(d, tuple):
            r = False
            for x in d:
                r = T.bor_(r, self.issub(c, x))
            return r
        if isinstance(c, Choice):
            return self.case(c, lambda x: self.issub(x, d))
        if isinstance(d, Choice):
            return self.case(d, lambda x: self.issub(c, x))
        if not isinstance(d, ClassV):
            self.raise_('TypeError', 'issubclass() arg 2 must be a class')
        hook = self.mro_lookup(d.meta, '__subclasscheck__')
        if isinstance(hook, FuncV):
            return self.truth(self.call(hook, [d, c], {}))
        if not isinstance(c, ClassV):
            self.raise_('TypeError', 'issubclass() arg 1 must be a class')
        return self.nominal_sub(c, d)

    def nominal_sub(self, c, d):
        if self.is_subclass(c, d):
            return True
        # classes of symbolic size
        if d.oid in self.aliased:
            r = False
            for k in c.mro:
                s = self.same_class(k, d)
                r = T.bor_(r, s)
            return r
        return False

    def isinst(self, v, d):
        if isinstance(d, tuple):
            r = False
            for x in d:
                q = self.isinst(v, x)
                if q is True:
                    return True
                r = T.bor_(r, q)
            return r
        if isinstance(v, Choice):
            return self.case(v, lambda x: self.isinst(x, d))
        if isinstance(d, Choice):
            return self.case(d, lambda x: self.isinst(v, x))
        if not isinstance(d, ClassV):
            if isinstance(d, UF) and d.op == 'type':
                return False
            self.raise_('TypeError', 'isinstance() arg 2 must be a type')
        t = self.type_of(v)
        if t is d:
            return True
        hook = self.mro_lookup(d.meta, '__instancecheck__')
        if isinstance(hook, FuncV):
            return self.truth(self.call(hook, [d, v], {}))
        return self.nominal_sub(t, d)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, (bool, B)):
            return v
        if isinstance(v, I):
            return T.ne(v, 0)
        if isinstance(v, Choice):
            return self.case(v, self.truth)
        if v is None:
            return False
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SymSeq):
            return T.ne(v.n, 0)
        if isinstance(v, ListV) or isinstance(v, DictV):
            items = self.rec(v)['items']
            return self.case(items, lambda x: len(x) > 0 if not isinstance(x, SymSeq) else T.ne(x.n, 0))
        if isinstance(v, FStr):
            return True
        if isinstance(v, IterV) and v.kind == 'range':
            return len(self.rec(v)['items']) > 0
        if isinstance(v, Inst):
            m = self.mro_lookup(v.cls, '__bool__')
            if m is not None:
                r = self.call(self.bind(m, v, v.cls), [], {})

                def chk(r):
                    if not is_bool(r):
                        self.raise_('TypeError', '__bool__ should return bool')
                    return r
                return self.case(r, chk)
            m = self.mro_lookup(v.cls, '__len__')
            if m is not None:
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            return True
        if isinstance(v, SNode):
            return self.BI.snode_truth(self, v)
        if isinstance(v, UF):
            return B(T._bdd_var(T.atom('truth', (self.canon(v),), 'bool')))
        if isinstance(v, ClassV):
            m = self.mro_lookup(v.meta, '__bool__') or self.mro_lookup(v.meta, '__len__')
            if m is not None and not isinstance(m, Builtin):
                return self.truth(self.call(self.bind(m, v, v.meta), [], {}))
            return True
        if isinstance(v, (FuncV, BoundM, Builtin, ModuleV, IterV, PropV, StaticV, ClassMV, SuperV, SliceV)):
            return True
        if isinstance(v, Opaque):
            if 'truth' in v.attrs:
                return v.attrs['truth']
            return True
        if v is NotImplemented:
            raise Unsupported('truth of NotImplemented')
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ attributes
    def has_data_descr(self, attr):
        if isinstance(attr, PropV):
            return True
        if isinstance(attr, Inst):
            return self.mro_has(attr.cls, '__set__') or self.mro_has(attr.cls, '__delete__')
        return False

    def bind(self, attr, obj, cls):
        """descriptor protocol for an attribute found on the type of obj"""
        if isinstance(attr, Choice):
            return self.case(attr, lambda a: self.bind(a, obj, cls))
        if isinstance(attr, Builtin) and (attr.name.startswith(('operator.', 'math.')) or attr.name in self.BI.BUILTINS):
            return attr          # built-in functions are no descriptors
        if isinstance(attr, (FuncV, Builtin)):
            return BoundM(attr, obj)
        if isinstance(attr, StaticV):
            return attr.fn
        if isinstance(attr, ClassMV):
            return BoundM(attr.fn, cls)
        if isinstance(attr, PropV):
            if attr.fget is None:
                self.raise_('AttributeError', 'unreadable')
            return self.call(attr.fget, [obj], {})
        if isinstance(attr, Inst):
            g = self.mro_lookup(attr.cls, '__get__')
            if g is not None:
                return self.call(g, [attr, obj, cls], {})
        if attr is ABSENT:
            self.raise_('AttributeError')
        return attr

    def class_bind(self, attr, cls):
        """attribute found in cls's own mro, accessed through the class"""
        if isinstance(attr, StaticV):
            return attr.fn
        if isinstance(attr, ClassMV):
            return BoundM(attr.fn, cls)
        if isinstance(attr, Inst):
            g = self.mro_lookup(attr.cls, '__get__')
            if g is not None:
                return self.call(g, [attr, None, cls], {})
        return attr

    def getattr(self, o, name, default=UNBOUND):
        if isinstance(o, Choice):
            return self.case(o, lambda x: self.getattr(x, name, default))
        if default is not UNBOUND:
            # getattr with default: AttributeError -> default
            self.collect.append([])
            try:
                try:
                    v = self.getattr(o, name)
                    live = self.st
                except Dead:
                    live = None
                    v = None
            finally:
                excs = self.collect.pop()
            outs = []
            if live is not None:
                outs.append((live, v))
            for st, e in excs:
                es = e if not isinstance(e, Choice) else None
                if es is not None and self.exc_class('AttributeError') in es.cls.mro:
                    outs.append((st, default))
                else:
                    self.collect[-1].append((st, e))
            return self.merge(outs)
        if isinstance(o, Inst):
            ga = self.mro_lookup(o.cls, '__getattribute__')
            if ga is not None and not isinstance(ga, Builtin):
                return self.call(ga, [o, name], {})
            return self.generic_getattr(o, name)
        if isinstance(o, ClassV):
            return self.class_getattr(o, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, ModuleV):
            if o.attrs == 'repo':
                env = self.modules.get(o.name) or self.import_module(o.name)
                r = self.rec(env)
                if name in r:
                    if isinstance(r[name], Poison):
                        raise Unsupported(r[name].why)
                    return r[name]
                if (o.name + '.' + name) in self.modules:
                    return ModuleV(o.name + '.' + name, 'repo')
                self.raise_('AttributeError', name)
            return self.BI.module_attr(self, o, name)
        return self.BI.builtin_getattr(self, o, name)

    def generic_getattr(self, o, name):
        cls = o.cls
        attr = self.mro_lookup(cls, name)
        if attr is not None and self.has_data_descr(attr):
            return self.bind(attr, o, cls)
        r = self.rec(o)
        if name == 'args' and r.get('%eng'):
            raise Unsupported('arguments of an exception raised by a library function')
        if name in r:
            v = r[name]
            if isinstance(v, Choice) and any(x is ABSENT for _, x in v.alts):
                def f(x):
                    if x is ABSENT:
                        self.raise_('AttributeError', name)
                    return x
                return self.case(v, f)
            if v is not ABSENT:
                return v
        if attr is not None or self.mro_has(cls, name):
            return self.bind(attr, o, cls)
        if name == '__class__':
            return cls
        if name == '__dict__':
            return self.new_dict(r.items())
        g = self.mro_lookup(cls, '__getattr__')
        if g is not None:
            return self.call(g, [o, name], {})
        self.BI.real_attr(self, cls.mro, name)
        self.raise_('AttributeError', name)

    def class_getattr(self, c, name):
        m = self.mro_lookup(c.meta, name)
        if m is not None and self.has_data_descr(m):
            return self.bind(m, c, c.meta)
        if name == '__name__':
            return self.rec(c).get('%name', c.name)
        if name == '__qualname__':
            return self.rec(c).get('%qualname', c.name)
        if name == '__bases__':
            return c.bases
        if name == '__mro__':
            return c.mro
        if name == '__class__':
            return c.meta
        if name == '__dict__':
            return self.new_dict([kv for kv in self.rec(c).items() if not kv[0].startswith('%')], 'proxy')
        if name == '__abstractmethods__':
            return self.new_list(self.abstract_names(c), 'frozenset')
        for k in c.mro:
            r = self.rec(k)
            if name in r:
                return self.case(r[name], lambda a: self.class_bind(a, c))
        if m is not None:
            return self.bind(m, c, c.meta)
        g = self.mro_lookup(c.meta, '__getattr__')
        if g is not None:
            return self.call(g, [c, name], {})
        if name in ('__doc__',):
            return None
        if name == '__module__':
            return c.module
        self.BI.real_attr(self, c.mro, name)
        self.BI.real_attr(self, c.meta.mro, name)
        self.raise_('AttributeError', name)

    def super_getattr(self, s, name):
        o = s.obj

        def f(o):
            if isinstance(o, ClassV) and s.cls in o.mro:
                mro, isclass = o.mro, True
            else:
                mro, isclass = self.type_of(o).mro, False
            if s.cls not in mro:
                self.raise_('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
            i = mro.index(s.cls)
            for k in mro[i + 1:]:
                r = self.rec(k)
                if name in r:
                    a = r[name]
                    if isclass:
                        return self.class_bind(a, o)
                    return self.bind(a, o, self.type_of(o))
            self.BI.real_attr(self, mro[i + 1:], name)
            self.raise_('AttributeError', name)
        return self.case(o, f)

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            return self.case(o, lambda x: self.setattr(x, name, v))
        if isinstance(o, Inst):
            sa = self.mro_lookup(o.cls, '__setattr__')
            if sa is not None and not isinstance(sa, Builtin):
                self.call(sa, [o, name, v], {})
                return
            return self.generic_setattr(o, name, v)
        if isinstance(o, ClassV):
            sa = self.mro_lookup(o.meta, '__setattr__')
            if sa is not None and not isinstance(sa, Builtin):
                self.call(sa, [o, name, v], {})
                return
            m = self.mro_lookup(o.meta, name)
            if isinstance(m, PropV):
                if m.fset is None:
                    self.raise_('AttributeError', name)
                self.call(m.fset, [o, v], {})
                return
            if name in ('__name__', '__qualname__'):
                name = '%' + name[2:-2]
            self.put(o, name, v)
            return
        if isinstance(o, FuncV):
            self.put(o, name, v)
            return
        if isinstance(o, ModuleV) and o.attrs == 'repo':
            self.put(self.modules[o.name], name, v)
            return
        if o is None or isinstance(o, (int, str, tuple, I, B)):
            self.raise_('AttributeError', name)
        if isinstance(o, BoundM):
            self.raise_('AttributeError', name)
        raise Unsupported('setattr on %r' % (o,))

    def generic_setattr(self, o, name, v):
        attr = self.mro_lookup(o.cls, name)
        if isinstance(attr, PropV):
            if attr.fset is None:
                self.raise_('AttributeError', name)
            self.call(attr.fset, [o, v], {})
            return
        if isinstance(attr, Inst):
            st = self.mro_lookup(attr.cls, '__set__')
            if st is not None:
                self.call(st, [attr, o, v], {})
                return
        slots = self.slots(o.cls)
        if slots is not None and name not in slots:
            self.raise_('AttributeError', name)
        self.put(o, name, v)

    def delattr(self, o, name):
        if isinstance(o, Choice):
            return self.case(o, lambda x: self.delattr(x, name))
        if not isinstance(o, (Inst, ClassV)):
            raise Unsupported('delattr on %r' % (o,))
        da = self.mro_lookup(o.cls if isinstance(o, Inst) else o.meta, '__delattr__')
        if da is not None and not isinstance(da, Builtin):
            self.call(da, [o, name], {})
            return
        return self.generic_delattr(o, name)

    def generic_delattr(self, o, name):
        if isinstance(o, Inst):
            attr = self.mro_lookup(o.cls, name)
            if isinstance(attr, PropV):
                f = getattr(attr, 'fdel', None)
                if f is None:
                    self.raise_('AttributeError', name)
                self.call(f, [o], {})
                return
            if isinstance(attr, Inst):
                dl = self.mro_lookup(attr.cls, '__delete__')
                if dl is not None:
                    self.call(dl, [attr, o], {})
                    return
        if name not in self.rec(o):
            self.raise_('AttributeError', name)
        self.delkey(o, name)

    def slots(self, cls):
        out = set()
        for k in cls.mro:
            if k.builtin:
                continue
            r = self.rec(k)
            if '__slots__' not in r:
                return None
            s = r['__slots__']
            if isinstance(s, str):
                s = (s,)
            try:
                out.update(self.iterate(s))
            except Unsupported:
                return None
        return out

    # ------------------------------------------------------------ containers
    def new_list(self, items, kind='list'):
        l = ListV(kind)
        if kind in ('set', 'frozenset'):
            return self.make_set(items, kind)
        self.setrec(l, {'items': items if isinstance(items, (SymSeq, Choice)) else tuple(items)})
        return l

    def make_set(self, items, kind='set'):
        l = ListV(kind)
        out = []
        for x in items:
            if not any(self.eq_known(x, y) for y in out):
                out.append(x)
        self.setrec(l, {'items': tuple(out)})
        return l

    def eq_known(self, a, b):
        if identical(a, b):
            return True
        if isinstance(a, (ClassV, FuncV)) or isinstance(b, (ClassV, FuncV)):
            r = self.same_class(a, b) if isinstance(a, ClassV) and isinstance(b, ClassV) else False
        else:
            r = self.truth(self.compare('Eq', a, b))
        k = self.known(r)
        if k is None:
            if isinstance(a, (I, B)) or isinstance(b, (I, B)):
                raise Unsupported('undetermined equality in a container')
            raise Unsupported('undetermined equality in a container')
        return k

    def new_iter(self, items):
        it = IterV()
        self.setrec(it, {'items': items if isinstance(items, (SymSeq, Choice)) else tuple(items), 'pos': 0})
        return it

    def new_dict(self, items, kind='dict'):
        d = DictV(kind)
        self.setrec(d, {'items': tuple((k, v) for k, v in items)})
        return d

    def list_append(self, l, v):
        items = self.rec(l)['items']

        def f(it):
            if isinstance(it, SymSeq):
                raise Unsupported('append to symbolic list')
            return it + (v,)
        if isinstance(items, Choice):
            self.put(l, 'items', Choice([(g, f(x)) for g, x in items.alts]))
        else:
            self.put(l, 'items', f(items))

    def iterate(self, v):
        """python list of values, or SymSeq"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, FiltSeq):
            if v.pairs is None:
                raise Unsupported('filter over a sequence of unknown length')
            acc = self.new_list(())
            for c, x in v.pairs:
                self.branch(c, lambda: self.list_append(acc, x), lambda: None)
            return self.iterate(acc)
        if isinstance(v, ListV):
            it = self.rec(v)['items']
            if isinstance(it, Choice):
                raise Unsupported('iteration over a joined list')
            return it if isinstance(it, SymSeq) else list(it)
        if isinstance(v, IterV):
            r = self.rec(v)
            it = r['items']
            if isinstance(it, Choice) or isinstance(r['pos'], Choice):
                raise Unsupported('iteration over a joined iterator')
            if isinstance(it, SymSeq):
                return it
            if v.kind != 'range':
                self.put(v, 'pos', len(it))
            return list(it)[r['pos']:]
        if isinstance(v, DictV):
            it = self.rec(v)['items']
            if isinstance(it, Choice):
                raise Unsupported('iteration over a joined dict')
            return [k for k, _ in it]
        if isinstance(v, Inst) or isinstance(v, ClassV):
            t = self.type_of(v)
            m = self.mro_lookup(t, '__iter__')
            if m is not None and (not isinstance(m, Builtin) or m.name in ('nt.iter', 'EnumType.__iter__')):
                r = self.call(self.bind(m, v, t), [], {})
                if isinstance(r, Inst):
                    raise Unsupported('user iterator')
                return self.iterate(r)
            if isinstance(v, Inst) and self.mro_has(t, '__getitem__') and self.mro_has(t, '__len__'):
                n = self.call(self.BI.BUILTINS['len'], [v], {})
                if is_int(n):
                    # old style iteration protocol: v[0], v[1], ... until IndexError
                    if isinstance(n, int):
                        return [self.getitem(v, i) for i in range(n)]
                    def get(i, v=v):
                        raise Unsupported('iteration through __getitem__')
                    raise Unsupported('iteration through __getitem__')
            self.raise_('TypeError', 'not iterable')
        if isinstance(v, Choice):
            raise Unsupported('iteration over a joined value')
        if v is None or isinstance(v, (int, I, B, FuncV, BoundM)) or v is NotImplemented:
            self.raise_('TypeError', 'not iterable')
        if isinstance(v, SNode):
            self.raise_('TypeError', 'not iterable')
        if isinstance(v, Opaque):
            if 'iter' in v.attrs:
                return self.iterate(v.attrs['iter'])
            self.raise_('TypeError', 'not iterable')
        raise Unsupported('iterate %r' % (v,))

    def mapping_items(self, v):
        if isinstance(v, DictV):
            it = self.rec(v)['items']
            if isinstance(it, Choice):
                raise Unsupported('joined dict')
            return list(it)
        if isinstance(v, Inst):
            ks = self.iterate(self.call(self.getattr(v, 'keys'), [], {})) if self.mro_has(v.cls, 'keys') else self.iterate(v)
            return [(k, self.getitem(v, k)) for k in ks]
        if isinstance(v, ModuleV) or v is None:
            self.raise_('TypeError')
        raise Unsupported('mapping %r' % (v,))

    def key_match(self, d, k, key):
        """equality of a stored key with a lookup key: bool/B"""
        if identical(k, key):
            return True
        if isinstance(k, tuple) and isinstance(key, tuple):
            if len(k) != len(key):
                return False
            r = True
            for x, y in zip(k, key):
                r = T.band_(r, self.key_match(d, x, y))
                if r is False:
                    return False
            return r
        if isinstance(k, ClassV) and isinstance(key, ClassV):
            em = self.mro_lookup(k.meta, '__eq__')
            if em is not None and not isinstance(em, Builtin):
                return self.truth(self.compare('Eq', k, key))
            if isinstance(d, DictV) and d.kind in ('weakval', 'weakkey'):
                return False        # distinct symbolic sizes: class identity is tracked by size
            return self.same_class(k, key)
        if isinstance(k, (ClassV, FuncV)) or isinstance(key, (ClassV, FuncV)):
            return False
        if is_num(k) and is_num(key):
            if isinstance(k, (I, B)) or isinstance(key, (I, B)):
                if isinstance(d, DictV) and d.kind in ('weakval', 'weakkey'):
                    # symbolic cache keys are distinct unless syntactically equal
                    with T.guard_facts(mb(self.st.guard)):
                        return T.eq(k, key) is True
                return T.eq(k, key)
            return k == key
        if isinstance(k, str) and isinstance(key, str):
            return k == key
        if type(k) is not type(key) and (isinstance(k, (str, int, tuple)) and isinstance(key, (str, int, tuple))):
            return False
        if isinstance(k, Inst) or isinstance(key, Inst) or isinstance(k, (Opaque, UF, SNode, ListV, DictV)):
            r = self.compare('Eq', k, key)
            return self.truth(r)
        if k is None or key is None:
            return False
        return self.truth(self.compare('Eq', k, key))

    def dict_find(self, d, key, items=None):
        """[(cond, index)] possible matches in order, plus miss condition"""
        self.hashable(key)
        if items is None:
            items = self.rec(d)['items']
        miss = True
        hits = []
        for i, (k, v) in enumerate(items):
            if identical(k, key):
                return [(True, i)], False
        for i, (k, v) in enumerate(items):
            c = self.simp(self.key_match(d, k, key))
            if c is False:
                continue
            hits.append((T.band_(miss, c), i))
            miss = T.band_(miss, T.bnot_(c))
            if miss is False:
                break
        return hits, miss

    def hashable(self, v):
        if isinstance(v, (ListV,)) and v.kind in ('list', 'set') or isinstance(v, DictV):
            self.raise_('TypeError', 'unhashable')
        if isinstance(v, tuple):
            for x in v:
                self.hashable(x)
        if isinstance(v, Inst):
            h = self.mro_lookup(v.cls, '__hash__')
            if h is None and self.mro_has(v.cls, '__hash__'):
                self.raise_('TypeError', 'unhashable')

    def dict_items(self, d, f):
        """run f(items tuple) for each possible content"""
        items = self.rec(d)['items']
        return self.case(items, f)

    def dict_get(self, d, key, default=UNBOUND):
        if isinstance(key, Choice):
            return self.case(key, lambda k: self.dict_get(d, k, default))

        def f(items):
            hits, miss = self.dict_find(d, key, items)
            if self.is_cache(d):
                self.cache_probe(d, key, items)

            def go(hs):
                if not hs:
                    if default is UNBOUND:
                        if isinstance(d, DictV) and d.kind == 'default':
                            fac = self.rec(d).get('factory')
                            v = self.call(fac, [], {})
                            self.dict_set(d, key, v)
                            return v
                        self.raise_('KeyError', key)
                    return default
                c, i = hs[0]
                return self.branch(c, lambda: items[i][1], lambda: go(hs[1:]))
            return go(hits)
        return self.dict_items(d, f)

    def dict_has(self, d, key):
        if isinstance(key, Choice):
            return self.case(key, lambda k: self.dict_has(d, k))

        def f(items):
            hits, miss = self.dict_find(d, key, items)
            if self.is_cache(d):
                self.cache_probe(d, key, items)
            return T.bnot_(miss)
        return self.dict_items(d, f)

    def dict_set(self, d, key, val):
        if isinstance(d, DictV) and d.kind == 'proxy':
            self.raise_('TypeError', 'mappingproxy is read-only')
        if isinstance(key, Choice):
            return self.case(key, lambda k: self.dict_set(d, k, val))
        items = self.rec(d)['items']

        def f(items):
            hits, miss = self.dict_find(d, key, items)
            if self.is_cache(d):
                self.cache_store(d, key, val, items)
            new = list(items)
            for c, i in hits:
                k, v = new[i]
                new[i] = (k, val if c is True else mkchoice([(c, val), (T.bnot_(c), v)]))
            if miss is False:
                self.put(d, 'items', tuple(new))
                return
            if miss is True:
                self.put(d, 'items', tuple(new) + ((key, val),))
                return

            def t():
                self.put(d, 'items', items + ((key, val),))

            def e():
                self.put(d, 'items', tuple(new))
            self.branch(miss, t, e)
        self.case(items, f)

    def dict_update(self, d, other):
        if isinstance(other, Choice):
            return self.case(other, lambda o: self.dict_update(d, o))
        if isinstance(other, (DictV, Inst)):
            for k, v in self.mapping_items(other):
                self.dict_set(d, k, v)
        else:
            for kv in self.iterate(other):
                k, v = self.iterate(kv)
                self.dict_set(d, k, v)

    def dict_del(self, d, key):
        if isinstance(d, DictV) and d.kind == 'proxy':
            self.raise_('TypeError')

        def f(items):
            hits, miss = self.dict_find(d, key, items)
            if miss is True:
                self.raise_('KeyError')
            if len(hits) == 1 and miss is False and hits[0][0] is True:
                i = hits[0][1]
                self.put(d, 'items', items[:i] + items[i + 1:])
                return items[i][1]
            raise Unsupported('symbolic delete')
        return self.dict_items(d, f)

    # -- subscripts
    def getitem(self, o, k):
        if isinstance(o, Choice):
            return self.case(o, lambda x: self.getitem(x, k))
        if isinstance(k, Choice):
            return self.case(k, lambda x: self.getitem(o, x))
        if isinstance(o, (Inst, ClassV)):
            t = self.type_of(o)
            m = self.mro_lookup(t, '__getitem__')
            if m is None and isinstance(o, ClassV):
                cg = self.mro_lookup(o, '__class_getitem__')
                if cg is not None:
                    return self.call(self.class_bind(cg, o), [k], {})
                if o.builtin:
                    return Opaque('generic alias', None)
            if m is None:
                self.raise_('TypeError', 'not subscriptable')
            return self.call(self.bind(m, o, t), [k], {})
        if isinstance(o, DictV):
            return self.dict_get(o, k)
        if isinstance(o, (tuple, ListV, str, SymSeq, IterV)):
            seq = o
            if isinstance(o, ListV):
                if o.kind != 'list':
                    self.raise_('TypeError')
                seq = self.rec(o)['items']
                if isinstance(seq, Choice):
                    return self.case(seq, lambda s: self.seq_index(s, k, 'list'))
                return self.seq_index(seq, k, 'list')
            if isinstance(o, IterV):
                if o.kind != 'range':
                    self.raise_('TypeError')
                seq = self.rec(o)['items']
                if isinstance(k, SliceV):
                    x = self.new_iter(list(self.seq_slice(seq, k, 'tuple')))
                    x.kind = 'range'
                    return x
                return self.seq_index(seq, k, 'list')
            return self.seq_index(seq, k, 'tuple' if isinstance(o, tuple) else 'str' if isinstance(o, str) else 'list')
        if isinstance(o, SNode):
            return self.BI.snode_getitem(self, o, k)
        if isinstance(o, (int, I, B)) or o is None or isinstance(o, (FuncV, BoundM)):
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, (Opaque, UF)):
            if isinstance(o, Opaque) and o.name.startswith('tp.'):
                return Opaque('tp.alias', None)
            raise Unsupported('subscript of %r' % (o,))
        raise Unsupported('subscript of %r' % (o,))

    def to_index(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, B):
            return T.ind(k)
        if is_int(k):
            return k
        if isinstance(k, Inst):
            m = self.mro_lookup(k.cls, '__index__')
            if m is not None:
                return self.call(self.bind(m, k, k.cls), [], {})
        self.raise_('TypeError', 'indices must be integers')

    def seq_index(self, seq, k, kind):
        if isinstance(k, SliceV):
            return self.seq_slice(seq, k, kind)
        k = self.to_index(k)
        n = len(seq) if not isinstance(seq, SymSeq) else seq.n
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                self.raise_('IndexError')
            return seq[k]
        if isinstance(seq, SymSeq):
            kp = P(k)
            bad = T.bor_(T.lt(kp, T.mul(-1, n)), T.ge(kp, n))
            self.raise_if(bad, 'IndexError')
            neg = T.lt(kp, 0)
            kk = self.known(neg)
            if kk is True:
                return seq.get(T.add(kp, n))
            if kk is False:
                return seq.get(kp)
            return self.branch(neg, lambda: seq.get(T.add(kp, n)), lambda: seq.get(kp))
        # symbolic index into a concrete sequence
        kp = P(k)
        self.raise_if(T.bor_(T.lt(kp, -n), T.ge(kp, n)), 'IndexError')
        alts = []
        for i in range(n):
            alts.append((T.bor_(T.eq(kp, i), T.eq(kp, i - n)), seq[i]))
        if not alts:
            raise Dead()
        return mkchoice(alts)

    def slice_bound(self, b, n, default):
        """python slice clamping for step 1"""
        if b is None:
            return default
        b = self.to_index(b)
        if isinstance(b, int) and isinstance(n, int):
            if b < 0:
                return max(0, b + n)
            return min(b, n)
        b, n = P(b), P(n)
        bn = T.add(b, n)
        with T.guard_facts(mb(self.st.guard)):
            neg = T.iite(T.lt(bn, 0), 0, bn)
            pos = T.iite(T.lt(n, b), n, b)
            r = T.iite(T.lt(b, 0), neg, pos)
        return norm_int(r)

    def seq_slice(self, seq, s, kind):
        st = s.step
        if st is None:
            st = 1
        for b in (s.start, s.stop, s.step):
            if isinstance(b, Choice):
                raise Unsupported('joined slice bound')
        if not isinstance(st, int):
            raise Unsupported('symbolic slice step')
        if isinstance(seq, SymSeq) or isinstance(s.start, (I, B)) or isinstance(s.stop, (I, B)) or isinstance(s.start, Inst) or isinstance(s.stop, Inst):
            if not isinstance(seq, SymSeq):
                if len({True}) and isinstance(seq, (tuple, list)):
                    raise Unsupported('symbolic slice of a concrete sequence')
            n = seq.n
            if st == 1:
                lo = self.slice_bound(s.start, n, 0)
                hi = self.slice_bound(s.stop, n, n)
                lo, hi = P(lo), P(hi)
                ln = T.sub(hi, lo)
                with T.guard_facts(mb(self.st.guard)):
                    ln = T.iite(T.lt(ln, 0), 0, T.refresh(ln))
                out = SymSeq(ln, lambda i, lo=lo: seq.get(T.add(lo, i)), seq.kind)
                return out if not isinstance(norm_int(ln), int) or norm_int(ln) > 16 else self.concretise(out, kind)
            if st == -1 and s.start is None and s.stop is None:
                return SymSeq(n, lambda i: seq.get(T.sub(T.sub(n, 1), i)), seq.kind)
            raise Unsupported('slice step')
        r = seq[slice(s.start, s.stop, st)]
        if kind == 'list':
            return self.new_list(r)
        return r

    def concretise(self, s, kind='list'):
        n = norm_int(s.n)
        items = [s.get(P(i)) for i in range(n)]
        return self.new_list(items) if kind == 'list' else tuple(items)

    def setitem(self, o, k, v):
        if isinstance(o, Choice):
            return self.case(o, lambda x: self.setitem(x, k, v))
        if isinstance(k, Choice):
            return self.case(k, lambda x: self.setitem(o, x, v))
        if isinstance(o, (Inst, ClassV)):
            t = self.type_of(o)
            m = self.mro_lookup(t, '__setitem__')
            if m is None:
                self.raise_('TypeError', 'no item assignment')
            self.call(self.bind(m, o, t), [k, v], {})
            return
        if isinstance(o, DictV):
            return self.dict_set(o, k, v)
        if isinstance(o, ListV) and o.kind == 'list':
            items = self.rec(o)['items']
            if isinstance(items, (SymSeq, Choice)):
                raise Unsupported('item assignment in a symbolic list')
            if isinstance(k, SliceV):
                if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    l = list(items)
                    vi = self.iterate(v)
                    if isinstance(vi, SymSeq):
                        raise Unsupported('slice assignment')
                    l[slice(k.start, k.stop, k.step)] = vi
                    self.put(o, 'items', tuple(l))
                    return
                raise Unsupported('slice assignment')
            k = self.to_index(k)
            n = len(items)
            if isinstance(k, int):
                if not -n <= k < n:
                    self.raise_('IndexError')
                l = list(items)
                l[k] = v
                self.put(o, 'items', tuple(l))
                return
            self.raise_if(T.bor_(T.lt(k, -n), T.ge(k, n)), 'IndexError')
            l = []
            for i, x in enumerate(items):
                c = T.bor_(T.eq(k, i), T.eq(k, i - n))
                l.append(mkchoice([(c, v), (T.bnot_(c), x)]))
            self.put(o, 'items', tuple(l))
            return
        if isinstance(o, (tuple, str, int, I, B)) or o is None:
            self.raise_('TypeError', 'no item assignment')
        raise Unsupported('setitem on %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, DictV):
            self.dict_del(o, k)
            return
        if isinstance(o, ListV):
            items = self.rec(o)['items']
            if isinstance(items, tuple) and isinstance(k, int):
                l = list(items)
                if not -len(l) <= k < len(l):
                    self.raise_('IndexError')
                del l[k]
                self.put(o, 'items', tuple(l))
                return
        raise Unsupported('del item')

    # ------------------------------------------------------------ operators
    def canon(self, v):
        """hashable structural key of a value (used inside uninterpreted atoms)"""
        if isinstance(v, (I, B, str, int)) or v is None:
            return v if not isinstance(v, int) or isinstance(v, bool) else P(v)
        if isinstance(v, tuple):
            return tuple(self.canon(x) for x in v)
        if isinstance(v, UF):
            return (v.op,) + tuple(self.canon(x) for x in v.args)
        if isinstance(v, Opaque):
            return '$' + v.name
        if isinstance(v, ClassV):
            return self.cached_as.get(v.oid) or ('class', v.name, v.oid)
        if isinstance(v, SNode):
            return ('snode', v.fam, v.sort, v.den, v.w)
        if isinstance(v, FStr):
            return ('fstr',) + tuple(self.canon(p) for p in v.parts)
        if isinstance(v, Inst):
            return ('inst', v.oid)
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, (ListV, DictV)):
            items = self.rec(v)['items']
            if isinstance(items, tuple):
                return (v.kind,) + tuple(self.canon(x) for x in items)
        if isinstance(v, SymSeq):
            dv = T.depth_var(3)
            return ('symseq', v.n, self.canon(v.get(P(dv))))
        if isinstance(v, SymStr):
            return ('symstr', v.sep, self.canon(v.seq))
        if isinstance(v, Choice):
            return ('choice',) + tuple((g, self.canon(x)) for g, x in v.alts)
        if isinstance(v, (FuncV,)):
            return ('fn', v.oid)
        return ('obj', id(v))

    def unop(self, op, v):
        return self.BI.unop(self, op, v)

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, Choice):
            return self.case(a, lambda x: self.binop(op, x, b, inplace))
        if isinstance(b, Choice):
            return self.case(b, lambda x: self.binop(op, a, x, inplace))
        return self.BI.binop(self, op, a, b, inplace)

    def compare(self, op, a, b):
        if isinstance(a, Choice):
            return self.case(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.case(b, lambda x: self.compare(op, a, x))
        return self.BI.compare(self, op, a, b)


def occurs_value(v, a):
    if isinstance(v, (I, B)):
        return T.occurs(v, a)
    if isinstance(v, tuple):
        return any(occurs_value(x, a) for x in v)
    if isinstance(v, Choice):
        return any(T.occurs(g, a) or occurs_value(x, a) for g, x in v.alts)
    if isinstance(v, FStr):
        return any(occurs_value(x, a) for x in v.parts)
    if isinstance(v, SNode):
        return occurs_value(v.den, a)
    return False


def subst_value(v, mp):
    if isinstance(v, I):
        return norm_int(T.subst(v, mp))
    if isinstance(v, B):
        return T.subst(v, mp)
    if isinstance(v, tuple):
        return tuple(subst_value(x, mp) for x in v)
    if isinstance(v, Choice):
        return mkchoice([(T.subst(g, mp), subst_value(x, mp)) for g, x in v.alts])
    if isinstance(v, FStr):
        return FStr([subst_value(p, mp) for p in v.parts])
    if isinstance(v, SNode):
        return SNode(v.fam, v.sort, subst_value(v.den, mp), v.w)
    if isinstance(v, (Inst, ListV, DictV)):
        raise Unsupported('fresh object per iteration of an unknown-length loop')
    return v
