"""Obligations: expected value-graph vs the one extracted from the source."""
import ctypes
import itertools
import json
import math
import os
import random
import threading
import time
import traceback
from . import terms as T
from .terms import I, B, P, nb, mb
from .values import *
from .interp import State
from .scen import Lab, Result

OK, BAD, UNDECIDED = 'ok', 'violation', 'undecided'


# ----------------------------------------------------------------- random interpretation
SIZES = (1, 2, 3, 4, 5, 7, 8, 16)


def _order(ls):
    """leaves ordered so that bounds only mention earlier leaves"""
    F = T.FACTS
    deps = {}
    todo = list(ls)
    seen = set(todo)
    while todo:
        a = todo.pop()
        d = set()
        for p in F.lo.get(a, []) + F.hi.get(a, []):
            for b in T.leaves([p]):
                if b is not a:
                    d.add(b)
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
        deps[a] = d
    out = []
    pending = sorted(deps, key=lambda a: a.id)
    while pending:
        prog = False
        for a in list(pending):
            if all(b in out for b in deps[a]):
                out.append(a)
                pending.remove(a)
                prog = True
        if not prog:
            out.extend(pending)
            break
    return out


def _path(n, rnd):
    """a random path to 1 in the guard: literals a separating interpretation may satisfy"""
    lits = {}
    while n not in (0, 1):
        a, hi, lo = T._N[n]
        v = rnd.random() < 0.5
        if (hi if v else lo) == 0:
            v = not v
        lits[a] = v
        n = hi if v else lo
    return lits


def _solve(a, eqs, ev, known):
    """value of leaf a forced by an equation linear in it whose other leaves are known"""
    for p in eqs:
        coef, rest = None, []
        for m, c in p.t:
            if m == (a,):
                coef = c
            else:
                rest.append((m, c))
        if coef is None:
            continue
        r = T._mk(dict(rest))
        ls = T.leaves([r])
        if a in ls or any(b not in known for b in ls):
            continue
        try:
            v = -ev.ev(r) / coef
        except Exception:
            continue
        if v == int(v):
            return int(v)
    return None


def _consts(bad):
    """integer constants that comparisons inside the guard mention"""
    ks = set()
    for a in T.atoms_of(bad):
        for p in a.args:
            if isinstance(p, I):
                for m, c in p.t:
                    for x in ((c,) if not m or a.op == 'bw' else ()):
                        if x == int(x) and 1 < abs(x) <= 1 << 130:
                            ks.add(abs(int(x)))
    return sorted(ks)


def _widths(ks):
    """widths at which a constant starts to matter"""
    w = {k for k in ks if k <= 1 << 16}
    for k in ks:
        if k > 16:
            w.update((k.bit_length(), k.bit_length() + 1))
    return sorted(w)


def sample(order, rnd, sizes=SIZES, lits=(), ks=(), ws=()):
    F = T.FACTS
    val = {}
    lits = dict(lits)
    eqs = [a.args[0] for a, v in lits.items() if v and a.op == 'eq0']
    for a in order:
        if a.sort == 'bool':
            val[a] = lits[a] if a in lits else rnd.random() < 0.5
            continue
        ev = T.Eval(val)
        if eqs:
            v = _solve(a, eqs, ev, val)
            if v is not None:
                val[a] = v
                continue
        lo = hi = None
        for p in F.lo.get(a, []):
            v = ev.ev(p)
            lo = v if lo is None else max(lo, v)
        for p in F.hi.get(a, []):
            v = ev.ev(p)
            hi = v if hi is None else min(hi, v)
        if lo is not None and hi is not None and lo > hi:
            return None
        k = rnd.random()
        if lo is not None and hi is None:
            v = lo + rnd.choice((0, 0, 1, 1, 2, 3, 4, 6, 7, 15))
            if ws and k < 0.3:
                v = max(lo, rnd.choice(ws) + rnd.choice((-1, 0, 0, 1, 1, 2, 3)))
        elif lo is None and hi is None:
            known = [x for x in val.values() if isinstance(x, int) and not isinstance(x, bool)]
            c = rnd.choice(known) if known and k < 0.5 else 0
            v = rnd.choice((1, -1)) * c + rnd.randint(-3, 3) if k < 0.75 else rnd.randint(-20, 40)
        elif lo is None:
            v = hi - rnd.randint(0, 9)
        else:
            span = hi - lo
            if ks and k > 0.8:
                x = rnd.choice(ks)
                if x <= 256 and rnd.random() < 0.3:
                    x = 1 << x
                v = min(hi, max(lo, x + rnd.randint(-1, 1)))
            elif k < 0.15:
                v = lo
            elif k < 0.3:
                v = hi
            elif k < 0.45:
                v = lo + (span + 1) // 2
            elif k < 0.55 and span:
                v = min(hi, lo + rnd.randint(0, 3))
            elif k < 0.7 and val:
                known = [x for x in val.values() if isinstance(x, int) and not isinstance(x, bool)]
                c = rnd.choice(known) if known else 0
                v = min(hi, max(lo, c + rnd.randint(-1, 1)))
            else:
                v = lo + (rnd.randrange(span + 1) if span < 1 << 300 else rnd.getrandbits(200))
        val[a] = int(v)
    return val


def witness(bad, tries=600, seed=1):
    """an interpretation of the leaves under which the guard `bad` holds, or None"""
    if bad is True or bad == 1:
        return {}
    if isinstance(bad, int) and not isinstance(bad, bool):
        bad = mb(bad)
    if bad is True:
        return {}
    ls = _order(T.leaves([bad]))
    rnd = random.Random(seed)
    ks = _consts(bad)
    ws = _widths(ks)
    if ws and ws[-1] > 8:
        tries *= 2
    node = nb(bad)
    n0 = len(ls)
    for i in range(tries):
        try:
            val = sample(ls, rnd, lits=_path(node, rnd) if i % 3 else (), ks=ks, ws=ws)
            if val is None:
                continue
            if T.Eval(val).ev(bad):
                return val
        except T.FreeVar:
            # an element of a sequence at any position: positions are chosen like the leaves
            extra = [a for a in T.atoms_of(bad) if a.op == 'var' and T.FACTS.lo.get(a) and T.FACTS.hi.get(a)]
            if len(ls) == n0 and extra:
                ls = ls + [a for a in _order(ls + extra) if a not in ls]
            continue
        except (T.EvalError, ZeroDivisionError, OverflowError, ValueError, RecursionError):
            continue
    return None


def enumerate_all(bad, limit=1 << 12):
    """decides a guard whose leaves all have finite domains: {} when no interpretation satisfies it, one that does, or None"""
    if isinstance(bad, int) and not isinstance(bad, bool):
        bad = mb(bad)
    F = T.FACTS
    ls = _order(T.leaves([bad]))
    doms = []
    size = 1
    for a in ls:
        if a.sort == 'bool':
            doms.append((False, True))
        elif a.sort == 'int':
            try:
                lo = [T.StrictEval({}).ev(p) for p in F.lo.get(a, []) if not T.leaves([p])]
                hi = [T.StrictEval({}).ev(p) for p in F.hi.get(a, []) if not T.leaves([p])]
            except T.EvalError:
                return None
            if not lo or not hi or len(lo) < len(F.lo[a]) or len(hi) < len(F.hi[a]):
                return None
            doms.append(range(math.ceil(max(lo)), math.floor(min(hi)) + 1))
        else:
            return None
        size *= len(doms[-1])
        if size > limit:
            return None
    try:
        for vs in itertools.product(*doms):
            val = dict(zip(ls, vs))
            if T.StrictEval(dict(val)).ev(bad):
                return val
    except (T.EvalError, ZeroDivisionError, OverflowError, ValueError, RecursionError):
        return None
    return {}


def show_val(val):
    return ', '.join('%s=%s' % ('position' if a.op == 'var' else a.args[0] if a.args else a.op, v) for a, v in sorted(val.items(), key=lambda x: x[0].id)) or 'every input'


# ----------------------------------------------------------------- obligations
class OutOfTime(BaseException):
    pass


class Watch:
    """raises OutOfTime in the analysing thread when an obligation takes too long"""

    def __init__(self, tid):
        self.tid = tid
        self.cv = threading.Condition()
        self.due = None
        t = threading.Thread(target=self.loop, daemon=True)
        threading.stack_size(1 << 20)
        t.start()

    def arm(self, seconds):
        with self.cv:
            self.due = time.monotonic() + seconds
            self.cv.notify()

    def disarm(self):
        with self.cv:
            self.due = None

    def loop(self):
        with self.cv:
            while True:
                if self.due is None:
                    self.cv.wait()
                    continue
                left = self.due - time.monotonic()
                if left > 0:
                    self.cv.wait(left)
                    continue
                self.due = None
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(OutOfTime))


# ----------------------------------------------------------------- obligations
class Checker:
    def __init__(self, lab, prop, tier='quick'):
        self.lab = lab
        self.it = lab.it
        self.prop = prop
        self.tier = tier
        self.rows = []           # (rule, construct, status, detail)
        self.t0 = time.time()
        # a check answers within 900 s on a loaded machine; what it could not reach by then is undecided
        self.deadline = self.t0 + float(os.environ.get('HWSA_BUDGET', '600'))
        self.obligation_budget = float(os.environ.get('HWSA_OBLIGATION_BUDGET', '150'))
        self.watch = Watch(threading.get_ident())
        self.timeouts = 0       # each halves the budget of the obligations that follow

    # -- results
    def add(self, rule, construct, status, detail='', loc=None):
        self.rows.append(dict(rule=rule, construct=construct, status=status, detail=detail, loc=loc))

    def loc_of(self, f):
        while isinstance(f, (StaticV, ClassMV, BoundM)):
            f = f.fn
        if isinstance(f, PropV):
            f = f.fget
        if isinstance(f, FuncV):
            p = self.it.sources[f.module][0]
            return '%s:%d %s' % (os.path.relpath(p, self.it.repo), f.node.lineno, f.qual)
        return None

    def method_loc(self, cls, name):
        try:
            f = self.it.mro_lookup(cls, name)
            w = self.it.rec(f).get('__wrapped__') if isinstance(f, FuncV) else None
            while isinstance(w, FuncV):
                f = w
                w = self.it.rec(f).get('__wrapped__')
            return self.loc_of(f)
        except Exception:
            return None

    def oblige(self, rule, construct, *a, **k):
        n = len(self.rows)
        left = self.deadline - time.time()
        if left < 5:
            return self.add(rule, construct, UNDECIDED, 'time budget of the check is used up', k.get('loc'))
        try:
            self.watch.arm(min(max(10.0, self.obligation_budget / 2 ** self.timeouts), left))
            try:
                self._oblige(rule, construct, *a, **k)
            finally:
                self.watch.disarm()
                if self.it.st is None:
                    self.lab.reset()
        except OutOfTime:
            self.timeouts += 1
            del self.rows[n + 1:]
            if len(self.rows) == n:
                self.add(rule, construct, UNDECIDED, 'time budget of the obligation is used up', k.get('loc'))

    def _oblige(self, rule, construct, setup, body, expect, loc=None):
        """setup(ctx) builds operands in a fresh scenario (returns a dict); body(ctx) is the
        analysed call; expect(ctx) -> [(guard, 'ret', pred) | (guard, 'exc', names)]"""
        it, lab = self.it, self.lab
        lab.reset()
        ctx = {}
        try:
            s = lab.run(lambda: setup(ctx))
            if s.st is None and not s.unk and s.excs and isinstance(s.excs[0][1], Inst):
                return self.add(rule, construct, BAD, 'building the operands raises %s%s' % (s.excs[0][1].cls.name, self.exc_arg(*s.excs[0])), loc)
            if s.st is None or s.unk:
                return self.add(rule, construct, UNDECIDED, 'operands: %s' % s, loc)
            if s.excs:
                it.st = s.st       # construction fails only outside the scenario's facts
            r = lab.run(lambda: body(ctx))
            it.st = State(1, {})
            exp = expect(ctx)
            return self.judge(rule, construct, r, exp, loc)
        except Unsupported as e:
            return self.add(rule, construct, UNDECIDED, str(e), loc)
        except Dead:
            return self.add(rule, construct, UNDECIDED, 'dead scenario', loc)
        except (T.TermError, RecursionError, T.EvalError) as e:
            return self.add(rule, construct, UNDECIDED, '%s: %s' % (type(e).__name__, e), loc)
        except Exception as e:
            # a construct the abstract domains do not model: nothing is claimed for this obligation
            if os.environ.get('HWSA_DEBUG'):
                raise
            return self.add(rule, construct, UNDECIDED, 'not modelled: %s: %s' % (type(e).__name__, e), loc)

    def judge(self, rule, construct, r, exp, loc=None):
        it, lab = self.it, self.lab
        und = []
        bads = []        # (guard, text)
        outs = []
        if r.st is not None:
            outs.append(('ret', r.st, r.value))
        for st, e in r.excs:
            outs.append(('exc', st, e))
        for g, m in r.unk:
            for h, kind, x in exp:
                gh = T.bdd_ite(g, nb(h), 0)
                if gh and not self.refuted(gh):
                    und.append(m)
        for kind, st, v in outs:
            for h, ek, x in exp:
                gh = T.bdd_ite(st.guard, nb(h), 0)
                if gh == 0 or self.refuted(gh):
                    continue
                if kind == 'exc':
                    cls = [v] if not isinstance(v, Choice) else [a for _, a in v.alts]
                    names = {c.cls.name for c in cls}
                    if ek == 'exc' and (x == '*' or all(self.exc_ok(c, x) for c in cls)):
                        continue
                    bads.append((gh, 'raises %s%s, expected %s' % ('/'.join(map(str, sorted(map(str, names)))), self.exc_arg(st, cls[0]),
                                                                    'a value' if ek == 'ret' else '/'.join(x))))
                    continue
                if ek == 'exc':
                    bads.append((gh, 'returns %s, expected %s' % (self.show(v), '/'.join(x) if x != '*' else 'an exception')))
                    continue
                it.st = st.clone(gh)
                q = lab.run(lambda: it.case(v, x) if not getattr(x, 'whole', False) else x(v))
                for g, m in q.unk:
                    und.append('comparison: ' + m)
                for s2, e in q.excs:
                    if s2.guard and not self.refuted(s2.guard):
                        bads.append((s2.guard, 'observing the result raises %s' % (e.cls.name if isinstance(e, Inst) else e)))
                if q.st is not None:
                    c = q.value
                    if isinstance(c, Choice):
                        und.append('comparison not boolean')
                        continue
                    if c is True:
                        continue
                    b = T.bdd_ite(q.st.guard, T.bdd_ite(nb(c), 0, 1), 0)
                    if b == 0:
                        continue
                    it.st = q.st
                    if it.known(c) is True:
                        continue
                    bads.append((b, 'result %s differs from %s' % (self.show(v), getattr(x, 'text', 'the specified value'))))
        viol = None
        for g, txt in bads:
            if g == 0 or self.refuted(g):
                continue
            w = witness(g)
            if w is None:
                w = enumerate_all(g)
                if w == {}:
                    continue
            if w is not None:
                viol = '%s [for %s]' % (txt, show_val(w))
                break
            und.append('normal forms differ without a separating interpretation: %s' % txt)
        if viol:
            self.add(rule, construct, BAD, viol, loc)
        elif und:
            self.add(rule, construct, UNDECIDED, '; '.join(sorted(set(und)))[:600], loc)
        elif not outs:
            self.add(rule, construct, UNDECIDED, 'no outcome', loc)
        else:
            self.add(rule, construct, OK, '', loc)

    def exc_arg(self, st, e):
        a = (st.heap.get(e.oid) or {}).get('args') or ()
        a = [str(x) for x in a if isinstance(x, (str, int))]
        return '(%s)' % ', '.join(a) if a else ''

    def exc_ok(self, e, names):
        ns = set()
        for c in e.cls.mro:
            ns.add(c.name)
        return any(n in ns for n in names)

    def refuted(self, g):
        if g == 0:
            return True
        if g == 1:
            return False
        try:
            if not self.it.feasible(g):
                return True
        except T.TermError:
            pass
        # every cube refuted by the arithmetic rules
        try:
            cubes = list(T.bdd_cubes(g, 32))
        except Exception:
            return self.it.infeasible(g)
        if not cubes or len(cubes) >= 32:
            return self.it.infeasible(g)
        for c in cubes:
            if not self.cube_refuted(c):
                return False
        return True

    def cube_refuted(self, c):
        n = 1
        lits = dict(c)
        for a, v in lits.items():
            x = T._bdd_var(a)
            n = T.bdd_ite(n, x if v else T.bdd_ite(x, 0, 1), 0)
        return n == 0 or self.it.contradictory(n, lits)

    def show(self, v):
        s = repr(v)
        if isinstance(v, Inst):
            try:
                r = self.it.rec(v)
                if r:
                    s = '%s%r' % (v.cls.name if isinstance(v.cls.name, str) else v, {k: x for k, x in r.items() if not k.startswith('%')})
            except Exception:
                pass
        return s[:300]
