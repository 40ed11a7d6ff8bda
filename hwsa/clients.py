"""Client functions analysed with the package: their parameters are abstract, their assertions are the obligations.

Parameter annotations (strings):
  int nat bool           symbolic integer / natural / Boolean
  nat<N  a..b            bounded
  A|B0|None|int ...      one of several kinds of value, unknown which (fresh instances of fixture classes)
  class:A|B0             one of several classes
  BitVector[n] etc.      vector of that class, symbolic width n (shared by name; `n>1` constrains), symbolic value
  Bit, SMTBit, ...       bit with symbolic value
Docstring: 'module.Qual.name: rule text' anchors the obligation in the package source."""
import ast
import re
from . import terms as T
from .terms import P, B, nb
from .values import *
from .check import UNDECIDED
from .spec import Fam, pred

VEC = {}


def families(lab):
    out = {}
    for k in ('py', 'smt', 'z3'):
        F = Fam(lab, k)
        for c in (F.BV, F.U, F.S):
            out[c.name] = (F, c)
        out[F.Bit.name] = (F, F.Bit)
    return out


class Args:
    def __init__(self, ck, mod):
        self.ck, self.lab, self.it, self.mod = ck, ck.lab, ck.it, mod
        self.fam = families(ck.lab)
        self.sizes = {}

    def cls(self, name):
        g = self.it.rec(self.it.modules['fixture_' + self.mod])
        if name in g:
            return g[name]
        return None

    def split(self, s):
        return [x.strip() for x in s.split('|')]

    def choice(self, name, alts):
        if len(alts) == 1:
            return alts[0]
        out, rest = [], True
        for i, v in enumerate(alts):
            if i == len(alts) - 1:
                g = rest
            else:
                k = self.lab.bool('%s?%d' % (name, i))
                g = T.band_(rest, k)
                rest = T.band_(rest, T.bnot_(k))
            out.append((g, v))
        return Choice(out)

    def size(self, e):
        e = e.strip()
        if re.fullmatch(r'\d+', e):
            return int(e)
        m = re.fullmatch(r'(\w+)(?:\s*>=\s*(\d+))?', e)
        n, lo = m.group(1), int(m.group(2) or 1)
        if n not in self.sizes:
            self.sizes[n] = self.lab.size(n, lo)
        return self.sizes[n]

    def value(self, name, kind):
        it, L = self.it, self.lab
        if kind == 'int':
            return L.int(name)
        if kind == 'nat':
            return L.nat(name, 0)
        if kind == 'bool':
            return L.bool(name)
        if kind == 'None':
            return None
        m = re.fullmatch(r'size(?:\s*>=\s*(\d+))?', kind)
        if m:
            return self.size('%s>=%s' % (name, m.group(1) or 1))
        if kind == 'str':
            return name
        if kind.startswith('lit:'):
            return kind[4:]
        m = re.fullmatch(r'(-?\d+)\.\.(-?\d+)', kind)
        if m:
            return L.nat(name, int(m.group(1)), int(m.group(2)))
        m = re.fullmatch(r'(\w+)\[(.*)\]', kind)
        if m and m.group(1) in self.fam:
            F, c = self.fam[m.group(1)]
            n = self.size(m.group(2))
            return F.val(F.vec(c, n), L.uint(name, n), n)
        if kind in self.fam:
            F, c = self.fam[kind]
            return F.bit(L.bool(name))
        if kind.startswith('class:'):
            return self.choice(name, [self.cls(x) for x in self.split(kind[6:])])
        if kind.startswith('func:'):
            return self.cls(kind[5:])
        c = self.cls(kind)
        if c is None:
            raise Unsupported('fixture parameter kind %r' % kind)
        return it.call(c, [], {}) if isinstance(c, ClassV) else c

    def build(self, name, ann):
        if ann.startswith('class:'):
            return self.value(name, ann)
        ks = self.split(ann)
        return self.choice(name, [self.value(name if len(ks) == 1 else '%s_%d' % (name, i), k) for i, k in enumerate(ks)])


def anchor(ck, where):
    """'adt.Tuple.__init__' -> source location"""
    parts = where.split('.')
    try:
        v = ck.lab.mod(parts[0])[parts[1]]
        for p in parts[2:]:
            if isinstance(v, ClassV):
                f = None
                for c in v.mro:
                    r = ck.it.rec(c)
                    if p in r:
                        f = r[p]
                        break
                if f is None:
                    f = next((ck.it.rec(c)[p] for c in v.meta.mro if p in ck.it.rec(c)), None)
                v = f
        if isinstance(v, ClassV):
            p = ck.it.sources[v.module][0] if v.module in ck.it.sources else None
            return '%s %s' % (where.split('.')[0], v.name) if p is None else 'hwtypes/%s.py %s' % (parts[0], v.name)
        return ck.loc_of(v) or 'hwtypes/%s.py %s' % (parts[0], '.'.join(parts[1:]))
    except Exception:
        return 'hwtypes/%s.py %s' % (parts[0], '.'.join(parts[1:]))


def run_clients(ck, mod, prefix):
    """every function of the fixture module named prefix_* is an obligation"""
    it, L = ck.it, ck.lab
    if mod in L.broken:
        why = L.broken[mod]
        ck.add('a module of client classes can be imported', 'fixture module %s' % mod, 'violation' if 'module body raises' in why else 'undecided', why, None)
        return
    if it.st is None:
        L.reset()
    g = it.rec(it.modules['fixture_' + mod])
    ret = pred('no failed assertion')(lambda v: True)
    for name, f in list(g.items()):
        if not (isinstance(f, FuncV) and name.startswith(prefix + '_')):
            continue
        doc = ast.get_docstring(f.node) or ''
        where, _, rule = doc.partition(':')
        rule = rule.split('\n')[0].strip() or name
        loc = anchor(ck, where.strip()) if where else None
        args = [(a.arg, ast.literal_eval(a.annotation)) for a in f.node.args.args]
        variants = [[]]
        for a, ann in args:
            opts = [ann]
            if ann.startswith('each '):
                opts = []
                for o in ann[5:].split('|'):
                    m = re.fullmatch(r'\s*(-?\d+)(?:\.\.(-?\d+))?\s*', o)
                    opts += range(int(m.group(1)), int(m.group(2) or m.group(1)) + 1) if m else [o.strip()]
            variants = [v + [o] for v in variants for o in opts]
        for var in variants:
            def setup(c, var=var):
                A = Args(ck, mod)
                c['args'] = [A.build(a, o) if isinstance(o, str) else o for (a, _), o in zip(args, var)]
            lab = name + ''.join(' %s=%s' % (a, o) for (a, ann), o in zip(args, var) if ann.startswith('each '))
            ck.oblige(rule, lab, setup, lambda c: it.call(f, c['args'], {}), lambda c: [(True, 'ret', ret)], loc)
