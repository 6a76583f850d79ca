"""Path exploration by re-execution, solver queries, obligations and counterexamples."""
from fractions import Fraction
import random
import sys
import time
import traceback
import numpy as np
import z3
from . import poly, sym
from .sym import Sym, Poison, SymInt, Unsupported, lift, ZERO
from .poly import TooBig


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


OPS = {'<': lambda x: x < 0, '<=': lambda x: x <= 0, '>': lambda x: x > 0, '>=': lambda x: x >= 0,
       '==': lambda x: x == 0, '!=': lambda x: x != 0}
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3time = 0.0
        self.forks = 0
        self.unknown = 0
        self.twin = {}


class Engine:
    """one symbolic path (re-created for every re-execution)"""

    def __init__(self, prefix, stats, cfg):
        self.prefix = prefix            # list of decisions to replay
        self.trace = []                 # decisions taken: (value, alternatives)
        self.stats = stats
        self.cfg = cfg
        self.reg = poly.Reg()
        poly.set_reg(self.reg)
        sym.Engine.cur = self
        self.hyps = []                  # (z3 expr, frozenset of var names, text)
        self.vardefs = {}               # var -> (z3 exprs, deps)
        self.zv = {}
        self.zmono = {}
        self.tiny = set()
        self.pending = []               # obligations of this path
        self.failed = []                # obligations that are certainly violated on this path
        self.n_obl = 0
        self.observed = []
        self.decisions = []             # (poly, op) facts, for validation
        self.int_syms = {}
        self.int_bounds = {}
        self.inputs = {}                # name -> spec
        self.contracts = set()
        self.names = {}                 # registered names: key(poly) -> Sym
        self.svd_known = []
        self.float_mode = False
        self.zcache = {}
        self.assumed = []
        self.calls = set()
        self.deadline = None
        self.memo = {}
        self.loose_svd = False
        self.psd = {}
        self.qr_known = []
        self.input_vars = set()
        self.counters = {}
        self.draws = {}
        self.identities = []
        self.vacuous = False
        self.facts = []                 # contract facts, for validation
        self.rng = np.random.RandomState(cfg.get('seed', 1))
        self.approx = 1e-9
        self.psg = {}                   # signs of polynomials established on this path

    # ------------------------------------------------------------ variables and z3
    def new_var(self, v, defs=()):
        self.vardefs[v] = list(defs)

    def zvar(self, v):
        z = self.zv.get(v)
        if z is None:
            z = z3.Real('%s!%d' % (self.reg.names[v], v))
            self.zv[v] = z
        return z

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = self.zmono.get(m)
            if t is None:
                f = []
                for v, e in poly.mono_items(m):
                    f += [self.zvar(v)] * e
                if not f:
                    t = None
                elif len(f) == 1:
                    t = f[0]
                else:
                    t = z3.Product(f)
                if t is not None:
                    self.zmono[m] = t
            if t is None:
                ts.append(z3.RealVal(str(c)))
            elif c == 1:
                ts.append(t)
            else:
                ts.append(z3.RealVal(str(c)) * t)
        if not ts:
            return z3.RealVal(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def var_hyps(self, v):
        """(z3 constraints, variables they mention) defining a variable"""
        c = self.zcache.get(v)
        if c is not None:
            return c
        r = self.reg
        z = self.zvar(v)
        out, deps = [], set()
        if r.pos[v]:
            out.append(z > 0)
        elif r.nonneg[v]:
            out.append(z >= 0)
        for d in self.vardefs.get(v, ()):
            if d[0] in self.cfg.get('opaque', ()):
                continue
            if d[0] == 'sq':
                out.append(z * z == self.zpoly(d[2]))
                deps.update(poly.pvars(d[2]))
            elif d[0] == 'abs':
                zp = self.zpoly(d[2])
                out.append(z3.Or(z == zp, z == -zp))
                deps.update(poly.pvars(d[2]))
            elif d[0] == 'root':
                out.append(z3.Product([z] * d[3]) == self.zpoly(d[2]))
                deps.update(poly.pvars(d[2]))
            elif d[0] == 'rule':
                out.append(z3.Product([z] * d[3]) == self.zpoly(d[2]))
                deps.update(poly.pvars(d[2]))
            elif d[0] == 'int':
                out.append(z == z3.ToReal(d[2]))
        self.zcache[v] = (out, deps)
        return self.zcache[v]

    def add_hyp(self, e, pvs=(), ints=(), text=''):
        self.hyps.append((e, frozenset(pvs), frozenset(ints), text))

    def cone(self, pvs, ints):
        """hypotheses relevant to the given variables"""
        seen_v, seen_i = set(), set(ints)
        work = list(pvs)
        out = []
        used = [False] * len(self.hyps)
        while True:
            while work:
                v = work.pop()
                if v in seen_v:
                    continue
                seen_v.add(v)
                cs, deps = self.var_hyps(v)
                out += cs
                work += [d for d in deps if d not in seen_v]
                for d in self.vardefs.get(v, ()):
                    if d[0] == 'int':
                        seen_i |= set(_int_names(d[2]))
            changed = False
            for i, (e, vs, iv, _) in enumerate(self.hyps):
                if not used[i] and ((vs & seen_v) or (iv & seen_i)):
                    used[i] = True
                    out.append(e)
                    new = vs - seen_v
                    work += list(new)
                    if iv - seen_i:
                        seen_i |= iv
                    changed = True
            if not changed and not work:
                break
        return out

    def query(self, exprs, timeout=None, model=False):
        s = z3.Solver()
        s.set('timeout', int(timeout or self.cfg.get('z3_timeout', 4000)))
        for e in exprs:
            s.add(e)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.z3time += time.time() - t
        self.stats.queries += 1
        r = str(r)
        if r == 'unknown':
            self.stats.unknown += 1
        if model:
            return r, (s.model() if r == 'sat' else None)
        return r

    # ------------------------------------------------------------ facts
    def note_tiny(self, c):
        self.tiny.add(str(c))

    def term_sign(self, m, c):
        """2: >0, 1: >=0, None unknown (sign of the monomial, coefficient applied)"""
        strict = True
        r = self.reg
        for v, e in poly.mono_items(m):
            if e % 2 and not r.nonneg[v]:
                return None
            if not r.pos[v] and v not in r.nonzerovars:
                strict = False
        s = 2 if strict else 1
        return s if c > 0 else -s

    def canon(self, p):
        c, g, q = sym._split(p)
        return (g, poly.key(q)), (1 if c > 0 else -1)

    def psign(self, p):
        if not p:
            return 0
        if self.psg and len(p) > 1:
            k, c = self.canon(p)
            v = self.psg.get(k)
            if v is not None:
                return v * c
        fid = self.reg.factor_ids.get(poly.key(p))
        if fid is not None and fid in self.reg.fsign:
            return self.reg.fsign[fid]
        tot = None
        for m, c in p.items():
            s = self.term_sign(m, c)
            if s is None:
                return None
            if tot is None:
                tot = s
            elif (tot > 0) != (s > 0):
                return None
            elif abs(s) > abs(tot):
                tot = s
        return tot

    def quick_sign(self, s):
        if not s.n:
            return 0
        q = self._quick_sign(s)
        if (q is None or abs(q) == 1) and s.d and self.psg:
            k, c = self.canon(self.cond(s, '>='))
            v = self.psg.get(k)
            if v is not None and (q is None or abs(v) == 2):
                return v * c
        return q

    def _quick_sign(self, s):
        if not s.n:
            return 0
        a = self.psign(s.n)
        if a is None:
            c, g, q = sym._split(s.n)
            if len(q) > 1 or g:
                a = self.psign(q)
                if a is None:
                    nq = poly.pneg(q)
                    fid = self.reg.factor_ids.get(poly.key(nq))
                    if fid is not None and fid in self.reg.fsign:
                        a = -self.reg.fsign[fid]
                if a is not None and a != 0:
                    if g:
                        b = self.term_sign(g, 1)
                        if b is None:
                            return None
                        a = (1 if a * b > 0 else -1) * min(abs(a), abs(b))
                    if c < 0:
                        a = -a
        if a is None:
            return None
        for f, e in s.d:
            if e % 2:
                b = self.psign(self.reg.factors[f])
                if b is None:
                    return None
                if b < 0:
                    a = -a
        return a

    def known_sign(self, s, op):
        q = self.quick_sign(s)
        if q is None:
            return False
        if op == '>=0':
            return q >= 0
        if op == '>0':
            return q == 2
        raise ValueError(op)

    def known_nonzero(self, s):
        if not s.n:
            return False
        q = self.quick_sign(s)
        if q is not None and abs(q) == 2:
            return True
        c, g, p = sym._split(s.n)
        for v, e in poly.mono_items(g):
            if not (self.reg.pos[v] or v in self.reg.nonzerovars):
                return False
        if len(p) == 1 and 0 in p:
            return True
        q = self.psign(p)
        if q is not None and abs(q) == 2:
            return True
        for fid, e in sym._known_factors(p):
            if fid not in self.reg.nonzero:
                q = self.psign(self.reg.factors[fid])
                if not (q is not None and abs(q) == 2):
                    return False
        return True

    def learn(self, s, op):
        """record s op 0 for the fast paths"""
        if op in ('!=', '>', '<'):
            c, g, p = sym._split(s.n)
            for v, e in poly.mono_items(g):
                self.reg.nonzerovars.add(v)
                if self.reg.nonneg[v]:
                    self.reg.pos[v] = True
                    self.zcache.pop(v, None)
            if not (len(p) == 1 and 0 in p):
                for fid, e in sym._known_factors(p):
                    self.reg.nonzero.add(fid)
        if op in ('>', '<', '>=', '<=') and not s.d:
            k, c = self.canon(s.n)
            v = (2 if len(op) == 1 else 1) * (1 if op[0] == '>' else -1) * c
            if abs(self.psg.get(k, 0)) < 2:
                self.psg[k] = v
            c, g, p = sym._split(s.n)
            sg = 1 if op[0] == '>' else -1
            if c < 0:
                sg = -sg
            mag = 2 if op in '<>' else 1
            if g == 0 and len(p) > 1:
                self.reg.fsign[poly.factor_id(p)] = sg * mag
            elif len(p) == 1 and 0 in p and poly.mono_items(g) and len(poly.mono_items(g)) == 1:
                (v, e), = poly.mono_items(g)
                if e % 2 and sg > 0:
                    self.reg.nonneg[v] = True
                    if mag == 2:
                        self.reg.pos[v] = True
                    self.zcache.pop(v, None)

    def cond(self, s, op):
        """(polynomial P, op): s op 0  <=>  P op 0, with denominators known nonzero"""
        n = s.n
        for f, e in s.d:
            if e % 2:
                q = self.psign(self.reg.factors[f])
                if q is not None and q > 0:
                    continue
                if q is not None and q < 0:
                    n = poly.pneg(n)
                    continue
                if op not in ('==', '!='):
                    n = poly.pmul(n, self.reg.factors[f])
        return n

    def compare(self, a, b, op):
        d = a.minus(b)
        if isinstance(d, Poison):
            return op == '!='
        if d.is_const():
            return bool(OPS[op](d.cval()))
        q = self.quick_sign(d)
        if q is not None:
            if q == 2:
                return op in ('>', '>=', '!=')
            if q == -2:
                return op in ('<', '<=', '!=')
            if q == 1 and op in ('>=', '<'):
                return op == '>='
            if q == -1 and op in ('<=', '>'):
                return op == '<='
        if op in ('==', '!=') and self.known_nonzero(d):
            return op == '!='
        n = self.cond(d, op)
        z = OPS[op](self.zpoly(n))
        vs = poly.pvars(n)
        r = self._decide(z, vs, (), ('cmp', n, op))
        o = op if r else NEG[op]
        self.decisions.append((n, o))
        self.learn(Sym(n) if op not in ('==', '!=') else d, o)
        return r

    def decide_zero(self, s):
        return self.compare(s, ZERO, '==')

    def decide(self, z):
        """decide a z3 boolean over integers"""
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self._decide(z, (), _int_names(z), ('int', str(z)))

    def _decide(self, z, vs, ints, what):
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append((val, False))
        else:
            if self.deadline and time.time() > self.deadline:
                raise PathLimit('time')
            base = self.cone(vs, ints)
            t = self.query(base + [z], self.cfg.get('fork_timeout', 1500))
            f = self.query(base + [z3.Not(z)], self.cfg.get('fork_timeout', 1500)) if t != 'unsat' else 'sat?'
            if t == 'unsat':
                val, alt = False, False
            elif f == 'unsat':
                val, alt = True, False
            else:
                val, alt = True, True
                self.stats.forks += 1
            self.trace.append((val, alt))
        self.add_hyp(z if val else z3.Not(z), vs, ints, str(what[0]))
        if len(self.trace) > self.cfg.get('max_depth', 400):
            raise PathLimit('depth')
        return val

    def concretize(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        ints = _int_names(z)
        n = 0
        while True:
            r, m = self.query(self.cone((), ints), 4000, model=True)
            if r != 'sat':
                raise Infeasible('no value')
            # choose the smallest feasible value by stepping down (values are small)
            v = m.eval(z, model_completion=True).as_long()
            lo = v
            while True:
                r2, m2 = self.query(self.cone((), ints) + [z < lo], 4000, model=True)
                if r2 != 'sat':
                    break
                lo = m2.eval(z, model_completion=True).as_long()
            if self._decide(z == lo, (), ints, ('int', '%s == %d' % (z, lo))):
                return lo
            n += 1
            if n > 200:
                raise PathLimit('concretize')

    def int_as_sym(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return Sym.const(z.as_long())
        k = z.sexpr()
        v = self.int_syms.get(k)
        if v is None:
            v = self.reg.var('int%d' % len(self.int_syms))
            self.int_syms[k] = v
            self.new_var(v, [('int', v, z)])
        return Sym(poly.pvar(v))

    # ------------------------------------------------------------ declarations
    def counter(self, tag=None):
        n = self.counters.get(tag, 0)
        self.counters[tag] = n + 1
        return n

    def infeasible(self):
        raise Infeasible('infeasible')

    def assume_fact(self, s, op):
        """s op 0 from here on (contract or harness assumption)"""
        s = lift(s)
        if isinstance(s, Poison):
            raise Infeasible('assumption on NaN')
        if s.is_const():
            if not OPS[op](s.cval()):
                raise Infeasible('assumption')
            return
        q = self.quick_sign(s)
        if q is not None:
            if (q == 2 and op in ('>', '>=', '!=')) or (q == -2 and op in ('<', '<=', '!=')) or \
               (q == 1 and op == '>=') or (q == -1 and op == '<='):
                return
        n = self.cond(s, op)
        self.add_hyp(OPS[op](self.zpoly(n)), poly.pvars(n), (), 'assumption')
        self.facts.append((n, op))
        self.learn(Sym(n) if op not in ('==', '!=') else s, op)

    def choose(self, n, name):
        z = z3.Int('%s' % name)
        self.add_hyp(z3.And(z >= 0, z < n), (), {name}, 'choice')
        return self.concretize(z)

    def int(self, name, lo, hi):
        z = z3.Int(name)
        self.inputs[name] = dict(kind='int', lo=lo, hi=hi, shape=())
        self.add_hyp(z3.And(z >= lo, z <= hi), (), {name}, 'range')
        return SymInt(z)

    def real(self, name, shape=(), draw=None, lo=None, hi=None, unit=False, pos=False, nonneg=False, integral=False):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        nonneg = nonneg or (lo is not None and lo >= 0)
        vs, out = [], np.empty(n, dtype=object)
        for i in range(n):
            v = self.reg.var('%s%s' % (name, [int(q) for q in np.unravel_index(i, shape)] if shape else ''), kind='input', nonneg=nonneg, pos=pos)
            self.new_var(v, [])
            vs.append(v)
            self.input_vars.add(v)
            out[i] = Sym(poly.pvar(v))
            if hi is not None:
                self.add_hyp(self.zvar(v) <= hi, {v}, (), 'range')
        self.inputs[name] = dict(kind='real', shape=shape, vars=vs, nonneg=nonneg, pos=pos, unit=unit, integral=integral)
        from .npshim import SymArray
        return out.reshape(shape).view(SymArray) if shape else out[0]

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, p, op, label):
        """p op 0 must hold (p polynomial)"""
        self.n_obl += 1
        self.pending.append((kind, p, op, label))

    def fail(self, label, why):
        self.n_obl += 1
        self.failed.append((label, why))

    def all_vars(self, polys):
        vs = set()
        for p in polys:
            vs.update(poly.pvars(p))
        return vs

    def discharge(self):
        """decide this path's obligations: list of dicts for the ones not proved"""
        out = []
        todo = []
        for kind, p, op, label in self.pending:
            if not p and op in ('==', '>=', '<='):
                continue
            if op in ('>=', '>'):
                q = self.psign(p)
                if q is not None and (q == 2 or (q >= 0 and op == '>=')):
                    continue
            todo.append((kind, p, op, label))
        # identities whose two sides have the same normal form: one query for all of them
        terms, batch = 0, []
        for x, y in self.identities:
            terms += len(x) + len(y)
            if terms > 20000:
                break
            batch.append(self.zpoly(x) != self.zpoly(y))
        if batch:
            r = self.query([z3.Or(batch)], 10000)
            if r != 'unsat':
                out.append(dict(label='identities', verdict='unknown', why='normal forms not confirmed (%s)' % r))
        # reachability twin: the assumptions of this path can be met
        if self.hyps:
            vs, ints = set(), set()
            for e, v, i, _ in self.hyps:
                vs |= v
                ints |= i
            r = self.query(self.cone(vs, ints), 1500)
            self.stats.twin[r] = self.stats.twin.get(r, 0) + 1
            if r == 'unsat':
                self.vacuous = True
                return []
        else:
            self.stats.twin['sat'] = self.stats.twin.get('sat', 0) + 1
        for kind, p, op, label in todo:
            vs = poly.pvars(p)
            if len(p) > self.cfg.get('z3_terms', 3000):
                out.append(dict(label=label, verdict='unknown', why='%d terms' % len(p)))
                continue
            neg = OPS[NEG[op]](self.zpoly(p))
            r, m = self.query(self.cone(vs, ()) + [neg], self.cfg.get('z3_timeout', 4000), model=True)
            if r == 'unsat':
                continue
            w = None
            if r == 'sat':
                w = self.point(m)
            out.append(dict(label=label, verdict=r, why='%s %s 0 on this path' % (sym.show(Sym(p), 4), NEG[op]), point=w))
            if sum(1 for o in out) >= 4:
                break
        for label, why in self.failed[:4]:
            out.append(dict(label=label, verdict='sat', why=why, point=self.path_point()))
        return out

    def path_point(self):
        vs = set()
        ints = set()
        for e, v, i, _ in self.hyps:
            vs |= v
            ints |= i
        r, m = self.query(self.cone(vs, ints), self.cfg.get('z3_timeout', 4000), model=True)
        return self.point(m) if r == 'sat' else None

    def point(self, m):
        """values of the harness inputs under a model (missing ones are left to the replayer)"""
        out = {}
        for name, spec in self.inputs.items():
            if spec['kind'] == 'int':
                v = m.eval(z3.Int(name), model_completion=False)
                out[name] = v.as_long() if z3.is_int_value(v) else None
            else:
                vals = []
                for v in spec['vars']:
                    if v is None:
                        vals.append(None)
                        continue
                    z = self.zv.get(v)
                    val = None
                    if z is not None:
                        x = m.eval(z, model_completion=False)
                        val = _num(x)
                    vals.append(val)
                out[name] = vals
        return out


def _num(x):
    try:
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if z3.is_algebraic_value(x):
            a = x.approx(12)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None


_INT_CACHE = {}


def _int_names(z):
    out = set()
    seen = set()
    st = [z]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st += x.children()
    return out


def explore(run, cfg):
    """Run `run(engine)` over all feasible paths.  Returns a result dict."""
    stats = Stats()
    t0 = time.time()
    limit_paths = cfg.get('max_paths', 400)
    budget = cfg.get('time', 60)
    work = [[]]
    res = dict(paths=0, obligations=0, discharged=0, open=[], unsupported=[], truncated=None, forks=0,
               transitions=0, tiny=set(), contracts=set(), assumed=set(), inputs={}, observed=[], errors=[],
               reached=0, infeasible=0)
    while work:
        if res['paths'] >= limit_paths or time.time() - t0 > budget:
            res['truncated'] = '%d paths, %.0f s; %d pending' % (res['paths'], time.time() - t0, len(work))
            break
        prefix = work.pop()
        eng = Engine(prefix, stats, cfg)
        eng.deadline = t0 + budget
        crashed = None
        try:
            run(eng)
            res['reached'] += 1
        except Infeasible:
            res['infeasible'] += 1
            crashed = 'infeasible'
        except (Unsupported, TooBig, PathLimit) as e:
            crashed = 'unsupported'
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if '/tenkit/' in f.filename]
            where = '%s:%d' % (where[-1].filename, where[-1].lineno) if where else ''
            res['unsupported'].append('%s: %s %s' % (type(e).__name__, e, where))
        except Exception as e:
            crashed = 'error'
            tb = traceback.extract_tb(sys.exc_info()[2])
            tail = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-5:]))
            res['errors'].append(dict(error='%s: %s' % (type(e).__name__, str(e)[:200]), where=tail,
                                      point=_safe(eng.path_point)))
        res['paths'] += 1
        res['transitions'] += len(eng.trace) + 1
        res['inputs'].update({k: {kk: vv for kk, vv in s.items() if kk != 'vars'} for k, s in eng.inputs.items()})
        res['tiny'] |= eng.tiny
        res['contracts'] |= eng.contracts
        res['assumed'] |= set(eng.assumed)
        # schedule alternatives
        for i in range(len(prefix), len(eng.trace)):
            val, alt = eng.trace[i]
            if alt:
                work.append([v for v, _ in eng.trace[:i]] + [not val])
        if crashed != 'infeasible':
            try:
                op = eng.discharge()
            except TooBig as e:
                op = [dict(label='*', verdict='unknown', why=str(e))]
            if eng.vacuous:
                res['infeasible'] += 1
                if crashed is None:
                    res['reached'] -= 1
                if crashed == 'error':
                    res['errors'].pop()
                continue
            res['obligations'] += eng.n_obl
            res['discharged'] += eng.n_obl - len(op)
            res['open'] += op
        if crashed is None and len(res['observed']) < cfg.get('keep_observed', 6):
            v = _safe(lambda: validate_points(eng, cfg))
            if v:
                res['observed'] += v
        if len([o for o in res['open'] if o['verdict'] == 'sat']) >= 6 or len(res['errors']) >= 8:
            res['truncated'] = 'stopped after counterexamples'
            break
    res['wall'] = time.time() - t0
    res['queries'] = stats.queries
    res['z3time'] = stats.z3time
    res['z3unknown'] = stats.unknown
    res['forks'] = stats.forks
    res['twin'] = stats.twin
    return res


def _safe(f):
    try:
        return f()
    except (Exception, Unsupported, TooBig, PathLimit, Infeasible):
        return None


def validate_points(eng, cfg):
    """concrete points following this path, with the values the encoding predicts for them"""
    out = []
    rng = random.Random(cfg.get('seed', 1) * 7919 + len(eng.trace))
    for attempt in range(12):
        pt, inputs = {}, {}
        for name, spec in eng.inputs.items():
            if spec['kind'] == 'int':
                return _path_point(eng)
            if spec['kind'] == 'givens':
                vals = draw_givens(rng, spec)
                pt.update(zip(spec['vars'], vals))
                inputs[name] = vals
                continue
            vals = []
            for v in spec['vars']:
                x = draw(rng, spec)
                if v is not None:
                    pt[v] = x
                vals.append(x)
            inputs[name] = vals
        ok = True
        for v in range(len(eng.reg.names)):
            if v in pt:
                if (eng.reg.pos[v] and pt[v] <= 1e-3) or (eng.reg.nonneg[v] and pt[v] < 0):
                    ok = False
                    break
                continue
            f = eng.reg.defs.get(v)
            if f is None:
                continue
            try:
                pt[v] = f(pt)
            except KeyError:
                pass
        if not ok:
            continue
        for p, op in eng.decisions + eng.facts:
            try:
                if not OPS[op](poly.peval(p, pt)):
                    ok = False
                    break
            except KeyError:
                pass
        if not ok:
            continue
        pred = []
        for label, s in eng.observed:
            try:
                n = poly.peval(s.n, pt)
                for f, e in s.d:
                    n /= poly.peval(eng.reg.factors[f], pt) ** e
                pred.append((label, n))
            except (KeyError, ZeroDivisionError):
                pred.append((label, None))
        out.append(dict(inputs=inputs, predicted=pred))
        return out
    return _path_point(eng)


def _path_point(eng):
    p = eng.path_point()
    return [dict(inputs=p, predicted=[])] if p is not None else []


def draw_givens(rng, spec):
    import math
    vals = []
    for i in range(spec['pairs']):
        t = rng.uniform(-3, 3)
        vals += [math.cos(t), math.sin(t)]
    if spec['square']:
        vals.append(rng.choice([-1.0, 1.0]))
    return vals


def draw(rng, spec):
    if spec.get('unit'):
        return round(rng.uniform(0.05, 0.95), 3)
    x = round(rng.uniform(-2, 2), 2)
    if spec.get('integral'):
        return float(rng.randint(0, 3) if spec.get('nonneg') else rng.randint(-3, 3))
    if spec.get('pos') or spec.get('nonneg'):
        x = abs(x)
    if abs(x) < 0.05:
        x = 0.3 if x >= 0 else -0.3
        if spec.get('nonneg') or spec.get('pos'):
            x = abs(x)
    return x
