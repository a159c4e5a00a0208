r"""irvc: symbolic verification-condition generator over LLVM IR of the real code.

State merging at joins (no path enumeration), loops either unrolled to completion or cut at an
invariant, calls either executed or replaced by a contract.  Every assertion becomes an obligation
(facts /\ path guard => condition) handed to the SMT portfolio in solve.py.
"""
import heapq
import re
import sys
import time
from fractions import Fraction
from math import gcd
import z3
from .values import Unsupported, FV, SI, Off, off_add, off_neg, off_expr, P, FnP, PIte, Blob, _U, frac_of_bits, fv_of_float, PI0, rex, bex, iex, rng, And_, Or_, Not_, conj, same, Ite_b, ite, _coerce_part, split_int, to_signed, ite_ptr, ite_off, U

sys.setrecursionlimit(20000)
BIG = 1 << 62


class NeedCut(Exception):
    def __init__(self, fn, h):
        self.fn, self.h = fn, h


class Arr:
    __slots__ = ('kind', 'bits', 'd', 'nan', 'pi', 'ni')

    def __init__(self, kind, bits, d, nan=None, pi=None, ni=None):
        self.kind, self.bits, self.d, self.nan, self.pi, self.ni = kind, bits, d, nan, pi, ni

    def copy(self):
        return Arr(self.kind, self.bits, self.d, self.nan, self.pi, self.ni)


class Obj:
    __slots__ = ('size', 'cells', 'base', 'arrs', 'stride', 'layout', 'name', 'const', 'src')

    def __init__(self, size, base='undef', name=''):
        self.size, self.base, self.name = size, base, name
        self.cells = {}
        self.arrs = {}
        self.stride = None
        self.layout = None
        self.const = False
        self.src = None

    def copy(self):
        o = Obj(self.size, self.base, self.name)
        o.cells = dict(self.cells)
        o.arrs = dict(self.arrs)
        o.stride, o.layout, o.const, o.src = self.stride, self.layout, self.const, self.src
        return o


class State:
    __slots__ = ('g', 'mem', 'owned', 'cut', 'dead')

    def __init__(self):
        self.g = ()
        self.mem = {}
        self.owned = set()
        self.cut = {}
        self.dead = False

    def fork(self):
        s = State()
        s.g = self.g
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.cut = dict(self.cut)
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.dead = True
            self.g = self.g + (z3.BoolVal(False),)
            return
        self.g = self.g + (c,)

    def guard(self):
        return conj(list(self.g))


def split_goal(c, lim=48):
    """conjuncts of a goal (distributing one disjunction or implication over a conjunction)"""
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += split_goal(x, lim)
        return out if len(out) <= lim else [c]
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out += split_goal(z3.simplify(z3.Not(x)) if z3.is_not(x) else z3.Not(x), lim)
        return out if len(out) <= lim else [c]
    if z3.is_implies(c):
        p = split_goal(c.arg(1), lim)
        return [c] if len(p) == 1 else [z3.Implies(c.arg(0), x) for x in p]
    if z3.is_or(c):
        k = [x for x in c.children() if z3.is_and(x) or (z3.is_not(x) and z3.is_or(x.arg(0)))]
        if len(k) == 1:
            p = split_goal(k[0], lim)
            if len(p) > 1:
                rest = [x for x in c.children() if not x.eq(k[0])]
                return [z3.Or(*rest, x) for x in p]
    return [c]


class Obl:
    __slots__ = ('label', 'kind', 'guard', 'cond', 'loc', 'status', 'by', 'time', 'model', 'expect')

    def __init__(self, label, kind, guard, cond, loc):
        self.label, self.kind, self.guard, self.cond, self.loc = label, kind, guard, cond, loc
        self.status = None
        self.by = ''
        self.time = 0.0
        self.model = None


class Fn:
    def __init__(self, name, j):
        self.name = name
        self.args = j['args']
        self.ret = j['ret']
        self.blocks = j['blocks']
        self.file = j.get('file', '')
        self.loops = {}
        for i, b in enumerate(self.blocks):
            for h in b['loops']:
                self.loops.setdefault(h, set()).add(i)
        self.phis = [[x for x in b['ins'] if x['op'] == 'phi'] for b in self.blocks]
        for b in self.blocks:
            b['code'] = [x for x in b['ins'] if x['op'] != 'phi']
        self.parents = [tuple(b['loops']) for b in self.blocks]
        self.marker = {}
        for i, b in enumerate(self.blocks):
            for x in b['ins']:
                if x['op'] in ('call', 'invoke') and x['callee'][:2] == ['fn', 'vc_loop_cut']:
                    if b['loops']:
                        self.marker[b['loops'][-1]] = True
        self.live = None

    def succs(self, b):
        t = self.blocks[b]['ins'][-1]
        if t['op'] == 'br':
            return t['succ']
        if t['op'] == 'switch':
            return [t['default']] + [c[1] for c in t['cases']]
        if t['op'] == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    def liveness(self):
        if self.live is not None:
            return self.live
        n = len(self.blocks)
        use, de = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]

        def refs(x, acc):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
                    acc.add(x[1])
                else:
                    for y in x:
                        refs(y, acc)
            elif isinstance(x, dict):
                for y in x.values():
                    refs(y, acc)
        for i, b in enumerate(self.blocks):
            for x in b['ins']:
                if x['op'] == 'phi':
                    de[i].add(x['id'])
                    for p, v in x['in']:
                        s = set()
                        refs(v, s)
                        phiuse[i].setdefault(p, set()).update(s)
                    continue
                s = set()
                for k in ('ops', 'args', 'callee', 'cond', 'v', 'base', 'var', 'n', 'cases'):
                    if k in x:
                        refs(x[k], s)
                use[i] |= (s - de[i])
                if 'id' in x:
                    de[i].add(x['id'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(i):
                    o |= live[s] - {p['id'] for p in self.phis[s]}
                    o |= phiuse[s].get(i, set())
                # live at block entry: includes the block's own phis (assigned on the edge)
                nl = use[i] | (o - de[i]) | {p['id'] for p in self.phis[i]}
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self.live = live
        return live


def tsize(t):
    if isinstance(t, str):
        if t[0] == 'i':
            return (int(t[1:]) + 7) // 8
        return {'f32': 4, 'f64': 8, 'ptr': 8, 'f80': 16, 'x32': 4, 'x64': 8}[t]
    if t[0] == 'vec':
        return t[1] * tsize(t[2])
    if t[0] == 'arr':
        return t[1] * t[3]
    if t[0] == 'struct':
        return t[2]
    raise Unsupported('size of %s' % (t,))


def small(e, limit):
    """e has at most `limit` distinct subterms"""
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() not in seen:
            seen.add(t.get_id())
            if len(seen) > limit:
                return False
            todo.extend(t.children())
    return True


class Engine:
    def __init__(self, ir, opts=None):
        self.ir = ir
        self.fns = {}
        o = dict(unroll=16, ovf=False, conv=True, feas_ms=1500, max_conc=200000, specials='auto', time=600)
        o.update(opts or {})
        self.o = o
        self.facts = []
        self.obls = []
        self.nd = []            # nondet inputs: (name, kind, value)
        self.reps = {}
        self.vrange = {}       # declared range of real inputs
        self.ndcount = {}
        self.n = 0
        self.oid = 1
        self.globals = {}
        self.gid2name = {}
        self.initreg = {}
        self.replaced = {}
        self.uf = {}
        self.trig = {}
        self.apps = {}
        self.qdepth = 0
        self.ufsqrt = bool(o.get('ufsqrt'))
        self.dry = 0
        self.wlog = None
        self.cutset = set()
        self.cutstack = []
        self.signs = {}
        self.lamcache = {}
        self.iters = []
        self.used_fns = {}
        self.externals = set()
        self.notes = set()
        self.steps = 0
        self.covers = []
        self.act = 0
        self.qn = 0
        self.qt = 0.0
        self.curloc = ('', 0)
        self.deadline = time.time() + o['time']
        self.fcache = {}
        self.divcache = {}
        self.ghost = {}
        self.trivial = 0
        self.callstack = []
        self.kappas = {}
        self.loopinfo = []

    # ---------------------------------------------------------------- symbols
    def fresh(self, pfx='t'):
        self.n += 1
        return '%s!%d' % (pfx, self.n)

    def fresh_int(self, bits, pfx='i', lo=None, hi=None):
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        lo = mn if lo is None else lo
        hi = mx if hi is None else hi
        e = z3.Int(self.fresh(pfx))
        self.facts.append(z3.And(e >= lo, e <= hi))
        return SI(e, lo, hi)

    def fresh_real(self, pfx='r'):
        return z3.Real(self.fresh(pfx))

    def fresh_val(self, ty, pfx='h', specials=False):
        if isinstance(ty, str):
            if ty == 'i1':
                return z3.Bool(self.fresh(pfx))
            if ty[0] == 'i':
                return self.fresh_int(int(ty[1:]), pfx)
            if ty in ('f32', 'f64', 'f80'):
                v = FV(self.fresh_real(pfx))
                if specials:
                    v.nan, v.pi, v.ni = [z3.Bool(self.fresh(pfx + k)) for k in ('N', 'P', 'M')]
                    self.facts.append(z3.Not(z3.Or(z3.And(v.nan, v.pi), z3.And(v.nan, v.ni), z3.And(v.pi, v.ni))))
                return v
            if ty == 'ptr':
                return self.unknown_ptr()
            if ty == 'void':
                return None
        if ty[0] == 'vec' or ty[0] == 'arr':
            return tuple(self.fresh_val(ty[2], pfx, specials) for _ in range(ty[1]))
        if ty[0] == 'struct':
            return tuple(self.fresh_val(t, pfx, specials) for _, t in ty[1])
        raise Unsupported('fresh %s' % (ty,))

    def unknown_ptr(self):
        self.notes.add('unknown pointer value used')
        return P(-1, 0)

    # ---------------------------------------------------------------- solver queries during execution
    def vars_of(self, e, depth=0):
        # cached free constants
        i = e.get_id()
        c = self.fcache.get(i)
        if c is not None:
            return c[1]
        seen = set()
        out = set()
        st = [e]
        while st:
            x = st.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if x is not e:
                c = self.fcache.get(k)
                if c is not None:
                    out |= c[1]
                    continue
                if depth < 3000 and not z3.is_var(x) and z3.is_app(x) and x.sort_kind() == z3.Z3_ARRAY_SORT and x.num_args():
                    # arrays grow by one write at a time: their parts are kept
                    out |= self.vars_of(x, depth + 1)
                    continue
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_var(x):
                pass
            elif z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name() + '()')
                st.extend(x.children())
        if depth:
            for x in e.children():
                c = self.fcache.get(x.get_id())
                if c is not None and c[1] == out:
                    out = c[1]
                    break
        self.fcache[i] = (e, out)
        return out

    def relevant(self, exprs):
        want = set()
        for e in exprs:
            if isinstance(e, z3.ExprRef):
                want |= self.vars_of(e)
        n = len(self.facts)
        if not hasattr(self, '_fidx') or self._fidx[0] > n:
            self._fidx = (0, {})
        done, idx = self._fidx
        for i in range(done, n):
            for v in self.vars_of(self.facts[i]):
                if not v.endswith('()'):
                    idx.setdefault(v, []).append(i)
        self._fidx = (n, idx)
        inc = set()
        todo = list(want)
        seen = set(todo)
        while todo:
            v = todo.pop()
            for i in idx.get(v, ()):
                if i in inc:
                    continue
                inc.add(i)
                for w in self.vars_of(self.facts[i]):
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
        return [self.facts[i] for i in sorted(inc)]

    def sat(self, conds, ms=None):
        r"""True / False / None(unknown) for satisfiability of facts /\ conds"""
        cs = []
        for c in conds:
            if c is True:
                continue
            if c is False:
                return False
            cs.append(c)
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.o['feas_ms'])
        for f in self.relevant(cs):
            s.add(f)
        for c in cs:
            s.add(c)
        r = s.check()
        self.qn += 1
        self.qt += time.time() - t
        return True if r == z3.sat else False if r == z3.unsat else None

    def must(self, st, c, ms=400):
        """solver-proved under the current guard?"""
        if c is True:
            return True
        if c is False:
            return False
        key = (c.get_id(), tuple(x.get_id() for x in st.g))
        if key in self.divcache:
            return self.divcache[key][0]
        r = False
        vs = self.vars_of(c) if isinstance(c, z3.ExprRef) else ()
        near = [x for x in st.g if isinstance(x, z3.ExprRef) and not vs.isdisjoint(self.vars_of(x))] if vs else []
        if near:
            # the branch conditions alone often suffice
            s = z3.Solver()
            s.set('timeout', 60)
            s.add(near)
            s.add(Not_(c))
            r = s.check() == z3.unsat
        r = r or self.sat(list(st.g) + [Not_(c)], ms) is False
        self.divcache[key] = (r, c, st.g)
        return r

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, cond, label, kind):
        if self.dry or st.dead:
            return
        if cond is True:
            self.trivial += 1
            self.obls.append(Obl(label, kind, True, True, self.curloc))
            self.obls[-1].status = 'proved'
            self.obls[-1].by = 'constant folding'
            return
        g = st.guard()
        if isinstance(cond, bool):
            self.obls.append(Obl(label, kind, g, cond, self.curloc))
            return
        for c in split_goal(cond):
            self.obls.append(Obl(label, kind, g, c, self.curloc))

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, base='undef', name=''):
        o = Obj(size, base, name)
        i = self.oid
        self.oid += 1
        st.mem[i] = o
        st.owned.add(i)
        return i

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            if i in self.gid2name:
                return self.load_global(st, i)
            raise Unsupported('access to unknown object %r' % i)
        return o

    def wobj(self, st, i):
        o = self.obj(st, i)
        if i not in st.owned:
            o = o.copy()
            st.mem[i] = o
            st.owned.add(i)
        return o

    def global_ptr(self, name):
        if name in self.globals:
            return P(self.globals[name], 0)
        i = self.oid
        self.oid += 1
        self.globals[name] = i
        self.gid2name[i] = name
        return P(i, 0)

    def load_global(self, st, i):
        name = self.gid2name[i]
        g = self.ir['globals'].get(name)
        if g is None:
            o = Obj(None, 'undef', name)
        else:
            o = Obj(g['size'], 'undef', name)
            if 'init' in g:
                o.base = 'zero'
                self.init_cells(o, 0, g['init'], g['ty'])
                o.const = g['const']
        st.mem[i] = o
        st.owned.discard(i)
        return o

    def init_cells(self, o, off, v, ty):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'agg':
            t = v[2]
            if t[0] == 'struct':
                for (fo, ft), x in zip(t[1], v[1]):
                    self.init_cells(o, off + fo, x, ft)
            else:
                es = t[3] if t[0] == 'arr' else tsize(t[2])
                for n, x in enumerate(v[1]):
                    self.init_cells(o, off + n * es, x, t[2])
            return
        val = self.const(v)
        if isinstance(val, FV):
            s = v[2] // 8
        elif isinstance(val, bool):
            s, val = 1, int(val)
        elif isinstance(val, int):
            s = (v[2] + 7) // 8
        else:
            s = 8
        o.cells[off] = (s, val)

    def init_value(self, i, off, ty):
        key = (i, off, ty)
        v = self.initreg.get(key)
        if v is None:
            v = self.fresh_val(ty, 'm%d_%d' % (i if isinstance(i, int) else 0, off if isinstance(off, int) else 0))
            self.initreg[key] = v
        return v

    def in_bounds(self, st, o, off, size, what):
        if o.size is None:
            if isinstance(off, int):
                c = off >= 0
            else:
                c = off.expr() >= 0
        elif isinstance(off, int) and isinstance(o.size, int):
            c = 0 <= off and off + size <= o.size
        else:
            e = off_expr(off)
            sz = z3.IntVal(o.size) if isinstance(o.size, int) else o.size
            c = z3.And(e >= 0, e + size <= sz)
        if c is True:
            self.trivial += 1
            return
        self.oblige(st, c, '%s within bounds of %s' % (what, o.name or 'object'), 'memory')

    def deref(self, st, p, what):
        """-> list of (cond, P)"""
        if isinstance(p, Blob) and len(p.parts) == 1:
            p = p.parts[0][1]
        if isinstance(p, PIte):
            al = p.alts
        elif isinstance(p, P):
            al = [(True, p)]
        elif isinstance(p, int):
            al = [(True, P(0, p))]
        elif p is U:
            al = [(True, P(0, 0))]
        else:
            raise Unsupported('deref %r' % (p,))
        out = []
        bad = False
        for c, q in al:
            if isinstance(q, FnP):
                raise Unsupported('deref fn')
            if q.o == 0:
                bad = Or_(bad, c)
            elif q.o == -1:
                raise Unsupported('deref of unknown pointer')
            else:
                out.append((c, q))
        if bad is not False:
            nb = Not_(bad)
            if nb is not False and not self.dry and self.must(st, nb):
                self.trivial += 1
            else:
                self.oblige(st, nb, '%s through valid pointer' % what, 'memory')
        return out

    def load(self, st, p, ty):
        alts = self.deref(st, p, 'load')
        if not alts:
            st.dead = True
            st.g = st.g + (z3.BoolVal(False),)
            return self.fresh_val(ty) if ty != 'ptr' else P(0, 0)
        r = None
        for c, q in reversed(alts):
            if len(alts) > 1:
                sv = st.g
                st.g = st.g + ((c,) if c is not True else ())
                v = self.load1(st, q, ty)
                st.g = sv
            else:
                v = self.load1(st, q, ty)
            r = v if r is None else ite(c, v, r)
        return r

    def load1(self, st, q, ty):
        o = self.obj(st, q.o)
        self.in_bounds(st, o, q.off, tsize(ty), 'load')
        return self.loadv(st, q.o, q.off, ty)

    def loadv(self, st, i, off, ty):
        if not isinstance(ty, str):
            if ty[0] == 'vec':
                s = tsize(ty[2])
                return tuple(self.loadv(st, i, off_add(off, k * s), ty[2]) for k in range(ty[1]))
            if ty[0] == 'arr':
                return tuple(self.loadv(st, i, off_add(off, k * ty[3]), ty[2]) for k in range(ty[1]))
            if ty[0] == 'struct':
                return tuple(self.loadv(st, i, off_add(off, fo), t) for fo, t in ty[1])
        o = self.obj(st, i)
        size = tsize(ty)
        if not isinstance(off, int) or o.arrs or o.layout:
            parts = self.arr_parts(st, i, off, size, ty)
            if parts is not None:
                return self.coerce(parts, ty)
            o = self.obj(st, i)
        parts = self.cell_parts(st, i, o, off, size, ty)
        return self.coerce(parts, ty)

    def cell_parts(self, st, i, o, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return [c]
        parts = []
        pos = off
        end = off + size
        while pos < end:
            c = o.cells.get(pos)
            if c is not None:
                if c[0] <= end - pos:
                    parts.append(c)
                    pos += c[0]
                    continue
                parts.append((end - pos, self.subpart(c, 0, end - pos)))
                pos = end
                continue
            # a cell that begins before pos and covers it?
            hit = None
            for b in range(1, 16):
                c = o.cells.get(pos - b)
                if c is not None:
                    if c[0] > b:
                        hit = (b, c)
                    break
            if hit:
                b, c = hit
                n = min(c[0] - b, end - pos)
                parts.append((n, self.subpart(c, b, n)))
                pos += n
                continue
            # gap up to next cell
            n = 1
            while pos + n < end and (pos + n) not in o.cells:
                n += 1
            if o.base == 'zero':
                parts.append((n, 0))
            elif n == size:
                src, so = (o.src[0], o.src[1]) if o.src else (i, 0)
                v = self.init_value(i, pos, ty if isinstance(ty, str) else 'i%d' % (8 * n))
                if ty == 'i1':
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                    v = SI(v, 0, 1)
                return [(n, v)]
            else:
                v = self.init_value(i, pos, 'i%d' % (8 * n))
                parts.append((n, v))
            pos += n
        return parts

    def subpart(self, c, start, n):
        size, v = c
        if isinstance(v, Blob):
            raise Unsupported('sub blob')
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return to_signed((v >> (8 * start)) & ((1 << (8 * n)) - 1), 8 * n)
        if isinstance(v, SI):
            u = self.unsigned(v, size * 8)
            e = u.e
            if start:
                e = e / (1 << (8 * start))
            e = e % (1 << (8 * n))
            return self.from_unsigned(e, 8 * n)
        if v is U:
            return U
        self.notes.add('partial read of a typed value')
        return self.fresh_int(8 * n)

    def from_unsigned(self, e, bits):
        m = 1 << (bits - 1)
        return SI(z3.If(e >= m, e - (1 << bits), e), -m, m - 1)

    def coerce(self, parts, ty):
        if len(parts) == 1:
            v = parts[0][1]
            if ty in ('f32', 'f64'):
                if isinstance(v, FV):
                    return v
                if v is U:
                    return self.fresh_val(ty)
                if isinstance(v, int):
                    return frac_of_bits(v, int(ty[1:]))
                if isinstance(v, Blob) and len(v.parts) == 1:
                    return self.coerce(v.parts, ty)
                self.notes.add('int bits read as float: value abstracted')
                return self.fresh_val(ty)
            if ty == 'ptr':
                if isinstance(v, (P, PIte, FnP)):
                    return v
                if isinstance(v, Blob) and len(v.parts) == 1:
                    return v.parts[0][1]
                if isinstance(v, int):
                    return P(0, v)
                if v is U:
                    return P(0, 0)
                return self.unknown_ptr()
            if ty == 'i1':
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, SI):
                    return v.e == 1
                if v is U:
                    return z3.Bool(self.fresh('u'))
                return v
            if ty[0] == 'i':
                bits = int(ty[1:])
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, int):
                    return to_signed(v, bits)
                if isinstance(v, z3.BoolRef):
                    return SI(iex(v), 0, 1)
                if isinstance(v, SI):
                    return v
                if v is U:
                    return self.fresh_int(bits)
                if isinstance(v, Blob):
                    return v
                return Blob([(parts[0][0], v)])
        # several parts
        flat = []
        for s, v in parts:
            if isinstance(v, Blob):
                flat.extend(v.parts)
            else:
                flat.append((s, v))
        if all(isinstance(v, int) for _, v in flat):
            r = 0
            sh = 0
            for s, v in flat:
                r |= (int(v) & ((1 << (8 * s)) - 1)) << sh
                sh += 8 * s
            return self.coerce([(sh // 8, to_signed(r, sh))], ty)
        if ty[0] == 'i':
            return Blob(flat)
        if ty == 'ptr' and flat and isinstance(flat[0][1], (P, PIte)) and flat[0][0] == 8:
            return flat[0][1]
        self.notes.add('mixed parts read as %s' % ty)
        return self.fresh_val(ty)

    def blob_int(self, b, bits):
        """Blob of ints -> SI"""
        if len(b.parts) == 1:
            v = b.parts[0][1]
            if isinstance(v, (int, SI)):
                return v
            if isinstance(v, FV):
                return None
            return None
        e = None
        sh = 0
        for s, v in b.parts:
            if not isinstance(v, (int, SI, bool, z3.BoolRef)):
                return None
            lo, hi = rng(v)
            u = iex(v)
            if lo < 0:
                u = z3.If(u < 0, u + (1 << (8 * s)), u)
            t = u * (1 << sh) if sh else u
            e = t if e is None else e + t
            sh += 8 * s
        return self.from_unsigned(e, bits)

    # --- array-mode objects
    def arr_key(self, o, off):
        """(stride, field, index expr) for an offset, or None"""
        if isinstance(off, int):
            if o.stride is None:
                return None
            return o.stride, off % o.stride, z3.IntVal(off // o.stride)
        g = 0
        for k, _ in off.t:
            g = gcd(g, abs(k))
        s = o.stride
        if s is None:
            s = g
        if g % s != 0:
            return None
        fld = off.c % s
        e = None
        for k, x in off.t:
            k = k // s
            t = x if k == 1 else k * x
            e = t if e is None else e + t
        c = (off.c - fld) // s
        if c:
            e = e + c
        return s, fld, e

    def to_arrays(self, st, i, stride):
        """move concrete cells of object i into arrays with this stride"""
        o = self.wobj(st, i)
        if o.stride is None:
            o.stride = stride
        if o.stride != stride:
            raise Unsupported('stride change %s -> %s on %s' % (o.stride, stride, o.name))
        return o

    def mk_arr(self, st, i, o, s, fld, ty):
        if ty in ('f32', 'f64', 'x32', 'x64'):
            kind, bits, rs = 'f', int(ty[1:]), z3.RealSort()
        elif ty[0] == 'i':
            kind, bits, rs = 'i', max(8, int(ty[1:])), z3.IntSort()
        else:
            raise Unsupported('array of %s' % ty)
        zero = z3.RealVal(0) if kind == 'f' else z3.IntVal(0)
        if o.base == 'zero':
            d = z3.K(z3.IntSort(), zero)
        else:
            key = ('A', o.src if o.src else i, s, fld, kind)
            d = self.initreg.get(key)
            if d is None:
                d = z3.Array(self.fresh('A%s_%d' % (i, fld)), z3.IntSort(), rs)
                self.initreg[key] = d
        a = Arr(kind, bits, d)
        if ty[0] == 'x' and o.base != 'zero':
            k2 = ('AS', o.src if o.src else i, s, fld)
            if k2 not in self.initreg:
                self.special_arr(a)
                self.initreg[k2] = (a.nan, a.pi, a.ni)
            a.nan, a.pi, a.ni = self.initreg[k2]
        # move concrete cells in
        offs = [off for off in sorted(o.cells) if off % s == fld]
        common = None
        if isinstance(o.size, int) and a.nan is None and len(offs) == (o.size - fld + s - 1) // s > 8:
            # every element is known: the most frequent value is the base
            cnt = {}
            for off in offs:
                v = o.cells[off][1]
                if kind == 'i' and isinstance(v, int) and not isinstance(v, bool):
                    cnt[v] = cnt.get(v, 0) + 1
                elif kind == 'f' and isinstance(v, FV) and isinstance(v.r, Fraction) and not v.special():
                    cnt[v.r] = cnt.get(v.r, 0) + 1
            if cnt:
                common = max(cnt, key=lambda k: cnt[k])
                a.d = z3.K(z3.IntSort(), z3.IntVal(common) if kind == 'i' else rex(common))
        for off in offs:
            if True:
                cs, v = o.cells[off]
                if common is not None and not isinstance(v, bool) and (v == common if isinstance(v, int) else isinstance(v, FV) and not v.special() and isinstance(v.r, Fraction) and v.r == common):
                    del o.cells[off]
                    continue
                self.arr_store(a, z3.IntVal(off // s), v)
                del o.cells[off]
        o.arrs[(s, fld)] = a
        return a

    def special_arr(self, a):
        """tags of an array of arbitrary floats, NaN and infinities included"""
        for nm in ('nan', 'pi', 'ni'):
            setattr(a, nm, z3.Array(self.fresh('AT' + nm), z3.IntSort(), z3.BoolSort()))
        j = z3.Int('j!tag')
        self.facts.append(z3.ForAll([j], z3.And(z3.Not(z3.And(a.nan[j], a.pi[j])), z3.Not(z3.And(a.nan[j], a.ni[j])), z3.Not(z3.And(a.pi[j], a.ni[j])))))

    def arr_store(self, a, idx, v):
        if a.kind == 'f':
            if isinstance(v, int):
                v = frac_of_bits(v, a.bits)
            if v is U:
                v = FV(self.fresh_real())
            if isinstance(v, Blob) and len(v.parts) == 1:
                v = v.parts[0][1]
            if not isinstance(v, FV):
                raise Unsupported('non-float into float array')
            a.d = z3.Store(a.d, idx, rex(v.r))
            for nm in ('nan', 'pi', 'ni'):
                f = getattr(v, nm)
                arr = getattr(a, nm)
                if f is not False and arr is None:
                    arr = z3.K(z3.IntSort(), z3.BoolVal(False))
                if arr is not None:
                    setattr(a, nm, z3.Store(arr, idx, bex(f)))
        else:
            if v is U:
                v = self.fresh_int(a.bits)
            if isinstance(v, Blob):
                v2 = self.blob_int(v, a.bits)
                if v2 is None:
                    raise Unsupported('blob into int array')
                v = v2
            a.d = z3.Store(a.d, idx, iex(v))

    def sel(self, arr, idx):
        """select with read-over-write simplification for syntactically decidable indices"""
        d = arr
        if z3.is_quantifier(d):
            return z3.substitute_vars(d.body(), idx)
        if z3.is_app_of(d, z3.Z3_OP_ITE) and self.has_lambda(d):
            x, y = self.sel(d.arg(1), idx), self.sel(d.arg(2), idx)
            return x if x.eq(y) else z3.If(d.arg(0), x, y)
        simple = z3.simplify(idx)
        n = 0
        while z3.is_store(d) and n < 5000:
            n += 1
            k = d.arg(1)
            if k.eq(idx) or k.eq(simple):
                return d.arg(2)
            df = z3.simplify(k - simple)
            if z3.is_int_value(df):
                if df.as_long() == 0:
                    return d.arg(2)
                d = d.arg(0)
                continue
            break
        if z3.is_const_array(d):
            return d.arg(0)
        if not d.eq(arr) and (z3.is_quantifier(d) or z3.is_app_of(d, z3.Z3_OP_ITE)):
            return self.sel(d, idx)
        if z3.is_store(d) and self.has_lambda(d):
            return z3.If(d.arg(1) == idx, d.arg(2), self.sel(d.arg(0), idx))
        return z3.Select(d, idx)

    def has_lambda(self, d):
        path = []
        while True:
            c = self.lamcache.get(d.get_id())
            if c is not None:
                r = c[1]
                break
            path.append(d)
            if z3.is_quantifier(d):
                r = True
                break
            if z3.is_store(d):
                d = d.arg(0)
                continue
            r = z3.is_app_of(d, z3.Z3_OP_ITE) and (self.has_lambda(d.arg(1)) or self.has_lambda(d.arg(2)))
            break
        for x in path:
            self.lamcache[x.get_id()] = (x, r)
        return r

    def arr_load(self, a, idx):
        if a.kind == 'f':
            v = FV(self.sel(a.d, idx))
            for nm in ('nan', 'pi', 'ni'):
                arr = getattr(a, nm)
                if arr is not None:
                    b = self.sel(arr, idx)
                    b = True if z3.is_true(b) else False if z3.is_false(b) else b
                    setattr(v, nm, b)
            if z3.is_rational_value(v.r):
                v.r = Fraction(v.r.numerator_as_long(), v.r.denominator_as_long())
            return v
        e = self.sel(a.d, idx)
        if z3.is_int_value(e):
            return e.as_long()
        m = 1 << (a.bits - 1)
        if z3.is_select(e):
            key = ('rng', e.get_id())
            if key not in self.initreg:
                self.initreg[key] = e
                self.facts.append(z3.And(e >= -m, e <= m - 1))
        return SI(e, -m, m - 1)

    def small_enum(self, o, off):
        """candidate concrete offsets of a symbolic access into a small cell-mode object"""
        if o.stride is not None or o.size is None or not isinstance(o.size, int) or o.layout:
            return None
        g = 0
        for k, _ in off.t:
            g = gcd(g, abs(k))
        n = o.size // g
        if n > self.o.get('enum', 40):
            return None
        return [off.c % g + k * g for k in range(n + 1) if off.c % g + k * g < o.size]

    def arr_parts(self, st, i, off, size, ty):
        o = self.obj(st, i)
        if isinstance(off, int):
            if o.stride is None:
                return None
        else:
            cand = self.small_enum(o, off)
            if cand is not None:
                cand = [c for c in cand if c + size <= o.size]
                if not cand:
                    return [(size, self.fresh_val(ty))]
                e = off.expr()
                r = None
                for c in reversed(cand):
                    v = self.coerce(self.cell_parts(st, i, o, c, size, ty), ty)
                    r = v if r is None else ite(e == c, v, r)
                return [(size, r if not isinstance(r, bool) else int(r))] if not isinstance(r, z3.BoolRef) else [(size, SI(iex(r), 0, 1))]
        k = self.arr_key(o, off)
        if k is None:
            raise Unsupported('symbolic offset with irregular stride on %s (%r, stride %s)' % (o.name, off, o.stride))
        s, fld, idx = k
        if o.stride is None:
            o = self.to_arrays(st, i, s)
        a = o.arrs.get((s, fld))
        fits = False
        if a is not None and a.bits == size * 8:
            return [(size, self.arr_load(a, idx))]
        # known layout?
        if a is None and o.layout and fld in o.layout and tsize(o.layout[fld]) == size:
            o = self.wobj(st, i)
            a = self.mk_arr(st, i, o, s, fld, o.layout[fld])
            return [(size, self.arr_load(a, idx))]
        # compose from sub-fields
        subs = self.subfields(o, s, fld, size)
        if subs:
            parts = []
            o = self.wobj(st, i)
            for f2, t2 in subs:
                a2 = o.arrs.get((s, f2))
                if a2 is None:
                    a2 = self.mk_arr(st, i, o, s, f2, t2)
                parts.append((a2.bits // 8, self.arr_load(a2, idx)))
            return parts
        if a is None and not isinstance(off, int) or a is None and o.base != 'undef' or a is None and off not in o.cells:
            if a is None and isinstance(off, int) and off in o.cells:
                return None
            if ty == 'ptr':
                if isinstance(off, int):
                    return None
                raise Unsupported('pointer load at symbolic index from %s' % o.name)
            o = self.wobj(st, i)
            a = self.mk_arr(st, i, o, s, fld, 'i8' if ty == 'i1' else ty)
            return [(size, self.arr_load(a, idx))]
        if a is None:
            return None
        raise Unsupported('array field size mismatch on %s' % o.name)

    def subfields(self, o, s, fld, size):
        out = []
        pos = fld
        while pos < fld + size:
            if (s, pos) in o.arrs:
                a = o.arrs[(s, pos)]
                out.append((pos, '%s%d' % (a.kind, a.bits)))
                pos += a.bits // 8
            elif o.layout and pos in o.layout:
                out.append((pos, o.layout[pos]))
                pos += tsize(o.layout[pos])
            elif o.layout and out:
                pos += 1       # padding
            else:
                return None
        if pos != fld + size or len(out) < 1:
            return None
        if len(out) == 1 and tsize(out[0][1]) == size and (s, fld) not in o.arrs and not (o.layout and fld in o.layout):
            return None
        return out

    def parts_of(self, ty, v):
        """value -> [(size, part)]"""
        if isinstance(v, Blob):
            return list(v.parts)
        if ty == 'i1':
            if isinstance(v, bool):
                v = int(v)
            elif isinstance(v, z3.BoolRef):
                v = SI(iex(v), 0, 1)
        return [(tsize(ty), v)]

    def store(self, st, p, ty, v):
        alts = self.deref(st, p, 'store')
        if not alts:
            st.dead = True
            st.g = st.g + (z3.BoolVal(False),)
            return
        if len(alts) == 1:
            self.store1(st, alts[0][1], ty, v)
            return
        for c, q in alts:
            sv = st.g
            st.g = st.g + ((c,) if c is not True else ())
            old = self.load1(st, q, ty)
            self.store1(st, q, ty, ite(c, v, old) if c is not True else v)
            st.g = sv

    def store1(self, st, q, ty, v):
        o = self.obj(st, q.o)
        self.in_bounds(st, o, q.off, tsize(ty), 'store')
        if o.const and not self.dry:
            self.oblige(st, False, 'store to constant object', 'memory')
        self.storev(st, q.o, q.off, ty, v)

    def storev(self, st, i, off, ty, v):
        if not isinstance(ty, str):
            if v is U:
                return
            if ty[0] == 'vec':
                s = tsize(ty[2])
                for k in range(ty[1]):
                    self.storev(st, i, off_add(off, k * s), ty[2], v[k])
                return
            if ty[0] == 'arr':
                for k in range(ty[1]):
                    self.storev(st, i, off_add(off, k * ty[3]), ty[2], v[k])
                return
            if ty[0] == 'struct':
                for k, (fo, t) in enumerate(ty[1]):
                    self.storev(st, i, off_add(off, fo), t, v[k])
                return
        pos = off
        for s, pv in self.parts_of(ty, v):
            self.store_part(st, i, pos, s, pv)
            pos = off_add(pos, s)

    def store_part(self, st, i, off, size, v):
        o = self.wobj(st, i)
        if isinstance(off, int) and o.stride is None:
            if self.wlog is not None:
                self.wlog.add(('c', i, off, size))
            self.put_cell(o, off, size, v)
            return
        if not isinstance(off, int):
            cand = self.small_enum(o, off)
            if cand is not None:
                cand = [c for c in cand if c + size <= o.size]
                e = off.expr()
                ty = self.guess_ty(v, size)
                for c in cand:
                    old = self.coerce(self.cell_parts(st, i, o, c, size, ty), ty)
                    nv = ite(e == c, v, old)
                    if isinstance(nv, z3.BoolRef):
                        nv = SI(iex(nv), 0, 1)
                    if self.wlog is not None:
                        self.wlog.add(('c', i, c, size))
                    self.put_cell(o, c, size, nv)
                return
        k = self.arr_key(o, off)
        if k is None:
            raise Unsupported('symbolic store, irregular stride on %s' % o.name)
        s, fld, idx = k
        if o.stride is None:
            o = self.to_arrays(st, i, s)
        if isinstance(v, (P, PIte, FnP)):
            if isinstance(off, int):
                if self.wlog is not None:
                    self.wlog.add(('c', i, off, size))
                self.put_cell(o, off, size, v)
                return
            raise Unsupported('pointer store at symbolic index into %s' % o.name)
        a = o.arrs.get((s, fld))
        if a is None:
            ty = self.guess_ty(v, size)
            if o.layout and fld in o.layout:
                ty = o.layout[fld]
            subs = self.subfields(o, s, fld, size)
            if subs and isinstance(v, (int, SI)) and len(subs) > 1:
                # integer store covering several fields (e.g. zeroing)
                if isinstance(v, int):
                    vs = split_int(v, [tsize(t) for _, t in subs])
                    for (f2, t2), (sz, x) in zip(subs, vs):
                        self.store_part(st, i, off_add(off, f2 - fld), sz, frac_of_bits(x, sz * 8) if t2[0] == 'f' else to_signed(x, sz * 8))
                    return
                raise Unsupported('wide int store over fields')
            a = self.mk_arr(st, i, o, s, fld, ty)
        a = a.copy()
        o.arrs[(s, fld)] = a
        if a.bits != size * 8:
            subs = self.subfields(o, s, fld, size)
            if subs and isinstance(v, int):
                vs = split_int(v, [tsize(t) for _, t in subs])
                for (f2, t2), (sz, x) in zip(subs, vs):
                    self.store_part(st, i, off_add(off, f2 - fld), sz, frac_of_bits(x, sz * 8) if t2[0] == 'f' else to_signed(x, sz * 8))
                return
            raise Unsupported('array field width change on %s' % o.name)
        if self.wlog is not None:
            self.wlog.add(('a', i, s, fld))
        self.arr_store(a, idx, v)

    def guess_ty(self, v, size):
        if isinstance(v, FV):
            return 'f%d' % (8 * size)
        if isinstance(v, (P, PIte, FnP)):
            return 'ptr'
        return 'i%d' % (8 * size)

    def put_cell(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        # remove overlaps
        for k in range(off - 15, off + size):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del o.cells[k]
            if k < off:
                o.cells[k] = (off - k, self.subpart(c, 0, off - k))
            if k + c[0] > off + size:
                n = k + c[0] - (off + size)
                o.cells[off + size] = (n, self.subpart(c, off + size - k, n))
        o.cells[off] = (size, v)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        da = self.deref(st, d, 'memcpy dst')
        sa = self.deref(st, s, 'memcpy src')
        if not isinstance(n, int):
            self.memcpy_sym(st, da, sa, n)
            return
        if len(da) != 1 or len(sa) != 1:
            # element-wise through 8/4/1-byte pieces
            if n > 256:
                raise Unsupported('large memcpy through merged pointer')
            szs = None
            tmp = []
            for c, q in sa:
                tmp.append([(pos, z, v) for pos, z, v in self.range_parts(st, q, n)])
            # common refinement must agree
            shapes = [tuple((p, z) for p, z, _ in t) for t in tmp]
            if any(x != shapes[0] for x in shapes):
                raise Unsupported('memcpy of differently shaped sources')
            vals = []
            for k in range(len(shapes[0])):
                r = None
                for (c, q), t in reversed(list(zip(sa, tmp))):
                    r = t[k][2] if r is None else ite(c, t[k][2], r)
                vals.append(r)
            for (pos, z), v in zip(shapes[0], vals):
                if v is U:
                    continue
                self.store(st, self.padd(d, pos), self.guess_ty(v, z), v if not isinstance(v, FV) else v)
            return
        dq, sq = da[0][1], sa[0][1]
        so = self.obj(st, sq.o)
        do = self.obj(st, dq.o)
        self.in_bounds(st, so, sq.off, n, 'memcpy source')
        self.in_bounds(st, do, dq.off, n, 'memcpy destination')
        parts = self.range_parts(st, sq, n)
        so = self.obj(st, sq.o)
        if isinstance(sq.off, int) and sq.off == 0 and isinstance(dq.off, int) and dq.off == 0 and so.size == n and do.size == n and (self.wlog is None or n > 4096):
            w = self.wobj(st, dq.o)
            w.cells = dict(so.cells)
            w.arrs = {k: a.copy() for k, a in so.arrs.items()}
            w.stride, w.base, w.layout = so.stride, so.base, so.layout
            w.src = so.src if so.src else sq.o
            if self.wlog is not None:
                self.wlog.add(('all', dq.o))
            return
        for pos, z, v in parts:
            if v is U:
                w = self.wobj(st, dq.o)
                if isinstance(dq.off, int) and w.stride is None:
                    if self.wlog is not None:
                        self.wlog.add(('c', dq.o, dq.off + pos, z))
                    if z <= 8:
                        self.put_cell(w, dq.off + pos, z, U)
                    else:
                        for k in [k for k in w.cells if dq.off + pos <= k < dq.off + pos + z]:
                            del w.cells[k]
                continue
            self.store_part(st, dq.o, off_add(dq.off, pos), z, v)

    def range_parts(self, st, q, n):
        """typed parts of n bytes at q: [(rel offset, size, value)]"""
        o = self.obj(st, q.o)
        out = []
        if isinstance(q.off, int) and o.stride is None:
            pos = q.off
            end = q.off + n
            keys = None
            while pos < end:
                c = o.cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    out.append((pos - q.off, c[0], c[1]))
                    pos += c[0]
                    continue
                hit = None
                for b in range(0, 16):
                    c2 = o.cells.get(pos - b)
                    if c2 is not None:
                        if c2[0] > b:
                            hit = (b, c2)
                        break
                if hit:
                    b, c2 = hit
                    m = min(c2[0] - b, end - pos)
                    out.append((pos - q.off, m, self.subpart(c2, b, m)))
                    pos += m
                    continue
                m = 1
                while pos + m < end and (pos + m) not in o.cells:
                    m += 1
                if o.base == 'zero':
                    # split to words
                    k = 0
                    while k < m:
                        w = min(4, m - k) if (pos + k) % 4 == 0 else 1
                        if w == 3:
                            w = 1
                        out.append((pos + k - q.off, w, 0))
                        k += w
                else:
                    out.append((pos - q.off, m, U))
                pos += m
            return out
        # array mode: walk known fields
        k = self.arr_key(o, q.off)
        if k is None:
            raise Unsupported('memcpy from irregular symbolic offset of %s' % o.name)
        s, fld, idx = k
        if o.stride is None:
            # layout unknown, cell mode with symbolic offset: infer field types from the cells of element 0
            lay = {}
            for off, (z, v) in o.cells.items():
                lay.setdefault(off % s, self.guess_ty(v, z))
            o = self.wobj(st, q.o)
            o.stride = s
            o.layout = lay
        pos = 0
        while pos < n:
            f = (fld + pos) % s
            t = None
            if (s, f) in o.arrs:
                a = o.arrs[(s, f)]
                t = '%s%d' % (a.kind, a.bits)
            elif o.layout and f in o.layout:
                t = o.layout[f]
            if t is None:
                if isinstance(q.off, int) and (q.off + pos) in o.cells:
                    c = o.cells[q.off + pos]
                    out.append((pos, c[0], c[1]))
                    pos += c[0]
                    continue
                m = 1
                while pos + m < n and (s, (fld + pos + m) % s) not in o.arrs and not (o.layout and (fld + pos + m) % s in o.layout) and not (isinstance(q.off, int) and (q.off + pos + m) in o.cells):
                    m += 1
                out.append((pos, m, U))
                pos += m
                continue
            z = tsize(t)
            v = self.loadv(st, q.o, off_add(q.off, pos), t)
            o = self.obj(st, q.o)
            out.append((pos, z, v))
            pos += z
        return out

    def memcpy_sym(self, st, da, sa, n):
        """symbolic length: the destination object takes over the source's contents (whole copies only)"""
        if len(da) == 1 and len(sa) == 1:
            dq, sq = da[0][1], sa[0][1]
            if isinstance(dq.off, int) and dq.off == 0 and isinstance(sq.off, int) and sq.off == 0:
                so = self.obj(st, sq.o)
                do = self.obj(st, dq.o)
                if not so.cells and not do.cells or (do.base == 'undef' and not do.arrs and not do.cells):
                    ne = iex(n)
                    for o, w in ((so, 'source'), (do, 'destination')):
                        if o.size is not None:
                            sz = z3.IntVal(o.size) if isinstance(o.size, int) else o.size
                            self.oblige(st, z3.And(ne >= 0, ne <= sz), 'memcpy %s within bounds' % w, 'memory')
                    w = self.wobj(st, dq.o)
                    w.arrs = {k: a.copy() for k, a in so.arrs.items()}
                    w.cells = dict(so.cells)
                    w.stride, w.layout, w.base = so.stride, so.layout, so.base
                    w.src = so.src if so.src else sq.o
                    if self.wlog is not None:
                        self.wlog.add(('all', dq.o))
                    return
        raise Unsupported('memcpy of symbolic length')

    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0:
            return
        da = self.deref(st, d, 'memset')
        for c, q in da:
            if c is not True and len(da) > 1:
                raise Unsupported('memset through merged pointer')
            o = self.obj(st, q.o)
            if not isinstance(n, int):
                if v == 0 and isinstance(q.off, int) and q.off == 0:
                    ne = iex(n)
                    if o.size is not None:
                        sz = z3.IntVal(o.size) if isinstance(o.size, int) else o.size
                        if not (isinstance(o.size, z3.ExprRef) and ne.eq(o.size)):
                            self.oblige(st, z3.And(ne >= 0, ne <= sz), 'memset within bounds', 'memory')
                    w = self.wobj(st, q.o)
                    whole = o.size is not None and (self.must(st, ne == (z3.IntVal(o.size) if isinstance(o.size, int) else o.size)))
                    fresh_obj = o.base == 'undef' and not o.cells and not o.arrs and o.layout is None
                    if whole or fresh_obj:
                        w.cells = {}
                        w.arrs = {}
                        w.base = 'zero'
                        if self.wlog is not None:
                            self.wlog.add(('all', q.o))
                        return
                raise Unsupported('memset of symbolic length')
            self.in_bounds(st, o, q.off, n, 'memset')
            if isinstance(q.off, int) and q.off == 0 and o.size == n and v == 0 and (self.wlog is None or n > 4096):
                w = self.wobj(st, q.o)
                w.cells = {}
                w.arrs = {}
                w.base = 'zero'
                if self.wlog is not None:
                    self.wlog.add(('all', q.o))
                return
            if not isinstance(v, int):
                raise Unsupported('memset symbolic value')
            k = 0
            b = v & 0xff
            while k < n:
                z = 1
                if isinstance(q.off, int):
                    for cand in (8, 4, 2):
                        if (q.off + k) % cand == 0 and k + cand <= n:
                            z = cand
                            break
                    if z == 8 and b == 0:
                        z = 4
                else:
                    z = 4 if k + 4 <= n else 1
                val = 0
                for _ in range(z):
                    val = (val << 8) | b
                self.store_part(st, q.o, off_add(q.off, k), z, to_signed(val, 8 * z))
                k += z

    # ---------------------------------------------------------------- state merge
    def merge(self, a, b):
        """-> (state, cond) where cond selects a"""
        if a.dead:
            return b, False
        if b.dead:
            return a, True
        n = 0
        la, lb = len(a.g), len(b.g)
        while n < la and n < lb and (a.g[n] is b.g[n] or a.g[n].eq(b.g[n])):
            n += 1
        ra, rb = a.g[n:], b.g[n:]
        ca, cb = conj(list(ra)), conj(list(rb))
        s = State()
        if ca is True or cb is True:
            # one guard implies the other: select by the longer one
            s.g = a.g[:n]
            cond = ca if ca is not True else Not_(cb)
            if ca is True and cb is True:
                cond = True
        else:
            cond = ca
            if ra[0].eq(Not_(rb[0])) or rb[0].eq(Not_(ra[0])):
                cond = ra[0]
                if len(ra) == 1 and len(rb) == 1:
                    s.g = a.g[:n]
                elif len(rb) == 1:
                    # c /\ rest  or  not c
                    s.g = a.g[:n] + (z3.Or(rb[0], conj(list(ra[1:]))),)
                elif len(ra) == 1:
                    s.g = a.g[:n] + (z3.Or(ra[0], conj(list(rb[1:]))),)
                else:
                    s.g = a.g[:n] + (z3.Or(ca, cb),)
            else:
                s.g = a.g[:n] + (z3.Or(ca, cb),)
        if isinstance(cond, bool):
            c = cond
        else:
            c = cond
        mem = {}
        for i, oa in a.mem.items():
            ob = b.mem.get(i)
            if ob is None or ob is oa:
                mem[i] = oa
            else:
                mem[i] = self.merge_obj(c, i, oa, ob, a, b)
                s.owned.add(i)
        for i, ob in b.mem.items():
            if i not in mem:
                mem[i] = ob
        s.mem = mem
        s.cut = dict(a.cut)
        return s, c

    def merge_obj(self, c, i, oa, ob, sa, sb):
        o = Obj(oa.size, oa.base, oa.name)
        if oa.size is not ob.size and not (isinstance(oa.size, int) and oa.size == ob.size):
            raise Unsupported('merge of object sizes')
        o.const, o.src = oa.const, oa.src
        o.layout = oa.layout or ob.layout
        if oa.stride != ob.stride:
            # bring the cell-mode side into array mode
            s = oa.stride or ob.stride
            if oa.stride is None:
                oa = oa.copy()
                oa.stride = s
            if ob.stride is None:
                ob = ob.copy()
                ob.stride = s
        o.stride = oa.stride
        if oa.base != ob.base:
            # materialise: only supported when one side's default is never needed
            for x, y in ((oa, ob), (ob, oa)):
                if x.base == 'zero' and y.base != 'zero':
                    cover = sum(z for z, _ in y.cells.values())
                    if isinstance(o.size, int) and cover >= o.size and not y.arrs:
                        o.base = 'zero'
                        break
                    if y.stride is None and x.stride is None and isinstance(o.size, int) and o.size <= 16384:
                        # make zero cells explicit in x
                        x2 = x.copy()
                        k = 0
                        while k < o.size:
                            cc = x2.cells.get(k)
                            if cc is not None:
                                k += cc[0]
                                continue
                            z = y.cells[k][0] if k in y.cells else (4 if k % 4 == 0 and k + 4 <= o.size else 1)
                            x2.cells[k] = (z, 0)
                            k += z
                        if x is oa:
                            oa = x2
                        else:
                            ob = x2
                        o.base = y.base
                        break
                    o.base = 'undef'
            else:
                o.base = 'undef'
        if o.stride is not None:
            s = o.stride
            keys = set(oa.arrs) | set(ob.arrs)
            for k in sorted(keys):
                A, B = oa.arrs.get(k), ob.arrs.get(k)
                if A is None or B is None:
                    ref = A or B
                    t = ref.kind + str(ref.bits)
                    if A is None:
                        oa = oa.copy()
                        A = self.mk_arr(sa, i, oa, s, k[1], t)
                    else:
                        ob = ob.copy()
                        B = self.mk_arr(sb, i, ob, s, k[1], t)
                if A is B or (A.d.eq(B.d) and A.nan is B.nan and A.pi is B.pi and A.ni is B.ni):
                    o.arrs[k] = A
                    continue
                r = Arr(A.kind, A.bits, A.d if A.d.eq(B.d) else z3.If(c, A.d, B.d) if not isinstance(c, bool) else (A.d if c else B.d))
                for nm in ('nan', 'pi', 'ni'):
                    x, y = getattr(A, nm), getattr(B, nm)
                    if x is None and y is None:
                        continue
                    f = z3.K(z3.IntSort(), z3.BoolVal(False))
                    x = f if x is None else x
                    y = f if y is None else y
                    setattr(r, nm, z3.If(c, x, y) if not isinstance(c, bool) else (x if c else y))
                o.arrs[k] = r
        if oa.cells is ob.cells:
            o.cells = dict(oa.cells)
            return o
        cells = {}
        ca, cb = oa.cells, ob.cells
        todo_b = None
        for off, (z, v) in ca.items():
            w = cb.get(off)
            if w is not None and w[0] == z:
                cells[off] = (z, v if v is w[1] or c is True else w[1] if c is False else ite(c, v, w[1]))
        miss = [off for off in ca if off not in cells] + [off for off in cb if off not in cells]
        if miss:
            self.merge_ragged(c, i, oa, ob, sa, sb, cells, sorted(set(miss)))
        o.cells = cells
        return o

    def merge_ragged(self, c, i, oa, ob, sa, sb, cells, miss):
        done = -1
        for off in miss:
            if off < done:
                continue
            za = oa.cells.get(off)
            zb = ob.cells.get(off)
            if za is None and zb is None:
                continue
            if za is not None and zb is not None:
                z = max(za[0], zb[0])
            else:
                z = (za or zb)[0]
            v = (za or zb)[1]
            ty = self.guess_ty(v, z)
            try:
                x = za[1] if za is not None and za[0] == z else self.coerce(self.cell_parts(sa, i, oa, off, z, ty), ty)
                y = zb[1] if zb is not None and zb[0] == z else self.coerce(self.cell_parts(sb, i, ob, off, z, ty), ty)
                if isinstance(x, z3.BoolRef):
                    x = SI(iex(x), 0, 1)
                if isinstance(y, z3.BoolRef):
                    y = SI(iex(y), 0, 1)
                m = ite(c, x, y) if not isinstance(c, bool) else (x if c else y)
            except Unsupported:
                # value defined on one side only and never-initialised on the other
                if za is None and oa.base == 'undef':
                    m = zb[1]
                elif zb is None and ob.base == 'undef':
                    m = za[1]
                else:
                    raise
            # a cell only present on one side where the other side's memory was never written
            if isinstance(m, Blob):
                p = off
                for s2, v2 in m.parts:
                    cells[p] = (s2, v2)
                    p += s2
            else:
                cells[off] = (z, m)
            done = off + z

    # ---------------------------------------------------------------- constants / operands
    def const(self, v):
        k = v[0]
        if k == 'i':
            x = int(v[1])
            if v[2] == 1:
                return bool(x & 1)
            return x
        if k == 'f':
            if v[2] == 80:
                raise Unsupported('x87 constant')
            return frac_of_bits(int(v[1]), v[2])
        if k == 'null':
            return P(0, 0)
        if k == 'fn':
            return FnP(v[1])
        if k == 'g':
            return self.global_ptr(v[1])
        if k == 'undef':
            return self.undef(v[1])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'agg':
            return tuple(self.const(x) for x in v[1])
        if k == 'ce':
            return self.constexpr(v[1])
        if k == 'md':
            return None
        raise Unsupported('const %r' % (v,))

    def undef(self, ty):
        if isinstance(ty, str):
            return U
        if ty[0] in ('vec', 'arr'):
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        return tuple(self.undef(t) for _, t in ty[1])

    def zero(self, ty):
        if isinstance(ty, str):
            if ty == 'ptr':
                return P(0, 0)
            if ty[0] == 'f':
                return FV(Fraction(0))
            return False if ty == 'i1' else 0
        if ty[0] in ('vec', 'arr'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        return tuple(self.zero(t) for _, t in ty[1])

    def constexpr(self, j):
        op = j['op']
        if op == 'getelementptr':
            b = self.const(j['base'])
            if j['var']:
                raise Unsupported('variable constexpr gep')
            return self.padd(b, j['off'])
        if op in ('bitcast', 'addrspacecast'):
            return self.const(j['ops'][0])
        if op == 'inttoptr':
            return P(0, self.const(j['ops'][0]))
        if op == 'ptrtoint':
            return Blob([(8, self.const(j['ops'][0]))])
        if op == 'sub':
            return self.binop(None, 'sub', j['ty'], self.const(j['ops'][0]), self.const(j['ops'][1]), j)
        raise Unsupported('constexpr %s' % op)

    def op(self, env, v):
        if v[0] == 'r':
            return env[v[1]]
        return self.const(v)

    def padd(self, p, off):
        if isinstance(p, Blob) and len(p.parts) == 1:
            p = p.parts[0][1]
        if isinstance(off, int) and off == 0:
            return p
        if isinstance(p, P):
            return P(p.o, off_add(p.off, off))
        if isinstance(p, PIte):
            return PIte([(c, self.padd(q, off)) for c, q in p.alts])
        if p is U:
            return U
        if isinstance(p, int):
            return P(0, off_add(p, off))
        raise Unsupported('gep on %r' % (p,))

    # ---------------------------------------------------------------- integers
    def unsigned(self, v, bits):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v & ((1 << bits) - 1)
        if isinstance(v, SI):
            if v.lo >= 0:
                return v
            if v.hi < 0:
                return SI(v.e + (1 << bits), v.lo + (1 << bits), v.hi + (1 << bits))
            return SI(z3.If(v.e < 0, v.e + (1 << bits), v.e), 0, (1 << bits) - 1)
        raise Unsupported('unsigned of %r' % (v,))

    def wrap(self, e, lo, hi, bits):
        """mathematical integer (expr, interval) -> canonical machine value"""
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if isinstance(e, int):
            return to_signed(e, bits)
        if lo >= mn and hi <= mx:
            return SI(e, lo, hi)
        M = 1 << bits
        if lo > mx:
            if hi <= mx + M:
                return SI(e - M, lo - M, hi - M)
        if hi < mn:
            if lo >= mn - M:
                return SI(e + M, lo + M, hi + M)
        if lo >= mn - M and hi <= mx + M:
            r = e
            if hi > mx:
                r = z3.If(e > mx, e - M, r)
            if lo < mn:
                r = z3.If(e < mn, e + M, r)
            return SI(r, mn, mx)
        return SI((e - mn) % M + mn, mn, mx)

    def toint(self, v, bits):
        if isinstance(v, Blob):
            r = self.blob_int(v, bits)
            if r is None:
                return v
            return r
        if v is U:
            return self.fresh_int(bits, 'u')
        return v

    def binop(self, st, op, ty, a, b, ins):
        if not isinstance(ty, str):
            return tuple(self.binop(st, op, ty[2], x, y, ins) for x, y in zip(a, b))
        if ty == 'i1':
            return self.boolop(op, a, b)
        bits = int(ty[1:])
        a, b = self.toint(a, bits), self.toint(b, bits)
        if isinstance(a, Blob) or isinstance(b, Blob):
            return self.blobop(st, op, bits, a, b)
        ca, cb = isinstance(a, (int, bool)), isinstance(b, (int, bool))
        if ca:
            a = int(a)
        if cb:
            b = int(b)
        M = (1 << bits) - 1
        if ca and cb:
            if op == 'add':
                return to_signed(a + b, bits)
            if op == 'sub':
                return to_signed(a - b, bits)
            if op == 'mul':
                return to_signed(a * b, bits)
            if op == 'and':
                return to_signed(a & b, bits)
            if op == 'or':
                return to_signed(a | b, bits)
            if op == 'xor':
                return to_signed(a ^ b, bits)
            if op == 'shl':
                return to_signed(a << b, bits)
            if op == 'lshr':
                return to_signed((a & M) >> b, bits)
            if op == 'ashr':
                return to_signed(a >> b, bits)
            if op in ('sdiv', 'srem'):
                if b == 0:
                    self.oblige(st, False, 'division by zero', 'ub')
                    st.assume(False)
                    return 0
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return to_signed(q if op == 'sdiv' else a - q * b, bits)
            if op in ('udiv', 'urem'):
                if b == 0:
                    self.oblige(st, False, 'division by zero', 'ub')
                    st.assume(False)
                    return 0
                x, y = a & M, b & M
                return to_signed(x // y if op == 'udiv' else x % y, bits)
        la, ha = rng(a)
        lb, hb = rng(b)
        if op in ('add', 'sub', 'mul'):
            ea, eb = iex(a), iex(b)
            if op == 'add':
                if cb and b == 0:
                    return a
                if ca and a == 0:
                    return b
                e, lo, hi = ea + eb, la + lb, ha + hb
            elif op == 'sub':
                if cb and b == 0:
                    return a
                e, lo, hi = ea - eb, la - hb, ha - lb
            else:
                if cb and b == 1:
                    return a
                if ca and a == 1:
                    return b
                if (cb and b == 0) or (ca and a == 0):
                    return 0
                e = ea * eb
                cs = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(cs), max(cs)
            mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            if (lo < mn or hi > mx) and ins.get('nsw'):
                if self.o['ovf'] and st is not None:
                    self.oblige(st, z3.And(e >= mn, e <= mx), 'no signed overflow in %s' % op, 'overflow')
                return SI(e, max(lo, mn), min(hi, mx))
            return self.wrap(e, lo, hi, bits)
        if op == 'shl':
            if cb:
                return self.binop(st, 'mul', ty, a, to_signed(1 << b, bits) if b < bits - 1 else -(1 << (bits - 1)), ins)
        if op == 'ashr' and cb:
            return SI(iex(a) / (1 << b), la >> b, ha >> b)
        if op == 'lshr' and cb:
            if b == 0:
                return a
            u = self.unsigned(a, bits)
            return SI(u.e / (1 << b), u.lo >> b, u.hi >> b)
        if op in ('udiv', 'urem') and la >= 0 and lb >= 0:
            op = {'udiv': 'sdiv', 'urem': 'srem'}[op]
        if op in ('udiv', 'urem') and cb:
            u = self.unsigned(a, bits)
            d = b & M
            if op == 'udiv':
                return self.wrap(u.e / d, u.lo // d, u.hi // d, bits)
            return self.wrap(u.e % d, 0, d - 1, bits)
        if op in ('sdiv', 'srem'):
            ea, eb = iex(a), iex(b)
            if lb <= 0 <= hb:
                if st is not None:
                    self.oblige(st, eb != 0, 'integer division by zero', 'ub')
            if op == 'srem' and cb and b > 0 and not ca and not (la >= 0 and ha < b) and st is not None and not self.qdepth:
                c = z3.And(ea >= 0, ea < b)
                if self.must(st, c, 100):
                    return SI(ea, 0, b - 1)
            if op == 'srem' and cb and la >= 0 and ha < b:
                return a
            if la >= 0 and lb > 0 or (la >= 0 and lb >= 0):
                q = ea / eb
                if op == 'sdiv':
                    return SI(q, 0, ha)
                return SI(ea % eb, 0, min(ha, max(hb - 1, 0)) if hb > 0 else ha)
            if cb:
                m = abs(b)
                q = z3.If(ea >= 0, ea / m, -((-ea) / m))
                if b < 0:
                    q = -q
                if op == 'sdiv':
                    cs = [abs(la) // m, abs(ha) // m]
                    return self.wrap(q, -max(cs), max(cs), bits)
                r = z3.If(ea >= 0, ea % m, -((-ea) % m))
                return SI(r, -(m - 1) if la < 0 else 0, (m - 1) if ha > 0 else 0)
            ab = z3.If(eb >= 0, eb, -eb)
            aa = z3.If(ea >= 0, ea, -ea)
            q = aa / ab
            q = z3.If((ea >= 0) == (eb >= 0), q, -q)
            mx = max(abs(la), abs(ha))
            if op == 'sdiv':
                return SI(q, -mx, mx)
            return SI(ea - q * eb, -mx, mx)
        if op == 'and':
            if ca:
                a, b, ca, cb, la, ha, lb, hb = b, a, cb, ca, lb, hb, la, ha
            if cb:
                if b == -1:
                    return a
                if b == 0:
                    return 0
                bu = b & M
                if (bu & (bu + 1)) == 0 and bu < (1 << (bits - 1)):
                    if la >= 0 and ha <= bu:
                        return a
                    q0, q1 = la // (bu + 1), ha // (bu + 1)
                    if q0 == q1:
                        k = q0 * (bu + 1)
                        return SI(iex(a) - k, la - k, ha - k)
                    if q1 == q0 + 1:
                        k = q1 * (bu + 1)
                        return SI(z3.If(iex(a) >= k, iex(a) - k, iex(a) - q0 * (bu + 1)), 0, bu)
                    return SI(iex(a) % (bu + 1), 0, bu)
                # ~low mask
                inv = (~bu) & M
                if (inv & (inv + 1)) == 0:
                    return SI(iex(a) - iex(a) % (inv + 1), la - inv, ha)
                if bu & (bu - 1) == 0:   # single bit
                    sh = bu.bit_length() - 1
                    u = self.unsigned(a, bits)
                    return self.wrap(((u.e / bu) % 2) * bu, 0, bu, bits)
        if op == 'xor' and cb and b == -1:
            return SI(-1 - iex(a), -1 - ha, -1 - la)
        if op == 'or':
            if cb and b == 0:
                return a
            if ca and a == 0:
                return b
        if op == 'xor' and (cb and b == 0):
            return a
        # both 0/1 valued
        if la >= 0 and ha <= 1 and lb >= 0 and hb <= 1 and op in ('and', 'or', 'xor'):
            x, y = iex(a) == 1, iex(b) == 1
            r = z3.And(x, y) if op == 'and' else z3.Or(x, y) if op == 'or' else z3.Xor(x, y)
            return SI(z3.If(r, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if op == 'or' and ins.get('disjoint'):
            return self.wrap(iex(a) + iex(b), la + lb, ha + hb, bits)
        if op in ('or', 'and', 'xor', 'shl', 'lshr', 'ashr') and bits <= 64:
            x = z3.Int2BV(iex(a), bits)
            y = z3.Int2BV(iex(b), bits)
            if op == 'or':
                for u, lv, hv in ((a, lb, hb), (b, la, ha)):
                    if lv >= 0 and isinstance(u, SI) and hv < self.pow2_factor(u.e):
                        return self.wrap(iex(a) + iex(b), la + lb, ha + hb, bits)
            r = {'or': lambda: x | y, 'and': lambda: x & y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            self.notes.add('bit-vector operation via int2bv')
            if op == 'or':
                e = z3.BV2Int(r, True)
                self.signs[e.get_id()] = (e, z3.And(iex(a) >= 0, iex(b) >= 0))
                return SI(e, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            return SI(z3.BV2Int(r, True), -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        self.notes.add('integer op %s abstracted' % op)
        return self.fresh_int(bits, 'x')

    def pow2_factor(self, e):
        """a power of two that divides e"""
        r = 1
        if z3.is_mul(e):
            for x in e.children():
                if z3.is_int_value(x):
                    v = x.as_long()
                    if v:
                        r *= v & -v
        return r

    def blobop(self, st, op, bits, a, b):
        if op == 'sub' and isinstance(a, Blob) and isinstance(b, Blob) and len(a.parts) == 1 and len(b.parts) == 1:
            r = self.pdiff(st, a.parts[0][1], b.parts[0][1])
            if r is not None:
                return r
        if op in ('add', 'sub') and isinstance(a, Blob) and len(a.parts) == 1 and isinstance(a.parts[0][1], (P, PIte)) and isinstance(b, (int, SI)):
            o = b if isinstance(b, int) else Off(0, ((1, b.e),))
            if op == 'sub':
                o = off_neg(o)
            return Blob([(8, self.padd(a.parts[0][1], o))])
        if op == 'add' and isinstance(b, Blob) and isinstance(a, (int, SI)):
            return self.blobop(st, op, bits, b, a)
        if op == 'lshr' and isinstance(a, Blob) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            parts = []
            pos = 0
            for s, v in a.parts:
                if pos >= k:
                    parts.append((s, v))
                elif pos + s > k:
                    parts.append((pos + s - k, self.subpart((s, v), k - pos, pos + s - k)))
                pos += s
            parts.append((k, 0))
            return Blob(parts)
        if op == 'shl' and isinstance(a, Blob) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            parts = [(k, 0)]
            tot = bits // 8 - k
            pos = 0
            for s, v in a.parts:
                if pos + s <= tot:
                    parts.append((s, v))
                elif pos < tot:
                    parts.append((tot - pos, self.subpart((s, v), 0, tot - pos)))
                pos += s
            return Blob(parts)
        if op == 'or' and isinstance(a, Blob) and isinstance(b, Blob):
            return self.blob_or(a, b)
        if op == 'or':
            bl, iv = (a, b) if isinstance(a, Blob) else (b, a)
            if isinstance(iv, int):
                return self.blob_or(bl, Blob(split_int(iv & ((1 << bits) - 1), [s for s, _ in bl.parts])))
            if isinstance(iv, SI):
                return self.blob_or(bl, Blob([(bits // 8, iv)]))
        if op == 'and' and isinstance(a, Blob) and isinstance(b, int):
            bu = b & ((1 << bits) - 1)
            # fabs on float bits
            if len(a.parts) == 1 and isinstance(a.parts[0][1], FV) and bu == (1 << (bits - 1)) - 1:
                return Blob([(bits // 8, self.fabs(a.parts[0][1]))])
            parts = []
            pos = 0
            for s, v in a.parts:
                m = (bu >> (8 * pos)) & ((1 << (8 * s)) - 1)
                if m == (1 << (8 * s)) - 1:
                    parts.append((s, v))
                elif m == 0:
                    parts.append((s, 0))
                elif isinstance(v, (int, SI)):
                    parts.append((s, self.binop(st, 'and', 'i%d' % (8 * s), v, to_signed(m, 8 * s), {})))
                else:
                    raise Unsupported('and mask on blob')
                pos += s
            return Blob(parts)
        if op == 'xor' and isinstance(a, Blob) and isinstance(b, int) and len(a.parts) == 1 and isinstance(a.parts[0][1], FV):
            if (b & ((1 << bits) - 1)) == 1 << (bits - 1):
                return Blob([(bits // 8, self.fneg(a.parts[0][1]))])
        raise Unsupported('blob %s' % op)

    def blob_or(self, a, b):
        ia, ib = list(a.parts), list(b.parts)
        out = []
        pa = pb = 0
        while ia and ib:
            (sa, va), (sb, vb) = ia[0], ib[0]
            if sa == sb:
                ia.pop(0)
                ib.pop(0)
                if isinstance(vb, int) and vb == 0:
                    out.append((sa, va))
                elif isinstance(va, int) and va == 0:
                    out.append((sb, vb))
                elif isinstance(va, (int, SI)) and isinstance(vb, (int, SI)):
                    out.append((sa, self.binop(None, 'or', 'i%d' % (8 * sa), va, vb, {})))
                else:
                    raise Unsupported('blob or')
                continue
            # split the larger if it is int
            if sa > sb:
                ia[0:1] = [(sb, self.subpart((sa, va), 0, sb)), (sa - sb, self.subpart((sa, va), sb, sa - sb))]
            else:
                ib[0:1] = [(sa, self.subpart((sb, vb), 0, sa)), (sb - sa, self.subpart((sb, vb), sa, sb - sa))]
        out += ia + ib
        return Blob(out)

    def pdiff(self, st, p, q):
        if isinstance(p, P) and isinstance(q, P):
            if p.o == q.o:
                d = off_add(p.off, off_neg(q.off))
                if isinstance(d, int):
                    return d
                return SI(d.expr(), -BIG, BIG)
            if p.o == 0 or q.o == 0:
                self.notes.add('null pointer difference')
            return self.fresh_int(64, 'pd')
        if isinstance(p, (P, PIte)) and isinstance(q, (P, PIte)):
            r = None
            for c, x in (p.alts if isinstance(p, PIte) else [(True, p)]):
                for c2, y in (q.alts if isinstance(q, PIte) else [(True, q)]):
                    if x.o != y.o and len(p.alts if isinstance(p, PIte) else [1]) * len(q.alts if isinstance(q, PIte) else [1]) > 1:
                        # infeasible combination unless pointers are unrelated
                        cc = And_(c, c2)
                        if cc is not True and st is not None and self.must(st, Not_(cc)):
                            continue
                    d = self.pdiff(st, x, y)
                    cc = And_(c, c2)
                    r = d if r is None else ite(cc, d, r)
            return r
        return None

    def boolop(self, op, a, b):
        if a is U:
            a = z3.Bool(self.fresh('u'))
        if b is U:
            b = z3.Bool(self.fresh('u'))
        if op == 'and' or op == 'mul':
            return And_(a, b)
        if op == 'or':
            return Or_(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return Not_(a) if b else a
            return z3.Xor(a, b)
        raise Unsupported('i1 %s' % op)

    def icmp(self, st, pred, ty, a, b):
        if not isinstance(ty, str):
            return tuple(self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b))
        if ty == 'ptr':
            return self.pcmp(st, pred, a, b)
        if ty == 'i1':
            if a is U:
                a = z3.Bool(self.fresh('u'))
            if b is U:
                b = z3.Bool(self.fresh('u'))
            if pred == 'eq':
                return Not_(self.boolop('xor', a, b))
            if pred == 'ne':
                return self.boolop('xor', a, b)
            if pred == 'ult':
                return And_(Not_(a), b)
            if pred == 'ugt':
                return And_(a, Not_(b))
            raise Unsupported('i1 cmp ' + pred)
        bits = int(ty[1:])
        if isinstance(a, Blob) and isinstance(b, Blob) and len(a.parts) == 1 and len(b.parts) == 1 and isinstance(a.parts[0][1], (P, PIte, FnP)) and isinstance(b.parts[0][1], (P, PIte, FnP)):
            return self.pcmp(st, pred, a.parts[0][1], b.parts[0][1])
        a, b = self.toint(a, bits), self.toint(b, bits)
        if isinstance(a, Blob) or isinstance(b, Blob):
            if isinstance(a, Blob) and len(a.parts) == 1 and isinstance(a.parts[0][1], FV) and isinstance(b, int):
                f = a.parts[0][1]
                if pred == 'slt' and b == 0:
                    return self.signbit(f)
                if pred == 'sgt' and b == -1:
                    return Not_(self.signbit(f))
            if isinstance(a, Blob) and isinstance(b, int) and b == 0 and pred in ('eq', 'ne') and len(a.parts) == 1 and isinstance(a.parts[0][1], (P, PIte, FnP)):
                return self.pcmp(st, pred, a.parts[0][1], P(0, 0))
            if pred in ('eq', 'ne') and isinstance(b, int) and b == 0 and all(isinstance(v, (int, SI, FV)) for _, v in a.parts):
                r = True
                for s, v in a.parts:
                    if isinstance(v, FV):
                        raise Unsupported('icmp on float bits')
                    r = And_(r, self.icmp(st, 'eq', 'i%d' % (8 * s), v, 0))
                return r if pred == 'eq' else Not_(r)
            raise Unsupported('icmp %s on %r %r' % (pred, a, b))
        if isinstance(a, SI) and isinstance(b, int) and (pred, b) in (('sgt', -1), ('slt', 0), ('sge', 0)) and a.e.get_id() in self.signs:
            c = self.signs[a.e.get_id()][1]      # the sign of a bitwise or
            return Not_(c) if pred == 'slt' else c
        if pred[0] == 'u':
            a, b = self.unsigned(a, bits), self.unsigned(b, bits)
            pred = 's' + pred[1:]
        ca, cb = isinstance(a, (int, bool)), isinstance(b, (int, bool))
        if ca and cb:
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
        la, ha = rng(a)
        lb, hb = rng(b)
        x, y = iex(a), iex(b)
        if pred == 'eq' or pred == 'ne':
            if ha < lb or hb < la:
                return pred == 'ne'
            if x.eq(y):
                return pred == 'eq'
            # boolean-valued shortcut
            if cb and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
                t, e = x.arg(1).as_long(), x.arg(2).as_long()
                if t != e:
                    c = x.arg(0)
                    r = c if t == b else Not_(c) if e == b else False
                    return r if pred == 'eq' else Not_(r)
            return x == y if pred == 'eq' else x != y
        if pred == 'slt':
            return True if ha < lb else False if la >= hb else x < y
        if pred == 'sle':
            return True if ha <= lb else False if la > hb else x <= y
        if pred == 'sgt':
            return True if la > hb else False if ha <= lb else x > y
        if pred == 'sge':
            return True if la >= hb else False if ha < lb else x >= y
        raise Unsupported(pred)

    def pcmp(self, st, pred, a, b):
        def norm(p):
            if isinstance(p, Blob) and len(p.parts) == 1:
                p = p.parts[0][1]
            if isinstance(p, int):
                return P(0, p)
            if p is U:
                return P(0, 0)
            return p
        a, b = norm(a), norm(b)
        if isinstance(a, PIte) or isinstance(b, PIte):
            r = False
            for c, p in (a.alts if isinstance(a, PIte) else [(True, a)]):
                for c2, q in (b.alts if isinstance(b, PIte) else [(True, b)]):
                    r = Or_(r, And_(And_(c, c2), self.pcmp(st, pred, p, q)))
            return r
        if isinstance(a, FnP) or isinstance(b, FnP):
            e = isinstance(a, FnP) and isinstance(b, FnP) and a.n == b.n
            return e if pred == 'eq' else not e
        if a.o == b.o:
            d = off_add(a.off, off_neg(b.off))
            if isinstance(d, int):
                return {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0,
                        'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}[pred]
            x, y = off_expr(a.off), off_expr(b.off)
            # cancel a common stride
            if pred in ('eq', 'ne'):
                e = d.expr()
            z = z3.IntVal(0)
            g = abs(d.c)
            for k, _ in d.t:
                g = gcd(g, abs(k))
            if g > 1:
                e = Off(d.c // g, tuple((k // g, t) for k, t in d.t)).expr()
            return {'eq': e == z, 'ne': e != z, 'ult': e < z, 'ule': e <= z, 'ugt': e > z, 'uge': e >= z,
                    'slt': e < z, 'sle': e <= z, 'sgt': e > z, 'sge': e >= z}[pred]
        if a.o == -1 or b.o == -1:
            return z3.Bool(self.fresh('pc'))
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        if a.o == 0 or b.o == 0:
            return {'u': 1}.get(pred[0]) and ((a.o == 0) == (pred in ('ult', 'ule')))
        # distinct objects: a fixed but arbitrary order
        return (a.o < b.o) == (pred in ('ult', 'ule', 'slt', 'sle'))

    # ---------------------------------------------------------------- floats
    def spec(self, v):
        return v.special()

    def fneg(self, a):
        r = -a.r
        return FV(r, a.nan, a.ni, a.pi)

    def fabs(self, a):
        if isinstance(a.r, Fraction):
            r = abs(a.r)
        else:
            r = z3.If(a.r >= 0, a.r, -a.r)
        return FV(r, a.nan, Or_(a.pi, a.ni), False)

    def signbit(self, a):
        if isinstance(a.r, Fraction):
            s = a.r < 0
        else:
            s = a.r < 0
        if a.special():
            s = Or_(a.ni, And_(Not_(Or_(a.nan, a.pi)), s))
        return s

    def fbin(self, st, op, a, b):
        if a is U or b is U:
            return FV(self.fresh_real('u'))
        fa, fb = isinstance(a.r, Fraction), isinstance(b.r, Fraction)
        sp = a.special() or b.special()
        if op in ('fadd', 'fsub', 'fmul'):
            if fa and fb:
                r = a.r + b.r if op == 'fadd' else a.r - b.r if op == 'fsub' else a.r * b.r
                if r.denominator.bit_length() > 400:
                    r = Fraction(float(r))
            else:
                if op == 'fadd':
                    r = b.r if fa and a.r == 0 else a.r if fb and b.r == 0 else rex(a.r) + rex(b.r)
                elif op == 'fsub':
                    r = a.r if fb and b.r == 0 else rex(a.r) - rex(b.r)
                else:
                    if (fa and a.r == 0) or (fb and b.r == 0):
                        r = Fraction(0)
                    elif fa and a.r == 1:
                        r = b.r
                    elif fb and b.r == 1:
                        r = a.r
                    else:
                        r = rex(a.r) * rex(b.r)
            if not sp:
                return FV(r)
            if op == 'fsub':
                b = FV(b.r, b.nan, b.ni, b.pi)
            if op in ('fadd', 'fsub'):
                nan = Or_(Or_(a.nan, b.nan), Or_(And_(a.pi, b.ni), And_(a.ni, b.pi)))
                nn = Not_(nan)
                pi = And_(nn, Or_(a.pi, b.pi))
                ni = And_(nn, Or_(a.ni, b.ni))
                return self.mkfv(r, nan, pi, ni)
            ainf, binf = Or_(a.pi, a.ni), Or_(b.pi, b.ni)
            az, bz = self.fis0(a), self.fis0(b)
            nan = Or_(Or_(a.nan, b.nan), Or_(And_(ainf, bz), And_(binf, az)))
            inf = And_(Not_(nan), Or_(ainf, binf))
            neg = self.boolop('xor', self.signbit(a), self.signbit(b))
            return self.mkfv(r, nan, And_(inf, Not_(neg)), And_(inf, neg))
        if op == 'fdiv':
            if fa and fb and not sp:
                if b.r != 0:
                    r = a.r / b.r
                    if r.denominator.bit_length() > 400:
                        r = Fraction(float(r))
                    return FV(r)
                if a.r == 0:
                    return FV(Fraction(0), nan=True)
                return FV(Fraction(0), pi=a.r > 0, ni=a.r < 0)
            if fb:
                if b.r != 0:
                    r = a.r if b.r == 1 else rex(a.r) * rex(1 / b.r)
                    if not sp:
                        return FV(r)
                    if not b.special():
                        return self.mkfv(r, a.nan, a.pi if b.r > 0 else a.ni, a.ni if b.r > 0 else a.pi)
                bz = (b.r == 0)
            else:
                bz = b.r == 0
                if self.must(st, Or_(b.r != 0, False) if not b.special() else z3.Or(b.r != 0, bex(b.nan), bex(b.pi), bex(b.ni))):
                    bz = False
            if bz is True:
                r = Fraction(0)
            else:
                r = self.divr(rex(a.r), rex(b.r)) if not (fa and a.r == 0) else Fraction(0)
            if not sp and bz is False:
                return FV(r)
            ainf, binf = Or_(a.pi, a.ni), Or_(b.pi, b.ni)
            bz = And_(bz, Not_(Or_(b.nan, binf)))
            az = self.fis0(a)
            nan = Or_(Or_(a.nan, b.nan), Or_(And_(ainf, binf), And_(az, bz)))
            inf = And_(Not_(nan), Or_(ainf, bz))
            sb = self.signbit(b)
            if bz is not False:
                # sign of a zero divisor is not modelled: either
                z = z3.Bool(self.fresh('zs'))
                sb = z if bz is True else z3.If(bz, z, bex(sb))
            neg = self.boolop('xor', self.signbit(a), sb)
            if binf is not False:
                r = z3.If(bex(binf), z3.RealVal(0), rex(r))
            return self.mkfv(r, nan, And_(inf, Not_(neg)), And_(inf, neg))
        if op == 'frem':
            return self.fmod(st, a, b)
        raise Unsupported(op)

    def divr(self, x, y):
        """x/y as a fresh quotient q with q*y == x (one per syntactic pair)"""
        key = ('div', x.get_id(), y.get_id())
        e = self.apps.get(key)
        if e is None:
            q = self.fresh_real('q')
            if self.ufsqrt:
                self.facts.append(q == z3.Function('div_', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))
            self.facts.append(z3.Implies(y != 0, z3.And(q * y == x, z3.Implies(x == 0, q == 0),
                              z3.Implies(z3.And(x > 0, y > 0), q > 0), z3.Implies(z3.And(x < 0, y > 0), q < 0),
                              z3.Implies(z3.And(x > 0, y < 0), q < 0), z3.Implies(z3.And(x < 0, y < 0), q > 0))))
            e = (q, x, y)
            self.apps[key] = e
        return e[0]

    def fis0(self, a):
        z = (a.r == 0)
        return And_(Not_(Or_(a.nan, Or_(a.pi, a.ni))), z)

    def mkfv(self, r, nan, pi, ni):
        return FV(r, nan, pi, ni)

    def fmod(self, st, a, b):
        if a.special() or b.special():
            raise Unsupported('fmod on special')
        if isinstance(b.r, Fraction) and b.r != 0:
            q = self.ftrunc(self.fbin(st, 'fdiv', a, b))
            return self.fbin(st, 'fsub', a, self.fbin(st, 'fmul', q, b))
        q = self.ftrunc(self.fbin(st, 'fdiv', a, b))
        r = self.fbin(st, 'fsub', a, self.fbin(st, 'fmul', FV(q.r), b))
        return FV(r.r, q.nan, q.pi, q.ni) if q.special() else r

    def _round(self, a, f, g):
        if isinstance(a.r, Fraction):
            r = Fraction(f(a.r))
        else:
            r = z3.ToReal(g(a.r))
        return FV(r, a.nan, a.pi, a.ni)

    def toI(self, x):
        """floor of a real as an Int with its defining bounds"""
        if z3.is_to_real(x):
            return x.arg(0)
        if not self.qdepth:
            x = self.canon(x)
        key = ('floor', x.get_id())
        e = self.apps.get(key)
        if e is None:
            k = z3.Int(self.fresh('fl'))
            self.facts.append(z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
            e = (k, x)
            self.apps[key] = e
        return e[0]

    def ffloor(self, a):
        return self._round(a, lambda x: x.numerator // x.denominator, lambda x: self.toI(x))

    def fceil(self, a):
        return self._round(a, lambda x: -((-x.numerator) // x.denominator), lambda x: -self.toI(-x))

    def ftrunc(self, a):
        return self._round(a, lambda x: int(x), lambda x: z3.If(x >= 0, self.toI(x), -self.toI(-x)))

    def fround(self, a):
        h = Fraction(1, 2)
        return self._round(a, lambda x: int(x + h) if x >= 0 else -int(-x + h),
                           lambda x: z3.If(x >= 0, self.toI(x + z3.Q(1, 2)), -self.toI(-x + z3.Q(1, 2))))

    def by_range(self, x, y):
        """the order of an input and a constant outside its range (None: not known)"""
        flip = isinstance(x, Fraction)
        v, c = (y, x) if flip else (x, y)
        if not isinstance(c, Fraction) or not z3.is_const(v) or v.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        lo, hi = self.vrange.get(v.decl().name(), (None, None))
        if lo is not None and c < lo:
            r = 1
        elif hi is not None and c > hi:
            r = -1
        else:
            return None
        return ('gt', 'ge', 'ne') if (r > 0) != flip else ('lt', 'le', 'ne')

    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.fcmp(st, pred, x, y) for x, y in zip(a, b))
        if a is U or b is U:
            return z3.Bool(self.fresh('u'))
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        uno = Or_(a.nan, b.nan)
        if pred == 'uno':
            return uno
        if pred == 'ord':
            return Not_(uno)
        rel = pred[1:]
        x, y = a.r, b.r
        fc = isinstance(x, Fraction) and isinstance(y, Fraction)
        known = None if fc else self.by_range(x, y)
        if not fc:
            x, y = rex(x), rex(y)
        if known is not None:
            c = rel in known
        elif rel == 'eq':
            c = x == y if not (not fc and x.eq(y)) else True
        elif rel == 'ne':
            c = x != y if not (not fc and x.eq(y)) else False
        elif rel == 'lt':
            c = x < y if not (not fc and x.eq(y)) else False
        elif rel == 'le':
            c = x <= y if not (not fc and x.eq(y)) else True
        elif rel == 'gt':
            c = x > y if not (not fc and x.eq(y)) else False
        elif rel == 'ge':
            c = x >= y if not (not fc and x.eq(y)) else True
        inf = not (a.pi is False and a.ni is False and b.pi is False and b.ni is False)
        if inf:
            # extended-real comparison: rank -1, 0, +1
            anyinf = Or_(Or_(a.pi, a.ni), Or_(b.pi, b.ni))
            lt = Or_(And_(a.ni, Not_(b.ni)), And_(Not_(a.pi), b.pi))
            gt = Or_(And_(b.ni, Not_(a.ni)), And_(Not_(b.pi), a.pi))
            eq = Or_(And_(a.pi, b.pi), And_(a.ni, b.ni))
            ci = {'eq': eq, 'ne': Not_(eq), 'lt': lt, 'le': Or_(lt, eq), 'gt': gt, 'ge': Or_(gt, eq)}[rel]
            if isinstance(anyinf, bool):
                c = ci if anyinf else c
            else:
                c = Or_(And_(anyinf, ci), And_(Not_(anyinf), c))
        if pred[0] == 'o':
            return And_(Not_(uno), c)
        return Or_(uno, c)

    def fptoint(self, st, a, bits, signed):
        if a is U:
            return self.fresh_int(bits)
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(a.r, Fraction) and not a.special():
            k = int(a.r)
            if not (mn <= k <= mx):
                if self.o['conv']:
                    self.oblige(st, False, 'float to integer conversion in range', 'ub')
                return self.fresh_int(bits)
            return to_signed(k, bits)
        x = rex(a.r)
        if z3.is_to_real(x):
            t = x.arg(0)
        else:
            t = z3.If(x >= 0, self.toI(x), -self.toI(-x))
        ok = z3.And(t >= mn, t <= mx)
        if a.special():
            ok = z3.And(ok, z3.Not(bex(Or_(a.nan, Or_(a.pi, a.ni)))))
        ok = z3.simplify(ok)
        proved = z3.is_true(ok)
        if self.o['conv']:
            self.oblige(st, ok if not proved else True, 'float to integer conversion in range', 'ub')
            proved = True      # the obligation carries it
        elif not proved:
            proved = self.must(st, ok)
        if proved:
            return SI(t, mn, mx) if signed or bits == 64 else self.wrap(t, mn, mx, bits)
        f = self.fresh_int(bits)
        return SI(z3.If(ok, t, f.e), -(1 << (bits - 1)), (1 << (bits - 1)) - 1)

    def inttofp(self, v, bits, signed):
        v = self.toint(v, bits)
        if isinstance(v, Blob):
            raise Unsupported('blob to fp')
        if isinstance(v, z3.BoolRef):
            return FV(z3.If(v, z3.RealVal(-1 if signed else 1), z3.RealVal(0)))
        if not signed:
            v = self.unsigned(v, bits)
        if isinstance(v, (bool, int)):
            return FV(Fraction(int(v)))
        return FV(z3.ToReal(v.e))

    def fsqrt(self, st, a):
        if a is U:
            return FV(self.fresh_real())
        if isinstance(a.r, Fraction):
            if a.special():
                return a
            if a.r < 0:
                return FV(Fraction(0), nan=True)
            n, d = a.r.numerator, a.r.denominator
            from math import isqrt
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return FV(Fraction(isqrt(n), isqrt(d)))
            x = rex(a.r)
        else:
            x = a.r
        if self.qdepth:
            # inside a quantifier: the function symbol only (its defining facts are added where the program takes a root)
            self.ufsqrt = True
            return FV(z3.Function('sqrt_', z3.RealSort(), z3.RealSort())(x))
        x = self.canon(x)
        key = ('sqrt', x.get_id())
        e = self.apps.get(key)
        if e is None:
            r = self.fresh_real('sq')
            if self.ufsqrt:
                self.facts.append(r == z3.Function('sqrt_', z3.RealSort(), z3.RealSort())(x))
            self.facts.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            self.facts.append(z3.Implies(x > 0, r > 0))
            e = (r, x)
            # monotonicity against previously taken roots is implied by r*r == x
            self.apps[key] = e
        r = e[0]
        neg = x < 0
        if isinstance(a.r, Fraction) or self.must(st, z3.Or(x >= 0, bex(Or_(a.nan, Or_(a.pi, a.ni))))):
            neg = False
        nan = Or_(a.nan, Or_(a.ni, And_(neg, Not_(a.pi))))
        return FV(r, nan, a.pi, False)

    def canon(self, x):
        """the expression first seen that is the same polynomial as x"""
        if not small(x, 60):
            return x
        n = z3.simplify(x, som=True)
        key = frozenset(tuple(sorted(f.get_id() for f in (m.children() if z3.is_mul(m) else [m]))) for m in (n.children() if z3.is_add(n) else [n]))
        return self.reps.setdefault(key, (x, n))[0]

    def fapp(self, name, *xs):
        """uninterpreted real function application, memoised"""
        if not self.qdepth:
            xs = [self.canon(x) for x in xs]
        key = (name,) + tuple(x.get_id() for x in xs)
        e = self.apps.get(key)
        if e is None:
            f = self.uf.get((name, len(xs)))
            if f is None:
                f = z3.Function(name, *([z3.RealSort()] * (len(xs) + 1)))
                self.uf[(name, len(xs))] = f
            if self.qdepth:
                return f(*xs), False      # a bound variable: the application itself
            v = self.fresh_real(name)
            self.facts.append(v == f(*xs))
            e = (v, xs)
            self.apps[key] = e
            return v, True
        return e[0], False

    def trig_pair(self, x):
        key = ('trig', x.get_id())
        e = self.apps.get(key)
        if e is None:
            s, _ = self.fapp('sin', x)
            c, _ = self.fapp('cos', x)
            self.facts.append(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
            p = rex(PI0)
            h = rex(PI0 / 2)
            self.facts.append(z3.And(z3.Implies(z3.And(x > 0, x < p), s > 0), z3.Implies(z3.And(x < 0, x > -p), s < 0),
                                     z3.Implies(x == 0, z3.And(s == 0, c == 1)), z3.Implies(z3.Or(x == p, x == -p), z3.And(s == 0, c == -1)),
                                     z3.Implies(x == h, z3.And(s == 1, c == 0)), z3.Implies(x == -h, z3.And(s == -1, c == 0)),
                                     z3.Implies(z3.And(x > -h, x < h), c > 0), z3.Implies(z3.And(x > h, x <= p), c < 0), z3.Implies(z3.And(x < -h, x >= -p), c < 0)))
            self.facts.append(z3.And(z3.Implies(x >= 0, s <= x), z3.Implies(x <= 0, s >= x)))
            for s2, c2, x2 in list(self.trig.values())[-12:]:
                # injectivity on a period; parity; shifts by half and quarter turns; monotonicity; double angle
                d = x - x2
                self.facts.append(z3.Implies(z3.And(s == s2, c == c2, d < 2 * p, -d < 2 * p), x == x2))
                self.facts.append(z3.And(z3.Implies(x == -x2, z3.And(s == -s2, c == c2)),
                                         z3.Implies(z3.Or(d == 0, d == 2 * p, d == -2 * p), z3.And(s == s2, c == c2)),
                                         z3.Implies(z3.Or(d == p, d == -p), z3.And(s == -s2, c == -c2)),
                                         z3.Implies(d == h, z3.And(s == c2, c == -s2)), z3.Implies(d == -h, z3.And(s == -c2, c == s2)),
                                         z3.Implies(x + x2 == h, z3.And(s == c2, c == s2)), z3.Implies(z3.Or(x + x2 == p, x + x2 == -p), z3.And(s == s2, c == -c2))))
                self.facts.append(z3.And(z3.Implies(z3.And(0 <= x, x < x2, x2 <= p), c > c2), z3.Implies(z3.And(0 <= x2, x2 < x, x <= p), c2 > c),
                                         z3.Implies(z3.And(-h <= x, x < x2, x2 <= h), s < s2), z3.Implies(z3.And(-h <= x2, x2 < x, x <= h), s2 < s)))
                for (sa, ca, xa, sb, cb, xb) in ((s, c, x, s2, c2, x2), (s2, c2, x2, s, c, x)):
                    if z3.simplify(xa - 2 * xb).eq(z3.RealVal(0)):
                        self.facts.append(z3.And(sa == 2 * sb * cb, ca == 1 - 2 * sb * sb, ca == 2 * cb * cb - 1))
            e = (s, c, x)
            self.apps[key] = e
            self.trig[key] = e
        return e

    def fatan2(self, st, y, x):
        """theta with (x,y) = rho (cos, sin) theta, rho >= 0"""
        key = ('atan2', y.get_id(), x.get_id())
        e = self.apps.get(key)
        if e is None:
            t, _ = self.fapp('atan2', y, x)
            rho = self.fresh_real('rho')
            s, c, _ = self.trig_pair(t)
            p = rex(PI0)
            h = rex(PI0 / 2)
            self.facts.append(z3.And(rho >= 0, rho * rho == x * x + y * y, x == rho * c, y == rho * s, t <= p, t > -p))
            self.facts.append(z3.Implies(z3.And(y == 0, x >= 0), t == 0))
            self.facts.append(z3.Implies(z3.And(y == 0, x < 0), t == p))
            self.facts.append(z3.Implies(z3.And(x == 0, y > 0), t == h))
            self.facts.append(z3.Implies(z3.And(x == 0, y < 0), t == -h))
            self.facts.append(z3.Implies(y > 0, t > 0))
            self.facts.append(z3.Implies(y < 0, t < 0))
            self.facts.append(z3.Implies(x >= 0, z3.And(t <= h, t >= -h)))
            e = (t, y, x)
            self.apps[key] = e
        return e[0]
