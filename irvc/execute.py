"""irvc: instruction semantics, calls, loops, library models."""
import heapq
import re
import time
from fractions import Fraction
from math import gcd
import z3
from .values import Unsupported, FV, SI, Off, off_add, off_neg, off_expr, P, FnP, PIte, Blob, _U, frac_of_bits, fv_of_float, PI0, rex, bex, iex, rng, And_, Or_, Not_, conj, same, Ite_b, ite, _coerce_part, split_int, to_signed, ite_ptr, ite_off, U
from .engine import Engine, State, Obj, Arr, Fn, Obl, NeedCut, tsize, BIG

# external functions that have no effect on anything the contracts speak about
IGNORABLE = re.compile(r'^(_ZNSo|_ZStls|_ZNSt8ios_base|_ZNSt9basic_ios|_ZNSolsE|_ZNSt7__cxx1118basic_stringstream|_ZNSt7__cxx1119basic_ostringstream|'
                       r'printf$|puts$|putchar$|fprintf$|fwrite$|vc_log|_ZSt16__ostream_insert|_ZSt4endl|_ZNKSt5ctype|_ZSt4cout|_ZSt4cerr|'
                       r'__cxa_atexit|_ZNSt6locale|_ZNSt6chrono|clock$|pthread_|_ZNSt6thread|_ZNSt18condition_variable|__cxa_guard|'
                       r'_ZNSt15basic_streambuf|_ZSt17__throw_bad_alloc_ignored|usleep|nanosleep|_ZNSt13random_device)')
NORETURN_THROW = re.compile(r'^(_ZSt\d+__throw_|__cxa_throw$|__cxa_rethrow|_ZSt9terminatev|abort$|_ZN5Eigen8internal19throw_std_bad_alloc|__cxa_bad_cast|__cxa_throw_bad_array|__clang_call_terminate|exit$|_exit$)')


def demangled(ir, n):
    d = ir.get('demangled')
    if d is None:
        import subprocess
        ns = list(ir['functions']) + list(ir['decls'])
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(ns), stdout=subprocess.PIPE, text=True)
        d = ir['demangled'] = dict(zip(ns, r.stdout.split('\n')))
    return d.get(n, n)


# no loop runs longer than this (assumption; it also keeps int counters from wrapping)
KMAX = (1 << 31) - (1 << 21)


class Exec(Engine):
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            j = self.ir['functions'].get(name)
            if j is None:
                return None
            f = Fn(name, j)
            self.fns[name] = f
        return f

    # ------------------------------------------------------------ entry
    def run(self, name, ctors=True):
        st = State()
        self.in_setup = True
        if ctors:
            self.run_ctors(st)
        self.in_setup = False
        f = self.fn(name)
        r = self.call_fn(f, [], st)
        return r

    def run_ctors(self, st):
        g = self.ir['globals'].get('llvm.global_ctors')
        if not g or 'init' not in g or g['init'][0] != 'agg':
            return
        for e in g['init'][1]:
            nm = e[1][1][1] if e[1][1][0] == 'fn' else None
            if nm and self.fn(nm):
                try:
                    s2 = st.fork()
                    r = self.call_fn(self.fn(nm), [], s2)
                    if r[0] is not None:
                        st.mem = r[0].mem
                        st.owned = set()
                except Unsupported as x:
                    self.notes.add('static constructor skipped: %s' % x)

    # ------------------------------------------------------------ functions
    def call_fn(self, f, args, st):
        """-> (state|None, value, exc_state|None, exc_value)"""
        self.used_fns[f.name] = self.used_fns.get(f.name, 0) + (0 if self.dry else 1)
        if len(self.callstack) > 300:
            raise Unsupported('recursion too deep at ' + f.name)
        env = {}
        for a, v in zip(f.args, args):
            if len(a) > 2:   # byval copy
                i = self.new_obj(st, a[2], 'undef', 'byval')
                self.memcpy(st, P(i, 0), v, a[2])
                v = P(i, 0)
            env[a[0]] = v
        self.callstack.append(f.name)
        sv = self.curloc
        try:
            res = self.run_blocks(f, [(0, st, env, {})], None, None)
        finally:
            self.callstack.pop()
            self.curloc = sv
        return self.join_results(res)

    def join_results(self, res):
        rs, rv, es, ev = None, None, None, None
        for kind, s, v in res:
            if kind == 'ret':
                if rs is None:
                    rs, rv = s, v
                else:
                    rs, c = self.merge(rs, s)
                    rv = self.sel2(c, rv, v)
            elif kind == 'exc':
                if es is None:
                    es, ev = s, v
                else:
                    es, c = self.merge(es, s)
                    ev = self.sel2(c, ev, v)
        return rs, rv, es, ev

    def sel2(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is None or b is None:
            return a if b is None else b
        return ite(c, a, b)

    def run_blocks(self, f, starts, region, header, on_header=None, exits=None):
        """Process pending (block, state, env, iters) in weak topological order.
        region: restrict to these blocks (edges out of it go to `exits`), `on_header` gets back edges to header."""
        pend = {}
        heap = []
        res = []
        live = f.liveness()

        def key(b, it):
            k = []
            for h in f.parents[b]:
                if region is not None and (h == header or h not in region):
                    continue
                k.append(h)
                k.append(it.get(h, 0))
            k.append(b)
            return tuple(k)

        def push(b, st, env, it):
            if st.dead:
                return
            k = key(b, it)
            if k in pend:
                b2, s2, e2, it2 = pend[k]
                s3, c = self.merge(s2, st)
                if c is True and s3 is s2:
                    return
                if c is False and s3 is st:
                    pend[k] = (b, st, env, it)
                    return
                lv = live[b]
                e3 = {}
                for r in lv:
                    x = e2.get(r)
                    y = env.get(r)
                    if x is y:
                        if x is not None:
                            e3[r] = x
                    elif x is None:
                        e3[r] = y
                    elif y is None:
                        e3[r] = x
                    else:
                        e3[r] = self.sel2(c, x, y)
                pend[k] = (b, s3, e3, it)
            else:
                pend[k] = (b, st, env, it)
                heapq.heappush(heap, k)

        def edge(p, b, st, env, it):
            """take CFG edge p->b"""
            if st.dead:
                return
            env = self.phi_env(f, p, b, st, env)
            if region is not None and b == header:
                on_header(st, env)
                return
            if region is not None and b not in region:
                exits.append((p, b, st, env))
                return
            hs = f.parents[b]
            it2 = {h: n for h, n in it.items() if h in hs}
            if hs and hs[-1] == b and (region is None or b != header):
                if p in f.loops[b]:
                    it2[b] = it.get(b, 0) + 1
                    n = it2[b]
                    if not self.unroll_ok(f, b, n, st):
                        return
                else:
                    it2[b] = 0
            push(b, st, env, it2)

        for b, st, env, it in starts:
            if region is None:
                push(b, st, env, it)
            else:
                pend[key(b, it)] = (b, st, env, it)
                heapq.heappush(heap, key(b, it))
        while heap:
            k = heapq.heappop(heap)
            b, st, env, it = pend.pop(k)
            # invariant-cut loops
            if f.parents[b] and f.parents[b][-1] == b and (region is None or b != header) and it.get(b, 0) == 0:
                mk = f.marker.get(b, False)
                if mk or (f.name, b) in self.cutset:
                    cuts, rs = self.run_cut(f, b, st, env, mk)
                    res.extend(rs)
                    for (p2, b2, s2, e2) in cuts:
                        # env already has phis of b2
                        if region is not None and b2 == header:
                            on_header(s2, e2)
                            continue
                        if region is not None and b2 not in region:
                            exits.append((p2, b2, s2, e2))
                            continue
                        hs = f.parents[b2]
                        it2 = {h: n for h, n in it.items() if h in hs}
                        if hs and hs[-1] == b2 and p2 in f.loops[b2]:
                            it2[b2] = it.get(b2, 0) + 1
                            if not self.unroll_ok(f, b2, it2[b2], s2):
                                continue
                        push(b2, s2, e2, it2)
                    continue
            out = self.run_block(f, b, st, env)
            for o in out:
                if o[0] == 'edge':
                    edge(b, o[1], o[2], o[3], it)
                else:
                    res.append(o)
        return res

    def unroll_ok(self, f, h, n, st):
        """may iteration n of the loop at h be entered?"""
        c = st.g[-1] if st.g else None
        if n >= self.o['max_conc']:
            raise Unsupported('loop exceeds %d concrete iterations in %s' % (self.o['max_conc'], f.name))
        key = (id(f), h)
        # was anything symbolic added since the last visit?  (cheap test: guard length)
        last = self.lastg.get(key)
        gl = tuple(x.get_id() for x in st.g)
        self.lastg[key] = gl
        self.keepg.append(st.g)
        if n > 1 and last is not None and last == gl:
            return True
        if not st.g:
            return True
        lim = self.o['unroll']
        for pat, k in self.o.get('unroll_fn', {}).items():
            if pat in f.name:
                lim = k
        if 4 < n <= lim and n & (n - 1):
            return True      # feasibility is only sampled; an infeasible iteration is harmless (its guard is false)
        r = self.sat(list(st.g))
        if r is False:
            return False
        if n > lim:
            raise NeedCut(f.name, h)
        return True

    def phi_env(self, f, p, b, st, env):
        ph = f.phis[b]
        if not ph:
            return env
        new = {}
        for x in ph:
            for q, v in x['in']:
                if q == p:
                    new[x['id']] = self.op(env, v)
                    break
        e = dict(env)
        e.update(new)
        return e

    # ------------------------------------------------------------ blocks
    def run_block(self, f, b, st, env):
        blk = f.blocks[b]
        env = dict(env)
        out = []
        for ins in blk['code']:
            self.steps += 1
            if (self.steps & 1023) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit during symbolic execution')
            op = ins['op']
            if 'ln' in ins:
                self.curloc = (ins['fl'], ins['ln'])
            if op == 'br':
                if 'cond' not in ins:
                    out.append(('edge', ins['succ'][0], st, env))
                    return out
                c = self.op(env, ins['cond'])
                if c is U:
                    c = z3.Bool(self.fresh('u'))
                s0, s1 = ins['succ']
                if s0 == s1:
                    out.append(('edge', s0, st, env))
                    return out
                c = self.decide(st, c)
                if c is True:
                    out.append(('edge', s0, st, env))
                elif c is False:
                    out.append(('edge', s1, st, env))
                else:
                    s2 = st.fork()
                    st.assume(c)
                    s2.assume(Not_(c))
                    out.append(('edge', s0, st, env))
                    out.append(('edge', s1, s2, env))
                return out
            if op == 'switch':
                v = self.op(env, ins['cond'])
                bits = ins['cases'][0][0][2] if ins['cases'] else 32
                v = self.toint(v, bits) if not isinstance(v, (bool, z3.BoolRef)) else v
                if isinstance(v, (bool, int)):
                    for cv, t in ins['cases']:
                        if int(cv[1]) == int(v) or (bits == 1 and (int(cv[1]) & 1) == int(v)):
                            out.append(('edge', t, st, env))
                            return out
                    out.append(('edge', ins['default'], st, env))
                    return out
                targets = {}
                rest = True
                e = iex(v)
                lo, hi = rng(v)
                for cv, t in ins['cases']:
                    k = int(cv[1])
                    if k < lo or k > hi:
                        continue
                    c = e == k
                    targets.setdefault(t, []).append(c)
                    rest = And_(rest, Not_(c))
                dflt = ins['default']
                ts = list(targets.items())
                for t, cs in ts:
                    s2 = st.fork()
                    c = z3.Or(*cs) if len(cs) > 1 else cs[0]
                    c = self.decide(s2, c)
                    s2.assume(c)
                    out.append(('edge', t, s2, env))
                st.assume(self.decide(st, z3.simplify(rest) if rest is not True else True))
                out.append(('edge', dflt, st, env))
                return out
            if op == 'ret':
                out.append(('ret', st, self.op(env, ins['v']) if 'v' in ins else None))
                return out
            if op == 'unreachable':
                return out
            if op == 'resume':
                out.append(('exc', st, self.op(env, ins['ops'][0])))
                return out
            if op in ('call', 'invoke'):
                r, v, es, ev = self.do_call(f, ins, st, env)
                if op == 'invoke':
                    if es is not None and not es.dead:
                        e2 = dict(env)
                        e2['exc'] = ev
                        out.append(('edge', ins['unwind'], es, e2))
                    if r is None or r.dead:
                        return out
                    st = r
                    if 'id' in ins:
                        env[ins['id']] = v
                    out.append(('edge', ins['normal'], st, env))
                    return out
                if es is not None and not es.dead:
                    out.append(('exc', es, ev))
                if r is None or r.dead:
                    return out
                st = r
                if 'id' in ins:
                    env[ins['id']] = v
                continue
            v = self.simple(f, b, st, env, ins, op)
            if st.dead:
                return out
            if 'id' in ins:
                env[ins['id']] = v
        return out

    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        for x in st.g[-40:]:
            if x is c or x.eq(c):
                return True
            if z3.is_not(x) and x.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(x):
                return False
        s = z3.simplify(c) if self.o.get('simp', True) else c
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return c

    # ------------------------------------------------------------ simple instructions
    FB = ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
    IB = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem')

    def simple(self, f, b, st, env, ins, op):
        if op in self.IB:
            return self.binop(st, op, ins['ty'], self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1]), ins)
        if op in self.FB:
            x, y = self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1])
            if isinstance(ins['ty'], list):
                if x is U or y is U:
                    return self.undef(ins['ty'])
                return tuple(self.fbin(st, op, p, q) for p, q in zip(x, y))
            return self.fbin(st, op, x, y)
        if op == 'fneg':
            x = self.op(env, ins['ops'][0])
            if isinstance(x, tuple):
                return tuple(self.fneg(p) if p is not U else U for p in x)
            return self.fneg(x) if x is not U else U
        if op == 'load':
            return self.load(st, self.op(env, ins['ops'][0]), ins['ty'])
        if op == 'store':
            self.store(st, self.op(env, ins['ops'][1]), ins['sty'], self.op(env, ins['ops'][0]))
            return None
        if op == 'getelementptr':
            p = self.op(env, ins['base'])
            off = ins['off']
            for sc, ve, vt in ins['var']:
                v = self.op(env, ve)
                bits = int(vt[1:])
                v = self.toint(v, bits)
                if isinstance(v, Blob):
                    raise Unsupported('gep by pointer-int')
                if isinstance(v, (bool, int)):
                    off = off_add(off, sc * int(v))
                elif isinstance(v, SI):
                    off = off_add(off, self.lin(sc, v.e))
                else:
                    off = off_add(off, Off(0, ((sc, iex(v)),)))
            return self.padd(p, off)
        if op == 'icmp':
            x, y = self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1])
            if ins['pred'] in ('eq', 'ne') and self.cutrec is not None:
                self.rec_cmp(f, b, ins, x, y)
            return self.icmp(st, ins['pred'], ins['oty'], x, y)
        if op == 'fcmp':
            return self.fcmp(st, ins['pred'], self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1]))
        if op == 'select':
            c = self.op(env, ins['ops'][0])
            x, y = self.op(env, ins['ops'][1]), self.op(env, ins['ops'][2])
            if isinstance(c, tuple):
                return tuple(self.sel1(p, q, r) for p, q, r in zip(c, x, y))
            return self.sel1(c, x, y)
        if op in ('zext', 'sext', 'trunc'):
            return self.intcast(st, op, ins['oty'], ins['ty'], self.op(env, ins['ops'][0]))
        if op in ('sitofp', 'uitofp'):
            x = self.op(env, ins['ops'][0])
            t = ins['oty']
            if isinstance(t, list):
                return tuple(self.inttofp(p, int(t[2][1:]), op[0] == 's') for p in x)
            return self.inttofp(x, int(t[1:]), op[0] == 's')
        if op in ('fptosi', 'fptoui'):
            x = self.op(env, ins['ops'][0])
            t = ins['ty']
            if isinstance(t, list):
                return tuple(self.fptoint(st, p, int(t[2][1:]), op == 'fptosi') for p in x)
            return self.fptoint(st, x, int(t[1:]), op == 'fptosi')
        if op in ('fpext', 'fptrunc'):
            return self.op(env, ins['ops'][0])
        if op == 'bitcast':
            return self.bitcast(self.op(env, ins['ops'][0]), ins['oty'], ins['ty'])
        if op == 'ptrtoint':
            x = self.op(env, ins['ops'][0])
            if isinstance(x, P) and x.o == 0 and isinstance(x.off, int):
                return x.off
            return Blob([(8, x)])
        if op == 'inttoptr':
            x = self.op(env, ins['ops'][0])
            if isinstance(x, Blob) and len(x.parts) == 1:
                return x.parts[0][1]
            if isinstance(x, int):
                return P(0, x)
            raise Unsupported('inttoptr')
        if op == 'alloca':
            n = self.op(env, ins['n'])
            if not isinstance(n, int):
                raise Unsupported('variable alloca')
            return P(self.new_obj(st, ins['size'] * n, 'undef', 'local'), 0)
        if op == 'extractvalue':
            v = self.op(env, ins['ops'][0])
            for i in ins['idx']:
                v = v[i] if v is not U else U
            return v
        if op == 'insertvalue':
            v = self.op(env, ins['ops'][0])
            if v is U:
                v = self.undef(ins['ty'])
            x = self.op(env, ins['ops'][1])
            return self.insv(v, ins['idx'], x)
        if op == 'extractelement':
            v = self.op(env, ins['ops'][0])
            i = self.op(env, ins['ops'][1])
            if isinstance(i, int):
                return v[i] if v is not U else U
            r = v[0]
            for k in range(1, len(v)):
                r = self.sel1(iex(i) == k, v[k], r)
            return r
        if op == 'insertelement':
            v = self.op(env, ins['ops'][0])
            if v is U:
                v = self.undef(ins['ty'])
            x, i = self.op(env, ins['ops'][1]), self.op(env, ins['ops'][2])
            v = list(v)
            if isinstance(i, int):
                v[i] = x
            else:
                for k in range(len(v)):
                    v[k] = self.sel1(iex(i) == k, x, v[k])
            return tuple(v)
        if op == 'shufflevector':
            x, y = self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1])
            n = ins['oty'][1]
            if x is U:
                x = (U,) * n
            if y is U:
                y = (U,) * n
            a = tuple(x) + tuple(y)
            return tuple(U if i < 0 else a[i] for i in ins['mask'])
        if op == 'freeze':
            x = self.op(env, ins['ops'][0])
            if x is U:
                return self.fresh_val(ins['ty'], 'fz')
            if isinstance(x, tuple):
                ts = ins['ty']
                return tuple(self.fresh_val(ts[2], 'fz') if e is U and ts[0] == 'vec' else e for e in x)
            return x
        if op == 'landingpad':
            return self.landing(st, env, ins)
        if op in ('fence',):
            return None
        if op == 'atomicrmw':
            p, v = self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1])
            old = self.load(st, p, ins['ty'])
            r = ins['rmw']
            if r == 'xchg':
                nv = v
            elif r in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(st, r, ins['ty'], old, v, {})
            else:
                raise Unsupported('atomicrmw ' + r)
            self.store(st, p, ins['ty'], nv)
            return old
        if op == 'cmpxchg':
            p, c, v = [self.op(env, x) for x in ins['ops'][:3]]
            t = ins['ty'][1][0][1]
            old = self.load(st, p, t)
            eq = self.icmp(st, 'eq', t, old, c)
            self.store(st, p, t, self.sel1(eq, v, old))
            return (old, eq)
        raise Unsupported('instruction %s' % op)

    def lin(self, sc, e):
        """offset sc*e, with constants and constant multiples pulled out of e"""
        if z3.is_add(e):
            r = 0
            for a in e.children():
                r = off_add(r, self.lin(sc, a))
            return r
        if z3.is_sub(e) and e.num_args() == 2:
            return off_add(self.lin(sc, e.arg(0)), self.lin(-sc, e.arg(1)))
        if z3.is_int_value(e):
            return sc * e.as_long()
        if z3.is_mul(e) and e.num_args() == 2:
            for i in (0, 1):
                if z3.is_int_value(e.arg(i)):
                    return self.lin(sc * e.arg(i).as_long(), e.arg(1 - i))
        return Off(0, ((sc, e),))

    def insv(self, v, idx, x):
        if not idx:
            return x
        v = list(v)
        v[idx[0]] = self.insv(v[idx[0]], idx[1:], x)
        return tuple(v)

    def sel1(self, c, x, y):
        if c is U:
            c = z3.Bool(self.fresh('u'))
        if c is True:
            return x
        if c is False:
            return y
        return ite(c, x, y)

    def intcast(self, st, op, ot, ty, v):
        if isinstance(ty, list):
            return tuple(self.intcast(st, op, ot[2], ty[2], x) for x in v)
        bo, bn = int(ot[1:]), int(ty[1:])
        if v is U:
            return U
        if bo == 1:
            if isinstance(v, bool):
                return (1 if op == 'zext' else -1) if v else 0
            if op == 'zext':
                return SI(iex(v), 0, 1)
            return SI(z3.If(v, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
        if op == 'trunc':
            if isinstance(v, Blob):
                if bn == 1:
                    v = self.toint(v, bo)
                    if isinstance(v, Blob):
                        raise Unsupported('trunc blob to i1')
                else:
                    parts = []
                    pos = 0
                    n = bn // 8
                    for s, x in v.parts:
                        if pos + s <= n:
                            parts.append((s, x))
                        elif pos < n:
                            parts.append((n - pos, self.subpart((s, x), 0, n - pos)))
                        pos += s
                    return self.coerce(parts, ty)
            if bn == 1:
                if isinstance(v, (int, bool)):
                    return bool(int(v) & 1)
                if v.lo >= 0 and v.hi <= 1:
                    e = v.e
                    if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
                        t, x = e.arg(1).as_long(), e.arg(2).as_long()
                        if t == 1 and x == 0:
                            return e.arg(0)
                        if t == 0 and x == 1:
                            return Not_(e.arg(0))
                    return e == 1
                return v.e % 2 == 1
            if isinstance(v, (int, bool)):
                return to_signed(int(v), bn)
            return self.wrap(v.e, v.lo, v.hi, bn)
        if isinstance(v, Blob):
            r = self.blob_int(v, bo)
            if r is None:
                if op == 'zext':
                    return Blob(list(v.parts) + [((bn - bo) // 8, 0)])
                raise Unsupported('sext of blob')
            v = r
        if op == 'sext':
            return v
        return self.unsigned(v, bo)

    def bitcast(self, v, ot, ty):
        if v is U:
            return self.undef(ty)
        so = ot if isinstance(ot, str) else None
        sn = ty if isinstance(ty, str) else None
        if so and sn:
            if so == sn or (so == 'ptr' and sn == 'ptr'):
                return v
            if so[0] == 'f' and sn[0] == 'i':
                return Blob([(tsize(so), v)])
            if so[0] == 'i' and sn[0] == 'f':
                if isinstance(v, Blob):
                    return self.coerce(v.parts, sn)
                return self.coerce([(tsize(so), v)], sn)
            return v
        # via parts
        def parts(x, t):
            if isinstance(t, list):
                r = []
                for e in (x if x is not U else [U] * t[1]):
                    r += parts(e, t[2])
                return r
            return self.parts_of(t, x)
        ps = parts(v, ot)
        if sn:
            flat = ps
            if all(x is U for _, x in flat):
                return U
            return self.coerce(flat, sn)
        es = tsize(ty[2])
        out = []
        for k in range(ty[1]):
            cur = []
            need = es
            while need:
                s, x = ps[0]
                if s <= need:
                    cur.append((s, x))
                    ps.pop(0)
                    need -= s
                else:
                    cur.append((need, self.subpart((s, x), 0, need)))
                    ps[0] = (s - need, self.subpart((s, x), need, s - need))
                    need = 0
            out.append(self.coerce(cur, ty[2]))
        return tuple(out)

    # ------------------------------------------------------------ exceptions
    def landing(self, st, env, ins):
        ev = env.get('exc')
        ptr, sel = ev if isinstance(ev, tuple) else (P(0, 0), 0)
        # ptr object carries its type name in self.exctype
        ty = self.exctype.get(ptr.o) if isinstance(ptr, P) else None
        for kind, cl in ins['clauses']:
            if kind == 'catch':
                if cl[0] == 'null':
                    return (ptr, 1)
                nm = cl[1]
                m = self.is_a(ty, nm)
                if m:
                    return (ptr, self.typeid(nm))
                if m is None:
                    return (ptr, self.fresh_int(32, 'sel', 0, 1000))
        return (ptr, 0)

    def typeid(self, nm):
        return self.tids.setdefault(nm, len(self.tids) + 2)

    def is_a(self, ty, base):
        if ty is None:
            return None
        if ty == base:
            return True
        g = self.ir['globals'].get(ty)
        seen = {ty}
        todo = [ty]
        while todo:
            t = todo.pop()
            g = self.ir['globals'].get(t)
            if not g or 'init' not in g:
                # library type: known hierarchy of std exceptions
                par = STD_PARENT.get(t)
                if par is None:
                    if t in ('_ZTISt9exception',):
                        continue
                    return None
                if par == base:
                    return True
                todo.append(par)
                continue

            def walk(v):
                if v[0] == 'g' and v[1].startswith('_ZTI') and v[1] not in seen:
                    seen.add(v[1])
                    todo.append(v[1])
                elif v[0] == 'agg':
                    for x in v[1]:
                        walk(x)
            walk(g['init'])
            if base in seen:
                return True
        return False

    # ------------------------------------------------------------ loops cut at an invariant
    def rec_cmp(self, f, b, ins, x, y):
        cr = self.cutrec
        if cr is None or cr['f'] is not f or b != cr['h']:
            return
        t = f.blocks[b]['ins'][-1]
        if t['op'] != 'br' or t.get('cond') != ['r', ins['id']]:
            return
        out = t['succ'][0] if ins['pred'] == 'eq' else t['succ'][1]
        if out in f.loops[b]:
            return
        try:
            if isinstance(x, Blob):
                x = x.parts[0][1] if len(x.parts) == 1 else x
            if isinstance(y, Blob):
                y = y.parts[0][1] if len(y.parts) == 1 else y
            if isinstance(x, P) and isinstance(y, P) and x.o == y.o:
                a, c = off_expr(x.off), off_expr(y.off)
            else:
                a, c = iex(x), iex(y)
            cr['cmp'].append((a, c))
        except Unsupported:
            pass

    def havoc_val(self, v, size_or_ty, tag, special):
        if v is U:
            return U
        if isinstance(v, FV):
            return self.fresh_val('f32', tag, special)
        if isinstance(v, (bool, z3.BoolRef)):
            return z3.Bool(self.fresh(tag))
        if isinstance(v, (int, SI)):
            bits = size_or_ty if isinstance(size_or_ty, int) else int(size_or_ty[1:]) if isinstance(size_or_ty, str) else 64
            return self.fresh_int(bits, tag)
        if isinstance(v, tuple):
            t = size_or_ty[2] if isinstance(size_or_ty, list) and size_or_ty[0] in ('vec', 'arr') else None
            return tuple(self.havoc_val(x, t or 64, tag, special) for x in v)
        if isinstance(v, Blob):
            return Blob([(s, self.havoc_val(x, 8 * s, tag, special)) for s, x in v.parts])
        raise Unsupported('havoc of %r' % (v,))

    def run_cut(self, f, h, st, env, marker):
        """Loop at header h of f, cut at an inductive invariant.  Returns exits [(pred, block, state, env)]."""
        region = f.loops[h]
        phis = [(x['id'], x['ty']) for x in f.phis[h]]
        info = dict(fn=f.name, header=h, marker=bool(marker), line=self.curloc, candidates=0, kept=0)
        env = dict(env)
        for r, _ in phis:
            env[r] = self.prune_ptr(st, env.get(r))
        st0, env0 = st, env
        mods = {}            # ('c',oid,off,size)/('a',oid,s,fld)/('all',oid) -> info
        aff = {}             # key -> const step  (key = ('r',id) | ('c',oid,off,size))
        ptrstep = {}         # register -> stride gcd (pointer havoc)
        special = set()
        stable = set()
        K = None
        summ = {}            # array mods whose content after k iterations is known exactly

        def entry_ids():
            return set(st0.mem) | set(self.gid2name)
        base_ids = set(st0.mem)

        def make(kappa):
            """havocked header state"""
            s = st0.fork()
            e = dict(env0)
            hv = {}
            for r, t in phis:
                v0 = env0.get(r)
                key = ('r', r)
                if key in stable:
                    continue
                if key in aff and kappa is not None:
                    c = aff[key]
                    if isinstance(v0, (P, PIte)):
                        e[r] = self.pshift(v0, Off(0, ((c, kappa),)))
                    else:
                        bits = int(t[1:])
                        ex = iex(v0) + c * kappa
                        lo, hi = rng(v0)
                        e[r] = SI(ex, lo if c > 0 else max(-BIG, lo + c * KMAX), hi if c < 0 else min((1 << (bits - 1)) - 1, hi + c * KMAX))
                    hv[key] = e[r]
                    continue
                if isinstance(v0, P) or isinstance(v0, PIte):
                    if key in ptrstep:
                        k = z3.Int(self.fresh('pk'))
                        e[r] = self.pshift(v0, Off(0, ((ptrstep[key], k),)))
                    hv[key] = e[r]
                    continue
                e[r] = self.havoc_val(v0, t, 'L', key in special)
                hv[key] = e[r]
            for m in sorted(mods, key=str):
                if m[0] == 'c':
                    _, i, off, size = m
                    o = self.wobj(s, i)
                    key = m
                    v0 = None
                    c0 = st0.mem[i].cells.get(off) if i in st0.mem else None
                    if c0 is not None and c0[0] == size:
                        v0 = c0[1]
                    tmpl = mods[m] if v0 is None or v0 is U else v0
                    if key in stable:
                        continue
                    if key in aff and kappa is not None and v0 is not None:
                        c = aff[key]
                        if isinstance(v0, (P, PIte)):
                            nv = self.pshift(v0, Off(0, ((c, kappa),)))
                        else:
                            lo, hi = rng(v0)
                            nv = SI(iex(v0) + c * kappa, lo if c > 0 else max(-BIG, lo + c * KMAX), hi if c < 0 else min((1 << (8 * size - 1)) - 1, hi + c * KMAX))
                    elif isinstance(tmpl, P) or isinstance(tmpl, PIte):
                        if key in ptrstep and isinstance(v0, (P, PIte)):
                            k = z3.Int(self.fresh('pk'))
                            nv = self.pshift(v0, Off(0, ((ptrstep[key], k),)))
                        elif v0 is None:
                            continue
                        else:
                            nv = v0
                    elif isinstance(tmpl, FnP):
                        nv = tmpl
                    elif tmpl is U:
                        nv = U
                    else:
                        # ints/floats of unknown initial content: havoc by the type seen at the latch
                        if isinstance(tmpl, (bool, z3.BoolRef)):
                            tmpl = 0
                        nv = self.havoc_val(tmpl, 8 * size, 'L', key in special)
                    self.put_cell(o, off, size, nv)
                    hv[key] = nv
                elif m[0] == 'a':
                    _, i, sd, fld = m
                    o = self.wobj(s, i)
                    if o.stride is None:
                        o.stride = sd
                    a = o.arrs.get((sd, fld))
                    kind, bits = mods[m]
                    srt = z3.RealSort() if kind == 'f' else z3.IntSort()
                    if m in summ and kappa is not None:
                        a0 = a if a is not None else self.mk_arr(s, i, o, sd, fld, kind + str(bits))
                        na = Arr(kind, bits, self.map_lambda(summ[m], a0.d, kappa))
                        o.arrs[(sd, fld)] = na
                        hv[m] = na
                        continue
                    # concrete cells of that field are subsumed
                    for off in [x for x in o.cells if x % sd == fld]:
                        del o.cells[off]
                    na = Arr(kind, bits, z3.Array(self.fresh('LA'), z3.IntSort(), srt))
                    if m in special or (a is not None and a.nan is not None):
                        for nm in ('nan', 'pi', 'ni'):
                            setattr(na, nm, z3.Array(self.fresh('LA' + nm), z3.IntSort(), z3.BoolSort()))
                    o.arrs[(sd, fld)] = na
                    hv[m] = na
                else:
                    raise Unsupported('whole-object write inside a cut loop')
            return s, e, hv

        def go(s, e, mode):
            """run one pass; returns (exits, latches)"""
            cid = (self.act, h, len(self.cutstack))
            self.cutstack.append(cid)
            kk = kapp[0] if kapp else z3.Int(self.fresh('kappa'))
            self.iters.append(0 if mode == 'base' else SI(kk + 1, 0, KMAX + 1) if mode == 'again' else SI(kk, 0, KMAX))
            exits, latches = [], []
            svrec = self.cutrec
            self.cutrec = dict(f=f, h=h, cmp=[]) if mode in ('pre', 'free') else None
            rec = self.cutrec
            try:
                s.cut[cid] = mode
                first = []

                def on_header(s2, e2):
                    latches.append((s2, e2))
                ex1 = []
                r = self.run_blocks(f, [(h, s, e, {})], region, h, on_header, ex1)
                for x in r:      # return / exception from inside the loop
                    exits.append(('res',) + x)
                for (p, b, s2, e2) in ex1:
                    exits.append((p, b, s2, e2))
            finally:
                self.cutrec = svrec
                self.cutstack.pop()
                self.iters.pop()
            return exits, latches, rec, cid

        kapp = []
        self.act += 1
        # ---- dry passes: discover what the loop modifies
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported('loop frame does not stabilise in %s' % f.name)
            self.dry += 1
            svw = self.wlog
            self.wlog = set()
            try:
                s, e, hv = make(None)
                exits, latches, rec, cid = go(s, e, 'dry')
            finally:
                w = self.wlog
                self.wlog = svw
                self.dry -= 1
            new = False
            for m in w:
                if m[1] not in base_ids and m[1] not in self.gid2name:
                    continue
                if m in mods:
                    continue
                new = True
                if m[0] == 'c':
                    v = None
                    for s2, e2 in latches:
                        c2 = s2.mem[m[1]].cells.get(m[2]) if m[1] in s2.mem else None
                        if c2 is not None and c2[0] == m[3]:
                            v = c2[1]
                    if v is None:
                        c2 = st0.mem[m[1]].cells.get(m[2]) if m[1] in st0.mem else None
                        v = c2[1] if c2 is not None and c2[0] == m[3] else 0
                    mods[m] = v
                elif m[0] == 'a':
                    k = None
                    for s2, e2 in latches:
                        a = s2.mem[m[1]].arrs.get((m[2], m[3]))
                        if a is not None:
                            k = (a.kind, a.bits)
                    if k is None:
                        k = self.lastkind.get((m[1], m[2], m[3]), ('f', 32))
                    mods[m] = k
                else:
                    mods[m] = None
            # drop cell mods covered by arrays
            if not latches:
                break
            ls, le = latches[0]
            for s2, e2 in latches[1:]:
                ls2, c = self.merge(ls, s2)
                le = {r: (self.sel2(c, le[r], e2[r]) if r in le and r in e2 and le[r] is not e2[r] else le.get(r, e2.get(r))) for r in set(le) | set(e2)}
                ls = ls2
            for r, t in phis:
                key = ('r', r)
                v0, v1, hvv = env0.get(r), le.get(r), hv.get(key)
                if key not in stable and key not in aff and hvv is not None:
                    if self.unchanged(v1, hvv):
                        if isinstance(v0, (P, PIte)) and key not in ptrstep:
                            if self.unchanged(v1, v0):
                                continue
                    if isinstance(hvv, (P, PIte)):
                        d = self.pdelta(v1, hvv)
                        if d is not None:
                            if isinstance(d, int):
                                if d != 0 and aff.get(key) != d:
                                    aff[key] = d
                                    if key not in ptrstep:
                                        ptrstep[key] = abs(d)
                                        new = True
                            else:
                                g = abs(d.c)
                                for k, _ in d.t:
                                    g = gcd(g, abs(k))
                                if ptrstep.get(key) != g:
                                    ptrstep[key] = g if key not in ptrstep else gcd(g, ptrstep[key])
                                    new = True
                        elif not self.unchanged(v1, hvv):
                            raise Unsupported('loop-carried pointer changes object in %s' % f.name)
                    elif isinstance(hvv, SI) and isinstance(v1, (SI, int)):
                        d = self.const_step(v1, hvv)
                        if d is not None and d != 0:
                            aff[key] = d
                if isinstance(v1, FV) and v1.special() and key not in special:
                    special.add(key)
                    new = True
                if isinstance(v1, tuple) and any(isinstance(q, FV) and q.special() for q in v1) and key not in special:
                    special.add(key)
                    new = True
            for m in mods:
                if m[0] == 'c':
                    c1 = ls.mem[m[1]].cells.get(m[2])
                    v1 = c1[1] if c1 is not None and c1[0] == m[3] else None
                    hvv = hv.get(m)
                    if isinstance(v1, FV) and v1.special() and m not in special:
                        special.add(m)
                        new = True
                    if hvv is None:
                        continue
                    if isinstance(hvv, SI) and isinstance(v1, (SI, int)) and m not in aff:
                        d = self.const_step(v1, hvv)
                        if d is not None and d != 0:
                            aff[m] = d
                    if isinstance(hvv, (P, PIte)) and self.pdelta(v1, hvv) is not None:
                        d = self.pdelta(v1, hvv)
                        if isinstance(d, int):
                            if d != 0 and aff.get(m) != d:
                                aff[m] = d
                                if m not in ptrstep:
                                    ptrstep[m] = abs(d)
                                    new = True
                        else:
                            g = abs(d.c)
                            for k, _ in d.t:
                                g = gcd(g, abs(k))
                            if m not in ptrstep:
                                ptrstep[m] = g
                                new = True
                elif m[0] == 'a':
                    a = ls.mem[m[1]].arrs.get((m[2], m[3]))
                    if a is not None and a.nan is not None and m not in special:
                        special.add(m)
                        new = True
            if not new:
                break
        # only affine keys whose entry value is known
        for k in list(aff):
            v0 = env0.get(k[1]) if k[0] == 'r' else (st0.mem[k[1]].cells.get(k[2], (0, None))[1] if k[1] in st0.mem else None)
            if not isinstance(v0, (int, SI, P, PIte)) or isinstance(v0, bool):
                del aff[k]
        kappa = z3.Int(self.fresh('kappa'))
        kapp.append(kappa)
        self.facts.append(z3.And(kappa >= 0, kappa <= KMAX))
        loopvars0 = self.n
        # ---- dry pass with kappa to verify the affine claims and to see the header comparison
        while True:
            self.dry += 1
            svw, self.wlog = self.wlog, set()
            try:
                n0 = self.n
                s, e, hv = make(kappa)
                exits, latches, rec, cid = go(s, e, 'predry')
                cmps = self.collect_cmp(f, h, s, e)
            finally:
                self.wlog = svw
                self.dry -= 1
            bad = []
            for s2, e2 in latches:
                for k, c in aff.items():
                    if k[0] == 'r':
                        v1, hvv = e2.get(k[1]), hv.get(k)
                    else:
                        c1 = s2.mem[k[1]].cells.get(k[2])
                        v1, hvv = (c1[1] if c1 is not None else None), hv.get(k)
                    if hvv is None or v1 is None or not self.is_step(s2, v1, hvv, c):
                        bad.append(k)
            if not bad:
                break
            for k in set(bad):
                aff.pop(k, None)
        self.check_ptrs(latches, hv, aff, ptrstep, f.name)
        # ---- element-wise loops: content of the written array after k iterations
        amods = [m for m in mods if m[0] == 'a' and m not in special]
        if amods and latches and not marker:
            ml = None
            for x in latches:
                if not x[0].dead:
                    ml = x[0] if ml is None else self.merge(ml, x[0])[0]
            if ml is not None:
                for m in amods:
                    r = self.map_summary(ml, m, hv, kappa, n0)
                    if r is not None:
                        summ[m] = r
        # ---- non-overshoot facts from the header comparison
        kfacts = []
        for a, c in cmps:
            for d in (z3.simplify(c - a), z3.simplify(a - c)):
                D = z3.simplify(z3.substitute(d, (kappa, z3.IntVal(0))))
                D1 = z3.simplify(z3.substitute(d, (kappa, z3.IntVal(1))))
                cc = z3.simplify(D - D1)
                if not z3.is_int_value(cc) or cc.as_long() <= 0:
                    continue
                cc = cc.as_long()
                if not z3.is_true(z3.simplify(d == D - cc * kappa)):
                    continue
                # D must be loop invariant
                if any(self.is_loopvar(v, n0) for v in self.vars_of(D)):
                    continue
                if self.must(st0, z3.And(D >= 0, D % cc == 0) if cc != 1 else D >= 0, 4000):
                    kfacts.append(D - cc * kappa >= 0)
                break
        outs = []
        # ---- base: the invariant holds on entry
        if marker:
            s = st0.fork()
            ex, la, rec, cid = go(s, dict(env0), 'base')
            for x in ex:
                self.emit_exit(outs, x, cid)
            if la:
                for s2, e2 in la:
                    if not s2.dead and s2.cut.get(cid) == 'base' and self.sat(list(s2.g)) is not False:
                        raise Unsupported('invariant marker not on every path of the loop in %s' % f.name)
        # ---- step
        s, e, hv = make(kappa)
        for kf in kfacts:
            s.assume(kf)
        if marker:
            ex, la, rec, cid = go(s, e, 'pre')
            for x in ex:
                if x[2].cut.get(cid) == 'post':
                    self.emit_exit(outs, x, cid)
            if la:
                ls = [(s2, e2) for s2, e2 in la if not s2.dead]
                m = None
                for s2, e2 in ls:
                    if s2.cut.get(cid) != 'post':
                        if self.sat(list(s2.g)) is False:
                            continue
                        raise Unsupported('invariant marker not on every path of the loop in %s' % f.name)
                    m = (s2, e2) if m is None else self.merge_env(m, (s2, e2), f, h)
                if m is not None:
                    self.check_special(m, special, phis, mods)
                    s2, e2 = m
                    ex2, la2, rec2, cid2 = go(s2, e2, 'again')
                    for x in ex2:
                        self.emit_exit(outs, x, cid2)
                    if any(self.sat(list(s3.g)) is not False for s3, _ in la2):
                        raise Unsupported('invariant marker not reached in %s' % f.name)
        else:
            ex, la, rec, cid = go(s, e, 'free')
            for x in ex:
                self.emit_exit(outs, x, cid)
        if not self.dry:
            info['modifies'] = sorted(str(m) for m in mods)[:40]
            info['affine'] = len(aff)
            self.loopinfo.append(info)
        return [x for x in outs if x[0] != 'res'], [x[1:] for x in outs if x[0] == 'res']

    def prune_ptr(self, st, v):
        if not isinstance(v, PIte):
            return v
        alts = [(c, p) for c, p in v.alts if c is True or self.sat(list(st.g) + [c], 2000) is not False]
        if len(alts) == 1:
            return alts[0][1]
        return PIte(alts) if len(alts) < len(v.alts) and alts else v

    def pshift(self, v, d):
        if isinstance(v, P):
            return P(v.o, off_add(v.off, d))
        return PIte([(c, p if isinstance(p, FnP) else P(p.o, off_add(p.off, d))) for c, p in v.alts])

    def pdelta(self, a, b):
        if isinstance(a, P) and isinstance(b, P):
            return off_add(a.off, off_neg(b.off)) if a.o == b.o else None
        if isinstance(a, PIte) and isinstance(b, PIte) and len(a.alts) == len(b.alts):
            d = None
            for (_, p), (_, q) in zip(a.alts, b.alts):
                if isinstance(p, FnP) or isinstance(q, FnP) or p.o != q.o:
                    return None
                x = off_add(p.off, off_neg(q.off))
                if d is not None and str(x) != str(d):
                    return None
                d = x
            return d
        return None

    def check_ptrs(self, latches, hv, aff, ptrstep, fname):
        """a carried pointer that is treated as unchanged really is unchanged"""
        for s2, e2 in latches:
            if s2.dead:
                continue
            for k, h0 in hv.items():
                if not isinstance(h0, (P, PIte)):
                    continue
                if k[0] == 'r':
                    v1 = e2.get(k[1])
                else:
                    c1 = s2.mem[k[1]].cells.get(k[2]) if k[1] in s2.mem else None
                    v1 = c1[1] if c1 is not None else None
                d = self.pdelta(v1, h0)
                if k in ptrstep and d is not None:
                    g = ptrstep[k]
                    if isinstance(d, int):
                        if d % g == 0:
                            continue
                    elif d.c % g == 0 and all(q % g == 0 for q, _ in d.t):
                        continue
                if isinstance(d, int) and (d == 0 or aff.get(k) == d):
                    continue
                raise Unsupported('loop-carried pointer in %s' % fname)

    # one iteration writes exactly element b+c*k (c = +-1) with a value depending only on loop invariants, k and
    # the element's own old value: then after k iterations a[j] = v(t) where j = b+c*t, 0 <= t < k, else the old a[j]
    def map_effect(self, d, LA):
        if d.eq(LA):
            return ()
        if z3.is_store(d):
            if not d.arg(0).eq(LA):
                return None
            return (d.arg(1), d.arg(2))
        if z3.is_app_of(d, z3.Z3_OP_ITE):
            x, y = self.map_effect(d.arg(1), LA), self.map_effect(d.arg(2), LA)
            if x is None or y is None:
                return None
            if x == () and y == ():
                return ()
            idx = x[0] if x != () else y[0]
            if x != () and y != () and not z3.simplify(x[0] - y[0]).eq(z3.IntVal(0)):
                return None
            vx = x[1] if x != () else z3.Select(LA, idx)
            vy = y[1] if y != () else z3.Select(LA, idx)
            return (idx, z3.If(d.arg(0), vx, vy))
        return None

    def map_summary(self, st, m, hv, kappa, n0):
        _, i, sd, fld = m
        a = st.mem[i].arrs.get((sd, fld)) if i in st.mem else None
        if a is None or m not in hv or a.nan is not None:
            return None
        LA = hv[m].d
        e = self.map_effect(a.d, LA)
        if e is None:
            return None
        if e == ():
            return dict(c=0)
        idx, v = e
        sub = lambda t, k: z3.simplify(z3.substitute(t, (kappa, k)))
        b = sub(idx, z3.IntVal(0))
        c = z3.simplify(sub(idx, z3.IntVal(1)) - b)
        if not z3.is_int_value(c) or abs(c.as_long()) != 1:
            return None
        c = c.as_long()
        if not z3.is_true(z3.simplify(idx == b + c * kappa)):
            return None
        own = z3.Const('own!%d' % i, LA.range())
        w = z3.substitute(v, (z3.Select(LA, idx), own))
        w = z3.substitute(w, (z3.Select(LA, z3.simplify(idx)), own))
        kn = kappa.decl().name()
        for x in (b, w):
            for nme in self.vars_of(x):
                if nme != kn and (self.is_loopvar(nme, n0) or nme == LA.decl().name()):
                    return None
        if kn in self.vars_of(b):
            return None
        return dict(c=c, b=b, v=w, own=own, kappa=kappa)

    def map_lambda(self, r, d0, kappa):
        if r['c'] == 0:
            return d0
        j = z3.Int('j!map')
        t = j - r['b'] if r['c'] == 1 else r['b'] - j
        v = z3.substitute(r['v'], (r['kappa'], t))
        old = self.sel(d0, j)
        v = z3.substitute(v, (r['own'], old))
        return z3.Lambda([j], z3.If(z3.And(t >= 0, t < kappa), v, old))

    def emit_exit(self, outs, x, cid):
        st = x[2]
        st.cut.pop(cid, None)
        outs.append(x)

    def check_special(self, m, special, phis, mods):
        pass

    def merge_env(self, a, b, f, h):
        s, c = self.merge(a[0], b[0])
        lv = f.liveness()[h]
        e = {}
        for r in lv:
            x, y = a[1].get(r), b[1].get(r)
            e[r] = x if x is y or y is None else y if x is None else self.sel2(c, x, y)
        return s, e

    def collect_cmp(self, f, h, s, e):
        """evaluate the header's exit comparison operands symbolically (no side effects kept)"""
        t = f.blocks[h]['ins'][-1]
        if t['op'] != 'br' or 'cond' not in t or t['cond'][0] != 'r':
            return []
        s2 = s.fork()
        s2.cut = dict(s2.cut)
        env = dict(e)
        out = []
        for ins in f.blocks[h]['code']:
            if ins['op'] in ('call', 'invoke', 'store', 'br', 'switch', 'ret', 'unreachable', 'resume'):
                break
            if ins['op'] == 'icmp' and ins['id'] == t['cond'][1] and ins['pred'] in ('eq', 'ne'):
                o = t['succ'][0] if ins['pred'] == 'eq' else t['succ'][1]
                if o not in f.loops[h]:
                    x, y = self.op(env, ins['ops'][0]), self.op(env, ins['ops'][1])
                    try:
                        if isinstance(x, Blob):
                            x = x.parts[0][1] if len(x.parts) == 1 else x
                        if isinstance(y, Blob):
                            y = y.parts[0][1] if len(y.parts) == 1 else y
                        x, y = self.prune_ptr(s2, x), self.prune_ptr(s2, y)
                        if isinstance(x, (P, PIte)) and isinstance(y, (P, PIte)):
                            if isinstance(x, P) and isinstance(y, P) and x.o == y.o:
                                out.append((off_expr(x.off), off_expr(y.off)))
                            elif self.pdelta(x, y) is not None:
                                out.append((off_expr(self.pdelta(x, y)), z3.IntVal(0)))
                        else:
                            out.append((iex(x), iex(y)))
                    except Unsupported:
                        pass
            env[ins['id']] = self.simple(f, h, s2, env, ins, ins['op'])
        return out

    def is_loopvar(self, name, n0):
        if '!' in name:
            try:
                return int(name.rsplit('!', 1)[1].rstrip('()')) > n0
            except ValueError:
                return False
        return False

    def unchanged(self, a, b):
        if a is b:
            return True
        try:
            if isinstance(a, P) and isinstance(b, P):
                d = off_add(a.off, off_neg(b.off)) if a.o == b.o else None
                return isinstance(d, int) and d == 0
            if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
                return z3.simplify(iex(a) - iex(b)).eq(z3.IntVal(0))
            if isinstance(a, FV) and isinstance(b, FV):
                return same(a.r, b.r) and same(a.nan, b.nan)
            if isinstance(a, PIte) and isinstance(b, PIte):
                return len(a.alts) == len(b.alts) and all(self.unchanged(x[1], y[1]) for x, y in zip(a.alts, b.alts))
        except Unsupported:
            pass
        return False

    def const_step(self, v1, hv):
        d = z3.simplify(iex(v1) - hv.e)
        if z3.is_int_value(d):
            return d.as_long()
        # wrap-around form: try the in-range branch
        d0 = z3.simplify(z3.substitute(iex(v1), (hv.e, z3.IntVal(0)))) if z3.is_const(hv.e) else None
        if d0 is not None and z3.is_int_value(d0):
            return d0.as_long()
        return None

    def is_step(self, st, v1, hv, c):
        if isinstance(hv, (P, PIte)):
            d = self.pdelta(v1, hv)
            return isinstance(d, int) and d == c
        if not isinstance(v1, (int, SI)):
            return False
        d = z3.simplify(iex(v1) - iex(hv))
        if z3.is_int_value(d):
            return d.as_long() == c
        return self.must(st, iex(v1) == iex(hv) + c, 2000)

    def loop_cut(self, st, cond):
        """the marker: cond is the loop invariant evaluated in the current state"""
        if not self.cutstack:
            return
        cid = self.cutstack[-1]
        mode = st.cut.get(cid)
        if mode in ('dry', 'predry'):
            return
        if mode == 'base':
            self.oblige(st, cond, 'loop invariant holds on entry', 'invariant')
            st.dead = True
            st.g = st.g + (z3.BoolVal(False),)
        elif mode == 'pre':
            st.assume(self.decide(st, cond))
            st.cut[cid] = 'post'
        elif mode in ('post', 'again'):
            self.oblige(st, cond, 'loop invariant is preserved', 'invariant')
            st.dead = True
            st.g = st.g + (z3.BoolVal(False),)

    # ------------------------------------------------------------ calls
    lastg = {}
    keepg = []
    cutrec = None
    lastkind = {}
    pending_res = []

    def reset(self):
        self.lastg = {}
        self.keepg = []
        self.cutrec = None
        self.lastkind = {}
        self.pending_res = []
        self.exctype = {}
        self.tids = {}
        self.in_setup = False

    def do_call(self, f, ins, st, env):
        cal = self.op(env, ins['callee']) if ins['callee'][0] != 'md' else None
        if cal is None:
            self.externals.add('inline asm')
            return st, (self.fresh_val(ins['ty']) if ins['ty'] != 'void' else None), None, None
        args = [self.op(env, a) for a in ins['args']]
        return self.dispatch(cal, args, ins, st)

    def dispatch(self, cal, args, ins, st):
        if isinstance(cal, Blob) and len(cal.parts) == 1:
            cal = cal.parts[0][1]
        if isinstance(cal, PIte):
            rs, rv, es, ev = None, None, None, None
            parts = []
            n = len(cal.alts)
            for k, (c, t) in enumerate(cal.alts):
                if isinstance(t, P):
                    self.oblige(st, Not_(c), 'call through valid function pointer', 'memory')
                    continue
                s2 = st.fork()
                s2.assume(c)
                parts.append(self.dispatch(t, args, ins, s2))
            res = []
            for r in parts:
                if r[0] is not None and not r[0].dead:
                    res.append(('ret', r[0], r[1]))
                if r[2] is not None and not r[2].dead:
                    res.append(('exc', r[2], r[3]))
            return self.join_results(res)
        if isinstance(cal, P):
            self.oblige(st, False, 'call through valid function pointer', 'memory')
            return None, None, None, None
        name = cal.n
        if name in self.replaced:
            name = self.replaced[name]
        if self.cutstack and '_M_realloc_' in name:
            # growth of a std::vector inside a cut loop: only accepted where capacity was reserved, i.e. unreachable
            mode = st.cut.get(self.cutstack[-1])
            if self.dry or mode == 'base' or self.sat(list(st.g), 10000) is False:
                if not self.dry and mode == 'base' and self.sat(list(st.g), 10000) is not False:
                    raise Unsupported('vector reallocation inside a cut loop')
                return None, None, None, None
            raise Unsupported('vector reallocation inside a cut loop')
        m = self.model(name, args, ins, st)
        if m is not None:
            return m
        fn = self.fn(name)
        if fn is None:
            fn_alias = None
            if NORETURN_THROW.match(name):
                return None, None, st, (P(0, 0), 0)
            if IGNORABLE.match(name):
                self.externals.add(name)
                v = None
                if ins['ty'] != 'void':
                    if ins['ty'] == 'ptr':
                        v = args[0] if args else P(0, 0)
                    else:
                        v = self.fresh_val(ins['ty'], 'ext')
                return st, v, None, None
            raise Unsupported('external function %s' % name)
        return self.call_fn(fn, args, st)

    # ------------------------------------------------------------ models
    def cstr(self, st, p):
        if isinstance(p, PIte):
            p = p.alts[0][1]
        if not isinstance(p, P) or p.o in (0, -1):
            return '?'
        o = self.obj(st, p.o)
        s = []
        k = p.off
        while True:
            c = o.cells.get(k)
            ch = c[1] if c else 0
            if not ch:
                break
            s.append(chr(ch & 0xff))
            k += 1
        return ''.join(s)

    def ndname(self, name):
        k = self.ndcount.get(name, 0)
        self.ndcount[name] = k + 1
        return '%s#%d' % (name, k)

    def model(self, name, args, ins, st):
        R = lambda v=None: (st, v, None, None)
        if name.startswith('llvm.'):
            return self.intrinsic(name, args, ins, st)
        if name.startswith('vc_'):
            return self.vc(name, args, ins, st)
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
            return R(self.alloc(st, args[0]))
        if name == 'aligned_alloc':
            return R(self.alloc(st, args[1]))
        if name == 'calloc':
            n = self.binop(st, 'mul', 'i64', args[0], args[1], {})
            p = self.alloc(st, n)
            self.wobj(st, p.o).base = 'zero'
            return R(p)
        if name in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t'):
            return R()
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return R(args[0])
        if name == 'memset':
            self.memset(st, args[0], args[1], args[2])
            return R(args[0])
        if name in ('memcmp', 'bcmp'):
            return R(self.memcmp(st, args[0], args[1], args[2]))
        if name == 'strlen':
            return R(len(self.cstr(st, args[0])))
        if name == '__assert_fail':
            self.oblige(st, False, 'assertion: ' + self.cstr(st, args[0])[:120], 'assert')
            return None, None, None, None
        if name == '__cxa_allocate_exception':
            i = self.new_obj(st, max(int(args[0]), 1), 'undef', 'exception')
            return R(P(i, 0))
        if name == '__cxa_throw':
            ti = args[1]
            nm = self.gid2name.get(ti.o) if isinstance(ti, P) else None
            self.exctype[args[0].o] = nm
            return None, None, st, (args[0], 0)
        if name == '__cxa_begin_catch':
            return R(args[0])
        if name in ('__cxa_end_catch', '__cxa_free_exception'):
            return R()
        if name == '__cxa_guard_acquire':
            if isinstance(args[0], P):
                g = self.load(st, args[0], 'i8')
                if g == 0:
                    return R(1)
                if isinstance(g, int):
                    return R(0)
            return R(1)
        if name == '__cxa_guard_release':
            self.store(st, args[0], 'i8', 1)
            return R()
        if name in ('_ZNSt9exceptionD2Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt11logic_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc',
                    '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                    '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12domain_errorC1EPKc', '_ZNSt12length_errorC1EPKc', '_ZNSt11range_errorC1EPKc'):
            return R()
        if name == '__dynamic_cast':
            raise Unsupported('dynamic_cast')
        if name.startswith('pthread_mutex_'):
            return R(0)
        m = MATH.get(name)
        if m is not None:
            return R(self.math(st, m, args))
        return None

    def alloc(self, st, n):
        n = self.toint(n, 64)
        if isinstance(n, (int, bool)):
            return P(self.new_obj(st, max(int(n), 0), 'undef', 'heap'), 0)
        return P(self.new_obj(st, n.e, 'undef', 'heap'), 0)

    def memcmp(self, st, a, b, n):
        if not isinstance(n, int):
            if isinstance(n, SI):
                self.notes.add('memcmp of symbolic length abstracted')
                return self.fresh_int(32)
            raise Unsupported('memcmp')
        if n > 256:
            raise Unsupported('large memcmp')
        eq = True
        for k in range(n):
            x = self.load(st, self.padd(a, k), 'i8')
            y = self.load(st, self.padd(b, k), 'i8')
            eq = And_(eq, self.icmp(st, 'eq', 'i8', x, y))
        if isinstance(eq, bool):
            return 0 if eq else 1
        return SI(z3.If(eq, z3.IntVal(0), z3.IntVal(1)), 0, 1)

    def intrinsic(self, name, args, ins, st):
        R = lambda v=None: (st, v, None, None)
        b = name[5:]
        k = b.split('.')[0]
        if k in ('lifetime', 'dbg', 'invariant', 'donothing', 'prefetch', 'stackrestore', 'assume', 'va_start', 'va_end') or b.startswith('experimental.noalias') or b.startswith('var.annotation'):
            if k == 'assume' and args and not isinstance(args[0], bool) and args[0] is not None and self.o.get('llvm_assume', False):
                st.assume(args[0])
            return R()
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return R()
        if k == 'memset':
            v = args[1]
            self.memset(st, args[0], v, args[2])
            return R()
        if k == 'expect':
            return R(args[0])
        if k == 'stacksave':
            return R(P(0, 0))
        if k == 'is' and b.startswith('is.constant'):
            return R(False)
        if k == 'objectsize':
            return R(-1)
        if k == 'trap':
            self.oblige(st, False, 'trap', 'ub')
            return None, None, None, None
        if k == 'eh':
            if 'typeid' in b:
                p = args[0]
                nm = self.gid2name.get(p.o) if isinstance(p, P) else None
                return R(self.typeid(nm))
        if b.startswith('is.fpclass'):
            a, m = args[0], args[1]
            if isinstance(a, tuple):
                return R(tuple(self.fpclass(x, m) for x in a))
            return R(self.fpclass(a, m))
        ty = ins['ty']
        un = {'fabs': self.fabs, 'floor': self.ffloor, 'ceil': self.fceil, 'trunc': self.ftrunc, 'round': self.fround}
        if k in un:
            a = args[0]
            if isinstance(a, tuple):
                return R(tuple(un[k](x) for x in a))
            return R(un[k](a) if a is not U else U)
        if k in ('rint', 'nearbyint', 'roundeven'):
            # nearest (ties unspecified): |r - x| <= 1/2
            return R(self.frint(args[0]))
        if k == 'sqrt':
            a = args[0]
            if isinstance(a, tuple):
                return R(tuple(self.fsqrt(st, x) for x in a))
            return R(self.fsqrt(st, a))
        if k in ('maxnum', 'minnum'):
            a, c = args
            lt = self.fcmp(st, 'olt', a, c)
            r = self.sel1(lt, c, a) if k == 'maxnum' else self.sel1(lt, a, c)
            r = self.sel1(a.nan, c, self.sel1(c.nan, a, r))
            return R(r)
        if k == 'copysign':
            a, c = args
            m = self.fabs(a)
            return R(self.sel1(self.signbit(c), self.fneg(m), m))
        if k == 'fmuladd' or k == 'fma':
            return R(self.fbin(st, 'fadd', self.fbin(st, 'fmul', args[0], args[1]), args[2]))
        if k in ('sin', 'cos', 'exp', 'log', 'pow', 'exp2', 'log2', 'log10', 'powi'):
            return R(self.math(st, k, args))
        if k in ('smax', 'smin', 'umax', 'umin'):
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
            a, c = args
            if isinstance(ty, list):
                return R(tuple(self.sel1(self.icmp(st, p, ty[2], x, y), x, y) for x, y in zip(a, c)))
            bits = int(ty[1:])
            a, c = self.toint(a, bits), self.toint(c, bits)
            cc = self.icmp(st, p, ty, a, c)
            r = self.sel1(cc, a, c)
            if isinstance(r, SI):
                (la, ha), (lc, hc) = rng(a), rng(c)
                if k == 'smax':
                    r = SI(r.e, max(la, lc), max(ha, hc))
                elif k == 'smin':
                    r = SI(r.e, min(la, lc), min(ha, hc))
            return R(r)
        if k == 'abs':
            a = self.toint(args[0], int(ty[1:]))
            if isinstance(a, int):
                return R(abs(a))
            return R(SI(z3.If(a.e < 0, -a.e, a.e), 0, max(abs(a.lo), abs(a.hi))))
        if b.startswith(('usub.sat', 'uadd.sat', 'ssub.sat', 'sadd.sat')):
            t = ty
            bits = int(t[1:])
            a, c = self.toint(args[0], bits), self.toint(args[1], bits)
            if b.startswith('usub'):
                lt = self.icmp(st, 'ult', t, a, c)
                return R(self.sel1(lt, 0, self.binop(st, 'sub', t, a, c, {})))
            raise Unsupported(b)
        if 'with.overflow' in b:
            t = ins['ty'][1][0][1]
            bits = int(t[1:])
            a, c = self.toint(args[0], bits), self.toint(args[1], bits)
            sg = b[0] == 's'
            opn = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[b[1:4]]
            if not sg:
                a2, c2 = self.unsigned(a, bits), self.unsigned(c, bits)
                mn, mx = 0, (1 << bits) - 1
            else:
                a2, c2 = a, c
                mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            r = self.binop(st, opn, t, a, c, {})
            if isinstance(a2, int) and isinstance(c2, int):
                e = a2 + c2 if opn == 'add' else a2 - c2 if opn == 'sub' else a2 * c2
                return R((r, not (mn <= e <= mx)))
            ea, ec = iex(a2), iex(c2)
            e = ea + ec if opn == 'add' else ea - ec if opn == 'sub' else ea * ec
            la, ha = rng(a2)
            lc, hc = rng(c2)
            cs = [la + lc, ha + hc] if opn == 'add' else [la - hc, ha - lc] if opn == 'sub' else [la * lc, la * hc, ha * lc, ha * hc]
            if min(cs) >= mn and max(cs) <= mx:
                return R((r, False))
            return R((r, z3.Or(e < mn, e > mx)))
        if k == 'vector' and b.startswith('vector.reduce.'):
            o = b.split('.')[2]
            v = args[-1]
            if o in ('fadd', 'fmul'):
                r = args[0]
                for x in v:
                    r = self.fbin(st, o, r, x)
                return R(r)
            r = v[0]
            t = ins['ty']
            for x in v[1:]:
                if o in ('add', 'mul', 'and', 'or', 'xor'):
                    r = self.binop(st, o, t, r, x, {})
                elif o in ('smax', 'smin', 'umax', 'umin'):
                    p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[o]
                    r = self.sel1(self.icmp(st, p, t, r, x), r, x)
                else:
                    raise Unsupported(b)
            return R(r)
        if k in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr'):
            if isinstance(args[0], int):
                bits = int(ty[1:])
                u = args[0] & ((1 << bits) - 1)
                if k == 'ctlz':
                    return R(bits - u.bit_length())
                if k == 'cttz':
                    return R((u & -u).bit_length() - 1 if u else bits)
                if k == 'ctpop':
                    return R(bin(u).count('1'))
            self.notes.add('%s abstracted' % k)
            return R(self.fresh_val(ty))
        raise Unsupported('intrinsic ' + name)

    def fpclass(self, a, m):
        # bits: 0-1 nan, 2 -inf, 3 -normal, 4 -subnormal, 5 -zero, 6 +zero, 7 +sub, 8 +normal, 9 +inf
        if a is U:
            return z3.Bool(self.fresh('u'))
        r = False
        if m & 3:
            if (m & 3) != 3:
                raise Unsupported('qnan/snan class')
            r = Or_(r, a.nan)
        if m & 4:
            r = Or_(r, a.ni)
        if m & 0x200:
            r = Or_(r, a.pi)
        fin = Not_(Or_(a.nan, Or_(a.pi, a.ni)))
        x = m & 0x1f8
        if x:
            neg, zero, pos = m & 0x18, m & 0x60, m & 0x180
            if (neg, zero, pos) == (0x18, 0x60, 0x180):
                c = True
            else:
                c = False
                e = a.r
                if neg:
                    c = Or_(c, e < 0)
                if zero:
                    c = Or_(c, e == 0)
                if pos:
                    c = Or_(c, e > 0)
            r = Or_(r, And_(fin, c))
        return r

    def frint(self, a):
        def g(x):
            k = z3.Int(self.fresh('rint'))
            self.facts.append(z3.And(z3.ToReal(k) - x <= z3.Q(1, 2), x - z3.ToReal(k) <= z3.Q(1, 2)))
            return k
        return self._round(a, lambda x: round(x), g)

    def math(self, st, m, args):
        a = args[0]
        if a is U:
            a = FV(self.fresh_real())
        if m == 'sqrt':
            return self.fsqrt(st, a)
        if m == 'fabs':
            return self.fabs(a)
        if m == 'floor':
            return self.ffloor(a)
        if m == 'ceil':
            return self.fceil(a)
        if m == 'trunc':
            return self.ftrunc(a)
        if m == 'round':
            return self.fround(a)
        if m == 'rint':
            return self.frint(a)
        if m in ('lround', 'llround'):
            return self.fptoint(st, self.fround(a), 64, True)
        if m == 'fmod':
            return self.fmod(st, a, args[1])
        if m in ('fmax', 'fmin'):
            c = args[1]
            lt = self.fcmp(st, 'olt', a, c)
            r = self.sel1(lt, c, a) if m == 'fmax' else self.sel1(lt, a, c)
            return self.sel1(a.nan, c, self.sel1(c.nan, a, r))
        bad = Or_(a.nan, Or_(a.pi, a.ni))
        if m in ('sin', 'cos'):
            if isinstance(a.r, Fraction):
                q = a.r / (PI0 / 2)
                if q.denominator == 1:
                    return FV(Fraction(((0, 1, 0, -1) if m == 'sin' else (1, 0, -1, 0))[int(q) % 4]), bad)
            s, c, _ = self.trig_pair(rex(a.r))
            return FV(s if m == 'sin' else c, bad)
        if m == 'tan':
            s, c, _ = self.trig_pair(rex(a.r))
            return FV(self.divr(s, c), bad)
        if m == 'hypot':
            b = args[1]
            s = self.fbin(st, 'fadd', self.fbin(st, 'fmul', FV(a.r), FV(a.r)), self.fbin(st, 'fmul', FV(b.r), FV(b.r)))
            r = self.fsqrt(st, s)
            inf = Or_(Or_(a.pi, a.ni), Or_(b.pi, b.ni))
            return FV(r.r, And_(Or_(a.nan, b.nan), Not_(inf)), inf, False)
        if m == 'atan2':
            b = args[1]
            bad = Or_(bad, Or_(b.nan, Or_(b.pi, b.ni)))
            if bad is not False:
                # infinities give a defined angle; abstract: some real in [-pi,pi] unless NaN
                t = self.fatan2(st, rex(a.r), rex(b.r))
                f = self.fresh_real('at')
                p = rex(PI0)
                self.facts.append(z3.And(f <= p, f >= -p))
                inf = Or_(Or_(a.pi, a.ni), Or_(b.pi, b.ni))
                return FV(t if inf is False else z3.If(bex(inf), f, t), Or_(a.nan, b.nan))
            if isinstance(a.r, Fraction) and isinstance(b.r, Fraction) and a.r == 0 and b.r > 0:
                return FV(Fraction(0))
            return FV(self.fatan2(st, rex(a.r), rex(b.r)))
        if m in ('asin', 'acos', 'atan'):
            x = rex(a.r)
            t, new = self.fapp(m, x)
            if new:
                p = rex(PI0)
                s, c, _ = self.trig_pair(t)
                if m == 'asin':
                    self.facts.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= -p / 2, t <= p / 2, s == x, c >= 0)))
                elif m == 'acos':
                    self.facts.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= 0, t <= p, c == x, s >= 0)))
                else:
                    self.facts.append(z3.And(t > -p / 2, t < p / 2, c > 0, x * c == s))
            if m == 'atan':
                return FV(t, a.nan)
            out = z3.Or(x < -1, x > 1)
            if self.must(st, z3.Not(out)):
                out = False
            return FV(t, Or_(bad, out))
        if m in ('exp', 'log', 'exp2', 'log2', 'log10'):
            x = rex(a.r)
            t, new = self.fapp(m, x)
            if m in ('exp', 'exp2'):
                if new:
                    self.facts.append(z3.And(t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x > 0, t > 1), z3.Implies(x < 0, t < 1)))
                    for (t2, x2) in self.mono.setdefault(m, []):
                        self.facts.append(z3.And(z3.Implies(x < x2, t < t2), z3.Implies(x > x2, t > t2), z3.Implies(x == x2, t == t2)))
                    self.mono[m].append((t, x))
                return FV(t, a.nan, a.pi, False)
            if new:
                self.facts.append(z3.And(z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0)))
                for (t2, x2) in self.mono.setdefault(m, []):
                    self.facts.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And(z3.Implies(x < x2, t < t2), z3.Implies(x > x2, t > t2), z3.Implies(x == x2, t == t2))))
                self.mono[m].append((t, x))
            pos = x > 0
            if self.must(st, pos):
                return FV(t, a.nan, a.pi, False)
            return FV(t, Or_(a.nan, Or_(x < 0, a.ni)), a.pi, And_(x == 0, Not_(bad)))
        if m == 'tanh':
            x = rex(a.r)
            t, new = self.fapp(m, x)
            if new:
                self.facts.append(z3.And(t > -1, t < 1, z3.Implies(x == 0, t == 0), z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)))
            return FV(t, a.nan)
        if m == 'pow' or m == 'powi':
            b = args[1]
            if m == 'powi':
                b = FV(Fraction(b)) if isinstance(b, int) else FV(z3.ToReal(b.e))
            if isinstance(b.r, Fraction) and b.r.denominator == 1 and 0 <= b.r <= 6 and not b.special():
                r = FV(Fraction(1))
                for _ in range(int(b.r)):
                    r = self.fbin(st, 'fmul', r, a)
                return r
            if isinstance(b.r, Fraction) and b.r == Fraction(1, 2):
                return self.fsqrt(st, a)
            x, y = rex(a.r), rex(b.r)
            t, new = self.fapp('pow', x, y)
            if new:
                self.facts.append(z3.And(z3.Implies(x > 0, t > 0), z3.Implies(y == 0, t == 1), z3.Implies(x == 1, t == 1),
                                         z3.Implies(z3.And(x == 0, y > 0), t == 0), z3.Implies(z3.And(x > 1, y > 0), t > 1),
                                         z3.Implies(z3.And(x > 1, y < 0), t < 1), z3.Implies(z3.And(x > 0, x < 1, y > 0), t < 1),
                                         z3.Implies(z3.And(x > 0, x < 1, y < 0), t > 1), z3.Implies(y == 1, t == x)))
            bad = Or_(bad, Or_(b.nan, Or_(b.pi, b.ni)))
            nan = Or_(bad, x < 0)
            if self.must(st, x >= 0):
                nan = bad
            inf = z3.And(x == 0, y < 0)
            if self.must(st, z3.Not(inf)):
                inf = False
            self.notes.add('pow with non-constant exponent: axiomatised')
            return FV(t, nan, inf, False)
        raise Unsupported('math ' + m)

    mono = {}

    # ------------------------------------------------------------ contract primitives
    def vc(self, name, args, ins, st):
        R = lambda v=None: (st, v, None, None)
        if name == 'vc_assume':
            c = args[0]
            st.assume(self.decide(st, c))
            if st.dead:
                return None, None, None, None
            return R()
        if name == 'vc_assert':
            lab = self.cstr(st, args[1])
            self.oblige(st, self.decide(st, args[0]), lab, 'ensures')
            c = self.decide(st, args[0])
            if self.o.get('assert_assume', False) and not isinstance(c, bool):
                st.assume(c)
            return R()
        if name == 'vc_bounds':
            c = self.decide(st, args[0])
            self.oblige(st, c, 'container index is within bounds', 'ub')
            if not isinstance(c, bool):
                st.assume(c)
            elif c is False:
                st.assume(z3.BoolVal(False))
            if st.dead:
                return None, None, None, None
            return R()
        if name == 'vc_lemma':
            # prove it, then use it
            lab = self.cstr(st, args[1])
            c = self.decide(st, args[0])
            self.oblige(st, c, lab, 'lemma')
            st.assume(c)
            return R()
        if name == 'vc_cover':
            if not self.dry:
                self.covers.append((self.cstr(st, args[1]), list(st.g) + ([args[0]] if args[0] is not True else []), args[0] is False))
            return R()
        if name == 'vc_iteration':
            if not self.iters:
                raise Unsupported('vc_iteration outside a loop')
            return R(self.iters[-1])
        if name == 'vc_loop_cut':
            self.loop_cut(st, args[0])
            if st.dead:
                return None, None, None, None
            return R()
        if name == 'vc_replace':
            self.replaced[args[0].n] = args[1].n
            return R()
        if name == 'vc_replace_named':
            pat = re.compile(self.cstr(st, args[0]))
            hit = False
            for n in list(self.ir['functions']) + list(self.ir['decls']):
                if pat.search(demangled(self.ir, n)):
                    self.replaced[n] = args[1].n
                    hit = True
            return R(hit)
        if name == 'vc_symbolic':
            return R(True)
        if name in ('vc_nd_float', 'vc_nd_double'):
            nm = self.ndname(self.cstr(st, args[0]))
            ty = 'f32' if name == 'vc_nd_float' else 'f64'
            lo, hi = args[1], args[2]
            v = FV(z3.Real('nd:' + nm))
            if not lo.special():
                self.facts.append(v.r >= rex(lo.r))
            if not hi.special():
                self.facts.append(v.r <= rex(hi.r))
            self.vrange['nd:' + nm] = (None if lo.special() or not isinstance(lo.r, Fraction) else lo.r, None if hi.special() or not isinstance(hi.r, Fraction) else hi.r)
            self.nd.append((nm, ty, v))
            return R(v)
        if name in ('vc_nd_float_any', 'vc_nd_double_any'):
            nm = self.ndname(self.cstr(st, args[0]))
            ty = 'f32' if name == 'vc_nd_float_any' else 'f64'
            v = FV(z3.Real('nd:' + nm), z3.Bool('nd:' + nm + '.nan'), z3.Bool('nd:' + nm + '.pinf'), z3.Bool('nd:' + nm + '.ninf'))
            self.facts.append(z3.Not(z3.Or(z3.And(v.nan, v.pi), z3.And(v.nan, v.ni), z3.And(v.pi, v.ni))))
            self.nd.append((nm, ty, v))
            return R(v)
        if name in ('vc_nd_i32', 'vc_nd_i64'):
            nm = self.ndname(self.cstr(st, args[0]))
            e = z3.Int('nd:' + nm)
            (lo, lo1), (hi0, hi) = rng(args[1]), rng(args[2])
            if lo == hi:
                self.nd.append((nm, 'int', lo))
                return R(lo)
            v = SI(e, lo, hi)
            self.facts.append(z3.And(e >= lo, e <= hi))
            for c in ([e >= iex(args[1])] if lo != lo1 else []) + ([e <= iex(args[2])] if hi0 != hi else []):
                st.assume(c)
            self.nd.append((nm, 'int', v))
            return R(v)
        if name == 'vc_nd_bool':
            nm = self.ndname(self.cstr(st, args[0]))
            v = z3.Bool('nd:' + nm)
            self.nd.append((nm, 'bool', v))
            return R(v)
        if name == 'vc_alloc_unbounded':
            # storage of a model container: indices are checked by the container, not by the allocation
            i = self.new_obj(st, None, 'undef', 'container')
            es = int(args[0])
            lay = self.parse_layout(self.cstr(st, args[1])) if isinstance(args[1], P) and args[1].o else None
            o = self.wobj(st, i)
            o.stride = es
            o.layout = lay
            return R(P(i, 0))
        if name == 'vc_sym_array':
            # (name, elemsize, layout, n): array object of n elements with arbitrary (finite) content
            nm = self.ndname(self.cstr(st, args[0]))
            es = int(args[1])
            lay = self.parse_layout(self.cstr(st, args[2]))
            n = self.toint(args[3], 64)
            size = n * es if isinstance(n, int) else n.e * es
            i = self.new_obj(st, size, 'sym', nm)
            o = self.wobj(st, i)
            o.stride = es
            o.layout = lay
            arrs = {}
            for fld, t in lay.items():
                a = self.mk_arr(st, i, o, es, fld, t)
                arrs[fld] = a.copy()
            self.nd.append((nm, 'array', (es, lay, arrs, n)))
            return R(P(i, 0))
        if name == 'vc_havoc_array':
            # (name, ptr, elemsize, layout, n): the n elements at ptr take arbitrary (finite) content
            nm = self.ndname(self.cstr(st, args[0]))
            alts = self.deref(st, args[1], 'havoc')
            n = self.toint(args[4], 64)
            if not alts:
                return R()
            if len(alts) != 1 or not (isinstance(alts[0][1].off, int) and alts[0][1].off == 0):
                raise Unsupported('vc_havoc_array of %r' % (args[1],))
            i = alts[0][1].o
            es = int(args[2])
            lay = self.parse_layout(self.cstr(st, args[3]))
            o = self.wobj(st, i)
            o.cells = {}
            o.stride = es
            o.arrs = {}
            arrs = {}
            for fld, t in lay.items():
                kind = 'f' if t[0] in 'fx' else 'i'
                a = Arr(kind, max(8, int(t[1:])), z3.Array(self.fresh('H' + nm), z3.IntSort(), z3.RealSort() if kind == 'f' else z3.IntSort()))
                if t[0] == 'x':
                    self.special_arr(a)
                o.arrs[(es, fld)] = a
                arrs[fld] = a.copy()
                if self.wlog is not None:
                    self.wlog.add(('a', i, es, fld))
            self.nd.append((nm, 'array', (es, lay, arrs, n)))
            return R()
        if name == 'vc_clone_array':
            # (dst, src): dst takes a copy of the whole content of src
            d, s = args[0], args[1]
            so = self.obj(st, s.o)
            w = self.wobj(st, d.o)
            w.cells = dict(so.cells)
            w.arrs = {k: a.copy() for k, a in so.arrs.items()}
            w.stride, w.layout, w.base = so.stride, so.layout, so.base
            w.src = so.src if so.src else s.o
            if self.wlog is not None:
                self.wlog.add(('all', d.o))
            return R()
        if name == 'vc_forall':
            # (lo, hi, bool(*f)(long, void*), ctx): f(k) for every lo <= k < hi
            lo, hi = self.toint(args[0], 64), self.toint(args[1], 64)
            k = z3.Int(self.fresh('qk'))
            n0 = len(self.facts)
            s2 = st.fork()
            rngc = z3.And(iex(lo) <= k, k < iex(hi))
            s2.assume(rngc)
            if s2.dead:
                return R(True)
            nfr = self.n
            self.qdepth += 1
            rs, rv, es, ev = self.call_fn(self.fn(args[2].n), [SI(k, -(1 << 62), 1 << 62), args[3]], s2)
            self.qdepth -= 1
            new = self.facts[n0:]
            del self.facts[n0:]
            self._fidx = (0, {})
            kn = k.decl().name()
            for fct in new:
                vs = self.vars_of(fct)
                if any(v != kn and self.is_loopvar(v, nfr) for v in vs):
                    raise Unsupported('auxiliary value inside a quantifier')
                self.facts.append(z3.ForAll([k], fct) if kn in vs else fct)
            if rs is None:
                return R(True)
            b = rv
            if isinstance(b, SI):
                b = b.e != 0
            return R(z3.simplify(z3.ForAll([k], z3.Implies(rngc, bex(b)))) if not isinstance(b, (bool, int)) else True if b else z3.Not(z3.Exists([k], rngc)))
        if name == 'vc_note':
            self.notes.add(self.cstr(st, args[0]))
            return R()
        if name == 'vc_real_sin' or name == 'vc_real_cos':
            return R(self.math(st, name[-3:], args))
        if name == 'vc_uf1':
            t, _ = self.fapp('uf_' + self.cstr(st, args[0]), rex(args[1].r))
            return R(FV(t))
        if name == 'vc_uf3':
            t, _ = self.fapp('uf_' + self.cstr(st, args[0]), rex(args[1].r), rex(args[2].r), rex(args[3].r))
            return R(FV(t))
        if name == 'vc_uf4':
            t, _ = self.fapp('uf_' + self.cstr(st, args[0]), *[rex(a.r) for a in args[1:5]])
            return R(FV(t))
        if name == 'vc_ufi':
            # integer function of reals with values in [lo,hi]
            nm, lo, hi, n = self.cstr(st, args[0]), args[1], args[2], args[3]
            f = self.uf.get((nm, 'int'))
            if f is None:
                f = z3.Function('ufi_' + nm, *([z3.RealSort()] * n + [z3.IntSort()]))
                self.uf[(nm, 'int')] = f
            t = f(*[rex(a.r) for a in args[4:4 + n]])
            if self.qdepth:
                return R(SI(t, -(1 << 31), (1 << 31) - 1))
            self.facts.append(z3.And(t >= lo, t <= hi))
            return R(SI(t, lo, hi))
        if name == 'vc_uf2':
            t, _ = self.fapp('uf_' + self.cstr(st, args[0]), rex(args[1].r), rex(args[2].r))
            return R(FV(t))
        if name == 'vc_pred':
            n = args[1] if isinstance(args[1], int) else None
            xs = [a for a in args[2:]]
            ts, fin = [], []
            for a in xs:
                if isinstance(a, FV):
                    ts.append(rex(a.r))
                    for fl in (a.nan, a.pi, a.ni):
                        if fl is not False:
                            fin.append(Not_(fl))
                else:
                    ts.append(z3.ToReal(iex(a)))
            d = z3.Function('pred_' + self.cstr(st, args[0]), *([z3.RealSort()] * len(ts) + [z3.BoolSort()]))
            return R(z3.And(*[bex(x) for x in fin], d(*ts)) if fin else d(*ts))
        if name == 'vc_trace':
            if not self.dry:
                print('TRACE', self.cstr(st, args[0]), args[1:], [str(x)[:200] for x in st.g])
            return R()
        if self.fn(name):
            return None
        raise Unsupported(name)

    def parse_layout(self, s):
        d = {}
        for p in s.split(','):
            if p.strip():
                t, o = p.strip().split('@')
                d[int(o)] = t
        return d


STD_PARENT = {
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
}

MATH = {}
for _n in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'fmod', 'fmax', 'fmin', 'sin', 'cos', 'tan', 'hypot', 'atan2', 'asin', 'acos',
           'atan', 'exp', 'log', 'exp2', 'log2', 'log10', 'pow', 'tanh', 'lround', 'llround'):
    MATH[_n] = _n
    MATH[_n + 'f'] = _n
MATH['nearbyint'] = MATH['nearbyintf'] = 'rint'
