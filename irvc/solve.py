"""Discharging obligations: forked workers, portfolio z3 (python) -> cvc5 -> other z3 configurations."""
import multiprocessing as mp
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from .engine import split_goal, small
from .values import Unsupported, FV, SI, Off, off_add, off_neg, off_expr, P, FnP, PIte, Blob, _U, frac_of_bits, fv_of_float, rex, bex, iex, rng, And_, Or_, Not_, conj, same, Ite_b, ite, _coerce_part, split_int, to_signed, ite_ptr, ite_off, U

_E = None


def query(eng, guard, cond):
    conds = []
    if guard is not True:
        conds += list(guard.children()) if z3.is_and(guard) else [guard]
    if cond is not None:
        conds.append(Not_(cond) if not isinstance(cond, bool) else z3.BoolVal(not cond))
    facts = eng.relevant(conds)
    return facts, conds


def rat(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def model_values(eng, m):
    out = []

    def fl(v):
        for nm, s in (('nan', 'nan'), ('pi', 'inf'), ('ni', '-inf')):
            f = getattr(v, nm)
            if f is not False and z3.is_true(m.eval(bex(f), model_completion=True)):
                return s
        r = rat(m.eval(rex(v.r), model_completion=True))
        try:
            return repr(float(r))
        except OverflowError:
            return '1e308'
    for nm, kind, v in eng.nd:
        try:
            if kind in ('f32', 'f64'):
                out.append((nm, fl(v)))
            elif kind == 'int':
                out.append((nm, str(v if isinstance(v, int) else m.eval(v.e, model_completion=True).as_long())))
            elif kind == 'bool':
                out.append((nm, '1' if z3.is_true(m.eval(v, model_completion=True)) else '0'))
            elif kind == 'array':
                es, lay, arrs, n = v
                k = n if isinstance(n, int) else m.eval(n.e, model_completion=True).as_long()
                for i in range(min(k, 2000)):
                    for fld, a in arrs.items():
                        x = m.eval(z3.Select(a.d, i), model_completion=True)
                        out.append(('%s[%d].%d' % (nm, i, fld), repr(float(rat(x))) if a.kind == 'f' else str(x)))
        except Exception:
            continue
    return out


def nonlinear(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_mul(x) and sum(0 if (z3.is_rational_value(c) or z3.is_int_value(c)) else 1 for c in x.children()) > 1:
            return True
        if z3.is_quantifier(x):
            continue
        st.extend(x.children())
    return False


def has_quant(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_MUL = z3.Function('mul_', z3.RealSort(), z3.RealSort(), z3.RealSort())


def abstract_products(fs):
    """the formulas with every product of two unknown reals replaced by an uninterpreted function of its factors: unsat of the
    result implies unsat of the original"""
    memo, keep = {}, []

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(x):
            vs = [z3.Const('abs!%s!%d' % (x.var_name(k), i), x.var_sort(k)) for k in range(x.num_vars())]
            b = go(z3.substitute_vars(x.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if x.is_forall() else z3.Exists(vs, b) if x.is_exists() else x
        else:
            ch = [go(c) for c in x.children()]
            if z3.is_mul(x) and x.sort() == z3.RealSort():
                num = [c for c in ch if z3.is_rational_value(c)]
                oth = sorted((c for c in ch if not z3.is_rational_value(c)), key=lambda c: c.get_id())
                if len(oth) > 1:
                    r = oth[0]
                    for o in oth[1:]:
                        r = _MUL(r, o)
                    for c in num:
                        r = c * r
                else:
                    r = x.decl()(*ch)
            else:
                r = x.decl()(*ch) if ch else x
        keep.append(x)
        memo[i] = r
        return r
    return [go(f) for f in fs]


def smt2(facts, conds, logic='ALL'):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for c in conds:
        s.add(c)
    return '(set-logic %s)\n' % logic + s.to_smt2()


def run_bin(cmd, text, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        p = f.name
    try:
        r = subprocess.run(cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 5, text=True)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
    except subprocess.TimeoutExpired:
        o = 'timeout'
    finally:
        os.unlink(p)
    return o


_cv = {}


def consts_of(e):
    """uninterpreted constants of a term"""
    i = e.get_id()
    if i in _cv:
        return _cv[i][1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(k)
            else:
                st.extend(x.children())
    _cv[i] = (e, out)
    return out


def flat(cs):
    out = []
    for c in cs:
        out += split_goal(c, 400)
    return out


def asize(e, lim=60):
    n, st, seen = 0, [e], set()
    while st and n < lim:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        st.extend(x.children())
    return n


def assume(hyps, lits):
    """hyps with the literals replaced by their truth value; None if contradictory"""
    sub = []
    for l in lits:
        if z3.is_not(l):
            sub.append((l.arg(0), z3.BoolVal(False)))
        elif z3.is_and(l) or z3.is_or(l):
            continue
        else:
            sub.append((l, z3.BoolVal(True)))
    out = []
    for h in hyps:
        n = z3.simplify(z3.substitute(h, *sub)) if sub else h
        if z3.is_false(n):
            return None
        if z3.is_true(n):
            continue
        out.append(n)
    return out


def cases(hyps, goal, limit=24):
    """case split on the disjunctive hypotheses that have a structured branch; [(hyps, goal)]"""
    todo, done = [(hyps, goal)], []
    while todo:
        hs, g = todo.pop()
        pick = None
        for k, h in enumerate(hs):
            if z3.is_or(h) and h.num_args() <= 4 and (any(z3.is_and(x) for x in h.children()) or (h.num_args() == 2 and asize(h) < 40)):
                pick = k
                break
        if pick is None or len(todo) + len(done) >= limit:
            done.append((hs, g))
            continue
        rest = hs[:pick] + hs[pick + 1:]
        for x in hs[pick].children():
            lits = flat([x])
            r = assume(rest, lits)
            if r is None:
                continue
            gg = assume([g], lits)
            if gg is None:
                continue
            todo.append((flat(r) + lits, gg[0] if gg else z3.BoolVal(True)))
    return done


def ite_conds(fs, lim=14):
    """atomic conditions of the if-then-else terms, innermost first; None when there are too many"""
    out, seen, st = {}, set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            out[c.get_id()] = c
            if len(out) > lim:
                return None
        st.extend(x.children())
    return list(out.values())


def has_ite(c):
    seen, st = set(), [c]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        st.extend(x.children())
    return False


def ite_cases(fs, limit=96):
    """the formulas under every combination of truth values of their if-then-else conditions; None when too many"""
    todo, done = [list(fs)], []
    while todo:
        hs = todo.pop()
        cs = ite_conds(hs)
        if cs is None:
            return None
        if not cs:
            done.append(hs)
            if len(done) > limit:
                return None
            continue
        pure = [c for c in cs if not has_ite(c)]
        c = min(pure or cs, key=asize)
        for v in (True, False):
            r = []
            bad = False
            for h in hs:
                n = z3.simplify(z3.substitute(h, (c, z3.BoolVal(v))))
                if z3.is_false(n):
                    bad = True
                    break
                if not z3.is_true(n):
                    r.append(n)
            if bad:
                continue
            lit = z3.simplify(c if v else z3.Not(c))
            if z3.is_false(lit):
                continue
            if not z3.is_true(lit):
                s = z3.Solver()
                s.set('timeout', 200)
                s.add(lit)
                for h in r:
                    if not has_ite(h) and asize(h, 40) < 40:
                        s.add(h)
                if s.check() == z3.unsat:
                    continue
                r.append(lit)
            todo.append(r)
            if len(todo) + len(done) > limit:
                return None
    return done


def slice_(hyps, goal, lv):
    """goal with the hypotheses within lv hops of its constants; None when that is everything"""
    vs = set(consts_of(goal))
    for _ in range(lv):
        new = set(vs)
        for h in hyps:
            c = consts_of(h)
            if len(c) <= 24 and c & vs:
                new |= c
        vs = new
    sel = [h for h in hyps if consts_of(h) <= vs]
    if len(sel) == len(hyps):
        return None
    return sel + [goal]


def identity(c, limit=400):
    """c (or one of its disjuncts) is an equation that holds by the laws of arithmetic alone"""
    if z3.is_or(c):
        return any(identity(x, limit) for x in c.children())
    if z3.is_implies(c):
        return identity(c.arg(1), limit)
    if not z3.is_eq(c) or not z3.is_arith(c.arg(0)):
        return False
    d = c.arg(0) - c.arg(1)
    if not small(d, limit):
        return False
    r = z3.simplify(d, som=True, som_blowup=200)
    return z3.is_rational_value(r) and r.as_fraction() == 0 or z3.is_int_value(r) and r.as_long() == 0


def solve_one(eng, ob, secs, want_model=True):
    t0 = time.time()
    if not isinstance(ob.cond, bool) and identity(ob.cond):
        return 'proved', 'z3 polynomial identity', time.time() - t0, None
    facts, conds = query(eng, bex(ob.guard) if ob.guard is not True else True, ob.cond)
    nl = nonlinear(facts + conds)
    last = 'unknown'

    def z3try(mk, sec, name):
        s = mk()
        s.set('timeout', int(sec * 1000))
        for f in facts:
            s.add(f)
        for c in conds:
            s.add(c)
        try:
            r = s.check()
        except z3.Z3Exception as x:
            return 'unknown', None
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            try:
                return 'sat', model_values(eng, s.model())
            except z3.Z3Exception:
                return 'sat', None
        return 'unknown', None

    def tac(*names):
        return lambda: z3.Then(*names).solver()
    stages = []
    a = min(secs, 6.0)
    stages.append(('z3', lambda: z3try(z3.Solver, a, 'z3')))
    if nl:
        stages.append(('z3-nlsat', lambda: z3try(tac('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'simplify', 'qfnra-nlsat'), a, 'nlsat')))

    def cv(sec, *extra):
        def f():
            t = smt2(facts, conds)
            o = run_bin(['cvc5', '--tlimit=%d' % int(sec * 1000)] + list(extra), t, sec)
            if o == 'unsat':
                return 'unsat', None
            if o == 'sat':
                return 'sat', None
            return 'unknown', None
        return f
    stages.append(('cvc5', cv(a)))
    if nl:
        stages.append(('cvc5-cov', cv(a, '--nl-cov')))
    if secs > a:
        stages.append(('z3 long', lambda: z3try(z3.Solver, secs, 'z3')))
        if nl:
            stages.append(('z3-nlsat long', lambda: z3try(tac('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'simplify', 'qfnra-nlsat'), secs, 'nlsat')))
        stages.append(('cvc5 long', cv(secs)))

        def oldz():
            o = run_bin(['/usr/bin/z3', '-T:%d' % int(secs)], smt2(facts, conds, 'ALL').replace('(set-logic ALL)\n', ''), secs)
            return (o, None) if o in ('unsat', 'sat') else ('unknown', None)
        stages.append(('z3-4.8', oldz))
    def qs(mk, fs, sec):
        s = mk()
        s.set('timeout', int(sec * 1000))
        for c in fs:
            s.add(c)
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False
    stop = [0]
    NL = tac('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'simplify', 'qfnra-nlsat')

    def sliced(split, sec, cap):
        def one(hyps, goal):
            last = None
            for lv in (0, 1, 2, 9):
                sub = slice_(hyps, goal, lv) if lv < 9 else hyps + [goal]
                if sub is None:
                    continue
                if last is not None and len(sub) == last:
                    continue
                last = len(sub)
                if time.time() > stop[0]:
                    return False
                if qs(z3.Solver, sub, sec) or (nl and nonlinear(sub) and qs(NL, sub, sec)):
                    return True
            return False

        def f():
            stop[0] = time.time() + cap
            hyps, goal = flat(list(facts) + list(conds[:-1])), conds[-1]
            cs = cases(hyps, goal) if split else [(hyps, goal)]
            if split and len(cs) == 1 and len(cs[0][0]) == len(hyps):
                return 'unknown', None
            for h, g in cs:
                if not one(h, g):
                    return 'unknown', None
            return 'unsat', None
        return f
    if nl and has_quant(facts + conds):
        def absprod():
            fs = abstract_products(flat(list(facts) + list(conds)))
            for mk in (z3.Solver, tac('simplify', 'propagate-values', 'solve-eqs', 'smt')):
                if qs(mk, fs, 4):
                    return 'unsat', None
            return 'unknown', None
        stages[0:0] = [('z3 abstract products', absprod)]
    if len(facts) + len(conds) > 4:
        stages[1:1] = [('z3 slices', sliced(False, 1.5, 8)), ('z3 cases', sliced(True, 1.5, 25 if nl else 8))]
        if secs > a:
            stages.append(('z3 cases long', sliced(True, secs / 3, secs * 5)))

    def itesplit():
        end = time.time() + (90 if nl else 40)
        fs = flat(list(facts) + list(conds))
        cs = ite_conds(fs)
        if not cs:
            return 'unknown', None
        ls = ite_cases(fs)
        if ls is None:
            return 'unknown', None
        aq = nl and has_quant(fs)
        if os.environ.get('IRVC_ITE'):
            print('leaves', len(ls))
        for leaf in ls:
            if time.time() > end:
                return 'unknown', None
            if aq and any(qs(mk, abstract_products(leaf), 6) for mk in (z3.Solver, tac('simplify', 'propagate-values', 'solve-eqs', 'smt'))):
                continue
            if not (qs(z3.Solver, leaf, 10 if aq else 5) or (nl and nonlinear(leaf) and qs(NL, leaf, 5))):
                return 'unknown', None
        return 'unsat', None
    stages[min(2, len(stages)):min(2, len(stages))] = [('z3 ite split', itesplit)]
    model = None
    for name, fn in stages:
        r, m = fn()
        if r == 'unsat':
            return 'proved', name, time.time() - t0, None
        if r == 'sat':
            if m is None and want_model:
                # a model for replay, if z3 can give one
                r2, m = z3try(z3.Solver, secs, 'z3')
                if r2 == 'unsat':
                    m = None
            _dump(ob, facts, conds)
            return 'refuted', name, time.time() - t0, m
    _dump(ob, facts, conds)
    return 'unknown', 'portfolio', time.time() - t0, None


def _dump(ob, facts, conds):
    if os.environ.get('IRVC_DUMP'):
        with open('%s/%s_%d.smt2' % (os.environ['IRVC_DUMP'], ob.kind, ob.loc[1]), 'w') as f:
            f.write(smt2(facts, conds))
        with open('%s/%s_%d.txt' % (os.environ['IRVC_DUMP'], ob.kind, ob.loc[1]), 'w') as f:
            f.write('GOAL\n%s\nGUARD\n%s\nFACTS\n%s\n' % (conds[-1], '\n--\n'.join(map(str, conds[:-1])), '\n--\n'.join(map(str, facts))))


def _work(k):
    eng, secs = _E
    try:
        return k, solve_one(eng, eng.obls[k], secs)
    except Exception as x:        # noqa
        return k, ('unknown', 'error: %s' % str(x)[:200], 0.0, None)


def solve_all(eng, secs, procs=8, budget=None):
    """solve all open obligations of an engine, in parallel"""
    global _E
    todo = [k for k, o in enumerate(eng.obls) if o.status is None]
    # merge identical obligations
    seen = {}
    uniq = []
    for k in todo:
        o = eng.obls[k]
        key = (o.guard.get_id() if o.guard is not True else 0, o.cond.get_id() if not isinstance(o.cond, bool) else o.cond)
        if key in seen:
            seen[key].append(k)
        else:
            seen[key] = [k]
            uniq.append((key, k))
    rep = {k: seen[key] for key, k in uniq}
    todo = [k for _, k in uniq]
    if not todo:
        return
    _E = (eng, secs)
    n = min(procs, len(todo))
    ctx = mp.get_context('fork')
    end = time.time() + budget if budget else None
    with ctx.Pool(n) as pool:
        it = pool.imap_unordered(_work, todo, chunksize=1)
        left = set(todo)
        try:
            while left:
                t = max(1, end - time.time()) if end else None
                k, (s, by, tm, m) = it.next(t)
                left.discard(k)
                for j in rep[k]:
                    o = eng.obls[j]
                    o.status, o.by, o.time, o.model = s, by, tm if j == k else 0.0, m
        except mp.TimeoutError:
            pool.terminate()
            for k in left:
                for j in rep[k]:
                    eng.obls[j].status = 'unknown'
                    eng.obls[j].by = 'time budget'
