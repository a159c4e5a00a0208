"""Symbolic value domain of irvc (see DESIGN.md, 'The verifier')."""
from fractions import Fraction
from math import gcd, isnan, isinf
import struct
import z3


class Unsupported(Exception):
    pass


class FV:
    """A float: a mathematical real plus NaN / +inf / -inf tags (python bool or z3 Bool)."""
    __slots__ = ('r', 'nan', 'pi', 'ni')

    def __init__(self, r, nan=False, pi=False, ni=False):
        self.r, self.nan, self.pi, self.ni = r, nan, pi, ni

    def special(self):
        return not (self.nan is False and self.pi is False and self.ni is False)

    def __repr__(self):
        return 'FV(%s%s)' % (self.r, '' if not self.special() else ';%s;%s;%s' % (self.nan, self.pi, self.ni))


class SI:
    """A symbolic machine integer in signed canonical form, with an interval."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return 'SI(%s[%s,%s])' % (self.e, self.lo, self.hi)


class Off:
    """Symbolic byte offset: const + sum coef*expr."""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    def expr(self):
        r = z3.IntVal(self.c)
        for k, e in self.t:
            r = r + k * e
        return r

    def __repr__(self):
        return 'Off(%d%s)' % (self.c, ''.join('+%d*(%s)' % x for x in self.t))


def off_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, ta = (a, ()) if isinstance(a, int) else (a.c, a.t)
    cb, tb = (b, ()) if isinstance(b, int) else (b.c, b.t)
    d = {}
    for k, e in ta + tb:
        i = e.get_id()
        if i in d:
            d[i] = (d[i][0] + k, e)
        else:
            d[i] = (k, e)
    t = tuple((k, e) for k, e in d.values() if k != 0)
    return Off(ca + cb, t) if t else ca + cb


def off_neg(a):
    if isinstance(a, int):
        return -a
    return Off(-a.c, tuple((-k, e) for k, e in a.t))


def off_expr(a):
    return z3.IntVal(a) if isinstance(a, int) else a.expr()


class P:
    """Pointer: object id (0 = null / raw address) + offset."""
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return 'P(%s,%s)' % (self.o, self.off)


class FnP:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Fn(%s)' % self.n


class PIte:
    """Guarded set of pointers [(cond, P|FnP)], conditions exhaustive under the current guard."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'PIte(%s)' % (self.alts,)


class Blob:
    """An integer-typed value made of typed parts [(size, value)] in address order."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'Blob%s' % (self.parts,)


class _U:
    def __repr__(self):
        return 'undef'


U = _U()


def frac_of_bits(v, bits):
    """float bit pattern -> FV (exact)."""
    if bits == 32:
        f = struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
    elif bits == 64:
        f = struct.unpack('<d', struct.pack('<Q', v & 0xffffffffffffffff))[0]
    else:
        raise Unsupported('fp width %d' % bits)
    return fv_of_float(f)


def fv_of_float(f):
    if isnan(f):
        return FV(Fraction(0), nan=True)
    if isinf(f):
        return FV(Fraction(0), pi=f > 0, ni=f < 0)
    return FV(PI_SNAP.get(f) or Fraction(f))


def _f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


# Multiples of pi in the program text (M_PI, M_PI_F, DEG_TO_RAD, ...) are rounded to 32 or 64 bits; they are read as exact
# multiples of one rational, PI0, so that degrees-to-radians and back is the identity (real arithmetic, DESIGN.md).
PI0 = Fraction(3.141592653589793)


def _snap():
    t = {}
    pf = _f32(3.141592653589793)
    pd = 3.141592653589793
    for k in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4), Fraction(3, 2), Fraction(4), Fraction(1, 180), Fraction(1, 360), Fraction(1, 90), Fraction(3, 4)):
        for v in (_f32(float(k) * pf), _f32(float(k) * pd), float(k) * pd, pf / k.denominator * k.numerator, _f32(pf / k.denominator * k.numerator), pd / k.denominator * k.numerator):
            t[v] = k * PI0
            t[-v] = -k * PI0
        for v in (_f32(1 / (float(k) * pf)), _f32(k.denominator / pf / k.numerator), k.denominator / pd / k.numerator, _f32(k.denominator / pd / k.numerator)):
            t[v] = 1 / (k * PI0)
            t[-v] = -1 / (k * PI0)
    return t


PI_SNAP = _snap()


def rex(r):
    """real as z3 expr"""
    if isinstance(r, Fraction):
        if r.denominator == 1:
            return z3.RealVal(r.numerator)
        return z3.Q(r.numerator, r.denominator)
    return r


def bex(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def iex(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SI):
        return v.e
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('iex %r' % (v,))


def rng(v):
    if isinstance(v, bool):
        return (int(v), int(v))
    if isinstance(v, int):
        return (v, v)
    if isinstance(v, SI):
        return (v.lo, v.hi)
    if isinstance(v, z3.BoolRef):
        return (0, 1)
    raise Unsupported('rng %r' % (v,))


def And_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def Or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def Not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def conj(l):
    l = [x for x in l if x is not True]
    if not l:
        return True
    for x in l:
        if x is False:
            return False
    return l[0] if len(l) == 1 else z3.And(*l)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


def Ite_b(c, a, b):
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return Not_(c)
    if a is True:
        return z3.Or(c, b)
    if a is False:
        return z3.And(Not_(c), b)
    if b is True:
        return z3.Or(Not_(c), a)
    if b is False:
        return z3.And(c, a)
    return z3.If(c, a, b)


def ite(c, a, b):
    """merge two run-time values: c ? a : b   (c is a z3 Bool)"""
    if a is b:
        return a
    if a is U:
        return b
    if b is U:
        return a
    ta, tb = type(a), type(b)
    if ta is FV and tb is FV:
        if same(a.r, b.r):
            r = a.r
        elif a.nan is True or a.pi is True or a.ni is True:
            r = b.r
        elif b.nan is True or b.pi is True or b.ni is True:
            r = a.r
        else:
            r = z3.If(c, rex(a.r), rex(b.r))
        return FV(r, Ite_b(c, a.nan, b.nan), Ite_b(c, a.pi, b.pi), Ite_b(c, a.ni, b.ni))
    isba = ta is bool or isinstance(a, z3.BoolRef)
    isbb = tb is bool or isinstance(b, z3.BoolRef)
    if isba and isbb:
        return Ite_b(c, a, b)
    if (isba or ta in (int, SI)) and (isbb or tb in (int, SI)):
        if ta is int and tb is int and a == b:
            return a
        if ta is SI and tb is SI and a.e.eq(b.e):
            return a
        la, ha = rng(a)
        lb, hb = rng(b)
        return SI(z3.If(c, iex(a), iex(b)), min(la, lb), max(ha, hb))
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            raise Unsupported('agg merge')
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if ta in (P, FnP, PIte) or tb in (P, FnP, PIte):
        if ta is int or ta is SI or tb is int or tb is SI:
            if ta is int and a == 0:
                a = P(0, 0)
            elif tb is int and b == 0:
                b = P(0, 0)
            else:
                raise Unsupported('ptr/int merge')
        if isinstance(a, Blob) and len(a.parts) == 1:
            a = a.parts[0][1]
        if isinstance(b, Blob) and len(b.parts) == 1:
            b = b.parts[0][1]
        return ite_ptr(c, a, b)
    if ta is Blob or tb is Blob:
        if ta is Blob and tb is Blob and [s for s, _ in a.parts] == [s for s, _ in b.parts]:
            return Blob([(s, ite(c, x, y)) for (s, x), (_, y) in zip(a.parts, b.parts)])
        # int constant vs blob: split the int
        if ta is Blob and tb is int:
            return Blob([(s, ite(c, x, _coerce_part(x, p))) for (s, x), p in zip(a.parts, split_int(b, [s for s, _ in a.parts]))])
        if tb is Blob and ta is int:
            return Blob([(s, ite(c, _coerce_part(y, p), y)) for (s, y), p in zip(b.parts, split_int(a, [s for s, _ in b.parts]))])
    raise Unsupported('merge %s / %s' % (ta.__name__, tb.__name__))


def _coerce_part(like, iv):
    size, v = iv
    if isinstance(like, FV):
        return frac_of_bits(v, size * 8)
    if isinstance(like, (P, PIte, FnP)):
        if v == 0:
            return P(0, 0)
    return to_signed(v, size * 8)


def split_int(v, sizes):
    out = []
    sh = 0
    for s in sizes:
        out.append((s, (v >> sh) & ((1 << (8 * s)) - 1)))
        sh += 8 * s
    return out


def to_signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def ite_ptr(c, a, b):
    if type(a) is P and type(b) is P and a.o == b.o:
        o = ite_off(c, a.off, b.off)
        return P(a.o, o)
    if type(a) is FnP and type(b) is FnP and a.n == b.n:
        return a
    la = a.alts if isinstance(a, PIte) else [(True, a)]
    lb = b.alts if isinstance(b, PIte) else [(True, b)]
    out = []
    for g, p in la:
        out.append((And_(c, g), p))
    nc = Not_(c)
    for g, p in lb:
        # same pointer object -> join
        for i, (g2, q) in enumerate(out):
            if type(q) is P and type(p) is P and q.o == p.o:
                out[i] = (Or_(g2, And_(nc, g)), P(q.o, ite_off(c, q.off, p.off)))
                break
            if type(q) is FnP and type(p) is FnP and q.n == p.n:
                out[i] = (Or_(g2, And_(nc, g)), q)
                break
        else:
            out.append((And_(nc, g), p))
    if len(out) == 1:
        return out[0][1]
    return PIte(out)


def ite_off(c, a, b):
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    ca, ta = (a, ()) if isinstance(a, int) else (a.c, a.t)
    cb, tb = (b, ()) if isinstance(b, int) else (b.c, b.t)
    if ca == cb and len(ta) == len(tb) and all(k == k2 and e.eq(e2) for (k, e), (k2, e2) in zip(ta, tb)):
        return a
    g = abs(ca - cb)
    for k, _ in ta + tb:
        g = gcd(g, abs(k))
    if g == 0:
        return a
    base = ca
    # keep the smaller constant as base modulo g, so that field offsets stay positive
    fld = ca % g
    ea = z3.IntVal((ca - fld) // g)
    for k, e in ta:
        ea = ea + (k // g) * e
    eb = z3.IntVal((cb - fld) // g)
    for k, e in tb:
        eb = eb + (k // g) * e
    return Off(fld, ((g, z3.If(c, ea, eb)),))
