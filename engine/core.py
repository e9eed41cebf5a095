"""Symbolic values, path conditions and obligations.

Integers are mathematical integers (z3 Int) unless a harness runs in
bit-vector mode, where every bounded integer is a bit-vector wide enough for
its exact range (so arithmetic never wraps and is still exact).
Octet strings, lists and text are ropes: see seq.py.
"""
import os
import subprocess
import tempfile
import time

import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Unsupported(Exception):
    """The construct is outside the verifier's subset: nothing is proved."""


class PathEnd(Exception):
    """This path ends here (assumption false, or loop iteration checked)."""


class Restart(Exception):
    """The exploration must start again (loop invariant set changed)."""


class Budget(Exception):
    pass


class GuestExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, val):
        self.val = val

    def __str__(self):
        return 'GuestExc(%s %r)' % (self.val.cls.name,
                                    self.val.attrs.get('args'))


# ------------------------------------------------------------------ values

class SBool(object):
    __slots__ = ('e', 'facts', 'nfacts')

    def __init__(self, e, facts=(), nfacts=()):
        self.e = e
        self.facts = facts      # rope equalities that hold when true
        self.nfacts = nfacts    # those that hold when false

    def __repr__(self):
        return 'SBool(%s)' % self.e

    def __bool__(self):
        raise Unsupported('native truth of a symbolic boolean')


class SInt(object):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'SInt(%s)' % self.e

    def __bool__(self):
        raise Unsupported('native truth of a symbolic integer')


class BInt(object):
    """Exact integer in [lo, hi] held in a bit-vector (unsigned if lo >= 0,
    two's complement otherwise)."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def w(self):
        return self.e.size()

    def __repr__(self):
        return 'BInt(%s)[%s..%s]' % (self.e, self.lo, self.hi)

    def __bool__(self):
        raise Unsupported('native truth of a symbolic integer')


class SReal(object):
    """num / den, den a positive python int (exact rational)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den


def is_int(v):
    return isinstance(v, (int, SInt, BInt))


def is_sym(v):
    return isinstance(v, (SInt, SBool, BInt))


# -------------------------------------------------------------------- path

class Stats(object):
    def __init__(self):
        self.checks = 0
        self.solver_s = 0.0
        self.backends = {}


STATS = Stats()


class Path(object):
    """One execution path, identified by its decision prefix."""

    TIMEOUT_MS = 8000

    def __init__(self, prefix, bv=False):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.bv = bv
        self.solver = z3.Solver()
        self.solver.set('timeout', self.TIMEOUT_MS)
        self.pcs = []
        self.counter = {}
        self.apps = {}
        self.inputs = []        # (name, kind, value) for model extraction
        self.model = None
        self.obls = []
        self.notes = []
        self.eqfacts = []
        self.lemmas_used = set()
        self.gens = []
        self.bounded_note = None
        self.checks_reached = 0
        self.varbounds = {}
        self.havoc_depth = 0

    # naming ---------------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    # constraints ----------------------------------------------------------
    def add(self, f):
        if isinstance(f, SBool):
            f = f.e
        if f is True or (not isinstance(f, bool) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pcs.append(f)
        self.solver.add(f)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(f, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        STATS.checks += 1
        STATS.solver_s += time.time() - t
        return r

    def possible(self, f):
        """Is pc & f satisfiable? (unknown counts as possible)"""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(f, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r = self.check(f)
        if r == z3.sat:
            if self.model is None:
                try:
                    self.model = self.solver.model()
                except z3.Z3Exception:
                    self.model = None
            return True
        return r != z3.unsat

    def prove(self, f):
        """Quick entailment test, never forks."""
        if isinstance(f, SBool):
            f = f.e
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        nf = z3.Not(f)
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(nf, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        return self.check(nf) == z3.unsat

    def pc_status(self):
        return self.check()

    def branch(self, f):
        if isinstance(f, SBool):
            r = self.branch(f.e)
            self.eqfacts.extend(f.facts if r else f.nfacts)
            return r
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = d in ('T', 'F')
            val = d in (True, 'T')
            self.trace.append(d)
            if not forced:
                self.add(f if val else z3.Not(f))
            return val
        can_t = self.possible(f)
        can_f = self.possible(z3.Not(f))
        if can_t and can_f:
            self.alts.append(self.trace + [False])
            self.trace.append(True)
            self.add(f)
            return True
        if can_t:
            self.trace.append('T')
            return True
        if can_f:
            self.trace.append('F')
            return False
        raise PathEnd('infeasible')

    def choose(self, n):
        """Non-deterministic choice among n alternatives."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.alts.append(self.trace + [('c', k)])
        self.trace.append(('c', 0))
        return 0

    def assume(self, f):
        if isinstance(f, SBool):
            self.eqfacts.extend(f.facts)
            f = f.e
        if isinstance(f, bool):
            if not f:
                raise PathEnd('assume')
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        i = len(self.trace)
        if i < len(self.prefix):
            self.trace.append(self.prefix[i])
            self.add(f)
            return
        if not self.possible(f):
            raise PathEnd('assume')
        self.trace.append('A')
        self.add(f)


CUR = None


def set_path(p):
    global CUR
    CUR = p


def cur():
    return CUR


# ------------------------------------------------------------ cvc5 back end

def cvc5_unsat(assertions, timeout_s=20):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, name = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        out = subprocess.run(
            ['cvc5', '--tlimit=%d' % (timeout_s * 1000), name],
            capture_output=True, text=True, timeout=timeout_s + 5).stdout
    except Exception:
        out = ''
    finally:
        os.unlink(name)
    out = out.strip().splitlines()
    return out[0] if out else 'unknown'


# -------------------------------------------------------------- arithmetic

def z(v):
    """z3 Int expression of an int value."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, BInt):
        e = z3.BV2Int(v.e, is_signed=v.lo < 0)
        return e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer: %r' % (v,))


def bounds(v):
    if isinstance(v, bool):
        return int(v), int(v)
    if isinstance(v, int):
        return v, v
    return v.lo, v.hi


def mk(e, lo=None, hi=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if lo is not None and lo == hi:
        return lo
    return SInt(e, lo, hi)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def b(v):
    """z3 Bool expression of a bool value."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    raise Unsupported('not a boolean: %r' % (v,))


def conj(vs):
    out = []
    facts = ()
    for v in vs:
        if v is True:
            continue
        if v is False:
            return False
        if isinstance(v, SBool):
            out.append(v.e)
            facts += v.facts
        else:
            out.append(v)
    if not out:
        return True
    r = mkbool(z3.And(*out) if len(out) > 1 else out[0])
    if isinstance(r, SBool):
        r.facts = facts
    return r


def disj(vs):
    out = []
    for v in vs:
        if v is False:
            continue
        if v is True:
            return True
        out.append(v.e if isinstance(v, SBool) else v)
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def neg(v):
    if isinstance(v, bool):
        return not v
    r = mkbool(z3.Not(v.e))
    if isinstance(r, SBool):
        r.facts, r.nfacts = v.nfacts, v.facts
    return r


def promote(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SBool):
        if cur().bv:
            return BInt(z3.If(v.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)),
                        0, 1)
        return SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    return v


# -- bit-vector integers

def bits_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length() if lo < 0 else 0, hi.bit_length()) + 1


def bmk(e, lo, hi):
    if lo == hi:
        return lo
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long() if lo < 0 else e.as_long()
    return BInt(e, lo, hi)


def bext(v, w):
    """bit-vector of width w for integer v (w must be enough)."""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    d = w - v.e.size()
    if d == 0:
        return v.e
    if d < 0:
        return z3.Extract(w - 1, 0, v.e)
    return z3.SignExt(d, v.e) if v.lo < 0 else z3.ZeroExt(d, v.e)


def tobint(v):
    if isinstance(v, SInt):
        if v.lo is None or v.hi is None:
            raise Unsupported('unbounded integer in bit-vector mode')
        w = bits_for(v.lo, v.hi)
        return BInt(z3.Int2BV(v.e, w), v.lo, v.hi)
    return v


def _bop(f, a, b_, lo, hi):
    w = bits_for(min(lo, bounds(a)[0], bounds(b_)[0], 0)
                 if min(lo, bounds(a)[0], bounds(b_)[0]) < 0 else lo,
                 max(hi, bounds(a)[1], bounds(b_)[1]))
    e = f(bext(a, w), bext(b_, w))
    w2 = bits_for(lo, hi)
    if w2 < w:
        e = z3.Extract(w2 - 1, 0, e)
    return bmk(e, lo, hi)


def arith(op, a, b_):
    """Binary integer arithmetic on int/SInt/BInt."""
    a = promote(a)
    b_ = promote(b_)
    if isinstance(a, int) and isinstance(b_, int):
        return _concrete(op, a, b_)
    if isinstance(a, BInt) or isinstance(b_, BInt):
        return arith_bv(op, tobint(a), tobint(b_))
    return arith_z(op, a, b_)


def _concrete(op, a, b_):
    import operator as o
    f = {'+': o.add, '-': o.sub, '*': o.mul, '//': o.floordiv, '%': o.mod,
         '&': o.and_, '|': o.or_, '^': o.xor, '<<': o.lshift, '>>': o.rshift,
         '**': o.pow}[op]
    return f(a, b_)


def _ispow2(n):
    return n > 0 and n & (n - 1) == 0


def arith_z(op, a, b_):
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    if op == '+':
        if a == 0 and isinstance(a, int):
            return b_
        if b_ == 0 and isinstance(b_, int):
            return a
        return mk(z(a) + z(b_),
                  None if alo is None or blo is None else alo + blo,
                  None if ahi is None or bhi is None else ahi + bhi)
    if op == '-':
        return mk(z(a) - z(b_),
                  None if alo is None or bhi is None else alo - bhi,
                  None if ahi is None or blo is None else ahi - blo)
    if op == '*':
        if isinstance(a, int) and a in (0, 1):
            return b_ if a else 0
        if isinstance(b_, int) and b_ in (0, 1):
            return a if b_ else 0
        lo = hi = None
        if None not in (alo, ahi, blo, bhi):
            ps = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
            lo, hi = min(ps), max(ps)
        elif (alo is not None and blo is not None
              and alo >= 0 and blo >= 0):
            lo = alo * blo
        return mk(z(a) * z(b_), lo, hi)
    if op == '//':
        if isinstance(b_, int) and b_ > 0:
            return divc(a, b_)
        raise Unsupported('symbolic division')
    if op == '%':
        if isinstance(b_, int) and b_ > 0:
            return modc(a, b_)
        if isinstance(b_, SInt) and cur().prove(z(b_) > 0):
            return mk(z(a) % z(b_), 0, None if bhi is None else bhi - 1)
        raise Unsupported('symbolic modulus')
    if op == '<<':
        return shl(a, b_)
    if op == '>>':
        return shr(a, b_)
    if op == '&':
        return band(a, b_)
    if op == '|':
        return bor(a, b_)
    if op == '^':
        return bxor(a, b_)
    if op == '**':
        if isinstance(a, int) and a == 2:
            return shl(1, b_)
        if isinstance(b_, int) and 0 <= b_ <= 4:
            r = 1
            for _ in range(b_):
                r = arith('*', r, a)
            return r
    raise Unsupported('integer operator %s on symbolic values' % op)


def divc(a, c):
    if isinstance(a, int):
        return a // c
    if c == 1:
        return a
    lo = None if a.lo is None else a.lo // c
    hi = None if a.hi is None else a.hi // c
    d = a.e.decl()
    if d.kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.e.arg(1)) \
            and a.e.arg(1).as_long() > 0:
        return mk(a.e.arg(0) / z3.IntVal(c * a.e.arg(1).as_long()), lo, hi)
    if d.kind() == z3.Z3_OP_MOD and z3.is_int_value(a.e.arg(1)):
        # (x mod C) div c == (x div c) mod (C / c) when c divides C
        m = a.e.arg(1).as_long()
        if m > 0 and m % c == 0:
            return modc(divc(SInt(a.e.arg(0), None, None), c), m // c)
    if d.name() == 'SHR' and _ispow2(c):
        return SInt(SHR(a.e.arg(0),
                        z3.simplify(a.e.arg(1) + (c.bit_length() - 1))),
                    lo, hi)
    return mk(a.e / z3.IntVal(c), lo, hi)


def modc(a, c):
    if isinstance(a, int):
        return a % c
    if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < c:
        return a
    if c == 1:
        return 0
    d = a.e.decl()
    if d.kind() == z3.Z3_OP_MOD and z3.is_int_value(a.e.arg(1)):
        m = a.e.arg(1).as_long()
        if m > 0 and m % c == 0:
            return modc(SInt(a.e.arg(0), None, None), c)
    return mk(a.e % z3.IntVal(c), 0, c - 1)


SHR = z3.Function('SHR', z3.IntSort(), z3.IntSort(), z3.IntSort())
POW2 = z3.Function('POW2', z3.IntSort(), z3.IntSort())


def tighten(s, top=64):
    """narrow the recorded bounds of s to 0..top when the path implies it"""
    if not isinstance(s, SInt):
        return s
    lo, hi = s.lo, s.hi
    if lo is not None and hi is not None and hi - lo <= top and lo >= 0:
        return s
    p = cur()
    if (lo is None or lo < 0) and p.prove(s.e >= 0):
        lo = 0
    if (hi is None or hi > top) and p.prove(s.e <= top):
        hi = top
    return SInt(s.e, lo, hi)


def shr(a, s):
    s = tighten(s) if not isinstance(s, int) else s
    if isinstance(s, int):
        if s < 0:
            raise Unsupported('negative shift')
        return divc(a, 1 << s)
    if s.lo is not None and s.hi is not None and s.lo >= 0 \
            and s.hi - s.lo <= 64:
        e = None
        for k in range(s.lo, s.hi + 1):
            t = z(divc(a, 1 << k))
            e = t if e is None else z3.If(s.e == k, t, e)
        return mk(e, None if bounds(a)[0] is None else min(0, bounds(a)[0]),
                  None if bounds(a)[1] is None else max(0, bounds(a)[1]))
    p = cur()
    if not p.prove(s.e >= 0):
        if p.branch(s.e < 0):
            raise_guest('ValueError', 'negative shift count')
    x = z(a)
    if p.prove(s.e == 0):
        return a
    if x.decl().name() == 'SHR':
        x, s0 = x.arg(0), x.arg(1)
        se = z3.simplify(s0 + s.e)
    elif (x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1))
          and _ispow2(x.arg(1).as_long())):
        k = x.arg(1).as_long().bit_length() - 1
        se = z3.simplify(s.e + k)
        x = x.arg(0)
    else:
        se = z3.simplify(s.e)
    r = SHR(x, se)
    p.__dict__.setdefault('shifts', []).append((x, se, r))
    p.add(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)))
    p.add(z3.Implies(se == 0, r == x))
    for (v2,), n2 in p.apps.get('bit_length', [])[-6:]:
        if z(v2).eq(x):
            p.add(z3.Implies(x >= 0, (r == 0) == (n2.e <= se)))
    lo0 = bounds(a)[0]
    return SInt(r, 0 if lo0 is not None and lo0 >= 0 else None,
                bounds(a)[1] if lo0 is not None and lo0 >= 0 else None)


def pow2(s):
    if isinstance(s, int):
        return 1 << s
    s = tighten(s)
    if s.lo is not None and s.hi is not None and s.lo >= 0 \
            and s.hi - s.lo <= 64:
        return shl(1, s)
    p = cur()
    r = POW2(z3.simplify(s.e))
    p.__dict__.setdefault('powers', []).append((s.e, r))
    p.add(r >= 1)
    p.add(z3.Implies(s.e == 0, r == 1))
    return SInt(r, 1, None)


def shl(a, s):
    s = tighten(s) if not isinstance(s, int) else s
    if isinstance(s, int):
        if s < 0:
            raise_guest('ValueError', 'negative shift count')
        return arith_z('*', a, 1 << s) if not isinstance(a, int) else a << s
    if s.lo is not None and s.hi is not None and s.lo >= 0 \
            and s.hi - s.lo <= 64:
        e = None
        for k in range(s.lo, s.hi + 1):
            t = z(arith('*', a, 1 << k))
            e = t if e is None else z3.If(s.e == k, t, e)
        lo, hi = bounds(a)
        return mk(e, None if lo is None else
                  (lo << s.lo if lo >= 0 else lo << s.hi),
                  None if hi is None else
                  (hi << s.hi if hi >= 0 else hi << s.lo))
    p = cur()
    if not p.prove(s.e >= 0):
        if p.branch(s.e < 0):
            raise_guest('ValueError', 'negative shift count')
    return arith('*', a, pow2(s))


def _runs(c):
    """maximal runs of one bits of c: (low, width)"""
    out = []
    i = 0
    while c >> i:
        if c >> i & 1:
            j = i
            while c >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def band(a, b_):
    if isinstance(a, int):
        a, b_ = b_, a
    if isinstance(b_, int):
        if b_ == 0:
            return 0
        if b_ < 0:
            # a & ~m  ==  a - (a & m)
            return arith_z('-', a, band(a, ~b_)) if ~b_ else a
        r = 0
        for low, width in _runs(b_):
            t = modc(divc(a, 1 << low), 1 << width)
            r = arith('+', r, arith('*', t, 1 << low))
        if isinstance(r, SInt):
            r = SInt(r.e, 0, min(b_, r.hi if r.hi is not None else b_))
        return r
    # a & (2**k - 1) with symbolic k
    e = z3.simplify(b_.e)
    return acop('BAND', a, b_)


_UF = {}


def uf(name, arity):
    k = (name, arity)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([z3.IntSort()] * (arity + 1)))
    return _UF[k]


def acop(name, a, b_):
    ea, eb = z(a), z(b_)
    if ea.get_id() > eb.get_id():
        ea, eb = eb, ea
    r = uf(name, 2)(ea, eb)
    p = cur()
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    lo = hi = None
    if alo is not None and blo is not None and alo >= 0 and blo >= 0:
        lo = 0
        p.add(r >= 0)
        if name == 'BAND':
            cs = [h for h in (ahi, bhi) if h is not None]
            hi = min(cs) if cs else None
            p.add(z3.And(r <= ea, r <= eb))
        elif ahi is not None and bhi is not None:
            hi = (1 << max(ahi, bhi).bit_length()) - 1
            p.add(r <= hi)
    return SInt(r, lo, hi)


def trailing_zero_bits(v):
    """Provable number of low zero bits (syntactic)."""
    if isinstance(v, int):
        if v == 0:
            return 1 << 30
        n = 0
        while not v >> n & 1:
            n += 1
        return n
    e = v.e if isinstance(v, SInt) else v
    return _tz(e)


def _tz(e):
    if z3.is_int_value(e):
        return trailing_zero_bits(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(_tz(c) for c in e.children())
    if k == z3.Z3_OP_ADD:
        return min(_tz(c) for c in e.children())
    if k == z3.Z3_OP_ITE:
        return min(_tz(e.arg(1)), _tz(e.arg(2)))
    return 0


def bor(a, b_):
    for x, y in ((a, b_), (b_, a)):
        lo, hi = bounds(y)
        if lo is not None and lo >= 0 and hi is not None:
            if hi == 0:
                return x
            if hi < (1 << min(trailing_zero_bits(x), 4096)):
                return arith('+', x, y)
    for x, y in ((a, b_), (b_, a)):
        if below_power(y, x):
            return arith('+', x, y)
    if isinstance(a, int):
        a, b_ = b_, a
    if isinstance(b_, int) and b_ >= 0:
        return arith('-', arith('+', a, b_), band(a, b_))
    return acop('BOR', a, b_)


def below_power(y, x):
    """provable: x is a multiple of some 2**s, and 0 <= y < 2**s"""
    if not isinstance(x, SInt) or not isinstance(y, SInt):
        return False
    e = x.e
    if e.decl().kind() == z3.Z3_OP_MUL:
        es = e.children()
    else:
        es = [e]
    p = cur()
    for c in es:
        if c.decl().eq(POW2):
            for v, n in p.apps.get('fits!', []):
                if isinstance(v, SInt) and v.e.eq(y.e) and p.prove(
                        z(n) * 8 <= c.arg(0)):
                    return True
    return False


XOR2 = z3.Function('XOR', z3.IntSort(), z3.IntSort(), z3.IntSort())


def bxor(a, b_):
    if isinstance(a, int):
        a, b_ = b_, a
    if isinstance(b_, int) and b_ >= 0 and not _isxor(a):
        if b_ == 0:
            return a
        if bounds(a)[0] is not None and bounds(a)[0] >= 0:
            return arith('-', arith('+', a, b_),
                         arith('*', band(a, b_), 2))
    # canonical sum modulo 2
    terms = {}
    const = 0

    def collect(v):
        nonlocal const
        if isinstance(v, int):
            const ^= v
            return
        e = v.e
        stack = [e]
        while stack:
            t = stack.pop()
            if z3.is_int_value(t):
                const ^= t.as_long()
            elif t.decl().name() == 'XOR':
                stack.extend(t.children())
            else:
                i = t.get_id()
                if i in terms:
                    del terms[i]
                else:
                    terms[i] = t
    lo, hi = bounds(a)
    lo2, hi2 = bounds(b_)
    collect(a)
    collect(b_)
    rlo = 0 if lo is not None and lo2 is not None and min(lo, lo2) >= 0 \
        else None
    rhi = None
    if hi is not None and hi2 is not None and rlo == 0:
        rhi = (1 << max(hi.bit_length(), hi2.bit_length())) - 1
    # operands of equal shape in equal order, so that equal operands give
    # equal results by congruence
    ts = [terms[i] for i in sorted(terms, key=lambda i: (
        terms[i].decl().name(), i))]
    if const or not ts:
        ts.append(z3.IntVal(const))
    e = ts[0]
    for t in ts[1:]:
        e = XOR2(e, t)
    if len(ts) == 1:
        r = mk(e, rlo, rhi)
        return r
    p = cur()
    if rlo == 0:
        p.add(e >= 0)
    if rhi is not None:
        p.add(e <= rhi)
    if len(ts) == 2:
        # the parity facts that matter for equality tests
        p.add((e == 0) == (ts[0] == ts[1]))
    return SInt(e, rlo, rhi)


def _isxor(a):
    return isinstance(a, SInt) and a.e.decl().name() == 'XOR'


def low_bits(e, n):
    """the low n bits of a bit vector, with the operations applied to the low
    bits of their operands, and what cancels left out"""
    done = cur().apps.setdefault('low_bits', {})
    r = done.get((e.get_id(), n))
    if r is None:
        r = e, _low_bits(e, n)
        done[e.get_id(), n] = r
    return r[1]


def _low_bits(e, n):
    k = e.decl().kind()
    cs = e.children()
    if k == z3.Z3_OP_CONCAT and e.size() == n:
        return bv_whole(cs[0], cs[1] if len(cs) == 2 else z3.Concat(cs[1:]))
    if e.size() == n and not (k in (z3.Z3_OP_BXOR, z3.Z3_OP_BADD,
                                    z3.Z3_OP_BNEG)
                              or k == z3.Z3_OP_BMUL
                              and z3.is_bv_value(cs[0])):
        return e
    if k == z3.Z3_OP_BXOR:
        return xor_sum([low_bits(c, n) for c in cs])
    if k == z3.Z3_OP_BADD:
        return bv_sum([low_bits(c, n) for c in cs])
    if k == z3.Z3_OP_BMUL and z3.is_bv_value(cs[0]) and len(cs) == 2:
        return bv_sum([z3.BitVecVal(cs[0].as_long() % (1 << n), n)
                       * low_bits(cs[1], n)])
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BMUL):
        r = low_bits(cs[0], n)
        for c in cs[1:]:
            c = low_bits(c, n)
            r = r & c if k == z3.Z3_OP_BAND else r | c \
                if k == z3.Z3_OP_BOR else r * c
        return z3.simplify(r)
    if k == z3.Z3_OP_BNEG:
        return bv_sum([-low_bits(cs[0], n)])
    if k == z3.Z3_OP_BNOT:
        return z3.simplify(~low_bits(cs[0], n))
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        c = cs[0]
        if c.size() >= n:
            return low_bits(c, n)
        f = z3.ZeroExt if k == z3.Z3_OP_ZERO_EXT else z3.SignExt
        return z3.simplify(f(n - c.size(), c))
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
        return low_bits(cs[0], n)
    if k == z3.Z3_OP_CONCAT:
        if cs[-1].size() >= n:
            return low_bits(cs[-1], n)
        r = z3.simplify(z3.Extract(n - 1, 0, e))
        return low_bits(r, n) if r.decl().kind() == k else r
    if k == z3.Z3_OP_ITE:
        return z3.simplify(z3.If(cs[0], low_bits(cs[1], n),
                                 low_bits(cs[2], n)))
    return z3.simplify(z3.Extract(n - 1, 0, e))


def xor_sum(ts):
    """exclusive or of bit vectors, equal ones left out"""
    n = ts[0].size()
    terms = {}
    const = 0
    todo = list(ts)
    while todo:
        t = todo.pop()
        if z3.is_bv_value(t):
            const ^= t.as_long()
        elif t.decl().kind() == z3.Z3_OP_BXOR:
            todo.extend(t.children())
        elif terms.pop(t.get_id(), None) is None:
            terms[t.get_id()] = t
    ts = [terms[i] for i in sorted(terms)]
    if const or not ts:
        ts.append(z3.BitVecVal(const, n))
    e = ts[0]
    for t in ts[1:]:
        e = e ^ t
    return e


def bv_sum(ts):
    """sum of bit vectors, like terms collected; octets placed side by side
    are one number"""
    n = ts[0].size()
    terms = {}
    const = 0
    todo = [(t, 1) for t in ts]
    while todo:
        t, f = todo.pop()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            const += f * t.as_long()
        elif k == z3.Z3_OP_BADD:
            todo.extend((c, f) for c in t.children())
        elif k == z3.Z3_OP_BNEG:
            todo.append((t.arg(0), -f))
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2 \
                and z3.is_bv_value(t.arg(0)):
            todo.append((t.arg(1), f * t.arg(0).as_long()))
        else:
            f += terms.get(t.get_id(), (t, 0))[1]
            terms[t.get_id()] = (t, f)
    terms = [terms[i] for i in sorted(terms) if terms[i][1] % (1 << n)]
    for a, x in terms:
        if x != 1 or a.decl().kind() != z3.Z3_OP_CONCAT \
                or a.num_args() != 2 or not z3.is_bv_value(a.arg(1)) \
                or a.arg(1).as_long():
            continue
        # an upper part, for which there may be a lower one
        m = a.arg(1).size()
        for c, y in terms:
            if y == 1 and c.decl().kind() == z3.Z3_OP_CONCAT \
                    and z3.is_bv_value(c.arg(0)) \
                    and c.arg(0).as_long() == 0 \
                    and c.arg(0).size() >= n - m:
                w = bv_whole(a.arg(0), z3.simplify(z3.Extract(m - 1, 0, c)))
                return bv_sum([w, z3.BitVecVal(const, n)] + [
                    z3.BitVecVal(f, n) * t for t, f in terms
                    if t is not a and t is not c])
    e = None
    for t, f in terms:
        f %= 1 << n
        if f != 1:
            t = z3.BitVecVal(f, n) * t
        e = t if e is None else e + t
    const %= 1 << n
    if e is None:
        return z3.BitVecVal(const, n)
    return e + z3.BitVecVal(const, n) if const else e


def bv_whole(hi, lo):
    """the number whose upper and lower parts these are"""
    m = lo.size()
    if hi.decl().kind() == z3.Z3_OP_EXTRACT:
        h, l = hi.params()
        t = hi.arg(0)
        if l == m and h == t.size() - 1:
            a, c = low_bits(t, m), low_bits(lo, m)
            if a.eq(c) or z3.simplify(a - c).eq(z3.BitVecVal(0, m)):
                return low_bits(t, t.size())
    return z3.simplify(z3.Concat(hi, lo))


def arith_bv(op, a, b_):
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    if op == '+':
        return _bop(lambda x, y: x + y, a, b_, alo + blo, ahi + bhi)
    if op == '-':
        return _bop(lambda x, y: x - y, a, b_, alo - bhi, ahi - blo)
    if op == '*':
        ps = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
        return _bop(lambda x, y: x * y, a, b_, min(ps), max(ps))
    if op == '&':
        if isinstance(a, int):
            a, b_, alo, ahi, blo, bhi = b_, a, blo, bhi, alo, ahi
        if isinstance(b_, int) and b_ > 0 and not b_ & b_ + 1 \
                and not isinstance(a, int):
            n = b_.bit_length()
            if alo >= 0 and ahi <= b_:
                return a
            if a.e.size() >= n:
                return bmk(low_bits(a.e, n), 0, b_)
        if alo >= 0 or blo >= 0:
            hi = min(h for l, h in ((alo, ahi), (blo, bhi)) if l >= 0)
            return _bop(lambda x, y: x & y, a, b_, 0, hi)
        return _bop(lambda x, y: x & y, a, b_,
                    -(1 << bits_for(min(alo, blo), 0)), max(ahi, bhi))
    if op in '|^':
        f = (lambda x, y: x | y) if op == '|' else (lambda x, y: x ^ y)
        if alo >= 0 and blo >= 0:
            return _bop(f, a, b_, 0, (1 << max(ahi, bhi).bit_length()) - 1)
        n = bits_for(min(alo, blo), max(ahi, bhi))
        return _bop(f, a, b_, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    if op == '<<':
        if isinstance(b_, int):
            lo, hi = alo << b_, ahi << b_
            w = bits_for(lo, hi)
            return bmk(bext(a, w) << b_, lo, hi)
        k = concretize(b_)
        return arith('<<', a, k)
    if op == '>>':
        if isinstance(b_, int):
            lo, hi = alo >> b_, ahi >> b_
            if isinstance(a, int):
                return a >> b_
            w = a.e.size()
            if b_ >= w:
                if alo >= 0:
                    return 0
                b_ = w - 1
            e = (a.e >> b_) if alo < 0 else z3.LShR(a.e, b_)
            w2 = bits_for(lo, hi)
            if w2 < w:
                e = z3.Extract(w2 - 1, 0, e)
            return bmk(e, lo, hi)
        k = concretize(b_)
        return arith('>>', a, k)
    if op in ('//', '%'):
        p = cur()
        if isinstance(b_, int) and b_ > 0 and _ispow2(b_):
            if op == '//':
                return arith_bv('>>', a, b_.bit_length() - 1)
            return arith_bv('&', a, b_ - 1)
        if blo <= 0:
            if p.branch(eq(b_, 0)):
                raise_guest('ZeroDivisionError', 'integer division')
            if blo < 0:
                raise Unsupported('division by possibly negative value')
            blo = 1
        if alo < 0:
            raise Unsupported('division of possibly negative value')
        if op == '//':
            return _bop(z3.UDiv, a, b_, 0, ahi // blo)
        return _bop(z3.URem, a, b_, 0, min(ahi, bhi - 1))
    if op == '**' and isinstance(b_, int) and 0 <= b_ <= 4:
        r = 1
        for _ in range(b_):
            r = arith('*', r, a)
        return r
    raise Unsupported('bit-vector operator %s' % op)


def concretize(v, limit=300):
    """Fork over the feasible values of v."""
    v = promote(v)
    if isinstance(v, int):
        return v
    p = cur()
    if isinstance(v, SInt):
        lo, hi = v.lo, v.hi
        if lo is not None and hi is not None and hi - lo < limit:
            for k in range(lo, hi):
                if p.branch(v.e == k):
                    return k
            p.add(v.e == hi)
            return hi
        # ask the solver for values
        n = 0
        while n < limit:
            i = len(p.trace)
            if i < len(p.prefix):
                d = p.prefix[i]
                p.trace.append(d)
                if d[0] == 'v':
                    p.add(v.e == d[1])
                    return d[1]
                p.add(v.e != d[1])
                n += 1
                continue
            if p.check() != z3.sat:
                raise PathEnd('infeasible')
            k = p.solver.model().eval(v.e, model_completion=True).as_long()
            if p.possible(v.e != k):
                p.alts.append(p.trace + [('n', k)])
            p.trace.append(('v', k))
            p.add(v.e == k)
            return k
        raise Unsupported('cannot enumerate %r' % v)
    for k in range(v.lo, v.hi):
        if k - v.lo > limit:
            raise Unsupported('cannot enumerate %r' % v)
        if p.branch(eq(v, k)):
            return k
    p.add(b(eq(v, v.hi)))
    return v.hi


# -------------------------------------------------------------- comparison

def eq(a, b_):
    a = promote(a)
    b_ = promote(b_)
    if isinstance(a, int) and isinstance(b_, int):
        return a == b_
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    if ahi is not None and blo is not None and ahi < blo:
        return False
    if bhi is not None and alo is not None and bhi < alo:
        return False
    if isinstance(a, BInt) or isinstance(b_, BInt):
        a, b_ = tobint(a), tobint(b_)
        w = bits_for(min(alo, blo), max(ahi, bhi))
        return mkbool(bext(a, w) == bext(b_, w))
    return mkbool(z(a) == z(b_))


def ratio(x):
    """numerator and (positive, concrete) denominator"""
    if isinstance(x, SReal):
        return x.num, x.den
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return n, d
    return x, 1


def compare(op, a, b_):
    a = promote(a)
    b_ = promote(b_)
    if isinstance(a, SReal) or isinstance(b_, SReal):
        an, ad = ratio(a)
        bn, bd = ratio(b_)
        return compare(op, arith('*', an, bd) if bd != 1 else an,
                       arith('*', bn, ad) if ad != 1 else bn)
    if isinstance(a, (int, float)) and isinstance(b_, (int, float)):
        return {'<': a < b_, '<=': a <= b_, '>': a > b_, '>=': a >= b_}[op]
    if op == '>':
        return compare('<', b_, a)
    if op == '>=':
        return compare('<=', b_, a)
    if isinstance(a, float) or isinstance(b_, float):
        import math
        if isinstance(a, float):
            # a < n  <=>  floor(a) < n ; a <= n <=> ceil(a) <= n
            a = math.floor(a) if op == '<' else math.ceil(a)
        else:
            b_ = math.ceil(b_) if op == '<' else math.floor(b_)
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    if op == '<':
        if ahi is not None and blo is not None and ahi < blo:
            return True
        if alo is not None and bhi is not None and alo >= bhi:
            return False
    else:
        if ahi is not None and blo is not None and ahi <= blo:
            return True
        if alo is not None and bhi is not None and alo > bhi:
            return False
    if isinstance(a, BInt) or isinstance(b_, BInt):
        a, b_ = tobint(a), tobint(b_)
        w = bits_for(min(alo, blo), max(ahi, bhi))
        x, y = bext(a, w), bext(b_, w)
        if min(alo, blo) >= 0:
            return mkbool(z3.ULT(x, y) if op == '<' else z3.ULE(x, y))
        return mkbool(x < y if op == '<' else x <= y)
    return mkbool(z(a) < z(b_) if op == '<' else z(a) <= z(b_))


def ite(c, a, b_):
    """integer if-then-else"""
    if isinstance(c, bool):
        return a if c else b_
    a, b_ = promote(a), promote(b_)
    alo, ahi = bounds(a)
    blo, bhi = bounds(b_)
    lo = None if alo is None or blo is None else min(alo, blo)
    hi = None if ahi is None or bhi is None else max(ahi, bhi)
    if isinstance(a, BInt) or isinstance(b_, BInt):
        w = bits_for(lo, hi)
        return bmk(z3.If(c.e, bext(tobint(a), w), bext(tobint(b_), w)),
                   lo, hi)
    return mk(z3.If(c.e, z(a), z(b_)), lo, hi)


def add(a, b_):
    return arith('+', a, b_)


def sub(a, b_):
    return arith('-', a, b_)


def fresh_int(name, lo=None, hi=None):
    p = cur()
    n = p.fresh_name(name)
    if lo is not None and lo == hi:
        return lo
    if p.bv and lo is not None and hi is not None:
        w = bits_for(lo, hi)
        v = BInt(z3.BitVec(n, w), lo, hi)
        if lo != (-(1 << (w - 1)) if lo < 0 else 0) \
                or hi != ((1 << (w - 1)) - 1 if lo < 0 else (1 << w) - 1):
            p.add(compare('<=', lo, v))
            p.add(compare('<=', v, hi))
            if lo > 0:
                wz = w
                p.add(z3.UGE(v.e, z3.BitVecVal(lo, wz)))
            if lo >= 0:
                p.add(z3.ULE(v.e, z3.BitVecVal(hi, w)))
            else:
                p.add(v.e <= z3.BitVecVal(hi, w))
                p.add(v.e >= z3.BitVecVal(lo, w))
        return v
    e = z3.Int(n)
    p.varbounds[n] = (lo, hi)
    if lo is not None:
        p.add(e >= lo)
    if hi is not None:
        p.add(e <= hi)
    return SInt(e, lo, hi)


def fresh_bool(name):
    return SBool(z3.Bool(cur().fresh_name(name)))


RAISE = None        # set by interp: callable(name, msg)


def raise_guest(name, msg=''):
    RAISE(name, msg)
