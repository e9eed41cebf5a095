"""Ropes: symbolic octet strings, text and lists of any length."""
import z3

from .core import (SBool, SInt, BInt, Unsupported, add, arith, b, bounds,
                   compare, conj, cur, eq, fresh_int, is_int, mk, mkbool,
                   modc, neg, promote, raise_guest, shr, sub, z, is_sym)
from . import core

BYTE_KINDS = ('bytes', 'bytearray')


class Base(object):
    """An opaque sequence: an input, or the result of an uninterpreted
    function.  Elements are sel(i)."""

    def __init__(self, name, length, elem='byte', mkelem=None, origin=None):
        self.name = name
        self.length = length
        self.elem = elem
        self.origin = origin
        self.mkelem = mkelem
        self.cache = {}
        self.defn = None
        self.without = ()
        self.maxchar = 255 if elem == 'byte' else 0x10ffff
        if elem in ('byte', 'char'):
            self.fn = z3.Function('sel_' + name, z3.IntSort(), z3.IntSort())

    def sel(self, i):
        if self.elem == 'obj':
            k = i if isinstance(i, int) else z(i).get_id()
            if k not in self.cache:
                self.cache[k] = self.mkelem(i)
            return self.cache[k]
        e = self.fn(z(i))
        p = cur()
        k = e.get_id()
        hi = self.maxchar
        if k not in self.cache:
            self.cache[k] = e
            p.add(z3.And(e >= 0, e <= hi))
            for c in self.without:
                p.add(e != c)
            if self.defn is not None:
                p.add(eq(SInt(e, 0, hi), self.defn(i)))
        v = SInt(e, 0, hi)
        if p.bv:
            return core.tobint(v)
        return v

    def __repr__(self):
        return 'Base(%s)' % self.name


class U(object):
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    @property
    def n(self):
        return len(self.vals)

    def __repr__(self):
        return 'U%r' % (self.vals,)


class A(object):
    __slots__ = ('base', 'start', 'n')

    def __init__(self, base, start, n):
        self.base = base
        self.start = start
        self.n = n

    def __repr__(self):
        return 'A(%s,%s,%s)' % (self.base.name, self.start, self.n)


class BE(object):
    """n-octet big-endian representation of v mod 256**n."""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __repr__(self):
        return 'BE(%s,%s)' % (self.v, self.n)


class R(object):
    __slots__ = ('val', 'n')

    def __init__(self, val, n):
        self.val = val
        self.n = n

    def __repr__(self):
        return 'R(%s,%s)' % (self.val, self.n)


class C(object):
    """Comprehension: element i (0 <= i < n) is fn(start + i)."""
    __slots__ = ('fn', 'start', 'n', 'key')

    def __init__(self, fn, start, n, key):
        self.fn = fn
        self.start = start
        self.n = n
        self.key = key

    def __repr__(self):
        return 'C(%s,%s,%s)' % (self.key, self.start, self.n)


def seg_elem(s, i):
    if isinstance(s, U):
        if isinstance(i, int):
            return s.vals[i]
        i = core.concretize(i)
        return s.vals[i]
    if isinstance(s, A):
        return s.base.sel(add(s.start, i))
    if isinstance(s, BE):
        k = sub(sub(s.n, 1), i)
        return modc(promote(shr(s.v, arith('*', k, 8))), 256)
    if isinstance(s, R):
        return s.val
    if isinstance(s, C):
        return s.fn(add(s.start, i))
    raise AssertionError(s)


def seg_split(s, k):
    """Split at k (0 < k < n as ints known/decided by caller)."""
    if isinstance(s, U):
        k = core.concretize(k)
        return U(s.vals[:k]), U(s.vals[k:])
    if isinstance(s, A):
        return A(s.base, s.start, k), A(s.base, add(s.start, k), sub(s.n, k))
    if isinstance(s, R):
        return R(s.val, k), R(s.val, sub(s.n, k))
    if isinstance(s, C):
        return (C(s.fn, s.start, k, s.key),
                C(s.fn, add(s.start, k), sub(s.n, k), s.key))
    if isinstance(s, BE):
        rest = sub(s.n, k)
        return BE(shr(s.v, arith('*', rest, 8)), k), BE(s.v, rest)
    raise AssertionError(s)


class Seq(object):
    """A mutable handle on a rope.  kind: bytes, bytearray, list, str."""
    __slots__ = ('kind', 'segs', 'oid', 'frozen')

    _next = [0]

    def __init__(self, kind, segs=()):
        self.kind = kind
        self.segs = list(segs)
        Seq._next[0] += 1
        self.oid = Seq._next[0]
        self.frozen = None

    def __repr__(self):
        return 'Seq<%s>%r' % (self.kind, self.segs)

    def __bool__(self):
        raise Unsupported('native truth of a symbolic sequence')

    @classmethod
    def units(cls, kind, vals):
        vals = tuple(vals)
        return cls(kind, [U(vals)] if vals else [])

    def copy(self, kind=None):
        return Seq(kind or self.kind, self.segs)

    def length(self):
        n = 0
        for s in self.segs:
            n = add(n, s.n)
        return n

    def is_units(self):
        return all(isinstance(s, U) for s in self.segs)

    def unit_vals(self):
        out = []
        for s in self.segs:
            out.extend(s.vals)
        return out

    def is_concrete(self):
        return all(isinstance(s, U)
                   and all(type(v) is int for v in s.vals)
                   for s in self.segs)

    def native(self):
        vals = self.unit_vals()
        if self.kind == 'bytes':
            return bytes(vals)
        if self.kind == 'bytearray':
            return bytearray(vals)
        if self.kind == 'str':
            return ''.join(map(chr, vals))
        return vals

    def normalize(self):
        out = []
        for s in self.segs:
            if isinstance(s.n, int) and s.n == 0:
                continue
            if isinstance(s, U) and out and isinstance(out[-1], U):
                out[-1] = U(tuple(out[-1].vals) + tuple(s.vals))
                continue
            if (isinstance(s, A) and out and isinstance(out[-1], A)
                    and out[-1].base is s.base):
                e = eq(add(out[-1].start, out[-1].n), s.start)
                if e is True or (e is not False and cur().prove(e)):
                    out[-1] = A(s.base, out[-1].start, add(out[-1].n, s.n))
                    continue
            if (isinstance(s, (BE, A, R, C)) and type(s.n) is int
                    and s.n <= 64 and not (isinstance(s, A))
                    and not (isinstance(s, C))):
                vals = tuple(seg_elem(s, i) for i in range(s.n))
                if out and isinstance(out[-1], U):
                    out[-1] = U(tuple(out[-1].vals) + vals)
                else:
                    out.append(U(vals))
                continue
            out.append(s)
        self.segs = out
        return self

    # ---- positions
    def split(self, k):
        """(left segs, right segs) at position k, 0 <= k <= len assumed."""
        p = cur()
        left = []
        segs = list(self.segs)
        while segs:
            c0 = eq(k, 0)
            if c0 is True or (c0 is not False and p.prove(c0)):
                break
            s = segs[0]
            ge = compare('>=', k, s.n)
            if p.branch(ge):
                left.append(s)
                segs.pop(0)
                k = sub(k, s.n)
                continue
            if p.branch(compare('<=', k, 0)):
                break
            if isinstance(s, U):
                k = core.concretize(k)
            l, r = seg_split(s, k)
            left.append(l)
            segs[0] = r
            k = 0
            break
        return left, segs

    def get(self, i):
        """element i, 0 <= i < len assumed."""
        p = cur()
        segs = list(self.segs)
        while segs:
            s = segs.pop(0)
            if not segs:
                return seg_elem(s, self._unit_index(s, i))
            if p.branch(compare('<', i, s.n)):
                return seg_elem(s, self._unit_index(s, i))
            i = sub(i, s.n)
        raise PathEndIndex()

    def _unit_index(self, s, i):
        if isinstance(s, U) and not isinstance(i, int):
            if len(s.vals) > 16 and all(type(v) is int for v in s.vals):
                return i            # table lookup handled by caller
            return core.concretize(_bound(i, 0, len(s.vals) - 1))
        return i

    def extend_segs(self, segs):
        self.segs = list(self.segs) + list(segs)
        self.normalize()


def _bound(i, lo, hi):
    if isinstance(i, SInt):
        return SInt(i.e, lo if i.lo is None else max(lo, i.lo),
                    hi if i.hi is None else min(hi, i.hi))
    return i


class PathEndIndex(Exception):
    pass


def table_lookup(vals, i):
    """concrete table, symbolic index."""
    e = None
    w = max(vals).bit_length() or 1
    if isinstance(i, BInt):
        n = i.e.size()
        e = z3.BitVecVal(vals[0], w)
        for k, v in enumerate(vals):
            if k < (1 << n):
                e = z3.If(i.e == k, z3.BitVecVal(v, w), e)
        return BInt(e, min(vals), max(vals))
    e = z3.IntVal(vals[0])
    for k, v in enumerate(vals):
        e = z3.If(z(i) == k, z3.IntVal(v), e)
    return SInt(e, min(vals), max(vals))


def from_native(v):
    if isinstance(v, bytes):
        return Seq.units('bytes', tuple(v))
    if isinstance(v, bytearray):
        return Seq.units('bytearray', tuple(v))
    raise AssertionError(v)


def str_seq(s):
    """python str -> Seq of characters"""
    if isinstance(s, Seq):
        return s
    return Seq.units('str', tuple(ord(c) for c in s))


def simplify_str(s):
    """Seq str -> python str when concrete"""
    if isinstance(s, Seq) and s.kind == 'str' and s.is_concrete():
        return s.native()
    return s


def reverse(s):
    """the elements of a sequence of symbolic length, last first"""
    s = Seq(s.kind, s.segs).normalize()
    n = s.length()
    g = s.segs[0]
    if len(s.segs) == 1 and isinstance(g, C) and g.key.startswith('le:') \
            and type(g.start) is int and g.start == 0:
        # octets of a number, low ones first
        return Seq(s.kind, [BE(g.fn.value, g.n)])
    return Seq(s.kind, [C(lambda i: s.get(sub(sub(n, 1), i)), 0, n,
                          'rev:%s' % (seg_key(s),))])


class LE(object):
    """element function: octet i of a number, low ones first"""

    def __init__(self, value):
        self.value = value

    def __call__(self, i):
        return modc(promote(shr(self.value, arith('*', i, 8))), 256)


def le_seq(v, n, kind):
    return Seq(kind, [C(LE(v), 0, n, 'le:%s' % (z(v),))])


def slice_seq(s, lo, hi):
    """s[lo:hi] with Python clamping; lo/hi ints or None."""
    p = cur()
    n = s.length()

    def norm(v, default):
        if v is None:
            return default
        v = promote(v)
        if p.branch(compare('<', v, 0)):
            v = add(v, n)
            if p.branch(compare('<', v, 0)):
                v = 0
        elif p.branch(compare('>', v, n)):
            v = n
        return v
    lo = norm(lo, 0)
    hi = norm(hi, n)
    if type(lo) is int and lo == 0 and hi is n:
        return Seq(s.kind, s.segs)
    if p.branch(compare('>=', lo, hi)):
        return Seq(s.kind)
    left, right = s.split(lo)
    t = Seq(s.kind, right)
    e = eq(hi, n)
    if e is True:
        return t.normalize()
    a_, _ = t.split(sub(hi, lo))
    return Seq(s.kind, a_).normalize()


# -------------------------------------------------------------- equality

EQV = None      # value equality, set by interp


def elem_eq(a_, b_, goal=False):
    if is_int(a_) and is_int(b_):
        return eq(a_, b_)
    return EQV(a_, b_, goal)


def seq_eq(x, y, goal=False, fork=True):
    """Equality of rope contents.  Returns bool / SBool, or None when
    fork=False and the alignment is not determined."""
    p = cur()

    def decide(c):
        if isinstance(c, bool):
            return c
        if fork:
            return p.branch(c)
        if p.prove(c):
            return True
        if p.prove(neg(c)):
            return False
        raise _Undetermined()
    try:
        return _seq_eq(x, y, goal, decide, p)
    except _Undetermined:
        return None


class _Undetermined(Exception):
    pass


def _seq_eq(x, y, goal, decide, p):
    xs = [s for s in x.segs]
    ys = [s for s in y.segs]
    if not decide(eq(x.length(), y.length())):
        return False
    out = []
    xs.reverse()
    ys.reverse()
    while xs and ys:
        s, t = xs.pop(), ys.pop()
        if isinstance(s.n, int) and s.n == 0:
            ys.append(t)
            continue
        if isinstance(t.n, int) and t.n == 0:
            xs.append(s)
            continue
        if isinstance(s, U) and isinstance(t, U):
            k = min(len(s.vals), len(t.vals))
            for a_, b_ in zip(s.vals[:k], t.vals[:k]):
                c = elem_eq(a_, b_, goal)
                if c is False:
                    return False
                out.append(c)
            if len(s.vals) > k:
                xs.append(U(s.vals[k:]))
            if len(t.vals) > k:
                ys.append(U(t.vals[k:]))
            continue
        if isinstance(s, U) or isinstance(t, U):
            swap = isinstance(t, U)
            u, o = (t, s) if swap else (s, t)
            if decide(compare('<=', o.n, 0)):
                (ys if swap else xs).append(u)
                continue
            k = len(u.vals)
            if decide(compare('>=', o.n, k)):
                if decide(eq(o.n, k)):
                    o1, o2 = o, None
                else:
                    o1, o2 = seg_split(o, k)
                if isinstance(o1, BE):
                    vals = [modc(promote(shr(o1.v, 8 * (k - 1 - i))), 256)
                            for i in range(k)]
                else:
                    vals = [seg_elem(o1, i) for i in range(k)]
                for a_, b_ in zip(u.vals, vals):
                    c = elem_eq(a_, b_, goal)
                    if c is False:
                        return False
                    out.append(c)
                if o2 is not None:
                    (xs if swap else ys).append(o2)
                continue
            kk = core.concretize(_bound(promote(o.n), 1, k - 1))
            vals = [seg_elem(o, i) for i in range(kk)]
            for a_, b_ in zip(u.vals[:kk], vals):
                c = elem_eq(a_, b_, goal)
                if c is False:
                    return False
                out.append(c)
            (ys if swap else xs).append(U(u.vals[kk:]))
            continue
        if decide(eq(s.n, t.n)):
            c = _seg_eq(s, t, goal, p, decide)
        elif decide(compare('<=', s.n, 0)):
            ys.append(t)
            continue
        elif decide(compare('<=', t.n, 0)):
            xs.append(s)
            continue
        elif decide(compare('<', s.n, t.n)):
            t1, t2 = seg_split(t, s.n)
            ys.append(t2)
            c = _seg_eq(s, t1, goal, p, decide)
        else:
            s1, s2 = seg_split(s, t.n)
            xs.append(s2)
            c = _seg_eq(s1, t, goal, p, decide)
        if c is False:
            return False
        out.append(c)
    return conj(out)


def _seg_eq(s, t, goal, p, decide):
    """equal-length segments, neither is U"""
    if isinstance(s, A) and isinstance(t, A):
        if s.base is t.base:
            c = eq(s.start, t.start)
            if c is True or (c is not False and p.prove(c)):
                return True
        k = seg_fact(s, t)
        for f in p.eqfacts:
            if f == k:
                return True
        if goal and s.base is not t.base:
            c = origin_eq(s, t)
            if c is not None:
                return c
    if isinstance(s, BE) and isinstance(t, BE):
        c = eq(s.v, t.v)
        if c is True or goal:
            return c
    if isinstance(s, R) and isinstance(t, R):
        return elem_eq(s.val, t.val, goal)
    if isinstance(s, C) and isinstance(t, C) and s.key == t.key:
        c = eq(s.start, t.start)
        if c is True or (c is not False and p.prove(c)):
            return True
    if goal:
        if type(s.n) is int and s.n <= 64:
            return conj([elem_eq(seg_elem(s, i), seg_elem(t, i), goal)
                         for i in range(s.n)])
        # an arbitrary index (a Skolem constant of the negated goal)
        if decide(compare('<=', s.n, 0)):
            return True
        i = fresh_int('ix', 0)
        p.add(compare('<', i, s.n))
        return elem_eq(seg_elem(s, i), seg_elem(t, i), goal)
    if type(s.n) is int and s.n <= 64 and (
            isinstance(s, A) and isinstance(t, A)):
        return conj([elem_eq(seg_elem(s, i), seg_elem(t, i), goal)
                     for i in range(s.n)])
    # hypothesis: an uninterpreted proposition named by the two segments
    name = 'eq{%s|%s}' % tuple(sorted([seg_key(s), seg_key(t)]))
    return SBool(z3.Bool(name), (seg_fact(s, t),))


def seg_key(s):
    if isinstance(s, A):
        return 'A:%s:%s:%s' % (s.base.name, zkey(s.start), zkey(s.n))
    if isinstance(s, BE):
        return 'BE:%s:%s' % (zkey(s.v), zkey(s.n))
    if isinstance(s, R):
        return 'R:%s:%s' % (zkey(s.val), zkey(s.n))
    if isinstance(s, C):
        return 'C:%s:%s:%s' % (s.key, zkey(s.start), zkey(s.n))
    return 'U:' + ','.join(zkey(v) for v in s.vals)


def seg_fact(s, t):
    return tuple(sorted([seg_key(s), seg_key(t)]))


def zkey(v):
    if isinstance(v, int):
        return str(int(v))
    if isinstance(v, (SInt, BInt, SBool)):
        return z3.simplify(v.e).sexpr()
    if isinstance(v, Seq):
        return seq_key(v)
    return repr(v)


def seq_key(s):
    if s.kind == 'str':
        return 'str[%s]' % '+'.join(seg_key(g) for g in s.segs)
    return '[%s]' % '+'.join(seg_key(g) for g in s.segs)


def origin_eq(s, t):
    """Sufficient condition for equality of two function-result segments."""
    o1, o2 = s.base.origin, t.base.origin
    if not o1 or not o2 or o1[0] != o2[0]:
        return None
    if len(o1[1]) != len(o2[1]):
        return None
    c = [eq(s.start, t.start)]
    xs, ys = o1[1], o2[1]
    if o1[0] in ('cfbE', 'cfbD'):
        # only the octets before the end of the segment matter
        end = add(s.start, s.n)
        if not cur().prove(b(eq(end, add(t.start, t.n)))):
            return None
        xs = xs[:-1] + (slice_seq(xs[-1], 0, end),)
        ys = ys[:-1] + (slice_seq(ys[-1], 0, end),)
    for a_, b_ in zip(xs, ys):
        e = EQV(a_, b_, True)
        if e is False:
            return None
        c.append(e)
    return conj(c)


# ----------------------------------------------- uninterpreted functions

def args_same(xs, ys):
    """provable equality of argument lists, without forking"""
    p = cur()
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if isinstance(x, Seq) and isinstance(y, Seq):
            if (x.kind == 'str') != (y.kind == 'str'):
                return False
            if x is y:
                continue
            c = seq_eq(x, y, fork=False)
            if c is None or c is False:
                return False
            if c is not True and not p.prove(c):
                return False
        elif is_int(x) and is_int(y):
            c = eq(x, y)
            if c is False or (c is not True and not p.prove(c)):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if not args_same(x, y):
                return False
        elif x is y:
            continue
        else:
            try:
                if type(x) is type(y) and not isinstance(x, Seq) \
                        and bool(x == y):
                    continue
            except Exception:
                pass
            return False
    return True


def freeze(v):
    if isinstance(v, Seq):
        return Seq(v.kind, v.segs)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def app(fname, args, build):
    """Result of uninterpreted function fname on args: the same result for
    provably equal arguments."""
    p = cur()
    args = tuple(freeze(a_) for a_ in args)
    tab = p.apps.setdefault(fname, [])
    for a2, r in tab:
        if args_same(args, a2):
            return r
    r = build(p.fresh_name(fname), args)
    tab.append((args, r))
    return r


def app_bytes(fname, args, length, kind='bytes'):
    def build(name, args_):
        n = length(name) if callable(length) else length
        if n is None:
            n = fresh_int('len_' + name, 0)
        return Base(name, n, 'char' if kind == 'str' else 'byte',
                    origin=(fname, args_))
    base = app(fname, args, build)
    return Seq(kind, [A(base, 0, base.length)]).normalize()


def app_int(fname, args, lo=None, hi=None):
    def build(name, args_):
        return fresh_int(name, lo, hi)
    return app(fname, args, build)


def app_bool(fname, args):
    return app(fname, args, lambda name, args_: SBool(z3.Bool(name)))


def whole_origin(s, fname):
    """If rope s is exactly one whole result of fname, its args."""
    s = Seq(s.kind, s.segs).normalize()
    if len(s.segs) == 1 and isinstance(s.segs[0], A):
        g = s.segs[0]
        o = g.base.origin
        if o and o[0] == fname and cur().prove(b(conj([
                eq(g.start, 0), eq(g.n, g.base.length)]))):
            return o[1]
    return None


def be_digits(vals):
    """x mod 256**n when vals are recognisably the octets of x"""
    if len(vals) < 2 or any(type(v) is not SInt for v in vals[1:]):
        return None
    e = vals[-1].e
    if e.decl().kind() != z3.Z3_OP_MOD:
        return None
    if not (z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == 256):
        return None
    x = SInt(e.arg(0))
    n = len(vals)
    for k, v in enumerate(vals):
        w = modc(promote(shr(x, 8 * (n - 1 - k))), 256)
        if isinstance(v, SInt) and isinstance(w, SInt):
            if not z3.simplify(v.e).eq(z3.simplify(w.e)):
                # the leading octet may be known not to need reduction
                if not cur().prove(v.e == w.e):
                    return None
        else:
            return None
    top = 1 << (8 * n)
    if cur().prove(z3.And(x.e >= 0, x.e < top)):
        return SInt(x.e, 0, top - 1)
    return modc(x, top)


def seq_ival(s):
    """big-endian value of an octet rope"""
    p = cur()
    s = Seq(s.kind, s.segs).normalize()
    if s.is_units():
        r = 0
        vals = s.unit_vals()
        x = be_digits(vals)
        if x is not None:
            return x
        for i, v in enumerate(vals):
            r = add(r, arith('*', v, 1 << (8 * (len(vals) - 1 - i))))
        if isinstance(r, SInt):
            r = SInt(r.e, 0, (1 << (8 * len(vals))) - 1)
        return r
    segs = [g for g in s.segs
            if not p.prove(b(compare('<=', g.n, 0)))]
    # leading zero octets do not matter
    while segs and isinstance(segs[0], U) and segs[0].vals[0] == 0 \
            and type(segs[0].vals[0]) is int:
        v = segs[0].vals[1:]
        segs = ([U(v)] if v else []) + segs[1:]
    while segs and isinstance(segs[0], R) and segs[0].val == 0 \
            and type(segs[0].val) is int:
        segs = segs[1:]
    if not segs:
        return 0
    if len(segs) == 1 and isinstance(segs[0], BE):
        g = segs[0]
        if fits(g.v, g.n):
            return g.v
    if len(segs) == 1 and isinstance(segs[0], A) \
            and type(segs[0].n) is not int and p.prove(z(segs[0].n) <= 8):
        n = core.concretize(core.tighten(segs[0].n, 8))
        segs = [A(segs[0].base, segs[0].start, n)] if n else []
        if not segs:
            return 0
    if len(segs) == 1 and segs[0] is not None and type(segs[0].n) is int \
            and segs[0].n <= 64:
        return seq_ival(Seq('bytes', [U(tuple(
            seg_elem(segs[0], i) for i in range(segs[0].n)))]))
    return ival_app(Seq('bytes', segs))


def ival_app(s):
    p = cur()
    r = app_int('ival', (s,), 0, None)
    n = s.length()
    if type(n) is not int:
        p.add(z3.Implies(z(n) <= 0, r.e == 0))
    if not any(v is r for v, _ in p.apps.get('fits!', [])):
        note_fits(r, n)
    return r


def be_seq(v, n, kind='bytes'):
    """the n octets of v; those whose value v is, if it is one"""
    if isinstance(v, SInt):
        for (s,), r in cur().apps.get('ival', []):
            if r.e.eq(v.e):
                c = eq(s.length(), n)
                if c is True or (c is not False and cur().prove(b(c))):
                    return Seq(kind, s.segs)
    return Seq(kind, [BE(v, n)])


def fits(v, n):
    """provable: 0 <= v < 256**n"""
    p = cur()
    if isinstance(v, int) and isinstance(n, int):
        return 0 <= v < (1 << (8 * n))
    for (v2, n2) in p.apps.get('fits!', []):
        if args_same((v, n), (v2, n2)):
            return True
        if v is v2 and p.prove(b(compare('<=', n2, n))):
            return True
    if isinstance(n, int) and n <= 64:
        return p.prove(b(conj([compare('<=', 0, v),
                               compare('<', v, 1 << (8 * n))])))
    return False


def note_fits(v, n, widths=True):
    p = cur()
    p.apps.setdefault('fits!', []).append((v, n))
    if widths and isinstance(v, SInt):
        for (v2,), n2 in p.apps.get('bit_length', []):
            if z(v2).eq(v.e):
                p.add(n2.e <= 8 * z(n))


def bit_length(v):
    """exact bit length of a non-negative integer"""
    p = cur()
    if isinstance(v, int):
        return v.bit_length()
    lo, hi = bounds(v)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << 80):
        e = 0
        r = z3.IntVal(0) if not isinstance(v, BInt) else None
        if isinstance(v, BInt):
            w = hi.bit_length()
            rw = max(1, w.bit_length())
            e = z3.BitVecVal(0, rw)
            for k in range(w):
                e = z3.If(z3.UGE(core.bext(v, w), z3.BitVecVal(1 << k, w)),
                          z3.BitVecVal(k + 1, rw), e)
            return BInt(e, 0, w)
        for k in range(hi.bit_length()):
            r = z3.If(v.e >= (1 << k), z3.IntVal(k + 1), r)
        return mk(r, lo.bit_length(), hi.bit_length())

    def build(name, args_):
        n = fresh_int(name, 0)
        e = args_[0]
        p.add(z3.Implies(z(e) == 0, n.e == 0))
        p.add(z3.Implies(z(e) >= 1, n.e >= 1))
        for k in (1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 53, 63, 64,
                  65, 128, 256, 1024, 2048, 4096):
            p.add((z(e) >= (1 << k)) == (n.e >= k + 1))
        for (v2,), n2 in p.apps['bit_length'][-8:]:
            p.add(z3.Implies(z(e) <= z(v2), n.e <= n2.e))
            p.add(z3.Implies(z(v2) <= z(e), n2.e <= n.e))
        for v2, n2 in p.apps.get('fits!', []):
            if is_int(v2) and z(v2).eq(z(e)):
                p.add(n.e <= 8 * z(n2))
        return n
    n = app('bit_length', (v,), build)
    nb = core.divc(add(n, 7), 8)
    noted = p.__dict__.setdefault('bit_lengths_noted', set())
    if n.e.get_id() not in noted:
        noted.add(n.e.get_id())
        note_fits(v, nb, False)
    return n


def pmod(j, n):
    """j mod n for a symbolic n > 0, with the instances of
    kn <= j < kn + n  =>  j mod n = j - kn  for the k noted so far"""
    p = cur()

    def build(name, args):
        m = fresh_int(name, 0)
        q = fresh_int(name + 'q', 0)
        p.add(z3.And(z(m) < z(n), z(j) == z(q) * z(n) + z(m)))
        for k, n2 in p.apps.get('multiple!', []):
            kn = z(arith('*', k, n))
            p.add(z3.Implies(z3.And(z(n2) == z(n), kn <= z(j),
                                    z(j) < kn + z(n)), z(m) == z(j) - kn))
        return m
    return app('pmod', (j, n), build)


def note_multiple(k, n):
    cur().apps.setdefault('multiple!', []).append((k, n))


def cycle(unit, n, kind):
    """the first n elements of unit repeated for ever"""
    unit = Seq(unit.kind, unit.segs).normalize()
    size = unit.length()
    note_multiple(0, size)
    note_multiple(1, size)

    def fn(j):
        m = core.modc(promote(j), size) if isinstance(size, int) \
            else pmod(j, size)
        return unit.get(m)
    return Seq(kind, [C(fn, 0, n, 'cycle:' + seq_key(unit))])
