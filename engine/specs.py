"""Reference functions for contracts (symbolic side of rt/vc.py)."""
from . import core
from . import seq as S
from .core import (Unsupported, arith, b, compare, conj, cur, eq, is_int,
                   promote)
from .interp import Builtin, ModuleV, raise_exc
from .seq import Seq


def be(I, v, n, kind='bytes'):
    v = promote(v)
    n = promote(n)
    p = core.cur()
    if type(n) is int:
        if n <= 0:
            return Seq(kind)
        return Seq(kind, [S.BE(v, n)]).normalize()
    return S.be_seq(v, n, kind).normalize()


def ival(I, s):
    return S.seq_ival(s)


def bitlen(I, v):
    return S.bit_length(promote(v))


def cdiv(I, a, c):
    return core.divc(core.add(promote(a), c - 1), c)


def eqbytes(I, x, y):
    """same octets whatever the container"""
    return S.seq_eq(x, y, goal=True)


def crc24_step(r, byte):
    """RFC 4880 6.1, one octet"""
    r = arith('^', r, arith('<<', byte, 16))
    for _ in range(8):
        r = arith('<<', r, 1)
        if isinstance(r, int):
            if r & 0x1000000:
                r ^= 0x1864CFB
        else:
            top = arith('>>', r, 24)
            r = arith('&', arith('^', r, arith('*', top, 0x1864CFB)),
                      0xffffff)
    return r


def crc24(I, s):
    s = Seq(s.kind, s.segs).normalize()
    if all(isinstance(g, S.U) for g in s.segs):
        r = 0xB704CE
        for g in s.segs:
            for x in g.vals:
                r = crc24_step(r, x)
        return r
    return S.app_int('crc24', (Seq('bytes', s.segs),), 0, 0xffffff)


def crlf(I, s):
    """every line ending (CR LF, CR or LF) as CR LF"""
    s = Seq('bytes', s.segs).normalize()
    if s.is_concrete():
        d = s.native()
        return S.from_native(d.replace(b'\r\n', b'\n').replace(
            b'\r', b'\n').replace(b'\n', b'\r\n'))
    n = s.length()
    if cur().prove(b(compare('<=', n, 0))):
        return Seq('bytes')
    r = S.app_bytes('crlf', (s,), None)
    cur().add(b(compare('<=', n, r.length())))
    cur().add(b(compare('<=', r.length(), arith('*', 2, n))))
    return r


def cycle(I, unit, n):
    return S.cycle(unit, promote(n), 'bytes')


def uf_bytes(I, name, n, *args):
    """uninterpreted octet string of n octets determined by args"""
    return S.app_bytes('spec_' + name, args, n)


def uf(I, name, n, *args):
    return uf_bytes(I, name, promote(n), *args)


def mul16(I, x, y):
    """the product, modulo the prime 65537, of two words of which zero stands
    for 65536, as such a word.  Over integers this is the formula; over bit
    vectors a function of which only what follows from that is known:
      mul16(x, y) = mul16(y, x),  mul16(mul16(x, y), inv16(y)) = x"""
    p = cur()
    x, y = promote(x), promote(y)
    if not p.bv or type(x) is int and type(y) is int:
        def word(v):
            if type(v) is int:
                return v or 65536
            return 65536 if p.branch(eq(v, 0)) else v
        r = core.arith('%', arith('*', word(x), word(y)), 65537)
        if type(r) is not int:
            I.trust('a product of words is no multiple of the prime 65537')
            p.add(b(core.neg(eq(r, 0))))
            return core.ite(core.compare(">=", r, 65536), 0, r)
        return r % 65536

    def same(a, c):
        if type(a) is int and type(c) is int:
            return a == c
        e = eq(a, c)
        return e if isinstance(e, bool) else p.prove(e)
    tab = p.apps.setdefault('mul16', [])
    for (a, c), r in tab:
        if same(y, c) and same(x, a) or same(x, c) and same(y, a):
            return r
    for u, w in ((x, y), (y, x)):
        for i, o in p.apps.get('inv16', []):
            if same(w, o):
                other = i
            elif same(w, i):
                other = o
            else:
                continue
            for (a, c), r in tab:
                for a, c in ((a, c), (c, a)):
                    if same(c, other) and same(u, r):
                        I.trust('multiplication modulo 65537 by a word and '
                                'by its inverse cancel')
                        return a
    r = core.fresh_int('mul16', 0, 65535)
    tab.append(((x, y), r))
    return r


def inv16(I, x):
    """the inverse of a word in that multiplication"""
    x = promote(x)
    if type(x) is int:
        return pow(x or 65536, 65535, 65537) % 65536
    p = cur()
    tab = p.apps.setdefault('inv16', [])
    for a, r in tab:
        e = eq(a, x)
        if e is True or e is not False and p.prove(e):
            return r
    r = core.fresh_int('inv16', 0, 65535)
    tab.append((x, r))
    return r


def install(I, ns):
    m = ModuleV('spec')
    m.ext = True
    for k, f in list(globals().items()):
        if k in ('be', 'ival', 'bitlen', 'cdiv', 'eqbytes', 'crc24', 'cycle',
                 'crlf', 'uf', 'mul16', 'inv16'):
            m.ns[k] = Builtin(k, lambda i, a, kw, f=f: f(i, *a, **kw))
    ns['spec'] = m
