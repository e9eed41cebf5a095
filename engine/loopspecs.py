"""Inductive invariant candidates, by enclosing function (role based)."""
from . import core
from . import seq as S
from .core import add, arith, compare, shr, sub, promote
from .interp import LOOPSPECS
from .loops import SkipCandidate
from .seq import Seq


def spec(*names):
    def d(f):
        for n in names:
            LOOPSPECS[n] = f
        return f
    return d


def iv_prefix(L, data, off, k):
    """big-endian value of data[off:off+k], with its unfolding equation"""
    if not isinstance(data, Seq) or len(data.segs) != 1 \
            or not isinstance(data.segs[0], S.A):
        raise SkipCandidate()
    g = data.segs[0]
    p = core.cur()
    start = add(g.start, off)

    def iv(n):
        if type(n) is int and n == 0:
            return 0
        return S.ival_app(Seq('bytes', [S.A(g.base, start, n)]))
    r = iv(k)
    if L.kprev is not None:
        r0 = iv(L.kprev)
        e = g.base.sel(add(start, L.kprev))
        p.add(core.eq(r, add(arith('*', r0, 256), e)))
        p.add(core.z3.Implies(core.z(L.kprev) == 0, core.z(r0) == 0))
    return r


@spec('pgp.utils.bytes_to_int')
def bytes_to_int(L):
    def high_first(L, v0, k):
        if L.n is None:
            raise SkipCandidate()
        rest = sub(L.n, k)
        v = iv_prefix(L, L.arg(0), L.arg(1), k)
        p1 = core.pow2(arith('*', rest, 8))
        if L.kprev is not None:
            p0 = core.pow2(arith('*', sub(L.n, L.kprev), 8))
            core.cur().add(core.eq(p0, arith('*', p1, 256)))
        return add(v0, mul(v, p1))

    def horner(L, v0, k):
        return iv_prefix(L, L.arg(0), L.arg(1), k)
    def low_first(L, v0, k):
        data, off = L.arg(0), L.arg(1)
        if L.n is None or not isinstance(data, Seq) or len(data.segs) != 1 \
                or not isinstance(data.segs[0], S.A):
            raise SkipCandidate()
        g = data.segs[0]
        end = add(add(g.start, off), L.n)

        def iv(m):
            if type(m) is int and m == 0:
                return 0
            return S.ival_app(Seq('bytes', [S.A(g.base, sub(end, m), m)]))
        r = iv(k)
        if L.kprev is not None:
            e = g.base.sel(sub(end, k))
            core.cur().add(core.eq(r, add(iv(L.kprev), mul(e, core.pow2(
                arith('*', L.kprev, 8))))))
            core.cur().add(core.z3.Implies(core.z(L.kprev) == 0,
                                           core.z(iv(L.kprev)) == 0))
        return add(v0, r)
    yield 'int', 'acc + ival(data[offset:offset+k]) * 256**(n-k)', high_first
    yield 'int', 'acc + ival(data[offset+n-k:offset+n])', low_first
    yield 'int', 'ival(data[offset:offset+k])', horner


def mul(a, b_):
    try:
        return arith('*', a, b_)
    except core.Unsupported:
        return core.mk(core.z(a) * core.z(b_))


@spec('pgp.utils.int_to_mpi', 'pgp.utils.int_to_bytes')
def int_octets(L):
    def grow(L, v0, k):
        if L.n is None:
            raise SkipCandidate()
        return Seq(v0.kind, v0.segs + [S.BE(
            shr(L.arg(0), arith('*', sub(L.n, k), 8)), k)])

    def low_first(L, v0, k):
        return Seq(v0.kind, v0.segs + S.le_seq(L.arg(0), k, v0.kind).segs)

    def prepend(L, v0, k):
        return Seq(v0.kind, [S.BE(L.arg(0), k)] + v0.segs)
    def fill_end(L, v0, k):
        if L.n is None:
            raise SkipCandidate()
        return Seq(v0.kind, [S.R(0, sub(L.n, k)), S.BE(L.arg(0), k)])

    def fill_start(L, v0, k):
        if L.n is None:
            raise SkipCandidate()
        rest = sub(L.n, k)
        return Seq(v0.kind, [S.BE(shr(L.arg(0), arith('*', rest, 8)), k),
                             S.R(0, rest)])
    yield 'seq', 'entry + BE(i >> 8(n-k), k)', grow
    yield 'seq', '0 ... BE(i, k)', fill_end
    yield 'seq', 'BE(i >> 8(n-k), k) 0 ...', fill_start
    yield 'seq', 'entry + LE(i, k)', low_first
    yield 'seq', 'BE(i, k) + entry', prepend
    yield 'int', 'entry >> 8k', lambda L, v0, k: shr(v0, arith('*', k, 8))
    if core.is_int(L.arg(0)):
        yield 'count', 'k <= octets of i', core.divc(
            add(S.bit_length(L.arg(0)), 7), 8)


@spec('pgp.utils.bytearray_to_hex')
def to_hex(L):
    from .models import hex_of
    data = L.arg(0)
    off = L.arg(1)

    def grow(L, v0, k):
        g = data.segs[0]
        if len(data.segs) != 1 or not isinstance(g, S.A):
            raise SkipCandidate()
        part = Seq('bytes', [S.A(g.base, add(g.start, off), k)])
        return S.Seq('str', S.str_seq(v0).segs + S.str_seq(
            hex_of(part, True)).segs)
    if isinstance(data, Seq) and data.segs:
        yield 'seq', 'entry + HEX(arr[offset:offset+k])', grow


@spec('pgp.utils.hex_to_bytes')
def from_hex(L):
    from .models import hexval
    text = L.arg(0)

    def grow(L, v0, k):
        if not isinstance(text, Seq):
            raise SkipCandidate()

        def fn(j):
            j2 = arith('*', j, 2)
            return add(arith('*', hexval(text.get(j2), True), 16),
                       hexval(text.get(add(j2, 1)), True))
        return Seq(v0.kind, v0.segs + [S.C(fn, 0, k, 'unhex:' +
                                           S.seq_key(text))])
    yield 'seq', 'entry + UNHEX(text)[:k]', grow


@spec('pgp.crc24.crc24')
def crc24(L):
    """acc = CRC-24 of data[:k], by its recursion over the octets"""
    from . import specs
    data = L.arg(0)

    def acc(L, v0, k):
        if not isinstance(data, Seq) or len(data.segs) != 1 \
                or not isinstance(data.segs[0], S.A):
            raise SkipCandidate()
        g = data.segs[0]
        p = core.cur()

        def crc(n):
            if type(n) is int and n == 0:
                return 0xB704CE
            return core.tobint(S.app_int(
                'crc24', (Seq('bytes', [S.A(g.base, g.start, n)]),), 0,
                0xffffff))
        r = crc(k)
        if type(k) is int and k == 0:
            return r
        z0 = core.eq(crc(k), 0xB704CE)
        p.add(core.z3.Implies(core.z(k) == 0, core.b(z0)))
        if L.kprev is not None:
            e = core.tobint(g.base.sel(add(g.start, L.kprev)))
            p.add(core.eq(r, specs.crc24_step(crc(L.kprev), e)))
            L.unfold = specs.crc24_step(crc(L.kprev), e)
            return L.unfold
        return r
    yield 'int', 'CRC24(data[:k])', acc


@spec('pgp.s2k.SimpleS2K.to_key')
def s2k_key(L):
    """what was hashed so far: the first min(total, k * size) octets of salt
    and passphrase repeated"""
    me = L.arg(0)
    salt = me.attrs.get('salt')
    word = L.arg(1)
    count = me.attrs.get('count')

    def grow(L, v0, k):
        if not isinstance(word, Seq) or not isinstance(salt, Seq):
            raise SkipCandidate()
        unit = Seq('bytes', salt.segs + word.segs).normalize()
        size = unit.length()
        S.note_multiple(k, size)
        if L.kprev is not None:
            S.note_multiple(L.kprev, size)
        total = size if count is None else core.ite(
            core.compare('<', count, size), size, count)
        n = arith('*', k, size)
        n = core.ite(core.compare('<=', n, total), n, total)
        return Seq(v0.kind, v0.segs + S.cycle(unit, n, 'bytes').segs)
    yield 'seq', 'entry + (salt passphrase)*[:min(total, k * size)]', grow


def monotone(L):
    """for loops whose results are not described: integers do not fall below
    their values on entry"""
    for name, v0 in sorted(L.entry.items()):
        if core.is_int(v0):
            def inv(L, vs, k, name=name, v0=v0):
                v = vs[name]
                if not core.is_int(v):
                    return False
                c = core.compare('>=', v, v0)
                return c if isinstance(c, bool) else c.e
            yield 'inv', '%s >= entry' % name, inv

            def octet(L, vs, k, name=name, v0=v0):
                v = vs[name]
                if not core.is_int(v):
                    return False
                c = core.conj([core.compare('<=', 0, v),
                               core.compare('<=', v, 255)])
                return c if isinstance(c, bool) else c.e
            yield 'inv', '0 <= %s <= 255' % name, octet


def window(s, lo, n):
    """n octets at lo of a sequence which is part of one base"""
    if not isinstance(s, Seq) or len(s.segs) != 1 \
            or not isinstance(s.segs[0], S.A):
        raise SkipCandidate()
    g = s.segs[0]
    return S.A(g.base, add(g.start, lo), n)


def octet(s, i):
    g = window(s, i, 1)
    return g.base.sel(g.start)


@spec('pgp.cipher.base._InternalObj.encrypt',
      'pgp.cipher.base._InternalObj.decrypt')
def modes(L):
    """a mode of a block cipher, in the middle of a message: the contract's
    ghost streams (contracts/c14.py) are what comes in, what goes out and what
    is fed back, all from the octets of this call on, with their defining
    equations added for the block at hand"""
    impl = L.arg(0).attrs.get('_impl')
    g = getattr(impl, 'attrs', {})
    if 'out' not in g:
        return
    p = core.cur()
    n, s = g['n'], g['unit']
    out, inp, chain, how = g['out'], g['inp'], g['chain'], g['how']
    length = L.arg(1).length()
    L.spec_first = True

    def xor(a, b_):
        return core.arith('^', a, b_)

    def define(at):
        """out and chain for the block at octet `at` of this call"""
        for j, e in enumerate(block(at)):
            p.add(core.eq(octet(out, add(at, j)), e))

    def call(name, x):
        r = S.app_bytes('spec_' + name, (x,), n)
        return [r.get(j) for j in range(n)]

    def piece(seq, at, size):
        return Seq('bytes', [window(seq, at, size)])

    def block(at):
        if how == 'E' or how == 'D':                # ECB
            return call(how, piece(inp, at, n))
        if how == 'E^':                             # CBC
            return call('E', Seq.units('bytes', [
                xor(octet(inp, add(at, j)), octet(chain, add(at, j)))
                for j in range(n)]))
        if how == 'D^':
            return [xor(x, octet(chain, add(at, j))) for j, x in enumerate(
                call('D', piece(inp, at, n)))]
        x = call('E', piece(chain, at, n))          # CFB
        return [xor(x[j], octet(inp, add(at, j))) for j in range(s)]

    def rest(v0, done):
        return S.R(0, sub(v0.length(), done))

    if how not in ('stream', 'counter'):
        def position(L, v0, k):
            return add(v0, arith('*', k, s))

        def result(L, v0, k):
            if L.kprev is not None:
                define(arith('*', L.kprev, s))
            done = arith('*', k, s)
            return Seq(v0.kind, [window(out, 0, done), rest(v0, done)])

        def register(L, v0, k):
            return Seq(v0.kind, [window(chain, arith('*', k, s), n)])
        yield 'int', 'entry + k blocks', position
        yield 'seq', 'the output to block k, then zeros', result
        yield 'seq', 'the register before block k', register
        return

    # key stream: chain[0:n] is the current block, c0 octets of it are used
    c0 = g['used']
    skip = n - c0

    def stream(at):
        """one octet out"""
        p.add(core.eq(octet(out, at), xor(octet(inp, at),
                                          octet(chain, add(at, c0)))))

    def key_block(m):
        """block m + 1 of the key stream"""
        if how == 'stream':
            x = piece(chain, arith('*', m, n), n)
        else:
            x = S.app_bytes('spec_ctr', (add(g['first'], m),), n)
        for j, e in enumerate(call('E', x)):
            p.add(core.eq(octet(chain, add(arith('*', m, n), n + j)), e))

    if L.n is not None:
        # octets of one block
        ints = sorted(x for x, v in L.fr.env.vars.items() if core.is_int(v))

        def grow(L, v0, k, x):
            at = L.fr.env.vars[x]
            if L.kprev is not None:
                stream(add(at, L.kprev))
            done = add(at, k)
            return Seq(v0.kind, [window(out, 0, done), rest(v0, done)])

        def used(L, v0, k, x):
            at = L.fr.env.vars[x]
            if L.kprev is not None:
                stream(add(at, L.kprev))
            c = L.arg(0).attrs['count']
            return Seq(v0.kind, S.slice_seq(v0, 0, c).segs
                       + [window(out, at, k)]
                       + S.slice_seq(v0, add(c, k), None).segs)
        for x in ints:
            yield ('seq', 'the output to %s + k, then zeros' % x,
                   lambda L, v0, k, x=x: grow(L, v0, k, x))
        for x in ints:
            yield ('seq', 'k octets used, from %s' % x,
                   lambda L, v0, k, x=x: used(L, v0, k, x))
        return

    def before(k):
        """octets done before block k of this call"""
        return add(arith('*', k, n), -c0)

    def state(k):
        """0: at the start, 1: k blocks used up, 2: all done in block k-1"""
        if type(k) is int and k == 0 or p.branch(core.eq(k, 0)):
            return 0
        return 1 if p.branch(compare('<', before(k), length)) else 2

    def position(L, v0, k):
        return (0, before(k), length)[state(k)]

    def count(L, v0, k):
        return (c0, 0, sub(length, before(sub(k, 1))))[state(k)]

    def blocks(L, v0, k):
        return add(v0, (0, k, sub(k, 1))[state(k)])

    def result(L, v0, k):
        if L.kprev is not None:
            at = (0, before(L.kprev))[state(L.kprev)]
            for j in range(skip if state(L.kprev) == 0 else n):
                stream(add(at, j))
        done = position(L, v0, k)
        return Seq(v0.kind, [window(out, 0, done), rest(v0, done)])

    def register(L, v0, k):
        if L.kprev is not None:
            key_block(L.kprev)
        st = state(k)
        if st == 0:
            return v0
        if v0 is None:
            v0 = Seq('bytearray')
        if st == 1:
            return Seq(v0.kind, [window(chain, arith('*', k, n), n)])
        k1 = sub(k, 1)
        if how == 'stream':
            return Seq(v0.kind, [window(chain, arith('*', k1, n), n)])
        first = p.branch(core.eq(k, 1))
        c = sub(length, before(k1))
        head = S.slice_seq(v0, 0, c0).segs if first and v0.segs else []
        at = 0 if first else before(k1)
        return Seq(v0.kind, head + [
            window(out, at, sub(length, at)),
            window(chain, add(arith('*', k1, n), c), sub(n, c))])

    def last(L, vs, k):
        """the block before was needed"""
        if type(k) is int:
            return True
        c = core.disj([core.eq(k, 0), compare('<', core.ite(
            core.eq(k, 1), 0, before(sub(k, 1))), length)])
        return c if isinstance(c, bool) else c.e
    yield 'int', 'octets done', position
    yield 'int', 'octets used of the block', count
    yield 'int', 'blocks made', blocks
    yield 'seq', 'the output so far, then zeros', result
    yield 'seq', 'the block of the key stream', register
    yield 'none', 'the block of the key stream', register
    yield 'inv', 'the block before was needed', last
    c = L.arg(0).attrs.get('counter')
    if how == 'counter' and 'at' in getattr(c, 'attrs', {}):
        L.states = [('counter', c, 'at')]
