"""The modes of pgp.cipher.base against their definitions (NIST SP 800-38A),
over an abstract block cipher."""
import hashlib

from Crypto.Cipher import AES, Blowfish, CAST, DES3
from Crypto.Cipher import blockalgo

from vc import bounded, harness, spec
from pgp import utils
from pgp.cipher import aidea, base, wrapper

ECB, CBC, CFB, OFB, CTR = 1, 2, 3, 5, 6


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class Blocks(object):
    """A permutation of n-octet strings (an eight-round Feistel network over
    SHA-256) standing for any block cipher."""

    def __init__(self, key, n):
        self.key, self.n, self.h = key, n, n // 2

    def f(self, r, x):
        return hashlib.sha256(self.key + bytes([r]) + x).digest()[:self.h]

    def encrypt(self, x):
        a, b = x[:self.h], x[self.h:]
        for r in range(8):
            a, b = b, xor(a, self.f(r, b))
        return a + b

    def decrypt(self, x):
        a, b = x[:self.h], x[self.h:]
        for r in reversed(range(8)):
            a, b = xor(b, self.f(r, a)), a
        return a + b


def toy(n, sizes=(5,), impl=None):
    class Toy(base._InternalObj):
        block_size = n
        key_size = sizes

        @classmethod
        def _create_impl(cls, key):
            return Blocks(key, n) if impl is None else impl
    return Toy


class Mode(object):
    """The definitions."""

    def __init__(self, mode, block, n, iv, segment, counter):
        self.mode, self.b, self.n = mode, block, n
        self.iv, self.s, self.counter = iv, segment, counter
        self.left = b''

    def pieces(self, data, n):
        return [data[i:i + n] for i in range(0, len(data), n)]

    def stream(self, data):
        while len(self.left) < len(data):
            if self.mode == OFB:
                self.iv = self.b.encrypt(self.iv)
                self.left += self.iv
            else:
                self.left += self.b.encrypt(self.counter())
        r = xor(data, self.left)
        self.left = self.left[len(data):]
        return r

    def encrypt(self, data):
        out = b''
        if self.mode == ECB:
            for p in self.pieces(data, self.n):
                out += self.b.encrypt(p)
        elif self.mode == CBC:
            for p in self.pieces(data, self.n):
                self.iv = self.b.encrypt(xor(p, self.iv))
                out += self.iv
        elif self.mode == CFB:
            for p in self.pieces(data, self.s):
                c = xor(p, self.b.encrypt(self.iv))
                self.iv = (self.iv + c)[-self.n:]
                out += c
        else:
            out = self.stream(data)
        return out

    def decrypt(self, data):
        out = b''
        if self.mode == ECB:
            for p in self.pieces(data, self.n):
                out += self.b.decrypt(p)
        elif self.mode == CBC:
            for p in self.pieces(data, self.n):
                out += xor(self.b.decrypt(p), self.iv)
                self.iv = p
        elif self.mode == CFB:
            for p in self.pieces(data, self.s):
                out += xor(p, self.b.encrypt(self.iv))
                self.iv = (self.iv + p)[-self.n:]
        else:
            out = self.stream(data)
        return out


class Counter(object):
    def __init__(self, start, n):
        self.at, self.n = start, n

    def __call__(self):
        r = (self.at % (1 << 8 * self.n)).to_bytes(self.n, 'big')
        self.at += 1
        return r


def setting(v, n, whole=(ECB, CBC)):
    mode = v.choice('mode', [ECB, CBC, CFB, OFB, CTR])
    seg = v.int('segment', 1, n) if mode == CFB else 0
    iv = v.bytes('iv', n)
    first = v.int('counter', 0, 2 ** (8 * n) - 1)
    unit = n if mode in whole else seg or 1
    size = v.int('units', 0, 12) * unit + (
        v.int('more', 0, 40) if unit == 1 else 0)
    data = v.bytes('data', size)
    kw = {}
    if mode == CFB:
        kw['segment_size'] = seg * 8
    if mode in (CBC, CFB, OFB):
        kw['IV'] = iv
    return mode, seg, iv, first, unit, data, kw


def make(mode, n, first, kw, new):
    if mode == CTR:
        return new(mode, counter=Counter(first, n))
    return new(mode, **kw)


def split(v, data, unit):
    cuts = sorted(v.int('cut%d' % i, 0, len(data) // unit) * unit
                  for i in range(v.int('cuts', 0, 3)))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def agree(v, mode, seg, iv, first, unit, data, n, block, fresh):
    ref = Mode(mode, block, n, iv, seg, Counter(first, n)).encrypt(data)
    got = fresh().encrypt(data)
    v.check_eq('the definition, encrypting', bytes(got), ref)
    v.check_eq('decrypts', bytes(fresh().decrypt(got)), data)
    back = Mode(mode, block, n, iv, seg, Counter(first, n)).decrypt(data)
    v.check_eq('the definition, decrypting', bytes(fresh().decrypt(data)),
               back)
    parts = split(v, data, unit)
    a, b = fresh(), fresh()
    v.check_eq('encrypting in pieces', b''.join(bytes(a.encrypt(x))
                                                for x in parts), ref)
    v.check_eq('decrypting in pieces', b''.join(bytes(b.decrypt(x))
                                                for x in parts), back)


class Abstract(object):
    """Any block cipher: two functions of octet strings.  The other attributes
    are ghosts for the loop contract (engine/loopspecs.py: modes): the octets
    going in, those the definition gives, and the octets fed back or the key
    stream, all from the next octet on."""

    def __init__(self, n):
        self.n = n

    def encrypt(self, x):
        return spec.uf('E', self.n, bytes(x))

    def decrypt(self, x):
        return spec.uf('D', self.n, bytes(x))


class AbstractCounter(object):
    """any sequence of counter blocks"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __call__(self):
        r = spec.uf('ctr', self.n, self.at)
        self.at += 1
        return r


def block_mode(v, mode, n, seg):
    """A call on an object in any state its earlier calls can leave: what it
    returns, and the state it leaves, are those of the definition (which puts
    the register in front of the octets fed back)."""
    unit = seg if mode == CFB else n
    forward = v.bool('encrypting')
    kw = {}
    if mode == CFB:
        kw['segment_size'] = seg * 8
    if v.symbolic:
        size = v.nat('units') * unit
        chain = v.bytes('fed back', n + size)
        other = v.bytes('other', size)
        inp = other if forward else chain[n:]
        out = chain[n:] if forward else other
        if mode == ECB:
            inp, out = v.bytes('in', size), v.bytes('out', size)
        impl = Abstract(n)
        impl.unit, impl.chain, impl.inp, impl.out = unit, chain, inp, out
        impl.how = ('E' if forward or mode == CFB else 'D') + (
            '^' if mode == CBC else '')
        if mode == CFB:
            impl.how = 'CFB'
        c = toy(n, impl=impl).new(b'abcde', mode, IV=bytes(n), **kw)
        c.IV = bytearray(chain[:n])
    else:
        iv = v.bytes('iv', n)
        done = v.int('done', 0, 6) * unit
        size = v.int('units', 0, 6) * unit
        data = v.bytes('data', done + size)
        ref = Mode(mode, Blocks(b'abcde', n), n, iv, seg, None)
        res = ref.encrypt(data) if forward else ref.decrypt(data)
        c = toy(n).new(b'abcde', mode, IV=iv, **kw)
        (c.encrypt if forward else c.decrypt)(data[:done])
        inp, out = data[done:], res[done:]
        chain = (iv + (res if forward else data))[done:]
    got = c.encrypt(inp) if forward else c.decrypt(inp)
    v.check_eq('the definition', bytes(got), bytes(out))
    if mode != ECB:
        v.check_eq('the register', bytes(c.IV), bytes(chain[size:size + n]))


@harness()
def ecb(v):
    block_mode(v, ECB, v.choice('block', [8, 16]), 0)


@harness()
def cbc(v):
    block_mode(v, CBC, v.choice('block', [8, 16]), 0)


@harness()
def cfb8(v):
    block_mode(v, CFB, 8, v.choice('segment', list(range(1, 9))))


@harness()
def cfb16(v):
    block_mode(v, CFB, 16, v.choice('segment', list(range(1, 17))))


def stream_mode(v, mode, n):
    """A call in any state: `used` octets of the current block of the key
    stream are used up."""
    forward = v.bool('encrypting')
    if v.symbolic:
        used = v.choice('used', list(range(1, n + 1)))
        size = v.nat('size')
        chain = v.bytes('key stream', size + n + n)
        inp, out = v.bytes('in', size), v.bytes('out', size)
        first = v.nat('first')
        impl = Abstract(n)
        impl.unit, impl.chain, impl.inp, impl.out = n, chain, inp, out
        impl.used, impl.first = used, first
        T = toy(n, impl=impl)
        if mode == CTR:
            impl.how = 'counter'
            counter = AbstractCounter(n, first)
            c = T.new(b'abcde', mode, counter=counter)
            if used < n or v.bool('not the first call'):
                c.IV = bytearray(v.bytes('spent', used) + chain[used:n])
        else:
            impl.how = 'stream'
            c = T.new(b'abcde', mode, IV=bytes(n))
            c.IV = bytearray(chain[:n])
        c.count = used
    else:
        iv = v.bytes('iv', n)
        counter = Counter(v.int('counter', 0, 2 ** (8 * n) - 1), n)
        start = counter.at
        done = v.int('done', 0, 50)
        size = v.int('size', 0, 50)
        data = v.bytes('data', done + size)
        ref = Mode(mode, Blocks(b'abcde', n), n, iv, 0, Counter(start, n))
        chain = iv + ref.stream(bytes(done + size + n + n))
        T = toy(n)
        c = T.new(b'abcde', mode, counter=counter) if mode == CTR \
            else T.new(b'abcde', mode, IV=iv)
        c.encrypt(data[:done])
        first = counter.at
        inp = data[done:]
        out = xor(inp, chain[n + done:])
        used = (done - 1) % n + 1 if done else n
        chain = chain[(done + n - 1) // n * n:]
    got = c.encrypt(inp) if forward else c.decrypt(inp)
    v.check_eq('the definition', bytes(got), bytes(out))
    blocks = (used + size - 1) // n
    left = used + size - blocks * n
    v.check_eq('used', c.count, left)
    if mode == CTR:
        v.check_eq('counter', c.counter.at, first + blocks)
    if c.IV is not None:
        at = blocks * n
        v.check_eq('the key stream', bytes(c.IV[left:]),
                   bytes(chain[at + left:at + n]))
        if mode == OFB:
            v.check_eq('the register', bytes(c.IV), bytes(chain[at:at + n]))


@harness()
def ofb8(v):
    stream_mode(v, OFB, 8)


@harness()
def ofb16(v):
    stream_mode(v, OFB, 16)


@harness()
def ctr8(v):
    stream_mode(v, CTR, 8)


@harness()
def ctr16(v):
    stream_mode(v, CTR, 16)


@harness()
def fresh(v):
    """A new object is in the state which the definition starts from."""
    n = v.choice('block', [8, 16])
    mode = v.choice('mode', [ECB, CBC, CFB, OFB, CTR])
    iv = v.bytes('iv', n)
    kw = {}
    if mode == CFB:
        kw['segment_size'] = 8 * v.int('segment', 1, n)
    if mode == CTR:
        kw['counter'] = Counter(5, n)
    elif mode != ECB:
        kw['IV'] = iv
    c = toy(n).new(b'abcde', mode, **kw)
    v.check_eq('mode', c.mode, mode)
    v.check_eq('nothing of a key stream left', c.count, n)
    if mode in (CBC, CFB, OFB):
        v.check_eq('register', bytes(c.IV), iv)
    if mode == CFB:
        v.check_eq('segment', c.segment_size, kw['segment_size'])
    if mode == CTR:
        v.check('counter', c.counter is kw['counter'])


@bounded(secs=8)
def modes(v):
    """block sizes 4, 8 and 16, up to 12 units and 40 octets in up to four
    pieces, every segment size, against the definitions"""
    n = v.choice('block', [8, 16, 4])
    s = setting(v, n)
    mode, first, kw = s[0], s[3], s[6]
    T = toy(n)
    agree(v, *s[:6], n, Blocks(b'abcde', n),
          lambda: make(mode, n, first, kw, lambda *a, **k: T.new(
              b'abcde', *a, **k)))


@bounded(secs=6)
def ciphers(v):
    """the modes of every cipher module, and of the PyCrypto ciphers wrapped
    and not, over the same cipher's own block function"""
    t = v.choice('cipher', [1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13])
    n = utils.symmetric_cipher_block_lengths[t]
    key = v.bytes('key', utils.symmetric_cipher_key_lengths[t])
    if t == 2:
        key = bytes(range(8)) + key[:16]
    # PyCrypto's own OFB takes whole blocks only
    s = setting(v, n, (ECB, CBC, OFB))
    mode, seg, iv, first = s[:4]
    if mode == CTR:
        v.assume(False)
    wrapped = v.bool('wrapped')
    block = utils.get_symmetric_cipher(t, key, ECB)
    agree(v, *s[:6], n, block, lambda: utils.get_symmetric_cipher(
        t, key, mode, iv if mode != ECB else None,
        seg * 8 if mode == CFB else None, wrapped))


@harness()
def refused(v):
    """Wrong sizes of input are refused, never padded or cut."""
    n = v.choice('block', [8, 16])
    mode = v.choice('mode', [ECB, CBC, CFB])
    seg = v.choice('segment', [1, 2, 3, 5, n // 2, n]) if mode == CFB else n
    size = v.int('size', 1, None if v.symbolic else 60)
    v.assume(size % seg != 0)
    c = toy(n).new(b'abcde', mode, IV=bytes(n), segment_size=seg * 8)
    data = v.bytes('data', size)
    v.check_eq('encrypting', v.outcome(c.encrypt, data)[0], 'exc')
    v.check_eq('decrypting', v.outcome(c.decrypt, data)[0], 'exc')


@harness()
def parameters(v):
    """So are IVs, keys, segments and counter blocks."""
    n = v.choice('block', [8, 16])
    T = toy(n)
    bad = v.int('size', 0, None if v.symbolic else 40)
    word = v.bytes('word', bad)
    mode = v.choice('mode', [CBC, CFB, OFB])
    if bad != n:
        v.check_eq('IV', v.outcome(T.new, b'abcde', mode, IV=word)[0], 'exc')
    if bad != 5:
        v.check_eq('key', v.outcome(T.new, word, mode, IV=bytes(n))[0],
                   'exc')
    v.check_eq('no counter', v.outcome(T.new, b'abcde', CTR)[0], 'exc')
    seg = v.int('segment', 1, 500)
    if seg % 8 != 0 or seg > 8 * n:
        v.check_eq('segment', v.outcome(
            T.new, b'abcde', CFB, IV=bytes(n), segment_size=seg)[0], 'exc')


@harness()
def counter_block(v):
    """A counter block of the wrong length is refused."""
    n = v.choice('block', [8, 16])
    bad = v.bytes('block given', lo=0, hi=40)
    v.assume(len(bad) != n)
    c = toy(n).new(b'abcde', CTR, counter=lambda: bad)
    data = v.bytes('data', v.int('size', 1, 40))
    v.check_eq('refused', v.outcome(c.encrypt, data)[0], 'exc')


@harness(native=False)
def inverse(v):
    """One block of each definition, wherever it lies: decrypting undoes
    encrypting.  D(E(x)) = x is the hypothesis on the block cipher, used by
    writing x for it."""
    n = v.choice('block', [8, 16])
    e = Abstract(n).encrypt
    p, c = v.bytes('p', n), v.bytes('c', n)
    # CBC: the octets given to E are p ^ c; D gives them back
    v.check_eq('CBC', xor(xor(p, c), c), p)
    s = v.choice('segment', list(range(1, n + 1)))
    x = xor(p[:s], e(c))
    v.check_eq('CFB, OFB, CTR', xor(x, e(c)), p[:s])


