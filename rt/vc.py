"""Native side of the harness interface: the same harness files the verifier
executes symbolically run here on concrete values, against the real code,
to replay counter-models and as bounded stand-ins."""
import random

SYMBOLIC = False
HARNESSES = {}          # (module, name) -> (function, options)
BOUNDED = {}
CONTRACTS = {}


class Skip(Exception):
    pass


class Failed(Exception):
    def __init__(self, obligation, detail):
        Exception.__init__(self, obligation)
        self.obligation = obligation
        self.detail = detail


def harness(**opts):
    def d(f):
        HARNESSES[(f.__module__, f.__name__)] = (f, opts)
        return f
    return d


def bounded(**opts):
    def d(f):
        BOUNDED[(f.__module__, f.__name__)] = (f, opts)
        return f
    return d


def contract(qualname, kinds, ensures, requires=None, **opts):
    CONTRACTS[qualname] = (kinds, ensures, requires, opts)


nat = ('int', 0, None)
anyint = ('int', None, None)
octets = ('bytes',)
none = ('none',)


def opt(k):
    return ('opt', k)


def rng(lo, hi):
    return ('int', lo, hi)


class spec(object):
    @staticmethod
    def be(v, n):
        if n <= 0:
            return b''
        return (v % (1 << (8 * n))).to_bytes(n, 'big')

    @staticmethod
    def ival(s):
        return int.from_bytes(bytes(s), 'big')

    @staticmethod
    def bitlen(v):
        return v.bit_length()

    @staticmethod
    def cdiv(a, c):
        return (a + c - 1) // c

    @staticmethod
    def mul16(x, y):
        return (x or 65536) * (y or 65536) % 65537 % 65536

    @staticmethod
    def inv16(x):
        return pow(x or 65536, 65535, 65537) % 65536

    @staticmethod
    def cycle(unit, n):
        return (unit * (n // len(unit) + 1))[:n]

    @staticmethod
    def crc24(s):
        r = 0xB704CE
        for x in bytes(s):
            r ^= x << 16
            for _ in range(8):
                r <<= 1
                if r & 0x1000000:
                    r ^= 0x1864CFB
        return r

    @staticmethod
    def eqbytes(x, y):
        return bytes(x) == bytes(y)


INTS = [0, 1, 2, 3, 7, 8, 15, 16, 31, 127, 128, 191, 192, 193, 223, 224, 253,
        254, 255, 256, 257, 447, 448, 511, 512, 1023, 1024, 8382, 8383, 8384,
        8385, 32767, 32768, 65534, 65535, 65536, 65537, 16777215, 16777216,
        2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63,
        2 ** 64 - 1, 2 ** 64]


def harvest(root):
    """integers and octet strings the code under check mentions: values next
    to them are where its behaviour can change"""
    import ast
    import os
    ints, strs = set(), set()
    for d, dirs, files in os.walk(os.path.join(root, 'pgp')):
        dirs[:] = [x for x in dirs if x not in ('commands', 'tests')]
        for fn in sorted(files):
            if not fn.endswith('.py') or fn.startswith('test'):
                continue
            try:
                with open(os.path.join(d, fn), encoding='utf-8') as f:
                    t = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            for n in ast.walk(t):
                v = getattr(n, 'value', None)
                if isinstance(n, ast.Constant) and type(v) is int:
                    if fn in ('aidea.py', 'crc24.py'):
                        continue
                    ints.add(v)
                elif isinstance(n, ast.Constant) and type(v) is bytes:
                    if 0 < len(v) <= 16:
                        strs.add(v)
                elif isinstance(n, ast.Compare):
                    for x in [n.left] + n.comparators:
                        y = getattr(x, 'value', None)
                        if type(y) is str and 0 < len(y) <= 16:
                            strs.add(y.encode('utf-8', 'surrogatepass'))
                elif isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), '', 'eval'),
                                 {'__builtins__': {}}) \
                            if all(isinstance(m, (ast.BinOp, ast.Constant,
                                                  ast.operator))
                                   for m in ast.walk(n)) else None
                    except Exception:
                        v = None
                    if type(v) is int and abs(v) < 2 ** 80:
                        ints.add(v)
    return sorted(ints), sorted(strs)


DICT = ([], [])


class V(object):
    """Concrete values: given inputs first, random ones otherwise."""
    symbolic = False

    def __init__(self, given=None, seed=0, size=1.0):
        self.given = given or {}
        self.r = random.Random(seed)
        self.used = {}
        self.reached_checks = set()
        self.size = size
        self._scratch = None
        self.sizes = {}
        self.invented = False   # a value which was not given

    def scratch(self):
        """an empty directory, removed after the run"""
        if self._scratch is None:
            import tempfile
            self._scratch = tempfile.mkdtemp(prefix='verif-')
        return self._scratch

    def done(self):
        if self._scratch is not None:
            import gc
            import shutil
            gc.collect()
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def _get(self, name, gen, dec=None, enc=None):
        n = name
        i = 1
        while n in self.used:
            i += 1
            n = '%s#%d' % (name, i)
        if n in self.given:
            v = self.given[n]
            self.used[n] = v
            return dec(v) if dec else v
        self.invented = True
        v = gen()
        self.used[n] = enc(v) if enc else v
        return v

    # generators
    def _int(self, lo, hi):
        r = self.r
        k = r.random()
        if lo is not None and hi is not None and hi - lo < 64 and k < 0.9:
            return r.randint(lo, hi)
        if k < 0.35:
            v = r.choice(INTS)
        elif k < 0.5:
            b = r.randint(1, 130)
            v = (1 << b) + r.randint(-2, 2)
        elif k < 0.55:
            b = r.randint(1, 3000)
            v = (1 << b) + r.randint(-2, 2)
        elif k < 0.7:
            v = r.getrandbits(r.randint(1, 600))
        elif k < 0.75:
            v = lo if lo is not None else 0
        elif k < 0.8 and hi is not None:
            v = hi
        elif lo is not None and hi is not None:
            return r.randint(lo, hi)
        else:
            v = r.getrandbits(r.randint(1, 40))
        if lo is None and r.random() < 0.4:
            v = -v
        if lo is not None and v < lo or hi is not None and v > hi:
            if lo is not None and hi is not None:
                return r.randint(lo, hi)
            if lo is not None:
                return lo + r.getrandbits(r.randint(1, 20))
            return hi - r.getrandbits(r.randint(1, 20))
        return v

    def _len(self, lo, hi):
        r = self.r
        k = r.random()
        if k < 0.06 and DICT[0]:
            n = r.choice(DICT[0]) + r.choice([0, 0, 1, -1])
            if n < 0 or n > 70000 or (n > 300 and r.random() < 0.7):
                n = r.randint(0, 12)
        elif k < 0.5:
            n = r.randint(0, 9)
        elif k < 0.8:
            n = r.randint(0, 40)
        elif k < 0.95:
            n = r.choice([63, 64, 65, 127, 128, 190, 191, 192, 193, 200, 254,
                          255, 256, 257, 300])
        elif k < 0.97:
            n = r.choice([511, 512, 513, 1023, 1024, 8191, 8192, 8382, 8383,
                          8384, 8385, 9000])
        else:
            n = r.randint(0, 20)
        if n < lo:
            n = lo + r.randint(0, 6)
        if hi is not None and n > hi:
            n = r.randint(lo, hi)
        return n

    def _bytes(self, n):
        r = self.r
        k = r.random()
        if k < 0.08 and DICT[1] and n:
            w = r.choice(DICT[1])
            x = (w if r.random() < 0.5 else
                 bytes(r.getrandbits(8) for _ in range(r.randint(0, n)))
                 + w) + bytes(r.getrandbits(8) for _ in range(n))
            return x[:n]
        if k < 0.5:
            return bytes(r.getrandbits(8) for _ in range(n))
        if k < 0.6:
            return bytes(n)
        if k < 0.67:
            return b'\xff' * n
        if k < 0.8:
            return bytes(r.choice(b'ab \r\n\t-=:.') for _ in range(n))
        if k < 0.9:
            return bytes(r.randint(32, 126) for _ in range(n))
        if n and k < 0.95:
            return bytes([r.choice([0, 255, 128])]) + bytes(
                r.getrandbits(8) for _ in range(n - 1))
        return bytes(r.choice([0, 1, 127, 128, 192, 224, 254, 255])
                     for _ in range(n))

    def int(self, name, lo=None, hi=None):
        return self._get(name, lambda: self._int(lo, hi))

    def nat(self, name):
        return self._get(name, lambda: self._int(0, None))

    def bool(self, name):
        return bool(self._get(name, lambda: self.r.randint(0, 1)))

    def bytes(self, name, n=None, lo=0, hi=None, kind='bytes'):
        v = self._get(name,
                      lambda: self._bytes(self._len(lo, hi)
                                          if n is None else n),
                      bytes.fromhex, lambda b: b.hex())
        return v

    def bytearray(self, name, n=None, lo=0, hi=None):
        return bytearray(self.bytes(name, n, lo, hi))

    def ints(self, name, n, lo, hi):
        return list(self._get(name, lambda: [self._int(lo, hi)
                                             for _ in range(n)]))

    def text(self, name, n=None, lo=0, hi=None, maxchar=127, without=''):
        def gen():
            k = self._len(lo, hi) if n is None else n
            r = self.r
            out = []
            for _ in range(k):
                x = r.random()
                if x < 0.7 or maxchar < 128:
                    c = r.randint(32, 126) if x < 0.6 else r.randint(
                        0, min(maxchar, 127))
                elif x < 0.85:
                    c = r.randint(128, min(maxchar, 0x7ff))
                else:
                    c = r.choice([0x20ac, 0x1f600, 0xfeff, 0x4e2d])
                if c > maxchar or 0xd800 <= c <= 0xdfff:
                    c = 65
                while chr(c) in without:
                    c += 1
                out.append(c)
            return ''.join(map(chr, out))
        return self._get(name, gen,
                         lambda l: ''.join(map(chr, l)),
                         lambda s: [ord(c) for c in s])

    def hexid(self, name, n):
        return self._get(name, lambda: self._bytes(n).hex().upper(),
                         lambda h: h.upper(), lambda s: s)

    def choice(self, name, options):
        opts = list(range(options)) if isinstance(options, int) \
            else list(options)
        self.sizes[name] = len(opts)
        k = self._get(name, lambda: self.r.randrange(len(opts)))
        return opts[k % len(opts)]

    def assume(self, c):
        if not c:
            raise Skip()

    def reach(self, name):
        pass

    def note(self, *a):
        pass

    def check(self, name, c):
        self.reached_checks.add(name)
        if not c:
            raise Failed(name, 'condition is false')

    def check_eq(self, name, x, y):
        self.reached_checks.add(name)
        if not same(x, y):
            raise Failed(name, '%.400r != %.400r' % (x, y))

    def outcome(self, f, *a, **k):
        try:
            return ('ok', f(*a, **k))
        except Skip:
            raise
        except Exception as e:
            return ('exc', type(e).__name__)


def same(x, y):
    if isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes,
                                                            bytearray)):
        return bytes(x) == bytes(y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return (type(x) is type(y) and len(x) == len(y)
                and all(same(a, b) for a, b in zip(x, y)))
    return bool(x == y)


def fresh_of_kind(v, name, kd):
    if kd[0] == 'opt':
        if v.bool(name + '_given'):
            return fresh_of_kind(v, name, kd[1])
        return None
    if kd[0] == 'int':
        return v.int(name, kd[1], kd[2])
    if kd[0] == 'bytes':
        return v.bytes(name) if len(kd) == 1 else v.bytes(
            name, None, kd[1], kd[2])
    if kd[0] == 'none':
        return None
    if kd[0] == 'const':
        return kd[1]


def resolve(q):
    import importlib
    parts = q.split('.')
    for i in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        for x in parts[i:]:
            o = getattr(o, x)
        return o


def _copy(x):
    return type(x)(x) if isinstance(x, (bytes, bytearray, list)) else x


def contract_body(q):
    kinds, ensures, requires, opts = CONTRACTS[q]
    f = resolve(q)

    def body(v):
        args = [fresh_of_kind(v, 'arg%d' % i, kd)
                for i, kd in enumerate(kinds)]
        if requires is not None:
            v.assume(requires(*args))
        want = v.outcome(ensures, *[_copy(x) for x in args])
        got = v.outcome(f, *[_copy(x) for x in args])
        v.check_eq('same outcome kind', want[0], got[0])
        if want[0] == 'exc':
            v.check_eq('same outcome kind', want[1], got[1])
        elif 'low_bits' in opts:
            n = 1 << opts['low_bits']
            v.check_eq('result', got[1] % n, want[1] % n)
            v.check('result', -n <= got[1] < 2 * n)
        else:
            v.check_eq('result', got[1], want[1])
            v.check_eq('result', type(got[1]).__name__,
                       type(want[1]).__name__)
    return body
