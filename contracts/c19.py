"""Key databases: files of transferable keys, and edits of them."""
import hashlib
import os

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c06 import small_key, subpacket_length
from pgp.db import gpg
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
CLASSES = [T.TransferablePublicKey, T.TransferableSecretKey]


# ---- octets of a key, RFC 4880 4.2 and 11.1

def shortest(fmt, tag, body):
    n = len(body)
    if fmt == NEW:
        first = spec.be(0xc0 + tag, 1)
        if n < 192:
            return first + spec.be(n, 1) + body
        if n < 8384:
            return (first + spec.be((n - 192) // 256 + 192, 1)
                    + spec.be((n - 192) % 256, 1) + body)
        return first + b'\xff' + spec.be(n, 4) + body
    if n < 256:
        return spec.be(0x80 + 4 * tag, 1) + spec.be(n, 1) + body
    if n < 65536:
        return spec.be(0x81 + 4 * tag, 1) + spec.be(n, 2) + body
    return spec.be(0x82 + 4 * tag, 1) + spec.be(n, 4) + body


def some_header(v, name, fmt, tag, body):
    """any of the headers of the format"""
    n = len(body)
    how = v.choice(name + ' header', ['shortest', 'shortest', 'longest'])
    if how == 'shortest' or tag > 15:
        return shortest(fmt, tag, body)
    if fmt == NEW:
        return spec.be(0xc0 + tag, 1) + b'\xff' + spec.be(n, 4) + body
    return spec.be(0x82 + 4 * tag, 1) + spec.be(n, 4) + body


def split(data):
    """the packets of a file: [(tag, content, octets)]"""
    out = []
    i = 0
    while i < len(data):
        start = i
        first = data[i]
        i += 1
        if first & 0x40:
            tag = first & 63
            a = data[i]
            if a < 192:
                n, k = a, 1
            elif a < 224:
                n, k = (a - 192) * 256 + data[i + 1] + 192, 2
            else:
                assert a == 255
                n, k = spec.ival(data[i + 1:i + 5]), 5
        else:
            tag = first >> 2 & 15
            k = 1 << (first & 3)
            n = spec.ival(data[i:i + k])
        i += k
        assert i + n <= len(data)
        out.append((tag, data[i:i + n], data[start:i + n]))
        i += n
    return out


def fingerprint(body):
    """RFC 4880 12.2 of the octets of a public key"""
    if body[0] < 4:
        n = spec.cdiv(spec.ival(body[8:10]), 8)
        e = spec.cdiv(spec.ival(body[10 + n:12 + n]), 8)
        return hashlib.md5(body[10:10 + n] + body[12 + n:12 + n + e]
                           ).hexdigest().upper()
    return hashlib.sha1(b'\x99' + spec.be(len(body), 2) + body
                        ).hexdigest().upper()


def key_id(body):
    if body[0] < 4:
        n = spec.cdiv(spec.ival(body[8:10]), 8)
        return body[10:10 + n][-8:].hex().upper()
    return fingerprint(body)[-16:]


# ---- keys to put in keyrings

#: name, version, creation time; the last two have the same short key ID
POOL = [('rsa', 4, 1000000000), ('rsa', 4, 1000000001), ('rsa2', 4, 1),
        ('dsa', 4, 1000000000), ('rsa', 3, 1000000000), ('rsa2', 2, 5),
        ('elg', 4, 7), ('rsa2', 4, 2 ** 32 - 1),
        ('dsa', 4, 1000029920), ('dsa', 4, 1000092614)]


def signature_body(st, n, size):
    """a signature with a subpacket of the size given"""
    data = b'\x65' + bytes([n % 256]) * size
    data = subpacket_length(len(data)) + data
    return (b'\x04' + spec.be(st, 1) + b'\x01\x02' + spec.be(len(data), 2)
            + data + b'\x00\x00' + spec.be(n % 65536, 2) + K.mpi(n + 1))


def some_key(v, name, which, secret):
    """the packets of a key: [(tag, content)], trust packets included"""
    algorithm, version, created = which
    body = (K.secret_body if secret else K.public_body)(
        algorithm, version, created)
    out = [(5 if secret else 6, body)]

    def sigs(n, types, top):
        for i in range(v.choice(n, top)):
            ni = '%s%d' % (n, i)
            out.append((2, signature_body(
                v.choice(ni + ' type', types), v.choice(ni + ' number', 300),
                v.choice(ni + ' size', [0, 1, 5, 160, 170, 180, 250, 400]))))
            if v.choice(ni + ' trust', 3) == 0:
                out.append((12, b'\x01' + spec.be(i, 1)))
    sigs(name + ' direct', [0x1f, 0x20], 3)
    for i in range(v.choice(name + ' user ids', 3)):
        n = '%s user%d' % (name, i)
        out.append((13, ('%s %s' % (n, 'x' * v.choice(n, [
            0, 1, 150, 220, 9000]))).encode('ascii')))
        sigs(n + ' sig', [0x10, 0x13, 0x30], 3)
    for i in range(v.choice(name + ' attributes', [0, 0, 1, 2])):
        out.append((17, b'\x05\x65' + spec.be(i, 4)))
        sigs('%s attribute%d' % (name, i), [0x10], 2)
    if version == 4:
        for i in range(v.choice(name + ' subkeys', [0, 0, 1, 2])):
            out.append((7 if secret else 14,
                        (K.secret_body if secret else K.public_body)(
                            'elg', 4, (created + 1) % 2 ** 32, 16)))
            n = '%s subkey%d' % (name, i)
            out.append((2, signature_body(0x18, i, v.choice(n, [0, 200]))))
            sigs(n + ' revoked', [0x28], 2)
    return out


def octets(v, name, packets, fmt):
    """the key as it stands in a file"""
    r = b''
    for i, (tag, body) in enumerate(packets):
        f = NEW if tag > 15 else [OLD, NEW, [OLD, NEW][
            v.choice('%s %d format' % (name, i), 2)
            if fmt == 2 else 0]][fmt]
        r += some_header(v, '%s %d' % (name, i), f, tag, body)
    return r


def key_object(packets, secret, fmt=NEW):
    return CLASSES[secret].from_packets([
        P.PACKET_TYPES[t].from_packet_content(fmt, t, bytearray(b))
        for t, b in packets])


def shape(packets):
    """[(tag, content)] of packet objects"""
    return [(p.type, bytes(p.content)) for p in packets]


def kept(packets):
    return [x for x in packets if x[0] != 12]


class Model(object):
    """what a keyring is to hold: (name, packets, octets or None)"""

    def __init__(self, v, path, secret):
        self.v = v
        self.path = path
        self.secret = secret
        self.items = []

    def fp(self, which):
        return fingerprint(K.public_body(*which))

    def content(self):
        with open(self.path, 'rb') as fh:
            return fh.read()

    def check_file(self, changed=None):
        """the keys stand in the file in order; octets of those not changed
        are the same"""
        v = self.v
        groups = []
        for tag, body, raw in split(self.content()):
            if tag in (5, 6):
                groups.append([])
            v.check('the file begins with a key', bool(groups))
            groups[-1].append((tag, body, raw))
        left = list(groups)
        for which, packets, raw in self.items:
            if which == changed:
                continue
            v.check('every other key is kept in order', any(
                b''.join(x[2] for x in g) == raw for g in left))
            while b''.join(x[2] for x in left[0]) != raw:
                left.pop(0)
            left.pop(0)
        v.check_eq('number of keys', len(groups), len(self.items))
        if changed is not None:
            body = [p[0][1] for w, p, raw in self.items if w == changed]
            mine = [g for g in groups if g[0][1] in body]
            v.check_eq('the key is in the file once', len(mine), len(body))
            if body:
                want = [p for w, p, raw in self.items if w == changed][0]
                v.check_eq('packets of the key',
                           [(t, b) for t, b, raw in mine[0]], kept(want))
        # order as found
        order = []
        for g in groups:
            for w, p, raw in self.items:
                if p[0][1] == g[0][1]:
                    order.append((w, [(t, b) for t, b, r in g],
                                  b''.join(x[2] for x in g)))
        self.items = order

    def check_lookups(self, ring):
        v = self.v
        fps = [self.fp(w) for w, p, raw in self.items]
        v.check_eq('fingerprints', sorted(ring.keys()), sorted(fps))
        v.check_eq('iterated', sorted(ring), sorted(fps))
        v.check_eq('items', sorted(k for k, x in ring.items()), sorted(fps))
        for k, x in ring.items():
            v.check_eq('item', x.fingerprint, k)
        v.check_eq('values', sorted(x.fingerprint for x in ring.values()),
                   sorted(fps))
        for w, p, raw in self.items:
            f = self.fp(w)
            v.check('present', f in ring)
            k = ring.get_transferrable_key(f)
            v.check('kind of key', type(k) is CLASSES[self.secret])
            v.check_eq('key', shape(k.to_packets()), kept(p))
        for w in POOL:
            f = self.fp(w)
            short = key_id(K.public_body(*w))
            if f not in fps:
                v.check('absent', f not in ring)
                v.check_eq('lookup of an absent key',
                           v.outcome(ring.get_transferrable_key, f),
                           ('exc', 'KeyError'))
            # (a part of a key ID which does not end it identifies no key)
            for s in (short, short[-8:], short[:8], short[3:11], ''):
                found = [p for x, p, raw in self.items
                         if s and key_id(K.public_body(*x)).endswith(s)]
                got = v.outcome(ring.get_transferrable_key, s)
                if not found:
                    v.check_eq('lookup of an absent key ID', got,
                               ('exc', 'KeyError'))
                else:
                    v.check_eq('lookup by key ID', got[0], 'ok')
                    v.check('key of the ID',
                            shape(got[1].to_packets()) in
                            [kept(p) for p in found])


def start(v, secret, fmt, top=4):
    """a keyring file of some keys"""
    path = os.path.join(v.scratch(), 'ring.gpg')
    m = Model(v, path, secret)
    free = list(POOL)
    data = b''
    for i in range(v.choice('keys', top + 1)):
        w = free.pop(v.choice('key%d' % i, len(POOL)) % len(free))
        p = some_key(v, 'key%d' % i, w, secret)
        raw = octets(v, 'key%d' % i, p, fmt)
        m.items.append((w, p, raw))
        data += raw
    with open(path, 'wb') as fh:
        fh.write(data)
    return m


def no_locks(v, where, allowed=()):
    v.check_eq('no lock left', [x for x in os.listdir(where)
                                if x.endswith('.lock')], [])


@bounded(secs=25)
def histories(v):
    """up to 6 edits of keyrings of up to 4 keys out of 10, of up to about
    20 packets each"""
    secret = v.choice('secret', [False, True])
    fmt = v.choice('format', 3)
    m = start(v, secret, fmt)
    ring = gpg.Keyring(m.path, False, secret, False, False)
    m.check_lookups(ring)
    for i in range(v.choice('edits', 7)):
        n = 'edit%d' % i
        if v.choice(n + ' reopened', 4) == 0:
            ring = gpg.Keyring(m.path, False, secret, False, False)
        edit(v, n, m, ring, secret)
        m.check_lookups(ring)
    m.check_lookups(gpg.Keyring(m.path, False, secret, False, False))
    no_locks(v, v.scratch())


def edit(v, n, m, ring, secret):
    """one edit, which may be one to be refused"""
    what = v.choice(n, ['add', 'update', 'delete'])
    names = [w for w, p, raw in m.items]
    if names and v.choice(n + ' present', 2):
        w = names[v.choice(n + ' key', 100) % len(names)]
    else:
        w = POOL[v.choice(n + ' key', 100) % len(POOL)]
    p = some_key(v, n, w, secret)
    key = key_object(p, secret, v.choice(n + ' format', [NEW, OLD]))
    before = m.content()
    got = v.outcome({'add': ring.add_transferrable_key,
                     'update': ring.update_transferrable_key,
                     'delete': ring.delete_transferrable_key}[what], key)
    if (w in names) == (what == 'add'):
        v.check_eq('refused', got, ('exc', 'KeyError'))
        v.check_eq('file unchanged', m.content(), before)
        return
    v.check_eq('accepted', got, ('ok', None))
    m.items = [x for x in m.items if x[0] != w]
    if what != 'delete':
        m.items.append((w, p, None))
    m.check_file(w)


@bounded(secs=4)
def read_only(v):
    """edits of read-only keyrings of up to 4 keys"""
    secret = v.choice('secret', [False, True])
    m = start(v, secret, v.choice('format', 3))
    ring = gpg.get_resource(m.path, secret=secret, read_only=True)
    before = m.content()
    w = POOL[v.choice('edited', len(POOL))]
    key = key_object(some_key(v, 'edit', w, secret), secret)
    for f in (ring.add_transferrable_key, ring.update_transferrable_key,
              ring.delete_transferrable_key):
        v.check_eq('refused', v.outcome(f, key), ('exc', 'TypeError'))
        v.check_eq('file unchanged', m.content(), before)
    m.check_lookups(ring)


@bounded(secs=6)
def hash_files(v):
    """up to 5 edits of GDBM databases of up to 4 version 4 keys"""
    from dbm import gnu
    import _gdbm
    import threading
    # PyPy's finaliser takes the lock of its module again: it can deadlock
    _gdbm._lock = threading.RLock()
    secret = v.choice('secret', [False, True])
    path = os.path.join(v.scratch(), 'ring.gdbm')
    m = Model(v, path, secret)
    pool = [w for w in POOL if w[1] == 4]
    fmt = v.choice('format', 3)
    with gnu.open(path, 'c') as db:
        for i in range(v.choice('keys', 5)):
            w = pool[v.choice('key%d' % i, len(pool))]
            if w not in [x[0] for x in m.items]:
                p = some_key(v, 'key%d' % i, w, secret)
                raw = octets(v, 'key%d' % i, p, fmt)
                m.items.append((w, p, raw))
                db[m.fp(w)] = raw
    db = gpg.get_resource(path, secret=secret)
    v.check('recognised', type(db) is gpg.GDBM)

    def check():
        fps = [m.fp(w) for w, p, raw in m.items]
        v.check_eq('fingerprints', sorted(db.keys()), sorted(fps))
        v.check_eq('iterated', sorted(db), sorted(fps))
        v.check_eq('items', sorted((k, x.fingerprint)
                                   for k, x in db.items()),
                   sorted(zip(fps, fps)))
        for w, p, raw in m.items:
            for f in (m.fp(w), m.fp(w)[-16:]):
                k = db.get_transferrable_key(f)
                v.check_eq('key', shape(k.to_packets()), kept(p))
        for w in pool:
            if w not in [x[0] for x in m.items]:
                for f in (m.fp(w), m.fp(w)[-16:]):
                    v.check_eq('lookup of an absent key',
                               v.outcome(db.get_transferrable_key, f),
                               ('exc', 'KeyError'))
        for w in POOL:
            s = key_id(K.public_body(*w))
            for s in (s[-8:], s[:8], s[3:11], ''):
                found = [kept(p) for x, p, raw in m.items
                         if s and m.fp(x).endswith(s)]
                got = v.outcome(db.get_transferrable_key, s)
                if not found:
                    v.check_eq('lookup of an absent key ID', got,
                               ('exc', 'KeyError'))
                else:
                    v.check_eq('lookup by short key ID', got[0], 'ok')
                    v.check('key of the ID',
                            shape(got[1].to_packets()) in found)

    def raw():
        with gnu.open(path, 'r') as x:
            return dict((k, x[k]) for k in x.keys())
    check()
    for i in range(v.choice('edits', 6)):
        n = 'edit%d' % i
        what = v.choice(n, ['add', 'update', 'delete'])
        w = pool[v.choice(n + ' key', len(pool))]
        p = some_key(v, n, w, secret)
        key = key_object(p, secret)
        before = raw()
        present = w in [x[0] for x in m.items]
        got = v.outcome({'add': db.add_transferrable_key,
                         'update': db.update_transferrable_key,
                         'delete': db.delete_transferrable_key}[what], key)
        after = raw()
        if present == (what == 'add'):
            v.check_eq('refused', got, ('exc', 'KeyError'))
            v.check_eq('database unchanged', after, before)
            continue
        v.check_eq('accepted', got, ('ok', None))
        m.items = [x for x in m.items if x[0] != w]
        if what != 'delete':
            m.items.append((w, p, None))
        me = m.fp(w).encode('ascii')
        before.pop(me, None)
        after.pop(me, None)
        v.check_eq('every other key is kept', after, before)
        check()
    shut = gpg.get_resource(path, secret=secret, read_only=True)
    before = raw()
    w = pool[v.choice('refused', len(pool))]
    key = key_object(some_key(v, 'refused', w, secret), secret)
    for f in (shut.add_transferrable_key, shut.update_transferrable_key,
              shut.delete_transferrable_key):
        v.check_eq('read-only', v.outcome(f, key), ('exc', 'TypeError'))
        v.check_eq('database unchanged', raw(), before)
    no_locks(v, v.scratch())


@bounded(secs=4)
def databases(v):
    """two keyrings of up to 3 keys in one database, with up to 4 edits"""
    where = v.scratch()
    db = gpg.GPGDatabase()
    models = []
    for secret in v.choice('order', [(False, True), (True, False)]):
        d = os.path.join(where, 'sec' if secret else 'pub')
        os.mkdir(d)
        m = Model(v, os.path.join(d, 'ring.gpg'), secret)
        models.append(m)
        r = db.add_resource(v.choice('prefix', ['', 'gnupg-keyring:'])
                            + m.path, force=True, secret=secret)
        v.check('created', os.path.exists(m.path))
        v.check('keyring', type(r) is gpg.Keyring)
    for i in range(v.choice('edits', 5)):
        n = 'edit%d' % i
        m = models[v.choice(n + ' secret', 2)]
        other = [x for x in models if x is not m][0]
        what = v.choice(n, ['add', 'add', 'update', 'delete'])
        w = POOL[v.choice(n + ' key', 4)]
        p = some_key(v, n, w, m.secret)
        before = m.content(), other.content()
        got = v.outcome({'add': db.add_key, 'update': db.update_key,
                         'delete': db.delete_key}[what],
                        key_object(p, m.secret))
        v.check_eq('the other keyring is unchanged', other.content(),
                   before[1])
        if (w in [x[0] for x in m.items]) == (what == 'add'):
            v.check_eq('refused', got, ('exc', 'KeyError'))
            v.check_eq('file unchanged', m.content(), before[0])
            continue
        v.check_eq('accepted', got, ('ok', None))
        m.items = [x for x in m.items if x[0] != w]
        if what != 'delete':
            m.items.append((w, p, None))
        m.check_file(w)
    all_ = [(m, w, p) for m in models for w, p, raw in m.items]
    v.check_eq('fingerprints', sorted(db.keys()),
               sorted(m.fp(w) for m, w, p in all_))

    def same(got, want):
        v.check_eq('found', sorted(shape(k.to_packets()) for k in got),
                   sorted(kept(p) for m, w, p in want))
    v.check_eq('nothing asked', db.search(), [])
    for w in POOL[:5]:
        f = fingerprint(K.public_body(*w))
        s = key_id(K.public_body(*w))
        has = [x for x in all_ if x[1] == w]
        same(db.search(fingerprint=f), has)
        same(db.search(key_id=s), has)
    for text in ('edit0', 'USER1', 'absent'):
        def names(p):
            return any(t == 13 and text.lower().encode('ascii')
                       in b.lower() for t, b in p)
        same(db.search(user_id=text), [x for x in all_ if names(x[2])])
        for w in POOL[:4]:
            f = fingerprint(K.public_body(*w))
            same(db.search(fingerprint=f, user_id=text),
                 [x for x in all_ if x[1] == w and names(x[2])])


@bounded(secs=2)
def resources(v):
    """files opened under each kind of name"""
    path = os.path.join(v.scratch(), 'ring')
    how = v.choice('file', ['absent', 'empty', 'short', 'key', 'kbx'])
    prefix = v.choice('prefix', ['', 'gnupg-keyring:'])
    force = v.choice('force', [False, True])
    data = {'empty': b'', 'short': b'\xb4\x01a', 'absent': None,
            'key': shortest(OLD, 6, K.public_body('rsa')),
            'kbx': b'\x00\x00\x00\x20\x01\x01\x00\x02KBXf' + bytes(20)}[how]
    if data is not None:
        with open(path, 'wb') as fh:
            fh.write(data)
    got = v.outcome(gpg.get_resource, prefix + path, force=force)
    if how == 'kbx' and not prefix:
        v.check_eq('refused', got, ('exc', 'ValueError'))
    elif how == 'kbx':
        return
    elif how == 'absent' and not force:
        v.check_eq('refused', got, ('exc', 'RuntimeError'))
        v.check('not created', not os.path.exists(path))
    else:
        v.check_eq('opened', got[0], 'ok')
        v.check('keyring', type(got[1]) is gpg.Keyring)
        with open(path, 'rb') as fh:
            v.check_eq('content', fh.read(), data or b'')
        v.check_eq('keys', list(got[1].keys()), [
            fingerprint(K.public_body('rsa'))] if how == 'key' else [])
    v.check_eq('keybox refused', v.outcome(
        gpg.get_resource, 'gnupg-kbx:' + path), ('exc', 'ValueError'))


# ---- every content

def some(v):
    return {'lo': 1, 'hi': 2 ** 32 - 1} if v.symbolic else {'hi': 300}


def any_ring(v, n, private):
    """a keyring of n keys, each with a user ID and another or a packet of
    private use; -> [(fingerprint, packets, octets)]"""
    out = []
    for i in range(n):
        name = 'key%d' % i
        body, args = small_key(v, name, [(4, 1)])
        if v.symbolic:
            v.assume(args[4] >= 1)
            v.assume(args[5] >= 1)
        f = fingerprint(body)
        for g, p, raw, x in out:
            v.assume(f != g)
        uid = v.bytes(name + ' user', **some(v))
        other = v.bytes(name + ' other', **some(v))
        raw = b''
        for tag, c in ((6, body), (13, uid)):
            if v.symbolic and i % 2 or not v.symbolic and v.choice(
                    name + ' format', 2):
                raw = raw + spec.be(0xc0 + tag, 1) + b'\xff' + spec.be(
                    len(c), 4) + c
            else:
                raw = raw + spec.be(0x82 + 4 * tag, 1) + spec.be(
                    len(c), 4) + c
        raw = (raw + (b'\xfc\xff' if private else b'\xcd\xff')
               + spec.be(len(other), 4) + other)
        out.append((f, None if private else [(6, body), (13, uid),
                                             (13, other)], raw, body))
    return out


def read_file(path):
    with open(path, 'rb') as fh:
        return fh.read()


def one_of(v, name, x, options):
    ok = False
    for o in options:
        if spec.eqbytes(x, o):
            ok = True
            break
    v.check(name, ok)


def a_key(v, body):
    """a key of the primary key's octets, and its packets"""
    if v.symbolic:
        v.assume(len(body) >= 256)
        v.assume(len(body) < 8384)
    uid = v.bytes('new user', **some(v))
    packets = [(6, body), (13, uid)]
    return key_object(packets, False), packets


def another(v, items, name='new'):
    body, args = small_key(v, name, [(4, 1)])
    if v.symbolic:
        v.assume(args[4] >= 1)
        v.assume(args[5] >= 1)
    f = fingerprint(body)
    for g, p, raw, x in items:
        v.assume(f != g)
    return body, f


def encodings(packets):
    return [b''.join([shortest(fmt, t, b) for t, b in packets])
            for fmt in (OLD, NEW)]


def opened(v, top, least=0, read_only=False, private=False):
    n = v.choice('number of keys', list(range(least, top + 1)))
    items = any_ring(v, n, private)
    path = os.path.join(v.scratch(), 'ring.gpg')
    with open(path, 'wb') as fh:
        fh.write(b''.join([raw for f, p, raw, x in items]))
    ring = gpg.Keyring(path, False, False, read_only, False)
    return items, path, ring


def joined(items):
    return b''.join([raw for f, p, raw, x in items])


def looked_up(v, ring, items):
    """lookups return the keys of the file"""
    v.check_eq('fingerprints', sorted(ring.keys()) if not v.symbolic
               else list(ring.keys()),
               sorted([f for f, p, raw, x in items]) if not v.symbolic
               else [f for f, p, raw, x in items])
    for f, p, raw, x in items:
        if p is None:
            continue
        k = ring.get_transferrable_key(f)
        got = k.to_packets()
        v.check_eq('number of packets', len(got), len(p))
        for q, (t, b) in zip(got, p):
            v.check_eq('type of the packet', q.type, t)
            v.check('content of the packet', spec.eqbytes(q.content, b))


@harness(cost=2)
def adding_a_key(v):
    items, path, ring = opened(v, 2, private=v.choice('private', [False, True]))
    body, f = another(v, items)
    key, packets = a_key(v, body)
    ring.add_transferrable_key(key)
    after = read_file(path)
    one_of(v, 'the other keys are as they were, the key is added', after,
           [joined(items[:i]) + e + joined(items[i:])
            for e in encodings(packets)
            for i in reversed(range(len(items) + 1))])
    looked_up(v, ring, items + [(f, packets, None, None)])


def change(v, at, delete):
    items, path, ring = opened(v, 3, at + 1, private=v.choice(
        'private', [False, True]))
    v.assume(at < len(items))
    f, p, raw, body = items[at]
    key, packets = a_key(v, body)
    rest = items[:at] + items[at + 1:]
    if delete:
        ring.delete_transferrable_key(key)
        v.check_eq('the other keys are as they were, the key is gone',
                   read_file(path), joined(rest))
        looked_up(v, ring, rest)
    else:
        ring.update_transferrable_key(key)
        after = read_file(path)
        one_of(v, 'the other keys are as they were, the key is changed',
               after, [joined(rest[:i]) + e + joined(rest[i:])
                       for e in encodings(packets)
                       for i in reversed(range(len(rest) + 1))])
        looked_up(v, ring, rest + [(f, packets, None, None)])


@harness(cost=2)
def updating_the_first_key(v):
    change(v, 0, False)


@harness(cost=2)
def updating_the_second_key(v):
    change(v, 1, False)


@harness(cost=2)
def updating_the_third_key(v):
    change(v, 2, False)


@harness(cost=2)
def deleting_the_first_key(v):
    change(v, 0, True)


@harness(cost=2)
def deleting_the_second_key(v):
    change(v, 1, True)


@harness(cost=2)
def deleting_the_third_key(v):
    change(v, 2, True)


@harness(cost=2)
def edits_refused(v):
    read_only = v.choice('read only', [False, True])
    items, path, ring = opened(v, 2, read_only=read_only)
    before = read_file(path)
    what = v.choice('edit', ['add', 'update', 'delete'])
    if items and (what == 'add' or read_only):
        f, p, raw, body = items[v.choice('key', len(items))]
    else:
        v.assume(what != 'add' or read_only)
        body, f = another(v, items)
    key, packets = a_key(v, body)
    edit = {'add': ring.add_transferrable_key,
            'update': ring.update_transferrable_key,
            'delete': ring.delete_transferrable_key}[what]
    v.check_eq('refused', v.outcome(edit, key),
               ('exc', 'TypeError' if read_only else 'KeyError'))
    v.check_eq('file unchanged', read_file(path), before)
    looked_up(v, ring, items)


@harness(cost=2)
def lookups(v):
    items, path, ring = opened(v, 3)
    before = read_file(path)
    looked_up(v, ring, items)
    body, f = another(v, items)
    v.check_eq('lookup of an absent key',
               v.outcome(ring.get_transferrable_key, f), ('exc', 'KeyError'))
    v.check('absent', f not in ring)
    v.check_eq('file unchanged', read_file(path), before)
    v.check_eq('no lock left', os.path.exists(path + '.lock'), False)
