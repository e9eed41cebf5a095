from vc import bounded, harness, spec
from pgp.packets import constants
from pgp.packets import packets as P
from pgp import s2k

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE


def mpi(i):
    """RFC 4880 3.2, independent of the code"""
    n = spec.bitlen(i)
    return spec.be(n, 2) + spec.be(i, spec.cdiv(n, 8))


def parse(v, tag, body, both=True):
    fmt = v.choice('header', [NEW, OLD]) if both and tag < 16 else NEW
    p = P.PACKET_TYPES[tag].from_packet_content(fmt, tag, bytearray(body))
    v.check_eq('tag', p.type, tag)
    v.check_eq('header format', p.header_format, fmt)
    return p


def number(v, name):
    i = v.nat(name)
    v.assume(spec.bitlen(i) <= 65535)
    return i


def again(v, tag, body, p, built):
    """what was parsed is written as it was read; a packet built from the
    same values is the same packet and is written as those octets"""
    v.check('written as read', spec.eqbytes(p.content, body))
    v.check('built packet is written as those octets',
            spec.eqbytes(built.content, body))
    v.check('built packet equals the one read back', built == p)


@harness()
def public_key_session_key(v):
    version = v.int('version', 0, 255)
    kid = v.bytes('key_id', 8)
    alg = v.int('alg', 0, 255)
    esk = v.bytes('esk')
    body = spec.be(version, 1) + kid + spec.be(alg, 1) + esk
    p = parse(v, 1, body)
    v.check_eq('version', p.version, version)
    v.check_eq('algorithm', p.public_key_algorithm, alg)
    v.check_eq('session key', p.encrypted_session_key, esk)
    if p.key_id is None:
        v.check_eq('wildcard key ID', spec.ival(kid), 0)
    else:
        v.check_eq('key ID', bytes.fromhex(p.key_id), kid)
    built = P.PublicKeyEncryptedSessionKeyPacket(
        p.header_format, version, p.key_id, alg, bytearray(esk))
    again(v, 1, body, p, built)


@harness()
def signature_v3(v):
    version = v.choice('version', [2, 3])
    st = v.int('type', 0, 255)
    t = v.int('time', 0, 2 ** 32 - 1)
    kid = v.bytes('key_id', 8)
    pk = v.int('pk', 0, 255)
    h = v.int('hash', 0, 255)
    h2 = v.bytes('hash2', 2)
    k = v.choice('values', [1, 2])
    vals = [number(v, 'v%d' % i) for i in range(k)]
    body = (spec.be(version, 1) + b'\x05' + spec.be(st, 1) + spec.be(t, 4)
            + kid + spec.be(pk, 1) + spec.be(h, 1) + h2)
    for x in vals:
        body = body + mpi(x)
    p = parse(v, 2, body)
    v.check_eq('version', p.version, version)
    v.check_eq('signature type', p.signature_type, st)
    v.check_eq('creation time', p.creation_time, t)
    v.check_eq('key ID', bytes.fromhex(p.key_id), kid)
    v.check_eq('key algorithm', p.public_key_algorithm, pk)
    v.check_eq('hash algorithm', p.hash_algorithm, h)
    v.check_eq('hash prefix', p.hash2, h2)
    v.check_eq('values', p.signature_values, vals)
    built = P.SignaturePacket(p.header_format, version, st, pk, h,
                              bytearray(h2), vals, t, p.key_id)
    again(v, 2, body, p, built)


@harness()
def signature_v4(v):
    st = v.int('type', 0, 255)
    pk = v.int('pk', 0, 255)
    h = v.int('hash', 0, 255)
    h2 = v.bytes('hash2', 2)
    counts = v.choice('subpackets', [
        {'hashed': 0, 'unhashed': 1, 'values': 1, 'top': 65529},
        {'hashed': 1, 'unhashed': 0, 'values': 2, 'top': 65529},
        {'hashed': 1, 'unhashed': 1, 'values': 2, 'top': 190},
        {'hashed': 2, 'unhashed': 1, 'values': 1, 'top': 190}])
    vals = [number(v, 'v%d' % i) for i in range(counts['values'])]
    areas = []
    for name in ('hashed', 'unhashed'):
        area = b''
        for j in range(counts[name]):
            crit = v.int('%s%d_critical' % (name, j), 0, 1)
            data = v.bytes('%s%d_value' % (name, j), hi=counts['top'])
            area = area + subpacket_length(len(data) + 1) + spec.be(
                100 + 128 * crit, 1) + data
        areas.append(area)
    body = (b'\x04' + spec.be(st, 1) + spec.be(pk, 1) + spec.be(h, 1)
            + spec.be(len(areas[0]), 2) + areas[0]
            + spec.be(len(areas[1]), 2) + areas[1] + h2)
    for x in vals:
        body = body + mpi(x)
    p = parse(v, 2, body, not v.symbolic)
    v.check_eq('version', p.version, 4)
    v.check_eq('signature type', p.signature_type, st)
    v.check_eq('key algorithm', p.public_key_algorithm, pk)
    v.check_eq('hash algorithm', p.hash_algorithm, h)
    v.check_eq('hash prefix', p.hash2, h2)
    v.check_eq('values', p.signature_values, vals)
    got = b''
    for sp in p.hashed_subpackets:
        got = got + bytes(sp)
    v.check_eq('hashed area', got, areas[0])
    got = b''
    for sp in p.unhashed_subpackets:
        got = got + bytes(sp)
    v.check_eq('unhashed area', got, areas[1])
    v.check('written as read', spec.eqbytes(p.content, body))
    built = P.SignaturePacket(p.header_format, 4, st, pk, h, bytearray(h2),
                              vals, None, None, list(p.hashed_subpackets),
                              list(p.unhashed_subpackets))
    v.check('built packet is written as those octets',
            spec.eqbytes(built.content, body))


def subpacket_length(n):
    if n < 192:
        return spec.be(n, 1)
    if n < 8384:
        return (spec.be((n - 192) // 256 + 192, 1)
                + spec.be((n - 192) % 256, 1))
    return b'\xff' + spec.be(n, 4)


@harness()
def passphrase_session_key(v):
    version = v.int('version', 0, 255)
    alg = v.int('alg', 0, 255)
    spb, check, built = specifier(v, alg)
    esk = v.bytes('esk')
    body = spec.be(version, 1) + spec.be(alg, 1) + spb + esk
    p = parse(v, 3, body)
    v.check_eq('version', p.version, version)
    v.check_eq('algorithm', p.symmetric_algorithm, alg)
    check(p.s2k_specification)
    if len(esk) == 0:
        v.check('no session key', p.encrypted_session_key is None)
    else:
        v.check_eq('session key', p.encrypted_session_key, esk)
    built = P.SymmetricKeyEncryptedSessionKeyPacket(
        p.header_format, version, alg, built,
        None if len(esk) == 0 else bytearray(esk))
    again(v, 3, body, p, built)


def specifier(v, alg, exponents=16):
    """octets of a string-to-key specifier, a check of the parsed object and
    an object built from the values"""
    kind = v.choice('s2k', [0, 1, 3])
    h = v.int('s2k_hash', 0, 255)
    if kind == 0:
        def check0(s):
            v.check('S2K kind', type(s) is s2k.SimpleS2K)
            v.check_eq('S2K hash', s.hash_algorithm, h)
            v.check_eq('S2K cipher', s.symmetric_algorithm, alg)
        return b'\x00' + spec.be(h, 1), check0, s2k.SimpleS2K(h, alg)
    salt = v.bytes('salt', 8)
    if kind == 1:
        def check1(s):
            v.check('S2K kind', type(s) is s2k.SaltedS2K)
            v.check_eq('S2K hash', s.hash_algorithm, h)
            v.check_eq('S2K cipher', s.symmetric_algorithm, alg)
            v.check_eq('S2K salt', s.salt, salt)
        return (b'\x01' + spec.be(h, 1) + salt, check1,
                s2k.SaltedS2K(h, alg, bytearray(salt)))
    x = v.choice('count_exponent', exponents)
    m = v.int('count_mantissa', 0, 15)
    c = 16 * x + m
    n = (16 + m) * 2 ** (x + 6)

    def check3(s):
        v.check('S2K kind', type(s) is s2k.IteratedAndSaltedS2K)
        v.check_eq('S2K hash', s.hash_algorithm, h)
        v.check_eq('S2K cipher', s.symmetric_algorithm, alg)
        v.check_eq('S2K salt', s.salt, salt)
        v.check_eq('S2K count', s.count, n)
    return (b'\x03' + spec.be(h, 1) + salt + spec.be(c, 1), check3,
            s2k.IteratedAndSaltedS2K(h, alg, bytearray(salt), n))


@harness()
def one_pass_signature(v):
    version = v.int('version', 0, 255)
    st = v.int('type', 0, 255)
    h = v.int('hash', 0, 255)
    pk = v.int('pk', 0, 255)
    kid = v.bytes('key_id', 8)
    nested = v.int('nested', 0, 255)
    body = (spec.be(version, 1) + spec.be(st, 1) + spec.be(h, 1)
            + spec.be(pk, 1) + kid + spec.be(nested, 1))
    p = parse(v, 4, body)
    v.check_eq('version', p.version, version)
    v.check_eq('signature type', p.signature_type, st)
    v.check_eq('hash algorithm', p.hash_algorithm, h)
    v.check_eq('key algorithm', p.public_key_algorithm, pk)
    v.check_eq('key ID', bytes.fromhex(p.key_id), kid)
    v.check_eq('nested', p.nested, nested)
    built = P.OnePassSignaturePacket(p.header_format, version, st, h, pk,
                                     p.key_id, nested)
    again(v, 4, body, p, built)


RSA = ('modulus', 'exponent')
ELGAMAL = ('prime', 'group_generator', 'key_value')
DSA = ('prime', 'group_order', 'group_generator', 'key_value')
FIELDS = {1: RSA, 2: RSA, 3: RSA, 16: ELGAMAL, 20: ELGAMAL, 17: DSA}


def public_part(v, kinds):
    version, alg = v.choice('kind', kinds)
    t = v.int('time', 0, 2 ** 32 - 1)
    body = spec.be(version, 1) + spec.be(t, 4)
    days = None
    if version < 4:
        days = v.int('days', 0, 65535)
        body = body + spec.be(days, 2)
    body = body + spec.be(alg, 1)
    vals = {}
    for f in FIELDS[alg]:
        vals[f] = number(v, f)
        body = body + mpi(vals[f])
    args = [version, t, alg, days] + [
        vals.get(f) for f in ('modulus', 'exponent', 'prime', 'group_order',
                              'group_generator', 'key_value')]

    def check(p):
        v.check_eq('version', p.version, version)
        v.check_eq('creation time', p.creation_time, t)
        v.check_eq('algorithm', p.public_key_algorithm, alg)
        v.check_eq('expiration days', p.expiration_days, days)
        for f in ('modulus', 'exponent', 'prime', 'group_order',
                  'group_generator', 'key_value'):
            v.check_eq(f, getattr(p, f), vals.get(f))
    return body, args, check


@harness()
def public_key(v):
    tag = v.choice('tag', [6, 14])
    body, args, check = public_part(v, [
        (x, a) for x in (2, 3, 4) for a in (1, 2, 3, 16, 17, 20)])
    p = parse(v, tag, body)
    check(p)
    built = P.PACKET_TYPES[tag](p.header_format, *args)
    again(v, tag, body, p, built)
    v.check('public part', spec.eqbytes(p.public_content, body))


BLOCKS = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
          12: 16, 13: 16}


def secret_body(v, kinds):
    """the secret part for each protection; expectations of the packet"""
    kind = v.choice('protection', kinds)
    if kind == 'none':
        rest = v.bytes('secret', lo=1)
        return (b'\x00' + rest, 0, None, rest, True, False,
                lambda s: v.check('no S2K', s is None), None)
    alg = v.choice('cipher', [2, 9] if v.symbolic else sorted(BLOCKS))
    if kind == 'legacy':
        iv = v.bytes('iv', BLOCKS[alg])
        rest = v.bytes('secret', lo=1)
        return (spec.be(alg, 1) + iv + rest, alg, iv, rest, True, False,
                lambda s: v.check('no S2K', s is None), None)
    usage = 255 if kind == 'checksum' else 254
    if kind in ('sha1', 'checksum'):
        sp, check, built = specifier(v, alg, [0, 15] if v.symbolic else 16)
        iv = v.bytes('iv', BLOCKS[alg])
        rest = v.bytes('secret', lo=1)
        return (spec.be(usage, 1) + spec.be(alg, 1) + sp + iv + rest, alg, iv,
                rest, usage == 255, usage == 254, check, built)
    h = v.int('s2k_hash', 0, 255)
    if kind == 'gnu-dummy':
        sp = b'\x65' + spec.be(h, 1) + b'GNU\x01'
        built = s2k.GnuPGS2K(h, 1001, alg)
        serial = None
    else:
        serial = v.bytes('serial', v.choice('serial_len', [0, 1, 16]
                                             if v.symbolic else 256))
        sp = (b'\x65' + spec.be(h, 1) + b'GNU\x02' + spec.be(len(serial), 1)
              + serial)
        built = s2k.GnuPGS2K(h, 1002, alg, serial.hex().upper(), len(serial))

    def check(s):
        v.check('S2K kind', type(s) is s2k.GnuPGS2K)
        v.check_eq('S2K hash', s.hash_algorithm, h)
        v.check_eq('S2K cipher', s.symmetric_algorithm, alg)
        v.check_eq('GnuPG mode', s.mode, 1001 if serial is None else 1002)
        if serial is not None:
            v.check_eq('serial number', bytes.fromhex(s.serial_number),
                       serial)
    rest = v.bytes('secret')
    return (spec.be(usage, 1) + spec.be(alg, 1) + sp + rest, alg, None, rest,
            False, True, check, built)


@harness()
def secret_key_unprotected_or_legacy(v):
    secret_key(v, ['none', 'legacy'])


@harness()
def secret_key_protected(v):
    secret_key(v, ['sha1', 'checksum'])


@harness()
def secret_key_without_secrets(v):
    secret_key(v, ['gnu-dummy', 'gnu-card'])


def secret_key(v, kinds):
    tag = v.choice('tag', [5, 7])
    pub, args, check = public_part(v, [
        (4, 1), (3, 16)] if v.symbolic else [
        (x, a) for x in (2, 3, 4) for a in (1, 2, 3, 16, 17, 20)])
    sec, alg, iv, rest, checksum, hash_, s2kcheck, s2kbuilt = secret_body(
        v, kinds)
    body = pub + sec
    p = parse(v, tag, body, not v.symbolic)
    check(p)
    v.check_eq('cipher', p.symmetric_algorithm, alg)
    v.check_eq('encrypted portion', p.encrypted_portion, rest)
    v.check_eq('checksum', p.checksum, checksum)
    v.check_eq('hash', p.hash, hash_)
    v.check_eq('iv', p.iv, iv)
    s2kcheck(p.s2k_specification)
    built = P.PACKET_TYPES[tag](
        p.header_format, *(args + [s2kbuilt, alg,
                                   None if iv is None else bytearray(iv),
                                   bytearray(rest), checksum, hash_]))
    again(v, tag, body, p, built)
    v.check('public part', spec.eqbytes(p.public_content, pub))


@harness()
def compressed_and_encrypted(v):
    tag = v.choice('tag', [8, 9, 18, 19])
    if tag == 8:
        a = v.int('alg', 0, 255)
        data = v.bytes('data')
        body = spec.be(a, 1) + data
        p = parse(v, tag, body)
        v.check_eq('algorithm', p.compression_algorithm, a)
        v.check_eq('data', p.compressed_data, data)
        built = P.CompressedDataPacket(p.header_format, a, bytearray(data))
    elif tag == 9:
        body = v.bytes('data')
        p = parse(v, tag, body)
        v.check_eq('data', p.data, body)
        built = P.SymmetricallyEncryptedDataPacket(p.header_format,
                                                   bytearray(body))
    elif tag == 18:
        a = v.int('version', 0, 255)
        data = v.bytes('data')
        body = spec.be(a, 1) + data
        p = parse(v, tag, body)
        v.check_eq('version', p.version, a)
        v.check_eq('data', p.encrypted_data, data)
        built = P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(
            p.header_format, a, bytearray(data))
    else:
        body = v.bytes('data', 20)
        p = parse(v, tag, body)
        v.check_eq('data', p.data, body)
        built = P.ModificationDetectionCodePacket(p.header_format,
                                                  bytearray(body))
    again(v, tag, body, p, built)


@harness()
def marker(v):
    body = v.bytes('data')
    p = parse(v, 10, body)
    v.check_eq('data', p.content, body)
    v.check_eq('old literal packet', p.old_literal, body != b'PGP')
    built = P.MarkerPacket(p.header_format, bytearray(body), body != b'PGP')
    again(v, 10, body, p, built)


@harness()
def binary_literal(v):
    f = v.choice('format', [b'b', b'l', b'1'])
    name = v.text('name', hi=255)
    t = v.int('time', 0, 2 ** 32 - 1)
    data = v.bytes('data')
    raw = name.encode('utf8')
    body = f + spec.be(len(raw), 1) + raw + spec.be(t, 4) + data
    p = parse(v, 11, body)
    v.check_eq('format', p.data_format, f)
    v.check_eq('file name', p.filename, name)
    v.check_eq('time', p.time, t)
    v.check_eq('data', p.data, data)
    built = P.LiteralDataPacket(p.header_format, f, name, t, bytearray(data))
    again(v, 11, body, p, built)


@harness()
def text_literal(v):
    f = v.choice('format', [b't', b'u'])
    name = v.text('name', hi=255)
    t = v.int('time', 0, 2 ** 32 - 1)
    text = v.text('text')
    raw = name.encode('utf8')
    body = f + spec.be(len(raw), 1) + raw + spec.be(t, 4) + text.encode(
        'latin-1' if f == b't' else 'utf8')
    p = parse(v, 11, body)
    v.check_eq('format', p.data_format, f)
    v.check_eq('file name', p.filename, name)
    v.check_eq('time', p.time, t)
    v.check_eq('text', p.data, text)
    built = P.LiteralDataPacket(p.header_format, f, name, t, text)
    again(v, 11, body, p, built)


@harness()
def trust(v):
    body = v.bytes('data', lo=1)
    v.assume(not (len(body) == 2 and body[0] == 0 and body[1] >= 128))
    p = parse(v, 12, body)
    v.check_eq('trust value', p.trust_value, body[0])
    if body[0] == 0 and len(body) == 2:
        v.check_eq('signature cache', p.sig_cache, body[1])
        v.check_eq('checked', p.checked, body[1] % 2 == 1)
        v.check_eq('valid', p.valid, body[1] // 2 % 2 == 1)
    else:
        v.check('no signature cache', p.sig_cache is None)
    v.check('written as read', spec.eqbytes(p.content, body))
    if len(body) == 1:
        again(v, 12, body, p, P.TrustPacket(p.header_format, p.trust_value))


@harness()
def texts(v):
    tag = v.choice('tag', [13, 16, 61])
    text = v.text('text')
    body = text.encode('utf8')
    p = parse(v, tag, body)
    v.check_eq('text', p.user_id if tag == 13 else p.comment, text)
    built = P.PACKET_TYPES[tag](p.header_format, text)
    again(v, tag, body, p, built)


@harness()
def gpg_control(v):
    mark = v.bytes('marker', 8)
    c = v.int('control', 0, 255)
    data = v.bytes('data')
    body = mark + spec.be(c, 1) + data
    p = parse(v, 63, body)
    v.check_eq('session marker', p.session_marker, mark)
    v.check_eq('control', p.control, c)
    v.check_eq('data', p.content_data, data)
    built = P.GpgControlPacket(p.header_format, bytearray(mark), c,
                               bytearray(data))
    again(v, 63, body, p, built)


@harness()
def user_attribute(v):
    body = b''
    for j in range(v.choice('subpackets', [0, 1, 2])):
        data = v.bytes('value%d' % j, hi=70000)
        body = body + subpacket_length(len(data) + 1) + spec.be(
            v.choice('type%d' % j, [2, 100, 110]), 1) + data
    p = parse(v, 17, body)
    built = P.UserAttributePacket(p.header_format, list(p.subpackets))
    again(v, 17, body, p, built)


@bounded(secs=3)
def any_text(v):
    """user IDs, comments, literal file names and texts of up to some hundred
    characters of every plane; user IDs and file names of arbitrary octets"""
    tag = v.choice('tag', [11, 13, 16, 61])
    if tag == 13 and v.bool('octets'):
        body = v.bytes('raw')
        p = parse(v, tag, body)
        again(v, tag, body, p, P.UserIDPacket(p.header_format, p.user_id))
        return
    text = v.text('text', maxchar=0x10ffff)
    if tag != 11:
        body = text.encode('utf8')
        p = parse(v, tag, body)
        v.check_eq('text', p.user_id if tag == 13 else p.comment, text)
        again(v, tag, body, p, P.PACKET_TYPES[tag](p.header_format, text))
        return
    raw = (v.bytes('rawname', hi=255) if v.bool('octets')
           else v.text('name', hi=60, maxchar=0x10ffff).encode('utf8'))
    f = v.choice('format', [b't', b'u'])
    if f == b't':
        text = v.text('text8', maxchar=255)
    body = (f + spec.be(len(raw), 1) + raw + spec.be(v.int('t', 0, 2**32 - 1),
                                                     4)
            + text.encode('latin-1' if f == b't' else 'utf8'))
    p = parse(v, 11, body)
    v.check_eq('text', p.data, text)
    again(v, 11, body, p, P.LiteralDataPacket(p.header_format, f, p.filename,
                                              p.time, text))
