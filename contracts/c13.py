import base64
import warnings

from vc import bounded, contract, harness, octets, spec
from pgp import armor
from pgp.crc24 import crc24

contract('pgp.crc24.crc24', [octets], lambda data: spec.crc24(data))


@harness()
def checksum(v):
    data = v.bytes('data')
    v.check_eq('CRC-24', crc24(data), spec.crc24(data))
    v.check_eq('CRC-24 of a mutable buffer', crc24(bytearray(data)),
               spec.crc24(data))


ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
NAMES = {armor.PGP_MESSAGE: 'MESSAGE',
         armor.PGP_PUBLIC_KEY_BLOCK: 'PUBLIC KEY BLOCK',
         armor.PGP_PRIVATE_KEY_BLOCK: 'PRIVATE KEY BLOCK',
         armor.PGP_SIGNATURE: 'SIGNATURE'}
KEYS = ['Version', 'Comment', 'MessageID', 'Hash', 'Charset']


def b64(data):
    """RFC 4880 6.3"""
    out = ''
    for i in range(0, len(data), 3):
        part = data[i:i + 3]
        n = int.from_bytes(part + bytes(3 - len(part)), 'big')
        c = [ALPHA[(n >> (18 - 6 * j)) & 63] for j in range(4)]
        for j in range(3 - len(part)):
            c[3 - j] = '='
        out += ''.join(c)
    return out


BREAKS = '\n\r\x0b\x0c\x1c\x1d\x1e'


def parts_of(v):
    t = v.choice('type', sorted(NAMES))
    part = total = None
    if t == armor.PGP_MESSAGE and v.bool('multipart'):
        part = v.int('part', 1, 999)
        if v.bool('total_known'):
            total = part + v.int('more', 0, 99)
    hs = []
    for i, k in enumerate(KEYS):
        hs.append(v.text('header%d' % i, hi=60, without=BREAKS)
                  if v.bool('has%d' % i) else None)
    extra = {}
    for i in range(v.int('extras', 0, 2)):
        extra['X-%d' % i] = v.text('extra%d' % i, hi=60, without=BREAKS)
    return t, part, total, hs, extra


def write(t, part, total, hs, extra, encoded, crc, width=64, eol='\n'):
    """RFC 4880 6.2"""
    tail = 'PGP ' + NAMES[t]
    if part is not None:
        tail += ', PART %d' % part
        if total is not None:
            tail += '/%d' % total
    lines = ['-----BEGIN ' + tail + '-----']
    lines += ['%s: %s' % x for x in zip(KEYS, hs) if x[1] is not None]
    lines += ['%s: %s' % x for x in sorted(extra.items())]
    lines.append('')
    lines += [encoded[i:i + width] for i in range(0, len(encoded), width)]
    lines.append('=' + b64(crc.to_bytes(3, 'big')))
    lines.append('-----END ' + tail + '-----')
    return eol.join(lines) + eol


def compare(v, a, t, part, total, hs, extra, data):
    v.check_eq('data', bytes(a), data)
    v.check_eq('type', a.data_type, t)
    v.check_eq('part', (a.part, a.total_parts), (part, total))
    v.check_eq('headers', [a.version, a.comment, a.message_id,
                           a.hash_algorithms, a.charset], hs)
    v.check_eq('additional headers', a.extra_headers or {}, extra)


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a)


@bounded(secs=4)
def armored(v):
    """random octet strings (to 9000 octets) and header lines: what is written
    is read back, and is the RFC's"""
    t, part, total, hs, extra = parts_of(v)
    data = v.bytes('data')
    text = str(armor.ASCIIArmor(t, data, part, total, *hs,
                                extra_headers=extra or None))
    a = quiet(armor.ASCIIArmor.from_ascii, text)
    compare(v, a, t, part, total, hs, extra, data)
    lines = text.split('\n')
    v.check_eq('armored octets', ''.join(lines[lines.index('') + 1:-3]),
               b64(data))
    v.check_eq('armor checksum', lines[-3],
               '=' + b64(spec.crc24(data).to_bytes(3, 'big')))
    v.check('no line is longer than 76 characters',
            all(len(x) <= 76 for x in lines[lines.index('') + 1:]))
    v.check_eq('armored again', str(a), text)
    v.check('recognised', armor.is_armor(text)
            and armor.is_armor(text.encode('ascii')))


@bounded(secs=4)
def read_foreign_armor(v):
    """armor written by an independent encoder, in line widths from 4 to 76
    and both line endings, with leading blank lines"""
    t, part, total, hs, extra = parts_of(v)
    data = v.bytes('data')
    text = write(t, part, total, hs, extra, b64(data), spec.crc24(data),
                 4 * v.int('width', 1, 19), v.choice('eol', ['\n', '\r\n']))
    text = v.choice('lead', ['', '\n', ' \n\n']) + text
    compare(v, quiet(armor.ASCIIArmor.from_ascii, text), t, part, total, hs,
            extra, data)


@bounded(secs=4)
def corrupted(v):
    """one to four characters of the armored octets or of the checksum
    changed; the reader must not return other octets than the checksum's"""
    data = v.bytes('data', lo=1)
    enc = list(b64(data))
    crc = list(b64(spec.crc24(data).to_bytes(3, 'big')))
    where = v.choice('where', [enc, crc])
    for i in range(v.int('changes', 1, 4)):
        at = v.int('at%d' % i, 0, len(where) - 1)
        if where[at] != '=':
            where[at] = v.choice('char%d' % i, ALPHA)
    new = base64.b64decode(''.join(enc))
    got = int.from_bytes(base64.b64decode(''.join(crc)), 'big')
    t = v.choice('type', sorted(NAMES))
    text = write(t, None, None, [None] * 5, {}, ''.join(enc), 0)
    text = text.replace('=AAAA', '=' + ''.join(crc))
    r = v.outcome(quiet, armor.ASCIIArmor.from_ascii, text)
    if spec.crc24(new) == got:
        v.check_eq('accepted', r[0], 'ok')
        v.check_eq('octets', bytes(r[1]), new)
    else:
        v.check_eq('rejected', r[0], 'exc')


@bounded(secs=2)
def cut_short(v):
    """armor cut short anywhere before its checksum is complete never yields
    octets"""
    data = v.bytes('data')
    text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data))
    end = text.rindex('\n=') + 5
    k = v.int('cut', 0, end - 1)
    r = v.outcome(quiet, armor.ASCIIArmor.from_ascii, text[:k])
    v.check_eq('rejected', r[0], 'exc')


@bounded(secs=1)
def fed(v):
    """the checksum is the same for every kind of octet sequence (to 9000
    octets)"""
    data = v.bytes('data')
    for kind in (bytearray, list, tuple, memoryview, iter):
        v.check_eq('CRC-24', crc24(kind(data)), spec.crc24(data))
