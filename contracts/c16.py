"""Identifiers select the primitives RFC 4880 section 9 assigns; compression
loses nothing."""
import bz2
import datetime
import zlib

from Crypto.Cipher import AES, Blowfish, CAST, DES3
from Crypto.Hash import MD5, RIPEMD, SHA, SHA224, SHA256, SHA384, SHA512
from Crypto.PublicKey import DSA, ElGamal, RSA

from vc import bounded, harness, spec
from pgp import message, utils
from pgp.packets import constants, packets

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
HASHES = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384, 10: SHA512,
          11: SHA224}
SIZES = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}
BLOCKS = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
          12: 16, 13: 16}
KEYS = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
        12: 24, 13: 32}


@harness()
def hashes(v):
    """9.4: every identifier, any data"""
    t = v.int('type', 0, 255)
    r = v.outcome(utils.get_hash_instance, t)
    if t in HASHES:
        v.check_eq('known', r[0], 'ok')
        h = r[1]
        data = v.bytes('data')
        h.update(data)
        v.check_eq('digest', bytes(h.digest()),
                   bytes(HASHES[int(t)].new(data).digest()))
        v.check_eq('size', utils.hash_lengths[t], SIZES[int(t)])
        v.check_eq('digest size', len(h.digest()), SIZES[int(t)])
    else:
        v.check_eq('refused', r[0], 'exc')
        v.check('no size', t not in utils.hash_lengths)


@harness()
def sizes(v):
    """9.2: block and key sizes of every identifier"""
    t = v.int('type', 1, 255)
    if t in BLOCKS:
        v.check_eq('block size', utils.symmetric_cipher_block_lengths[t],
                   BLOCKS[int(t)])
        v.check_eq('key size', utils.symmetric_cipher_key_lengths[t],
                   KEYS[int(t)])
    else:
        v.check('unknown', t not in utils.symmetric_cipher_block_lengths
                and t not in utils.symmetric_cipher_key_lengths)


@harness()
def ciphers(v):
    """the PyCrypto ciphers in CFB mode, any key, IV and data; every
    identifier that is not a cipher is refused"""
    t = v.int('type', 1, 255)
    v.assume(t not in (1, 10, 11, 12, 13))
    key = v.bytes('key', KEYS[int(t)] if t in KEYS else 16)
    iv = v.bytes('iv', BLOCKS[int(t)] if t in KEYS else 16)
    seg = v.choice('segment', [None, 8])
    r = v.outcome(utils.get_symmetric_cipher, t, key, utils.CFB, iv, seg)
    if t in KEYS:
        v.check_eq('known', r[0], 'ok')
        data = v.bytes('data')
        n = BLOCKS[int(t)] if seg is None else 1
        v.assume(len(data) % n == 0)
        cls = {2: DES3, 3: CAST, 4: Blowfish, 7: AES, 8: AES, 9: AES}[int(t)]
        v.check_eq('output', bytes(r[1].encrypt(data)), bytes(cls.new(
            key, 3, IV=iv, segment_size=8 * n).encrypt(data)))
    else:
        v.check_eq('refused', r[0], 'exc')


@harness()
def public_keys(v):
    """9.1"""
    t = v.int('type', 0, 255)
    r = v.outcome(utils.get_public_key_constructor, t)
    kinds = {1: RSA, 2: RSA, 3: RSA, 16: ElGamal, 17: DSA, 20: ElGamal}
    if t in kinds:
        v.check_eq('known', r[0], 'ok')
        v.check('constructor', r[1] == kinds[int(t)].construct)
    else:
        v.check_eq('refused', r[0], 'exc')


@harness()
def compression(v):
    """any data in up to three pieces, compressed at any level and read back
    in up to two"""
    t = v.choice('type', [0, 1, 2, 3])
    level = None if v.choice('default', 2) else v.int('level', 1, 9)
    n = v.choice('pieces', [1, 3])
    m = v.choice('pieces back', [1, 2])
    data = b''
    c = utils.get_compression_instance(t, level)
    out = b''
    for i in range(n):
        part = v.bytes('part%d' % i)
        data = data + part
        out = out + c.compress(part)
    out = out + c.flush()
    d = utils.get_compression_instance(t)
    back = b''
    at = 0
    for i in range(m - 1):
        cut = v.int('cut%d' % i, 0)
        v.assume(at <= cut and cut <= len(out))
        back = back + d.decompress(out[at:cut])
        at = cut
    back = back + d.decompress(out[at:])
    back = back + d.flush()
    v.check_eq('nothing lost', back, data)


@harness()
def unknown_compression(v):
    t = v.int('type', 0, 255)
    r = v.outcome(utils.get_compression_instance, t)
    if t < 4:
        v.check_eq('known', r[0], 'ok')
    else:
        v.check_eq('refused', r[0], 'exc')


@harness()
def packets_compressed(v):
    """up to two packets of any body through a compressed data packet"""
    t = v.choice('type', [0, 1, 2, 3])
    ps = []
    for i in range(v.choice('packets', [1, 2])):
        fmt = v.choice('format%d' % i, [NEW, OLD])
        ps.append(packets.Packet(fmt, 15, v.bytes(
            'body%d' % i, hi=2 ** 32 - 2 if v.symbolic else 70000)))
    data = packets.CompressedDataPacket.compress_packets(t, None, ps)
    p = packets.CompressedDataPacket(NEW, t, data)
    got = packets.CompressedDataPacket.decompress_data(
        p.compression_algorithm, p.compressed_data)
    v.check_eq('packets', len(got), len(ps))
    for i in range(len(ps)):
        v.check_eq('type', got[i].type, 15)
        v.check_eq('format', got[i].header_format, ps[i].header_format)
        v.check_eq('body', bytes(got[i].content), bytes(ps[i].content))


@bounded(secs=60, once=True, exhaustive=True)
def all_identifiers(v):
    """all identifiers 0 to 300 (hashes, public keys, ciphers in ECB on one
    key and block each, against the published primitive), sizes and refusals"""
    for t in range(301):
        r = v.outcome(utils.get_hash_instance, t)
        v.check_eq('hash %d' % t, r[0], 'ok' if t in HASHES else 'exc')
        if t in HASHES:
            v.check_eq('digest %d' % t, r[1].digest(),
                       HASHES[t].new().digest())
            v.check_eq('size %d' % t, utils.hash_lengths[t], SIZES[t])
        r = v.outcome(utils.get_compression_instance, t)
        v.check_eq('compression %d' % t, r[0], 'ok' if t < 4 else 'exc')
        if t == 0:
            continue
        v.check_eq('block size %d' % t,
                   utils.symmetric_cipher_block_lengths.get(t),
                   BLOCKS.get(t))
        v.check_eq('key size %d' % t,
                   utils.symmetric_cipher_key_lengths.get(t), KEYS.get(t))
        n = KEYS.get(t, 16)
        m = BLOCKS.get(t, 16)
        for mode, iv in ((utils.ECB, None), (utils.CBC, bytes(m)),
                         (utils.CFB, bytes(m)), (utils.OFB, bytes(m))):
            for sync in (False, True):
                r = v.outcome(utils.get_symmetric_cipher, t,
                              bytes(range(n)), mode, iv, None, sync)
                v.check_eq('cipher %d' % t, r[0],
                           'ok' if t in KEYS else 'exc')
                if t in KEYS:
                    x = bytes(range(m)) if mode == utils.ECB else bytes(m)
                    v.check_eq('cipher %d mode %d' % (t, mode),
                               bytes(r[1].encrypt(x)).hex(),
                               KNOWN[t][mode == utils.ECB])


# one block under the key 00 01 02 ..: (of zeros, of 00 01 02 ..); computed
# with OpenSSL 3.0 (IDEA: with the reference of contracts/c15.py; Twofish: with
# the library, checked on the 256-bit vector of the Twofish paper)
KNOWN = {
    1: ('d27378922a7a626a', '864c9d7d208a0e65'),
    2: ('894bc3085426a441', '58ed248f77f6b19e'),
    3: ('98ed0a15f0337b1b', '20b42d77a79ebae5'),
    4: ('b995f24ddfe87bf0', '866f5e72e59a1951'),
    7: ('c6a13b37878f5b826f4f8162a1c8d879',
        '0a940bb5416ef045f1c39458c653ea5a'),
    8: ('916251821c73a522c396d62738019607',
        '0060bffe46834bb8da5cf9a61ff220ae'),
    9: ('f29000b62a499fd0a9f39a6add2e7780',
        '5a6e045708fb7196f02e553d02c3a692'),
    10: ('f8b57f360690243720b994692f18ee0e',
         '8ef0272c42db838bcf7b07af0ec30f38'),
    11: ('477650012aa6284033e1b85321eef770',
         'ed18d83f3153160c5a6d01ac3717515c'),
    12: ('c3cc4fc3a5816d9b466daddc9bda7bcf',
         '1d1daf85ea5cae19f5f5ea1dc61e5b83'),
    13: ('cecf4ffa14e51c625e58a8efc3ec3814',
         '5f77dc44e5e6701e8755c1fa176e2434'),
}


@bounded(secs=4)
def compressed_streams(v):
    """octets to 9000, all algorithms and levels, against zlib and bz2 called
    directly, in both directions"""
    t = v.choice('type', [1, 2, 3])
    level = v.int('level', 1, 9)
    data = v.bytes('data') * v.choice('repeat', [1, 1, 3, 50])
    c = utils.get_compression_instance(t, level)
    out = b''
    at = 0
    for i in range(v.int('pieces', 0, 3)):
        cut = v.int('cut%d' % i, at, len(data))
        out += c.compress(data[at:cut])
        at = cut
    out += c.compress(data[at:])
    out += c.flush()
    if t == 1:
        back = zlib.decompress(out, -15)
        comp = zlib.compressobj(level, 8, -15)
        ref = comp.compress(data) + comp.flush()
    elif t == 2:
        back = zlib.decompress(out)
        ref = zlib.compress(data, level)
    else:
        back = bz2.decompress(out)
        ref = bz2.compress(data, level)
    v.check_eq('what others read', back, data)
    d = utils.get_compression_instance(t)
    back = b''
    at = 0
    for i in range(v.int('pieces back', 0, 3)):
        cut = v.int('back%d' % i, at, len(ref))
        back += d.decompress(ref[at:cut])
        at = cut
    back += d.decompress(ref[at:])
    back += d.flush()
    v.check_eq('what others wrote', back, data)


@bounded(secs=3)
def messages(v):
    """literal messages, compressed up to three times over"""
    when = datetime.datetime(2001, 2, 3, 4, 5, 6)
    name = v.choice('name', ['', 'a.txt'])
    if v.bool('text'):
        lit = message.TextMessage(v.text('text', maxchar=0x10ffff), name, when)
    else:
        lit = message.BinaryMessage(v.bytes('data'), name, when)
    m = lit
    n = v.int('depth', 1, 3)
    for i in range(n):
        m = m.compress(v.int('type%d' % i, 0, 3), v.choice(
            'level%d' % i, [None, 1, 6, 9]))
    raw = b''.join(map(bytes, m.to_packets()))
    from pgp.packets.packets import packet_from_packet_data
    off, p = packet_from_packet_data(raw, 0)
    v.check_eq('one packet', off, len(raw))
    got = message.open_pgp_message_from_packets([p])
    for i in range(n):
        got = got.get_message()
    v.check_eq('class', type(got).__name__, type(lit).__name__)
    v.check_eq('message', b''.join(map(bytes, got.to_packets())),
               b''.join(map(bytes, lit.to_packets())))
