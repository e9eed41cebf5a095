from io import BytesIO

from vc import harness, spec
from pgp import utils

TOP = 2 ** 32 - 1


def rfc_new(data, off):
    """RFC 4880, 4.2.2: (octets used, length, partial) at data[off:]"""
    first = data[off]
    if first <= 191:
        return 1, first, False
    if first <= 223:
        return 2, (first - 192) * 256 + data[off + 1] + 192, False
    if first == 255:
        return 5, spec.ival(data[off + 1:off + 5]), False
    return 1, 2 ** (first - 224), True


def shortest_new(n):
    if n <= 191:
        return 1
    if n <= 8383:
        return 2
    return 5


@harness()
def new_round_trip(v):
    n = v.int('n', 0, TOP)
    partial_ok = v.bool('allow_partial')
    pre = v.bytes('pre')
    post = v.bytes('post')
    r, remaining = utils.new_packet_length_to_bytes(n, partial_ok)
    v.check_eq('nothing remains', remaining, 0)
    v.check_eq('shortest form', len(r), shortest_new(n))
    off, length, partial = utils.new_packet_length(pre + bytes(r) + post,
                                                   len(pre))
    v.check_eq('length', length, n)
    v.check_eq('not partial', partial, False)
    v.check_eq('cursor', off, len(pre) + len(r))


@harness()
def new_round_trip_stream(v):
    n = v.int('n', 0, TOP)
    post = v.bytes('post')
    r, _ = utils.new_packet_length_to_bytes(n, False)
    fh = BytesIO(bytes(r) + post)
    length, partial = utils.new_packet_length_from_stream(fh)
    v.check_eq('length', length, n)
    v.check_eq('not partial', partial, False)
    v.check_eq('cursor', fh.tell(), len(r))


@harness()
def new_too_long(v):
    n = v.int('n', TOP + 1, None)
    v.check_eq('refused', v.outcome(utils.new_packet_length_to_bytes, n,
                                    False), ('exc', 'ValueError'))
    r, remaining = utils.new_packet_length_to_bytes(n, True)
    size, length, partial = rfc_new(bytes(r), 0)
    v.check_eq('one header', len(r), size)
    v.check('partial', partial)
    v.check_eq('accounted for', length + remaining, n)
    v.check('at least 512 octets in the first chunk', length >= 512)


@harness()
def new_decoder_is_rfc(v):
    data = v.bytes('data', lo=5)
    off = v.nat('off')
    v.assume(off + 5 <= len(data))
    size, want, wpartial = rfc_new(data, off)
    o, length, partial = utils.new_packet_length(data, off)
    v.check_eq('length', length, want)
    v.check_eq('partial', partial, wpartial)
    v.check_eq('cursor', o, off + size)
    fh = BytesIO(data)
    fh.seek(off)
    length, partial = utils.new_packet_length_from_stream(fh)
    v.check_eq('stream length', length, want)
    v.check_eq('stream partial', partial, wpartial)
    v.check_eq('stream cursor', fh.tell(), off + size)


@harness()
def old_round_trip(v):
    n = v.int('n', 0, TOP)
    tag = v.int('tag', 0, 15)
    pre = v.bytes('pre')
    post = v.bytes('post')
    ltype, lbytes = utils.old_packet_length_to_bytes(n)
    v.check_eq('shortest form', len(lbytes),
               1 if n < 256 else 2 if n < 65536 else 4)
    v.check('type', 0 <= ltype <= 2)
    buf = pre + bytes(bytearray([0x80 + tag * 4 + ltype] + lbytes)) + post
    off, length = utils.old_packet_length(buf, len(pre))
    v.check_eq('length', length, n)
    v.check_eq('cursor', off, len(pre) + 1 + len(lbytes))
    fh = BytesIO(buf)
    fh.seek(len(pre))
    v.check_eq('stream length', utils.old_packet_length_from_stream(fh), n)
    v.check_eq('stream cursor', fh.tell(), len(pre) + 1 + len(lbytes))


@harness()
def old_decoder_is_rfc(v):
    data = v.bytes('data', lo=5)
    off = v.nat('off')
    v.assume(off + 5 <= len(data))
    k = data[off] % 4
    o, length = utils.old_packet_length(data, off)
    size = 1 if k == 3 else 1 + 2 ** k
    want = len(data) - off - 1 if k == 3 else spec.ival(
        data[off + 1:off + size])
    v.check_eq('length', length, want)
    v.check_eq('cursor', o, off + size)
    fh = BytesIO(data)
    fh.seek(off)
    v.check_eq('stream length', utils.old_packet_length_from_stream(fh),
               want)
    v.check_eq('stream cursor', fh.tell(), off + size)
