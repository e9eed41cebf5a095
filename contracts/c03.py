from io import BytesIO

from vc import bounded, harness, spec
from pgp.packets import constants
from pgp.packets.packets import (Packet, PACKET_TYPES,
                                 packet_from_packet_data,
                                 packet_from_packet_stream)
from pgp.packets.parsers import (parse_binary_packet_data,
                                 parse_binary_packet_stream)

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
TOP = 2 ** 32 - 1


def body_of(p):
    return p.content


def same_packet(v, name, p, fmt, tag, body):
    v.check_eq(name + ' tag', p.type, tag)
    v.check_eq(name + ' header format', p.header_format, fmt)
    v.check_eq(name + ' body', body_of(p), body)


def header(v, fmt, tag, n):
    """the RFC's header octets (4.2), independent of the code"""
    if fmt == OLD:
        if n < 256:
            return spec.be(0x80 + tag * 4, 1) + spec.be(n, 1)
        if n < 65536:
            return spec.be(0x80 + tag * 4 + 1, 1) + spec.be(n, 2)
        return spec.be(0x80 + tag * 4 + 2, 1) + spec.be(n, 4)
    h = spec.be(0xc0 + tag, 1)
    if n < 192:
        return h + spec.be(n, 1)
    if n < 8384:
        return h + spec.be((n - 192) // 256 + 192, 1) + spec.be(
            (n - 192) % 256, 1)
    return h + b'\xff' + spec.be(n, 4)


@harness()
def frame(v):
    fmt, tag = v.choice('tag', [(NEW, 0), (NEW, 9), (NEW, 15), (NEW, 19 + 1),
                                (NEW, 60), (NEW, 62), (OLD, 0), (OLD, 9),
                                (OLD, 15)])
    body = v.bytes('body', hi=TOP)
    pre = v.bytes('pre')
    post = v.bytes('post')
    out = bytes(PACKET_TYPES.get(tag, Packet).from_packet_content(
        fmt, tag, bytearray(body)))
    v.check_eq('octets', out, header(v, fmt, tag, len(body)) + body)
    off, p = packet_from_packet_data(pre + out + post, len(pre))
    v.check_eq('stops at the last octet', off, len(pre) + len(out))
    same_packet(v, 'buffer', p, fmt, tag, body)
    fh = BytesIO(pre + out + post)
    fh.seek(len(pre))
    p = packet_from_packet_stream(fh)
    v.check_eq('stream stops at the last octet', fh.tell(),
               len(pre) + len(out))
    same_packet(v, 'stream', p, fmt, tag, body)


@harness()
def types_only_new_headers_carry(v):
    tag = v.choice('tag', [20, 60, 62] if v.symbolic else [
        t for t in range(16, 64) if t not in PACKET_TYPES])
    body = v.bytes('body', hi=TOP)
    out = bytes(PACKET_TYPES.get(tag, Packet).from_packet_content(
        OLD, tag, bytearray(body)))
    v.check_eq('octets', out, header(v, NEW, tag, len(body)) + body)
    off, p = packet_from_packet_data(out)
    same_packet(v, 'buffer', p, NEW, tag, body)


@harness(native=False)
def frame_beyond_4GiB(v):
    # data packets only; up to four partial lengths
    body = v.bytes('body', lo=TOP + 1, hi=TOP + 3 * 2 ** 30)
    pre = v.bytes('pre')
    post = v.bytes('post')
    out = bytes(PACKET_TYPES[9].from_packet_content(NEW, 9, bytearray(body)))
    off, p = packet_from_packet_data(pre + out + post, len(pre))
    v.check_eq('stops at the last octet', off, len(pre) + len(out))
    same_packet(v, 'buffer', p, NEW, 9, body)


@harness()
def any_header_is_read(v):
    """a packet written by anyone, in any of the length encodings, at any
    offset: both readers agree with the RFC"""
    post = v.bytes('post')
    pre = v.bytes('pre')
    kind = v.choice('kind', ['1', '2', '5', 'o1', 'o2', 'o4', 'oi'])
    if kind[0] == 'o':
        tag = v.choice('otag', [0, 9, 15])
        fmt = OLD
        if kind == 'o1':
            n = v.int('n', 0, 255)
            h = spec.be(0x80 + tag * 4, 1) + spec.be(n, 1)
        elif kind == 'o2':
            n = v.int('n', 0, 65535)
            h = spec.be(0x81 + tag * 4, 1) + spec.be(n, 2)
        elif kind == 'o4':
            n = v.int('n', 0, TOP if v.symbolic else 70000)
            h = spec.be(0x82 + tag * 4, 1) + spec.be(n, 4)
        else:
            n = v.int('n', 0, TOP if v.symbolic else 70000)
            h = spec.be(0x83 + tag * 4, 1)
            post = b''
    else:
        tag = v.choice('ntag', [0, 15, 18 + 2, 62])
        fmt = NEW
        h = spec.be(0xc0 + tag, 1)
        if kind == '1':
            n = v.int('n', 0, 191)
            h = h + spec.be(n, 1)
        elif kind == '2':
            n = v.int('n', 192, 8383)
            h = h + spec.be((n - 192) // 256 + 192, 1) + spec.be(
                (n - 192) % 256, 1)
        else:
            n = v.int('n', 0, TOP if v.symbolic else 70000)
            h = h + b'\xff' + spec.be(n, 4)
    body = v.bytes('body', n)
    data = pre + h + body + post
    end = len(pre) + len(h) + n
    off, p = packet_from_packet_data(data, len(pre))
    v.check_eq('stops at the last octet', off, end)
    same_packet(v, 'buffer', p, fmt, tag, body)
    fh = BytesIO(data)
    fh.seek(len(pre))
    p = packet_from_packet_stream(fh)
    v.check_eq('stream stops at the last octet', fh.tell(), end)
    same_packet(v, 'stream', p, fmt, tag, body)


@harness()
def partial_lengths(v):
    pre = v.bytes('pre')
    post = v.bytes('post')
    k = v.choice('chunks', [1, 2, 3])
    tag = v.choice('tag', [9, 62])
    data = spec.be(0xc0 + tag, 1)
    body = b''
    for i in range(k):
        e = v.int('e%d' % i, 0, 30 if v.symbolic else 10)
        part = v.bytes('part%d' % i, 2 ** e)
        data = data + spec.be(224 + e, 1) + part
        body = body + part
    kind = v.choice('last length', ['1', '2', '5'])
    if kind == '1':
        last = v.bytes('last', hi=191)
        h = spec.be(len(last), 1)
    elif kind == '2':
        last = v.bytes('last', lo=192, hi=8383)
        h = spec.be((len(last) - 192) // 256 + 192, 1) + spec.be(
            (len(last) - 192) % 256, 1)
    else:
        last = v.bytes('last', hi=TOP if v.symbolic else 9000)
        h = b'\xff' + spec.be(len(last), 4)
    data = data + h + last
    body = body + last
    off, p = packet_from_packet_data(pre + data + post, len(pre))
    v.check_eq('stops at the last octet', off, len(pre) + len(data))
    same_packet(v, 'buffer', p, NEW, tag, body)
    fh = BytesIO(pre + data + post)
    fh.seek(len(pre))
    p = packet_from_packet_stream(fh)
    v.check_eq('stream stops at the last octet', fh.tell(),
               len(pre) + len(data))
    same_packet(v, 'stream', p, NEW, tag, body)


@harness()
def concatenation(v):
    f1, t1 = v.choice('first', [(NEW, 0), (NEW, 62), (OLD, 15)])
    f2, t2 = v.choice('second', [(NEW, 9), (OLD, 9)])
    b1 = v.bytes('b1', hi=TOP if v.symbolic else 70000)
    b2 = v.bytes('b2', hi=TOP if v.symbolic else 70000)
    data = bytes(Packet(f1, t1, b1)) + bytes(Packet(f2, t2, b2))
    ps = list(parse_binary_packet_data(data))
    v.check_eq('two packets', len(ps), 2)
    same_packet(v, 'first', ps[0], f1, t1, b1)
    same_packet(v, 'second', ps[1], f2, t2, b2)
    ps = list(parse_binary_packet_stream(BytesIO(data)))
    v.check_eq('two packets in the stream', len(ps), 2)
    same_packet(v, 'stream first', ps[0], f1, t1, b1)
    same_packet(v, 'stream second', ps[1], f2, t2, b2)


@bounded(secs=3)
def sequences(v):
    """random sequences of up to 12 packets of every framing, bodies to 9000"""
    pkts = []
    data = b''
    for i in range(v.int('count', 0, 12)):
        fmt = v.choice('fmt%d' % i, [NEW, OLD])
        tags = [t for t in range(64 if fmt == NEW else 16)
                if t in (0, 9, 15, 20, 62) or t not in PACKET_TYPES]
        tag = v.choice('tag%d' % i, tags)
        body = v.bytes('body%d' % i)
        pkts.append((fmt, tag, body))
        if fmt == NEW and v.bool('split%d' % i):
            data += bytes([0xc0 + tag])
            pos = 0
            for j in range(v.int('parts%d' % i, 0, 4)):
                e = v.int('e%d.%d' % (i, j), 0, 10)
                if pos + 2 ** e > len(body):
                    break
                data += bytes([224 + e]) + body[pos:pos + 2 ** e]
                pos += 2 ** e
            rest = body[pos:]
            data += header(v, NEW, tag, len(rest))[1:] + rest
        elif fmt == OLD and v.bool('long%d' % i):
            data += bytes([0x82 + tag * 4]) + spec.be(len(body), 4) + body
        else:
            data += bytes(Packet(fmt, tag, body))
    for name, ps in (('buffer', list(parse_binary_packet_data(data))),
                     ('stream', list(parse_binary_packet_stream(
                         BytesIO(data))))):
        v.check_eq(name, [(p.header_format, p.type, bytes(p.content))
                          for p in ps], pkts)
