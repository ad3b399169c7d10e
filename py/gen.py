"""Generators and reference models for the Python side.

Nothing here uses the code under test: formats are decoded and encoded from
their definition.
"""

import bz2
import lzma
import random
import struct

import lz4.frame
import zstandard

from engine import Failed

COMPRESSIONS = ['none', 'crle', 'heatshrink', 'lzma', 'bz2', 'zstd', 'lz4']
NUMBERS = {'none': 0, 'lzma': 1, 'crle': 2, 'bz2': 3, 'heatshrink': 4, 'zstd': 5, 'lz4': 6}
TEXT = (b'the quick brown fox jumps over the lazy dog 0123456789 '
        b'int main(void) { return (0); }\n#include <stdio.h>\n')


# ---- data -------------------------------------------------------------------

def data_of_size(src, size):
    kind = src.below(7)
    rng = src.rng()
    if size == 0:
        return b''
    if kind == 0:
        return bytes([rng.randrange(256)]) * size
    if kind == 1:
        return rng.randbytes(size)
    if kind == 2:
        alphabet = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 4)))
        return bytes(rng.choices(alphabet, k=size))
    if kind == 3:
        period = rng.randbytes(rng.randrange(1, 40))
        return (period * (size // len(period) + 1))[:size]
    if kind == 4:
        out = bytearray()
        while len(out) < size:
            k = rng.randrange(4)
            n = rng.randrange(1, 60)
            if k == 0:
                out += bytes([rng.choice((0, 255, 0, 7))]) * n
            elif k == 1:
                out += rng.randbytes(n)
            elif k == 2 and out:
                at = rng.randrange(len(out))
                out += out[at:at + n]
            else:
                i = rng.randrange(len(TEXT))
                out += TEXT[i:i + n]
        return bytes(out[:size])
    if kind == 5:
        # Tables of words with small differences, as in firmware.
        out = bytearray()
        base = rng.getrandbits(32)
        while len(out) < size:
            base = (base + rng.randrange(0, 64)) & 0xffffffff
            out += struct.pack('<I', base)
        return bytes(out[:size])
    out = bytearray(rng.randbytes(size))
    for _ in range(rng.randrange(1, 6)):
        a = rng.randrange(size)
        n = rng.randrange(0, size - a + 1)
        out[a:a + n] = bytes([rng.choice((0, 255))]) * n
    return bytes(out)


def data(src, high):
    return data_of_size(src, src.logsize(high))


def edit(src, old, high):
    """A version of old after some edits."""

    new = bytearray(old)
    for _ in range(src.below(8)):
        kind = src.below(8)
        at = src.below(len(new) + 1)
        size = min(src.logsize(max(16, len(old) // 2)), high)
        if kind == 0:
            new[at:at] = data_of_size(src, size)
        elif kind == 1:
            del new[at:at + size]
        elif kind == 2:
            new[at:at + size] = data_of_size(src, min(size, len(new) - at))
        elif kind == 3:
            a = src.below(len(old) + 1)
            new[at:at] = old[a:a + size]
        elif kind == 4:
            part = new[at:at + size]
            del new[at:at + size]
            b = src.below(len(new) + 1)
            new[b:b] = part
        elif kind == 5:
            # The same small difference in many places.
            step = 1 + src.below(32)
            delta = 1 + src.below(255)
            for i in range(at, min(len(new), at + size), step):
                new[i] = (new[i] + delta) & 255
        elif kind == 6:
            del new[src.below(len(new) + 1):]
        else:
            new += data_of_size(src, size)
    return bytes(new[:high])


def pair(src, high):
    kind = src.below(8)
    if kind == 6:
        return data(src, high), data(src, high)
    if kind == 7:
        new = data(src, high)
        return edit(src, new, high), new
    old = data(src, high)
    return old, edit(src, old, high)


def big_data(rng, size):
    """Bulk data that is quick to make."""

    kind = rng.randrange(4)
    if kind == 0:
        return rng.randbytes(size)
    if kind == 1:
        # Records that start alike.
        head = rng.randbytes(rng.choice((4, 31, 32, 33, 64, 200)))
        body = rng.choice((4, 12, 60, 300))
        return b''.join(head + rng.randbytes(body) for _ in range(size // (len(head) + body) + 1))[:size]
    if kind == 2:
        pieces = [rng.randbytes(rng.randrange(20, 400)) for _ in range(30)]
        return b''.join(rng.choices(pieces, k=size // 100))[:size]
    pad = bytes([rng.choice((0, 255))])
    out = bytearray()
    while len(out) < size:
        out += rng.randbytes(rng.randrange(1, 20000))
        out += pad * rng.randrange(1, 20000)
    return bytes(out[:size])


def big_pair(src, high):
    """Data in which offsets and sizes need more than 16 bits."""

    rng = src.rng()
    old = big_data(rng, rng.randrange(high // 4, high))
    new = bytearray(old)
    for _ in range(src.range(1, 5)):
        kind = rng.randrange(6)
        at = rng.randrange(len(new) + 1)
        size = rng.randrange(1, rng.choice((100, 10000, high)))
        if kind == 0:
            new[at:at] = rng.randbytes(size)
        elif kind == 1:
            del new[at:at + size]
        elif kind == 2:
            new = new[at:] + new[:at]
        elif kind == 3:
            part = new[at:at + size]
            del new[at:at + size]
            b = rng.randrange(len(new) + 1)
            new[b:b] = part
        elif kind == 4:
            new += old[at:at + size]
        else:
            for i in range(at, len(new), rng.randrange(50, 3000)):
                new[i] = (new[i] + 1) & 255
    return old, bytes(new[:2 * high])


# ---- sizes ------------------------------------------------------------------

def ref_pack(value):
    sign = 0x40 if value < 0 else 0
    value = abs(value)
    out = bytearray([sign | (value & 0x3f)])
    value >>= 6
    while value:
        out[-1] |= 0x80
        out.append(value & 0x7f)
        value >>= 7
    return bytes(out)


def ref_unpack(buf, at):
    if at >= len(buf):
        raise Failed('reference decoder: data ends in a size')
    byte = buf[at]
    at += 1
    negative = byte & 0x40
    value = byte & 0x3f
    shift = 6
    while byte & 0x80:
        if at >= len(buf):
            raise Failed('reference decoder: data ends in a size')
        byte = buf[at]
        at += 1
        value |= (byte & 0x7f) << shift
        shift += 7
    return (-value if negative else value), at


# ---- decompression ----------------------------------------------------------

def ref_crle(buf):
    out = bytearray()
    at = 0
    while at < len(buf):
        kind = buf[at]
        at += 1
        size = shift = 0
        while True:
            byte = buf[at]
            at += 1
            size |= (byte & 0x7f) << shift
            shift += 7
            if not byte & 0x80:
                break
        if kind == 0:
            if at + size > len(buf):
                raise Failed('reference crle: cut scattered segment')
            out += buf[at:at + size]
            at += size
        elif kind == 1:
            out += bytes([buf[at]]) * size
            at += 1
        else:
            raise Failed('reference crle: kind {}'.format(kind))
    return bytes(out)


def ref_heatshrink(buf, header=True):
    if header:
        if not buf:
            raise Failed('reference heatshrink: no header')
        window = (buf[0] >> 4) + 4
        lookahead = (buf[0] & 15) + 3
        buf = buf[1:]
    total = len(buf) * 8
    bits = int.from_bytes(buf, 'big') if buf else 0
    text = bin(bits)[2:].zfill(total) if total else ''
    out = bytearray()
    at = 0
    while at < total:
        if text[at] == '1':
            if at + 9 > total:
                break
            out.append(int(text[at + 1:at + 9], 2))
            at += 9
        else:
            if at + 1 + window + lookahead > total:
                break
            index = int(text[at + 1:at + 1 + window], 2) + 1
            count = int(text[at + 1 + window:at + 1 + window + lookahead], 2) + 1
            at += 1 + window + lookahead
            for _ in range(count):
                out.append(out[-index] if index <= len(out) else 0)
    return bytes(out)


def ref_decompress(compression, buf):
    if compression == 'none':
        return buf
    if compression == 'crle':
        return ref_crle(buf)
    if compression == 'heatshrink':
        return ref_heatshrink(buf)
    if compression == 'lzma':
        d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
        out = d.decompress(buf)
        if not d.eof or d.unused_data:
            raise Failed('reference lzma: the stream does not end with the data')
        return out
    if compression == 'bz2':
        return bz2.decompress(buf)
    if compression == 'zstd':
        return zstandard.ZstdDecompressor().decompressobj().decompress(buf)
    if compression == 'lz4':
        return lz4.frame.decompress(buf)
    raise AssertionError(compression)


# ---- patches ----------------------------------------------------------------

def ref_entries(payload, at, to_size):
    """Returns ([(diff, extra, adjustment)], at)."""

    entries = []
    pos = 0
    while pos < to_size:
        n, at = ref_unpack(payload, at)
        if n < 0 or pos + n > to_size or at + n > len(payload):
            raise Failed('reference decoder: bad diff size {}'.format(n))
        diff = payload[at:at + n]
        at += n
        pos += n
        n, at = ref_unpack(payload, at)
        if n < 0 or pos + n > to_size or at + n > len(payload):
            raise Failed('reference decoder: bad extra size {}'.format(n))
        extra = payload[at:at + n]
        at += n
        pos += n
        adjustment, at = ref_unpack(payload, at)
        entries.append((diff, extra, adjustment))
    return entries, at


def add(a, b):
    return bytes((x + y) & 255 for x, y in zip(a, b))


def ref_build(entries, old, start=0):
    out = bytearray()
    pos = start
    for diff, extra, adjustment in entries:
        if pos < 0 or pos + len(diff) > len(old):
            raise Failed('reference decoder: diff outside the from-data')
        out += add(diff, old[pos:pos + len(diff)])
        out += extra
        pos += len(diff) + adjustment
    return bytes(out)


def ref_sequential(patch):
    """Returns (compression number, to size, payload)."""

    header = patch[0]
    size, at = ref_unpack(patch, 1)
    return header, size, patch[at:]


def ref_in_place_header(patch):
    values = []
    at = 1
    for _ in range(5):
        value, at = ref_unpack(patch, at)
        values.append(value)
    return patch[0], values, patch[at:]


# ---- bsdiff format ----------------------------------------------------------

def offtout(x):
    return struct.pack('<Q', abs(x) | ((1 << 63) if x < 0 else 0))


def offtin(b):
    x = struct.unpack('<Q', b)[0]
    return -(x & ~(1 << 63)) if x >> 63 else x


def ref_bspatch(old, patch):
    """The bspatch program of Colin Percival."""

    if patch[:8] != b'BSDIFF40':
        raise Failed('reference bspatch: magic')
    ctrl_size, diff_size, new_size = (offtin(patch[8 + 8 * i:16 + 8 * i]) for i in range(3))
    if ctrl_size < 0 or diff_size < 0 or new_size < 0:
        raise Failed('reference bspatch: header')
    ctrl = bz2.decompress(patch[32:32 + ctrl_size])
    diff = bz2.decompress(patch[32 + ctrl_size:32 + ctrl_size + diff_size])
    extra = bz2.decompress(patch[32 + ctrl_size + diff_size:])
    new = bytearray()
    c = d = e = pos = 0
    while len(new) < new_size:
        if c + 24 > len(ctrl):
            raise Failed('reference bspatch: control data ends')
        x, y, z = (offtin(ctrl[c + 8 * i:c + 8 * i + 8]) for i in range(3))
        c += 24
        if x < 0 or y < 0 or len(new) + x > new_size or d + x > len(diff):
            raise Failed('reference bspatch: diff size')
        block = diff[d:d + x]
        d += x
        for i, b in enumerate(block):
            if 0 <= pos + i < len(old):
                b = (b + old[pos + i]) & 255
            new.append(b)
        pos += x
        if len(new) + y > new_size or e + y > len(extra):
            raise Failed('reference bspatch: extra size')
        new += extra[e:e + y]
        e += y
        pos += z
    return bytes(new)


# ---- compressing encoders of our own ---------------------------------------

def crle_size(n):
    out = bytearray()
    while True:
        out.append(n & 0x7f)
        n >>= 7
        if not n:
            return bytes(out)
        out[-1] |= 0x80


def own_crle(rng, buf):
    """Any valid segmentation, not only the one the compressor makes."""

    out = bytearray()
    at = 0
    while at < len(buf):
        n = 1
        while at + n < len(buf) and buf[at + n] == buf[at]:
            n += 1
        if n >= rng.choice((1, 2, 6, 40)):
            n = rng.randrange(1, n + 1)
            out += b'\x01' + crle_size(n) + buf[at:at + 1]
        else:
            n = min(len(buf) - at, rng.choice((1, 3, 20, 127, 128, 5000)))
            out += b'\x00' + crle_size(n) + buf[at:at + n]
        at += n
    if not buf:
        out += b'\x00\x00'
    return bytes(out)


def own_heatshrink(rng, buf, window, lookahead, greedy):
    """Literals and any valid back-references."""

    bits = []
    at = 0
    table = {}
    while at < len(buf):
        best = 0
        index = 0
        if greedy and at + 3 <= len(buf):
            key = buf[at:at + 3]
            cand = table.get(key)
            if cand is not None and at - cand <= 1 << window and rng.randrange(8):
                n = 0
                while n < 1 << lookahead and at + n < len(buf) and buf[cand + n] == buf[at + n]:
                    n += 1
                best = rng.randrange(1, n + 1) if rng.randrange(4) == 0 else n
                index = at - cand
        if best:
            bits.append('0' + bin(index - 1)[2:].zfill(window) + bin(best - 1)[2:].zfill(lookahead))
            step = best
        else:
            bits.append('1' + bin(buf[at])[2:].zfill(8))
            step = 1
        for i in range(at, min(at + step, len(buf) - 2)):
            table[buf[i:i + 3]] = i
        at += step
    text = ''.join(bits)
    text += '0' * (-len(text) % 8)
    body = int(text, 2).to_bytes(len(text) // 8, 'big') if text else b''
    return bytes([(window - 4) << 4 | (lookahead - 3)]) + body


def own_compress(rng, compression, buf, window=8, lookahead=7):
    if compression == 'none':
        return buf
    if compression == 'crle':
        return own_crle(rng, buf)
    if compression == 'heatshrink':
        return own_heatshrink(rng, buf, window, lookahead, True)
    if compression == 'lzma':
        filters = [{'id': lzma.FILTER_LZMA1, 'preset': rng.choice((0, 6)),
                    'dict_size': rng.choice((4096, 1 << 16, 1 << 20)),
                    'lc': rng.randrange(0, 4), 'lp': rng.choice((0, 1)), 'pb': rng.randrange(0, 5)}]
        return lzma.compress(buf, format=lzma.FORMAT_ALONE, filters=filters)
    if compression == 'bz2':
        return bz2.compress(buf, rng.randrange(1, 10))
    if compression == 'zstd':
        return zstandard.ZstdCompressor(level=rng.choice((1, 3, 19)),
                                        write_checksum=bool(rng.randrange(2)),
                                        write_content_size=bool(rng.randrange(2))).compress(buf)
    if compression == 'lz4':
        return lz4.frame.compress(buf, compression_level=rng.choice((0, 3, 12)),
                                  content_checksum=bool(rng.randrange(2)),
                                  block_checksum=bool(rng.randrange(2)),
                                  store_size=bool(rng.randrange(2)))
    raise AssertionError(compression)


def own_entries(src, old, new, far=0):
    """Any valid split of new into diff and extra data. With `far` bits
    the position also goes far beyond the end of the from-data and back,
    without reading there."""

    rng = src.rng()
    entries = []
    at = pos = 0
    zeros = 0
    while at < len(new):
        room = len(old) - pos
        n = 0
        if rng.randrange(4) and room > 0:
            n = min(room, len(new) - at, rng.choice((1, 3, 10, 200, 5000)))
        diff = bytes((x - y) & 255 for x, y in zip(new[at:at + n], old[pos:pos + n]))
        at += n
        m = 0
        if rng.randrange(3):
            m = min(len(new) - at, rng.choice((1, 2, 30, 4095, 4097)))
        extra = new[at:at + m]
        at += m
        if n == m == 0:
            zeros += 1
            if zeros > 6:
                extra = new[at:at + 1]
                at += 1
                zeros = 0
        target = rng.randrange(len(old) + 1)
        if rng.randrange(2):
            target = min(len(old), pos + n)
        adjustment = target - (pos + n)
        if far and at < len(new) and not rng.randrange(16):
            away = rng.getrandbits(rng.randrange(far + 1))
            entries.append((diff, extra, adjustment + away))
            diff, extra, adjustment = b'', b'', -away
        entries.append((diff, extra, adjustment))
        pos = target
    return entries


def pack_entries(entries):
    out = bytearray()
    for diff, extra, adjustment in entries:
        out += ref_pack(len(diff)) + diff + ref_pack(len(extra)) + extra + ref_pack(adjustment)
    return bytes(out)


def own_in_place(src, old, new, memory, segment, shift):
    """The uncompressed body of an in-place patch, with all that a segment
    may still use of the shifted from-data."""

    shifted = old[:memory - shift]
    out = b''
    for to_offset in range(0, len(new), segment):
        begin = max(to_offset + segment - shift, 0)
        part = new[to_offset:to_offset + segment]
        out += ref_pack(0) + pack_entries(own_entries(src, shifted[begin:], part))
    return out


def hexdump(b, n=24):
    return b[:n].hex() + ('...' if len(b) > n else '')


def compare(got, want, what):
    if got == want:
        return
    i = 0
    for i, (x, y) in enumerate(zip(got, want)):
        if x != y:
            break
    else:
        i = min(len(got), len(want))
    raise Failed('{}: {} bytes, expected {}; first difference at {}: {} instead of {}'.format(
        what, len(got), len(want), i, hexdump(got[i:i + 8]), hexdump(want[i:i + 8])))
