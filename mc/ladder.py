"""Ladders: long lists of single values, each carried through one place.

Where a value has no structure for the code under test (a name, an identifier,
a challenge), the bound is not on its shape but on how many different values
are tried: every code point and every byte in each of a few surroundings, and
every length.
"""

POINTS = list(range(0x300)) + [
    0x390, 0x3c2, 0x3a3, 0x130, 0x131, 0x149, 0x1e9e, 0x1680, 0x200b, 0x200d,
    0x200e, 0x202e, 0x2028, 0x2029, 0x212a, 0x3000, 0xac00, 0xd7a3, 0xe000,
    0xfb01, 0xfeff, 0xff21, 0xfffd, 0xffff, 0x10000, 0x10400, 0x1f600,
    0x10ffff]
#: None is where the value goes
AROUND = ((None, ), ('a', None), (None, 'a'), ('a', None, 'b'), (None, None),
          ('%', None, '%', None), (None, 'B', None))


def texts(i):
    """The texts built from the i-th code point."""
    one = chr(POINTS[i])
    for pattern in AROUND:
        yield ''.join(one if x is None else x for x in pattern)


def blobs(i):
    """The byte strings built from the byte i."""
    one = bytes([i])
    for pattern in AROUND:
        yield b''.join(one if x is None else x.encode() for x in pattern)


def sized_text(n):
    return ''.join('aB3 _-.\u00e9'[k * 5 % 8] for k in range(n))


def sized_blob(n, salt=0):
    return bytes((k * 7 + n + salt) & 255 for k in range(n))


NUMBERS = sorted(set(
    list(range(-400, 401))
    + [s * (2**k + d) for k in range(0, 71) for d in (-1, 0, 1)
       for s in (1, -1)] + [s * 10**k for k in range(20) for s in (1, -1)]))
FRACTIONS = [n / 4 for n in range(-1600, 1601)] + [
    float(n) for n in NUMBERS] + [s * 10.0**-k for k in range(1, 320, 7)
                                  for s in (1, -1)]


def cases(sizes, texts=True, blobs=True):
    if texts:
        for i in range(len(POINTS)):
            yield ('text', i), ['text', i]
    if blobs:
        for i in range(256):
            yield ('byte', i), ['byte', i]
    for n in range(sizes):
        yield ('length', n), ['length', n]
