"""Independent descriptions of the scalar kinds and value generators."""

import math
import struct
import sys

INTS = {
    "int8": (1, True),
    "int16": (2, True),
    "int32": (4, True),
    "int64": (8, True),
    "uint8": (1, False),
    "uint16": (2, False),
    "uint32": (4, False),
    "uint64": (8, False),
}
FLOATS = {"half": (2, "e"), "float": (4, "f"), "double": (8, "d")}
KINDS = list(INTS) + list(FLOATS) + ["bool"]
SIZES = {
    **{k: v[0] for k, v in INTS.items()},
    **{k: v[0] for k, v in FLOATS.items()},
    "bool": 1,
}


def bounds(kind):
    size, signed = INTS[kind]
    if signed:
        return -(1 << (size * 8 - 1)), (1 << (size * 8 - 1)) - 1
    return 0, (1 << (size * 8)) - 1


def orders():
    from runtimepy.primitives.byte_order import ByteOrder

    return {
        ByteOrder.NATIVE: sys.byteorder,
        ByteOrder.LITTLE_ENDIAN: "little",
        ByteOrder.BIG_ENDIAN: "big",
        ByteOrder.NETWORK: "big",
    }


def model_encode(kind, value, endian):
    """What the wire bytes must be."""
    if kind in INTS:
        size, signed = INTS[kind]
        return int(value).to_bytes(size, endian, signed=signed)
    if kind == "bool":
        return b"\x01" if value else b"\x00"
    return struct.pack(
        ("<" if endian == "little" else ">") + FLOATS[kind][1], value
    )


def to_single(value):
    """Round a Python float to the nearest single-precision one."""
    return struct.unpack("<f", struct.pack("<f", value))[0]


def random_bits(rng, bits):
    mode = rng.randrange(5)
    if mode == 0:
        return rng.getrandbits(bits)
    if mode == 1:
        return (1 << rng.randrange(bits)) - 1
    if mode == 2:
        return 1 << rng.randrange(bits)
    if mode == 3:
        return (1 << bits) - 1 - rng.randrange(3)
    return rng.randrange(min(300, 1 << bits))


def value(rng, kind, nan=True):
    """A representable value of the kind."""
    if kind == "bool":
        return rng.random() < 0.5
    if kind in INTS:
        size, signed = INTS[kind]
        low, high = bounds(kind)
        if rng.random() < 0.2:
            return rng.choice([low, high, 0, low + 1, high - 1, min(high, 1)])
        raw = random_bits(rng, size * 8)
        return raw if not signed or raw <= high else raw - (1 << (size * 8))
    size, fmt = FLOATS[kind]
    while True:
        if rng.random() < 0.3:
            val = rng.choice(
                [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, math.inf, -math.inf,
                 math.nan, 2.0**-14, 65504.0, 100.25, -3.75]
            )
        else:
            raw = random_bits(rng, size * 8).to_bytes(size, "big")
            val = struct.unpack(">" + fmt, raw)[0]
        if nan or not math.isnan(val):
            return val


def same(a, b):
    """Equality that treats NaN as itself and distinguishes zero signs."""
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def text(rng, limit=40, ascii_only=False):
    """A random string."""
    alphabets = ["abcXYZ019 _-.", "\x00\n\t~ "]
    if not ascii_only:
        alphabets += ["éüßñ", "日本語テキスト", "😀🚀𝄞", "\u0301\u200d"]
    letters = "".join(rng.sample(alphabets, rng.randint(1, len(alphabets))))
    return "".join(rng.choice(letters) for _ in range(rng.randrange(limit)))


def make(kind, value=None, **kwargs):
    """Create a primitive of the named kind."""
    from runtimepy.primitives import normalize

    if value is not None:
        kwargs["value"] = value
    return normalize(kind)(**kwargs)
