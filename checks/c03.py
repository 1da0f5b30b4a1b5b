"""C03: scaled writes invert the scaling, round to nearest and saturate."""

from decimal import Decimal
from fractions import Fraction
import logging
import math

from lib import prims

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)

PROPERTY = "C03"
RULE = (
    "random kinds x linear scalings (negative slopes, tiny and huge gains) x "
    "targets inside, at and far beyond the raw range through the primitive, "
    "environment, string and command write paths; non-trivial = distinct "
    "(kind, scaling, target region, path)"
)
REQUIRED = {"saturated_high": 50, "saturated_low": 50, "in_range": 500,
            "poly_reads": 200, "commands": 50}
LOG = logging.getLogger("c03")


def scaling_for(rng):
    """A linear scaling."""
    offset = rng.choice(
        [0, 0.0, 1, -5, 0.5, 273.15, -1000.25, rng.uniform(-1e4, 1e4)]
    )
    gain = rng.choice(
        [1, 2, 0.5, -1, -0.1, 0.01, 1000, rng.uniform(-50, 50) or 1.0,
         10.0 ** rng.randint(-4, 4)]
    )
    return [offset, gain]


def plain(target):
    """
    Text of a number without exponent notation (the command parser takes
    "-1e-05" for an unknown option and refuses the command).
    """
    if isinstance(target, int):
        return str(target)
    return format(Decimal(repr(target)), "f")


def ideal_raw(target, scaling):
    """Exact inverse of the scaling."""
    value = Fraction(target)
    if scaling:
        value = (value - Fraction(scaling[0])) / Fraction(scaling[1])
    return value


def check_int(case, kind, scaling, target, raw, path):
    """The stored raw integer against the exact inverse."""

    low, high = prims.bounds(kind)
    ideal = ideal_raw(target, scaling)
    case.expect(
        isinstance(raw, int) and low <= raw <= high, "range", f"{raw}"
    )

    # Double-precision slack of the intermediate computation.
    slack = Fraction(0)
    if scaling:
        slack = (
            abs(Fraction(target)) + abs(Fraction(scaling[0]))
        ) / abs(Fraction(scaling[1])) / 2**50 + abs(ideal) / 2**50
    detail = f"{kind} {scaling} target={target!r} raw={raw} via {path}"
    if ideal > high:
        case.event("saturated_high")
        # Rounding slack may still legitimately select a value just inside.
        case.expect(raw >= high - slack, "saturate-high", detail)
    elif ideal < low:
        case.event("saturated_low")
        case.expect(raw <= low + slack, "saturate-low", detail)
    else:
        case.event("in_range")
        case.expect(
            abs(raw - ideal) <= Fraction(1, 2) + slack, "nearest", detail
        )


def target_for(rng, kind, scaling):
    """A target value with its region."""

    low, high = prims.bounds(kind)
    region = rng.choice(["in", "in", "edge", "high", "low", "half"])
    if region == "in":
        raw = Fraction(prims.value(rng, kind)) + Fraction(
            rng.randint(-49, 49), 100
        )
    elif region == "edge":
        raw = Fraction(
            rng.choice([low, high, low - 1, high + 1, low + 1, high - 1, 0])
        ) + Fraction(rng.choice([0, 0, 40, -40]), 100)
    elif region == "half":
        raw = Fraction(prims.value(rng, kind)) + Fraction(1, 2)
    else:
        factor = 10 ** rng.randint(0, 12)
        raw = Fraction(high if region == "high" else low - 1) * factor
        raw += rng.randint(1, 1000) * (1 if region == "high" else -1)
    target = raw
    if scaling:
        target = raw * Fraction(scaling[1]) + Fraction(scaling[0])
        return float(target), region
    return (
        (int(raw) if rng.random() < 0.5 else float(raw)),
        region,
    )


def integers(case):
    """Integer primitives, environments and commands."""

    rng = case.rng
    for _ in range(8):
        kind = rng.choice(list(prims.INTS))
        scaling = scaling_for(rng) if rng.random() < 0.8 else None
        path = rng.choice(["prim", "env", "apply", "string", "command"])
        prim = prims.make(kind, scaling=scaling)
        env = ChannelEnvironment()
        as_kwarg = rng.random() < 0.5
        if as_kwarg:
            prim = prims.make(kind)
            env.int_channel("x", prim, commandable=True, scaling=scaling)
        else:
            env.int_channel("x", prim, commandable=True)
        env.int_channel("y", kind, scaling=scaling)
        cmd = ChannelCommandProcessor(env, LOG)
        for _ in range(6):
            target, region = target_for(rng, kind, scaling)
            other = env.value("y", scaled=False)
            if path == "prim":
                prim.scaled = target
            elif path == "env":
                env.set("x", target)
            elif path == "apply":
                env.apply({"x": target})
            else:
                if not scaling:
                    target = int(target)
                text = plain(target)
                if path == "string":
                    env.set("x", text)
                else:
                    case.event("commands")
                    result = cmd.command(f"set x {text}")
                    case.expect(
                        bool(result), "command-refused", f"{text} {result}"
                    )
            raw = prim.value
            check_int(case, kind, scaling, target, raw, path)
            case.equal(env.value("x", scaled=False), raw, "env-raw")
            case.equal(env.value("y", scaled=False), other, "crosstalk")
            check_read(case, prim, scaling, raw)
            got = env.value("x")
            case.equal(got, prim.scaled, "env-scaled")
            case.distinct(kind, scaling, region, path, target)
            # Unscaled writes store as-is.
            raw = prims.value(rng, kind)
            env.set("x", raw, scaled=False)
            case.equal(prim.value, raw, "raw-write", kind)
    case.sample(f"{kind} {scaling} {path} target={target!r} raw={raw}")


def check_read(case, prim, scaling, raw):
    """Reading applies the polynomial."""

    if not scaling:
        case.equal(prim.scaled, raw, "unscaled-read")
        return
    want, mag, power = Fraction(0), Fraction(0), Fraction(1)
    for coeff in scaling:
        term = Fraction(coeff) * power
        want += term
        mag += abs(term)
        power *= Fraction(raw)
    err = abs(Fraction(prim.scaled) - want)
    case.expect(
        err <= mag / 2**40,
        "scaled-read",
        f"{scaling} raw={raw} got={prim.scaled} want={float(want)}",
    )
    case.equal(prim.scale(raw), prim.scaled, "scale-method")


def floats(case):
    """Floating-point channels."""

    rng = case.rng
    for _ in range(6):
        kind = rng.choice(["float", "double", "half"])
        scaling = scaling_for(rng) if rng.random() < 0.85 else None
        prim = prims.make(kind, scaling=scaling)
        env = None
        if kind != "half":
            env = ChannelEnvironment()
            env.float_channel("x", prim, commandable=True)
            cmd = ChannelCommandProcessor(env, LOG)
        for _ in range(5):
            target = rng.choice([0.0, 1.0, -2.5, rng.uniform(-1e6, 1e6)])
            path = rng.choice(["prim", "env", "string", "command"])
            if path == "prim" or env is None:
                prim.scaled = target
            elif path == "env":
                env.set("x", target)
            elif path == "string":
                env.set("x", repr(target))
            else:
                case.event("commands")
                case.expect(
                    bool(cmd.command(f"set x {plain(target)}")), "command-refused"
                )
            ideal = ideal_raw(target, scaling)
            mag = abs(ideal)
            if scaling:
                mag += (abs(Fraction(target)) + abs(Fraction(scaling[0]))) / (
                    abs(Fraction(scaling[1]))
                )
            eps = 2**22 if kind != "double" else 2**48
            case.event("in_range")
            case.expect(
                abs(Fraction(prim.value) - ideal) <= mag / eps,
                "float-invert",
                f"{kind} {scaling} {target} got {prim.value}",
            )
            check_read(case, prim, scaling, prim.value)
            case.distinct(kind, scaling, target, path)
    case.sample(f"{kind} {scaling} {target!r}")


def polynomials(case):
    """Reads with polynomials of any degree; writes never corrupt."""

    rng = case.rng
    for _ in range(10):
        kind = rng.choice(["int8", "uint8", "int16", "int32", "double",
                           "float", "uint64"])
        degree = rng.randint(1, 5)
        scaling = [
            rng.choice([0, 1, -1, 0.5, 2.5, rng.uniform(-3, 3)])
            for _ in range(degree)
        ]
        prim = prims.make(kind, scaling=scaling)
        raw = prims.value(rng, kind)
        if isinstance(raw, float):
            raw = float(rng.randint(-1000, 1000)) / 8
        prim.value = raw
        case.equal(prim.value, raw, "raw", kind)
        check_read(case, prim, scaling, raw)
        case.event("poly_reads")
        case.distinct(kind, scaling, raw)
        env = ChannelEnvironment()
        env.channel("x", kind, scaling=scaling)
        env.set("x", raw, scaled=False)
        case.equal(env.value("x"), prim.scaled, "env-poly")
        case.equal(env.value("x", scaled=False), raw, "env-raw")
        assert math.isfinite(prim.scaled)


def bit_bounds(case):
    """Round trips at every raw value of the small kinds."""

    rng = case.rng
    kind = ["int8", "uint8"][case.index % 2]
    scaling = scaling_for(rng)
    low, high = prims.bounds(kind)
    prim = prims.make(kind, scaling=scaling)
    other = prims.make(kind, scaling=scaling)
    for raw in range(low, high + 1):
        prim.value = raw
        other.scaled = prim.scaled
        case.expect(
            abs(other.value - raw)
            <= (abs(scaling[0] / scaling[1]) + abs(raw)) * 1e-12 + 1e-9,
            "roundtrip",
            f"{kind} {scaling} {raw}->{prim.scaled}->{other.value}",
        )
        case.event("in_range")
    case.distinct(kind, scaling)


KINDS = {
    "integers": (integers, 800, 4800),
    "floats": (floats, 320, 1920),
    "polynomials": (polynomials, 240, 1440),
    "bit_bounds": (bit_bounds, 160, 960),
}
