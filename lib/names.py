"""Name generators."""

import re

CHANNEL = re.compile(r"[a-zA-Z0-9_.-]+")
DEFAULT = re.compile(r"[\w\:.\-_\/]+")


def channel(rng, used=()):
    """A fresh name that channels and fields accept."""
    while True:
        name = "".join(
            rng.choice("abcXYZ019_.-") for _ in range(rng.randint(1, 8))
        )
        if name not in used:
            return name


def general(rng, used=()):
    """A fresh name that general registries and enumerations accept."""
    while True:
        name = "".join(
            rng.choice("abXY09_.-:/é") for _ in range(rng.randint(1, 8))
        )
        if name not in used and not re.fullmatch(r"-?\d+", name):
            return name


def word(rng, used=()):
    """An identifier."""
    while True:
        name = rng.choice("abcdXYZ_") + "".join(
            rng.choice("abcXYZ019_") for _ in range(rng.randint(0, 6))
        )
        if name not in used:
            return name


def bad(rng):
    """A malformed name."""
    return rng.choice(["", " ", "a b", "a\n", "a,b", "x$", "(y)", "a*", "é!"])


def enum_items(rng, bits=8, signed=False):
    """Members of an integer enumeration."""
    items = {}
    values = set()
    for _ in range(rng.randint(1, 5)):
        name = word(rng, {x.lower() for x in items} | set(items))
        if name.lower() in {"true", "false", "on", "off", "yes", "no"}:
            continue
        value = rng.randrange(min(1 << bits, 12))
        if value in values:
            continue
        values.add(value)
        items[name] = value
    if not items:
        items["only"] = 1
    return items
