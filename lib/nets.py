"""
Shared workload pieces for the network checks: random segmentations, raw
loopback peers and in-memory connections.
"""

import asyncio
import logging
import socket

LOG = logging.getLogger("verif")


def segments(rng, data, style=None):
    """Cut a byte string into pieces (always covering all of it)."""

    style = style or rng.choice(
        ["bytes", "small", "mixed", "large", "one", "halves"]
    )
    out = []
    pos = 0
    while pos < len(data):
        if style == "bytes":
            size = 1
        elif style == "small":
            size = rng.randint(1, 5)
        elif style == "mixed":
            size = rng.choice([1, 2, 3, 4, 5, 7, 16, 100, 1000])
        elif style == "large":
            size = rng.randint(50, 5000)
        elif style == "halves":
            size = max(1, (len(data) - pos) // 2)
        else:
            size = len(data)
        out.append(data[pos : pos + size])
        pos += size
    if rng.random() < 0.3:
        out.insert(rng.randrange(len(out) + 1), b"")
    return out


def payload(rng, limit=3000):
    """A random message payload with a length around interesting sizes."""

    size = rng.choice(
        [0, 0, 1, 2, 3, 4, 5, 8, 255, 256, 257, rng.randrange(limit)]
    )
    if size == 0:
        return b""
    if rng.random() < 0.3:
        # Bytes that look like prefixes.
        return bytes(rng.choice([0, 0, 0, 1, 4, 255]) for _ in range(size))
    return rng.randbytes(size)


TEXT = "abcXYZ 0129_-{}[]\"\\\n\t\r\0\x7fäöüß€漢字🎉"


def text(rng, limit=200):
    """A random string."""
    size = rng.choice([0, 1, 2, 3, 10, rng.randrange(limit)])
    return "".join(rng.choice(TEXT) for _ in range(size))


def json_value(rng, depth=2):
    """A random JSON value."""

    kind = rng.randrange(8 if depth > 0 else 5)
    if kind == 0:
        return rng.choice([None, True, False])
    if kind == 1:
        return rng.choice([0, -1, 2**31, 2**63, -(2**70), rng.randrange(999)])
    if kind == 2:
        return rng.choice([0.5, -1e300, 1e-300, 3.25])
    if kind in (3, 4):
        return text(rng, 20)
    if kind == 5:
        return [json_value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return json_dict(rng, depth - 1)


def json_dict(rng, depth=2):
    """A random JSON object."""
    return {
        text(rng, 8): json_value(rng, depth) for _ in range(rng.randrange(4))
    }


async def raw_client(port, host="127.0.0.1"):
    """A raw non-blocking client socket."""

    sock = socket.socket()
    sock.setblocking(False)
    sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    await asyncio.get_running_loop().sock_connect(sock, (host, port))
    return sock


async def settle(done, rounds=4000, pause=0.0005):
    """Let real loopback traffic settle until a condition holds."""

    for i in range(rounds):
        if done():
            return True
        await asyncio.sleep(0 if i < 20 else pause)
        if i > 40:
            # Handlers may be slow (in logical time).
            pause = min(pause * 1.1, 0.02)
    return False
