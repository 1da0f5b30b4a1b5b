"""A child process with scripted output (runs isolated, see checks/c26.py)."""

import json
import os
import signal
import sys
import time


def pattern(seed, start, count):
    """A part of an endless stream of bytes."""
    table = bytes((i * 73 + seed * 29 + (i >> 3)) % 251 for i in range(1009))
    start %= len(table)
    repeat = table * ((start + count) // len(table) + 1)
    return repeat[start:start + count]


def put(fd, data):
    """Write everything."""
    while data:
        data = data[os.write(fd, data):]


def main():
    """Perform the plan."""

    with open(sys.argv[1], encoding="utf-8") as plan_fd:
        plan = json.load(plan_fd)
    got = b""
    position = {1: 0, 2: 0}
    for item in plan["steps"]:
        kind = item[0]
        if kind == "write":
            _, fd, size, piece = item
            while size > 0:
                count = min(size, piece)
                put(fd, pattern(plan["seed"] + fd, position[fd], count))
                position[fd] += count
                size -= count
        elif kind == "sleep":
            time.sleep(item[1])
        elif kind == "read":
            while len(got) < item[1]:
                data = os.read(0, min(item[1] - len(got), item[2]))
                if not data:
                    break
                got += data
        elif kind == "drain":
            while True:
                data = os.read(0, item[1])
                if not data:
                    break
                got += data
        elif kind == "echo":
            # Everything until end of input.
            while True:
                data = os.read(0, item[2])
                if not data:
                    break
                got += data
                put(item[1], data)
        elif kind == "close":
            os.close(item[1])
        elif kind == "store":
            with open(plan["input"] + ".tmp", "wb") as out:
                out.write(got)
            os.rename(plan["input"] + ".tmp", plan["input"])
        elif kind == "ready":
            with open(plan["input"] + ".ready", "wb"):
                pass
        elif kind == "ignore":
            for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP,
                        signal.SIGPIPE):
                signal.signal(sig, signal.SIG_IGN)
        elif kind == "hang":
            time.sleep(100.0)
        elif kind == "signal":
            signal.signal(item[1], signal.SIG_DFL) if item[1] != 9 else None
            os.kill(os.getpid(), item[1])
            time.sleep(100.0)
    os._exit(plan["code"])


if __name__ == "__main__":
    main()
