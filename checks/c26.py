"""C26: subprocess output is delivered completely, processes are reaped."""

import asyncio
import json
import logging
import os
from pathlib import Path
import shlex
import signal
import sys
import time

from lib import vloop
from lib.child import pattern

from runtimepy.subprocess import spawn_exec, spawn_shell

PROPERTY = "C26"
RULE = (
    "real child processes write known byte streams to both outputs in "
    "generated pieces, read input, close streams, exit, get killed, hang or "
    "ignore signals while the parent writes input, delays its event loop, "
    "raises, is cancelled and leaves at generated points; queues record "
    "every delivery and are compared with the known streams, the process "
    "table with what must be left; non-trivial = distinct programs"
)
REQUIRED = {"children": 250, "bytes_out": 5000000, "bytes_in": 2000000,
            "exec": 100, "shell": 80, "early": 80, "killed": 12,
            "signals": 20, "raises": 40, "cancels": 40, "no_queue": 80,
            "left_running": 60, "deliveries": 1500, "stored": 120,
            "codes": 100, "failed_spawns": 10, "reused_queues": 40}
LOG = logging.getLogger("verif.c26")
CHILD = Path(__file__).resolve().parent.parent.joinpath("lib", "child.py")


class Planned(Exception):
    """An expected failure."""


class Recorder(asyncio.Queue):
    """A queue that remembers everything that was put."""

    def __init__(self):
        super().__init__()
        self.log = []

    def _put(self, item):
        self.log.append(bytes(item))
        super()._put(item)

    @property
    def data(self):
        """Everything delivered."""
        return b"".join(self.log)


async def arrive(done, limit=3.0):
    """Wait for something."""
    end = time.monotonic() + limit
    while not done() and time.monotonic() < end:
        await asyncio.sleep(0.001)


def gone(pid):
    """Determine if a process was reaped."""
    try:
        os.kill(pid, 0)
    except ProcessLookupError:
        return True
    return False


class Program:
    """A child and what it must do."""

    def __init__(self, case, folder, index, how=None):
        rng = case.rng
        self.seed = rng.randrange(200)
        self.path = folder / f"plan{index}.json"
        self.input = folder / f"input{index}"
        self.steps = []
        self.out = {1: 0, 2: 0}
        self.reads = False
        self.echo = 0
        self.code = rng.choice([0, 0, 1, 2, 77, 255])
        self.how = how or rng.choice(
            ["exit"] * 5 + ["drain"] * 4 + ["echo"] * 3 + ["signal"]
        )
        if self.how == "ignore":
            self.steps.append(["ignore"])
        self.closed = set()
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            kind = rng.choice(["write"] * 5 + ["sleep"])
            if kind == "write":
                fd = rng.choice([1, 2])
                size = rng.choice(
                    [1, 2, 100, 4096, 65536, 65537, 200000,
                     rng.randrange(1, 3000)]
                )
                piece = rng.choice([1, 7, 100, 4096, 100000])
                if size / piece > 500:
                    piece = 4096
                self.steps.append(["write", fd, size, piece])
                self.out[fd] += size
            else:
                self.steps.append(["sleep", rng.choice([0.001, 0.02])])
        self.size = rng.choice([0, 0, 1, 100, 5000, 70000, 300000])
        if self.how == "drain":
            self.reads = True
            self.steps.append(["drain", rng.choice([1000, 100000])])
            self.steps.append(["store"])
            # Output after the end of input.
            if rng.random() < 0.6:
                fd = rng.choice([1, 2])
                size = rng.choice([1, 1000, 60000])
                self.steps.append(["write", fd, size, 65536])
                self.out[fd] += size
        elif self.how == "echo":
            self.reads = True
            self.echo = rng.choice([1, 2])
            self.steps.append(
                ["echo", self.echo, rng.choice([1000, 100000])]
            )
            self.steps.append(["store"])
        elif self.how == "signal":
            self.code = -rng.choice(
                [signal.SIGTERM, signal.SIGKILL, signal.SIGUSR1]
            )
            self.steps.append(["signal", -self.code])
        elif self.how in ("hang", "ignore"):
            self.steps.append(["ready"])
            self.steps.append(["hang"])
            self.code = -signal.SIGKILL
        self.stdin = rng.randbytes(self.size)
        self.path.write_text(
            json.dumps({
                "seed": self.seed, "steps": self.steps,
                "input": str(self.input),
                "code": self.code if self.code >= 0 else 0,
            })
        )

    @property
    def args(self):
        """Command-line arguments."""
        return [sys.executable, "-I", "-S", str(CHILD), str(self.path)]

    def want(self, fd):
        """What must be delivered."""
        data = pattern(self.seed + fd, 0, self.out[fd])
        if self.echo == fd:
            data += self.stdin
        return data


async def hog(case):
    """Keep the event loop busy, so things happen together."""
    for _ in range(case.rng.randint(3, 8)):
        time.sleep(case.rng.choice([0.005, 0.03]))
        await asyncio.sleep(0)


async def feed(case, program, proto):
    """Write input."""

    rng = case.rng
    data = program.stdin
    while data:
        size = rng.choice([1, 10, 1000, 65536, 200000])
        if len(data) > 20000:
            size = max(size, 1000)
        proto.stdin.write(data[:size])
        data = data[size:]
        if rng.random() < 0.3:
            await asyncio.sleep(0)
    case.event("bytes_in", len(program.stdin))


def compare(case, program, queues, where, complete=True):
    """Compare what was delivered."""

    for fd, queue in queues.items():
        if queue is None:
            continue
        got = queue.data[queue.start:]
        want = program.want(fd)
        case.event("deliveries", len(queue.log))
        case.event("bytes_out", len(got))
        if not complete:
            case.expect(
                want.startswith(got), "stream-content",
                f"fd {fd}, {where}: {len(got)} of {len(want)} bytes",
            )
        else:
            case.expect(
                got == want, "stream",
                f"fd {fd}, {where}: {len(got)} bytes, must be {len(want)} "
                f"(first difference at {differ(got, want)}); "
                f"{program.steps}",
            )


def differ(left, right):
    """Find the first difference."""
    for i, (a, b) in enumerate(zip(left, right)):
        if a != b:
            return i
    return min(len(left), len(right))


async def child(case, program, index, reuse=None, cancel_only=False):
    """Run one child."""

    rng = case.rng
    case.event("children")
    queues = {}
    for fd in (1, 2):
        if reuse is not None:
            queues[fd] = reuse[fd]
            case.event("reused_queues")
        elif rng.random() < 0.2:
            case.event("no_queue")
            queues[fd] = None
        else:
            queues[fd] = Recorder()
        if queues[fd] is not None:
            queues[fd].start = len(queues[fd].data)
    kwargs = {"stdout": queues[1], "stderr": queues[2]}
    kwargs = {k: v for k, v in kwargs.items()
              if v is not None or rng.random() < 0.5}
    shell = rng.random() < 0.4
    if shell:
        case.event("shell")
        context = spawn_shell(
            "exec " + " ".join(shlex.quote(x) for x in program.args),
            logger=LOG, **kwargs,
        )
    else:
        case.event("exec")
        context = spawn_exec(*program.args, logger=LOG, **kwargs)

    leave = rng.choice(
        ["exited", "exited", "sentinel", "now", "later"]
        + ["raise", "cancel"]
    )
    if program.reads and leave in ("exited", "sentinel"):
        leave = "now"
    if program.how in ("hang", "ignore"):
        leave = rng.choice(["raise", "cancel", "later"])
    busy = None
    if rng.random() < 0.35:
        case.event("early")
        busy = asyncio.create_task(hog(case))
        await asyncio.sleep(0)
    where = f"{program.how}, {leave}, {'shell' if shell else 'exec'}"
    state = {}
    consumed = {1: [], 2: []}

    async def consume(fd):
        """A reader."""
        while True:
            consumed[fd].append(await queues[fd].get())

    consumers = []

    async def body():
        async with context as proto:
            state["proto"] = proto
            state["pid"] = proto.pid
            state["entered"] = time.monotonic()
            case.expect(proto.pid > 0, "pid", f"{proto.pid}")
            for fd, queue in queues.items():
                if queue is not None and rng.random() < 0.5:
                    consumers.append(asyncio.create_task(consume(fd)))
            if program.reads:
                await feed(case, program, proto)
            if program.how in ("hang", "ignore"):
                ready = Path(str(program.input) + ".ready")
                while not ready.exists():
                    await asyncio.sleep(0.005)
            if leave == "exited":
                await proto.exited.wait()
            elif leave == "sentinel":
                queue = next((x for x in queues.values() if x), None)
                if queue is None:
                    await proto.exited.wait()
                while queue is not None and not any(
                    not x for x in queue.log
                ):
                    await asyncio.sleep(0.001)
            elif leave == "later":
                await asyncio.sleep(rng.choice([0.001, 0.02]))
            if not proto.exited.is_set():
                case.event("left_running")
            state["left"] = time.monotonic()
            if leave == "raise":
                case.event("raises")
                raise Planned(program.seed)
            if leave == "cancel":
                case.event("cancels")
                state["wait"].set()
                await asyncio.sleep(1000.0)

    began = time.monotonic()
    state["wait"] = asyncio.Event()
    task = asyncio.create_task(body())
    if leave == "cancel":
        waiter = asyncio.create_task(state["wait"].wait())
        await asyncio.wait(
            [task, waiter], return_when=asyncio.FIRST_COMPLETED
        )
        state["left"] = time.monotonic()
        task.cancel()
    try:
        await task
        outcome = "return"
    except Planned as exc:
        case.equal(exc.args, (program.seed,), "raised", where)
        outcome = "raise"
    except asyncio.CancelledError:
        outcome = "cancel"
    ended = time.monotonic()
    case.equal(
        outcome, leave if leave in ("raise", "cancel") else "return",
        "outcome", where,
    )

    # Everything is over.
    proto = state["proto"]
    slow = ended - state["left"] > 1.5
    case.expect(proto.exited.is_set(), "exited", where)
    case.expect(gone(state["pid"]), "not-reaped", f"{where}: {state['pid']}")
    code = proto.transport.get_returncode()
    if program.how in ("hang", "ignore"):
        case.event("killed")
        case.equal(code, -signal.SIGKILL, "killed-status", where)
    elif not slow:
        case.event("signals" if code < 0 else "codes")
        case.equal(code, program.code, "exit-status", where)
    else:
        case.event("slow")
    case.expect(
        0 <= proto.elapsed_time <= (ended - began) * 1e9, "elapsed-time",
        f"{where}: {proto.elapsed_time} of {(ended - began) * 1e9}",
    )
    if program.reads and not slow:
        case.event("stored")
        case.expect(
            program.input.exists()
            and program.input.read_bytes() == program.stdin,
            "input", f"{where}: {len(program.stdin)} bytes",
        )

    # Output may still be in a pipe when the process ends.  Readers get to
    # know when there's no more.
    await arrive(
        lambda: all(
            x is None or (
                x.log and not x.log[-1]
                and len(x.data) - x.start >= len(program.want(fd))
            )
            for fd, x in queues.items()
        ), 0.2 if slow else 3.0
    )
    compare(case, program, queues, where, complete=not slow
            or program.how in ("hang", "ignore"))
    for fd, queue in queues.items():
        case.expect(
            queue is None or (queue.log and not queue.log[-1]),
            "end-not-announced", f"fd {fd}, {where}",
        )
    for item in consumers:
        item.cancel()
    if consumers:
        await asyncio.wait(consumers)
    if busy is not None:
        await busy
    case.distinct((program.steps, leave, shell))


def run_io(case):
    """Children one after another."""

    folder = case.scratch
    errors = []

    async def main():
        rng = case.rng
        reuse = None
        if rng.random() < 0.2:
            reuse = {1: Recorder(), 2: Recorder()}
        for i in range(rng.choice([1, 2, 3])):
            await child(case, Program(case, folder, i), i, reuse)

    before = descriptors()
    vloop.run(main(), virtual=False, real_limit=100.0, errors=errors)
    case.expect(not errors, "callback-error", f"{errors}")
    case.expect(
        descriptors() <= before, "descriptors",
        f"{descriptors() - before} left open",
    )


def descriptors():
    """Count pipes that are open."""
    count = 0
    for item in os.listdir("/proc/self/fd"):
        try:
            count += os.readlink(f"/proc/self/fd/{item}").startswith("pipe:")
        except OSError:
            pass
    return count


def run_many(case):
    """Children at the same time, some of which don't end by themselves."""

    folder = case.scratch
    errors = []

    async def main():
        rng = case.rng
        tasks = []
        for i in range(rng.randint(12, 20)):
            how = rng.choice([None, None, "hang", "ignore"])
            tasks.append(
                child(case, Program(case, folder, i, how), i)
            )
        await asyncio.gather(*tasks)

    vloop.run(main(), virtual=False, real_limit=200.0, errors=errors)
    case.expect(not errors, "callback-error", f"{errors}")


def run_spawn(case):
    """Programs that can't be started, and shell commands."""

    rng = case.rng
    errors = []

    async def main():
        for bad in ([str(case.scratch / "missing")], [str(case.scratch)]):
            case.event("failed_spawns")
            try:
                async with spawn_exec(
                    *bad, stdout=Recorder(), stderr=Recorder(), logger=LOG
                ):
                    case.fail("spawned", f"{bad}")
            except OSError:
                pass
        words = [rng.choice(["a", "b c", "$HOME", "x'y", "*"])
                 for _ in range(rng.randint(1, 4))]
        code = rng.randrange(256)
        quoted = " ".join(shlex.quote(x) for x in words)
        out, err = Recorder(), Recorder()
        async with spawn_shell(
            f"printf '%s\\n' {quoted}; printf '%s|' {quoted} >&2; "
            f"cat; exit {code}", stdout=out, stderr=err, logger=LOG,
        ) as proto:
            proto.stdin.write(b"last")
        case.distinct((words, code))
        case.equal(proto.transport.get_returncode(), code, "exit-status",
                   "shell command")
        await arrive(
            lambda: out.data.endswith(b"last") and err.data.count(b"|")
            >= len(words)
        )
        case.equal(
            out.data, "".join(x + "\n" for x in words).encode() + b"last",
            "shell-output",
        )
        case.equal(
            err.data, "".join(x + "|" for x in words).encode(),
            "shell-error",
        )

        # Arguments and the environment reach the program unchanged.
        out, err = Recorder(), Recorder()
        async with spawn_exec(
            "sh", "-c", 'printf "%s\\0" "$@"; printf %s "$EXTRA" >&2; '
            'pwd >&2', "zero", *words, stdout=out, stderr=err, logger=LOG,
            env={"EXTRA": words[0], "PATH": os.environ["PATH"]},
            cwd=str(case.scratch),
        ) as proto:
            pass
        want = b"".join(x.encode() + b"\0" for x in words)
        await arrive(
            lambda: len(out.data) >= len(want) and b"\n" in err.data
        )
        case.equal(
            out.data, want,
            "arguments",
        )
        case.equal(
            err.data,
            words[0].encode() + os.path.realpath(case.scratch).encode()
            + b"\n", "environment",
        )

    vloop.run(main(), virtual=False, real_limit=60.0, errors=errors)
    case.expect(not errors, "callback-error", f"{errors}")


KINDS = {
    "io": (run_io, 130, 3000),
    "many": (run_many, 4, 120),
    "spawn": (run_spawn, 12, 200),
}
