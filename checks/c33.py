"""C33: command lines run what they say and their exit codes tell the outcome.

Commands are executed for real (forked processes that call the package's
entry point, some by executing ``python -m runtimepy``), in scratch
directories; applications that they run leave a trace, servers that they start
are contacted through sockets.
"""

import json
import os
import re
import signal
import socket
import ssl
import struct
import subprocess
import sys
import time

from lib import core

PROPERTY = "C33"
RULE = (
    "a case counts by the command and its options, the applications' outcome "
    "and the way it ended"
)
REQUIRED = {
    "commands": 100, "arbiter": 30, "exit_zero": 25, "exit_nonzero": 20,
    "raised": 5, "several_configs": 10, "directories": 15, "init_only": 3,
    "wait_for_stop": 10, "interrupted": 20, "no_poller": 4, "tcp_echo": 4,
    "udp_echo": 4, "websocket_echo": 3, "http": 3, "json": 4, "loopback": 4,
    "hosts": 4, "tasks": 8, "iterations": 30, "reads": 6, "writes": 6,
    "missing_files": 3, "no_server": 1, "refused": 15, "mtu": 5,
    "processes": 3, "default_names": 3, "tls": 2, "probes": 20,
}
ASSUMPTIONS = [
    "Processes are given 40 s; a stall is only reported when the same case "
    "stalls again.",
    "Only SIGINT is a request to stop (what the command line installs).",
]
STALL_RETRIES = 2
LIMIT_S = 40.0

APP = '''
import asyncio, json, os, signal
from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory

OUT = {out!r}
PLANS = {plans!r}


def log(**kwargs):
    with open(OUT, "a", encoding="utf-8") as stream:
        stream.write(json.dumps(kwargs) + "\\n")


class Counter(ArbiterTask):
    count = 0
    async def dispatch(self):
        self.count += 1
        return True


class CounterTask(TaskFactory[Counter]):
    kind = Counter


def make(name, plan):
    async def app(app):
        config = {{k: app.config[k] for k in ("first", "second", "x")
                  if k in app.config}}
        log(
            name=name, cwd=os.getcwd(), stop=app.stop.is_set(),
            polling=bool(app.tasks["housekeeping"].env.value(
                "poll_connection_metrics")),
            tasks={{k: v.period_s.value for k, v in app.tasks.items()}},
            connections={{k: type(v).__name__
                          for k, v in app.connections.items()}},
            config=config, loop=type(asyncio.get_running_loop()).__module__,
        )
        try:
            if plan["delay"]:
                await asyncio.sleep(plan["delay"])
            if plan["kind"] == "raise":
                raise ValueError(name)
            if plan["kind"] == "wait":
                await app.stop.wait()
            return plan["code"]
        finally:
            log(name=name, end=True, counts={{
                k: v.count for k, v in app.tasks.items()
                if isinstance(v, Counter)
            }}, stop=app.stop.is_set())
    app.__name__ = name
    return app


for NAME, PLAN in PLANS.items():
    globals()[NAME] = make(NAME, PLAN)
'''


def preload():
    """Import what every forked command needs."""

    import importlib

    import uvloop  # noqa

    for name in ("entry", "commands.all", "net.factories", "net.arbiter",
                 "net.apps", "task.trig", "task.sample", "control.step",
                 "net.arbiter.housekeeping", "noise"):
        importlib.import_module(f"runtimepy.{name}")


class Process:
    """One command line."""

    def __init__(self, case, argv, cwd, execute=False):
        self.case = case
        self.argv = [str(x) for x in argv]
        self.code = None
        number = case.check.counters["commands"]
        case.event("commands")
        self.base = case.scratch / f"proc{number}"
        self.report = self.base.with_suffix(".json")
        case.note(f"$ runtimepy {' '.join(self.argv)} (in {cwd})")
        preload()
        sys.stdout.flush()
        sys.stderr.flush()
        out = open(self.base.with_suffix(".out"), "wb")
        err = open(self.base.with_suffix(".err"), "wb")
        env = dict(
            os.environ, PYTHONPATH=str(core.REPO), PYTHONDONTWRITEBYTECODE="1"
        )
        if execute:
            case.event("processes")
            self.proc = subprocess.Popen(
                [sys.executable, "-m", "runtimepy", *self.argv],
                stdin=subprocess.DEVNULL, stdout=out, stderr=err,
                cwd=str(cwd), env=env, start_new_session=True,
                # Interrupts may be ignored where the check was started from.
                preexec_fn=lambda: signal.signal(
                    signal.SIGINT, signal.SIG_DFL
                ),
            )
            self.pid = self.proc.pid
        else:
            self.proc = None
            self.pid = os.fork()
            if self.pid == 0:
                child(self.argv, cwd, out, err, self.report)
        out.close()
        err.close()

    def poll(self):
        """Determine if the process ended."""

        if self.code is not None:
            return True
        pid, status = os.waitpid(self.pid, os.WNOHANG)
        if pid:
            self.code = os.waitstatus_to_exitcode(status)
            if self.proc is not None:
                self.proc.returncode = self.code
            self.case.note(f"exit code {self.code}")
        return bool(pid)

    def wait(self, limit=LIMIT_S):
        """Wait for the process to end."""

        end = time.monotonic() + limit
        while not self.poll():
            if time.monotonic() > end:
                self.kill()
                stall = core.Stalled(
                    f"'{' '.join(self.argv)}' didn't end: {self.err()[-600:]}"
                )
                stall.signature = "command-hangs"
                raise stall
            time.sleep(0.004)
        return self.code

    def interrupt(self, site=None):
        """Send a keyboard interrupt."""

        if self.poll():
            return
        os.kill(self.pid, signal.SIGINT)
        if site is None:
            return

        # An application is waiting for the stop signal. That it doesn't see
        # one isn't because of load if the process is found sleeping.
        end = time.monotonic() + 10.0
        idle = 0
        while not self.poll() and idle < 100:
            if any("end" in x for x in site.trace()):
                return
            time.sleep(0.02)
            if time.monotonic() > end:
                state = open(
                    f"/proc/{self.pid}/stat", encoding="utf-8"
                ).read().rsplit(")", 1)[1].split()[0]
                idle = idle + 1 if state == "S" else 0
        if idle >= 100 and not any("end" in x for x in site.trace()):
            self.case.fail(
                "interrupt-lost",
                f"{self.argv} is idle and its application wasn't told to "
                f"stop: {self.err()[-900:]}",
            )

    def kill(self):
        """End the process."""
        if not self.poll():
            os.kill(self.pid, signal.SIGKILL)
            _, status = os.waitpid(self.pid, 0)
            self.code = os.waitstatus_to_exitcode(status)
            if self.proc is not None:
                self.proc.returncode = self.code

    def err(self):
        """Get text written to stderr."""
        return self.base.with_suffix(".err").read_text("utf-8", "replace")

    def out(self):
        """Get text written to stdout."""
        return self.base.with_suffix(".out").read_text("utf-8", "replace")

    def info(self):
        """Get what the child's entry point reported."""
        if self.report.is_file():
            return json.loads(self.report.read_text())
        return {}


def child(argv, cwd, out, err, report):
    """Body of a forked process."""

    code = 70
    try:
        os.setsid()
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for sig in (signal.SIGPROF, signal.SIGALRM, signal.SIGTERM):
            signal.signal(sig, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.dup2(out.fileno(), 1)
        os.dup2(err.fileno(), 2)
        sys.stdout = os.fdopen(1, "w", closefd=False)
        sys.stderr = os.fdopen(2, "w", closefd=False)
        os.chdir(cwd)
        sys.path.insert(0, str(cwd))
        import logging
        import traceback

        root = logging.getLogger()
        root.handlers[:] = []
        logging.captureWarnings(False)

        from runtimepy.entry import main

        try:
            result = main(["runtimepy", *argv])
            with open(report, "w", encoding="utf-8") as stream:
                json.dump(
                    {"result": repr(result), "cwd": os.getcwd()}, stream
                )
            # What the interpreter makes of sys.exit(result).
            if result is None:
                code = 0
            elif isinstance(result, int):
                code = int(result) & 0xFF
            else:
                code = 1
        except SystemExit as exc:
            code = exc.code if isinstance(exc.code, int) else 1
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def free_port(kind=socket.SOCK_STREAM, host="127.0.0.1"):
    """Get a port that's currently free on every address."""

    with socket.socket(socket.AF_INET, kind) as sock:
        sock.bind(("", 0))
        return sock.getsockname()[1]


class Site:
    """A scratch directory with configurations and applications."""

    counter = 0

    def __init__(self, case):
        Site.counter += 1
        self.case = case
        self.path = case.scratch / f"site{Site.counter}"
        self.path.mkdir()
        self.trace_path = self.path / "trace.jsonl"
        self.module = f"cliapp_{os.getpid()}_{Site.counter}"

    def apps(self, plans):
        """Write the application module."""
        (self.path / f"{self.module}.py").write_text(
            APP.format(out=str(self.trace_path), plans=plans)
        )

    def config(self, name, data):
        """Write a configuration file."""
        path = self.path / name
        path.write_text(json.dumps(data))
        return name

    def trace(self):
        """Read what applications logged."""
        if not self.trace_path.is_file():
            return []
        return [
            json.loads(x)
            for x in self.trace_path.read_text().splitlines()
        ]

    def wait_for(self, proc, cond, what):
        """Wait for a condition on the trace."""

        end = time.monotonic() + LIMIT_S
        while True:
            if cond(self.trace()):
                return
            if proc.poll():
                if cond(self.trace()):
                    return
                self.case.fail(
                    "ended-early",
                    f"{what}: exit code {proc.code}: {proc.err()[-900:]}",
                )
            if time.monotonic() > end:
                proc.kill()
                stall = core.Stalled(f"{what}: {proc.err()[-600:]}")
                stall.signature = "command-stalled"
                raise stall
            time.sleep(0.004)


def common(case, rng, proc, site):
    """Rules for every command that ran to its end."""

    info = proc.info()
    if proc.proc is None:
        case.expect(
            info.get("cwd") == str(site.path if site else case.scratch),
            "directory-restored", f"{proc.argv}: {info}",
        )


# -- arbiter ------------------------------------------------------------


def arbiter(case):
    """Run applications from configuration files."""

    rng = case.rng
    site = Site(case)
    launch = site.path
    stages, plans = [], {}
    for number in range(rng.randint(1, 3)):
        stage = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            name = f"app{len(plans)}"
            plans[name] = {
                "kind": rng.choices(
                    ["return", "raise"], [9, 1]
                )[0],
                "code": rng.choices(
                    [0, rng.choice([1, 2, 7, 77])], [5, 1]
                )[0],
                "delay": rng.choice([0, 0, 0.01, 0.05]),
            }
            stage.append(name)
        stages.append(stage)
    waiting = rng.random() < 0.3
    init_only = not waiting and rng.random() < 0.25
    no_poller = rng.random() < 0.3
    if waiting and rng.random() < 0.8:
        for plan in plans.values():
            plan.update(kind="return", code=0)
    site.apps(plans)

    main = {
        "app": [[f"{site.module}.{x}" for x in y] for y in stages],
        "config": {"first": rng.randint(0, 9)},
    }
    files = [site.config("main.json", main)]
    config = dict(main["config"])
    if rng.random() < 0.5:
        case.event("several_configs")
        other = {"config": {"second": rng.randint(0, 99)}}
        config.update(other["config"])
        files.append(site.config("other.json", other))
        if rng.random() < 0.5:
            files.reverse()

    flags = []
    if waiting:
        flags.append(rng.choice(["-w", "--wait-for-stop", "--wait_for_stop"]))
        case.event("wait_for_stop")
    if init_only:
        flags.append(rng.choice(["-i", "--init-only", "--init_only"]))
        case.event("init_only")
    if no_poller:
        flags.append("--no-poller")
        case.event("no_poller")
    rng.shuffle(flags)
    front = []
    if rng.random() < 0.5:
        case.event("directories")
        launch = case.scratch
        front = [rng.choice(["-C", "--dir"]), str(site.path)]
        if rng.random() < 0.5:
            front[1] = os.path.relpath(front[1], launch)
    no_uvloop = rng.random() < 0.5
    if no_uvloop:
        front.append("--no-uvloop")
    argv = [*front, "arbiter", *flags, *files]
    proc = Process(case, argv, launch, execute=rng.random() < 0.06)
    case.event("arbiter")

    # What's supposed to happen.
    runs, ok = [], True
    for stage in stages:
        if ok:
            runs.append(stage)
            ok = all(
                plans[x]["kind"] == "return" and plans[x]["code"] == 0
                for x in stage
            )
    ran = {x for y in runs for x in y}

    if waiting and ok:
        site.wait_for(
            proc,
            lambda t: sum("end" in x for x in t) == len(plans),
            "applications didn't run",
        )
        time.sleep(rng.choice([0.0, 0.02, 0.15]))
        case.expect(
            not proc.poll(), "ended-without-stop",
            f"exit code {proc.code}: {proc.err()[-500:]}",
        )
        case.event("interrupted")
        proc.interrupt()
    proc.wait()

    trace = site.trace()
    starts = [x for x in trace if "end" not in x]
    case.expect(
        sorted(x["name"] for x in starts) == sorted(ran),
        "applications-ran",
        f"{argv}: {[x['name'] for x in starts]}, expected {sorted(ran)}; "
        f"{proc.err()[-500:]}",
    )
    position = {x["name"]: i for i, x in enumerate(starts)}
    for first, second in zip(runs, runs[1:]):
        case.expect(
            max(position[x] for x in first) < min(
                position[x] for x in second
            ),
            "stage-order", f"{position}",
        )
    for entry in starts:
        case.equal(
            entry["cwd"], str(site.path), "working-directory", f"{argv}"
        )
        case.equal(entry["config"], config, "configuration", f"{argv}")
        case.equal(entry["stop"], init_only, "stop-signal", f"{argv}")
        case.equal(
            entry["polling"], not no_poller, "poller-task", f"{argv}",
        )
        case.equal(
            entry["loop"].startswith("uvloop"), not no_uvloop,
            "event-loop", f"{argv}: {entry['loop']}",
        )
    case.expect(
        (proc.code == 0) is ok, "exit-code",
        f"{argv}: {proc.code} but applications "
        f"{'succeeded' if ok else 'failed'}: {plans}",
    )
    if ok:
        case.event("exit_zero")
    else:
        case.event("exit_nonzero")
        last = [plans[x] for x in runs[-1]]
        if any(x["kind"] == "raise" for x in last):
            case.event("raised")
        elif len(last) == 1:
            case.equal(proc.code, last[0]["code"], "single-exit-code", argv)
    if launch == site.path or proc.proc is None:
        info = proc.info()
        if proc.proc is None:
            case.equal(
                info.get("cwd"), str(launch), "directory-restored", f"{argv}"
            )
    case.distinct(
        "arbiter", len(stages), tuple(sorted(flags)), bool(front), ok,
        len(files),
    )


# -- servers ------------------------------------------------------------


def connect(proc, host, port, limit=LIMIT_S):
    """Connect to a server once it's there."""

    end = time.monotonic() + limit
    while True:
        try:
            return socket.create_connection((host, port), timeout=10)
        except OSError as exc:
            if proc.poll() or time.monotonic() > end:
                proc.kill()
                stall = core.Stalled(
                    f"can't connect to {host}:{port} ({exc}), exit code "
                    f"{proc.code}: {proc.err()[-900:]}"
                )
                stall.signature = "not-listening"
                raise stall from exc
            time.sleep(0.01)


def receive(sock, count):
    """Receive an exact number of bytes."""

    data = bytearray()
    while len(data) < count:
        got = sock.recv(count - len(data))
        if not got:
            raise EOFError(f"{len(data)} of {count} bytes")
        data += got
    return bytes(data)


def prefixed(data):
    """Get a length-prefixed message."""
    text = json.dumps(data).encode()
    return struct.pack(">I", len(text)) + text


def exchange_tcp(case, rng, sock):
    """An echo server returns everything."""

    for _ in range(rng.randint(1, 4)):
        data = rng.randbytes(rng.choice([1, 10, 500, 5000]))
        sock.sendall(data)
        case.equal(receive(sock, len(data)), data, "tcp-echo", "")


def exchange_json(case, rng, send, recv):
    """A JSON peer answers loopback requests."""

    for number in range(rng.randint(1, 3)):
        token = rng.randint(0, 10**9)
        ident = 10**6 + number
        send({"loopback": {"value": token}, "__id__": ident})
        while True:
            got = recv()
            if got.get("__id__") == ident:
                break
            # The peer asks for something itself.
            if "loopback" in got:
                send(got)
        case.equal(
            got, {"loopback": {"value": token}, "__id__": ident},
            "json-loopback", "",
        )
        case.event("json")


def exchange_ws(case, rng, kind, port, secure=False):
    """Talk to a WebSocket server."""

    from websockets.sync.client import connect as ws_connect

    with ws_connect(
        f"ws://localhost:{port}", open_timeout=20, close_timeout=5
    ) as conn:
        if kind == "json":
            exchange_json(
                case, rng,
                lambda x: conn.send(prefixed(x)),
                lambda: json.loads(conn.recv(timeout=20)[4:]),
            )
        else:
            for _ in range(rng.randint(1, 3)):
                data = rng.choice(
                    ["text" * rng.randint(1, 50),
                     rng.randbytes(rng.randint(1, 300))]
                )
                conn.send(data)
                case.equal(conn.recv(timeout=20), data, "ws-echo", "")
                case.event("websocket_echo")


def server(case):
    """Run the 'server' command and talk to it."""

    rng = case.rng
    site = Site(case)
    kind = rng.choice(
        ["tcp_echo", "udp_echo", "websocket_echo", "tcp_json", "udp_json",
         "websocket_json", "http", "runtimepy_http", "tls"]
    )
    udp = kind.startswith("udp")
    factory = {"tls": "tcp_echo"}.get(kind, kind)
    if rng.random() < 0.5:
        # Names of classes work as well.
        factory = {
            "tcp_echo": "TcpEcho", "udp_echo": "UdpEcho",
            "websocket_echo": "WebsocketEcho", "tcp_json": "TcpJson",
            "udp_json": "UdpJson", "websocket_json": "WebsocketJson",
            "http": "Http", "runtimepy_http": "RuntimepyHttp",
        }[factory]
    site.apps({"app0": {"kind": "wait", "code": 0, "delay": 0}})
    config = site.config(
        "c.json", {"app": f"{site.module}.app0", "config": {"x": 1}}
    )
    port = free_port(socket.SOCK_DGRAM if udp else socket.SOCK_STREAM)
    loopback = kind != "tls" and rng.random() < 0.4
    host = None
    if not loopback and rng.random() < 0.6:
        host = rng.choice(["127.0.0.1", "127.0.0.2", "0.0.0.0"])
    argv = ["server", rng.choice(["-p", "--port"]), port]
    if udp:
        argv.append(rng.choice(["-u", "--udp"]))
    if loopback:
        argv.append(rng.choice(["-l", "--loopback"]))
    if host:
        argv += ["--host", host]
    if kind == "tls":
        cert, key = certificate(case)
        argv += ["--certfile", cert, "--keyfile", key]
    argv += [factory, config]
    if rng.random() < 0.4:
        argv.insert(0, "--no-uvloop")
    proc = Process(case, argv, site.path, execute=rng.random() < 0.06)
    try:
        site.wait_for(proc, lambda t: t, "the application didn't run")
        start = site.trace()[0]
        case.equal(start["config"], {"x": 1}, "configuration", argv)
        target = host if host and host != "0.0.0.0" else "127.0.0.1"

        if kind in ("tcp_echo", "tls"):
            sock = connect(proc, target, port)
            if kind == "tls":
                context = ssl.create_default_context()
                context.check_hostname = False
                context.verify_mode = ssl.CERT_NONE
                sock = context.wrap_socket(sock)
                case.event("tls")
            with sock:
                exchange_tcp(case, rng, sock)
            case.event("tcp_echo")
        elif kind == "tcp_json":
            with connect(proc, target, port) as sock:

                def send(data):
                    sock.sendall(prefixed(data))

                def recv():
                    size = struct.unpack(">I", receive(sock, 4))[0]
                    return json.loads(receive(sock, size))

                exchange_json(case, rng, send, recv)
        elif udp:
            with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sock:
                sock.settimeout(20)
                sock.connect((target, port))
                if kind == "udp_json":

                    def send(data):
                        sock.send(prefixed(data))

                    def recv():
                        data = sock.recv(65535)
                        return json.loads(data[4:])

                    exchange_json(case, rng, send, recv)
                else:
                    for _ in range(rng.randint(1, 4)):
                        data = rng.randbytes(rng.randint(1, 1200))
                        sock.send(data)
                        case.equal(sock.recv(65535), data, "udp-echo", "")
                    case.event("udp_echo")
        elif kind.startswith("websocket"):
            if target == "127.0.0.1":
                exchange_ws(case, rng, kind.split("_")[1], port)
        else:
            with connect(proc, target, port) as sock:
                sock.sendall(
                    b"GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n"
                )
                got = sock.recv(4096)
                case.expect(
                    got.startswith(b"HTTP/1.1 ")
                    and got.endswith(b"\r\n\r\n"),
                    "http-response", repr(got),
                )
            case.event("http")

        # The requested address is the only one that's listened on.
        if host and kind not in ("udp_echo", "udp_json"):
            for other in ("127.0.0.1", "127.0.0.2", "127.0.0.3"):
                case.event("hosts")
                with socket.socket() as sock:
                    sock.settimeout(10)
                    got = sock.connect_ex((other, port)) == 0
                case.equal(
                    got, host in ("0.0.0.0", other), "listening-address",
                    f"{argv}: connecting to {other}",
                )
        elif host:
            for other in ("127.0.0.1", "127.0.0.2", "127.0.0.3"):
                case.event("hosts")
                with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sk:
                    try:
                        sk.bind((other, port))
                        got = False
                    except OSError:
                        got = True
                case.equal(
                    got, host in ("0.0.0.0", other), "listening-address",
                    f"{argv}: {other}",
                )

        if loopback:
            case.event("loopback")
            clients = {
                k: v for k, v in start["connections"].items()
                if k.endswith("client")
            }
            case.equal(
                len(clients), 1, "loopback-client", f"{argv}: {start}"
            )
        else:
            case.expect(
                len(start["connections"]) <= (1 if udp else 0),
                "connections", f"{argv}: {start}",
            )
        case.expect(
            not proc.poll(), "ended-early", f"{proc.code} {proc.err()[-500:]}"
        )
        case.event("interrupted")
        proc.interrupt(site)
        case.equal(
            proc.wait(), 0, "exit-code", f"{argv}: {proc.err()[-500:]}"
        )
        ends = [x for x in site.trace() if "end" in x]
        case.expect(
            len(ends) == 1 and ends[0]["stop"], "clean-end", f"{ends}"
        )
    finally:
        proc.kill()
    case.distinct("server", kind, loopback, host, "--no-uvloop" in argv)


def certificate(case):
    """Create a self-signed certificate."""

    cert, key = case.scratch / "x.cert", case.scratch / "x.key"
    done = subprocess.run(
        ["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout",
         str(key), "-out", str(cert), "-days", "2", "-subj",
         "/CN=localhost"],
        capture_output=True, check=False, stdin=subprocess.DEVNULL,
    )
    if done.returncode:
        raise core.Inconclusive(f"openssl: {done.stderr[-300:]}")
    return cert, key


# -- tasks --------------------------------------------------------------


def task(case):
    """Run the 'task' command."""

    rng = case.rng
    site = Site(case)
    wait = rng.choice([0.15, 0.3])
    waiting = rng.random() < 0.3
    site.apps({"app0": {"kind": "return", "code": rng.choice([0, 0, 3]),
                        "delay": wait}})
    config = site.config(
        "c.json",
        {
            "app": f"{site.module}.app0",
            "factories": [{"name": f"{site.module}.CounterTask"}],
        },
    )
    rate = rng.choice([20, 50, 100, 12.5, 200, None])
    factory = rng.choice(["sinusoid", "CounterTask", "counter_task"])
    argv = ["task"]
    if rate is not None:
        argv += [rng.choice(["-r", "--rate"]), rate]
    if waiting:
        argv.append("-w")
    argv += [factory, config]
    if rng.random() < 0.4:
        argv.insert(0, "--no-uvloop")
    proc = Process(case, argv, site.path)
    try:
        site.wait_for(
            proc, lambda t: any("end" in x for x in t), "no application"
        )
        trace = site.trace()
        code = proc_code = None
        with open(site.path / f"{site.module}.py", encoding="utf-8") as fd:
            code = 3 if "'code': 3" in fd.read() else 0
        if waiting and code == 0:
            time.sleep(0.05)
            case.expect(not proc.poll(), "ended-without-stop", proc.argv)
            case.event("interrupted")
            proc.interrupt()
        proc_code = proc.wait()
        case.equal(proc_code, code, "exit-code", proc.argv)
        tasks = {
            k: v for k, v in trace[0]["tasks"].items() if k != "housekeeping"
        }
        case.equal(list(tasks), [factory], "tasks", f"{argv}: {trace[0]}")
        period = tasks[factory]
        want = 1.0 / (10 if rate is None else rate)
        case.expect(
            abs(period - want) < 1e-6, "task-rate",
            f"{argv}: period {period}, expected {want}",
        )
        if factory != "sinusoid":
            count = trace[1]["counts"][factory]
            case.event("iterations", count)
            # It can't be too fast, and it does run.
            case.expect(
                1 <= count, "task-iterations",
                f"{argv}: {count} iterations",
            )
        case.event("tasks")
    finally:
        proc.kill()
    case.distinct("task", rate, factory, waiting, code)


# -- file transfer ------------------------------------------------------


def tftp(case):
    """Transfer files with the 'tftp' command."""

    rng = case.rng
    site = Site(case)
    served = site.path / "served"
    client = site.path / "client"
    served.mkdir()
    client.mkdir()
    port = free_port(socket.SOCK_DGRAM)
    site.apps({"app0": {"kind": "wait", "code": 0, "delay": 0}})
    config = site.config(
        "c.json",
        {
            "includes": ["package://runtimepy/factories.yaml"],
            "clients": [
                {"factory": "tftp", "name": "server",
                 "kwargs": {"local_addr": ["127.0.0.1", port]}}
            ],
            "app": f"{site.module}.app0",
        },
    )
    daemon = Process(
        case, ["-C", str(served), "arbiter", str(site.path / config)],
        site.path,
    )
    try:
        site.wait_for(daemon, lambda t: t, "the server didn't start")
        for number in range(rng.randint(2, 4)):
            transfer(case, rng, port, served, client, number)
        case.event("interrupted")
        daemon.interrupt()
        case.equal(daemon.wait(), 0, "exit-code", "server")
    finally:
        daemon.kill()


def transfer(case, rng, port, served, client, number):
    """One transfer."""

    data = rng.randbytes(rng.choice([0, 1, 100, 511, 512, 513, 1024, 9000]))
    name = f"file{number}.bin"
    theirs = rng.choice([None, f"other{number}.bin"])
    operation = rng.choice(["read", "write"])
    how = rng.choices(["ok", "missing", "gone"], [6, 2, 1])[0]
    target = theirs or name
    if operation == "read":
        if how != "missing":
            (served / target).write_bytes(data)
    elif how != "missing":
        (client / name).write_bytes(data)
    elif theirs is None:
        theirs = target = f"other{number}.bin"
    if how == "missing" and operation == "write":
        # The destination can't be created.
        (client / name).write_bytes(data)
        theirs = target = f"no-such-directory/{name}"

    argv = ["-C", str(client), "tftp"]
    argv += [
        rng.choice(["-p", "--port"]),
        port if how != "gone" else free_port(socket.SOCK_DGRAM),
        "-t", {"ok": 5.0, "missing": 0.4, "gone": 0.2}[how], "-r", 0.1,
    ]
    if rng.random() < 0.3:
        argv += ["-m", "octet"]
    argv += [operation, rng.choice(["127.0.0.1", "localhost"]), name]
    if theirs is not None:
        argv.append(theirs)
    else:
        case.event("default_names")
    if rng.random() < 0.5:
        argv.insert(0, "--no-uvloop")
    proc = Process(case, argv, case.scratch)
    try:
        code = proc.wait()
    finally:
        proc.kill()
    where = client / name if operation == "read" else served / target
    if how == "ok":
        case.expect(
            where.is_file() and where.read_bytes() == data,
            "transferred-file", f"{argv}: {where}; {proc.err()[-500:]}",
        )
        case.event("reads" if operation == "read" else "writes")
    case.event({"ok": "exit_zero", "missing": "missing_files",
                "gone": "no_server"}[how])
    case.expect(
        (code == 0) is (how == "ok"), "exit-code",
        f"{argv} ({how}): exit code {code}",
    )
    case.distinct("tftp", operation, how, theirs is None, len(data))


# -- refused ------------------------------------------------------------


def refused(case):
    """Command lines that can't be run."""

    rng = case.rng
    site = Site(case)
    site.apps({"app0": {"kind": "return", "code": 0, "delay": 0}})
    config = site.config("c.json", {"app": f"{site.module}.app0"})
    options = [
        ([], None),
        (["what", config], 2),
        (["arbiter"], 2),
        (["arbiter", "--no-such-option", config], 2),
        (["server", config, "-p"], 2),
        (["server", "-p", "x", "tcp_echo", config], 2),
        (["task", "-r", "fast", "sinusoid", config], 2),
        (["task"], 2),
        (["tftp", "fetch", "localhost", "a"], 2),
        (["tftp", "read", "localhost"], 2),
        (["mtu", "--probe-size", "x", "localhost"], 2),
        (["arbiter", "missing.json"], 1),
        (["arbiter", config, "missing.json"], 1),
        (["task", "no_such_factory", config], 1),
        (["server", "no_such_factory", config], 1),
        (["-C", str(site.path / "missing"), "arbiter", config], 1),
    ]
    argv, want = rng.choice(options)
    case.event("refused")
    proc = Process(case, argv, site.path)
    try:
        code = proc.wait()
    finally:
        proc.kill()
    case.equal(site.trace(), [], "ran-anyway", f"{argv}")
    if argv:
        case.expect(code != 0, "exit-code", f"{argv}: {code}")
    if want == 2:
        case.equal(code, 2, "usage-exit-code", f"{argv}")
        case.expect(
            "usage" in proc.err(), "usage-message", proc.err()[-300:]
        )
    case.distinct("refused", tuple(argv[:2]), code)

    # These do nothing and succeed.
    argv = rng.choice([["noop"], ["--version"], ["--help"], ["mtu", "-h"]])
    proc = Process(case, argv, site.path)
    try:
        case.equal(proc.wait(), 0, "exit-code", f"{argv}")
    finally:
        proc.kill()
    if argv == ["--version"]:
        from runtimepy import VERSION

        case.expect(VERSION in proc.out(), "version", proc.out())


# -- mtu ----------------------------------------------------------------


def kernel_mtu(address):
    """What the kernel knows about the path to a destination."""

    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sock:
        sock.connect(address)
        return sock.getsockopt(socket.IPPROTO_IP, 14)


def mtu(case):
    """Discover the maximum transmission unit."""

    rng = case.rng
    site = Site(case)
    tcp = rng.random() < 0.4
    with socket.socket(
        socket.AF_INET, socket.SOCK_STREAM if tcp else socket.SOCK_DGRAM
    ) as sock:
        sock.bind(("127.0.0.1", 0))
        if tcp:
            sock.listen()
        port = sock.getsockname()[1]
        argv = ["mtu"]
        size = None
        if rng.random() < 0.5:
            size = rng.choice([1, 100, 1432, 9000])
            argv += ["--probe-size", size]
        if tcp:
            argv.append(rng.choice(["-t", "--tcp"]))
        argv += [rng.choice(["127.0.0.1", "localhost"]), port]
        proc = Process(case, argv, site.path)
        try:
            case.equal(proc.wait(), 0, "exit-code", f"{argv}")
        finally:
            proc.kill()
        sock.settimeout(10)
        want = 1432 if size is None else size
        if tcp:
            conn, _ = sock.accept()
            with conn:
                conn.settimeout(10)
                got = b""
                while len(got) < want:
                    part = conn.recv(65536)
                    if not part:
                        break
                    got += part
        else:
            got = sock.recv(65536)
        case.equal(len(got), want, "probe-size", f"{argv}")
        text = re.findall(r"is (\d+)", proc.err() + proc.out())
        case.event("mtu")
        if not tcp:
            expected = kernel_mtu(("127.0.0.1", port))
            case.expect(
                str(expected) in text, "reported-mtu",
                f"{argv}: {text}, the kernel says {expected}",
            )
    case.distinct("mtu", tcp, size)


def probes(case):
    """Discover the maximum transmission unit in this process."""

    from runtimepy.net.mtu import (
        SocketConstants,
        discover_mtu,
        socket_discover_mtu,
    )

    rng = case.rng
    fill = bytes([rng.randint(0, 255)])
    asked = []

    def create(size):
        asked.append(size)
        return fill * size

    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as receiver:
        receiver.bind(("127.0.0.1", 0))
        receiver.settimeout(10)
        address = receiver.getsockname()
        size = rng.choice([1, 68, 500, 1432, 8000, 65507, 70000])
        want = kernel_mtu(address)
        fallback = rng.choice([1500, 576])
        if rng.random() < 0.5:
            got = discover_mtu(
                *address, probe_size=size, fallback=fallback,
                probe_create=create,
            )
        else:
            with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sock:
                mode = rng.choice([0, 1, 2, 3])
                sock.setsockopt(
                    socket.IPPROTO_IP, SocketConstants.IP_MTU_DISCOVER, mode
                )
                sock.connect(address)
                got = socket_discover_mtu(
                    sock, size, fallback, probe_create=create
                )
                case.equal(
                    sock.getsockopt(
                        socket.IPPROTO_IP, SocketConstants.IP_MTU_DISCOVER
                    ),
                    mode, "discovery-mode", "not restored",
                )
        case.event("probes")
        case.equal(got, want, "discovered-mtu", f"probe size {size}")
        case.equal(asked, [size], "probe-created", "")
        if size <= 65507:
            data, _ = receiver.recvfrom(65536)
            case.equal(data, fill * size, "probe-payload", "")
    case.distinct("probe", size, fallback)


def kept(func):
    """Serve with a case's own directory as the working directory."""

    def wrapper(case):
        previous = os.getcwd()
        try:
            func(case)
        finally:
            os.chdir(previous)

    return wrapper


KINDS = {
    "arbiter": (kept(arbiter), 90, 1500),
    "server": (kept(server), 70, 1000),
    "task": (kept(task), 20, 300),
    "tftp": (kept(tftp), 12, 200),
    "refused": (kept(refused), 30, 400),
    "mtu": (kept(mtu), 12, 150),
    "probes": (kept(probes), 60, 600),
}
