"""A terminal: what a program running in a pseudo terminal has on its screen."""

import codecs
import fcntl
import json
import os
import pty
import select
import signal
import struct
import subprocess
import sys
import termios
import time

from lib import core

# Deliberately simple, so that it's easy to know what's on the screen.
TERMINFO = r"""vrfterm|simple terminal,
	am, xenl, cols#80, lines#24, colors#8, pairs#64,
	bel=^G, cr=\r, ind=\n, clear=\E[H\E[2J, cup=\E[%i%p1%d;%p2%dH,
	el=\E[K, ed=\E[J, civis=\E[?25l, cnorm=\E[?25h, sgr0=\E[m,
	setaf=\E[3%p1%dm, setab=\E[4%p1%dm, op=\E[39;49m, kcuu1=\E[A,
	kcud1=\E[B,
"""


def terminfo(directory):
    """Compile the terminal's description."""

    out = directory / "terminfo"
    if not out.is_dir():
        source = directory / "vrfterm.ti"
        source.write_text(TERMINFO)
        done = subprocess.run(
            ["tic", "-x", "-o", str(out), str(source)],
            capture_output=True, check=False, stdin=subprocess.DEVNULL,
        )
        if done.returncode or not out.is_dir():
            raise core.Inconclusive(f"tic: {done.stderr[-300:]}")
    return out


class Screen:
    """The state of a terminal, from what's written to it."""

    def __init__(self, lines, cols):
        self.size = lines, cols
        self.grid = {}
        self.y = self.x = 0
        self.cursor = True
        self.pending = ""
        self.bells = 0
        self.decoder = codecs.getincrementaldecoder("utf-8")("replace")

    def resize(self, lines, cols):
        """Change the size (contents out of it is lost)."""
        self.size = lines, cols
        self.grid = {
            k: v for k, v in self.grid.items()
            if k[0] < lines and k[1] < cols
        }
        self.y, self.x = min(self.y, lines - 1), min(self.x, cols - 1)

    def feed(self, data):
        """Handle output."""

        text = self.pending + self.decoder.decode(data)
        self.pending = ""
        pos = 0
        while pos < len(text):
            char = text[pos]
            if char == "\x1b":
                end = pos + 2
                if text[pos + 1:pos + 2] == "[":
                    while end < len(text) and not text[end].isalpha():
                        end += 1
                if end >= len(text):
                    self.pending = text[pos:]
                    return
                self.escape(text[pos + 2:end], text[end])
                pos = end + 1
                continue
            pos += 1
            if char == "\r":
                self.x = 0
            elif char == "\n":
                self.y = min(self.y + 1, self.size[0] - 1)
            elif char == "\b":
                self.x = max(self.x - 1, 0)
            elif char == "\x07":
                self.bells += 1
            elif char == "\t":
                self.x = min((self.x // 8 + 1) * 8, self.size[1] - 1)
            else:
                if self.x >= self.size[1]:
                    self.x = 0
                    self.y = min(self.y + 1, self.size[0] - 1)
                self.grid[(self.y, self.x)] = char
                self.x += 1

    def escape(self, params, final):
        """Handle a control sequence."""

        if final == "H":
            parts = [int(x) for x in params.split(";") if x] + [1, 1]
            if not params:
                parts = [1, 1]
            self.y = min(parts[0] - 1, self.size[0] - 1)
            self.x = min(parts[1] - 1, self.size[1] - 1)
        elif final == "J":
            if params == "2":
                self.grid.clear()
            else:
                for key in list(self.grid):
                    if key >= (self.y, self.x):
                        del self.grid[key]
        elif final == "K":
            for key in list(self.grid):
                if key[0] == self.y and key[1] >= self.x:
                    del self.grid[key]
        elif final == "l":
            self.cursor = False
        elif final == "h":
            self.cursor = True

    def rows(self):
        """Get the lines of text on the screen."""
        return [
            "".join(
                self.grid.get((y, x), " ") for x in range(self.size[1])
            ).rstrip()
            for y in range(self.size[0])
        ]


class Terminal:
    """A pseudo terminal that a forked child runs in."""

    def __init__(self, case, lines, cols, body):
        self.case = case
        self.screen = Screen(lines, cols)
        info = terminfo(case.scratch)
        sys.stdout.flush()
        sys.stderr.flush()
        to_child, from_child = os.pipe(), os.pipe()
        self.master, slave = pty.openpty()
        fcntl.ioctl(
            slave, termios.TIOCSWINSZ,
            struct.pack("HHHH", lines, cols, 0, 0),
        )
        self.written = 0
        self.pid = os.fork()
        self.code = None
        if self.pid == 0:
            code = 70
            try:
                os.setsid()
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                for sig in (signal.SIGPROF, signal.SIGALRM, signal.SIGTERM):
                    signal.signal(sig, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
                log = os.open(
                    case.scratch / "terminal.err",
                    os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                )
                os.dup2(slave, 0)
                os.dup2(slave, 1)
                os.dup2(log, 2)
                sys.stdin = os.fdopen(0, "r", closefd=False)
                sys.stdout = os.fdopen(1, "w", closefd=False)
                sys.stderr = os.fdopen(2, "w", closefd=False)
                os.environ.update(TERM="vrfterm", TERMINFO=str(info))
                for name in ("LINES", "COLUMNS", "TERMINFO_DIRS"):
                    os.environ.pop(name, None)
                os.close(to_child[1])
                os.close(from_child[0])
                os.close(self.master)
                commands = os.fdopen(to_child[0], "r")
                replies = os.fdopen(from_child[1], "w")
                code = body(commands, replies)
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:  # pylint: disable=broad-except
                import traceback

                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code if isinstance(code, int) else 71)
        os.close(slave)
        os.close(to_child[0])
        os.close(from_child[1])
        os.set_blocking(self.master, False)
        self.commands = to_child[1]
        self.replies = from_child[0]
        self.buffer = b""

    def drain(self):
        """Take everything that was written to the terminal so far."""

        while True:
            try:
                data = os.read(self.master, 65536)
            except (BlockingIOError, OSError):
                return
            if not data:
                return
            self.written += len(data)
            self.screen.feed(data)

    def ask(self, **kwargs):
        """Have the child do something."""

        os.write(self.commands, json.dumps(kwargs).encode() + b"\n")
        end = time.monotonic() + 40.0
        while b"\n" not in self.buffer:
            select.select([self.master, self.replies], [], [], 1.0)
            self.drain()
            ready, _, _ = select.select([self.replies], [], [], 0)
            if ready:
                data = os.read(self.replies, 65536)
                if not data:
                    self.close()
                    self.case.fail(
                        "ended-early", f"{kwargs}: {self.errors()[-1200:]}"
                    )
                self.buffer += data
            if time.monotonic() > end:
                self.kill()
                raise core.Stalled(f"{kwargs}: {self.errors()[-600:]}")
        line, self.buffer = self.buffer.split(b"\n", 1)
        self.drain()
        return json.loads(line)

    def type(self, data):
        """Press keys."""
        os.write(self.master, data)

    def resize(self, lines, cols):
        """Change the terminal's size."""
        fcntl.ioctl(
            self.master, termios.TIOCSWINSZ,
            struct.pack("HHHH", lines, cols, 0, 0),
        )
        self.screen.resize(lines, cols)

    def errors(self):
        """What was written to stderr."""
        return (self.case.scratch / "terminal.err").read_text(
            "utf-8", "replace"
        )

    def poll(self):
        """Determine if the child ended."""
        if self.code is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.code = os.waitstatus_to_exitcode(status)
        return self.code is not None

    def wait(self, limit=40.0):
        """Wait for the child to end."""
        end = time.monotonic() + limit
        while not self.poll():
            self.drain()
            if time.monotonic() > end:
                self.kill()
                raise core.Stalled(f"didn't end: {self.errors()[-600:]}")
            time.sleep(0.002)
        self.drain()
        return self.code

    def kill(self):
        """End the child."""
        if not self.poll():
            os.kill(self.pid, signal.SIGKILL)
            _, status = os.waitpid(self.pid, 0)
            self.code = os.waitstatus_to_exitcode(status)

    def close(self):
        """Release everything."""
        self.kill()
        for handle in (self.master, self.commands, self.replies):
            try:
                os.close(handle)
            except OSError:
                pass
