"""Served pages in a small browser (see browser.js)."""

import base64
from html.parser import HTMLParser
import json
from pathlib import Path
import shutil
import subprocess

from lib import core

SCRIPT = Path(__file__).with_name("browser.js")
VOID = {"input", "meta", "link", "br", "hr", "img", "base", "source"}


class Tree(HTMLParser):
    """Parses a page."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = {"tag": "#document", "attrs": {}, "items": [], "text": ""}
        self.stack = [self.root]

    def handle_starttag(self, tag, attrs):
        node = {
            "tag": tag,
            "attrs": {x: "" if y is None else y for x, y in attrs},
            "items": [],
            "text": "",
        }
        self.stack[-1]["items"].append(node)
        if tag not in VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if self.stack[-1]["tag"] == tag and tag not in VOID:
            self.stack.pop()

    def handle_endtag(self, tag):
        for idx in range(len(self.stack) - 1, 0, -1):
            if self.stack[idx]["tag"] == tag:
                del self.stack[idx:]
                break

    def handle_data(self, data):
        self.stack[-1]["text"] += data


def parse(text):
    """Parse a page."""
    tree = Tree()
    tree.feed(text)
    tree.close()

    def strip(node):
        if node["tag"] not in ("script", "textarea"):
            node["text"] = node["text"].strip()
        for item in node["items"]:
            strip(item)

    strip(tree.root)
    return tree.root


class Browser:
    """A running browser."""

    def __init__(self, case):
        self.case = case
        node = shutil.which("node") or shutil.which(
            "node", path="/usr/bin:/usr/local/bin"
        )
        if node is None:
            raise core.Inconclusive("there's no 'node'")
        self.proc = subprocess.Popen(
            [node, "--no-warnings", str(SCRIPT)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
        )
        self.sent = {}
        self.log = []
        self.other = []
        self.sockets = []

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.proc.kill()
        self.proc.communicate()

    def do(self, *ops):
        """Do some things; the result is the last one's."""

        self.proc.stdin.write(json.dumps(ops) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise core.Inconclusive("the browser ended")
        data = json.loads(line)
        for kind, item in data["events"]:
            if kind == "sent":
                url, raw, text = item
                self.sent.setdefault(url, []).append(
                    (base64.b64decode(raw), text)
                )
            elif kind == "log":
                self.log.append(item)
            elif kind == "socket":
                self.sockets.append(item)
            elif kind == "harness":
                raise core.Inconclusive(f"browser: {item}")
            elif kind == "error":
                self.case.fail("page-error", item)
            else:
                self.other.append((kind, item))
        return data["result"]

    def op(self, name, **kwargs):
        return self.do({"op": name, **kwargs})

    def receive(self, url, raw):
        self.op(
            "receive", url=url, data=base64.b64encode(raw).decode()
        )

    def take(self, url):
        """What was sent."""
        out = self.sent.get(url, [])
        self.sent[url] = []
        return out
