"""C16: HTTP messages are parsed identically under any segmentation."""

import asyncio
import http
import json
import logging

from lib import nets, vloop

from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.tcp.http import HttpConnection
from runtimepy.net.tcp.protocol import QueueProtocol

PROPERTY = "C16"
RULE = (
    "random pipelined sequences of requests and responses, encoded by an "
    "independent writer and cut into random pieces, given to the message "
    "processor and to live server and client connections (in memory and on "
    "TCP loopback) with slow handlers, early-stopping consumers, concurrent "
    "and abandoned requests; parsed parts, handler calls, written bytes and "
    "request results are compared with the generated messages; non-trivial "
    "= distinct message shapes and cuts with more than one piece"
)
REQUIRED = {"parsed_requests": 2000, "parsed_responses": 2000,
            "split_headers": 500, "split_bodies": 300, "pipelined": 500,
            "round_trips": 500, "served": 1500, "unhandled": 50,
            "bodies": 500, "multibyte": 200, "queries": 300,
            "client_requests": 800, "abandoned": 60, "early_stops": 30,
            "concurrent": 100, "tcp_exchanges": 100, "lost": 30,
            "documents": 60, "not_documents": 30,
            "absolute": 30, "authority": 30, "asterisk": 30}
LOG = logging.getLogger("verif.c16")
LOG.propagate = False

METHODS = [x.value for x in http.HTTPMethod]
TOKEN = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_!#$%&'*+.^`|~"
SAFE = "abcXYZ019-._~!$&'()*+,;=:@%"
VALUE = "abcXYZ 019-._~!$&'()*+,;=:@%\"<>[]{}\\/?\t"
WIDE = "äöß€漢🎉"


def token(rng, alphabet=TOKEN, low=1, high=12):
    """A random token."""
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(low, high)))


def make_target(case, method):
    """A random request target and its expected parts."""

    rng = case.rng
    if method == "CONNECT":
        case.event("authority")
        host = rng.choice(["localhost", "a.b-c.d", "127.0.0.1", "[::1]"])
        port = rng.randrange(1, 65536)
        return f"{host}:{port}", ("authority", (host, port))
    if method == "OPTIONS" and rng.random() < 0.5:
        case.event("asterisk")
        return "*", ("asterisk", True)
    if rng.random() < 0.1:
        case.event("absolute")
        text = f"http://host:80/{token(rng, SAFE)}?{token(rng, SAFE)}"
        return text, ("absolute", text)

    path = "/" + "/".join(
        token(rng, SAFE, 0, 6) for _ in range(rng.randrange(4))
    )
    query = None
    raw = path
    if rng.random() < 0.6:
        case.event("queries")
        query = token(rng, SAFE + "/?", 0, 12)
        if rng.random() < 0.2:
            query += "#" + token(rng, SAFE)
        raw += "?" + query
    return raw, ("origin", (path, query))


def make_headers(case):
    """Random field lines and the parts they carry."""

    rng = case.rng
    lines = []
    parts = {}
    repeated = set()
    for _ in range(rng.choice([0, 0, 1, 2, 3, 8])):
        name = token(rng)
        if name.lower() == "content-length":
            continue
        value = token(rng, VALUE, 0, 20).strip()
        if rng.random() < 0.2:
            case.event("multibyte")
            value += token(rng, WIDE, 1, 4)
        if name.lower() in parts:
            repeated.add(name.lower())
        parts[name.lower()] = value
        lines.append(
            name
            + ":"
            + rng.choice(["", " ", "  ", "\t"])
            + value
            + rng.choice(["", "", " ", "\t "])
        )
    return lines, parts, repeated


class Message:
    """A generated message."""

    def __init__(self, case, kind, methods=None, limit=2000):
        rng = case.rng
        self.kind = kind
        self.version = rng.choice([(1, 1), (1, 1), (1, 0), (2, 0), (1, 12)])
        lines, self.headers, self.repeated = make_headers(case)
        self.body = nets.payload(rng, limit) if rng.random() < 0.5 else b""
        if self.body and rng.random() < 0.2:
            # Bodies that look like messages.
            self.body = rng.choice(
                [b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"\n", b"\r\n0"]
            ) * rng.randint(1, 3)
        if self.body or rng.random() < 0.5:
            name = rng.choice(
                ["Content-Length", "content-length", "CONTENT-LENGTH"]
            )
            lines.insert(
                rng.randint(0, len(lines)), f"{name}: {len(self.body)}"
            )
            self.headers["content-length"] = str(len(self.body))
        if self.body:
            case.event("bodies")

        if kind is RequestHeader:
            self.method = rng.choice(methods or METHODS)
            self.target, self.form = make_target(case, self.method)
            first = f"{self.method} {self.target} "
            first += "HTTP/%d.%d" % self.version
        else:
            self.status = rng.choice(list(http.HTTPStatus))
            self.reason = rng.choice(
                ["", "OK", "Not Found", "a b  c", "No handler: x/y.", "öd"]
            )
            first = "HTTP/%d.%d %d" % (*self.version, self.status.value)
            if self.reason or rng.random() < 0.5:
                first += " " + self.reason
        head = "\r\n".join([first] + lines + ["", ""]).encode()
        self.data = head + self.body
        self.head = len(head)

    def verify(self, case, header, payload, where):
        """Compare parsed parts with the generated ones."""

        case.expect(isinstance(header, self.kind), f"{where}-kind")
        case.equal(
            (header.version.major, header.version.minor),
            self.version,
            f"{where}-version",
        )
        if self.kind is RequestHeader:
            case.event("parsed_requests")
            case.equal(str(header.method), self.method, f"{where}-method")
            target = header.target
            case.equal(target.raw, self.target, f"{where}-target")
            got = {
                "origin": target.origin_form,
                "absolute": target.absolute_form,
                "authority": target.authority_form,
                "asterisk": target.asterisk_form or None,
            }
            for form, value in got.items():
                want = self.form[1] if form == self.form[0] else None
                if want is not None:
                    case.equal(value, want, f"{where}-{form}-form")
                else:
                    case.expect(value is None, f"{where}-{form}-form", value)
            if self.form[0] == "origin":
                case.equal(target.path, self.form[1][0], f"{where}-path")
        else:
            case.event("parsed_responses")
            case.equal(
                int(header.status), self.status.value, f"{where}-status"
            )
            case.equal(header.reason, self.reason, f"{where}-reason")
        headers = dict(header.headers)
        case.equal(set(headers), set(self.headers), f"{where}-names")
        for name, value in self.headers.items():
            if name not in self.repeated:
                case.equal(headers[name], value, f"{where}-value", name)
                case.equal(header[name.upper()], value, f"{where}-lookup")
        case.equal(
            header.content_length, len(self.body), f"{where}-content-length"
        )
        case.equal(payload or b"", self.body, f"{where}-body")

    @property
    def shape(self):
        return (
            getattr(self, "method", None) or self.status,
            len(self.headers),
            len(self.body),
        )


def cut(case, messages, style=None):
    """Cut the messages into pieces and note which cuts were made."""

    rng = case.rng
    data = b"".join(x.data for x in messages)
    pieces = nets.segments(rng, data, style)
    edges = set()
    pos = 0
    for piece in pieces:
        pos += len(piece)
        edges.add(pos)
    start = 0
    for item in messages:
        head = start + item.head
        end = start + len(item.data)
        if any(start < x < head for x in edges):
            case.event("split_headers")
        if any(head < x < end for x in edges):
            case.event("split_bodies")
        if end not in edges:
            case.event("pipelined")
        start = end
    case.distinct(
        tuple(x.shape for x in messages), tuple(len(x) for x in pieces)
    )
    return pieces


def parse(case):
    """The message processor alone."""

    rng = case.rng
    kind = rng.choice([RequestHeader, ResponseHeader])
    messages = [Message(case, kind) for _ in range(rng.randint(1, 6))]
    pieces = cut(case, messages)
    case.sample(f"{kind.__name__} {[x.data[:40] for x in messages[:2]]}")

    processor = HttpMessageProcessor()
    got = []
    early = rng.random() < 0.2
    fed = 0
    complete = []
    total = 0
    for item in messages:
        total += len(item.data)
        complete.append(total)
    for piece in pieces:
        fed += len(piece)
        if early and rng.random() < 0.3:
            for item in processor.ingest(piece, kind):
                got.append(item)
                case.event("early_stops")
                break
        else:
            got.extend(processor.ingest(piece, kind))
            case.equal(
                len(got),
                sum(x <= fed for x in complete),
                "parse-not-prompt",
                "messages after each piece",
            )
    if early:
        got.extend(processor.ingest(b"", kind))

    case.equal(len(got), len(messages), "parse-count")
    for item, (header, payload) in zip(messages, got):
        item.verify(case, header, payload, "parse")

    # Repeated fields aren't combined but never depend on segmentation.
    for item, (header, _) in zip(messages, got):
        again = list(HttpMessageProcessor().ingest(item.data, kind))
        case.equal(len(again), 1, "parse-alone")
        case.equal(again[0][0].headers, header.headers, "parse-repeated")


def roundtrip(case):
    """Encoding and parsing give back the same parts."""

    rng = case.rng
    parsed = HttpMessageProcessor()
    items = []
    data = b""
    kind = rng.choice([RequestHeader, ResponseHeader])
    for _ in range(rng.randint(1, 4)):
        major, minor = rng.choice([(1, 1), (1, 0), (3, 14)])
        if kind is RequestHeader:
            method = rng.choice(METHODS)
            target, form = make_target(case, method)
            header = RequestHeader(
                rng.choice([method, http.HTTPMethod(method)]),
                target,
                major,
                minor,
            )
        else:
            header = ResponseHeader(
                major,
                minor,
                rng.choice(list(http.HTTPStatus)),
                rng.choice(["", "why not", "é"]),
            )
        _, fields, _ = make_headers(case)
        for name, value in fields.items():
            header[rng.choice([name, name.upper(), name.title()])] = value
        for name, value in fields.items():
            case.equal(header[name], value, "set-get")
            case.equal(header.get(name.upper()), value, "set-get")
        case.equal(header.get("no such field", "x"), "x", "get-default")
        body = nets.payload(rng) if rng.random() < 0.5 else b""
        if body:
            header["Content-Length"] = str(len(body))
        items.append((header, body))
        data += bytes(header) + body
        case.equal(str(header).encode(), bytes(header), "str-bytes")

    got = []
    for piece in nets.segments(rng, data):
        got.extend(parsed.ingest(piece, kind))
    case.equal(len(got), len(items), "roundtrip-count")
    for (header, body), (other, payload) in zip(items, got):
        case.event("round_trips")
        case.equal(str(other), str(header), "roundtrip-text")
        case.equal(other.headers, header.headers, "roundtrip-headers")
        case.equal(str(other.version), str(header.version), "roundtrip-ver")
        case.equal(payload or b"", body, "roundtrip-body")
        if kind is RequestHeader:
            case.equal(other.method, header.method, "roundtrip-method")
            case.equal(other.target.raw, header.target.raw, "roundtrip-tgt")
        else:
            case.equal(other.status, header.status, "roundtrip-status")
            case.equal(other.reason, header.reason, "roundtrip-reason")


class Transport:
    """An in-memory transport."""

    def __init__(self):
        self.written = bytearray()
        self.wake = asyncio.Event()
        self.closed = False

    def get_extra_info(self, name, default=None):
        return {
            "sockname": ("127.0.0.1", 1),
            "peername": ("127.0.0.1", 2),
        }.get(name, default)

    def write(self, data):
        self.written += data
        self.wake.set()

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed


def read_responses(case, data):
    """An independent response reader."""

    out = []
    data = bytes(data)
    while data:
        pos = data.find(b"\r\n\r\n")
        if pos < 0:
            break
        lines = data[:pos].decode().split("\r\n")
        fields = {}
        for line in lines[1:]:
            name, value = line.split(":", 1)
            case.expect(
                name.lower() not in fields, "duplicate-response-field", line
            )
            fields[name.lower()] = value.strip()
        case.expect(
            fields.get("content-length", "").isdigit(),
            "no-content-length",
            lines,
        )
        size = int(fields["content-length"])
        if len(data) < pos + 4 + size:
            break
        out.append((lines[0], fields, data[pos + 4 : pos + 4 + size]))
        data = data[pos + 4 + size :]
    return out, data


def make_server(case, calls, plans, base=HttpConnection):
    """A server class whose handlers follow the plans."""

    async def handle(response, request, data):
        index = len(calls)
        calls.append((request, data))
        plan = plans[index]
        for _ in range(plan["spin"]):
            await asyncio.sleep(0)
        if plan["nap"]:
            await asyncio.sleep(plan["nap"])
        response["x-index"] = str(index)
        if plan["status"]:
            response.status = plan["status"]
            response.reason = plan["reason"]
        return plan["body"]

    class Server(base):
        handlers = {
            http.HTTPMethod.PUT: handle,
            http.HTTPMethod.DELETE: handle,
        }

        async def get_handler(self, response, request, request_data):
            return await handle(response, request, request_data)

        post_handler = get_handler

    return Server


def make_plan(rng):
    """How a handler answers."""

    return {
        "spin": rng.choice([0, 0, 1, 3]),
        "nap": rng.choice([0, 0, 0.1, 2.5]),
        "status": rng.choice(
            [None, None, http.HTTPStatus.NOT_FOUND, http.HTTPStatus.CREATED]
        ),
        "reason": rng.choice(["", "because of reasons"]),
        "body": rng.choice([None, b"", nets.payload(rng)]),
    }


HANDLED = ["GET", "POST", "PUT", "DELETE"]


def check_responses(case, messages, plans, calls, responses, rest):
    """Requests were handled once, in order, and answered in order."""

    case.equal(bytes(rest), b"", "trailing-bytes")
    case.equal(len(responses), len(messages), "response-count")
    handled = [x for x in messages if x.method in HANDLED]
    case.equal(len(calls), len(handled), "handler-calls")
    for item, (header, payload) in zip(handled, calls):
        item.verify(case, header, payload, "handler")
    index = 0
    for item, (first, fields, body) in zip(messages, responses):
        case.event("served")
        status = int(first.split(" ")[1])
        case.expect(first.startswith("HTTP/1.1 "), "status-line", first)
        if item.method in HANDLED:
            plan = plans[index]
            case.equal(fields.get("x-index"), str(index), "response-order")
            case.equal(body, plan["body"] or b"", "response-body")
            case.equal(
                status, int(plan["status"] or 200), "response-status"
            )
            if plan["status"]:
                case.equal(
                    first.split(" ", 2)[2:] or [""],
                    [plan["reason"]],
                    "response-reason",
                )
            index += 1
        else:
            case.event("unhandled")
            case.equal(status, 501, "unhandled-status")
            case.equal(body, b"", "unhandled-body")


def server(case):
    """A live server connection in memory."""

    rng = case.rng
    messages = [
        Message(case, RequestHeader, HANDLED + ["HEAD", "PATCH", "OPTIONS"])
        for _ in range(rng.randint(1, 7))
    ]
    plans = [make_plan(rng) for _ in messages]
    pieces = cut(case, messages)
    calls = []

    async def main():
        protocol = QueueProtocol()
        transport = Transport()
        protocol.connection_made(transport)
        conn = make_server(case, calls, plans)(transport, protocol)
        task = asyncio.create_task(conn.process())
        for piece in pieces:
            protocol.data_received(piece)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0, 0.05, 1]))
        await asyncio.sleep(200)
        case.expect(not conn.disabled, "connection-ended")
        conn.disable("done")
        await task
        responses, rest = read_responses(case, transport.written)
        check_responses(case, messages, plans, calls, responses, rest)

    case.sample(f"server {[(x.method, x.target) for x in messages[:3]]}")
    vloop.run(main(), limit=2000, grace=0)


def client(case):
    """A live client connection against a raw peer."""

    rng = case.rng

    async def main():
        protocol = QueueProtocol()
        transport = Transport()
        protocol.connection_made(transport)
        conn = HttpConnection(transport, protocol)
        task = asyncio.create_task(conn.process())
        seen = []
        replies = {}
        lose = rng.randrange(1, 12) if rng.random() < 0.2 else None

        async def peer():
            """Answer requests in order, each with its token."""

            pos = 0
            while True:
                await transport.wake.wait()
                transport.wake.clear()
                while True:
                    data = bytes(transport.written[pos:])
                    end = data.find(b"\r\n\r\n")
                    if end < 0:
                        break
                    lines = data[:end].decode().split("\r\n")
                    size = int(
                        [
                            x.split(":")[1]
                            for x in lines
                            if x.lower().startswith("content-length:")
                        ][0]
                    )
                    if len(data) < end + 4 + size:
                        break
                    body = data[end + 4 : end + 4 + size]
                    pos += end + 4 + size
                    number = int(lines[0].split("/")[1].split(" ")[0])
                    seen.append((number, lines[0], body))
                    if lose is not None and len(seen) >= lose:
                        case.event("lost")
                        protocol.connection_lost(None)
                        return
                    reply = Message(case, ResponseHeader)
                    replies[number] = reply
                    await asyncio.sleep(rng.choice([0, 0, 0.2, 1]))
                    for piece in cut(case, [reply]):
                        protocol.data_received(piece)
                        if rng.random() < 0.05:
                            await asyncio.sleep(rng.choice([0, 0.3]))

        async def one(number):
            """Make a single request."""

            await asyncio.sleep(rng.choice([0, 0, 0.1, 1, 5]))
            body = rng.choice([None, b"", nets.payload(rng)])
            header = RequestHeader(
                rng.choice(["GET", "POST"]), f"/{number}"
            )
            timeout = rng.choice([None, None, None, 0.05, 0.5, 1.2])
            case.event("client_requests")
            try:
                result = await asyncio.wait_for(
                    conn.request(header, body), timeout
                )
            except asyncio.TimeoutError:
                case.event("abandoned")
                return
            except ConnectionError:
                case.expect(conn.disabled, "error-while-connected")
                return
            case.expect(number in replies, "response-without-request")
            replies[number].verify(case, *result, "client")
            sent = [x for x in seen if x[0] == number]
            case.equal(len(sent), 1, "request-sent-once")
            case.equal(sent[0][2], body or b"", "request-body")
            case.equal(
                sent[0][1],
                f"{header.method} /{number} HTTP/1.1",
                "request-line",
            )

        answering = asyncio.create_task(peer())
        count = rng.randint(2, 8)
        if rng.random() < 0.7:
            case.event("concurrent")
            work = [asyncio.create_task(one(i)) for i in range(count)]
        else:
            work = []
            for i in range(count):
                work.append(asyncio.create_task(one(i)))
                await asyncio.wait(work[-1:], timeout=60)
                if conn.disabled:
                    break
        done, pending = await asyncio.wait(work, timeout=300)
        if lose is None:
            case.expect(not pending, "request-never-answered")
            case.expect(not conn.disabled, "connection-ended")
        for item in pending:
            item.cancel()
        if pending:
            await asyncio.wait(pending)
        for item in done:
            item.result()
        answering.cancel()
        conn.disable("done")
        await task

    vloop.run(main(), limit=5000, grace=0)


def lost(case):
    """Requests in flight when the connection ends don't wait forever."""

    rng = case.rng

    async def main():
        protocol = QueueProtocol()
        transport = Transport()
        protocol.connection_made(transport)
        conn = HttpConnection(transport, protocol)
        task = asyncio.create_task(conn.process())
        pending = asyncio.create_task(conn.request(RequestHeader()))
        await asyncio.sleep(rng.choice([0, 1]))
        reply = Message(case, ResponseHeader)
        for piece in cut(case, [reply])[:-1]:
            protocol.data_received(piece)
        if rng.random() < 0.5:
            await asyncio.sleep(1)
        case.event("lost")
        if rng.random() < 0.5:
            protocol.connection_lost(None)
        else:
            conn.disable("local")
        done, _ = await asyncio.wait([pending], timeout=60)
        case.expect(done, "request-waits-on-lost-connection")
        if not pending.cancelled() and pending.exception() is None:
            # Only possible when all bytes had arrived.
            reply.verify(case, *pending.result(), "lost")
        await task

    vloop.run(main(), limit=500, grace=0)


def tcp(case):
    """Real sockets between two connections and a raw peer."""

    rng = case.rng
    plans = [make_plan(rng) for _ in range(8)]
    for plan in plans:
        plan["nap"] = 0
    calls = []

    async def pair():
        Server = make_server(case, calls, plans)
        async with HttpConnection.create_pair(peer=Server) as (srv, conn):
            tasks = [
                asyncio.create_task(x.process()) for x in (srv, conn)
            ]
            for i in range(len(plans)):
                body = rng.choice([None, nets.payload(rng, 200000)])
                header, data = await asyncio.wait_for(
                    conn.request(
                        RequestHeader(rng.choice(HANDLED), f"/{i}?a=b"), body
                    ),
                    60,
                )
                case.event("tcp_exchanges")
                case.event("served")
                case.equal(data or b"", plans[i]["body"] or b"", "tcp-body")
                case.equal(header["x-index"], str(i), "tcp-order")
                case.equal(
                    header.status, plans[i]["status"] or 200, "tcp-status"
                )
                case.equal(calls[i][1] or b"", body or b"", "tcp-request")
                case.equal(calls[i][0].target.path, f"/{i}", "tcp-path")
            for item in (srv, conn):
                item.disable("done")
            await asyncio.wait(tasks)

    async def raw():
        conns = []
        loop = asyncio.get_running_loop()
        messages = [Message(case, RequestHeader, HANDLED) for _ in plans]
        pieces = cut(case, messages, rng.choice(["mixed", "large", "one"]))
        async with make_server(case, calls, plans).serve(
            conns.append, host="127.0.0.1", port=0
        ) as srv:
            sock = await nets.raw_client(srv.sockets[0].getsockname()[1])
            try:
                case.expect(await nets.settle(lambda: conns), "accepted")
                task = asyncio.create_task(conns[0].process())
                got = bytearray()

                async def read():
                    while True:
                        part = await loop.sock_recv(sock, 65536)
                        if not part:
                            return
                        got.extend(part)

                reader = asyncio.create_task(read())
                for piece in pieces:
                    await loop.sock_sendall(sock, piece)
                    if rng.random() < 0.2:
                        await asyncio.sleep(0)

                def complete():
                    responses, _ = read_responses(case, got)
                    return len(responses) >= len(messages)

                await nets.settle(complete)
                responses, rest = read_responses(case, got)
                case.event("tcp_exchanges", len(responses))
                check_responses(
                    case, messages, plans, calls, responses, rest
                )
                conns[0].disable("done")
                await task
                reader.cancel()
            finally:
                sock.close()

    vloop.run(rng.choice([pair, raw])(), limit=2000)


def documents(case):
    """Requests for JSON documents."""

    rng = case.rng
    docs = [
        nets.json_value(rng) if rng.random() < 0.8 else None
        for _ in range(rng.randint(2, 8))
    ]
    forms = [
        rng.choice(
            ["application/json", "application/json; charset=utf-8",
             "application/json;x=y", "text/plain", "text/html; charset=utf-8",
             "text/application/json"]
        )
        for _ in docs
    ]
    asked = []

    class Server(HttpConnection):
        """A server of documents."""

        async def get_handler(self, response, request, request_data):
            """Serve a document."""

            assert request_data is None
            return await self.post_handler(response, request, b"null")

        async def post_handler(self, response, request, request_data):
            """Serve a document."""

            index = int(request.target.path[1:])
            asked.append((index, json.loads(request_data)))
            response["Content-Type"] = forms[index]
            await asyncio.sleep(0)
            return json.dumps(
                docs[index],
                ensure_ascii=rng.random() < 0.5,
                indent=rng.choice([None, 1]),
            ).encode()

    async def main():
        async with HttpConnection.create_pair(peer=Server) as (srv, conn):
            tasks = [
                asyncio.create_task(x.process()) for x in (srv, conn)
            ]

            async def one(index):
                """Ask for a document."""

                body = rng.choice([None, nets.json_value(rng)])
                request = (
                    RequestHeader(target=f"/{index}")
                    if body is None
                    else RequestHeader("POST", target=f"/{index}")
                )
                data = None if body is None else json.dumps(body).encode()
                where = f"{forms[index]} {docs[index]!r}"
                try:
                    got = await asyncio.wait_for(
                        conn.request_json(request, data), 60
                    )
                except AssertionError:
                    case.expect(
                        not forms[index].startswith("application/json"),
                        "document-refused", where,
                    )
                    case.event("not_documents")
                else:
                    case.expect(
                        forms[index].startswith("application/json"),
                        "not-a-document", where,
                    )
                    case.equal(
                        json.dumps(got, sort_keys=True),
                        json.dumps(docs[index], sort_keys=True),
                        "document", where,
                    )
                    case.event("documents")
                want = (index, body)
                case.equal(asked.count(want), 1, "asked-once", where)

            order = list(range(len(docs)))
            rng.shuffle(order)
            try:
                if rng.random() < 0.6:
                    await asyncio.gather(*[one(x) for x in order])
                else:
                    for item in order:
                        await one(item)
            finally:
                for item in (srv, conn):
                    item.disable("done")
                await asyncio.wait(tasks)

    vloop.run(main(), limit=2000)
    case.distinct("documents", forms, [repr(x)[:60] for x in docs])


KINDS = {
    "documents": (documents, 40, 1000),
    "parse": (parse, 1200, 60000),
    "roundtrip": (roundtrip, 500, 20000),
    "server": (server, 500, 20000),
    "client": (client, 250, 10000),
    "lost": (lost, 80, 2000),
    "tcp": (tcp, 25, 500),
}
