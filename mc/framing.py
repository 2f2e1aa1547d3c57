"""C01: explicit-state search over the connection object and enumeration of chunkings of a client's byte stream."""
from __future__ import annotations

import copy
import hashlib
import io
import itertools
import json
import pickle
import types


def frame(body: bytes, extra: bytes = b"", first: bytes = b"") -> bytes:
    return first + b"Content-Length: %d\r\n" % len(body) + extra + b"\r\n" + body


def request(seq: int, **args) -> dict:
    return {"seq": seq, "type": "request", "command": "evaluate", "arguments": {"expression": "x", **args}}


def streams(long: bool):
    """name -> (bytes, [end offset of each message], [expression of each message])"""
    out = {}

    def add(name, *parts):
        data, ends = b"", []
        for p in parts:
            data += p[0]
            ends.append(len(data))
        out[name] = (data, ends, [p[1] for p in parts])

    def ev(seq, expr, extra=b"", first=b"", pad=None):
        d = {"seq": seq, "type": "request", "command": "evaluate", "arguments": {"expression": expr}}
        body = json.dumps(d, ensure_ascii=False).encode()
        if pad is not None:
            body = body[:1] + pad + body[1:]
        return frame(body, extra, first), expr

    def bare(seq):
        return frame(json.dumps({"seq": seq, "type": "request", "command": "threads"}).encode()), None

    add("two", ev(1, "a"), ev(2, "b"))
    add("multibyte", ev(1, "\u00e9\u4e2d\U0001f600"), ev(2, "\u4e2d"))
    add("header in text", ev(1, "Content-Length: 7\r\n\r\n{}"), bare(2), ev(3, "z"))
    add("blank lines in body", ev(1, "a", pad=b"\r\n\r\n \r\n"), ev(2, "b", pad=b"\n\r\n\r\n"))
    add(
        "several headers",
        ev(1, "a", extra=b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"),
        ev(2, "b", first=b"X-Note: a: b: c\r\n"),
        bare(3),
    )
    add("short and long", bare(1), ev(2, "y" * (300 if long else 90)), bare(3))
    return out


def canon(obj) -> bytes | None:
    try:
        return hashlib.sha1(pickle.dumps(sorted(vars(obj).items()))).digest()
    except Exception:
        return None


def poll(conn, got: list) -> None:
    while (m := conn.next_message()) is not None:
        got.append(getattr(m, "expression", None))


def due(ends, pos) -> int:
    return sum(1 for e in ends if e <= pos)


def graph(dap, name, stream, maxstep: int):
    """All reachable states under feed(any number of bytes) and poll-one.  None if the object cannot be copied."""
    data, ends, exprs = stream
    first = dap.DebugAdapterConnection()
    if canon(first) is None:
        return None
    try:
        copy.deepcopy(first)
    except Exception:
        return None
    seen = {(0, 0, canon(first))}
    todo = [(0, 0, first, ())]
    trans = 0
    while todo:
        pos, n, conn, hist = todo.pop()
        # poll
        c = copy.deepcopy(conn)
        trans += 1
        try:
            m = c.next_message()
        except Exception as e:
            return trans, len(seen), f"{type(e).__name__}: {e} after {hist}"
        if due(ends, pos) > n:
            if m is None:
                return trans, len(seen), f"message {n + 1} is complete at byte {pos} but not delivered after {hist}"
            if getattr(m, "expression", None) != exprs[n] or m.seq != n + 1:
                return trans, len(seen), f"message {n + 1} delivered as {m!r} after {hist}"
            nxt = [(pos, n + 1, c, hist + ("poll",))]
        else:
            if m is not None:
                return trans, len(seen), f"{m!r} delivered before its last byte (at {pos}) after {hist}"
            nxt = [(pos, n, c, hist + ("poll",))]
        for k in range(1, min(maxstep, len(data) - pos) + 1):
            c = copy.deepcopy(conn)
            trans += 1
            c.receive_data(data[pos : pos + k])
            nxt.append((pos + k, n, c, hist + (k,)))
        for s in nxt:
            key = (s[0], s[1], canon(s[2]))
            if key not in seen:
                seen.add(key)
                todo.append(s)
    return trans, len(seen), None


KINDS = (bytes, bytearray, memoryview)


def chunkings(dap, name, stream, cuts: int):
    """Fresh objects, every way to cut the stream at up to ``cuts`` places, polling between pieces or only at the end."""
    data, ends, exprs = stream
    runs = 0
    outcomes = set()
    left = []
    for r in range(cuts + 1):
        for places in itertools.combinations(range(1, len(data)), r):
            pieces = [data[a:b] for a, b in zip((0,) + places, places + (len(data),))]
            for mask in range(2 ** r):
                runs += 1
                conn = dap.DebugAdapterConnection()
                got: list = []
                pos = 0
                kind = KINDS[runs % 3]
                try:
                    for i, p in enumerate(pieces):
                        conn.receive_data(kind(p))
                        pos += len(p)
                        if i == len(pieces) - 1 or mask >> i & 1:
                            poll(conn, got)
                            if len(got) != due(ends, pos):
                                return runs, outcomes, f"cut at {places}, polled {mask:b}: {len(got)} messages at byte {pos}, {due(ends, pos)} complete"
                    if got != exprs:
                        return runs, outcomes, f"cut at {places}, polled {mask:b}: {got!r}"
                except Exception as e:
                    return runs, outcomes, f"cut at {places}, polled {mask:b}: {type(e).__name__}: {e}"
                outcomes.add((len(pieces), mask))
                if runs % 7 == 0:
                    # a connection abandoned in the middle of something must not disturb another one
                    c2 = dap.DebugAdapterConnection()
                    c2.receive_data(data[: len(data) // 2])
                    c2.next_message()
                    left = [c2]
    return runs, outcomes, None


def refusals(dap):
    """Streams that must be refused, under every split into two: nothing may be delivered from the bad message on."""
    good = frame(json.dumps(request(1)).encode())
    body = lambda n: json.dumps(request(n)).encode()  # noqa: E731
    bad = {
        "no length": b"Content-Type: x\r\n\r\n" + body(2),
        "other header only": b"Length: %d\r\n\r\n" % len(body(2)) + body(2),
        "repeated number": frame(body(1)),
        "skipped number": frame(body(3)),
        "number zero": frame(body(0)),
    }
    problems, runs = [], 0
    for name, b in bad.items():
        for with_first in (True, False):
            if not with_first and name in ("repeated number",):
                continue
            data = (good if with_first else b"") + b
            data2 = data + frame(body(2 if with_first else 1))
            for stream in (data, data2):
                for cut in range(1, len(stream)):
                    runs += 1
                    conn = dap.DebugAdapterConnection()
                    got, refused = 0, None
                    for piece in (stream[:cut], stream[cut:]):
                        conn.receive_data(piece)
                        try:
                            while conn.next_message() is not None:
                                got += 1
                        except Exception as e:
                            refused = e
                            break
                    if refused is None or got != int(with_first):
                        problems.append((name, f"{name}, first={with_first}, cut {cut}: {got} delivered, refused={refused!r}"))
                        break
    return runs, problems


def outgoing(dap, depth: int):
    """All sequences of queue / drain(n): the concatenation is the framed messages in order, numbered from 1."""
    exprs = ["a", "\u00e9\u4e2d\U0001f600", ""]
    runs = 0
    ops = ["q", 1, 3, 50, 10**6, -1, 0]
    outcomes = set()
    for seq in itertools.product(ops, repeat=depth):
        if seq.count("q") == 0 or seq.count("q") > 3:
            continue
        runs += 1
        conn = dap.DebugAdapterConnection()
        got = b""
        k = 0
        try:
            for op in seq:
                if op == "q":
                    n = conn.queue_msg(dap.EvaluateRequest(expression=exprs[k]))
                    k += 1
                    if n != k:
                        return runs, outcomes, f"{seq}: message {k} was numbered {n}"
                else:
                    d = conn.data_to_send() if op == -1 else conn.data_to_send(op)
                    if op >= 0 and len(d) > op:
                        return runs, outcomes, f"{seq}: {len(d)} bytes from data_to_send({op})"
                    got += bytes(d)
            rest = bytes(conn.data_to_send())
            if conn.data_to_send():
                return runs, outcomes, f"{seq}: output left after draining all"
            got += rest
            inp = dap.DebugAdapterConnection()
            inp.receive_data(got)
            back: list = []
            poll(inp, back)
            if back != exprs[:k]:
                return runs, outcomes, f"{seq}: {back!r} instead of {exprs[:k]!r}"
        except Exception as e:
            return runs, outcomes, f"{seq}: {type(e).__name__}: {e}"
        outcomes.add((k, len(rest)))
    return runs, outcomes, None


class Over(BaseException):
    """Ends the adapter's read loop from the outside."""


class Stdin:
    def __init__(self, chunks, on_read) -> None:
        self.chunks = list(chunks)
        self.on_read = on_read

    def _next(self) -> bytes:
        self.on_read()
        if not self.chunks:
            raise Over()
        return self.chunks.pop(0)

    def read(self, n: int = -1) -> bytes:
        d = self._next()
        if 0 <= n < len(d):
            self.chunks.insert(0, d[n:])
            d = d[:n]
        return d

    read1 = read

    def readinto(self, b) -> int:
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def fileno(self) -> int:
        raise io.UnsupportedOperation("fileno")


def server_stream():
    names = ["a", "\u00e9\u4e2d\U0001f600", "Content-Length: 3\r\n\r\n"]
    data, ends = b"", []
    for i, n in enumerate(names):
        body = json.dumps(
            {"seq": i + 1, "type": "request", "command": "initialize", "arguments": {"adapterID": n, "clientName": n}},
            ensure_ascii=False,
        ).encode()
        data += frame(body)
        ends.append(len(data))
    return data, ends


def through_server(m, cuts):
    """The whole adapter reading those chunks: one answer per message, as soon as its last byte is there."""
    import sys

    data, ends = server_stream()
    pieces = [data[a:b] for a, b in zip((0,) + cuts, cuts + (len(data),))]
    out = io.BytesIO()
    state = {"pos": 0}
    sent = list(pieces)
    problems = []
    from .codec import frames

    def on_read():
        have = [f for f in frames(out.getvalue()) if f.get("type") == "response"]
        if len(have) != due(ends, state["pos"]):
            problems.append(f"after {state['pos']} bytes: {len(have)} answers, {due(ends, state['pos'])} complete requests")
        if sent:
            state["pos"] += len(sent.pop(0))

    old = sys.stdin, sys.stdout
    raw = Stdin(pieces, on_read)
    sys.stdin = types.SimpleNamespace(buffer=types.SimpleNamespace(raw=raw, read1=raw.read, read=raw.read))
    sys.stdout = types.SimpleNamespace(buffer=out, flush=lambda: None)
    try:
        srv = m.adapter.DAServer()
        try:
            srv.start()
        except Over:
            pass
        except Exception as e:
            problems.append(f"{type(e).__name__}: {e}")
    finally:
        sys.stdin, sys.stdout = old
    fs = [f for f in frames(out.getvalue()) if f.get("type") == "response"]
    if [f["request_seq"] for f in fs] != [1, 2, 3] or not all(f["success"] for f in fs):
        problems.append(f"answers {[f['request_seq'] for f in fs]}")
    if [f["seq"] for f in frames(out.getvalue())] != list(range(1, len(frames(out.getvalue())) + 1)):
        problems.append("outgoing numbers are not consecutive")
    return problems
