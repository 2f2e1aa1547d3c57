"""C02: every message kind, every (bounded) subset of its optional fields, distinguishable values, both directions."""
from __future__ import annotations

import itertools
import json
import os
import pickle

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "dap_table.json")) as _f:
    TABLE = json.load(_f)

ENUMS = {
    "StoppedReason": ["breakpoint", "step", "exception", "pause", "entry", "goto"],
    "Command": sorted({t["id"] for t in TABLE.values() if t["kind"] == "requests"}),
}
# where a nested structure travels: message, field of the message that holds it
CARRIER = {
    "Breakpoint": [("BreakpointEvent", "breakpoint"), ("SetBreakpointsResponse", "breakpoints"), ("SetExceptionBreakpointsResponse", "breakpoints")],
    "Capabilities": [("InitializeResponse", "capabilities")],
    "ExceptionBreakpointsFilter": [("InitializeResponse", "capabilities.exception_breakpoints_filters")],
    "Checksum": [("SetBreakpointsRequest", "source.checksums")],
    "Source": [("SetBreakpointsRequest", "source"), ("OutputEvent", "source"), ("SetBreakpointsRequest", "source.sources"), ("BreakpointEvent", "breakpoint.source"), ("StackTraceResponse", "stack_frames.source"), ("ScopesResponse", "scopes.source")],
    "SourceBreakpoint": [("SetBreakpointsRequest", "breakpoints")],
    "ExceptionFilterOptions": [("SetExceptionBreakpointsRequest", "filter_options")],
    "ExceptionOptions": [("SetExceptionBreakpointsRequest", "exception_options")],
    "ExceptionPathSegment": [("SetExceptionBreakpointsRequest", "exception_options.path")],
    "Message": [("ErrorResponse", "error")],
    "Scope": [("ScopesResponse", "scopes")],
    "StackFrame": [("StackTraceResponse", "stack_frames")],
    "StackFrameFormat": [("StackTraceRequest", "format")],
    "Thread": [("ThreadsResponse", "threads")],
    "ValueFormat": [("EvaluateRequest", "format"), ("SetVariableRequest", "format"), ("VariablesRequest", "format")],
    "Variable": [("VariablesResponse", "variables")],
    "VariablePresentationHint": [("VariablesResponse", "variables.presentation_hint"), ("EvaluateResponse", "presentation_hint")],
}
STR = [
    "plain{n}",
    "",
    "uni\u00e9\u4e2d\U0001f600 \"q\" \\ \r\n\r\nContent-Length: 5 {n}",
]


class Builder:
    """Builds a value and its wire form side by side; every leaf is different from every other."""

    def __init__(self, dap, variant: int, rseq: int = 0) -> None:
        self.rseq = rseq
        self.dap = dap
        self.variant = variant
        self.n = 0

    def leaf(self, code: str):
        self.n += 1
        n, v = self.n, self.variant
        if code == "int":
            return [100 + n, 0, -(2**40) - n][v]
        if code == "bool":
            return [True, False, True][v]
        if code == "str":
            return STR[v].format(n=n)
        if code == "any":
            return [{"k": [n, None, {"x": f"a{n}"}]}, [False, 0, "", {}, []][n % 5], [[n], f"s{n}", None, 1.5]][v]
        if code == "dict":
            return [{f"key{n}": f"v{n}", "other": f"w{n}"}, {}, {"a:b": f"é{n}", "": f"e{n}"}][v]
        raise AssertionError(code)

    def value(self, code: str, depth: int):
        """-> (python value, wire value)"""
        if code.startswith("list:"):
            k = [2, 0, 3][self.variant] if depth < 3 else 0
            items = [self.value(code[5:], depth + 1) for _ in range(k)]
            return [a for a, _ in items], [b for _, b in items]
        if code.startswith("enum:"):
            self.n += 1
            opts = ENUMS[code[5:]]
            w = opts[(self.n + self.rseq) % len(opts)]
            return getattr(self.dap, code[5:])(w), w
        if code.startswith("lit:"):
            self.n += 1
            opts = code[4:].split("/")
            w = opts[(self.n + 1 + self.variant) % len(opts)]
            return w, w
        if code.startswith("obj:"):
            name = code[4:]
            fields = TABLE[name]["fields"]
            sub = [f[0] for f in fields if f[3] == "REQ" or (depth < 2 and self.variant != 1)]
            return self.obj(name, sub, depth + 1)
        v = self.leaf(code)
        return v, json.loads(json.dumps(v))

    def obj(self, name: str, subset, depth: int = 0, fixed=None):
        """-> (object, wire dict of exactly the given fields)"""
        kw, wire = {}, {}
        for attr, path, code, default in TABLE[name]["fields"]:
            if attr not in subset:
                continue
            pv, wv = fixed[attr] if fixed and attr in fixed else self.value(code, depth)
            kw[attr] = pv
            if path is None:  # the free-form arguments of attach and launch
                wire.setdefault("arguments", {}).update(wv)
                continue
            d = wire
            for p in path[:-1]:
                d = d.setdefault(p, {})
            d[path[-1]] = wv
        if TABLE[name]["kind"] == "responses":
            kw["request_seq"] = self.rseq
        return getattr(self.dap, name)(**kw), wire


def subsets(names, full: int):
    names = list(names)
    if len(names) <= full:
        for r in range(len(names) + 1):
            yield from (set(c) for c in itertools.combinations(names, r))
        return
    seen = set()
    for r in (0, 1, 2):
        for c in itertools.combinations(names, r):
            for s in (frozenset(c), frozenset(names) - frozenset(c)):
                if s not in seen:
                    seen.add(s)
                    yield set(s)


def envelope(name: str, wire: dict, seq: int, rseq: int) -> dict:
    t = TABLE[name]
    out = dict(wire)
    out["seq"] = seq
    if t["kind"] == "requests":
        out.update(type="request", command=t["id"])
    elif t["kind"] == "events":
        out.update(type="event", event=t["id"])
    else:
        out.update(type="response", request_seq=rseq, success=name != "ErrorResponse")
        if t["id"]:
            out["command"] = t["id"]
    return out


def wire_problems(got, want, name, path=""):
    """Everything present must be there with its value, everything else absent, null or the default."""
    bad = []
    fields = {}
    for attr, p, code, default in TABLE[name]["fields"]:
        if p is not None:
            fields[tuple(p)] = (code, default)

    def walk(g, w, pre):
        for k in set(g) | set(w):
            at = pre + (k,)
            inner = [p for p in fields if p[: len(at)] == at and len(p) > len(at)]
            if inner:
                gg, ww = g.get(k), w.get(k, {})
                if gg is None:
                    gg = {}
                if not isinstance(gg, dict):
                    bad.append(f"{'.'.join(at)} is {gg!r}")
                    continue
                walk(gg, ww, at)
                continue
            code, default = fields.get(at, (None, None))
            if k in w:
                if k not in g:
                    bad.append(f"{'.'.join(at)} missing")
                elif code and code.startswith("obj:"):
                    bad.extend(wire_problems(g[k], w[k], code[4:], ".".join(at)) if isinstance(g[k], dict) else [f"{'.'.join(at)} = {g[k]!r}"])
                elif code and code.startswith("list:obj:"):
                    if not isinstance(g[k], list) or len(g[k]) != len(w[k]):
                        bad.append(f"{'.'.join(at)} = {g[k]!r}, sent {w[k]!r}")
                    else:
                        for a, b in zip(g[k], w[k]):
                            bad.extend(wire_problems(a, b, code[9:], ".".join(at)))
                elif not same(g[k], w[k]):
                    bad.append(f"{'.'.join(at)} = {g[k]!r}, sent {w[k]!r}")
            else:
                v = g[k]
                if v is None or (code is not None and same(v, default)) or (code and code.startswith("list:") and v == []):
                    continue
                if code is not None or v not in ({}, []):
                    bad.append(f"{'.'.join(at)} = {v!r} though absent")

    walk(got, want, ())
    return [path + ":" + b if path else b for b in bad]


def same(a, b) -> bool:
    return type(a) is type(b) and (
        all(same(x, y) for x, y in zip(a, b)) and len(a) == len(b)
        if isinstance(a, list)
        else set(a) == set(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, dict)
        else a == b
    )


def frames(data: bytes):
    out = []
    while data:
        head, _, rest = data.partition(b"\r\n\r\n")
        h = dict(x.split(b": ", 1) for x in head.split(b"\r\n"))
        n = int(h[b"Content-Length"])
        if len(rest) < n:
            raise ValueError("the length header is wrong")
        out.append(json.loads(rest[:n].decode()))
        data = rest[n:]
    return out


def attr_problems(obj, name, subset, built) -> list:
    bad = []
    for attr, path, code, default in TABLE[name]["fields"]:
        got = getattr(obj, attr)
        if attr in subset:
            want = getattr(built, attr)
            if type(got) is not type(want) or got != want or not deep_same(got, want):
                bad.append(f"{name}.{attr} is {got!r}, sent {want!r}")
        elif default != "REQ" and not (got == default and type(got) is type(default)):
            bad.append(f"{name}.{attr} is {got!r} though absent")
    return bad


def deep_same(a, b) -> bool:
    if isinstance(a, (list, dict)):
        return same(a, b) if not _has_obj(a) else len(a) == len(b)
    return True


def _has_obj(a) -> bool:
    return any(hasattr(x, "__dataclass_fields__") for x in (a if isinstance(a, list) else a.values()))


def jobs(full: int):
    """(target class, carrier message, field path, subset, variant)"""
    for name, t in TABLE.items():
        opt = [f[0] for f in t["fields"] if f[3] != "REQ"]
        req = {f[0] for f in t["fields"] if f[3] == "REQ"}
        for s in subsets(opt, full):
            for v in (0, 1, 2):
                if t["kind"] == "types":
                    for carrier, path in CARRIER[name]:
                        yield name, carrier, path, s | req, v
                else:
                    yield name, name, None, s | req, v


def build(dap, job, rseq=0):
    """-> message, wire dict, built target"""
    name, carrier, path, subset, variant = job
    b = Builder(dap, variant, rseq)
    if path is None:
        m, w = b.obj(name, subset)
        return m, w, m
    pv, wv = b.obj(name, subset, depth=1)
    target = pv
    # from the innermost holder outwards
    holders = []
    cur = carrier
    for p in path.split("."):
        code = next(f[2] for f in TABLE[cur]["fields"] if f[0] == p)
        holders.append((cur, p, code))
        cur = code.split(":")[-1]
    for holder, attr, code in reversed(holders):
        if code.startswith("list:"):
            p2, w2 = b.obj(cur_name(code), [f[0] for f in TABLE[cur_name(code)]["fields"] if f[3] == "REQ"], depth=2)
            pv, wv = [pv, p2], [wv, w2]
        need = {f[0] for f in TABLE[holder]["fields"] if f[3] == "REQ"} | {attr}
        pv, wv = b.obj(holder, need, depth=1, fixed={attr: (pv, wv)})
    return pv, wv, target


def cur_name(code):
    return code.split(":")[-1]


def dig(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
        if isinstance(obj, list):
            obj = obj[0]
    return obj


def check_job(dap, job, rseq: int):
    """Both directions for one case -> list of problems"""
    name, carrier, path, subset, variant = job
    bad = []
    try:
        m, wire, target = build(dap, job, rseq)
    except TypeError as e:
        return [f"cannot build {name}: {e}"]
    is_resp = TABLE[carrier]["kind"] == "responses"
    want = envelope(carrier, wire, 1, rseq)
    # encode
    out = dap.DebugAdapterConnection()
    out.queue_msg(m)
    data = bytes(out.data_to_send())
    got = frames(data)
    if len(got) != 1:
        return [f"{len(got)} frames"]
    got = got[0]
    for k in ("seq", "type", "command", "event", "request_seq", "success"):
        if k in want and not same(got.get(k), want[k]):
            bad.append(f"encode: {k} is {got.get(k)!r}, not {want[k]!r}")
    env = {"seq", "type", "event", "request_seq", "success", "command"}
    strip = lambda d: {k: v for k, v in d.items() if k not in env or (k == "command" and carrier == "ErrorResponse")}  # noqa: E731
    gs, ws = strip(got), strip(want)
    if carrier in ("AttachRequest", "LaunchRequest"):
        ga, wa = dict(gs.get("arguments") or {}), dict(ws.get("arguments") or {})
        for k in ("__restart", "noDebug"):
            if k not in wa and ga.get(k) in (None, False):
                ga.pop(k, None)
        if not same(ga, wa):
            bad.append(f"encode: arguments {ga!r}, sent {wa!r}")
    else:
        bad += ["encode: " + p for p in wire_problems(gs, ws, carrier)]
    # decode what a peer writes by the book
    inc = dap.DebugAdapterConnection()
    body = json.dumps(want, ensure_ascii=variant != 2).encode()
    inc.receive_data(b"Content-Length: %d\r\n\r\n" % len(body) + body)
    obj = inc.next_message()
    if type(obj).__name__ != carrier:
        return bad + [f"decode: a {carrier} became {type(obj).__name__}"]
    tobj = dig(obj, path) if path else obj
    bad += ["decode: " + p for p in attr_problems(tobj, name, subset, target)]
    if is_resp and obj.request_seq != rseq:
        bad.append(f"decode: request_seq {obj.request_seq}")
    if obj.seq != 1:
        bad.append(f"decode: seq {obj.seq}")
    if obj != m:
        bad.append(f"decode: {obj!r} is not what was built, {m!r}")
    # decode what was encoded
    inc = dap.DebugAdapterConnection()
    inc.receive_data(data)
    obj2 = inc.next_message()
    if obj2 != m or type(obj2) is not type(m):
        bad.append(f"round trip: {obj2!r} is not {m!r}")
    # between adapter and playbook
    if pickle.loads(pickle.dumps(obj)) != obj:
        bad.append("pickle round trip differs")
    return bad
