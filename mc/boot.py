"""Imports the code under test from the repository, either as is or with the scheduler's stand-in modules."""
from __future__ import annotations

import atexit
import importlib
import logging
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch: str | None = None
_scratch_pid = 0


def scratch() -> str:
    """A private directory of this process, removed at exit (by the process that made it)."""
    global _scratch, _scratch_pid
    if _scratch is None or _scratch_pid != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="mc-", dir=base)
        _scratch_pid = os.getpid()
        pid, path = _scratch_pid, _scratch

        def clean() -> None:
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
        os.environ["TMPDIR"] = _scratch
        tempfile.tempdir = _scratch
    return _scratch


def drop_scratch() -> None:
    global _scratch
    if _scratch is not None and _scratch_pid == os.getpid():
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def prepare() -> None:
    os.environ.setdefault("LC_ALL", "C.UTF-8")
    os.environ["ANSIBLE_LOCALHOST_WARNING"] = "False"
    os.environ["ANSIBLE_DEPRECATION_WARNINGS"] = "False"
    os.environ["ANSIBLE_NOCOLOR"] = "1"
    os.environ["ANSIBLE_RETRY_FILES_ENABLED"] = "False"
    os.environ["ANSIBLE_CONFIG"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "empty.cfg")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    logging.disable(logging.CRITICAL)


_loader_done = False


def _collections() -> None:
    global _loader_done
    if not _loader_done:
        from ansible.plugins.loader import init_plugin_loader

        init_plugin_loader([os.path.join(SRC, "ansibug")])
        _loader_done = True


CORE = [
    "ansibug._socket_helper",
    "ansibug._mp_queue",
    "ansibug._singleton",
    "ansibug._tls",
    "ansibug._debuggee",
    "ansibug._debug_adapter",
]
PLUGINS = [
    "ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints",
    "ansible_collections.ansibug.dap.plugins.strategy.debug",
    "ansible_collections.ansibug.dap.plugins.callback.debug",
]


class Mods:
    """The imported modules by short name."""

    def __init__(self) -> None:
        g = sys.modules
        self.ansibug = g["ansibug"]
        self.dap = g["ansibug.dap"]
        self.sock = g["ansibug._socket_helper"]
        self.mp = g["ansibug._mp_queue"]
        self.debuggee = g["ansibug._debuggee"]
        self.adapter = g["ansibug._debug_adapter"]
        self.tls = g["ansibug._tls"]
        self.strategy = g.get(PLUGINS[1])
        self.callback = g.get(PLUGINS[2])
        self.bps = g.get(PLUGINS[0])


def forget_logs() -> None:
    """Undoes the logging that an execution has set up."""
    for name in ["ansibug"] + [n for n in logging.Logger.manager.loggerDict if n.startswith("ansibug.")] + [None]:
        lg = logging.getLogger(name)
        for h in lg.handlers[:]:
            lg.removeHandler(h)
            h.close()
        if name:
            lg.setLevel(logging.NOTSET)
            lg.propagate = True
    logging.disable(logging.CRITICAL)


EXIT: list = []
_register = atexit.register


def _catch_register(fn, *a, **k):
    f = getattr(fn, "__func__", fn)
    mod = getattr(f, "__module__", "") or ""
    if mod.startswith("ansibug") or ".ansibug." in mod:
        EXIT.append((fn, a, k))
        return fn
    return _register(fn, *a, **k)


def process_exit() -> None:
    """What the code under test asked to be done at the end of the process."""
    while EXIT:
        fn, a, k = EXIT.pop()
        fn(*a, **k)


def load_plain(plugins: bool = True) -> Mods:
    prepare()
    atexit.register = _catch_register
    import ansibug  # noqa: F401

    assert os.path.realpath(sys.modules["ansibug"].__file__).startswith(os.path.realpath(SRC)), "wrong tree imported"
    for m in CORE:
        importlib.import_module(m)
    if plugins:
        _collections()
        for m in PLUGINS:
            importlib.import_module(m)
    return Mods()


def load_shimmed(plugins: bool = True) -> Mods:
    """Everything but the wire codec is imported again with the stand-in modules visible."""
    from . import shims

    load_plain(plugins)
    keep = ("ansibug.dap",)
    for name in list(sys.modules):
        if (name == "ansibug" or name.startswith("ansibug.")) and not name.startswith(keep):
            del sys.modules[name]
        elif name.startswith("ansible_collections.ansibug."):
            if name.endswith("." + name.rsplit(".", 1)[-1]) and ".plugins." in name:
                del sys.modules[name]
    saved = {k: sys.modules.get(k) for k in shims.MODULES}
    sys.modules.update(shims.MODULES)
    try:
        importlib.import_module("ansibug")
        for m in CORE:
            importlib.import_module(m)
        if plugins:
            for m in PLUGINS:
                importlib.import_module(m)
    finally:
        for k, v in saved.items():
            if v is not None:
                sys.modules[k] = v
            else:
                del sys.modules[k]
    m = Mods()
    install_singleton_bypass(m)
    return m


_current = {"dbg": None}


def install_singleton_bypass(m: Mods) -> None:
    """AnsibleDebugger() gives the current execution's instance (a fresh one per execution)."""
    cls = m.debuggee.AnsibleDebugger
    meta = type(cls)

    if meta is type:
        def new(c, *a, **k):  # the class is no longer built by a metaclass
            return _current["dbg"] or object.__new__(c)

        return
    real = type.__call__

    def call(c, *a, **k):
        if c is cls:
            if _current["dbg"] is None:
                _current["dbg"] = real(c, *a, **k)
            return _current["dbg"]
        return real(c, *a, **k)

    meta.__call__ = call


def fresh_debugger(m: Mods):
    EXIT.clear()
    _current["dbg"] = None
    if type(m.debuggee.AnsibleDebugger) is type:
        for k, v in list(vars(m.debuggee.AnsibleDebugger).items()):
            if isinstance(v, m.debuggee.AnsibleDebugger):
                setattr(m.debuggee.AnsibleDebugger, k, None)
    return m.debuggee.AnsibleDebugger()


def code_objects(*mods, skip=()):
    """All code objects of functions and methods defined in these modules."""
    import types

    out = []
    for mod in mods:
        todo = [mod]
        seen = set()
        while todo:
            o = todo.pop()
            for k, v in list(vars(o).items()):
                if k in skip:
                    continue
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                if isinstance(v, property):
                    for f in (v.fget, v.fset):
                        if isinstance(f, types.FunctionType):
                            out.append(f.__code__)
                    continue
                while hasattr(v, "__wrapped__"):
                    v = v.__wrapped__
                if isinstance(v, types.FunctionType):
                    if v.__code__.co_filename == getattr(mod, "__file__", None):
                        out.append(v.__code__)
                elif isinstance(v, type) and v.__module__ == mod.__name__ and v not in seen:
                    seen.add(v)
                    todo.append(v)
                elif type(v).__name__ == "singledispatchmethod":
                    out.append(v.func.__code__)
                    for f in v.dispatcher.registry.values():
                        if isinstance(f, types.FunctionType):
                            out.append(f.__code__)
    return list({id(c): c for c in out}.values())
