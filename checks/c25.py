"""C25: debugging a playbook keeps the user's own Ansible configuration.

The real entry point runs with a stand-in for execve that hands back the program,
arguments and environment it was given; what Ansible makes of that environment is
read with `ansible config dump` and compared with what it makes of the user's own.
"""
from __future__ import annotations

import ast
import itertools
import json
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, __file__.rsplit("/", 2)[0])
import shutil  # noqa: E402

import yaml  # noqa: E402

from mc import boot, procs, report  # noqa: E402

PKG = os.path.join(boot.SRC, "ansibug")
CALLBACK = os.path.join(PKG, "ansible_collections/ansibug/dap/plugins/callback/debug.py")
OURS = "ansibug.dap.debug"


class Started(BaseException):
    pass


def plugin_options():
    """The options of the debugger's callback plugin: the environment variables and type of each."""
    tree = ast.parse(open(CALLBACK).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "DOCUMENTATION":
            o = yaml.safe_load(ast.literal_eval(n.value))["options"]
            return {k: ([e["name"] for e in v.get("env", [])], v.get("type", "str"), v.get("default")) for k, v in o.items()}
    raise RuntimeError("no DOCUMENTATION")


def start(argv, env, cwd, memo=None):
    """What `python -m ansibug ARGV` starts: (program, arguments, environment), or the error."""
    import ansibug.__main__ as m

    saved = dict(os.environ)
    where = os.getcwd()
    got = []
    real_exec, real_run, real_argv, real_exit = os.execve, subprocess.run, sys.argv, None

    def execve(path, args, env):
        got.append((path, list(args), dict(env)))
        raise Started()

    def run(args, *a, **k):
        key = repr((args, sorted((k.get("env") or os.environ).items())))
        if memo is None:
            return real_run(args, *a, **k)
        if key not in memo:
            memo[key] = real_run(args, *a, **k)
        return memo[key]

    names = ("execve", "execv", "execvpe", "execvp")
    reals = {n: getattr(os, n) for n in names}
    out = None
    with open(os.devnull, "w") as null:
        err, o = sys.stderr, sys.stdout
        try:
            os.environ.clear()
            os.environ.update(env)
            os.chdir(cwd)
            os.execve = os.execvpe = execve
            os.execv = os.execvp = lambda p, a: execve(p, a, dict(os.environ))
            subprocess.run = run
            sys.argv = ["ansibug", *argv]
            sys.stderr = sys.stdout = null
            m.main()
            out = "returned"
        except Started:
            out = got[0]
        except SystemExit as e:
            out = f"exit {e.code}"
        except Exception as e:
            out = f"{type(e).__name__}: {str(e)[:300]} {getattr(e, 'stderr', '')!r:.300}"
        finally:
            sys.stderr, sys.stdout = err, o
            for n in names:
                setattr(os, n, reals[n])
            subprocess.run = real_run
            sys.argv = real_argv
            os.environ.clear()
            os.environ.update(saved)
            os.chdir(where)
    return out


def dump(env, cwd):
    """Every setting Ansible has in an environment."""
    # the two things that make Ansible print more than was asked for
    e = dict(env, ANSIBLE_VERBOSITY="0", ANSIBLE_DEBUG="0")
    p = subprocess.run([sys.executable, "-m", "ansible", "config", "dump", "--format", "json"], env=e, cwd=cwd, capture_output=True)
    if p.returncode:
        return None
    return {d["name"]: d["value"] for d in json.loads(p.stdout) if "name" in d}


def base_env(d):
    return {"PATH": os.environ["PATH"], "HOME": d, "LC_ALL": "C.UTF-8", "TMPDIR": d, "UNRELATED": "kept\nas it is", "NOT_TEXT": b"\xff".decode("utf-8", "surrogateescape")}


# each: (environment, lines of ansible.cfg)
CALLBACKS = {
    "unset": ({}, []),
    "env-empty": ({"ANSIBLE_CALLBACKS_ENABLED": ""}, []),
    "env-one": ({"ANSIBLE_CALLBACKS_ENABLED": "ansible.posix.timer"}, []),
    "env-two": ({"ANSIBLE_CALLBACKS_ENABLED": "timer, my.own.cb"}, []),
    "cfg-empty": ({}, ["callbacks_enabled ="]),
    "cfg-one": ({}, ["callbacks_enabled = timer"]),
    "cfg-two": ({}, ["callbacks_enabled = b_second, a_first,,"]),
    "both": ({"ANSIBLE_CALLBACKS_ENABLED": "env_cb"}, ["callbacks_enabled = cfg_cb"]),
    "ours": ({"ANSIBLE_CALLBACKS_ENABLED": f"x,{OURS},y"}, []),
}
COLLECTIONS = {
    "unset": ({}, []),
    "env-empty": ({"ANSIBLE_COLLECTIONS_PATH": ""}, []),
    "env-one": ({"ANSIBLE_COLLECTIONS_PATH": "{d}/my collections"}, []),
    "env-relative": ({"ANSIBLE_COLLECTIONS_PATH": "rel/here:~/there:$HOME/x"}, []),
    "env-many": ({"ANSIBLE_COLLECTIONS_PATH": "/z:/a:/m::/a"}, []),
    "env-old": ({"ANSIBLE_COLLECTIONS_PATHS": "/old/b:/old/a"}, []),
    "env-both": ({"ANSIBLE_COLLECTIONS_PATHS": "/old", "ANSIBLE_COLLECTIONS_PATH": "/new"}, []),
    "cfg-one": ({}, ["collections_path = coll"]),
    "cfg-many": ({}, ["collections_path = ../up:/b:~/a,b"]),
    "cfg-old": ({}, ["collections_paths = /cfg/old:/cfg/older"]),
    "both": ({"ANSIBLE_COLLECTIONS_PATH": "/env"}, ["collections_path = /cfg"]),
    "home": ({"ANSIBLE_HOME": "{d}/ahome"}, []),
}
OTHERS = {
    "verbose": ({"ANSIBLE_VERBOSITY": "4"}, []),
    "verbose-cfg": ({}, ["verbosity = 3"]),
    "debug": ({"ANSIBLE_DEBUG": "1"}, []),
    "debug-cfg": ({}, ["debug = true"]),
    "color": ({"ANSIBLE_FORCE_COLOR": "1"}, []),
    "color-cfg": ({}, ["force_color = 1"]),
    "nocolor": ({"ANSIBLE_NOCOLOR": "1", "NO_COLOR": "1"}, []),
    "log": ({"ANSIBLE_LOG_PATH": "{d}/log"}, []),
    "strategy": ({"ANSIBLE_STRATEGY": "free"}, []),
    "pager": ({"PAGER": "false", "LESS": "x"}, []),
    "path-one": ({"PYTHONPATH": "{d}/lib"}, []),
    "path-many": ({"PYTHONPATH": "/x:{d}/li b:/x"}, []),
    "path-empty": ({"PYTHONPATH": ""}, []),
    "path-cwd": ({"PYTHONPATH": ":/x::/y:"}, []),
    "warnings": ({"PYTHONWARNINGS": "always", "ANSIBLE_DEVEL_WARNING": "1"}, []),
    "verbose-python": ({"PYTHONVERBOSE": "1"}, []),
    "unbuffered": ({"PYTHONUNBUFFERED": "1", "PYTHONDONTWRITEBYTECODE": "1"}, []),
    "config-elsewhere": ({"ANSIBLE_CONFIG": "{d}/other.cfg"}, ["forks = 7"]),
    "config-missing": ({"ANSIBLE_CONFIG": "{d}/missing.cfg"}, ["forks = 8"]),
    "settings": ({"ANSIBLE_FORKS": "3", "ANSIBLE_STDOUT_CALLBACK": "minimal"}, ["forks = 9", "timeout = 44", "inventory = inv,"]),
    "nested": ({"ANSIBUG_MODE": "connect", "ANSIBUG_DEBUG_ADDR": "uds://old", "ANSIBUG_USE_TLS": "True", "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": "true"}, []),
    "text": ({"ANSIBLE_COW_SELECTION": "é", "ANSIBLE_HOME": "{d}/hé"}, []),
    "warn-cfg": ({}, ["deprecation_warnings = true", "nonsense = 1", "jinja2_native = true"]),
    "vault": ({"ANSIBLE_VAULT_PASSWORD_FILE": "/nonexistent/vault"}, []),
    "keep-remote": ({"ANSIBLE_KEEP_REMOTE_FILES": "1", "ANSIBLE_NO_TARGET_SYSLOG": "1"}, []),
}
ALLOWED = {"ANSIBLE_CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH", "ANSIBLE_COLLECTIONS_PATHS", "ANSIBLE_STRATEGY", "PYTHONPATH"}


def layout(job, d):
    env = base_env(d)
    lines: list = []
    for kind, table in (("cb", CALLBACKS), ("coll", COLLECTIONS), ("other", OTHERS)):
        if job.get(kind):
            e, li = table[job[kind]]
            env.update({k: v.replace("{d}", d) for k, v in e.items()})
            lines += li
    if lines:
        with open(os.path.join(d, "ansible.cfg"), "w") as f:
            f.write("[defaults]\n" + "\n".join(lines) + "\n")
    with open(os.path.join(d, "other.cfg"), "w") as f:
        f.write("[defaults]\ncallbacks_enabled = from_other\nforks = 21\n")
    return env


def config(job):
    bad: list = []
    d = tempfile.mkdtemp(prefix="c-", dir=boot.scratch())
    try:
        env = layout(job, d)
        before = dump(env, d)
        got = start([job["mode"], "--addr", "uds://x", "main.yml"], env, d)
        if not isinstance(got, tuple):
            if before is not None:
                bad.append(("fails", f"nothing is started: {got}"))
            return (str(got)[:40], 2, bad)
        new = got[2]
        own = {n for names, _, _ in plugin_options().values() for n in names}
        for k in sorted(set(env) | set(new)):
            if k not in ALLOWED | own and env.get(k) != new.get(k):
                bad.append(("environment", f"{k} was {env.get(k)!r} and becomes {new.get(k)!r}"))
        old_path = env["PYTHONPATH"].split(":") if env.get("PYTHONPATH") else []
        new_path = new.get("PYTHONPATH", "").split(":")
        added = new_path[: len(new_path) - len(old_path)]
        if new_path[len(added) :] != old_path or [os.path.realpath(x) for x in added] != [os.path.realpath(boot.SRC)]:
            bad.append(("pythonpath", f"PYTHONPATH was {env.get('PYTHONPATH')!r} and becomes {new.get('PYTHONPATH')!r}"))
        after = dump(new, d)
        if before is None or after is None:
            bad.append(("dump", "the configuration cannot be read"))
            return ("dump", 3, bad)
        want = dict(before, DEFAULT_STRATEGY=OURS)
        if [os.path.realpath(x) for x in after["COLLECTIONS_PATHS"][:1]] == [os.path.realpath(PKG)]:
            want["COLLECTIONS_PATHS"] = after["COLLECTIONS_PATHS"][:1] + before["COLLECTIONS_PATHS"]
        else:
            bad.append(("plugins", f"the debugger's collection is not found first in {after['COLLECTIONS_PATHS']}"))
        want["CALLBACKS_ENABLED"] = [OURS] + before["CALLBACKS_ENABLED"]
        for k in sorted(set(want) | set(after)):
            # a directory of each process's own
            if k != "DEFAULT_LOCAL_TMP" and want.get(k) != after.get(k):
                # the empty entry means no callback
                if k == "CALLBACKS_ENABLED" and [x for x in want[k] if x] == [x for x in after[k] if x]:
                    continue
                bad.append((f"setting-{k}", f"{k} is {before.get(k)!r} in Ansible and {after.get(k)!r} under the debugger"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ("started", 4, bad)


def value(kind, v):
    if v is None:
        return None
    if kind == "bool":
        return str(v).lower() in ("1", "true", "yes", "on")
    return v


MEMO: dict = {}


def arguments(job):
    """The command line's options and the playbook's arguments."""
    bad: list = []
    d = os.path.join(boot.scratch(), "args")
    os.makedirs(d, exist_ok=True)
    env = {"PATH": os.environ["PATH"], "HOME": d, "TMPDIR": d, "LC_ALL": "C.UTF-8", **job.get("env", {})}
    opts = list(job["opts"])
    argv = [job["mode"], *opts, *job["rest"]]
    got = start(argv, env, d, MEMO)
    if not isinstance(got, tuple):
        return (got, 1, [("fails", f"{argv} starts nothing: {got}")])
    path, args, new = got
    if path != sys.executable or args != [sys.executable, "-m", "ansible", "playbook", *job["rest"]]:
        bad.append(("arguments", f"{argv} starts {path} {args}"))
    want = {"mode": job["mode"], "debug_addr": "uds://", "no_wait_for_config_done": False, "use_tls": False, "log_level": "info"}
    want.update(job["want"])
    for name, (names, kind, default) in plugin_options().items():
        v = next((new[n] for n in names if n in new), default)
        v, w = value(kind, v), want.get(name)
        if kind == "path" and v is not None and w is not None:
            w = os.path.join(d, w)
            v = os.path.join(d, v)
        if name == "log_level" and "log_file" not in job["want"]:
            continue
        if name in want and v != w or name not in want and name.startswith(("tls", "log_file")) and v is not None:
            bad.append(("option", f"{argv}: the playbook's option {name} is {v!r}, expected {w!r}"))
    return ("started", 1, bad)


def option_jobs(full):
    addr = {None: "uds://", "tcp://:0": 0, "uds://a b": 0, "tcp://[::1]:1": 0, "uds://": 0}
    for mode in ("listen", "connect"):
        for a, wait, log, level, tls in itertools.product(addr, (False, True), (None, "l o g", "/abs/log", "sub/../$NOPE"), (None, "info", "debug", "warning", "error"), range(6) if mode == "listen" else range(1)):
            if a is None and mode == "connect" or (not full and sum((a not in (None, "uds://"), wait, log is not None, level is not None, tls > 0)) > 2):
                continue
            opts: list = []
            want: dict = {}
            if a is not None:
                opts += ["--addr", a] if wait else [f"--addr={a}"]
                want["debug_addr"] = a
            if wait:
                opts += ["--no-wait"]
                want["no_wait_for_config_done"] = True
            if log:
                opts += ["--log-file", log]
                want["log_file"] = log
            if level:
                opts += ["--log-level", level]
                want["log_level"] = level
            if tls:
                opts += ["--wrap-tls"]
                want["use_tls"] = True
            if tls > 1:
                opts += ["--tls-cert", "ce rt.pem"]
                want["tls_server_certfile"] = "ce rt.pem"
            if tls > 2:
                opts += ["--tls-key", "/k.pem"]
                want["tls_server_keyfile"] = "/k.pem"
            if tls > 3:
                opts += ["--tls-key-pass", "p w$x'\""]
                want["tls_server_key_password"] = "p w$x'\""
            if tls > 4:
                opts += ["--tls-client-ca", "ca"]
                want["tls_client_ca"] = "ca"
            yield dict(mode=mode, opts=tuple(opts), rest=("main.yml",), want=want)


def rest_jobs(n):
    words = ["-i", "a b", "--addr", "--no-wait", "--", "-", "", "-e", "--log-file=x", "-h", "--tls-cert", "*", "é\n", "--check", "listen"]
    for k in range(n + 1):
        for r in itertools.product(words, repeat=k):
            for mode, opts in (("listen", ()), ("connect", ("--addr", "x")), ("listen", ("--no-wait",))):
                if k > 2 and mode == "connect":
                    continue
                yield dict(mode=mode, opts=opts, rest=("main.yml", *r), want={"debug_addr": "x"} if mode == "connect" else {"no_wait_for_config_done": bool(opts)})


PLAY = """
- hosts: localhost
  gather_facts: false
  tasks:
  - my.own.hello:
  - debug:
      msg: "{{ lookup('config', 'CALLBACKS_ENABLED') | to_json }} {{ lookup('config', 'COLLECTIONS_PATHS') | to_json }} {{ lookup('env', 'UNRELATED') }} {{ x }} {{ ansible_check_mode }}"
"""
MOD = "from ansible.module_utils.basic import AnsibleModule\ndef main():\n    AnsibleModule(argument_spec={}, supports_check_mode=True).exit_json(hello=1)\nif __name__ == '__main__':\n    main()\n"
CB = "from ansible.plugins.callback import CallbackBase\nclass CallbackModule(CallbackBase):\n    CALLBACK_VERSION = 2.0\n    CALLBACK_TYPE = 'notification'\n    CALLBACK_NAME = 'my.own.cb'\n    CALLBACK_NEEDS_ENABLED = True\n    def v2_playbook_on_start(self, playbook):\n        self._display.display('MY OWN CALLBACK')\n"


def whole(job):
    """Real playbooks with a collection and a callback of the user's own."""
    bad: list = []
    files = {
        "main.yml": PLAY,
        "coll/ansible_collections/my/own/plugins/modules/hello.py": MOD,
        "coll/ansible_collections/my/own/plugins/callback/cb.py": CB,
    }
    env = {"UNRELATED": "it is", "ANSIBLE_CONFIG": "ansible.cfg"}
    if job["source"] == "env":
        env.update(ANSIBLE_COLLECTIONS_PATH="coll", ANSIBLE_CALLBACKS_ENABLED="my.own.cb")
    elif job["source"] == "old":
        env.update(ANSIBLE_COLLECTIONS_PATHS="coll", ANSIBLE_CALLBACKS_ENABLED="my.own.cb")
    else:
        files["ansible.cfg"] = "[defaults]\ncollections_path = ./coll\ncallbacks_enabled = my.own.cb\n"
    if job["debug"]:
        env["ANSIBLE_DEBUG"] = "1"
    p = procs.Proc(files, job["mode"], extra=("-e", '{"x": "a b"}', "--check"), env=env)
    try:
        cl = p.connect()
        cl.config()
        cl.ask(procs.M.dap.ConfigurationDoneRequest())
        rc = p.wait(60)
        out = p.out()
        for what in ("MY OWN CALLBACK", "it is a b True", "my.own.cb", f"{p.d}/coll"):
            if what not in out:
                bad.append(("missing", f"{what!r} is not in the output of the playbook ({rc}): {out[-1500:]}"))
        if rc != 0:
            bad.append(("result", f"ended with {rc}"))
    except Exception as e:
        bad.append(("failed", f"{type(e).__name__}: {e}"))
        rc = None
    finally:
        p.close()
    return (rc, 3, bad)


def main():
    full = report.tier() == "thorough"
    procs.load()
    ck = report.Check("C25", assumptions=["the strategy plugin is the debugger's own", "`ansible config dump` shows what ansible-playbook uses"])
    jobs = [dict(mode="listen", cb=a, coll=b) for a in CALLBACKS for b in COLLECTIONS]
    for o in OTHERS:
        for a, b in (("unset", "unset"), ("both", "env-both")) if not full else itertools.product(("unset", "both", "cfg-two"), ("unset", "env-both", "cfg-many", "env-relative")):
            jobs.append(dict(mode="connect", cb=a, coll=b, other=o))
    ck.cases("configuration", jobs, config, "sources and values of enabled callbacks x collection paths, and other settings that reach the same code", workers=12)
    ck.cases("options", list(option_jobs(full)), arguments, "options of the command line")
    ck.cases("arguments", list(rest_jobs(3 if full else 2)), arguments, "argument lists of the playbook")
    pw = [dict(mode="listen", opts=("--wrap-tls", "--tls-cert", "c"), rest=("main.yml",), want={"use_tls": True, "tls_server_certfile": "c", "tls_server_key_password": "from env"}, env={"ANSIBUG_TLS_KEY_PASS": "from env"})]
    ck.cases("password", pw, password, "the password from the environment")
    ck.cases("whole", [dict(mode=m, source=s, debug=g) for m in ("listen", "connect") for s in ("env", "cfg", "old") for g in (False, True)], whole, "real playbooks that need the user's collection and callback")
    return ck.finish()


def password(job):
    return arguments(job)


if __name__ == "__main__":
    report.main("C25", main)
