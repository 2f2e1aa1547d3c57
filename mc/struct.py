"""Where breakpoints belong in a playbook or task file, from its YAML structure alone."""
from __future__ import annotations

import yaml

STATIC = ("import_tasks", "import_role", "ansible.builtin.import_tasks", "ansible.builtin.import_role")


def marks(text: str) -> list:
    """[(line, is task)] for everything a line can belong to: tasks and plays (True) and block headers (False)."""
    root = yaml.compose(text, yaml.SafeLoader)
    out: list = []
    if root is None:
        return out

    def get(m):
        return {k.value: v for k, v in m.value}

    def walk(seq):
        for it in seq.value:
            g = get(it)
            line = it.start_mark.line + 1
            if "block" in g:
                out.append((line, False))
                for k in ("block", "rescue", "always"):
                    if k in g:
                        walk(g[k])
            elif not any(k in g for k in STATIC):
                out.append((line, True))

    if any("hosts" in get(i) for i in root.value):
        for p in root.value:
            out.append((p.start_mark.line + 1, True))
            g = get(p)
            for k in ("pre_tasks", "tasks", "post_tasks", "handlers"):
                if k in g:
                    walk(g[k])
    else:
        walk(root)
    return sorted(out)


def region(ms: list, line: int):
    """(first line, last line or None when it runs to the end, is task) of what the line belongs to, None before everything."""
    best = None
    for i, (n, t) in enumerate(ms):
        if n <= line:
            best = (n, ms[i + 1][0] - 1 if i + 1 < len(ms) else None, t)
    return best


def covers(ms: list, line: int):
    """The line of the task a breakpoint at this line stops at, None when there is none."""
    r = region(ms, line)
    return r[0] if r and r[2] else None
