"""Execution monitor: which lines of the package the workload executed.

Uses sys.monitoring with one-shot events, so every line costs once.  The
result goes to the evidence file (it says what was reached, no verdict).
"""
import os
import sys

TOOL = 4


class Lines:
    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), 'tmdsimpy') + os.sep
        self.hit = {}
        self.codes = {}
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(TOOL, 'verif-lines')
        except ValueError:
            return
        E = mon.events

        def enter(code, offset):
            name = self._name(code)
            if name is not None:
                self.codes.setdefault(name, set()).add(code.co_qualname)
                mon.set_local_events(TOOL, code, E.LINE)
            return mon.DISABLE

        def line(code, no):
            self.hit.setdefault(self._name(code), set()).add(no)
            return mon.DISABLE
        mon.register_callback(TOOL, E.PY_START, enter)
        mon.register_callback(TOOL, E.LINE, line)
        mon.set_events(TOOL, E.PY_START)
        self.on = True

    def _name(self, code):
        f = os.path.realpath(code.co_filename)
        return f[len(self.root):] if f.startswith(self.root) else None

    def record(self):
        return {'lines': {k: sorted(v) for k, v in self.hit.items()},
                'functions': {k: sorted(v) for k, v in self.codes.items()}}


def executable(path):
    """Line numbers inside functions of a source file."""
    out = set()

    def walk(code, top):
        if not top:
            out.update(n for _, _, n in code.co_lines()
                       if n and n != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c, c.co_name == '<module>' or (
                    top and not c.co_flags & 2))
    walk(compile(open(path).read(), path, 'exec'), True)
    return out


def summary(records, root):
    """{file: 'executed of executable lines in functions'}, functions."""
    lines, funcs = {}, {}
    for r in records:
        for k, v in r.get('lines', {}).items():
            lines.setdefault(k, set()).update(v)
        for k, v in r.get('functions', {}).items():
            funcs.setdefault(k, set()).update(v)
    per = {}
    for k in sorted(lines):
        try:
            ex = executable(os.path.join(root, 'tmdsimpy', k))
        except (OSError, SyntaxError):
            continue
        n = len(lines[k] & ex)
        if n:
            per[k] = '%d of %d' % (n, len(ex))
    return per, {k: sorted(v - {'<module>'}) for k, v in funcs.items()}, lines
