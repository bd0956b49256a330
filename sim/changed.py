"""Where the tree under test differs from the tree this framework was last tuned
on (baseline.json): the search gives part of its effort to calls that execute
those statements.  Nothing here takes part in a verdict: it only weights what is
tried, and without differences it does nothing."""
import ast
import difflib
import hashlib
import json
import os

from . import env

BASE = os.path.join(env.VERIF, "baseline.json")


def _h(s):
    return hashlib.sha1(s.encode()).hexdigest()[:8]


def _statements(node, out, depth=0):
    """(hash of the statement without what is inside it, line) in source order."""
    for field in ("body", "orelse", "handlers", "finalbody"):
        kids = getattr(node, field, None)
        if not isinstance(kids, list):
            continue
        if field != "body" and kids:
            out.append((_h(f"{depth}{field}"), getattr(kids[0], "lineno", node.lineno)))
        for s in kids:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue  # docstrings, ...
            head = {k: v for k, v in ast.iter_fields(s) if k not in ("body", "orelse", "handlers", "finalbody", "type_comment")}
            txt = f"{depth}{type(s).__name__}" + ",".join(f"{k}={_dump(v)}" for k, v in head.items())
            line = s.decorator_list[0].lineno if getattr(s, "decorator_list", None) else s.lineno
            last = line if getattr(s, "body", None) else (s.end_lineno or line)
            out.append((_h(txt), line, last))
            _statements(s, out, depth + 1)


def _dump(v):
    if isinstance(v, ast.AST):
        return ast.dump(v)
    if isinstance(v, list):
        return "[" + ",".join(_dump(x) for x in v) + "]"
    return repr(v)


def units(path):
    """{name: (statements, first line, last line)} of the top-level functions and
    methods of a file, and "<module>" for the rest."""
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    out = {}
    rest = ast.Module(body=[], type_ignores=[])

    def go(body, prefix):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                st = []
                _statements(ast.Module(body=[s], type_ignores=[]), st)
                name = prefix + s.name
                while name in out:
                    name += "'"
                out[name] = (st, s.lineno, s.end_lineno)
            elif isinstance(s, ast.ClassDef):
                go(s.body, prefix + s.name + ".")
            else:
                rest.body.append(s)

    go(tree.body, "")
    st = []
    _statements(rest, st)
    out["<module>"] = (st, 0, 0)
    return out, tree


def snapshot():
    out = {}
    for root, dirs, files in sorted(os.walk(env.PKG)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py") and f != "jaxoplanet_version.py":
                p = os.path.join(root, f)
                u, _ = units(p)
                out[os.path.relpath(p, env.SRC)] = {k: [x[0] for x in v[0]] for k, v in u.items()}
    return out


def _diff(old, new):
    """Lines of the statements of new that are not in old, or follow something removed."""
    a, b = old, [x[0] for x in new]
    lines = set()
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
        if tag == "equal":
            continue
        for j in range(j1, j2):
            lines.update(range(new[j][1], new[j][-1] + 1))
        if i2 > i1:
            for j in (j1 - 1, j2):
                if 0 <= j < len(new):
                    lines.update(range(new[j][1], new[j][-1] + 1))
    return lines


def lines():
    """{relative path: changed lines}."""
    try:
        with open(BASE) as f:
            base = json.load(f)
    except (OSError, ValueError):
        return {}
    out = {}
    for root, dirs, files in sorted(os.walk(env.PKG)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py") or f == "jaxoplanet_version.py":
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, env.SRC)
            try:
                u, tree = units(p)
            except (SyntaxError, OSError):
                continue
            old = base.get(rel, {})
            got = set()
            for name, (st, lo, hi) in u.items():
                d = _diff(old.get(name, []), st)
                if name == "<module>":
                    d = _users(tree, d)
                got |= d
            if got:
                out[rel] = got
    return out


def _users(tree, changed):
    """Lines on which functions use the names which changed module-level statements bind."""
    names = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.lineno in changed:
            for t in ast.walk(n):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    names.add(t.id)
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id in names or isinstance(n, ast.Attribute) and n.attr in names:
                    out.add(n.lineno)
    return out


if __name__ == "__main__":
    print(json.dumps(snapshot(), sort_keys=True, indent=0))
