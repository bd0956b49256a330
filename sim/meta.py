"""Prints what the search needs to know about a property's operations."""
import json
import sys

from . import catalog, imports, props  # noqa: F401


def main():
    p = props.PROPS[sys.argv[1]]
    names = []
    for n in p.names:
        if n not in names:
            names.append(n)
    ops, bases, doms, modes = [], {}, {}, {}
    for n in names:
        e = catalog.ENTRIES[n]
        bases[n] = {k: d[0] for k, d in e.dom.items()}
        doms[n] = e.dom
        modes[n] = [m for m in e.modes if p.modes is None or m in p.modes] or [e.modes[0]]
        o = catalog.base_op(n)
        if p.dps and p.dps[0] is not None:
            o["dps"] = p.dps[0]
        ops.append(o)
    print(json.dumps({"ops": ops, "bases": bases, "doms": doms, "modes": modes, "replica": hasattr(p, "localise")}))


main()
