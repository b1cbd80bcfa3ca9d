#!/usr/bin/env python3
"""tools/setprop.py ID statement|technique|note|title TEXT: rewrite one field of a property in props.py and regenerate."""
import ast, os, sys
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')
def setprop(id, field, text):
    s = open(F).read(); t = ast.parse(s); L = s.splitlines(True)
    names = 'id title statement over qtext why files mech observe technique note'.split()
    for n in t.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'prop' and n.value.args[0].value == id:
            a = n.value.args[names.index(field)]
            b = s.encode(); off = [0]
            for l in L: off.append(off[-1] + len(l.encode()))
            p, q = off[a.lineno - 1] + a.col_offset, off[a.end_lineno - 1] + a.end_col_offset
            open(F, 'wb').write(b[:p] + repr(text).encode() + b[q:]); return
    raise SystemExit('no ' + id)
if __name__ == '__main__':
    setprop(*sys.argv[1:4]); os.system(sys.executable + ' ' + F)
