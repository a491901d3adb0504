#!/usr/bin/env python3
"""debug aid: dbg.py FUNCTION WATCH... [-u unit] [-i inline-regex] [-o opaque-regex] [-s] (stores) [-b] (branches) [-p] (panics)"""
import sys, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp import core
from vp.term import show, T
a = sys.argv[1:]
def opt(n, d=None):
    if n in a:
        i = a.index(n); v = a[i+1]; del a[i:i+2]; return v
    return d
def flag(n):
    if n in a: a.remove(n); return True
    return False
unit = opt("-u", "vertigo"); inl = opt("-i"); opq = opt("-o"); W = int(opt("-w", "110"))
st, br, pn, mx = flag("-s"), flag("-b"), flag("-p"), int(opt("-m", "40"))
cx = core.Cx("DBG", "quick", (unit,))
k = {}
if inl: k["inline"] = lambda p: bool(re.search(inl, p))
if opq: k["opaque"] = lambda p: bool(re.search(opq, p))
if st: k["stores"] = lambda t, v: True
if br: k["branches"] = lambda t: True
ps = cx.run(a[0], a[1:], unit=unit, panics=pn, **k)
for n, p in enumerate(ps[:mx]):
    print(f"--- path {n} {p.end} ret={show(p.ret)[:W*2] if p.ret is not None else None}")
    for e in p.trace:
        if e.kind == "br": print(f"   [{show(e.args[0])[:W]} {e.name} {e.args[1]}]  @{e.loc[0].split('::')[-1]}:{e.loc[1]}")
        else: print(f"   {e.kind} {e.name}({', '.join(show(x)[:W] if isinstance(x,T) else str(x) for x in e.args)})  @{e.loc[0].split('::')[-1]}:{e.loc[1]}")
print(len(ps), "paths; inlined", sorted(cx.cov["inlined_bodies"])[:60])
