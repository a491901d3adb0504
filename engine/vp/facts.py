"""Loads a driver dump and answers structural questions about it."""
import json, os, re, functools, collections

_NAMES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "params.json")


def same_names(insts, base):
    """call a renamed parameter what it was called when the checks were written: a name is not behaviour"""
    for i in insts:
        was, n = base.get(i["p"]), i["argc"]
        if not was or len(was) != n:
            continue
        loc = i["locals"]
        now = [(loc[k][1] if len(loc[k]) > 1 else None) for k in range(1, n + 1)]
        if now == was:
            continue
        free = [w for w in was if w not in now]
        for k, x in enumerate(now):
            if x is not None and x not in was and free:
                w = was[k] if was[k] in free else free[0]
                free.remove(w)
                if w is not None:
                    loc[k + 1] = [loc[k + 1][0], w] + list(loc[k + 1][2:])


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.fns = d["fns"]
        self.consts = {x["p"]: x for x in d["consts"]}
        self.impls = d["impls"]
        self.glue = {int(k): v for k, v in d["glue"].items()}
        if os.path.exists(_NAMES):
            same_names(d["insts"], json.load(open(_NAMES)))
        self.insts = {}
        self.by_path = collections.defaultdict(list)
        for i in d["insts"]:
            self.insts[i["id"]] = i
            self.by_path[i["p"]].append(i)
        self.fn_by_path = {f["p"]: f for f in self.fns}
        self._pred = {}
        self._loops = {}
        self._rev = {}
        self._calls = {}

    # ---- types
    def ty(self, i):
        return self.types[i]["s"] if i is not None else "?"

    def tyk(self, i):
        return self.types[i]

    def adt_variant_by_discr(self, adt, v):
        a = self.adts.get(adt)
        if not a:
            return None
        for k, x in enumerate(a["v"]):
            d = x.get("d")
            if d is None:
                d = k
            if d == v:
                return x["n"]
        return None

    def adt_discr(self, adt, name):
        a = self.adts.get(adt)
        if not a:
            return None
        for k, x in enumerate(a["v"]):
            if x["n"] == name:
                d = x.get("d")
                return k if d is None else d
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [x["n"] for x in a["v"]] if a else []

    # ---- functions
    def find(self, pat):
        """paths of function items/insts matching a regex (full match)"""
        rx = re.compile(pat)
        return sorted(p for p in self.by_path if rx.fullmatch(p))

    def inst(self, path):
        """the body to use as an entry: the function's own (generic) instance first"""
        f = self.fn_by_path.get(path)
        if f and f.get("i") is not None and f["i"] in self.insts:
            return self.insts[f["i"]]
        l = self.by_path.get(path)
        return l[0] if l else None

    def live_blocks(self, inst):
        return [(n, b) for n, b in enumerate(inst["blocks"]) if not b.get("c")]

    def succs(self, inst, n):
        t = inst["blocks"][n]["t"]
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert" or k == "yield":
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["tv"]] + [t["o"]]
        if k == "call":
            return [t["t"]] if t.get("t") is not None else []
        return []

    def calls(self, inst):
        """(bb, terminator) of all call terminators on non-cleanup blocks"""
        r = self._calls.get(inst["id"])
        if r is None:
            r = [(n, b["t"]) for n, b in self.live_blocks(inst) if b["t"]["k"] == "call"]
            self._calls[inst["id"]] = r
        return r

    def loops(self, inst):
        """header -> (set(blocks), set(assigned locals))"""
        r = self._loops.get(inst["id"])
        if r is not None:
            return r
        blocks = inst["blocks"]
        color, back = {}, []
        st = [(0, iter(self.succs(inst, 0)))]
        color[0] = 1
        while st:
            n, it = st[-1]
            for m in it:
                if m not in color:
                    color[m] = 1
                    st.append((m, iter(self.succs(inst, m))))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                st.pop()
        pred = collections.defaultdict(list)
        for n in color:
            for m in self.succs(inst, n):
                pred[m].append(n)
        r = {}
        for src, h in back:
            body = {h, src}
            wl = [src] if src != h else []
            while wl:
                x = wl.pop()
                for p in pred[x]:
                    if p not in body:
                        body.add(p)
                        wl.append(p)
            if h in r:
                r[h] |= body
            else:
                r[h] = body
        out = {}
        for h, body in r.items():
            asg = set()
            for n in body:
                for s in blocks[n]["s"]:
                    if s[0] == "=" or s[0] == "sd":
                        asg.add(s[1][0])
                t = blocks[n]["t"]
                if t["k"] == "call":
                    asg.add(t["d"][0])
            out[h] = (body, asg)
        self._loops[inst["id"]] = out
        self._pred[inst["id"]] = pred
        return out

    def npreds(self, inst):
        self.loops(inst)
        return self._pred[inst["id"]]

    def line_of(self, inst, bb):
        return inst["blocks"][bb]["t"].get("l")

    def closures_built(self, inst):
        out = []
        for n, b in self.live_blocks(inst):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") in ("closure", "coroutine"):
                    if s[2][1].get("i") is not None:
                        out.append((n, s[2][1]["i"], s))
        return out

    def rev_edges(self, drops=False):
        r = self._rev.get(drops)
        if r is None:
            r = self._rev[drops] = {}
            for i in self.insts.values():
                for e in self.edges(i, drops):
                    r.setdefault(e, []).append(i["id"])
        return r

    def edges(self, inst, drops=False):
        """ids of local instances this body may run (calls, closures it builds, fn items, drop glue)"""
        out = set()
        for n, t in self.calls(inst):
            if t["f"].get("i") is not None:
                out.add(t["f"]["i"])
            for a in t["a"]:
                if a[0] == "k" and a[1].get("fn", {}) and a[1].get("fn", {}).get("i") is not None:
                    out.add(a[1]["fn"]["i"])
        for n, i, s in self.closures_built(inst):
            out.add(i)
        for n, b in self.live_blocks(inst):
            for s in b["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        if o[0] == "k" and o[1].get("fn", {}).get("i") is not None:
                            out.add(o[1]["fn"]["i"])
            if drops and b["t"]["k"] == "drop":
                for g in self.glue.get(b["t"]["ty"], []):
                    if g.get("i") is not None:
                        out.add(g["i"])
        return out


def operands(rv):
    k = rv[0]
    if k in ("use", "repeat", "cast"):
        return [rv[1]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []
