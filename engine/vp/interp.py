"""Path-sensitive, interprocedural dataflow over the inlined MIR control-flow graph.

State = (call stack, value term of every live local, facts about switched-on terms, trace of watched
events).  States that agree are joined; loop-carried locals are widened to an opaque `loop` term, so
one pass through a loop body stands for every iteration.  Nothing is executed and nothing is solved:
a branch is cut only when the term it tests is already known on that path (a constant, an aggregate
of known variant, or a fact established by an earlier branch on the same term)."""
import re
from collections import namedtuple
from .term import T, c, agg, TRUE, FALSE, UNIT

Ev = namedtuple("Ev", "kind name args res loc")
Path = namedtuple("Path", "end trace facts ret loc")
Frame = namedtuple("Frame", "inst bb fid dest ret post")


class Limit(Exception):
    pass


OPT = "std::option::Option"
RES = "std::result::Result"
POLL = "std::task::Poll"
CF = "std::ops::ControlFlow"

IDENT_LAST = set(
    """clone deref deref_mut as_ref as_mut borrow borrow_mut to_owned into_iter iter iter_mut by_ref as_str
    as_slice as_bytes as_mut_slice into_inner must_use cloned copied as_deref as_deref_mut into_future collect
    from_iter into_boxed_str into_boxed_slice into_bytes as_mut_ptr as_ptr as_path to_path_buf
    new_unchecked get_mut_unchecked peekable fuse inspect from_str_ptr values_ref to_vec into_string
    downgrade lock_ident upgrade_ident into_owned from_ref as_os_str leak into_pin get_unchecked_mut into_ref
    chars bytes drain lines""".split()
)
IDENT_FULL = set(
    """std::rc::Rc::new std::boxed::Box::new std::sync::Arc::new std::boxed::Box::pin std::pin::Pin::new
    std::pin::Pin::get_mut std::pin::Pin::into_inner std::cell::UnsafeCell::new std::cell::Cell::new
    std::cell::RefCell::new std::mem::ManuallyDrop::new std::hint::must_use std::sync::Mutex::new
    std::cell::UnsafeCell::get std::cell::UnsafeCell::get_mut std::rc::Rc::into_raw std::rc::Rc::from_raw
    std::boxed::box_assume_init_into_vec_unsafe std::cell::LazyCell::new std::sync::OnceLock::new
    core::str::from_utf8_unchecked std::boxed::Box::into_raw std::boxed::Box::from_raw std::convert::identity
    std::string::String::as_str std::pin::Pin::as_mut std::pin::Pin::as_ref std::boxed::Box::into_pin""".split()
)
ITER_PASS = {"std::iter::Iterator::" + x for x in "inspect peekable fuse cloned copied by_ref collect".split()}


PEEK = re.compile(r"VecDeque::(front|back)$|\[T\]::last$")
TAKES = re.compile(r"VecDeque::(pop_front|pop_back)$|Vec::(pop)$")
MUTATES = re.compile(r"::(pop\w*|push\w*|append|extend\w*|clear|insert\w*|remove|retain\w*|drain|truncate|swap\w*|rotate\w*|resize\w*|split_off|make_contiguous|sort\w*|reverse|dedup\w*|take|replace|get_mut|iter_mut|front_mut|back_mut|last_mut|index_mut)$")


def last(p):
    return p.rsplit("::", 1)[-1]


class Interp:
    def __init__(self, crate, watch=None, stores=None, inline=None, opaque=None, drops=False, branches=None, carries=False,
                 suspend=False, once=False, max_states=60000, loop_visits=2, small=14, panics=False, logs=False, logcalls=False, watch_ret=None,
                 keep_branch_all=False, through=None, exact_index=False):
        self.cr = crate
        self.watch = watch or (lambda p, tp: False)
        self.stores = stores
        self.inline_extra = inline
        self.through = re.compile(through) if through else None
        self.opaque = opaque or (lambda p: False)
        self.exact_index = exact_index
        self.drops = drops
        self.branches = branches
        self.carries = carries
        self.suspend = suspend
        self.max_states = max_states
        self.loop_visits = loop_visits
        self.once = once
        self.small = small
        self.panics = panics
        self.logs = logs
        self.logcalls = logcalls
        self.watch_ret = watch_ret
        self.keep_branch_all = keep_branch_all
        self._rel = {}
        self._compute_relevant()
        self._fids = {}
        self.loopvals = {}      # loop term -> values it arrives at the loop header with
        self.inlined = set()
        self.widen_heap = True

    # ------------------------------------------------------------------ relevance
    def _direct(self, inst):
        for n, t in self.cr.calls(inst):
            f = t["f"]
            if f.get("p") and self.watch(f["p"], f.get("tp")):
                return True
        if self.stores:
            return any(s[0] == "=" and len(s[1]) > 1 and self.stores_hint(s[1]) for n, b in self.cr.live_blocks(inst) for s in b["s"])
        return False

    def stores_hint(self, place):
        return True

    def _compute_relevant(self):
        cr = self.cr
        direct = []
        rev = cr.rev_edges(self.drops)
        for i in cr.insts.values():
            if self._direct(i):
                direct.append(i["id"])
        seen = set(direct)
        wl = list(direct)
        while wl:
            x = wl.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    wl.append(y)
        self.relevant = seen

    def want_inline(self, inst, stack):
        p = inst["p"]
        if self.opaque(p):
            return False
        if any(self.cr.insts[f.inst]["p"] == p for f in stack):
            return False
        if len(stack) > 24:
            return False
        if inst["id"] in self.relevant:
            return True
        if self.inline_extra and self.inline_extra(p):
            return True
        # a closure belongs to the function around it: its result matters there even if nothing watched happens in it
        return len(self.cr.live_blocks(inst)) <= (max(self.small, 40) if p.endswith("}") else self.small)

    # ------------------------------------------------------------------ entry
    def run(self, entry, args=None, facts=None):
        """entry: inst dict. args: list of T for params"""
        self.paths = []
        self.steps = 0
        self.visited = set()
        names = {}
        env = {}
        fid = self.fid(None, None, entry["id"])
        for k in range(1, entry["argc"] + 1):
            nm = entry["locals"][k][1] if len(entry["locals"][k]) > 1 else f"arg{k}"
            t = args[k - 1] if args and k - 1 < len(args) and args[k - 1] is not None else T("param", nm)
            env[(fid, k)] = t
        st = State((Frame(entry["id"], 0, fid, None, None, None),), env, dict(facts or {}), (), {}, {})
        self.work = [st]
        while self.work:
            s = self.work.pop()
            self.steps += 1
            if self.steps > self.max_states:
                raise Limit(f"{entry['p']}: more than {self.max_states} states")
            self.step(s)
        return self.paths

    def fid(self, parent, bb, inst):
        k = (parent, bb, inst)
        r = self._fids.get(k)
        if r is None:
            r = len(self._fids)
            self._fids[k] = r
        return r

    def end(self, st, kind, ret=None, loc=None):
        if kind != "ret" and not self.panics:
            return
        self.paths.append(Path(kind, st.trace, dict(st.facts), ret, loc))

    # ------------------------------------------------------------------ values
    def load_local(self, st, fid, l):
        t = st.env.get((fid, l))
        if t is None:
            return T("undef", fid, l)
        return t

    def deref(self, st, t):
        n = 0
        if t.op == "ref":
            fid, l, projs = t.a[0], t.a[1], t.a[2]
            v = self.load_local(st, fid, l)
            for p in projs:
                v = self.project(st, v, p)
            return v
        return t

    def resolve(self, st, t, d=0):
        """strip internal references everywhere"""
        while t.op == "ref":
            t2 = self.deref(st, t)
            if t2 is t:
                break
            t = t2
        if d > 10:
            return t
        if any(x.__class__ is T and (x.op in ("ref", "agg", "clo", "fmt", "disp", "mapped")) for x in t.a) and t.op in ("agg", "clo", "fmt", "disp", "mapped", "call", "item", "f", "vf", "bin"):
            return T(t.op, *[self.resolve(st, x, d + 1) if x.__class__ is T else x for x in t.a])
        return t

    def project(self, st, t, p):
        """p: ('f', name) ('vf', variant, name) ('*',) ('i', T)"""
        k = p[0]
        if k == "*":
            r = self.deref(st, t)
            return st.heap.get(r, r)
        if t.op == "ref":
            t = self.deref(st, t)
        if k == "f":
            return self.field(st, t, p[1])
        if k == "vf":
            return self.vfield(st, t, p[1], p[2])
        if k == "i":
            if self.exact_index and t.op != "agg" and p[1] is not None:
                return T("at", t, p[1])
            return T("item", t) if t.op != "agg" else self.index(t, p[1])
        return T("proj", t, str(p))

    def index(self, t, ix):
        if ix is not None and ix.op == "c" and t.a[2] and ix.a[0] < len(t.a[2]):
            return t.a[3 + ix.a[0]]
        return T("item", t)

    def field(self, st, t, name):
        if t.op == "agg":
            names = t.a[2]
            if name in names:
                return t.a[3 + names.index(name)]
            if isinstance(name, str) and name.isdigit() and int(name) < len(names):
                return t.a[3 + int(name)]
        if t.op == "with" and t.a[1] == name:
            return t.a[2]
        if t.op == "with":
            return self.field(st, t.a[0], name)
        if t.op == "clo":
            try:
                return t.a[2 + int(name)]
            except (ValueError, IndexError):
                pass
        if t.op == "ovf":
            return t.a[0] if name == "0" else FALSE
        r = T("f", t, name)
        return st.heap.get(r, r)

    def vfield(self, st, t, variant, name):
        if t.op == "agg" and t.a[1] == variant:
            return self.field(st, t, name)
        if t.op == "next" and variant == "Some":
            return self.item(t.a[0])
        if t.op == "branch":
            x, adt = t.a[0], t.a[1]
            if variant == "Continue":
                return self.vfield(st, x, "Ok" if adt == RES else "Some", "0")
            return T("residual", x, adt)
        if t.op == "weakup" and variant == "Some":
            return t.a[0]
        if t.op == "with":
            return self.vfield(st, t.a[0], variant, name)
        r = T("vf", t, variant, name)
        return st.heap.get(r, r)

    def item(self, t):
        if t.op == "mapped":
            return t.a[1]
        if t.op == "enum":
            return agg("tuple", "", ("0", "1"), (T("index", t.a[0]), self.item(t.a[0])))
        if t.op == "zip":
            return agg("tuple", "", ("0", "1"), (self.item(t.a[0]), self.item(t.a[1])))
        if t.op == "rev" and t.a[0].op in ("mapped", "enum", "zip"):
            return self.item(t.a[0])
        return T("item", t)

    def projs(self, st, inst, fr, pl):
        out = []
        if len(pl) < 2:
            return out
        pend = None
        for e in pl[1]:
            if e == "*":
                out.append(("*",))
            elif e[0] == "f":
                nm = e[2] if len(e) > 2 else str(e[1])
                if pend is not None:
                    out.append(("vf", pend, nm))
                    pend = None
                else:
                    out.append(("f", nm))
            elif e[0] == "d":
                pend = e[2] if e[2] is not None else str(e[1])
            elif e[0] == "i":
                out.append(("i", self.load_local(st, fr.fid, e[1])))
            elif e[0] == "ci":
                out.append(("i", c(e[1]) if not e[2] else None) if not e[2] else ("i", None))
            elif e[0] == "ss":
                out.append(("ss", e[1], e[2]))
            else:
                out.append(("o",))
        return out

    def read(self, st, inst, fr, pl):
        t = self.load_local(st, fr.fid, pl[0])
        for p in self.projs(st, inst, fr, pl):
            if p[0] == "ss":
                continue
            t = self.project(st, t, p)
        return t

    def operand(self, st, inst, fr, o):
        if o[0] == "k":
            return self.const(st, inst, o[1])
        t = self.read(st, inst, fr, o[1])
        return t

    def const(self, st, inst, k):
        if "fn" in k:
            f = k["fn"]
            return T("fn", f.get("p"), f.get("i"))
        if "prom" in k:
            pr = inst.get("prom") or []
            if k["prom"] < len(pr):
                return self.promoted(pr[k["prom"]], inst)
            return T("prom", inst["p"], k["prom"])
        if "str" in k:
            return c(k["str"])
        if "v" in k:
            return c(k["v"])
        if "bytes" in k:
            return c(bytes(k["bytes"]))
        if "static" in k:
            return T("static", k["static"])
        if "cp" in k:
            return self.const_path(k["cp"])
        d = k.get("dbg", "?")
        tk = self.cr.types[k["t"]] if k.get("t") is not None else {}
        if tk.get("k") == "adt":
            a = self.cr.adts.get(tk["p"])
            if a and a["kind"] == "enum":
                v = re.sub(r"::<.*>$", "", d)
                v = v.split("::")[-1].split("(")[0].split(" ")[0]
                for x in a["v"]:
                    if x["n"] == v and not x["f"]:
                        return agg(tk["p"], v, (), ())
        return T("c", d) if d != "()" else UNIT

    def const_path(self, p):
        k = self.cr.consts.get(p)
        if k and k.get("blocks"):
            b = self.promoted(k, k)
            if b.op != "opaque":
                return b
        return T("cpath", p)

    def promoted(self, body, inst):
        env = {}
        bl = body.get("blocks") or []
        st = State((), {}, {}, (), {}, {})
        fr = Frame(-1, 0, ("p", id(body)), None, None, None)
        n = 0
        seen = 0
        while seen < 20 and n < len(bl):
            seen += 1
            for s in bl[n]["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, inst, fr, s[2], promoted=True)
                    st.env[(fr.fid, s[1][0])] = v
            t = bl[n]["t"]
            if t["k"] == "ret":
                r = st.env.get((fr.fid, 0))
                return self.resolve(st, r) if r is not None else T("opaque", "prom")
            if t["k"] == "goto" or t["k"] == "assert":
                n = t["t"]
            elif t["k"] == "call":
                args = [self.operand(st, inst, fr, a) for a in t["a"]]
                args = [self.resolve(st, a) for a in args]
                st.env[(fr.fid, t["d"][0])] = args[0] if self.is_ident(t["f"], args) and args else T("call", t["f"].get("p", "?"), "const", *args)
                if t.get("t") is None:
                    break
                n = t["t"]
            else:
                break
        return T("opaque", "prom")

    def rvalue(self, st, inst, fr, rv, promoted=False):
        k = rv[0]
        if k == "use":
            return self.operand(st, inst, fr, rv[1])
        if k == "ref" or k == "raw":
            pl = rv[1]
            projs = self.projs(st, inst, fr, pl)
            if promoted:
                return self.read(st, inst, fr, pl)
            # a reference into memory behind a pointer is the pointed-to term itself
            base = self.load_local(st, fr.fid, pl[0])
            if any(p == ("*",) for p in projs):
                # find last deref: value chain
                idx = max(i for i, p in enumerate(projs) if p == ("*",))
                t = self.fold(st, base, projs[:idx], lvalue=True)
                rest = projs[idx + 1:]
                if t.op == "ref":
                    return T("ref", t.a[0], t.a[1], t.a[2] + tuple(rest), *t.a[3:]) if all(r[0] in ("f", "vf") for r in rest) else self.fold(st, self.deref(st, t), rest)
                return self.fold(st, t, rest, lvalue=True)
            if all(p[0] in ("f", "vf") for p in projs):
                if k == "ref" and rv[2]:
                    return T("ref", fr.fid, pl[0], tuple(projs), 1)
                return T("ref", fr.fid, pl[0], tuple(projs))
            return self.read(st, inst, fr, pl)
        if k == "cast":
            t = self.operand(st, inst, fr, rv[1])
            if rv[2] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                to = self.cr.ty(rv[3])
                fm = self.cr.ty(rv[4])
                if t.op == "c":
                    if to == "u8" and isinstance(t.a[0], int):
                        return c(t.a[0] & 0xFF)
                    return t
                return T("cast", t, fm, to)
            return t
        if k == "bin":
            a = self.resolve(st, self.operand(st, inst, fr, rv[2]))
            b = self.resolve(st, self.operand(st, inst, fr, rv[3]))
            op = rv[1]
            ovf = op.endswith("WithOverflow")
            op = op.replace("WithOverflow", "").replace("Unchecked", "")
            r = self.binop(op, a, b)
            return T("ovf", r) if ovf else r
        if k == "un":
            a = self.resolve(st, self.operand(st, inst, fr, rv[2]))
            if rv[1] == "Not":
                return self.neg(a)
            if rv[1] == "PtrMetadata":
                return T("len", a)
            return T("un", rv[1], a)
        if k == "discr":
            t = self.value(st, self.read(st, inst, fr, rv[1]))
            adt = self.cr.types[rv[2]].get("p")
            return self.discr(t, adt)
        if k == "agg":
            kd = rv[1]
            vals = [self.operand(st, inst, fr, o) for o in rv[2]]
            if kd["k"] == "adt":
                return agg(kd["p"], kd["v"] if kd.get("e") else "", kd["f"], vals)
            if kd["k"] in ("closure", "coroutine"):
                return T("clo", kd["p"], kd["i"], *vals)
            return agg(kd["k"], "", tuple(str(i) for i in range(len(vals))), vals)
        if k == "repeat":
            return T("repeat", self.operand(st, inst, fr, rv[1]))
        if k == "tls":
            return T("static", rv[1])
        return T("opaque", str(rv)[:60])

    def fold(self, st, t, projs, lvalue=False):
        if lvalue:
            hold, st.heap = st.heap, {}
            for p in projs:
                t = self.project(st, t, p)
            st.heap = hold
            return t
        for p in projs:
            t = self.project(st, t, p)
        return t

    def value(self, st, a):
        """the value behind an operand: through references, then through what was stored there"""
        t = self.resolve(st, a)
        return st.heap.get(t, t)

    def neg(self, a):
        if a.op == "c" and isinstance(a.a[0], int):
            return c(0 if a.a[0] else 1)
        if a.op == "not":
            return a.a[0]
        return T("not", a)

    def binop(self, op, a, b):
        if a.op == "c" and b.op == "c" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            try:
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Eq": int(x == y), "Ne": int(x != y), "Lt": int(x < y), "Le": int(x <= y),
                     "Gt": int(x > y), "Ge": int(x >= y), "BitAnd": x & y, "BitOr": x | y}.get(op)
            except Exception:
                r = None
            if r is not None:
                return c(r)
        if op == "Ne":
            return self.neg(self.binop("Eq", a, b))
        if op == "Gt":
            return T("bin", "Lt", b, a)
        if op == "Ge":
            return self.neg(T("bin", "Lt", a, b))
        if op == "Le":
            return self.neg(T("bin", "Lt", b, a))
        if op == "Eq":
            if a is b:
                return TRUE
            if a.op == "c" and b.op == "c":
                return c(int(a.a[0] == b.a[0]))
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
                return FALSE
            if (b.h, str(b.op)) < (a.h, str(a.op)):
                a, b = b, a
        return T("bin", op, a, b)

    def discr(self, t, adt):
        if t.op == "agg" and t.a[1]:
            d = self.cr.adt_discr(t.a[0], t.a[1])
            if d is not None:
                return c(d)
        return T("discr", t, adt)

    # ------------------------------------------------------------------ writing
    def assign(self, st, inst, fr, pl, val, line=None):
        if len(pl) < 2:
            st.env[(fr.fid, pl[0])] = val
            return
        projs = self.projs(st, inst, fr, pl)
        base = self.load_local(st, fr.fid, pl[0])
        if any(p == ("*",) for p in projs):
            idx = max(i for i, p in enumerate(projs) if p == ("*",))
            t = self.fold(st, base, projs[:idx], lvalue=True)
            rest = [p for p in projs[idx + 1:]]
            if t.op == "ref":
                self.set_local_path(st, t.a[0], t.a[1], list(t.a[2]) + rest, val)
                return
            self.heap_store(st, self.fold(st, t, rest, lvalue=True), val, inst, line)
            return
        self.set_local_path(st, fr.fid, pl[0], projs, val)

    def heap_store(self, st, target, val, inst, line):
        val = self.resolve(st, val)
        h = {k: v for k, v in st.heap.items() if not (target in k.subs() and k is not target)}
        h[target] = val
        st.heap = h
        # facts about the old content are stale
        st.facts = {k: v for k, v in st.facts.items() if target not in k.subs()}
        if self.stores and self.stores(target, val):
            st.trace = st.trace + (Ev("store", "store", (target, val), None, (inst["p"], line)),)

    def set_local_path(self, st, fid, l, projs, val):
        key = (fid, l)
        base = st.env.get(key)
        if base is not None and base.op == "ref" and projs and projs[0] == ("*",):
            self.set_local_path(st, base.a[0], base.a[1], list(base.a[2]) + projs[1:], val)
            return
        st.env[key] = self.upd(st, base, projs, val)

    def upd(self, st, base, projs, val):
        if not projs:
            return val
        p = projs[0]
        if p[0] not in ("f", "vf"):
            return base if base is not None else T("opaque", "upd")
        name = p[1] if p[0] == "f" else p[2]
        if base is not None and base.op == "agg" and name in base.a[2]:
            vals = list(base.a[3:])
            i = base.a[2].index(name)
            vals[i] = self.upd(st, vals[i], projs[1:], val)
            return agg(base.a[0], base.a[1], base.a[2], vals)
        if base is None or base.op == "undef":
            return agg("?", "", (name,), (self.upd(st, None, projs[1:], val),))
        if base.op == "agg" and base.a[0] == "?":
            return agg("?", "", base.a[2] + (name,), list(base.a[3:]) + [self.upd(st, None, projs[1:], val)])
        inner = self.upd(st, self.project(st, base, p), projs[1:], val)
        return T("with", base, name, inner)

    # ------------------------------------------------------------------ facts
    def canon(self, t):
        """boolean/discriminant term -> (key, {value: factvalue})"""
        if t.op == "not":
            k, m = self.canon(t.a[0])
            return k, (lambda v, m=m: m(1 - v) if v in (0, 1) else None)
        if t.op == "isvar":
            x, adt, var, other = t.a
            k, m = self.canon(self.discr(x, adt))
            dv, do = self.cr_discr(adt, var), self.cr_discr(adt, other)
            return k, (lambda v, m=m: m(dv if v else do))
        if t.op == "discr" and t.a[0].op == "branch":
            x, adt = t.a[0].a
            k, m = self.canon(self.discr(x, adt))
            ok = self.cr_discr(adt, "Ok" if adt == RES else "Some")
            er = self.cr_discr(adt, "Err" if adt == RES else "None")
            return k, (lambda v, m=m: m(ok if v == 0 else er))
        return t, (lambda v: v)

    def cr_discr(self, adt, var):
        d = self.cr.adt_discr(adt, var)
        if d is None:
            d = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Ready": 0, "Pending": 1, "Continue": 0, "Break": 1}.get(var)
        return d

    def test(self, st, t, v):
        """True/False/None: does term t have value v on this path?"""
        k, m = self.canon(t)
        if k.op == "c":
            kv = k.a[0]
            want = m(v)
            return kv == want if isinstance(kv, int) else None
        f = st.facts.get(k)
        w = m(v)
        if f is None:
            return None
        if f[0] == "=":
            return f[1] == w
        return False if w in f[1] else None

    def assume(self, st, t, v, inst=None, line=None):
        k, m = self.canon(t)
        if k.op == "c":
            return
        st.facts[k] = ("=", m(v))
        self.note_branch(st, k, ("=", m(v)), inst, line)

    def assume_not(self, st, t, vs, inst=None, line=None):
        k, m = self.canon(t)
        if k.op == "c":
            return
        ws = frozenset(m(v) for v in vs)
        f = st.facts.get(k)
        if f and f[0] == "=":
            return
        ws = ws | (f[1] if f else frozenset())
        # complement of a two-variant enum / boolean is a known value
        if k.op == "discr":
            names = self.cr.variants(k.a[1]) or (["None", "Some"] if k.a[1] == OPT else ["Ok", "Err"] if k.a[1] == RES else [])
            al = {self.cr_discr(k.a[1], n) for n in names}
            rest = al - ws
            if len(rest) == 1:
                st.facts[k] = ("=", rest.pop())
                self.note_branch(st, k, st.facts[k], inst, line)
                return
        st.facts[k] = ("!", ws)
        self.note_branch(st, k, st.facts[k], inst, line)

    def turn(self, st, dom, how, inst, line):
        """an iterator method goes on to the next element, or finds none"""
        k = T("discr", T("next", dom), OPT)
        if self.branches is not None and self.branches(k):
            st.trace = st.trace + (Ev("br", "=", (k, how), None, (inst["p"], line)),)

    def note_branch(self, st, k, f, inst, line):
        rec = False
        if self.branches is not None:
            rec = self.branches(k)
        if not rec and st.results and (k.vol() & st.results):
            rec = True
        if rec:
            val = f[1]
            st.trace = st.trace + (Ev("br", f[0], (k, self.variant_name(k, f)), None, (inst["p"] if inst else "", line)),)

    def variant_name(self, k, f):
        if k.op == "discr":
            conv = lambda v: self.cr.adt_variant_by_discr(k.a[1], v) or {OPT: ["None", "Some"], RES: ["Ok", "Err"]}.get(k.a[1], {}) and ({OPT: ["None", "Some"], RES: ["Ok", "Err"]}[k.a[1]][v]) or v
        else:
            conv = lambda v: v
        if f[0] == "=":
            return conv(f[1])
        return tuple(sorted(str(conv(v)) for v in f[1]))

    def kill(self, st, t):
        if st.facts:
            st.facts = {k: v for k, v in st.facts.items() if t not in k.vol()}

    # ------------------------------------------------------------------ stepping
    def step(self, st):
        while True:
            fr = st.stack[-1]
            inst = self.cr.insts[fr.inst]
            n = fr.bb
            # loop handling
            loops = self.cr.loops(inst)
            if n in loops:
                key = (fr.fid, n)
                cnt = st.lc.get(key, 0) + 1
                if cnt > self.loop_visits + (key in st.wide):
                    return
                body, asg = loops[n]
                # loops inside this one, and in functions that have returned, start again
                here = {x.fid for x in st.stack}
                st.lc = {k: v for k, v in st.lc.items() if k[0] in here and not (k[0] == fr.fid and k[1] != n and k[1] in body)}
                st.lc[key] = cnt
                for l in asg:
                    old = st.env.get((fr.fid, l))
                    if old is not None and old.op not in ("ref",):
                        w = T("loop", fr.fid, n, l)
                        if old is not w:
                            self.carry(st, cnt, w, old, inst)
                            st.env[(fr.fid, l)] = w
                # what else the first turn changed (through references and in the heap) may be anything on a later turn
                if cnt == 1:
                    st.snap = dict(st.snap)
                    st.snap[key] = (dict(st.env), dict(st.heap))
                elif key in st.snap:
                    env0, heap0 = st.snap[key]
                    for k in [k for k, v in st.env.items() if k in env0 and (env0[k] is not v or key in st.wide)]:
                        v = self.widen(st, cnt, env0[k], st.env[k], ("loop", fr.fid, n, f"{k[0]}.{k[1]}"), inst)
                        if v is not st.env[k]:
                            st.env[k] = v
                            st.wide |= {key}
                    if self.widen_heap:
                        for k in [k for k, v in st.heap.items() if (heap0.get(k, k) is not v or key in st.wide) and not any(x.op == "item" for x in k.subs())]:
                            v = self.widen(st, cnt, heap0.get(k, k), st.heap[k], ("loop", fr.fid, n, "*" + str(k)), inst)
                            if v is not st.heap[k]:
                                st.heap = dict(st.heap)
                                st.heap[k] = v
                                st.wide |= {key}
                if self.once and cnt > 1 and len(st.stack) == 1:
                    return self.end(st, "again", None, (inst["p"], None))
            if len(self.cr.npreds(inst)[n]) > 1 or n == 0:
                self.gc(st)
                key = st.key()
                if key in self.visited:
                    return
                self.visited.add(key)
            b = inst["blocks"][n]
            for s in b["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, inst, fr, s[2])
                    self.move_out(st, fr, s[2])
                    self.assign(st, inst, fr, s[1], v, s[3])
                elif s[0] == "dead":
                    st.env.pop((fr.fid, s[1]), None)
                elif s[0] == "sd":
                    pass
            t = b["t"]
            k = t["k"]
            if k == "goto":
                st.jump(t["t"])
                continue
            if k == "switch":
                if not self.switch(st, inst, fr, t):
                    return
                continue
            if k == "assert":
                st.jump(t["t"])
                continue
            if k == "ret":
                if not self.do_return(st, inst, fr):
                    return
                continue
            if k == "drop":
                if not self.do_drop(st, inst, fr, t):
                    return
                continue
            if k == "yield":
                if self.suspend:
                    st.trace = st.trace + (Ev("yield", "yield", (), None, (inst["p"], t.get("l"))),)
                st.jump(t["t"])
                continue
            if k == "call":
                if not self.call(st, inst, fr, t):
                    return
                continue
            self.end(st, "unreachable", None, (inst["p"], t.get("l")))
            return

    def move_out(self, st, fr, rv):
        pass

    def carry(self, st, cnt, w, old, inst):
        self.loopvals.setdefault(w, set()).add(old)
        if self.carries:
            how = "carry" if cnt > 1 else "init"
            st.trace = st.trace + (Ev(how, how, (w, old), None, (inst["p"], None)),)
        self.kill(st, w)

    def widen(self, st, cnt, a, b, name, inst):
        """b, with the parts that differ from a unknown"""
        if b.op in ("ref", "loop"):
            return b
        if a is b:
            # as before the loop, but it was something else on an earlier turn
            if T(*name) in st.wide and self.carries:
                st.trace = st.trace + (Ev("carry", "carry", (T(*name), self.resolve(st, b)), None, (inst["p"], None)),)
            if b.op == "agg" and b.a[0] != "array":
                for f, y in zip(b.a[2], b.a[3:]):
                    self.widen(st, cnt, y, y, name[:3] + (f"{name[3]}.{f}",), inst)
            return b
        if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3] and a.a[0] != "array":
            vals = [self.widen(st, cnt, x, y, name[:3] + (f"{name[3]}.{f}",), inst) for f, x, y in zip(b.a[2], a.a[3:], b.a[3:])]
            return T("agg", *b.a[:3], *vals)
        w = T(*name)
        self.loopvals.setdefault(w, set()).add(self.resolve(st, a))
        if self.carries:
            st.trace = st.trace + (Ev("init", "init", (w, self.resolve(st, a)), None, (inst["p"], None)),)
        self.carry(st, cnt, w, self.resolve(st, b), inst)
        st.wide |= {w}
        return w

    def gc(self, st):
        if not st.facts:
            return
        live = set()
        for v in st.env.values():
            live |= v.vol()
            if v.op in ("discr", "bin", "isvar", "not"):
                live |= v.vol()
        for v in st.heap.values():
            live |= v.vol()
        st.facts = {k: f for k, f in st.facts.items() if k.vol() <= live}

    def switch(self, st, inst, fr, t):
        d = self.resolve(st, self.operand(st, inst, fr, t["d"]))
        line = t.get("l")
        if d.op == "logguard":
            for v, b in t["tv"]:
                if (v == 0) != self.logs:
                    st.jump(b)
                    return True
            st.jump(t["o"])
            return True
        # several listed values may share a target; keep them separate so facts stay exact
        feas = []
        vals = [v for v, _ in t["tv"]]
        for v, b in t["tv"]:
            r = self.test(st, d, v)
            if r is True:
                self.assume(st, d, v, inst, line)
                st.jump(b)
                return True
            if r is None:
                feas.append((v, b))
        # otherwise
        oth = True
        if self.all_covered(st, d, vals):
            oth = False
        out = []
        for v, b in feas:
            s2 = st.copy()
            self.assume(s2, d, v, inst, line)
            s2.jump(b)
            out.append(s2)
        if oth:
            ot = inst["blocks"][t["o"]]["t"]
            if not (ot["k"] == "unreachable" and not inst["blocks"][t["o"]]["s"]):
                s2 = st.copy()
                dt = self.cr.ty(t["dt"]) if t.get("dt") is not None else ""
                if dt == "bool" and vals == [0]:
                    self.assume(s2, d, 1, inst, line)
                else:
                    self.assume_not(s2, d, vals, inst, line)
                s2.jump(t["o"])
                out.append(s2)
        self.work.extend(reversed(out))
        return False

    def all_covered(self, st, d, vals):
        k, m = self.canon(d)
        if k.op == "c":
            return False
        f = st.facts.get(k)
        if f and f[0] == "=":
            return f[1] in [m(v) for v in vals]
        return False

    def do_return(self, st, inst, fr):
        ret = st.env.get((fr.fid, 0), UNIT)
        ret = self.resolve_frame(st, ret, fr.fid)
        if len(st.stack) == 1:
            self.end(st, "ret", self.resolve(st, ret), (inst["p"], None))
            return False
        st.env = {k: v for k, v in st.env.items() if k[0] != fr.fid}
        st.lc = {k: v for k, v in st.lc.items() if k[0] != fr.fid}
        st.stack = st.stack[:-1]
        if self.watch_ret and self.watch_ret(inst["p"]):
            st.trace = st.trace + (Ev("ret", inst["p"], (self.resolve(st, ret),), None, (inst["p"], None)),)
        return self.finish(st, ret, fr.dest, fr.ret, fr.post)

    def resolve_frame(self, st, t, fid):
        """a returned value must not refer to the dying frame's locals"""
        if t.op == "ref" and t.a[0] == fid:
            return self.resolve(st, t)
        if t.op in ("agg", "clo", "mapped"):
            if any(x.__class__ is T and x.op in ("ref", "agg", "clo") for x in t.a):
                return T(t.op, *[self.resolve_frame(st, x, fid) if x.__class__ is T else x for x in t.a])
        return t

    def finish(self, st, ret, dest, target, post):
        """assign ret (through post) to the caller's dest and jump"""
        fr = st.stack[-1]
        inst = self.cr.insts[fr.inst]
        if post:
            for p in post:
                if p[0] == "agg":
                    ret = agg(p[1], p[2], ("0",), (ret,))
                elif p[0] == "const":
                    ret = p[1]
                elif p[0] == "fold":
                    if self.carries:
                        st.trace = st.trace + (Ev("carry", "carry", (p[1], self.resolve(st, ret)), None, (inst["p"], None)),)
                    self.loopvals.setdefault(p[1], set()).add(self.resolve(st, ret))
                    ret = p[1]
                elif p[0] == "mapped":
                    ret = T("mapped", p[1], self.resolve(st, ret))
                elif p[0] == "leave":
                    st.trace = st.trace + (Ev("leave", p[1], (), None, (inst["p"], None)),)
                elif p[0] == "pushed":
                    if self.watch("std::vec::Vec::push", None):
                        st.trace = st.trace + (Ev("call", "std::vec::Vec::push", (p[1], p[2]), None, (inst["p"], p[3])),)
                elif p[0] == "turned":
                    self.turn(st, p[1], "None", inst, p[2])
                elif p[0] == "done":
                    self.turn(st, p[1], "None", inst, p[2])
                    ret = UNIT
                elif p[0] == "assume":
                    # (v): only paths where the closure returned v
                    r = self.test(st, ret, p[1])
                    if r is False:
                        return False
                    if r is None:
                        self.assume(st, self.resolve(st, ret), p[1], inst)
        if dest is not None:
            self.assign(st, inst, fr, dest, ret)
        if target is None:
            self.end(st, "panic", None, (inst["p"], None))
            return False
        st.jump(target)
        return True

    def do_drop(self, st, inst, fr, t):
        pl = t["p"]
        if len(pl) == 1:
            v = st.env.get((fr.fid, pl[0]))
            if v is None:
                st.jump(t["t"])
                return True
        if self.drops:
            v = self.resolve(st, self.read(st, inst, fr, pl))
            glue = [g for g in self.cr.glue.get(t["ty"], []) if g.get("i") is not None and g["i"] in self.relevant]
            tystr = self.cr.ty(t["ty"])
            nm = self.cr.types[t["ty"]].get("p") or tystr
            if self.watch("drop:" + nm, None):
                st.trace = st.trace + (Ev("drop", nm, (v,), None, (inst["p"], t.get("l"))),)
            glue = [g for g in glue if self.cr.types[t["ty"]].get("p") == g["p"]]
            if glue:
                callee = self.cr.insts[glue[0]["i"]]
                if self.want_inline(callee, st.stack):
                    self.push(st, callee, [v], None, t["t"], (), fr, inst)
                    return True
        st.jump(t["t"])
        return True

    def push(self, st, callee, args, dest, target, post, fr, inst):
        self.inlined.add(callee["id"])
        fid = self.fid(fr.fid, (fr.bb, st.sub), callee["id"])
        st.env = {k: v for k, v in st.env.items() if k[0] != fid}
        st.lc = {k: v for k, v in st.lc.items() if k[0] != fid}
        for k in range(1, callee["argc"] + 1):
            st.env[(fid, k)] = args[k - 1] if k - 1 < len(args) else T("opaque", "arg", fid, k)
        st.stack = st.stack + (Frame(callee["id"], 0, fid, tuple(map(_tup, dest)) if dest is not None else None, target, tuple(post)),)

    # ------------------------------------------------------------------ calls
    def is_ident(self, f, args):
        p = f.get("p") or ""
        if f.get("i") is not None:
            return False
        tp = f.get("tp") or p
        if p in IDENT_FULL or tp in ITER_PASS:
            return True
        l = last(tp)
        return l in IDENT_LAST

    def event(self, st, inst, f, rargs, res, line, kind="call"):
        p = f.get("p") or "?"
        if self.watch(p, f.get("tp")):
            st.trace = st.trace + (Ev(kind, p, tuple(rargs), res, (inst["p"], line)),)
            if res is not None and res.op == "call":
                st.results = st.results | {res}

    def call(self, st, inst, fr, t):
        f = t["f"]
        line = t.get("l")
        args = [self.operand(st, inst, fr, a) for a in t["a"]]
        dest, target = t["d"], t.get("t")
        p = f.get("p")
        site = (fr.fid, fr.bb)
        if f.get("x") == "ptr":
            fn = self.resolve(st, self.operand(st, inst, fr, f["op"])) if "op" in f else T("opaque", "ptr")
            return self.call_value(st, inst, fr, fn, args, dest, target, (), line)
        tp = f.get("tp") or p
        l = last(tp)
        # calling a value through Fn*
        if tp in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once") and len(args) == 2:
            fn = self.resolve_fn(st, args[0])
            targs = self.untuple(st, args[1])
            if fn.op in ("clo", "fn"):
                if fn.op == "clo":      # the call of a named function is an event of its own
                    self.event(st, inst, f, [self.resolve(st, a) for a in args], None, line)
                return self.call_value(st, inst, fr, fn, targs, dest, target, (), line)
            if f.get("cl") and f.get("i") is not None and f["i"] in self.cr.insts:
                ci = self.cr.insts[f["i"]]
                if self.want_inline(ci, st.stack):
                    self.push(st, ci, [args[0]] + targs, dest, target, (), fr, inst)
                    return True
            return self.opaque_call(st, inst, fr, f, args, dest, target, line, dyn=True)
        ii = f.get("i")
        if ii is not None and ii in self.cr.insts:
            callee = self.cr.insts[ii]
            if callee.get("co") and tp.endswith("Future::poll") and self.awaits(inst):
                r0 = self.resolve(st, args[0])
                return self.poll(st, inst, fr, f, st.heap.get(r0, r0), dest, target, line, self.watch(p, f.get("tp")))
            if f.get("cl"):
                args = [args[0]] + self.untuple(st, args[1]) if len(args) == 2 else args
            rargs = None
            if self.through is not None and self.through.search(p):
                # the callee runs the closure it is given once; enter and leave mark its extent
                fn = next((x for x in (self.resolve_fn(st, a) for a in args[1:]) if x.op in ("clo", "fn")), None)
                if fn is not None:
                    st.trace = st.trace + (Ev("enter", p, tuple(self.resolve(st, a) for a in args), None, (inst["p"], line)),)
                    ci = self.cr.insts.get(fn.a[1]) if fn.a[1] is not None else None
                    if ci is None or any(f_.inst == ci["id"] for f_ in st.stack):
                        return self.opaque_call(st, inst, fr, f, args, dest, target, line, dyn=True)
                    self.push(st, ci, [fn, T("opaque", "ctx")], dest, target, (("leave", p),), fr, inst)
                    return True
            if self.watch(p, f.get("tp")):
                rargs = [self.resolve(st, a) for a in args]
            if self.want_inline(callee, st.stack):
                if rargs is not None:
                    self.event(st, inst, f, rargs, None, line)
                self.push(st, callee, args, dest, target, (), fr, inst)
                return True
            # derived/hand-written eq stays a comparison
            if tp in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
                ra = [self.resolve(st, a) for a in args]
                r = self.binop("Eq", *ra)
                return self.finish(st, r if l == "eq" else self.neg(r), dest, target, ())
            return self.opaque_call(st, inst, fr, f, args, dest, target, line, dyn=True)
        return self.std_call(st, inst, fr, f, args, dest, target, line, p, tp, l, site)

    def resolve_fn(self, st, t):
        """the function value, with the references it captured kept (they may be written through)"""
        n = 0
        while n < 12:
            n += 1
            if t.op == "ref":
                t2 = self.deref(st, t)
                if t2 is t:
                    break
                t = t2
            elif t.op == "agg" and t.a[0] in ("std::rc::Rc", "std::boxed::Box"):
                t = t.a[3]
            else:
                break
        return t if t.op == "clo" else self.resolve(st, t)

    def untuple(self, st, t):
        t = self.deref(st, t) if t.op == "ref" else t
        if t.op == "agg" and t.a[0] == "tuple":
            return list(t.a[3:])
        if t is UNIT:
            return []
        return [self.field(st, t, str(i)) for i in range(6)]

    def call_value(self, st, inst, fr, fn, args, dest, target, post, line):
        """call a closure / fn item term with plain args"""
        fn = self.resolve_fn(st, fn)
        if fn.op == "clo" and fn.a[1] is not None:
            ci = self.cr.insts.get(fn.a[1])
            if ci is not None and not ci.get("co") and self.want_inline(ci, st.stack):
                self.push(st, ci, [fn] + list(args), dest, target, post, fr, inst)
                return True
        if fn.op == "fn":
            ci = self.cr.insts.get(fn.a[1]) if fn.a[1] is not None else None
            if ci is not None and self.want_inline(ci, st.stack):
                self.event(st, inst, {"p": fn.a[0]}, [self.resolve(st, a) for a in args], None, line)
                self.push(st, ci, list(args), dest, target, post, fr, inst)
                return True
            # constructor or std fn used as a function value
            nm = fn.a[0] or "?"
            if nm.split("::")[-1][:1].isupper() or nm.endswith("}"):
                adt = "::".join(nm.split("::")[:-1])
                if adt.endswith("prelude::v1"):
                    adt = OPT if last(nm) in ("Some", "None") else RES
                v = agg(adt, last(nm), ("0",), args) if adt in self.cr.adts or adt in (OPT, RES) else agg(nm, "", ("0",), args)
                return self.finish(st, v, dest, target, post)
            res = T("call", nm, (fr.fid, fr.bb), *[self.resolve(st, a) for a in args])
            self.kill(st, res)
            self.event(st, inst, {"p": nm}, [self.resolve(st, a) for a in args], res, line)
            if self.is_ident({"p": nm}, args):
                res = args[0]
            return self.finish(st, res, dest, target, post)
        f = {"p": "dyn-call", "x": "dyn"}
        rargs = [self.resolve(st, a) for a in args]
        res = T("call", "dyn", (fr.fid, fr.bb), fn, *rargs)
        self.kill(st, res)
        if self.watch("dyn-call", None):
            st.trace = st.trace + (Ev("dyn", "dyn-call", (fn, *rargs), res, (inst["p"], line)),)
            st.results = st.results | {res}
        self.forget_heap(st)
        self.havoc_captured(st, args, "dyn")
        for a in args:
            if a.op == "ref" and len(a.a) > 3:
                m = T("mut", "dyn", self.resolve(st, a))
                self.kill(st, m)
                self.set_local_path(st, a.a[0], a.a[1], list(a.a[2]), m)
        return self.finish(st, res, dest, target, post)

    def forget_heap(self, st):
        st.heap = {}
        st.facts = {k: v for k, v in st.facts.items() if k.vol() or not _heapy(k)}

    def opaque_call(self, st, inst, fr, f, args, dest, target, line, dyn=False, pure=False):
        rargs = [self.resolve(st, a) for a in args]
        p = f.get("p") or "?"
        if dyn and f.get("x") == "dyn" or (f.get("tp") or p).startswith("std::ops::Fn") and f.get("i") is None:
            return self.call_value(st, inst, fr, args[0], self.untuple(st, args[1]) if len(args) > 1 else [], dest, target, (), line) if (f.get("tp") or p).startswith("std::ops::Fn") else self._opq(st, inst, fr, f, rargs, dest, target, line, True)
        return self._opq(st, inst, fr, f, rargs, dest, target, line, dyn, args)

    def _opq(self, st, inst, fr, f, rargs, dest, target, line, dyn, raw=None):
        p = f.get("p") or "?"
        res = T("call", p, (fr.fid, fr.bb), *rargs)
        self.kill(st, res)
        self.event(st, inst, f, rargs, res, line)
        self.peeks(st, p, rargs, res, dyn)
        if dyn:
            self.forget_heap(st)
        if raw is not None:
            self.havoc_captured(st, raw, (fr.fid, fr.bb))
            for a in raw:
                if a.op == "ref":
                    v = self.deref(st, a)
                    if v.op in ("c", "bin"):
                        m = T("mut", (fr.fid, fr.bb), a.a[1])
                        self.kill(st, m)
                        self.set_local_path(st, a.a[0], a.a[1], list(a.a[2]), m)
        if target is None:
            self.end(st, "panic", res, (inst["p"], line))
            return False
        return self.finish(st, res, dest, target, ())

    def peeks(self, st, p, rargs, res, dyn):
        """taking an end of a queue just looked at finds what the look found"""
        keys = [k for k in st.facts if k.op == "discr" and k.a[0].op == "call" and PEEK.search(k.a[0].a[0]) and T("stale", k.a[0]) not in st.facts]
        if not keys:
            return
        m = TAKES.search(p)
        if m and rargs:
            see = {"pop_front": "front", "pop_back": "back", "pop": "last"}[m.group(1) or m.group(2)]
            for k in keys:
                if k.a[0].a[2] is rargs[0] and k.a[0].a[0].endswith("::" + see):
                    st.facts[self.canon(self.discr(res, OPT))[0]] = st.facts[k]
        if dyn or not p.startswith(("std::", "[T]::")):
            gone = keys
        elif MUTATES.search(p):
            gone = [k for k in keys if k.a[0].a[2] in rargs]
        else:
            return
        for k in gone:
            st.facts[T("stale", k.a[0])] = ("=", 1)

    def havoc_captured(self, st, raw, site):
        """locals a closure handed to an unanalysed callee borrows mutably hold an unknown value afterwards"""
        seen = set()
        todo = list(raw)
        while todo:
            a = todo.pop()
            if a in seen or len(seen) > 200:
                continue
            seen.add(a)
            if a.op == "ref" and a not in raw:
                if len(a.a) > 3:
                    m = T("mut", site, a.a[1])
                    self.kill(st, m)
                    self.set_local_path(st, a.a[0], a.a[1], list(a.a[2]), m)
                continue
            if a.op == "ref":
                v = self.deref(st, a)
                if v.op == "clo":
                    todo.append(v)
                continue
            if a.op in ("clo", "agg"):
                todo += [x for x in a.a if x.__class__ is T]

    def fork_opt(self, st, x, adt, some, none, inst, line):
        """run some(s) on the path where x is Some/Ok, none(s) where it is None/Err"""
        good, bad = ("Ok", "Err") if adt == RES else ("Some", "None")
        d = self.discr(x, adt)
        g = self.test(st, d, self.cr_discr(adt, good))
        if g is not False:
            s2 = st if g is True else st.copy()
            if g is None:
                self.assume(s2, d, self.cr_discr(adt, good), inst, line)
            if some(s2):
                self.work.append(s2)
        if g is not True:
            s2 = st.copy() if g is None else st
            if g is None:
                self.assume(s2, d, self.cr_discr(adt, bad), inst, line)
            if none(s2):
                self.work.append(s2)
        return False

    def std_call(self, st, inst, fr, f, args, dest, target, line, p, tp, l, site):
        fin = lambda s, v: self.finish(s, v, dest, target, ())
        watched = self.watch(p, f.get("tp"))
        if watched:
            rargs = [self.resolve(st, a) for a in args]
        if target is None:
            self.event(st, inst, f, [self.resolve(st, a) for a in args], None, line)
            self.end(st, "panic", T("call", p, site, *[self.resolve(st, a) for a in args]), (inst["p"], line))
            return False
        a0 = self.resolve(st, args[0]) if args else None
        r0 = st.heap.get(a0, a0) if args else None
        adt = OPT if p.startswith("std::option::Option::") or p.startswith("<std::option::Option") else RES if p.startswith("std::result::Result::") or p.startswith("<std::result::Result") else None
        # ---- log
        if p.startswith("log::") and not self.logcalls:
            if self.logs and watched and l == "log":
                self.event(st, inst, f, rargs, T("opaque", "log"), line)
            return fin(st, T("opaque", "log"))
        if tp == "std::cmp::PartialOrd::le" and f.get("st") is not None and "log::Level" in self.cr.ty(f["st"]):
            return fin(st, T("logguard",))
        # ---- comparisons
        if tp in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            ra = [self.value(st, a) for a in args]
            r = self.binop("Eq", *ra)
            r = r if l == "eq" else self.neg(r)
            if watched:
                self.event(st, inst, f, rargs, r, line)
            return fin(st, r)
        # ---- moves out of / into memory
        if p in ("std::mem::take", "std::mem::replace", "std::option::Option::take", "std::option::Option::replace", "std::option::Option::insert",
                 "std::cell::Cell::take", "std::cell::Cell::replace", "std::cell::Cell::set", "std::option::Option::get_or_insert_with"):
            old = r0
            if l == "take":
                new = agg(OPT, "None", (), ()) if adt == OPT or self.is_opt_arg(f) else T("default",)
            elif p == "std::option::Option::replace" or l == "insert":
                new = agg(OPT, "Some", ("0",), (self.resolve(st, args[1]),))
            elif l == "get_or_insert_with":
                new = T("call", p, site, r0)
            else:
                new = self.resolve(st, args[1])
            if watched:
                self.event(st, inst, f, rargs, None, line)
            if args[0].op == "ref":
                self.set_local_path(st, args[0].a[0], args[0].a[1], list(args[0].a[2]), new)
            else:
                # facts known about the old content carry over to the value taken out
                fx = {k: v for k, v in st.facts.items() if a0 in k.subs()}
                self.heap_store(st, a0, new, inst, line)
                if l in ("take", "replace") and old is a0:
                    snap = T("old", a0)
                    self.kill_term(st, snap)
                    for k, v in fx.items():
                        st.facts[_subst(k, a0, snap)] = v
                    old = snap
            if l in ("set",):
                return fin(st, UNIT)
            return fin(st, old)
        if p in ("std::cell::Cell::get",):
            v = st.heap.get(r0, r0)
            return fin(st, v)
        if p == "std::boxed::box_assume_init_into_vec_unsafe":
            for k2, v2 in st.heap.items():
                if a0 in k2.subs():
                    return fin(st, v2)
            return fin(st, r0)
        if p == "std::mem::forget" or p == "std::mem::drop":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            return fin(st, UNIT)
        # ---- Option / Result
        if adt and l in ("is_some", "is_ok"):
            return fin(st, self.isvar(r0, adt, l == "is_ok" and "Ok" or "Some"))
        if adt and l in ("is_none", "is_err"):
            return fin(st, self.isvar(r0, adt, l == "is_err" and "Err" or "None"))
        if p in ("std::task::Poll::is_ready", "std::task::Poll::is_pending"):
            return fin(st, self.isvar(r0, POLL, "Ready" if l == "is_ready" else "Pending"))
        if adt and l in ("map", "and_then", "inspect", "map_err", "unwrap_or_else", "or_else", "ok_or_else", "filter", "unwrap_or", "unwrap_or_default",
                         "ok_or", "unwrap", "expect", "ok", "err", "map_or", "map_or_else", "or", "is_some_and", "is_ok_and", "then", "unwrap_err", "flatten", "is_none_or"):
            if watched:
                self.event(st, inst, f, rargs, None, line)
            return self.opt_model(st, inst, fr, adt, l, r0, args, dest, target, line)
        if tp == "std::ops::Try::branch":
            return fin(st, T("branch", r0, adt or RES) if not (r0.op == "agg" and r0.a[1]) else (
                agg(CF, "Continue", ("0",), (r0.a[3],)) if r0.a[1] in ("Ok", "Some") else agg(CF, "Break", ("0",), (T("residual", r0, adt or RES),))))
        if tp == "std::ops::FromResidual::from_residual":
            src = r0
            if src.op == "residual":
                if adt == OPT:
                    return fin(st, agg(OPT, "None", (), ()))
                e = self.vfield(st, src.a[0], "Err", "0")
                return fin(st, agg(RES, "Err", ("0",), (e,)))
            return fin(st, T("call", p, site, src))
        if p == "std::ops::Try::from_output" or tp == "std::ops::Try::from_output":
            return fin(st, agg(adt or RES, "Ok" if adt != OPT else "Some", ("0",), (r0,)))
        if p == "std::rc::Weak::upgrade" or p == "std::sync::Weak::upgrade":
            return fin(st, T("weakup", r0))
        if p == "bool::then" or p == "bool::then_some":
            return self.bool_then(st, inst, fr, l, r0, args, dest, target, line)
        # ---- iterators
        if tp == "std::iter::Iterator::next" or l in ("next_back",):
            if watched:
                self.event(st, inst, f, rargs, None, line)
            if l == "next_back":
                r0 = r0.a[0] if r0.op == "rev" else T("rev", r0)
            t2 = T("next", r0)
            self.kill(st, t2)
            it = self.item(r0)
            self.kill_term(st, it)
            return fin(st, t2)
        if tp == "std::iter::Iterator::rev":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            return fin(st, r0.a[0] if r0.op == "rev" else T("rev", r0))
        if tp in ("std::iter::Iterator::enumerate",):
            return fin(st, T("enum", r0))
        if tp == "std::iter::Iterator::zip":
            return fin(st, T("zip", r0, self.resolve(st, args[1])))
        if tp == "std::iter::Iterator::map" or tp == "std::iter::Iterator::filter_map" or tp == "std::iter::Iterator::flat_map":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            s2 = st.copy()
            if fin(s2, T("mapped", r0, T("item", T("empty", r0)))) and self.relevant_fn(st, args[1]):
                self.work.append(s2)
            return self.call_value(st, inst, fr, args[1], [self.item(r0)], dest, target, [("mapped", r0)], line)
        if tp == "std::iter::Iterator::for_each" and self.resolve_fn(st, args[1]).op == "clo":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            s2 = st.copy()
            self.turn(s2, r0, "None", inst, line)
            if fin(s2, UNIT):
                self.work.append(s2)
            self.turn(st, r0, "Some", inst, line)
            it = self.item(r0)
            self.kill_term(st, it)
            return self.call_value(st, inst, fr, args[1], [it], dest, target, [("done", r0, line)], line)
        if tp == "std::iter::Iterator::fold" and self.resolve_fn(st, args[2]).op == "clo":
            w = T("loop", fr.fid, "fold", line or 0)
            self.loopvals.setdefault(w, set()).add(self.resolve(st, args[1]))
            if self.carries:
                st.trace = st.trace + (Ev("init", "init", (w, self.resolve(st, args[1])), None, (inst["p"], None)),)
            self.kill(st, w)
            s2 = st.copy()
            self.turn(s2, r0, "None", inst, line)
            if fin(s2, w):
                self.work.append(s2)
            self.turn(st, r0, "Some", inst, line)
            return self.call_value(st, inst, fr, args[2], [w, self.item(r0)], dest, target, [("fold", w), ("turned", r0, line)], line)
        if tp == "std::iter::Iterator::partition" and self.resolve_fn(st, args[1]).op == "clo":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            A, B = T("call", "std::vec::Vec::new", (site, "yes")), T("call", "std::vec::Vec::new", (site, "no"))
            pair = agg("tuple", "", ("0", "1"), (A, B))
            s2 = st.copy()
            self.turn(s2, r0, "None", inst, line)
            if fin(s2, pair):
                self.work.append(s2)
            self.turn(st, r0, "Some", inst, line)
            it = self.item(r0)
            self.kill_term(st, it)
            for v, to in ((1, A), (0, B)):
                s3 = st.copy() if v else st
                ok = self.call_value(s3, inst, fr, args[1], [it], dest, target, [("assume", v), ("pushed", to, it, line), ("turned", r0, line), ("const", pair)], line)
                if v and ok:
                    self.work.append(s3)
            return ok
        # ---- formatting
        if p.startswith("core::fmt::rt::Argument::new"):
            return fin(st, T("disp", last(p).replace("new_", ""), r0))
        if p == "std::fmt::Arguments::new" or p in ("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst") or p.startswith("std::fmt::Arguments::new_"):
            r = self.fmt_args(st, [self.resolve(st, a) for a in args])
            if watched:
                self.event(st, inst, f, rargs, r, line)
            return fin(st, r)
        if p in ("std::fmt::format", "alloc::fmt::format"):
            return fin(st, r0)
        # ---- futures
        if tp is not None and tp.endswith("Future::poll") and self.awaits(inst):
            return self.poll(st, inst, fr, f, r0, dest, target, line, watched)
        if p == "std::future::get_context":
            return fin(st, T("opaque", "ctx"))
        # ---- conversions
        if tp in ("std::convert::Into::into", "std::convert::From::from", "std::convert::TryInto::try_into"):
            li = self.local_from(f) if tp == "std::convert::Into::into" else None
            if li is not None and self.want_inline(li, st.stack):
                self.push(st, li, args, dest, target, (), fr, inst)
                return True
            if tp != "std::convert::TryInto::try_into":
                if watched:
                    self.event(st, inst, f, rargs, None, line)
                return fin(st, args[0] if args[0].op == "ref" and False else r0)
        if tp == "std::string::ToString::to_string":
            if watched:
                self.event(st, inst, f, rargs, None, line)
            stt = self.cr.ty(f["st"]) if f.get("st") is not None else ""
            return fin(st, r0 if stt.replace("&", "").strip() in ("str", "std::string::String") else T("str", r0))
        if self.is_ident(f, args) and args:
            if watched:
                self.event(st, inst, f, rargs, None, line)
            # keep references to locals alive through deref()/as_mut()
            cl = [a for a in args[1:] if self.resolve_fn(st, a).op == "clo"]
            if cl and self.relevant_fn(st, cl[0]):
                s2 = st.copy()
                if fin(s2, args[0] if args[0].op == "ref" else r0):
                    self.work.append(s2)
                return self.call_value(st, inst, fr, cl[0], [self.item(r0)], dest, target, [("const", r0)], line)
            if l in ("deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "by_ref", "new_unchecked", "new", "iter", "iter_mut", "into_iter") and args[0].op == "ref":
                v = self.deref(st, args[0])
                if v.op in ("agg", "c", "undef", "with"):
                    return fin(st, args[0])
            return fin(st, r0 if l in BY_VALUE else a0)
        # ---- higher-order std functions
        cls = [(i, self.resolve_fn(st, a)) for i, a in enumerate(args)]
        cls = [(i, a) for i, a in cls if a.op == "clo" and a.a[1] is not None and not self.cr.insts[a.a[1]].get("co")]
        if cls and not CONSTRUCT_ONLY.search(p):
            i, fn = cls[0]
            ci = self.cr.insts[fn.a[1]]
            if p in ("std::thread::LocalKey::with", "std::thread::LocalKey::try_with"):
                post = [("agg", RES, "Ok")] if l == "try_with" else []
                if ci["id"] in self.relevant or len(self.cr.live_blocks(ci)) <= self.small:
                    return self.call_value(st, inst, fr, fn, [r0], dest, target, post, line)
            elif ci["id"] in self.relevant or watched:
                rr = [self.resolve(st, a) for a in args]
                res = T("call", p, site, *rr)
                self.kill(st, res)
                self.event(st, inst, f, rr, res, line)
                s2 = st.copy()
                if self.finish(s2, res, dest, target, ()):
                    self.work.append(s2)
                n = ci["argc"] - 1
                cargs = [self.item(r0) if k == n - 1 else T("hofarg", site, k) for k in range(n)]
                return self.call_value(st, inst, fr, fn, cargs, dest, target, [("const", res)], line)
        return self.opaque_call(st, inst, fr, f, args, dest, target, line)

    def relevant_fn(self, st, a):
        a = self.resolve_fn(st, a)
        return a.op == "clo" and a.a[1] in self.relevant or a.op == "fn" and a.a[1] in self.relevant

    def kill_term(self, st, t):
        if st.facts:
            st.facts = {k: v for k, v in st.facts.items() if t not in k.subs()}
        if st.heap:
            st.heap = {k: v for k, v in st.heap.items() if t not in k.subs()}

    def is_opt_arg(self, f):
        ga = f.get("ga") or []
        return bool(ga) and self.cr.types[ga[-1]].get("p") == OPT if ga and isinstance(ga[-1], int) else False

    def isvar(self, x, adt, var):
        other = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok", "Ready": "Pending", "Pending": "Ready"}[var]
        if x.op == "agg" and x.a[1] in (var, other):
            return c(int(x.a[1] == var))
        return T("isvar", x, adt, var, other)

    def bool_then(self, st, inst, fr, l, r0, args, dest, target, line):
        r = self.test(st, r0, 1)
        if r is not True:
            s2 = st.copy()
            if r is None:
                self.assume(s2, r0, 0, inst, line)
            if self.finish(s2, agg(OPT, "None", (), ()), dest, target, ()):
                self.work.append(s2)
        if r is not False:
            if r is None:
                self.assume(st, r0, 1, inst, line)
            if l == "then":
                return self.call_value(st, inst, fr, args[1], [], dest, target, [("agg", OPT, "Some")], line)
            return self.finish(st, agg(OPT, "Some", ("0",), (args[1],)), dest, target, ())
        return False

    def opt_model(self, st, inst, fr, adt, l, x, args, dest, target, line):
        good, bad = ("Ok", "Err") if adt == RES else ("Some", "None")
        G = lambda s: self.vfield(s, x, good, "0")
        B = lambda s: self.vfield(s, x, bad, "0") if adt == RES else None
        mk = lambda v: agg(adt, good, ("0",), (v,))
        mkbad = lambda s: agg(adt, "Err", ("0",), (B(s),)) if adt == RES else agg(OPT, "None", (), ())
        none = agg(OPT, "None", (), ())
        fin = lambda s, v: self.finish(s, v, dest, target, ())
        cv = lambda s, fn, a, post: self.call_value(s, inst, fr, fn, a, dest, target, post, line)
        fk = lambda a, b: self.fork_opt(st, x, adt, a, b, inst, line)
        ba = lambda s: [B(s)] if adt == RES else []
        if l == "map":
            return fk(lambda s: cv(s, args[1], [G(s)], [("agg", adt, good)]), lambda s: fin(s, mkbad(s)))
        if l == "and_then":
            return fk(lambda s: cv(s, args[1], [G(s)], []), lambda s: fin(s, mkbad(s)))
        if l == "inspect":
            return fk(lambda s: cv(s, args[1], [G(s)], [("const", x)]), lambda s: fin(s, x))
        if l == "map_err":
            return fk(lambda s: fin(s, mk(G(s))), lambda s: cv(s, args[1], ba(s), [("agg", RES, "Err")]))
        if l == "unwrap_or_else":
            return fk(lambda s: fin(s, G(s)), lambda s: cv(s, args[1], ba(s), []))
        if l == "or_else":
            return fk(lambda s: fin(s, mk(G(s))), lambda s: cv(s, args[1], ba(s), []))
        if l == "ok_or_else":
            return fk(lambda s: fin(s, agg(RES, "Ok", ("0",), (G(s),))), lambda s: cv(s, args[1], [], [("agg", RES, "Err")]))
        if l == "ok_or":
            return fk(lambda s: fin(s, agg(RES, "Ok", ("0",), (G(s),))), lambda s: fin(s, agg(RES, "Err", ("0",), (args[1],))))
        if l == "unwrap_or":
            return fk(lambda s: fin(s, G(s)), lambda s: fin(s, args[1]))
        if l == "or":
            return fk(lambda s: fin(s, mk(G(s))), lambda s: fin(s, args[1]))
        if l == "unwrap_or_default":
            return fk(lambda s: fin(s, G(s)), lambda s: fin(s, T("default",)))
        if l in ("unwrap", "expect"):
            def bad_(s):
                self.end(s, "panic", x, (inst["p"], line))
                return False
            return fk(lambda s: fin(s, G(s)), bad_)
        if l == "unwrap_err":
            return fk(lambda s: False, lambda s: fin(s, B(s)))
        if l == "ok":
            return fk(lambda s: fin(s, agg(OPT, "Some", ("0",), (G(s),))), lambda s: fin(s, none))
        if l == "err":
            return fk(lambda s: fin(s, none), lambda s: fin(s, agg(OPT, "Some", ("0",), (B(s),))))
        if l == "map_or":
            return fk(lambda s: cv(s, args[2], [G(s)], []), lambda s: fin(s, args[1]))
        if l == "map_or_else":
            return fk(lambda s: cv(s, args[2], [G(s)], []), lambda s: cv(s, args[1], ba(s), []))
        if l in ("is_some_and", "is_ok_and"):
            return fk(lambda s: cv(s, args[1], [G(s)], []), lambda s: fin(s, FALSE))
        if l == "is_none_or":
            return fk(lambda s: cv(s, args[1], [G(s)], []), lambda s: fin(s, TRUE))
        if l == "flatten":
            return fk(lambda s: fin(s, G(s)), lambda s: fin(s, none))
        if l == "filter":
            def some(s):
                s2 = s.copy()
                if cv(s2, args[1], [G(s2)], [("assume", 0), ("const", none)]):
                    self.work.append(s2)
                return cv(s, args[1], [G(s)], [("assume", 1), ("const", x)])
            return fk(some, lambda s: fin(s, none))
        return fin(st, T("call", "std::option::Option::" + l, (fr.fid, fr.bb), x))

    def awaits(self, inst):
        """an async body: its polls are the lowering of `.await`"""
        v = inst.get("_aw")
        if v is None:
            v = inst["_aw"] = any(b["t"]["k"] == "yield" for n, b in self.cr.live_blocks(inst))
        return v

    def poll(self, st, inst, fr, f, r0, dest, target, line, watched):
        fut = r0
        n = 0
        if fut.op == "clo":
            ci = self.cr.insts.get(fut.a[1])
            if ci is not None and self.want_inline(ci, st.stack):
                if watched:
                    self.event(st, inst, f, [fut], None, line)
                self.push(st, ci, [fut], dest, target, [("agg", POLL, "Ready")], fr, inst)
                return True
        if self.suspend:
            st.trace = st.trace + (Ev("suspend", f.get("p") or "?", (fut,), None, (inst["p"], line)),)
        v = T("await", fut)
        self.kill(st, v)
        if watched:
            self.event(st, inst, f, [fut], v, line)
        self.forget_heap(st)
        return self.finish(st, agg(POLL, "Ready", ("0",), (v,)), dest, target, ())

    def local_from(self, f):
        ga = f.get("ga") or []
        if len(ga) < 2:
            return None
        src, dst = ga[0], ga[1]
        cache = getattr(self.cr, "_from", None)
        if cache is None:
            cache = {}
            for fn in self.cr.fns:
                if fn["p"].endswith("as std::convert::From>::from") and fn.get("i") is not None:
                    cache[(self.cr.ty(fn["in"][0]), self.cr.ty(fn["out"]))] = fn["i"]
            self.cr._from = cache
        i = cache.get((self.cr.ty(src), self.cr.ty(dst)))
        return self.cr.insts.get(i) if i is not None else None

    def fmt_args(self, st, args):
        tpl = args[0]
        if tpl.op != "c":
            return T("fmt", tpl, *args[1:])
        if isinstance(tpl.a[0], str):
            return T("fmt", c(tpl.a[0]))
        vals = []
        if len(args) > 1:
            a = args[1]
            vals = list(a.a[3:]) if a.op == "agg" else [a]
        out = []
        b = tpl.a[0]
        i = 0
        nx = 0
        try:
            while i < len(b):
                x = b[i]
                i += 1
                if x == 0:
                    break
                if x < 0x80:
                    out.append(c(b[i:i + x].decode()))
                    i += x
                elif x == 0x80:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                    out.append(c(b[i:i + n].decode()))
                    i += n
                else:
                    if x & 1:
                        i += 4
                    if x & 2:
                        i += 2
                    if x & 4:
                        i += 2
                    k = nx
                    if x & 8:
                        k = b[i] | b[i + 1] << 8
                        i += 2
                    nx = k + 1
                    out.append(vals[k] if k < len(vals) else T("opaque", "fmtarg"))
        except (IndexError, UnicodeDecodeError):
            return T("fmt", tpl, *args[1:])
        return T("fmt", *out)


BY_VALUE = set("clone to_owned cloned copied to_vec into_inner into_owned collect from_iter into_iter into_string into_bytes".split())
CONSTRUCT_ONLY = re.compile(
    r"(^std::(rc::Rc|boxed::Box|sync::Arc|cell::\w+|pin::Pin|mem::\w+|vec::Vec|collections::[\w:]+)::(new|pin|insert|push|push_back|push_front|from|replace|set|forget)$)"
    r"|spawn|::drop$|Clone|Into>|From>|future_into|map_ok$|poll_fn"
)


def _heapy(t):
    return any(x.op in ("f", "vf", "static") for x in t.subs())


def _tup(x):
    return tuple(map(_tup, x)) if isinstance(x, list) else x


def _subst(t, a, b):
    if t is a:
        return b
    if a not in t.subs():
        return t
    return T(t.op, *[_subst(x, a, b) if x.__class__ is T else x for x in t.a])


class State:
    __slots__ = ("stack", "env", "facts", "trace", "heap", "lc", "results", "sub", "snap", "wide")

    def __init__(self, stack, env, facts, trace, heap, lc, results=frozenset()):
        self.stack, self.env, self.facts, self.trace, self.heap, self.lc, self.results = stack, env, facts, trace, heap, lc, results
        self.sub = 0
        self.snap, self.wide = {}, frozenset()

    def copy(self):
        s = State(self.stack, dict(self.env), dict(self.facts), self.trace, self.heap, self.lc, self.results)
        s.snap, s.wide = self.snap, self.wide
        return s

    def jump(self, bb):
        fr = self.stack[-1]
        self.stack = self.stack[:-1] + (fr._replace(bb=bb),)

    def key(self):
        return (self.stack, frozenset(self.env.items()), frozenset(self.facts.items()), self.trace,
                frozenset(self.heap.items()), frozenset(self.lc.items()), self.wide, frozenset(id(x) for x in self.snap.values()))
