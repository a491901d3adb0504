"""path summaries of JavaScript: a small evaluator over ESTree with symbolic host objects and values.

Nothing of the analysed script is handed to a JavaScript engine; browser objects, memory and arguments are symbols, every branch
on a symbol is followed both ways, and loops over symbols are summarised by one arbitrary turn.
"""
import json, math, os, re, subprocess, tempfile, threading, urllib.parse

sys_nm = "/opt/veriftools/node/node_modules"


class Undef:
    def __repr__(self):
        return "undefined"


UNDEF = Undef()


class Big:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Big) and o.v == self.v

    def __hash__(self):
        return hash(("big", self.v))

    def __repr__(self):
        return f"{self.v}n"


class S:
    """an interned symbol"""
    __slots__ = ("op", "a")
    pool = {}

    def __new__(cls, op, *a):
        k = (op,) + tuple((type(x).__name__, x) if isinstance(x, (bool, int, float)) else x for x in a)
        s = cls.pool.get(k)
        if s is None:
            s = object.__new__(cls)
            s.op, s.a = op, a
            cls.pool[k] = s
        return s

    def __repr__(self):
        return show(self)

    def subs(self):
        out, todo = [], [self]
        while todo:
            x = todo.pop()
            out.append(x)
            for y in x.a:
                if isinstance(y, S):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo.extend(z for z in y if isinstance(z, S))
        return out


def show(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, Arr):
        return "[" + ", ".join(show(i) for i in x.items) + "]"
    if isinstance(x, Each):
        return f"{show(x.val)} for each of {show(x.seq)}"
    if isinstance(x, Obj):
        return (x.cls.name if x.cls else "") + "{" + ", ".join(f"{k}: {show(v)}" for k, v in list(x.props.items())[:8] if x.cls is None) + "}"
    if isinstance(x, Fn):
        return "function"
    if isinstance(x, tuple):
        return "(" + ", ".join(show(i) for i in x) + ")"
    if not isinstance(x, S):
        return {True: "true", False: "false", None: "null"}.get(x, repr(x)) if not isinstance(x, (int, float)) or isinstance(x, bool) else repr(x)
    if x.op in ("g", "p"):
        return str(x.a[0])
    if x.op == "get":
        return f"{show(x.a[0])}.{x.a[1] if isinstance(x.a[1], str) else '[' + show(x.a[1]) + ']'}"
    if x.op == "m":
        return f"{show(x.a[0])}.{x.a[1]}({', '.join(show(i) for i in x.a[2:])})"
    if x.op == "lin":
        return "(" + " + ".join(([str(x.a[0])] if x.a[0] else []) + [(f"{c}*" if c != 1 else "") + show(t) for t, c in x.a[1:]]) + ")"
    return f"{x.op}({', '.join(show(i) for i in x.a)})"


class Each:
    """what one arbitrary turn over seq adds"""
    def __init__(self, seq, val):
        self.seq, self.val = seq, val


class Obj:
    def __init__(self, cls=None, depth=0):
        self.props, self.cls, self.entries, self.depth = {}, cls, [], depth


class Arr:
    def __init__(self, items=(), depth=0):
        self.items, self.depth = list(items), depth


class MapV:
    def __init__(self, isset, depth=0):
        self.isset, self.log, self.depth, self.unknown = isset, [], depth, False


class Seq:
    """an iterator over values"""
    def __init__(self, items):
        self.items = items


class PromiseV:
    def __init__(self, value=UNDEF, error=None, pending=None):
        self.value, self.error, self.pending, self.after = value, error, pending, []


class Co:
    """an async function under way"""
    def __init__(self):
        self.go, self.back, self.out, self.dead, self.keep = threading.Semaphore(0), threading.Semaphore(0), None, False, None


class Kill(BaseException):
    pass


class Fn:
    def __init__(self, node, scope, this=None, name="", cls=None):
        self.node, self.scope, self.this, self.name, self.props = node, scope, this, name, {}


class Native:
    def __init__(self, f, name=""):
        self.f, self.name = f, name


class Cls:
    def __init__(self, name):
        self.name, self.methods, self.getters, self.statics, self.fields, self.ctor, self.scope, self.parent = name, {}, {}, {}, [], None, None, None


class Ev:
    def __init__(self, kind, name, recv, args, res, loops, stack, line):
        self.kind, self.name, self.recv, self.args, self.res, self.loops, self.stack, self.line = kind, name, recv, args, res, loops, stack, line

    def __repr__(self):
        r = (show(self.recv) + ".") if self.recv is not None else ""
        return f"{self.kind} {r}{self.name}({', '.join(show(a) for a in self.args)})" + ("*" if self.loops else "")


class JSThrow(Exception):
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Unsupported(Exception):
    pass


class TooMany(Exception):
    pass


class Scope:
    __slots__ = ("vars", "up", "fn")

    def __init__(self, up, fn=False):
        self.vars, self.up, self.fn = {}, up, fn

    def find(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s
            s = s.up
        return None


KINDS = frozenset(["undefined", "null", "true", "false", "number", "string", "bigint", "function", "array", "bytes", "object"])
TYPEOF = {"null": "object", "true": "boolean", "false": "boolean", "array": "object", "bytes": "object"}


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def term(x):
    """structural symbol of a value"""
    if isinstance(x, S):
        return x
    if x is UNDEF:
        return S("undef")
    if x is None:
        return S("null")
    if isinstance(x, bool):
        return S("bool", "true" if x else "false")
    if isnum(x):
        return S("num", repr(float(x)) if isinstance(x, float) and not x.is_integer() else str(int(x)))
    if isinstance(x, Big):
        return S("big", str(x.v))
    if isinstance(x, str):
        return S("s", x)
    if isinstance(x, Arr):
        return S("arr", *[term(i) for i in x.items])
    if isinstance(x, Each):
        return S("each", term(x.seq), term(x.val))
    if isinstance(x, Obj) and x.cls is None:
        return S("obj", *([(k, term(v)) for k, v in x.props.items()] + [S("entry", term(k), term(v)) for k, v in x.entries]))
    if isinstance(x, tuple):
        return S("tuple", *[term(i) for i in x])
    if isinstance(x, Native):
        return S("native", x.name)
    return S("ref", id(x))


def lin(x):
    """(constant, {term: coefficient})"""
    if isnum(x):
        return x, {}
    if isinstance(x, S) and x.op == "lin":
        return x.a[0], {t: c for t, c in x.a[1:]}
    return 0, {x: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return S("lin", c, *sorted(d.items(), key=lambda p: repr(p[0])))


def add(a, b, sign=1):
    (c1, d1), (c2, d2) = lin(a), lin(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + sign * k
    return mklin(c1 + sign * c2, d)


def scale(a, k):
    c, d = lin(a)
    return mklin(c * k, {t: v * k for t, v in d.items()})


NUMERIC = {"lin", "rd", "len", "sum", "W", "at", "pn", "bitor"}
HOSTSTR = {"toLowerCase", "toLocaleLowerCase", "toUpperCase", "trim", "substr", "substring", "slice", "toString", "toUTCString", "decode", "stringify"}


class Js:
    def __init__(self, program, pre=(), kinds=None, faults=None, values=None, override=None):
        self.program, self.pre, self.made, self.fixed = program, list(pre), [], 0
        self.facts, self.kinds, self.known, self.notin = {}, dict(kinds or {}), {}, {}
        self.events, self.stack, self.loops, self.journal, self.n = [], [], (), [], 0
        self.dry, self.faults, self.values, self.override = 0, faults, dict(values or {}), dict(override or {})
        self.steps, self.captured, self.defkind, self.lines = 0, [], None, None
        self.glob = Scope(None, True)
        self.branches, self.cos, self.micro = [], [], []

    # ------------------------------------------------------------------------------------------------ decisions
    def choose(self, t):
        t, neg = self.canon(t)
        if t in self.facts:
            return self.facts[t] != neg
        d = self.decide(self, t) if self.decide else None
        if d is not None:
            v = d
        elif self.dry:
            v = self.dry == 2
        else:
            i = len(self.made)
            v = self.pre[i] if i < len(self.pre) else True
            self.made.append(v)
            self.branches.append((t, v))
        self.setfact(t, v)
        return v != neg

    decide = None
    answers = {}
    epoch = turns = 0

    def exported(self, f):
        """is this a function the WebAssembly module exports"""
        return isinstance(f, S) and f.op == "get" and isinstance(f.a[0], S) and f.a[0].op == "get" and f.a[0].a[1] == "exports"

    def canon(self, t):
        if t.op == "!":
            a, n = self.canon(t.a[0])
            return a, not n
        return t, False

    def setfact(self, t, v):
        self.note(lambda: self.facts.pop(t, None))
        self.facts[t] = v
        if t.op == "===" and v:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op in ("s", "num", "big") and x.op not in ("s", "num", "big"):
                    self.note(lambda x=x: self.known.pop(x, None))
                    self.known[x] = y

    def kindset(self, x):
        return self.kinds.get(x) or (self.defkind if self.defkind and x.op in ("get", "m", "res", "await", "new") else None) or (frozenset(["number"]) if x.op in NUMERIC else KINDS)

    def narrow(self, x, ks):
        old = self.kinds.get(x)
        self.note(lambda: self.kinds.__setitem__(x, old) if old is not None else self.kinds.pop(x, None))
        self.kinds[x] = frozenset(ks)

    def iskind(self, x, ks):
        """decide whether the value is of one of these kinds"""
        k = self.kind(x)
        if isinstance(k, str):
            return k in ks
        yes, no = k & ks, k - ks
        if not yes or not no:
            return bool(yes)
        v = self.choose(S("kind", x, ",".join(sorted(yes)), ",".join(sorted(no))))
        self.narrow(x, yes if v else no)
        return v

    def kind(self, x):
        if isinstance(x, S):
            k = self.kindset(x)
            return next(iter(k)) if len(k) == 1 else k
        return "undefined" if x is UNDEF else "null" if x is None else ("true" if x else "false") if isinstance(x, bool) else "number" if isnum(x) \
            else "string" if isinstance(x, str) else "bigint" if isinstance(x, Big) else "function" if isinstance(x, (Fn, Native, Cls)) else "array" if isinstance(x, Arr) else "object"

    def truthy(self, x):
        if isinstance(x, S):
            if x.op == "!":
                return not self.truthy(x.a[0])
            if x.op in ("===", "<", "instanceof", "kindtest", "in", "has", "fails"):
                return self.choose(x)
            ks = self.kindset(x)
            f = {"undefined", "null", "false"}
            if ks <= f:
                return False
            if ks <= {"true", "function", "array", "bytes", "object"}:
                return True
            return self.choose(S("truthy", x))
        if isinstance(x, (bool, int, float)):
            return bool(x) and x == x
        if isinstance(x, Big):
            return x.v != 0
        return x is not UNDEF and x is not None and x != ""

    def eq(self, a, b):
        """strict equality; a bool or a decided branch"""
        for u, v in ((a, b), (b, a)):
            if isinstance(u, S) and (v is UNDEF or v is None or isinstance(v, bool)):
                return self.iskind(u, frozenset([self.kind(v)]))
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, S) and a.op == "typeof" or isinstance(b, S) and b.op == "typeof":
                t, c = (a, b) if isinstance(a, S) and a.op == "typeof" else (b, a)
                if isinstance(c, str):
                    return self.iskind(t.a[0], frozenset(k for k in KINDS if TYPEOF.get(k, k) == c))
            ta, tb = term(a), term(b)
            ta, tb = self.known.get(ta, ta), self.known.get(tb, tb)
            if ta is tb:
                return True
            if ta.op in ("s", "num", "big") and tb.op in ("s", "num", "big"):
                return False
            ka, kb = self.kind(a), self.kind(b)
            ka = frozenset([ka]) if isinstance(ka, str) else ka
            kb = frozenset([kb]) if isinstance(kb, str) else kb
            if not ka & kb:
                return False
            if ka <= {"number"} and kb <= {"number"}:
                d = add(a, b, -1)
                if isnum(d):
                    return d == 0
            return self.choose(S("===", *sorted((ta, tb), key=repr)))
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isnum(a) and isnum(b):
            return a == b
        if isinstance(a, (str, Big)) or isinstance(b, (str, Big)):
            return type(a) is type(b) and a == b
        return a is b

    # ------------------------------------------------------------------------------------------------ effects
    def note(self, undo):
        self.journal.append(undo)

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def emit(self, kind, name, recv, args, res=UNDEF, node=None):
        e = Ev(kind, name, recv, list(args), res, self.loops, [f for f in self.stack], node.get("loc") if node else None)
        e.epoch = self.epoch
        self.events.append(e)
        self.note(lambda: self.events.remove(e))
        return e

    def setprop(self, o, k, v, node=None):
        if isinstance(o, (Obj, Cls, Fn)):
            d = o.props if not isinstance(o, Cls) else o.statics
            if isinstance(k, S):
                self.note(lambda n=len(o.entries): o.entries.__delitem__(slice(n, None)))
                o.entries.append((k, v) if not self.loops or o.depth >= len(self.loops) else (Each(self.loops[-1], k), v))
                return
            k = self.key(k)
            old = d.get(k, Ev)
            self.note(lambda: d.__setitem__(k, old) if old is not Ev else d.pop(k, None))
            d[k] = v
            if isinstance(o, Obj):
                self.touched(("prop", id(o), k), o, k)
            return
        if isinstance(o, Arr) and isnum(k):
            old = list(o.items)
            self.note(lambda: o.items.__setitem__(slice(None), old))
            while len(o.items) <= k:
                o.items.append(UNDEF)
            o.items[int(k)] = v
            return
        if o is None or o is UNDEF:
            raise JSThrow(S("TypeError", "set", str(k)))
        self.fault("set:" + (k if isinstance(k, str) else show(k)))
        self.emit("set", k if isinstance(k, str) else term(k), o, [v], node=node)

    touch = None

    def touched(self, key, o, k):
        if self.touch is not None:
            self.touch.setdefault(key, (o, k))

    def setvar(self, sc, n, v):
        old = sc.vars[n]
        self.note(lambda: sc.vars.__setitem__(n, old))
        sc.vars[n] = v
        self.touched(("var", id(sc), n), sc, n)

    def key(self, k):
        return str(int(k)) if isnum(k) else k

    def fault(self, name):
        if self.faults is not None and re.search(self.faults, name) and not self.dry:
            self.n += 1
            if self.choose(S("fails", name, self.n)):
                raise JSThrow(S("error", name, self.n))

    # ------------------------------------------------------------------------------------------------ programs and functions
    def run_program(self):
        self.hoist(self.program["body"], self.glob)
        for s in self.program["body"]:
            self.stmt(s, self.glob)

    def hoist(self, body, sc):
        for s in body:
            if s["type"] == "ExportNamedDeclaration" and s.get("declaration"):
                s = s["declaration"]
            if s["type"] == "FunctionDeclaration":
                sc.vars[s["id"]["name"]] = Fn(s, sc, name=s["id"]["name"])
            elif s["type"] == "VariableDeclaration":
                for d in s["declarations"]:
                    for n in names(d["id"]):
                        if s["kind"] == "var":
                            t = sc
                            while not t.fn:
                                t = t.up
                            t.vars.setdefault(n, UNDEF)
                        else:
                            sc.vars.setdefault(n, UNDEF)
            elif s["type"] == "ClassDeclaration":
                sc.vars.setdefault(s["id"]["name"], UNDEF)
            for b in ("consequent", "alternate", "body", "block"):
                x = s.get(b)
                if isinstance(x, dict) and x.get("type") == "BlockStatement":
                    self.hoistvar(x["body"], sc)

    def hoistvar(self, body, sc):
        for s in body:
            if s["type"] == "VariableDeclaration" and s["kind"] == "var":
                t = sc
                while not t.fn:
                    t = t.up
                for d in s["declarations"]:
                    for n in names(d["id"]):
                        t.vars.setdefault(n, UNDEF)

    def call(self, f, args, this=UNDEF, node=None):
        if isinstance(f, Native):
            return f.f(args)
        if isinstance(f, Cls):
            raise JSThrow(S("TypeError", "class called"))
        if isinstance(f, S):
            return self.hostcall(f, args, node)
        if not isinstance(f, Fn):
            raise JSThrow(S("TypeError", "not a function", term(f)))
        n = f.node
        if id(n) in self.override and not self.dry:
            return self.override[id(n)](self, f, args)
        if sum(1 for g, _ in self.stack if g.node is n) >= 1 and self.recursive(f, args):
            return self.again(f, args)
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        sc = Scope(f.scope, True)
        self.bindparams(n["params"], args, sc)
        th = f.this if n["type"] == "ArrowFunctionExpression" else this
        self.stack.append((f, args))
        old = getattr(self, "this", UNDEF)
        self.this = th
        try:
            if n.get("async") and self.co and not self.dry:
                return self.coroutine(lambda: self.body(n, sc), (f, args))
            if n.get("async"):
                try:
                    r = self.body(n, sc)
                except JSThrow as e:
                    return PromiseV(error=e)
                return r if isinstance(r, PromiseV) else PromiseV(r)
            return self.body(n, sc)
        finally:
            self.stack.pop()
            self.this = old

    # ------------------------------------------------------------------------------------------------ async functions that wait
    co, cur = False, None

    def coroutine(self, f, frame):
        """run an async function until it waits for a promise that is not settled"""
        co, out = Co(), PromiseV(pending=True)
        self.cos.append(co)

        def main():
            co.go.acquire()
            try:
                if co.dead:
                    return
                co.out = ("ret", f())
            except JSThrow as e:
                co.out = ("throw", e)
            except Kill:
                return
            except BaseException as e:
                co.out = ("fail", e)
            co.back.release()
        threading.Thread(target=main, daemon=True).start()

        def step(first=False):
            was, base, this, loops = self.cur, len(self.stack), getattr(self, "this", UNDEF), self.loops
            if not first:
                self.stack.append(frame)
                base = len(self.stack)
                kept, self.this, self.loops = co.keep
                self.stack.extend(kept)
            self.cur, co.base = co, base
            co.go.release()
            co.back.acquire()
            self.cur, self.this, self.loops = was, this, loops
            del self.stack[base if first else base - 1:]
            k, v = co.out
            if k == "wait":
                v.after.append(step)
            elif k == "ret":
                self.settled_as(out, v)
            elif k == "throw":
                self.reject(out, v)
            else:
                raise v
        step(True)
        return out

    def waits(self, p):
        co = self.cur
        co.keep = (self.stack[co.base:], self.this, self.loops)
        co.out = ("wait", p)
        co.back.release()
        co.go.acquire()
        if co.dead:
            raise Kill()

    def settled_as(self, p, v):
        if isinstance(v, PromiseV) and v.pending:
            v.after.append(lambda: self.settled_as(p, v))
            return
        if isinstance(v, PromiseV):
            p.value, p.error, p.pending = v.value, v.error, None
        else:
            p.value, p.pending = v, None
        self.reactions(p)

    def reject(self, p, e):
        p.error, p.pending = e, None
        self.reactions(p)

    def reactions(self, p):
        self.micro.extend(p.after)
        p.after = []

    def drain(self):
        """what waits for promises that are settled now"""
        for _ in range(200):
            if not self.micro:
                return
            self.micro.pop(0)()
        raise TooMany("microtasks")

    def kill(self):
        for co in self.cos:
            co.dead = True
            co.go.release()
        self.cos = []

    def recursive(self, f, args):
        return True

    def again(self, f, args):
        """the function entered again while it runs: its answer is a symbol, cursors it is given move on by a symbol"""
        k = len([p for p in f.node["params"] if p["type"] != "RestElement"])
        vals = [a for a in args[:k] if not (isinstance(a, Obj) and a.cls is not None)]
        objs = [a for a in args[:k] if isinstance(a, Obj) and a.cls is not None]
        where = [term(v) for v in vals]
        if not where:
            where = [term(v) for o in objs for q, v in sorted(o.props.items()) if isnum(v) or isinstance(v, S) and v.op in NUMERIC]
        self.captured.append((f, args))
        self.emit("again", "", None, args, S("R", *where))
        for o in objs:
            for q, v in list(o.props.items()):
                if self.moves(o, q):
                    self.setprop(o, q, add(v, S("W", *where)))
        return S("R", *where)

    def moves(self, o, q):
        """fields of the class that its own methods change"""
        c = o.cls
        m = getattr(c, "moving", None)
        if m is None:
            m = c.moving = set()
            for fn in c.methods.values():
                for x in walk(fn.node["body"]):
                    if x["type"] in ("AssignmentExpression", "UpdateExpression"):
                        t = x.get("left") or x.get("argument")
                        if t["type"] == "MemberExpression" and t["object"]["type"] == "ThisExpression" and not t["computed"]:
                            m.add(t["property"]["name"])
        return q in m

    def body(self, n, sc):
        if n["body"]["type"] != "BlockStatement":
            return self.ex(n["body"], sc)
        try:
            self.block(n["body"]["body"], sc)
        except Ret as r:
            return r.v
        return UNDEF

    def bindparams(self, ps, args, sc):
        for i, p in enumerate(ps):
            if p["type"] == "RestElement":
                self.bind(p["argument"], Arr(args[i:], len(self.loops)), sc)
            else:
                self.bind(p, args[i] if i < len(args) else UNDEF, sc)

    def bind(self, p, v, sc):
        t = p["type"]
        if t == "Identifier":
            sc.vars[p["name"]] = v
        elif t == "AssignmentPattern":
            self.bind(p["left"], self.ex(p["right"], sc) if self.iskind(v, frozenset(["undefined"])) else v, sc)
        elif t == "ArrayPattern":
            for i, q in enumerate(p["elements"]):
                if q is None:
                    continue
                if q["type"] == "RestElement":
                    self.bind(q["argument"], self.slice(v, i), sc)
                else:
                    self.bind(q, self.getprop(v, i), sc)
        elif t == "ObjectPattern":
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    raise Unsupported("object rest")
                k = self.ex(q["key"], sc) if q["computed"] else q["key"].get("name", q["key"].get("value"))
                self.bind(q["value"], self.getprop(v, k), sc)
        else:
            raise Unsupported("pattern " + t)

    def slice(self, v, i, j=None):
        if isinstance(v, Arr) and not any(isinstance(x, Each) for x in v.items):
            return Arr(v.items[i:j], len(self.loops))
        return S("m", term(v), "slice", S("num", str(i)))

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body, sc):
        self.hoist(body, sc)
        for s in body:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > 400000:
            raise TooMany("steps")
        t = s["type"]
        if t == "ExpressionStatement":
            self.ex(s["expression"], sc)
        elif t == "VariableDeclaration":
            for d in s["declarations"]:
                if d["init"] is None and s["kind"] == "var":
                    continue
                v = self.ex(d["init"], sc, d["id"].get("name")) if d["init"] else UNDEF
                if s["kind"] == "var":
                    f = sc
                    while not f.fn:
                        f = f.up
                    self.bind(d["id"], v, f)
                else:
                    self.bind(d["id"], v, sc)
        elif t == "ReturnStatement":
            raise Ret(self.ex(s["argument"], sc) if s["argument"] else UNDEF)
        elif t == "IfStatement":
            if self.truthy(self.ex(s["test"], sc)):
                self.stmt(s["consequent"], sc)
            elif s["alternate"]:
                self.stmt(s["alternate"], sc)
        elif t == "BlockStatement":
            self.block(s["body"], Scope(sc))
        elif t == "ThrowStatement":
            raise JSThrow(self.ex(s["argument"], sc))
        elif t == "TryStatement":
            self.tryst(s, sc)
        elif t == "ForOfStatement":
            self.forof(s, sc)
        elif t == "ForStatement":
            self.forst(s, Scope(sc))
        elif t == "ForInStatement":
            o = self.ex(s["right"], sc)
            self.over(self.keys(o), lambda v: self.turn(s, v, sc))
        elif t in ("WhileStatement", "DoWhileStatement"):
            self.whilest(s, sc)
        elif t == "SwitchStatement":
            self.switch(s, sc)
        elif t == "BreakStatement":
            raise Brk()
        elif t == "ContinueStatement":
            raise Cont()
        elif t == "FunctionDeclaration":
            sc.vars[s["id"]["name"]] = Fn(s, sc, name=s["id"]["name"])
        elif t == "ClassDeclaration":
            sc.vars[s["id"]["name"]] = self.classdef(s, sc)
        elif t in ("EmptyStatement", "ImportDeclaration", "ExportAllDeclaration", "ExportDefaultDeclaration"):
            pass
        elif t == "ExportNamedDeclaration":
            if s.get("declaration"):
                self.stmt(s["declaration"], sc)
        elif t == "LabeledStatement":
            self.stmt(s["body"], sc)
        else:
            raise Unsupported(t)

    def tryst(self, s, sc):
        try:
            try:
                self.stmt(s["block"], sc)
            except JSThrow as e:
                h = s.get("handler")
                if not h:
                    raise
                hs = Scope(sc)
                if h.get("param"):
                    self.bind(h["param"], e.v, hs)
                self.block(h["body"]["body"], hs)
        finally:
            if s.get("finalizer"):
                self.stmt(s["finalizer"], sc)

    def switch(self, s, sc):
        d = self.ex(s["discriminant"], sc)
        sc = Scope(sc)
        on = False
        try:
            for i, c in enumerate(s["cases"]):
                if not on and c["test"] is not None and self.eq(d, self.ex(c["test"], sc)):
                    on = True
                if on:
                    for x in c["consequent"]:
                        self.stmt(x, sc)
            if not on:
                k = next((i for i, c in enumerate(s["cases"]) if c["test"] is None), None)
                if k is not None:
                    for c in s["cases"][k:]:
                        for x in c["consequent"]:
                            self.stmt(x, sc)
        except Brk:
            pass

    def turn(self, s, v, sc):
        b = Scope(sc)
        l = s["left"]
        if l["type"] == "VariableDeclaration":
            self.bind(l["declarations"][0]["id"], v, b)
        else:
            self.assign(l, v, sc)
        try:
            self.stmt(s["body"], b)
        except Cont:
            pass

    def forof(self, s, sc):
        it = self.ex(s["right"], sc)
        if s.get("await"):
            raise Unsupported("for await")
        self.over(it, lambda v: self.turn(s, v, sc))

    def over(self, it, f):
        try:
            for v in self.iterate(it):
                if isinstance(v, Each):
                    self.generic(v.seq, lambda v=v: f(v.val))
                else:
                    f(v)
        except Brk:
            pass

    def iterate(self, it):
        if isinstance(it, Arr):
            return list(it.items)
        if isinstance(it, Seq):
            return list(it.items)
        if isinstance(it, MapV):
            return self.mapitems(it, "values" if it.isset else "entries")
        if isinstance(it, str):
            return list(it)
        if it is UNDEF or it is None:
            raise JSThrow(S("TypeError", "not iterable"))
        t = term(it)
        if not self.dry:
            self.emit("over", "", t, [])
        return [Each(t, S("item", t))]

    def generic(self, seq, f):
        """one arbitrary turn; what changes in a turn is found first, then given an arbitrary value before it"""
        seq = term(seq)
        if not self.dry:
            self.emit("over", "", seq, [])
        if seq in self.loops:
            raise Unsupported("loop over what is being looped over")
        touch = {}
        for way in (1, 2):
            old, self.touch, od = self.touch, {}, self.dry
            mark, caps = len(self.journal), len(self.captured)
            self.dry, ol, self.loops = way, self.loops, self.loops + (seq,)
            try:
                f()
            except (JSThrow, Ret, Brk, Cont):
                pass
            finally:
                self.dry, self.loops = od, ol
            self.rollback(mark)
            if od:
                del self.captured[caps:]
            for k, v in self.touch.items():
                touch.setdefault(k, v)
            self.touch = old
        carried = []
        self.turns += 1
        for k, (o, n) in touch.items():
            d = o.vars if isinstance(o, Scope) else o.props
            if n not in d or isinstance(o, Obj) and o.depth > len(self.loops):
                continue
            was = d[n]
            if k[0] == "var" and not self.outer(o):
                continue
            at = S("at", seq, str(n), len(carried), self.turns, term(was)) if isnum(was) or isinstance(was, S) and was.op in NUMERIC else S("carried", seq, str(n), len(carried), self.turns, term(was))
            if isinstance(was, (bool, type(None), Undef)) or isinstance(was, S) and at.op == "carried":
                self.narrow(at, KINDS)
            carried.append((o, n, was, at))
        for o, n, was, at in carried:
            if at.op == "at":
                self.put(o, n, at)
        ol, self.loops = self.loops, self.loops + (seq,)
        broke = False
        try:
            f()
        except Brk:
            broke = True
        finally:
            self.loops = ol
        for o, n, was, at in carried:
            d = o.vars if isinstance(o, Scope) else o.props
            if n not in d:
                continue
            now = d[n]
            if at.op == "at":
                step = add(now, at, -1) if isnum(now) or isinstance(now, S) else None
                if step is not None and not (isinstance(step, S) and at in step.subs()):
                    size = scale(seqlen(seq), step) if isnum(step) else S("sum", seq, step)
                    self.put(o, n, add(was, size) if not broke else S("partly", term(was), term(step)))
                else:
                    self.put(o, n, S("looped", seq, term(now)))
            elif now is not was and not broke:
                self.put(o, n, now)

    def outer(self, sc):
        return True

    def put(self, o, n, v):
        if isinstance(o, Scope):
            self.setvar(o, n, v)
        else:
            self.setprop(o, n, v)

    def forst(self, s, sc):
        if s["init"]:
            if s["init"]["type"] == "VariableDeclaration":
                self.stmt(s["init"], sc)
            else:
                self.ex(s["init"], sc)
        for _ in range(300):
            test = self.ex(s["test"], sc) if s["test"] else True
            if isinstance(test, S) and test.op in ("<", "!") and self.counted(s, sc, test):
                return
            if not self.truthy(test):
                return
            b = Scope(sc)
            try:
                self.stmt(s["body"], b)
            except Cont:
                pass
            except Brk:
                return
            if s["update"]:
                self.ex(s["update"], sc)
        raise TooMany("for")

    def countedwhile(self, s, sc, test):
        """while (i < n) { ...; i++ }"""
        b = s["body"]
        body = b["body"] if b["type"] == "BlockStatement" else [b]
        if not body or body[-1]["type"] != "ExpressionStatement" or any(x["type"] == "ContinueStatement" for y in body for x in walk(y)):
            return False
        u = body[-1]["expression"]
        seq = u["expressions"] if u["type"] == "SequenceExpression" else [u]
        u = seq[-1]
        t = u.get("argument") if u["type"] == "UpdateExpression" else u.get("left") if u["type"] == "AssignmentExpression" else None
        if not t or t["type"] != "Identifier":
            return False
        own = sc.find(t["name"])
        rest = body[:-1] + [{"type": "ExpressionStatement", "expression": x} for x in seq[:-1]]
        if own is None or not self.counted({"outer": t["name"], "update": u, "body": {"type": "BlockStatement", "body": rest}}, Scope(sc), test):
            return False
        n = test.a[1]
        was = own.vars[t["name"]]
        self.note(lambda: own.vars.__setitem__(t["name"], was))
        own.vars[t["name"]] = plain(n)
        return True

    def counted(self, s, sc, test):
        """for (i = 0; i < n; i++)"""
        if test.op == "!":      # !(n <= i) does not occur; n - 1 >= i is not used
            return False
        lo, n = test.a
        own = sc
        if not sc.vars and s.get("outer"):
            own = sc.find(s["outer"]) or sc
        var = [k for k, v in own.vars.items() if isnum(v) and term(v) is lo and s.get("outer") in (None, k)]
        if len(var) != 1 or not (lo.op == "num" and lo.a[0] == "0") or not s["update"]:
            return False
        v = var[0]
        mark = len(self.journal)
        self.ex(s["update"], sc)
        ok = own.vars[v] == 1
        self.rollback(mark)
        if not ok:
            return False
        i = S("index", n)
        self.kinds[i] = frozenset(["number"])

        def one():
            b = Scope(sc)
            b.vars[v] = i
            try:
                self.stmt(s["body"], b)
            except Cont:
                pass
        try:
            self.generic(S("range", n), one)
        except Brk:
            pass
        return True

    def whilest(self, s, sc):
        k = 0
        while True:
            if s["type"] == "WhileStatement" or k:
                test = self.ex(s["test"], sc)
                if not k and isinstance(test, S) and test.op == "<" and self.countedwhile(s, sc, test):
                    return
                if not self.truthy(test):
                    return
            k += 1
            if k > 3:
                raise TooMany("while")
            try:
                self.stmt(s["body"], Scope(sc))
            except Cont:
                pass
            except Brk:
                return

    # ------------------------------------------------------------------------------------------------ expressions
    def ex(self, n, sc, name=None):
        self.steps += 1
        f = getattr(self, "x_" + n["type"], None)
        if f is None:
            raise Unsupported(n["type"])
        if n["type"] in ("ArrowFunctionExpression", "FunctionExpression", "ClassExpression"):
            return f(n, sc, name)
        return f(n, sc)

    def x_Literal(self, n, sc):
        if "bigint" in n and n["bigint"] is not None:
            return Big(int(n["bigint"]))
        if n.get("regex"):
            return S("regex", n["regex"]["pattern"], n["regex"]["flags"])
        return n["value"]

    def x_Identifier(self, n, sc):
        k = n["name"]
        s = sc.find(k)
        if s is not None:
            return s.vars[k]
        if k == "undefined":
            return UNDEF
        if k in ("NaN", "Infinity"):
            return float("nan") if k == "NaN" else float("inf")
        return S("g", k)

    def x_ThisExpression(self, n, sc):
        return self.this

    def x_TemplateLiteral(self, n, sc):
        parts = []
        for i, q in enumerate(n["quasis"]):
            parts.append(q["value"]["cooked"])
            if i < len(n["expressions"]):
                parts.append(self.ex(n["expressions"][i], sc))
        return self.cat(parts)

    def cat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, S) and p.op == "cat":
                seq = list(p.a)
            elif isinstance(p, (Fn, Obj, Arr, Native)):
                seq = [S("str", term(p))]
            else:
                seq = [p if isinstance(p, (str, S)) else str(int(p)) if isnum(p) and float(p).is_integer() else {True: "true", False: "false", None: "null"}.get(p, repr(p)) if not isinstance(p, Big) else str(p.v)]
            for x in seq:
                if isinstance(x, S) and x.op == "s":
                    x = x.a[0]
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "":
                    out.append(x)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return S("cat", *out)

    def x_ArrayExpression(self, n, sc):
        out = []
        for e in n["elements"]:
            if e is None:
                out.append(UNDEF)
            elif e["type"] == "SpreadElement":
                out.extend(self.iterate(self.ex(e["argument"], sc)))
            else:
                out.append(self.ex(e, sc))
        return Arr(out, len(self.loops))

    def x_ObjectExpression(self, n, sc):
        o = Obj(depth=len(self.loops))
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                v = self.ex(p["argument"], sc)
                if isinstance(v, Obj):
                    o.props.update(v.props)
                    o.entries.extend(v.entries)
                else:
                    raise Unsupported("spread of a symbol")
                continue
            k = self.ex(p["key"], sc) if p["computed"] else p["key"].get("name", p["key"].get("value"))
            v = self.ex(p["value"], sc, k)
            if isinstance(k, S):
                o.entries.append((k, v))
            else:
                o.props[self.key(k)] = v
        return o

    def x_ArrowFunctionExpression(self, n, sc, name):
        return Fn(n, sc, getattr(self, "this", UNDEF), name or "")

    def x_FunctionExpression(self, n, sc, name):
        return Fn(n, sc, None, name or "")

    def x_ClassExpression(self, n, sc, name):
        return self.classdef(n, sc, name)

    def classdef(self, n, sc, name=None):
        c = Cls(n["id"]["name"] if n.get("id") else name or "class")
        cs = Scope(sc)
        if n.get("id"):
            cs.vars[n["id"]["name"]] = c
        c.scope = cs
        if n.get("superClass"):
            c.parent = self.ex(n["superClass"], sc)
        for m in n["body"]["body"]:
            k = m["key"].get("name", m["key"].get("value")) if m.get("key") else None
            if m["type"] == "MethodDefinition":
                f = Fn(m["value"], cs, None, k)
                if m["kind"] == "constructor":
                    c.ctor = f
                elif m["kind"] == "get":
                    c.getters[k] = f
                elif m["static"]:
                    c.statics[k] = f
                else:
                    c.methods[k] = f
            elif m["type"] == "PropertyDefinition":
                if m["static"]:
                    c.statics[k] = self.ex(m["value"], cs) if m["value"] else UNDEF
                else:
                    c.fields.append((k, m["value"]))
            else:
                raise Unsupported(m["type"])
        return c

    def construct(self, c, args, node=None):
        if isinstance(c, Cls):
            if isinstance(c.parent, Cls):
                raise Unsupported("inheritance")
            o = Obj(c, len(self.loops))
            old = getattr(self, "this", UNDEF)
            self.this = o
            try:
                for k, v in c.fields:
                    o.props[k] = self.ex(v, c.scope, k) if v else UNDEF
            finally:
                self.this = old
            if c.ctor:
                self.call(c.ctor, args, o, node)
            return o
        if isinstance(c, S) and c.op == "g":
            k = c.a[0]
            if k in ("Map", "Set"):
                m = MapV(k == "Set", len(self.loops))
                if args and not (args[0] is UNDEF or args[0] is None):
                    for x in self.iterate(args[0]):
                        m.log.append(("set", x, x) if m.isset else ("set", self.getprop(x, 0), self.getprop(x, 1)))
                return m
            if k == "Promise":
                p = PromiseV(pending=True)

                def res(a):
                    if p.pending:
                        v = a[0] if a else UNDEF
                        self.note(lambda: setattr(p, "pending", True))
                        self.settled_as(p, v)
                    return UNDEF

                def rej(a):
                    if p.pending:
                        self.note(lambda: setattr(p, "pending", True))
                        self.reject(p, JSThrow(a[0] if a else UNDEF))
                    return UNDEF
                self.call(args[0], [Native(res, "resolve"), Native(rej, "reject")])
                return p
            if k in ("Error", "TypeError"):
                return S("Error", *[term(a) for a in args[:1]])
            if k in ("Array",):
                return Arr([UNDEF] * int(args[0]) if args and isnum(args[0]) else args, len(self.loops))
            if k == "Object":
                return Obj(depth=len(self.loops))
            if k == "String":
                return self.cat([args[0]])
        self.n += 1
        name = c.a[0] if isinstance(c, S) and c.op == "g" else show(c)
        self.fault("new " + name)
        if name == "Uint8Array" and args and isinstance(args[0], (S,)):
            r = S("bytes", term(args[0]))
            self.kinds[r] = frozenset(["bytes"])
            self.emit("new", name, None, args, r, node)
            return r
        r = S("new", name, self.n, *[term(a) for a in args])
        self.kinds.setdefault(r, frozenset(["object"]))
        self.emit("new", name, None, args, r, node)
        return r

    def x_NewExpression(self, n, sc):
        c = self.ex(n["callee"], sc)
        return self.construct(c, self.args(n["arguments"], sc), n)

    def args(self, l, sc):
        out = []
        for a in l:
            if a["type"] == "SpreadElement":
                v = self.ex(a["argument"], sc)
                out.extend(self.iterate(v))
            else:
                out.append(self.ex(a, sc))
        return out

    def x_SequenceExpression(self, n, sc):
        r = UNDEF
        for e in n["expressions"]:
            r = self.ex(e, sc)
        return r

    def x_ConditionalExpression(self, n, sc):
        return self.ex(n["consequent"] if self.truthy(self.ex(n["test"], sc)) else n["alternate"], sc)

    def x_LogicalExpression(self, n, sc):
        l = self.ex(n["left"], sc)
        o = n["operator"]
        if o == "&&":
            return self.ex(n["right"], sc) if self.truthy(l) else l
        if o == "||":
            return l if self.truthy(l) else self.ex(n["right"], sc)
        return self.ex(n["right"], sc) if self.iskind(l, frozenset(["undefined", "null"])) else l

    def x_UnaryExpression(self, n, sc):
        o = n["operator"]
        if o == "typeof" and n["argument"]["type"] == "Identifier" and sc.find(n["argument"]["name"]) is None:
            return S("typeof", S("g", n["argument"]["name"]))
        if o == "delete":
            m = n["argument"]
            b = self.ex(m["object"], sc)
            k = self.ex(m["property"], sc) if m["computed"] else m["property"]["name"]
            if isinstance(b, Obj) and not isinstance(k, S):
                old = b.props.get(k, UNDEF)
                self.note(lambda: b.props.__setitem__(k, old))
                b.props.pop(k, None)
            else:
                self.emit("delete", k, b, [], node=n)
            return True
        v = self.ex(n["argument"], sc)
        if o == "!":
            if isinstance(v, S) and v.op not in ("===", "<", "!"):
                return not self.truthy(v)
            return S("!", v) if isinstance(v, S) and v.op != "!" else v.a[0] if isinstance(v, S) else not self.truthy(v)
        if o == "void":
            return UNDEF
        if o == "typeof":
            k = self.kind(v)
            return TYPEOF.get(k, k) if isinstance(k, str) else S("typeof", v)
        if o == "-":
            return -v if isnum(v) else Big(-v.v) if isinstance(v, Big) else scale(v, -1) if isinstance(v, S) else float("nan")
        if o == "+":
            return v if isnum(v) else S("num()", term(v))
        if o == "~":
            return ~int(v) if isnum(v) else S("~", term(v))
        raise Unsupported("unary " + o)

    def numeric(self, x):
        return isnum(x) or isinstance(x, S) and (x.op in NUMERIC or self.kindset(x) == frozenset(["number"]))

    def x_BinaryExpression(self, n, sc):
        return self.binop(n["operator"], self.ex(n["left"], sc), self.ex(n["right"], sc))

    def binop(self, o, a, b):
        if o == "===":
            return self.eq(a, b)
        if o == "!==":
            return not self.eq(a, b)
        if o in ("==", "!="):
            r = self.looseeq(a, b)
            return r if o == "==" else not r
        if o == "+":
            if isinstance(a, Big) and isinstance(b, Big):
                return Big(a.v + b.v)
            if isnum(a) and isnum(b):
                return a + b
            if self.numeric(a) and self.numeric(b) or self.numeric(a) and isinstance(b, S) and b.op == "R" or self.numeric(b) and isinstance(a, S) and a.op == "R":
                return add(a, b)
            return self.cat([a, b])
        if o == "instanceof":
            return self.instance(a, b)
        if o == "in":
            if isinstance(b, Obj) and not isinstance(a, S):
                return a in b.props or (b.cls is not None and a in b.cls.methods)
            if isinstance(b, S):
                return self.choose(S("in", term(a), b))
            raise JSThrow(S("TypeError", "in"))
        conc = (isnum(a) or isinstance(a, bool)) and (isnum(b) or isinstance(b, bool))
        big = isinstance(a, Big) and isinstance(b, Big)
        if conc or big:
            x, y = (a.v, b.v) if big else (a, b)
            w = Big if big else (lambda v: v)
            if o in ("<", ">", "<=", ">="):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o]
            if o == "-":
                return w(x - y)
            if o == "*":
                return w(x * y)
            if o == "**":
                return w(x ** y)
            if o == "/":
                return w(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) if big else (x / y if y else float("nan"))
            if o == "%":
                return w(abs(x) % abs(y) * (-1 if x < 0 else 1)) if big else math.fmod(x, y) if isinstance(x, float) or isinstance(y, float) else int(math.fmod(x, y))
            if o in ("|", "&", "^"):
                r = {"|": int(x) | int(y), "&": int(x) & int(y), "^": int(x) ^ int(y)}[o]
                return w(r if big else (r + 2 ** 31) % 2 ** 32 - 2 ** 31)
            if o in ("<<", ">>", ">>>"):
                if big:
                    return Big(x << y if o == "<<" else x >> y)
                if o == ">>>":
                    return (int(x) % 2 ** 32) >> (int(y) % 32)
                r = int(x) << int(y) if o == "<<" else int(x) >> int(y)
                return (r + 2 ** 31) % 2 ** 32 - 2 ** 31
        if o == "-":
            if self.numeric(a) and self.numeric(b):
                return add(a, b, -1)
            return S("-", term(a), term(b))
        if o == "*":
            if isnum(a) and isinstance(b, S) and self.numeric(b):
                return scale(b, a)
            if isnum(b) and isinstance(a, S) and self.numeric(a):
                return scale(a, b)
            return S("*", *sorted((term(a), term(b)), key=repr))
        if o in ("<", ">", "<=", ">="):
            if o in (">", "<="):
                r = S("<", term(b), term(a))
            else:
                r = S("<", term(a), term(b))
            if self.numeric(a) and self.numeric(b) and isnum(add(a, b, -1)):
                d = add(a, b, -1)
                return {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[o]
            return r if o in ("<", ">") else S("!", r)
        if o == "|" and b == 0 and isnum(b):
            return S("bitor", term(a))
        return S(o, term(a), term(b))

    def looseeq(self, a, b):
        nul = frozenset(["undefined", "null"])
        for u, v in ((a, b), (b, a)):
            if v is UNDEF or v is None:
                return self.iskind(u, nul)
        return self.eq(a, b)

    def instance(self, a, b):
        name = b.a[0] if isinstance(b, S) and b.op == "g" else None
        if isinstance(a, S):
            if name == "Uint8Array":
                return self.iskind(a, frozenset(["bytes"]))
            if name == "Array":
                return self.iskind(a, frozenset(["array"]))
            k = self.kindset(a)
            if not k & {"object", "array", "bytes", "function"}:
                return False
            if a.op == "new" and a.a[0] == name:
                return True
            if isinstance(b, Cls):
                return False
            return self.choose(S("instanceof", a, term(b)))
        if isinstance(a, Arr):
            return name in ("Array", "Object")
        if isinstance(a, Obj):
            return a.cls is b or name == "Object"
        return isinstance(a, (Fn, Native)) and name == "Function"

    def x_AssignmentExpression(self, n, sc):
        o = n["operator"]
        if o == "=":
            v = self.ex(n["right"], sc, n["left"].get("name") if n["left"]["type"] == "Identifier" else None)
            self.assign(n["left"], v, sc)
            return v
        if o in ("||=", "&&=", "??="):
            cur = self.ex(n["left"], sc)
            do = not self.truthy(cur) if o == "||=" else self.truthy(cur) if o == "&&=" else self.iskind(cur, frozenset(["undefined", "null"]))
            if do:
                cur = self.ex(n["right"], sc)
                self.assign(n["left"], cur, sc)
            return cur
        cur = self.ex(n["left"], sc)
        v = self.binop(o[:-1], cur, self.ex(n["right"], sc))
        self.assign(n["left"], v, sc)
        return v

    def x_UpdateExpression(self, n, sc):
        cur = self.ex(n["argument"], sc)
        v = self.binop("+" if n["operator"] == "++" else "-", cur, 1)
        self.assign(n["argument"], v, sc)
        return v if n["prefix"] else cur

    def assign(self, l, v, sc):
        t = l["type"]
        if t == "Identifier":
            s = sc.find(l["name"])
            if s is None:
                self.emit("set", l["name"], S("g", "globalThis"), [v])
            else:
                self.setvar(s, l["name"], v)
        elif t == "MemberExpression":
            o = self.ex(l["object"], sc)
            k = self.ex(l["property"], sc) if l["computed"] else l["property"]["name"]
            self.setprop(o, k, v, l)
        elif t in ("ArrayPattern", "ObjectPattern"):
            tmp = Scope(sc)
            self.bind(l, v, tmp)
            for k, x in tmp.vars.items():
                s = sc.find(k)
                if s:
                    self.setvar(s, k, x)
        else:
            raise Unsupported("assign " + t)

    def x_ChainExpression(self, n, sc):
        try:
            return self.ex(n["expression"], sc)
        except _Short:
            return UNDEF

    def x_MemberExpression(self, n, sc):
        o = self.ex(n["object"], sc)
        if n.get("optional") and self.iskind(o, frozenset(["undefined", "null"])):
            raise _Short()
        k = self.ex(n["property"], sc) if n["computed"] else n["property"]["name"]
        return self.getprop(o, k)

    def x_AwaitExpression(self, n, sc):
        return self.await_(self.ex(n["argument"], sc))

    def await_(self, v):
        if isinstance(v, PromiseV):
            if v.pending and self.cur is not None and not self.dry:
                self.waits(v)
            if v.error is not None:
                raise v.error
            if v.pending:
                self.n += 1
                r = S("later", self.n)
                self.emit("wait", "", None, [v], r)
                return r
            return v.value
        if isinstance(v, S):
            self.fault("await " + hostname(v))
            r = S("await", v)
            self.emit("wait", hostname(v), None, [v], r)
            return r
        return v

    def x_CallExpression(self, n, sc):
        c = n["callee"]
        if c["type"] == "ChainExpression":
            c = c["expression"]
        if c["type"] == "MemberExpression":
            o = self.ex(c["object"], sc)
            if c.get("optional") and self.iskind(o, frozenset(["undefined", "null"])):
                raise _Short()
            k = self.ex(c["property"], sc) if c["computed"] else c["property"]["name"]
            if n.get("optional"):
                f = self.getprop(o, k)
                if self.iskind(f, frozenset(["undefined", "null"])):
                    raise _Short()
            return self.method(o, k, self.args(n["arguments"], sc), n)
        f = self.ex(c, sc)
        if n.get("optional") and self.iskind(f, frozenset(["undefined", "null"])):
            raise _Short()
        return self.call(f, self.args(n["arguments"], sc), UNDEF, n)

    # ------------------------------------------------------------------------------------------------ properties and methods
    def getprop(self, o, k):
        if isnum(k) and not isinstance(o, (Arr, S, str)):
            k = self.key(k)
        if isinstance(o, Obj):
            if isinstance(k, S):
                for kk, v in reversed(o.entries):
                    if kk is k or isinstance(kk, Each) and kk.val is k:
                        return v
                kn = self.known.get(k)
                if kn is not None and kn.op == "s":
                    return self.getprop(o, kn.a[0])
                if self.loops or o.entries:
                    return S("get", term(o) if o.cls is None else S("ref", id(o)), k)
                # a property chosen at run time
                return self.dynprop(o, k)
            if k in o.props:
                return o.props[k]
            if o.cls is not None:
                if k in o.cls.getters:
                    return self.call(o.cls.getters[k], [], o)
                if k in o.cls.methods:
                    return o.cls.methods[k]
            return UNDEF
        if isinstance(o, Cls):
            return o.statics.get(k, UNDEF)
        if isinstance(o, Arr):
            if k == "length":
                n = 0
                for x in o.items:
                    n = add(n, seqlen(term(x.seq)) if isinstance(x, Each) else 1)
                return n
            if isnum(k):
                k = int(k)
                if not any(isinstance(x, Each) for x in o.items[:k + 1]):
                    return o.items[k] if 0 <= k < len(o.items) else UNDEF
                return S("get", term(o), S("num", str(k)))
            if isinstance(k, S):
                e = [x for x in o.items if isinstance(x, Each)]
                if len(e) == 1 and len(o.items) == 1:
                    return e[0].val
                return S("get", term(o), k)
            return Native(lambda a: self.method(o, k, a, None), k)
        if isinstance(o, MapV) and k == "size":
            live = self.live(o)
            return len(live) if live is not None else S("len", S("ref", id(o)))
        if isinstance(o, (MapV, Seq, PromiseV)):
            return Native(lambda a: self.method(o, k, a, None), str(k))
        if isinstance(o, str):
            if k == "length":
                return len(o.encode("utf-16-le")) // 2
            if isnum(k):
                return o[int(k)] if 0 <= int(k) < len(o) else UNDEF
            return Native(lambda a: self.method(o, k, a, None), str(k))
        if o is UNDEF or o is None:
            raise JSThrow(S("TypeError", "get", str(k)))
        if isinstance(o, S) and o.op == "g" and o.a[0] in ("window", "self", "globalThis") and k in ("location", "history", "document", "WebSocket"):
            return S("g", k)
        if isinstance(o, S):
            self.needs_object(o, "get")
            at = (o, k if isinstance(k, str) else term(k))
            if at in self.values:
                return self.values[at]
            self.fault("get:" + (k if isinstance(k, str) else show(k)))
            if k == "buffer" and o.op == "bytes":
                return o.a[0]
            if k == "buffer" and o.op == "get" and o.a[1] == "memory":
                return S("get", o, "buffer", self.epoch)
            if k == "length":
                t = S("len", o)
                return t
            return S("get", o, k if isinstance(k, str) else term(k))
        if isinstance(o, Fn):
            return o.props.get(k, UNDEF)
        return UNDEF

    def dynprop(self, o, k):
        return S("get", S("ref", id(o)), k)

    def needs_object(self, o, what):
        ks = self.kindset(o)
        if ks <= {"undefined", "null"}:
            raise JSThrow(S("TypeError", what))

    def keys(self, o):
        if isinstance(o, Obj):
            return Arr(list(o.props) + [k for k, _ in o.entries], len(self.loops))
        return S("m", S("g", "Object"), "keys", term(o))

    def live(self, m):
        """[(key, value)] still in the map, or None when it holds more than is known"""
        if m.unknown:
            return None
        out = []
        for w, k, v in m.log:
            same = [i for i, (kk, _) in enumerate(out) if self.same(kk, k)]
            if w == "set":
                if same:
                    out[same[0]] = (out[same[0]][0], v)
                else:
                    out.append((k, v))
            elif same:
                out.pop(same[0])
        return out

    def same(self, a, b):
        if isinstance(a, S) or isinstance(b, S):
            return term(a) is term(b) or not self.distinct(a, b) and self.eq(a, b)
        return a is b if not isinstance(a, (str, int, float, Big)) else type(a) is type(b) and a == b

    def distinct(self, a, b):
        """parameters with different names are different"""
        return isinstance(a, S) and isinstance(b, S) and a.op in ("p", "pn") and b.op in ("p", "pn") or not isinstance(a, S) and not isinstance(b, S)

    def mapitems(self, m, what):
        live = self.live(m)
        if live is None:
            t = S("ref", id(m))
            it = S("item", t)
            k = S("key", t)
            return [Each(t, it if what == "values" else k if what == "keys" else Arr([k, it], len(self.loops)))]
        return [v if what == "values" else k if what == "keys" else Arr([k, v], len(self.loops)) for k, v in live]

    def method(self, o, k, a, node):
        if isinstance(k, S):
            f = self.getprop(o, k)
            return self.call(f, a, o, node) if not isinstance(f, S) else self.hostmethod(o, k, a, node)
        if isinstance(o, Obj):
            f = self.getprop(o, k)
            if f is UNDEF and k in ("hasOwnProperty",):
                return a[0] in o.props
            return self.call(f, a, o, node)
        if isinstance(o, Cls):
            return self.call(o.statics.get(k, UNDEF), a, o, node)
        if isinstance(o, Arr):
            return self.arrmethod(o, k, a, node)
        if isinstance(o, Seq):
            return self.arrmethod(Arr(o.items, len(self.loops)), k, a, node)
        if isinstance(o, MapV):
            return self.mapmethod(o, k, a, node)
        if isinstance(o, PromiseV):
            return self.promisemethod(o, k, a, node)
        if isinstance(o, Fn):
            if k == "call":
                return self.call(o, a[1:], a[0] if a else UNDEF, node)
            if k == "apply":
                return self.call(o, list(self.iterate(a[1])) if len(a) > 1 else [], a[0], node)
            if k == "bind":
                return Native(lambda b: self.call(o, list(a[1:]) + list(b), a[0], node), "bound")
            return self.call(o.props.get(k, UNDEF), a, o, node)
        if isinstance(o, Native):
            if k == "bind":
                return o
        if isinstance(o, str):
            r = strmethod(o, k, a)
            if r is not None:
                return Arr(r, len(self.loops)) if isinstance(r, list) else r
            return S("m", term(o), k, *[term(x) for x in a])
        if isnum(o) and k == "toString":
            return self.cat([o])
        if o is UNDEF or o is None:
            raise JSThrow(S("TypeError", "call", str(k)))
        return self.hostmethod(o, k, a, node)

    def later(self, o, f):
        p = PromiseV(pending=True)
        o.after.append(lambda: self.settled_as(p, f()))
        return p

    def promisemethod(self, o, k, a, node):
        if k == "then":
            if o.error is not None:
                return self.settle(a[1], o.error.v) if len(a) > 1 else o
            if o.pending:
                self.emit("then", "", None, [o] + a, UNDEF, node)
                return self.later(o, lambda: self.promisemethod(o, k, a, node))
            return self.settle(a[0], o.value)
        if k == "catch":
            if o.pending:
                return self.later(o, lambda: self.promisemethod(o, k, a, node))
            return self.settle(a[0], o.error.v) if o.error is not None else o
        if k == "finally":
            self.call(a[0], [])
            return o
        raise Unsupported("promise." + str(k))

    def settle(self, f, v):
        try:
            r = self.call(f, [v])
        except JSThrow as e:
            return PromiseV(error=e)
        return r if isinstance(r, PromiseV) else PromiseV(r)

    def arrmethod(self, o, k, a, node):
        L = len(self.loops)
        if k in ("push", "unshift"):
            self.note(lambda old=list(o.items): o.items.__setitem__(slice(None), old))
            vals = a
            if self.loops and o.depth < L:
                for seq in reversed(self.loops[o.depth:]):
                    vals = [Each(seq, v) for v in vals]
            o.items[len(o.items) if k == "push" else 0:len(o.items) if k == "push" else 0] = vals
            return self.getprop(o, "length")
        if k in ("pop", "shift"):
            if not o.items:
                return UNDEF
            i = -1 if k == "pop" else 0
            if isinstance(o.items[i], Each):
                return S("m", term(o), k)
            self.note(lambda old=list(o.items): o.items.__setitem__(slice(None), old))
            return o.items.pop(i)
        if k in ("map", "forEach", "filter", "flatMap"):
            out = Arr([], L)
            i = 0
            for v in list(o.items):
                if isinstance(v, Each):
                    def one(v=v):
                        r = self.call(a[0], [v.val, S("index", v.seq), o])
                        if k == "filter":
                            if self.truthy(r):
                                self.arrmethod(out, "push", [v.val], node)
                        else:
                            self.arrmethod(out, "push", [r], node)
                    self.generic(v.seq, one)
                else:
                    r = self.call(a[0], [v, i, o])
                    if k != "filter":
                        out.items.append(r)
                    elif self.truthy(r):
                        out.items.append(v)
                i += 1
            return UNDEF if k == "forEach" else out
        if k in ("some", "every", "find", "includes", "indexOf", "reduce") and not any(isinstance(v, Each) for v in o.items):
            if k == "includes":
                return any(self.eq(v, a[0]) for v in o.items)
            if k == "indexOf":
                return next((i for i, v in enumerate(o.items) if self.eq(v, a[0])), -1)
            if k == "reduce":
                items = list(o.items)
                acc = a[1] if len(a) > 1 else items.pop(0)
                for i, v in enumerate(items):
                    acc = self.call(a[0], [acc, v, i, o])
                return acc
            for i, v in enumerate(o.items):
                r = self.truthy(self.call(a[0], [v, i, o]))
                if k == "some" and r:
                    return True
                if k == "every" and not r:
                    return False
                if k == "find" and r:
                    return v
            return {"some": False, "every": True, "find": UNDEF}[k]
        if k == "reduce" and len(o.items) == 1 and isinstance(o.items[0], Each):
            return self.reduce(o.items[0].seq, o.items[0].val, a)
        if k == "slice" and not any(isinstance(v, Each) for v in o.items) and all(isnum(x) for x in a):
            return Arr(o.items[slice(*[int(x) for x in (a + [None, None])[:2] if x is not None])] if len(a) > 1 else o.items[int(a[0]) if a else 0:], L)
        if k == "slice" and not a:
            return Arr(o.items, L)
        if k == "concat":
            out = list(o.items)
            for x in a:
                out.extend(x.items if isinstance(x, Arr) else [x])
            return Arr(out, L)
        if k in ("values", "entries", "keys"):
            return Seq(o.items if k == "values" else [Arr([i, v], L) for i, v in enumerate(o.items)] if k == "entries" else list(range(len(o.items))))
        if k == "join" and not any(isinstance(v, Each) for v in o.items):
            sep = a[0] if a else ","
            parts = []
            for i, v in enumerate(o.items):
                parts += ([sep] if i else []) + [v]
            return self.cat(parts)
        if k == "reverse" and not any(isinstance(v, Each) for v in o.items):
            self.note(lambda old=list(o.items): o.items.__setitem__(slice(None), old))
            o.items.reverse()
            return o
        if k in ("at",) and isnum(a[0]):
            return o.items[int(a[0])] if -len(o.items) <= a[0] < len(o.items) else UNDEF
        return S("m", term(o), k, *[term(x) for x in a])

    def reduce(self, seq, val, a):
        cell = Scope(None, True)
        cell.vars["acc"] = a[1] if len(a) > 1 else UNDEF

        def one():
            self.setvar(cell, "acc", self.call(a[0], [cell.vars["acc"], val, S("index", term(seq))]))
        self.generic(seq, one)
        return cell.vars["acc"]

    def mapmethod(self, m, k, a, node):
        if k in ("set", "add"):
            self.note(lambda n=len(m.log): m.log.__delitem__(slice(n, None)))
            m.log.append(("set", a[0], a[1] if k == "set" and not m.isset else a[0]))
            return m
        if k == "delete":
            r = self.mapget(m, a[0])
            self.note(lambda n=len(m.log): m.log.__delitem__(slice(n, None)))
            m.log.append(("del", a[0], None))
            return r is not None
        if k == "clear":
            old, u = list(m.log), m.unknown
            self.note(lambda: (m.log.__setitem__(slice(None), old), setattr(m, "unknown", u)))
            m.log[:], m.unknown = [], False
            return UNDEF
        if k in ("get", "has"):
            r = self.mapget(m, a[0])
            return (UNDEF if r is None else r[0]) if k == "get" else r is not None
        if k in ("values", "keys", "entries"):
            return Seq(self.mapitems(m, k))
        if k == "forEach":
            for it in self.mapitems(m, "entries"):
                if isinstance(it, Each):
                    self.generic(it.seq, lambda: self.call(a[0], [it.val.items[1], it.val.items[0], m]))
                else:
                    self.call(a[0], [it.items[1], it.items[0], m])
            return UNDEF
        raise Unsupported("Map." + k)

    def mapget(self, m, key):
        for w, k, v in reversed(m.log):
            if self.same(k, key):
                return (v,) if w == "set" else None
        if not m.unknown:
            return None
        t = S("get", S("ref", id(m)), term(key))
        return (t,) if self.choose(S("has", S("ref", id(m)), term(key))) else None

    # ------------------------------------------------------------------------------------------------ the browser
    def hostmethod(self, o, k, a, node):
        g = o.a[0] if isinstance(o, S) and o.op == "g" else None
        if g == "console":
            return UNDEF
        if g == "Array":
            if k == "isArray":
                return self.iskind(a[0], frozenset(["array"]))
            if k == "from":
                x = Arr(self.iterate(a[0]), len(self.loops))
                return self.arrmethod(x, "map", a[1:], node) if len(a) > 1 else x
        if g == "Reflect" and k in ("get", "set", "has", "apply"):
            if k == "get":
                return self.getprop(a[0], a[1])
            if k == "set":
                self.setprop(a[0], a[1], a[2])
                return True
            if k == "apply":
                return self.call(a[0], list(self.iterate(a[2])), a[1], node)
        if k in ("apply", "call") and isinstance(o, S) and o.op == "get" and a and term(a[0]) is o.a[0]:
            return self.hostmethod(o.a[0], o.a[1] if isinstance(o.a[1], str) else o.a[1], list(self.iterate(a[1])) if k == "apply" and len(a) > 1 else a[1:] if k == "call" else [], node)
        if g == "Object" and k in ("entries", "keys", "values", "assign", "freeze", "fromEntries"):
            if k == "fromEntries":
                out = Obj(depth=len(self.loops))
                for x in self.iterate(a[0]):
                    x, w = (x.val, x.seq) if isinstance(x, Each) else (x, None)
                    kk, v = self.getprop(x, 0), self.getprop(x, 1)
                    out.entries.append((kk if w is None or isinstance(kk, Each) else Each(w, kk), v)) if isinstance(kk, (S, Each)) or w is not None else out.props.__setitem__(kk, v)
                return out
            x = a[0]
            if k == "freeze":
                return x
            if isinstance(x, Obj):
                if k == "assign":
                    for y in a[1:]:
                        for q, v in y.props.items():
                            self.setprop(x, q, v)
                    return x
                its = list(x.props.items()) + list(x.entries)

                def pick(q, v):
                    return Arr([q, v], 0) if k == "entries" else q if k == "keys" else v
                return Arr([Each(q.seq, pick(q.val, v)) if isinstance(q, Each) else pick(q, v) for q, v in its], len(self.loops))
            t = S("props", term(x))
            e = Arr([S("key", t), S("item", t)], len(self.loops) + 1)
            self.kinds[S("key", t)] = frozenset(["string"])
            return Arr([Each(t, e if k == "entries" else e.items[0] if k == "keys" else e.items[1])], len(self.loops))
        if g == "Promise":
            if k == "resolve":
                return PromiseV(a[0] if a else UNDEF)
            if k == "reject":
                return PromiseV(error=JSThrow(a[0]))
            if k == "all":
                out = []
                for x in self.iterate(a[0]):
                    out.append(Each(x.seq, self.await_(x.val)) if isinstance(x, Each) else self.await_(x))
                return PromiseV(Arr(out, len(self.loops)))
        if g == "Math" and all(isnum(x) for x in a) and k in ("floor", "ceil", "abs", "min", "max", "trunc"):
            return {"floor": math.floor, "ceil": math.ceil, "abs": abs, "min": min, "max": max, "trunc": math.trunc}[k](*a)
        if g == "BigInt" and k == "asUintN" and isnum(a[0]) and isinstance(a[1], Big):
            return Big(a[1].v % 2 ** int(a[0]))
        if g == "Number" and k == "isInteger":
            return self.choose(S("===", *sorted((S("bitor", term(a[0])), term(a[0])), key=repr)))
        if k in ("forEach", "map") and a and isinstance(a[0], Fn) and isinstance(o, S):
            return self.arrmethod(Arr([Each(o, S("item", o))], len(self.loops)), k, a, node)
        if k == "reduce" and a and isinstance(a[0], Fn) and isinstance(o, S):
            return self.reduce(o, S("item", o), a)
        if k in ("then", "catch") and isinstance(o, S):
            if k == "then":
                try:
                    return self.settle(a[0], self.await_(o))
                except JSThrow as e:
                    return PromiseV(error=e)
            return o
        if k in ("values",) and isinstance(o, S) and o.op == "m":
            return o
        if isinstance(o, S):
            self.needs_object(o, "call " + str(k))
        name = k if isinstance(k, str) else show(k)
        res = self.values.get((o, name, "()"))
        if (o, name, "()") not in self.values:
            pure = isinstance(o, S) and (name.startswith("get") and name[3:4].isupper() and o.op != "new" or name in HOSTSTR or name in ("has", "encode", "subarray", "split", "startsWith", "endsWith", "includes", "substr"))
            res = S("m", term(o), name, *[term(x) for x in a])
            if not pure:
                self.n += 0
            if name in ("substring", "slice", "substr") and len(a) == 1 and isnum(a[0]) and a[0] >= 0:
                res = S("m", term(o), "slice", term(a[0]))
            if name in HOSTSTR:
                self.kinds.setdefault(res, frozenset(["string"]))
            if g == "Math" or g == "Date" and name == "now" or name in ("getTime", "valueOf", "getTimezoneOffset", "charCodeAt", "indexOf"):
                self.kinds.setdefault(res, frozenset(["number"]))
            if name == "subarray":
                self.kinds.setdefault(res, frozenset(["bytes"]))
            if isinstance(o, S) and o.op == "new" and o.a[0] == "TextEncoder" and name == "encode":
                res = S("utf8", term(a[0]))
                self.kinds.setdefault(res, frozenset(["bytes"]))
            if isinstance(o, S) and o.op == "new" and o.a[0] == "TextDecoder" and name == "decode" and all(x in (S("s", "utf-8"), S("s", "utf8")) for x in o.a[2:3]):
                res = S("text", term(a[0]))
                self.kinds.setdefault(res, frozenset(["string"]))
            elif any("ref" in {y.op for y in term(x).subs()} for x in a):
                self.n += 1
                res = S("res", name, self.n)
            if isinstance(o, S) and o.op == "new" and o.a[0] == "DataView" and name.startswith("get"):
                le = a[1] if len(a) > 1 else False
                res = S("rd", name[3:] + ("LE" if le is True else ""), term(viewed(o, a[0])))
                self.kinds.setdefault(res, frozenset(["bigint" if name.startswith("getBig") else "number"]))
                v = self.values.get(res)
                if v is not None:
                    res = v
        if name in ("createElement", "createElementNS", "createTextNode", "createComment"):
            self.n += 1
            res = S("node", name, self.n, *[term(x) for x in a])
            self.kinds.setdefault(res, frozenset(["object"]))
        if name in self.answers:
            res = self.answers[name]
        self.fault("call:" + name)
        self.emit("call", name, o, a, res, node)
        if isinstance(o, S) and o.op == "get" and o.a[1] == "exports":
            self.grow()
        return res

    def grow(self):
        """the module ran: its memory may have been replaced"""
        self.epoch += 1
        self.note(lambda: setattr(self, "epoch", self.epoch - 1))

    def hostcall(self, f, a, node):
        g = f.a[0] if f.op == "g" else None
        if g == "Number":
            x = a[0]
            return x.v if isinstance(x, Big) else x if isnum(x) else self.num(x)
        if g == "BigInt":
            x = a[0]
            return x if isinstance(x, Big) or isinstance(x, S) and self.kindset(x) == frozenset(["bigint"]) else Big(int(x)) if isnum(x) else S("big()", term(x))
        if g == "String":
            return self.cat([a[0]])
        if g == "Boolean":
            return self.truthy(a[0])
        if g in ("Error", "TypeError"):
            return S("Error", *[term(x) for x in a[:1]])
        if g == "isNaN":
            return self.choose(S("isNaN", term(a[0])))
        if f.op == "get":
            return self.hostmethod(f.a[0], f.a[1], a, node)
        name = hostname(f)
        self.fault("call:" + name)
        self.n += 1
        r = self.values.get((f, "()"))
        if r is None and g in ("decodeURIComponent", "encodeURIComponent") and a:
            if isinstance(a[0], str):
                r = urllib.parse.unquote(a[0]) if g[0] == "d" else urllib.parse.quote(a[0], safe="-_.!~*'()")
            else:
                r = S("uri" + g[0], term(a[0]))
                self.kinds.setdefault(r, frozenset(["string"]))
        if r is None:
            r = self.answers[name] if name in self.answers else S("res", name, self.n)
        self.emit("call", name, None, a, r, node)
        return r

    def num(self, x):
        r = S("num()", term(x))
        self.kinds[r] = frozenset(["number"])
        return r


class _Short(Exception):
    pass


def plain(t):
    """the number a numeral term stands for"""
    return (float(t.a[0]) if "." in t.a[0] else int(t.a[0])) if isinstance(t, S) and t.op == "num" else t


def viewed(o, at):
    """address in the memory of a place in a DataView"""
    return add(plain(o.a[3]) if len(o.a) > 3 else 0, at)


def seqlen(seq):
    """how many turns a loop over this makes"""
    return plain(seq.a[0]) if seq.op == "range" and len(seq.a) == 1 else S("len", seq)


def hostname(v):
    if isinstance(v, S):
        if v.op == "g":
            return v.a[0]
        if v.op == "m":
            return str(v.a[1])
        if v.op == "res":
            return v.a[0]
        if v.op == "get":
            return str(v.a[1])
    return "?"


def names(p):
    if p is None:
        return []
    t = p["type"]
    if t == "Identifier":
        return [p["name"]]
    if t == "ArrayPattern":
        return [n for e in p["elements"] for n in names(e)]
    if t == "ObjectPattern":
        return [n for e in p["properties"] for n in names(e["value"] if e["type"] == "Property" else e["argument"])]
    if t == "AssignmentPattern":
        return names(p["left"])
    if t == "RestElement":
        return names(p["argument"])
    return []


def walk(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if isinstance(x.get("type"), str):
                yield x
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)


def strmethod(s, k, a):
    if all(isinstance(x, str) or isnum(x) for x in a):
        if k in ("toLowerCase", "toLocaleLowerCase"):
            return s.lower()
        if k in ("toUpperCase", "toLocaleUpperCase"):
            return s.upper()
        if k == "trim":
            return s.strip()
        if k == "toString":
            return s
        if k == "startsWith":
            return s.startswith(a[0])
        if k == "endsWith":
            return s.endswith(a[0])
        if k == "includes":
            return a[0] in s
        if k == "split" and len(a) == 1:
            return s.split(a[0]) if a[0] else list(s)
        if k == "indexOf":
            return s.find(a[0])
        if k in ("substr", "slice", "substring") and all(isnum(x) for x in a):
            i = int(a[0])
            j = None if len(a) < 2 else int(a[1]) + (i if k == "substr" else 0)
            return s[i:j]
        if k == "replace":
            return s.replace(a[0], a[1], 1)
        if k == "concat":
            return s + "".join(a)
    return None


class Path:
    def __init__(self, js, end, ret):
        self.js, self.end, self.ret, self.events, self.facts, self.made, self.branches = js, end, ret, js.events, js.facts, js.made, js.branches

    def calls(self, name, recv=None):
        return [e for e in self.events if e.kind == "call" and re.search("^(" + name + ")$", str(e.name)) and (recv is None or e.recv is recv)]

    def desc(self, n=10):
        return " ; ".join([f"[{show(t)} = {v}]" for t, v in self.branches[getattr(self.js, "bm", 0):][-6:]] + [repr(e)[:140] for e in self.events[-n:]] + [self.end])


def explore(program, run, pre=(), limit=3000, **kw):
    """every path of run(js); decisions in pre are kept"""
    todo, out, base = [list(pre)], [], len(pre)
    while todo:
        p = todo.pop()
        js = Js(program, p, **kw)
        try:
            r = run(js)
            end = "ret"
        except JSThrow as e:
            r, end = e.v, "throw"
        finally:
            js.kill()
        out.append(Path(js, end, r))
        for i in range(max(len(p), base), len(js.made)):
            todo.append(js.made[:i] + [not js.made[i]])
        if len(out) > limit:
            raise TooMany("paths")
    return out


def load(repo, bundle, entry, cache={}):
    key = (repo, bundle, entry)
    if key not in cache:
        here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "js", "parse.cjs")
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "ast.json")
            r = subprocess.run(["node", here, os.path.join(repo, bundle), os.path.join(repo, entry), out], capture_output=True, text=True, timeout=120)
            if r.returncode:
                raise RuntimeError("cannot parse the page script: " + r.stderr[-600:])
            with open(out) as fh:
                cache[key] = json.load(fh)
    return cache[key]
