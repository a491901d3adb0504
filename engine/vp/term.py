"""Hash-consed value terms: where a value comes from."""


class T:
    __slots__ = ("op", "a", "h", "_vol", "_sub", "_fai")
    _tab = {}

    def __new__(cls, op, *a):
        key = (op,) + tuple((id(x) if x.__class__ is T else (x.__class__.__name__, x)) for x in a)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.h = hash(key)
            t._vol = None
            t._sub = None
            t._fai = None
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return str(self) < str(o)

    def subs(self):
        """all sub-terms (including self), memoised"""
        if self._sub is None:
            s = {self}
            for x in self.a:
                if x.__class__ is T:
                    s |= x.subs()
            self._sub = frozenset(s)
        return self._sub

    def vol(self):
        if self._vol is None:
            self._vol = frozenset(x for x in self.subs() if x.op in VOLATILE)
        return self._vol

    def has(self, t):
        """t is in here with nothing lost on the way: not below a call that may drop a part of what it is given"""
        return t in self.faithful()

    def faithful(self):
        if self._fai is None:
            s = {self}
            if not lossy(self):
                for x in self.a:
                    if x.__class__ is T:
                        s |= x.faithful()
            self._fai = frozenset(s)
        return self._fai

    def __repr__(self):
        return show(self)


_re = __import__("re")
LOSSY = _re.compile(r"""^((std|core|alloc)::)?(
    (str|char|string::String)::(.*::)?(to_\w*case|make_\w*case|trim|replace|strip_|split|truncate|rfind|matches|lines$|get$|repeat)
  | iter::.*::(skip|take|filter|step_by|nth|last|min|max|scan|zip)\w*
  | (vec|slice|collections::(vec_deque|VecDeque))::(.*::)?(first|last|chunks|windows|split|get|truncate|dedup|drain|swap_remove|concat|join)\w*
  | collections::(.*::)?(first|last|range)\w*
  | (num|[iuf]\d+|[iu]size)::(.*::)?(wrapping|saturating|checked|overflowing|abs|pow|leading|trailing|rem_euclid|div_euclid|min|max|count|from_str_radix)\w*
  | cmp::(Ord|PartialOrd)::(min|max|clamp)
  )""", _re.X)


def lossy(t):
    return t.op == "rev" or t.op == "call" and isinstance(t.a[0], str) and LOSSY.search(t.a[0]) is not None


VOLATILE = ("call", "loop", "next", "mut", "await", "hofarg", "rec")


def c(v):
    return T("c", v)


TRUE, FALSE, UNIT = c(1), c(0), T("agg", "tuple", "", ())


def agg(adt, variant, names, vals):
    return T("agg", adt, variant, tuple(names), *vals)


def agg_fields(t):
    return dict(zip(t.a[2], t.a[3:]))


def short(p):
    return "::".join(p.split("::")[-2:]) if isinstance(p, str) else str(p)


def show(t, d=0):
    if t.__class__ is not T:
        return repr(t)
    if d > 7:
        return "…"
    a = t.a
    r = lambda x: show(x, d + 1)
    if t.op == "c":
        return repr(a[0])
    if t.op == "param":
        return f"{a[0]}"
    if t.op == "f":
        return f"{r(a[0])}.{a[1]}"
    if t.op == "vf":
        return f"{r(a[0])}.{a[1]}.{a[2]}"
    if t.op == "call":
        return f"{short(a[0])}({', '.join(r(x) for x in a[2:])})"
    if t.op == "agg":
        nm = a[1] or short(a[0])
        return f"{nm}{{{', '.join(f'{n}:{r(v)}' for n, v in zip(a[2], a[3:]))}}}"
    if t.op == "clo":
        return f"|{short(a[0])}|[{', '.join(r(x) for x in a[2:])}]"
    if t.op == "bin":
        return f"({r(a[1])} {a[0]} {r(a[2])})"
    return f"{t.op}({', '.join(r(x) for x in a)})"


CELL = __import__("re").compile(r"(inner_value::InnerValue|cell::(Cell|RefCell|UnsafeCell|OnceCell)|sync::.*(Mutex|RwLock|Atomic\w+))$")


def havoc(t, memo=None):
    """the same term with the contents of interior-mutability cells unknown (they may have changed since they were built)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "agg" and isinstance(t.a[0], str) and CELL.search(t.a[0]):
        r = T("agg", t.a[0], t.a[1], t.a[2], *[T("cell", n, x) for n, x in zip(t.a[2], t.a[3:])])
    elif any(x.__class__ is T for x in t.a):
        r = T(t.op, *[havoc(x, memo) if x.__class__ is T else x for x in t.a])
    else:
        r = t
    memo[t] = r
    return r
