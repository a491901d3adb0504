"""Views of reactive sources: mapping, conversions, what is shown of them."""
import re
from ..core import check
from ..q import *
from ..term import T, show
from .reactive import opq, anyb
from .dom import closure_runs
from .bridge import bare, param_names

CB = "vertigo::computed::computed_box::"
GET = r"Computed::get$|value::Value::get$|LazyCache::get$"
LOW = GET + r"|Computed::from$|value::Value::(set|change|new)$|dom_value::render_value_option$|dom_list::render_list$|DomText::new$|LazyCache::new$|DomElement::new$|get_driver$"
SEE = [GET, r"Computed::from$", r"value::Value::(set|change|new)$", r"dom_value::render_value_option$", r"dom_list::render_list$", r"DomText::new$", "dyn", r"LazyCache::new$", r"DomElement::new$", r"Vec::(push|insert|clear|truncate|retain|remove|swap|reverse|sort)$", r"VecDeque::push_(back|front)$"]


def whole(t):
    """a value that was taken apart and put together again is that value"""
    if t.op == "agg" and len(t.a) > 3:
        src = None
        for n, v in afields(t).items():
            v = whole(v)
            if v.op == "f" and v.a[1] == n or v.op == "vf" and v.a[1] == t.a[1] and v.a[2] == n:
                s = v.a[0]
            else:
                return t
            if src is not None and s is not src:
                return t
            src = s
        return src if src is not None else t
    return t


def text_of(t):
    """what a text is the text of"""
    while True:
        if t.op == "str" or t.op == "call" and re.search(r"(From|Into)>::(from|into)$", t.a[0]) and len(t.a) == 3:
            t = t.a[0] if t.op == "str" else t.a[2]
        elif t.op == "fmt" and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "disp" and t.a[0].a[0] == "display":
            t = t.a[0].a[1]
        else:
            return t


def in_order(t, among):
    if any(t is x for x in among):
        return [t]
    return [y for x in t.a if isinstance(x, T) for y in in_order(x, among)]


def passed(t):
    """through a conversion between the library's own types"""
    t = whole(t)
    while t.op == "call" and re.search(r"(From|Into)>::(from|into)$", t.a[0]) and len(t.a) == 3:
        t = whole(t.a[2])
    return t


def paths(cx, i, **k):
    return cx.run(i, SEE, opaque=opq(LOW), branches=anyb, **k)


def clo_paths(cx, c):
    # what a closure made for itself (not from what it was given) can have changed between its calls
    own = lambda x: (x.op in ("default", "empty") or agg_of(x, "Option")) and not any(y.op in ("param", "call", "item") for y in x.subs())
    c = T("clo", c.a[0], c.a[1], *[T("param", "kept" + str(k)) if own(x) else x for k, x in enumerate(c.a[2:])])
    return closure_runs(cx, c, SEE, opaque=opq(LOW), branches=anyb)


def is_new(t, x):
    t = whole(t)
    return t.op == "call" and t.a[0].endswith("Value::new") and t.a[2] is x


def follows(cx, t, src, then=None, depth=0):
    """the view t is a computed whose content is that of src (a test on terms), passed through `then` (a test on path, content, result)"""
    t = whole(t)
    if src(t) and then is None:
        return True
    if t.op != "call" or not t.a[0].endswith("Computed::from") or depth > 4:
        return False
    c = t.a[2]
    if c.op != "clo":
        return False
    ps = clo_paths(cx, c)
    for p in ps:
        if p.end != "ret":
            return False
        g = calls(p, GET)
        if len(g) != 1 or g[0].args[1].op != "param":
            return False
        inner = g[0].args[0]
        if src(whole(inner)):
            ok = p.ret is g[0].res if then is None else then(p, g[0].res)
        elif then is not None and p.ret is not g[0].res:
            ok = follows(cx, inner, src, None, depth + 1) and then(p, g[0].res)
        else:
            ok = p.ret is g[0].res and follows(cx, inner, src, then, depth + 1)
        if not ok:
            return False
    return bool(ps)


def of(cx, pat, nclo=True):
    seen, out = set(), []
    cr = cx.crate()
    for i in cr.insts.values():
        if re.search(pat, i["p"]) and "{closure" not in i["p"]:
            tys = [cr.ty(l[0]) for l in i["locals"][1:i["argc"] + 1]]
            ty = tys[0] if tys else ""
            # the general instance: not one for a given closure (its bodies are part of the general analysis)
            if i.get("id") not in seen and not any("closure" in t for t in tys):
                seen.add(i["id"])
                out.append((i, ty, [T("param", n) for n in param_names(i)]))
    return out


def tag(i, ty):
    return i["p"] + " (" + re.sub(r"[\w:]*::", "", ty) + ")"


def resource_shape(cx, f, p, s, ret, ready):
    """a resource keeps its state; `ready` decides what a ready one holds"""
    v = next((w for x, w, h in variants_on(p, "Resource") if x is s and h == "="), None)
    if v is None:
        return None, ret is s
    if v == "Loading":
        return v, agg_of(ret, "Resource", "Loading") or ret is s
    if v == "Error":
        return v, agg_of(ret, "Resource", "Error") and ret.a[3] is T("vf", s, "Error", "0") or ret is s
    return v, agg_of(ret, "Resource", "Ready") and ready(ret.a[3], T("vf", s, "Ready", "0"))


@check("R14")
def r14(cx):
    cr = cx.crate()
    # a mapped view: the function, once, on the current content
    n = 0
    for i, ty, ps in of(cx, r"(computed_box::Computed|value::Value)::map$"):
        f = tag(i, "")
        for p in paths(cx, i):
            n += 1

            def then(q, got):
                d = calls(q, "dyn")
                return len(d) == 1 and d[0].args[0].op != "c" and d[0].args[1] is got and q.ret is d[0].res
            cx.ob("mapped-view-is-the-function-of-the-content", f, p.end == "ret" and follows(cx, p.ret, lambda t: t is ps[0], then), desc(p) + show(p.ret))
    cx.floor("mapping functions", n, 2)
    # conversions to a computed
    kinds = set()
    for i, ty, ps in of(cx, r"ToComputed>::to_computed$|value::Value::to_computed$|LazyCache::to_computed$|Computed as std::convert::From>::from$"):
        f = tag(i, ty)
        S = ps[0]
        if "resource::Resource" in i["p"]:
            kinds.add("resource")
            for p in paths(cx, i):
                c = whole(p.ret)
                ok = p.end == "ret" and c.op == "call" and c.a[0].endswith("Computed::from") and c.a[2].op == "clo"
                v, k = (None, False)
                if ok:
                    for q in clo_paths(cx, c.a[2]):
                        st = q.ret
                        va, vb = variants_on(p, "Resource"), variants_on(q, "Resource")
                        v = next((w for x, w, h in va + vb if h == "=" and x is S), None) or next((w for x, w, h in vb if h == "="), None)
                        pay = lambda t: t.op == "vf" and t.a[0] is S or t.op == "vf" and t.a[0].op in ("f", "param")
                        ok = ok and q.end == "ret" and not calls(q, GET) and agg_of(st, "Resource", v or "?") and (len(st.a) <= 3 or pay(st.a[3]) or pay(whole(st.a[3])))
                cx.ob("view-of-a-resource-is-that-resource", f, ok, show(p.ret))
            continue
        lazy = "LazyCache" in i["p"]
        router = "Router" in i["p"]
        res = False
        conv = "convert::From" in i["p"]
        const = conv and not re.search(r"\bValue<", ty)
        for p in paths(cx, i):
            c = whole(p.ret)
            if p.end != "ret":
                cx.ob("conversion-never-fails", f, False, desc(p))
                continue
            if const:
                kinds.add("constant")
                ok = follows(cx, p.ret, lambda t: is_new(t, S))
            elif router:
                kinds.add("router")
                ok = follows(cx, p.ret, lambda t: t is T("f", S, "route"))
            elif c.op == "call" and any("Resource" in show(x) or x.op == "clo" for x in c.a[2].subs() if x is not c.a[2]) and not lazy and "Computed" in i["p"]:
                # a computed resource: ready content is shared, the state stays
                kinds.add("computed-resource")

                def then(q, got):
                    v, k = resource_shape(cx, f, q, got, q.ret, lambda a, b: a is b)
                    return v is not None and k
                ok = follows(cx, p.ret, lambda t: t is S, then)
            else:
                kinds.add("lazy" if lazy else "plain")
                ok = follows(cx, p.ret, lambda t: t is S)
            cx.ob("view-has-the-content-of-its-source", f, ok, show(p.ret))
    cx.ob("conversions-analysed", "ToComputed", {"constant", "router", "computed-resource", "lazy", "plain", "resource"} <= kinds, str(kinds))
    # resources keep their state when mapped, copied, or passed through `?`
    R = "vertigo::fetch::resource::Resource::"
    for nm in ("map", "ref_map", "ref_clone"):
        seen = set()
        for i, ty, ps in of(cx, re.escape(R) + nm + "$"):
            for p in paths(cx, i):
                d = calls(p, "dyn")

                def ready(a, b):
                    if nm == "ref_clone":
                        return a is b and not d
                    if d:
                        return len(d) == 1 and d[0].args[1] is b and a is d[0].res
                    return a is b or any(x is b for x in a.subs())
                v, ok = resource_shape(cx, nm, p, ps[0], p.ret, ready)
                seen.add(v)
                cx.ob("resource-keeps-its-state", R + nm, p.end == "ret" and ok and (v == "Ready" or not d), show(p.ret))
        cx.ob("states-analysed", R + nm, {"Loading", "Ready", "Error"} <= seen, str(seen))
    seen = set()
    for i, ty, ps in of(cx, r"Resource as std::ops::Try>::branch$"):
        for p in paths(cx, i):
            v = next((w for x, w, h in variants_on(p, "Resource") if x is ps[0] and h == "="), None)
            seen.add(v)
            r = p.ret
            pay = T("vf", ps[0], v, "0")
            if v == "Ready":
                ok = agg_of(r, "ControlFlow", "Continue") and r.a[3] is pay
            else:
                ok = agg_of(r, "ControlFlow", "Break") and agg_of(r.a[3], "ResourceError", v) and (v == "Loading" or r.a[3].a[3] is pay)
            cx.ob("question-mark-goes-on-only-when-ready", i["p"], ok, show(r))
    cx.ob("states-analysed", "Resource::branch", seen == {"Loading", "Ready", "Error"}, str(seen))
    seen = set()
    for i, ty, ps in of(cx, r"Resource as std::ops::FromResidual>::from_residual$"):
        for p in paths(cx, i):
            v = next((w for x, w, h in variants_on(p, "ResourceError") if x is ps[0] and h == "="), None)
            seen.add(v)
            cx.ob("question-mark-hands-on-the-state", i["p"], agg_of(p.ret, "Resource", v or "?") and (v == "Loading" or p.ret.a[3] is T("vf", ps[0], "Error", "0")), show(p.ret))
    cx.ob("states-analysed", "Resource::from_residual", seen == {"Loading", "Error"}, str(seen))
    for i, ty, ps in of(cx, r"Resource as std::ops::Try>::from_output$"):
        for p in paths(cx, i):
            cx.ob("output-is-ready", i["p"], agg_of(p.ret, "Resource", "Ready") and p.ret.a[3] is ps[0], show(p.ret))
    # the generic interface of a value is the value's
    n = 0
    for i, ty, ps in of(cx, r"value::Value as vertigo::computed::reactive::Reactive>::(get|set|change)$"):
        m = i["p"].rsplit("::", 1)[-1]
        for p in paths(cx, i):
            n += 1
            c = calls(p, r"value::Value::(set|get|change)$")
            cx.ob("generic-access-is-the-value's", i["p"], p.end == "ret" and len(c) == 1 and c[0].name.endswith("::" + m) and list(c[0].args) == ps and (m != "get" or p.ret is c[0].res), desc(p))
    cx.floor("generic accesses", n, 3)
    # a resource fetched from an address: the address is the two parts, only status 200 is an answer
    for i, ty, ps in of(cx, r"LazyCache::new_resource$"):
        f = i["p"]
        n = 0
        for p in cx.run(i, [r"RequestBuilder::(get|ttl_seconds|post)$", r"LazyCache::new$"], opaque=opq(r"RequestBuilder::(get|post|ttl_seconds)$|LazyCache::new$"), branches=anyb):
            g, t, l = calls(p, "RequestBuilder::get$"), calls(p, "ttl_seconds$"), calls(p, "LazyCache::new$")
            ok = p.end == "ret" and len(g) == len(t) == len(l) == 1 and t[0].args[0] is g[0].res and l[0].args[0] is t[0].res and p.ret is l[0].res and bare(t[0].args[1]) is ps[2]
            cx.ob("resource-asks-once-configured", f, ok, desc(p))
            if not ok:
                continue
            u = g[0].args[0]
            parts = in_order(u, ps[:2])
            cx.ob("resource-asks-for-its-address", f, parts == ps[:2] and not any(x.op == "c" and isinstance(x.a[0], str) and x.a[0] for x in u.subs()), show(u))
            cl = l[0].args[1]
            if cl.op not in ("clo", "fn"):
                cx.ob("only-status-200-is-an-answer", f, False, show(cl))
                continue
            got = set()
            for q in closure_runs(cx, cl, [r"into$", "dyn"], branches=anyb):
                k = [b for b in brs(q) if b.args[0].op == "bin" and b.args[0].a[0] in ("Eq", "Ne") or b.args[0].op == "param"]
                good = None
                for b in k:
                    t0, w = b.args
                    if t0.op == "bin":
                        eq = any(y.op == "c" and str(y.a[0]) == "200" for y in t0.a[1:])
                        truth = (w != 0) ^ (b.name == "!")
                        good = (truth == (t0.a[0] == "Eq")) if eq else good
                    else:
                        good = str(w) == "200" and b.name == "="
                some = agg_of(q.ret, "Option", "Some")
                got.add(good)
                cx.ob("only-status-200-is-an-answer", f, good is not None and (bool(some) == good), show(q.ret) + desc(q))
                n += 1
            cx.ob("answers-analysed", f, {True, False} <= got, str(got))
        cx.floor("resource answers", n, 2)


def text_node_of(cx, clo):
    """the closure makes a text node of its argument's text"""
    ps = clo_paths(cx, clo)
    for q in ps:
        d = calls(q, "DomText::new$")
        r = q.ret
        if agg_of(r, "Option", "Some"):
            r = r.a[3]
        if q.end != "ret" or len(d) != 1 or (passed(r) is not d[0].res and (not agg_of(r, "DomNode", "Text") or whole(r.a[3]) is not d[0].res)):
            return False
        if text_of(d[0].args[0]).op not in ("param", "item"):
            return False
    return bool(ps)


@check("D14")
def d14(cx):
    cr = cx.crate()
    # embedding
    kinds = set()
    for i, ty, ps in of(cx, r"dom_macro::dom::EmbedDom>::embed$"):
        f, S = tag(i, ty), ps[0]
        own = re.search(r"^<(\S*?) as ", i["p"]).group(1)
        general = own == "T"
        for p in paths(cx, i):
            if p.end != "ret":
                cx.ob("embedding-never-fails", f, False, desc(p))
                continue
            last = own.rsplit("::", 1)[-1]
            r = p.ret
            if last == "DomNode":
                kinds.add(last)
                ok = r is S
            elif last in ("DomElement", "DomText", "DomComment"):
                kinds.add(last)
                ok = agg_of(r, "DomNode", {"DomElement": "Node", "DomText": "Text", "DomComment": "Comment"}[last]) and whole(r.a[3]) is S
            elif general:
                kinds.add("text")
                d = calls(p, "DomText::new$")
                ok = len(d) == 1 and agg_of(r, "DomNode", "Text") and whole(r.a[3]) is d[0].res and text_of(d[0].args[0]) is S
            else:
                kinds.add(last)
                v = calls(p, "render_value_option$")
                src = (lambda t: t is T("f", S, "route")) if last == "Router" else (lambda t: t is S)
                ok = len(v) == 1 and r is v[0].res and follows(cx, v[0].args[0], src) and v[0].args[1].op == "clo" and text_node_of(cx, v[0].args[1])
            cx.ob("embedded-as-what-it-is", f, ok, show(r))
    cx.ob("embeddings-analysed", "EmbedDom", {"DomNode", "DomElement", "DomText", "DomComment", "text", "Computed", "Value", "Router"} <= kinds, str(kinds))
    # rendering
    n = 0
    for i, ty, ps in of(cx, r"(computed_box::Computed|value::Value)::render_(value|value_option|list)$"):
        f, S = i["p"], ps[0]
        m = f.rsplit("::", 1)[-1]
        for p in paths(cx, i):
            v = calls(p, "dom_value::render_value_option$|dom_list::render_list$")
            ok = p.end == "ret" and len(v) == 1 and p.ret is v[0].res and v[0].name.endswith("render_list" if m == "render_list" else "render_value_option")
            if not ok:
                cx.ob("rendered-once", f, False, desc(p))
                continue
            n += 1
            a = v[0].args
            if m == "render_list":
                def then(q, got):
                    x = q.ret
                    while x.op == "call" and re.search(r"::(into_iter|collect|from_iter|from|into|to_vec|iter|cloned)$", x.a[0]):
                        x = x.a[2]
                    if x is not got and x.op == "call" and re.search(r"::(new|with_capacity|default)$", x.a[0]) or x.op in ("default", "empty") and x is not got:
                        its = iters(q)
                        got_in = [(h, y) for h, y in seq(q, x)]
                        return finished(q, lambda z: z is got) and all(h == "elem" and y is T("item", got) for h, y in got_in) and len(got_in) == (1 if any(b.args[1] == "Some" and b.name == "=" for b in brs(q)) else 0)
                    return x is got or x.op in ("mapped",) and x.a[1] is T("item", x.a[0]) and (x.a[0] is got or got in list(x.a[0].subs()))
                cx.ob("list-of-the-source's-items", f, follows(cx, a[0], lambda t: t is S, then), show(a[0]))
                cx.ob("list-by-the-given-key-and-view", f, list(a[1:]) == ps[1:] or all(x.op == "clo" or x is y for x, y in zip(a[1:], ps[1:])), desc(p))
                continue
            cx.ob("view-of-the-source", f, follows(cx, a[0], lambda t: t is S), show(a[0]))
            if m == "render_value_option":
                cx.ob("content-is-the-given-view", f, a[1] is ps[1] or a[1].op == "clo", show(a[1]))
            elif a[1].op == "clo":
                for q in clo_paths(cx, a[1]):
                    d = calls(q, "dyn")
                    some = agg_of(q.ret, "Option", "Some")
                    if d:
                        cx.ob("content-is-the-given-view", f, q.end == "ret" and len(d) == 1 and d[0].args[1].op == "param" and some and q.ret.a[3] is d[0].res, desc(q))
                    else:
                        cx.ob("content-is-the-given-view", f, bool(some), desc(q))
    cx.floor("rendering functions", n, 6)
    seen = set()
    for i, ty, ps in of(cx, r"LazyCache::render$"):
        f = i["p"]
        for p in cx.run(i, SEE, opaque=opq(LOW + "|DomNode as|DomElement::"), branches=anyb):
            v = calls(p, "render_value_option$")
            ok = p.end == "ret" and len(v) == 1 and p.ret is v[0].res and follows(cx, v[0].args[0], lambda t: t is ps[0]) and v[0].args[1].op == "clo"
            cx.ob("resource-shown-from-its-cache", f, ok, desc(p))
            if not ok:
                continue
            for q in closure_runs(cx, v[0].args[1], SEE, opaque=opq(LOW + "|DomElement::"), branches=anyb):
                st = next(((x, w) for x, w, h in variants_on(q, "Resource") if h == "="), (None, None))
                d = calls(q, "dyn")
                seen.add(st[1])
                if st[1] == "Ready":
                    cx.ob("ready-content-is-the-given-view", f, q.end == "ret" and len(d) == 1 and d[0].args[1] is T("vf", st[0], "Ready", "0") and agg_of(q.ret, "Option", "Some") and q.ret.a[3] is d[0].res, desc(q))
                else:
                    cx.ob("no-view-without-content", f, q.end == "ret" and not d and agg_of(q.ret, "Option", "Some"), desc(q))
                    if st[1] == "Error":
                        e = T("vf", st[0], "Error", "0")
                        cx.ob("error-is-shown", f, any(e in list(x.subs()) for y in q.trace for x in y.args if isinstance(x, T)), desc(q))
    cx.ob("states-analysed", "LazyCache::render", {"Loading", "Ready", "Error"} <= seen, str(seen))
    # attributes
    n = 0
    for i, ty, ps in of(cx, r"attr_value::(AttrValue|CssAttrValue) as std::convert::From>::from$"):
        css = "CssAttr" in i["p"]
        f, S = tag(i, ty), ps[0]
        opt = "Option<" in ty
        if css:
            want = "Computed" if "Computed<" in ty else "Css"
        else:
            want = ("Computed" if "Computed<" in ty else "Value" if "Value<" in ty else "String") + ("Opt" if opt and ("Computed<" in ty or "Value<" in ty) else "")
        for p in paths(cx, i):
            n += 1
            r = p.ret
            ok = p.end == "ret" and r.op == "agg"
            if ok and want == "String":
                ok = r.a[1] == "String" and (r.a[3] is T("str", S) or bare(r.a[3]) is S)
            elif ok and r.a[1] == want:
                ok = whole(r.a[3]) is S
            elif ok and r.a[1] == want.replace("Value", "Computed"):
                ok = follows(cx, r.a[3], lambda t: t is S)
            else:
                ok = False
            cx.ob("attribute-follows-what-it-was-given", f, ok, show(r))
    cx.floor("attribute conversions", n, 10)
    # callbacks
    n = 0
    for i, ty, ps in of(cx, r"callback::Callback1? as std::convert::From>::from$"):
        f, S = tag(i, ty), ps[0]
        for p in paths(cx, i):
            n += 1
            r = p.ret
            ok = p.end == "ret" and r.op == "agg" and whole(r.a[3]) is S and ((r.a[1] == "Computed") == ("Computed<" in ty)) or p.end == "ret" and r is not S and passed(r) is S
            cx.ob("callback-is-the-one-given", f, ok, show(r))
    cx.floor("callback conversions", n, 6)
    # nodes and references
    for pat, var in ((r"dom_node::DomNode as std::convert::From>::from$", None), (r"dom_node::DomNode::new_node$", "Node"), (r"dom_node::DomNode::new_text$", "Text")):
        for i, ty, ps in of(cx, pat):
            f, S = tag(i, ty), ps[0]
            want = var or ("Node" if "DomElement" in ty else "Comment" if "DomComment" in ty else "Text")
            for p in paths(cx, i):
                r = p.ret
                d = calls(p, "DomText::new$")
                ok = p.end == "ret" and (passed(r) is S and r is not S or len(d) == 1 and passed(r) is d[0].res and text_of(d[0].args[0]) is S) or p.end == "ret" and agg_of(r, "DomNode", want) and (whole(r.a[3]) is S or len(d) == 1 and want == "Text" and whole(r.a[3]) is d[0].res and bare(d[0].args[0]) is S)
                cx.ob("node-is-the-one-given", f, ok, show(r))
    for i, ty, ps in of(cx, r"dom_element::DomElement::get_ref$"):
        for p in cx.run(i, [], branches=anyb):
            r = p.ret
            ids = [v for k, v in afields(r).items() if whole(v) is T("f", ps[0], "id_dom")] if r.op == "agg" else []
            cx.ob("reference-is-to-this-element", i["p"], p.end == "ret" and len(ids) == 1, show(r))
    for i, ty, ps in of(cx, r"DomElementRef::dom_access$"):
        for p in cx.run(i, [r"DomAccess::element$"], opaque=opq("DomAccess::element$"), branches=anyb):
            c = calls(p, "DomAccess::element$")
            cx.ob("reference-reaches-its-element", i["p"], p.end == "ret" and len(c) == 1 and whole(c[0].args[1]) is T("f", ps[0], "id") and p.ret is c[0].res, desc(p))
    for i, ty, ps in of(cx, r"dom_element::DomElement::suspense$"):
        for p in cx.run(i, [r"set_suspense_attr$"], opaque=opq("set_suspense_attr$"), branches=anyb):
            c = calls(p, "set_suspense_attr$")
            cx.ob("suspense-layer-is-set", i["p"], p.end == "ret" and len(c) == 1 and c[0].args[1] is ps[1] and whole(p.ret) is ps[0] and c[0].args[0] is T("f", ps[0], "class_manager"), desc(p))
    for i, ty, ps in of(cx, r"types::Drop(FileItem|FileEvent)::new$"):
        for p in cx.run(i, [], branches=anyb):
            r = p.ret
            cx.ob("dropped-files-are-the-ones-read", i["p"], r.op == "agg" and list(r.a[3:]) == ps, show(r))
