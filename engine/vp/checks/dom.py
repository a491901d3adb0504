"""DOM construction: node lifecycle, command stream, attributes, events, dynamic values and lists, css, suspense."""
import re
from ..core import check, Anchor
from ..q import *
from ..term import T, show, havoc
from .reactive import opq, anyb, closure_tree, DESTR, nothing_leaked

DD = "vertigo::driver_module::dom::DriverDom::"
DOM = "vertigo::dom::"
OPS = r"DriverDom::(create_node|create_text|create_comment|remove_node|remove_text|remove_comment|insert_before|update_text|set_attr|remove_attr|insert_css|callback_add|callback_remove|node_parent)$"
SHUF = r"^(std::.*(Vec|VecDeque)|\[T\]|slice|std::slice.*)::(sort\w*|reverse|swap\w*|rotate\w*|fill\w*|insert|push_front)$"
DOM_MODULES = ("vertigo::dom::", "vertigo::render::")
COUNTER = "get_unique_id::COUNTER"


def fresh(t):
    return agg_of(t, "DomId") and t.a[3].op == "call" and t.a[3].a[0].endswith("fetch_add") and ev(t.a[3].a[3], {}) == 1


def static_init(cr, path):
    """integer a static atomic counter starts from"""
    s = cr.consts.get(path)
    if not s:
        return None
    for b in s.get("blocks", []):
        t = b["t"]
        if t["k"] == "call" and t["a"] and t["a"][0][0] == "k":
            return t["a"][0][1].get("v")
    return None


def id_of_node(t, node):
    """t is the id of the node term"""
    return ends_field(t, "id_dom") and t.has(node)


def sub_pushed(p, handle):
    """the handle is pushed to a subscriptions list on this path"""
    return any(e.args[1].has(handle) for e in calls(p, r"::push$") if len(e.args) > 1)


def adt_builders(cr, tail):
    """bodies with an aggregate of the ADT"""
    out = []
    for i in cr.insts.values():
        for n, b in cr.live_blocks(i):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and str(s[2][1].get("p", s[2][1].get("adt", ""))).endswith(tail):
                    out.append(i["p"])
    return sorted(set(out))


KINDS = [("dom_element::DomElement", "node"), ("dom_text::DomText", "text"), ("dom_comment::DomComment", "comment")]


@check("D01")
def d01(cx):
    cr = cx.crate()
    n = 0
    fresh_terms = []
    for ty, kind in KINDS:
        tail = ty.rsplit("::", 1)[-1]
        bs = adt_builders(cr, "::" + tail)
        cx.need(bs, f"no constructor of {tail} found")
        for b in bs:
            for p in cx.run(b, [OPS], opaque=opq("DriverDom::|Computed::subscribe$"), branches=anyb):
                if p.end != "ret" or p.ret is None or not agg_of(p.ret, tail):
                    continue
                n += 1
                i = afields(p.ret).get("id_dom")
                cr_ = calls(p, "DriverDom::create_")
                ok = len(cr_) == 1 and cr_[0].name.endswith("create_" + kind) and cr_[0].args[1] is i
                cx.ob("created-once-under-its-own-id", b, ok, desc(p))
                named = agg_of(i, "DomId") and i.a[3].op == "c"
                if fresh(i):
                    fresh_terms.append(i)
                cx.ob("id-is-fresh", b, fresh(i) or kind == "node" and named, show(i))
                if named:
                    # only the document's own elements have fixed ids, each its own
                    nm = [show(e.args[0]) for e in brs(p) if e.args[1] == 1 and len(cr_) == 1 and e.args[0].has(cr_[0].args[-1])]
                    want = {1: "html", 2: "head", 3: "body"}.get(i.a[3].a[0])
                    cx.ob("fixed-ids-are-html-head-body", b, want is not None and any(want in x for x in nm), show(i) + str(nm))
                cx.ob("nothing-removed-at-construction", b, not calls(p, "DriverDom::remove_"), desc(p))
        d = cx.fn(f"<vertigo::dom::{ty} as std::ops::Drop>::drop")
        for p in cx.run(d, [OPS], opaque=opq("DriverDom::"), branches=anyb):
            r = calls(p, "DriverDom::remove_(node|text|comment)$")
            ok = len(r) == 1 and r[0].name.endswith("remove_" + kind) and ends_field(r[0].args[1], "id_dom") and root_is_param(r[0].args[1], "self")
            cx.ob("dropped-node-removed-once-by-its-id", d["p"], ok, desc(p))
        cl = [im["hdr"] for im in cr.impls if re.search(r"<[\w:]*\b%s as std::clone::Clone>" % tail, im["hdr"])]
        cx.ob("node-handle-is-not-clonable", "vertigo::dom::" + ty, not cl, str(cl))
    cx.floor("constructor paths", n, 6)
    # ids start after the fixed ones
    ctr = {x.a[0] for x in fresh_terms for x in x.subs() if x.op == "static"}
    cx.need(ctr, "counter behind the generated node ids")
    for c in sorted(ctr):
        only_counts_up(cx, c)
        cx.ob("generated-ids-start-after-the-fixed-ones", c, static_init(cr, c) is not None and static_init(cr, c) >= 4, str(static_init(cr, c)))
    # removals come only from the owners' drop
    rem = re.compile(r"DriverDom::remove_(node|text|comment)$")
    owners = 0
    for i in cr.insts.values():
        for bb, t in cr.calls(i):
            if rem.search(t["f"].get("p") or ""):
                owners += 1
                cx.ob("removal-only-from-the-owner", i["p"], " as std::ops::Drop>::drop" in i["p"] or i["p"].endswith("api_import::ApiImport") or "driver_module::dom::" in i["p"], i["p"])
    cx.floor("removal sites", owners, 3)
    # forgotten handles would never be removed
    nothing_leaked(cx, DOM_MODULES, 60)
    # a child is attached once, to this element, at the end, and then owned by it
    f = cx.fn(DOM + "dom_element::DomElement::add_child")
    k = 0
    for p in cx.run(f, [OPS, r"VecDeque::push_back$", "VecDeque::push_front$"], opaque=opq("DriverDom::"), branches=anyb):
        if p.end != "ret":
            continue
        k += 1
        ins = calls(p, "insert_before$")
        own = [e for e in calls(p, "push_(back|front)$") if has_field(e.args[0], "child_node")]
        ok = len(ins) == 1 and ends_field(ins[0].args[1], "id_dom") and root_is_param(ins[0].args[1], "self") and agg_of(ins[0].args[3], "Option", "None")
        ch = own[0].args[1] if own else None
        cx.ob("child-appended-to-its-parent", f["p"], ok and ch is not None and id_of_node(ins[0].args[2], ch), desc(p))
        cx.ob("parent-owns-the-child", f["p"], len(own) == 1 and own[0].args[1].has(T("param", "child_node")), desc(p))
    cx.floor("add_child paths", k, 3)
    for nm in ("child", "child_text", "children", "add_child_text"):
        f = cx.fn(DOM + "dom_element::DomElement::" + nm)
        for p in cx.run(f, ["DomElement::add_child$"], opaque=opq("DomElement::add_child$|DriverDom::"), branches=anyb):
            if p.end != "ret":
                continue
            a = calls(p, "DomElement::add_child$")
            if nm == "children":
                vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
                rv = [d for d in iters(p) if any(x.op == "rev" for x in d.subs())]
                cx.ob("children-added-in-order", f["p"], finished(p) and len(a) == len(vis) and not rv, desc(p))
            else:
                cx.ob("child-helper-adds-one-child", f["p"], len(a) == 1 and a[0].args[0] is T("param", "self"), desc(p))


CMDS = {"create_node": ("CreateNode", ["id", "name"]), "create_text": ("CreateText", ["id", "value"]), "update_text": ("UpdateText", ["id", "value"]),
        "set_attr": ("SetAttr", ["id", "name", "value"]), "remove_attr": ("RemoveAttr", ["id", "name"]), "remove_text": ("RemoveText", ["id"]),
        "remove_node": ("RemoveNode", ["id"]), "insert_before": ("InsertBefore", ["parent", "child", "ref_id"]), "insert_css": ("InsertCss", ["selector", "value"]),
        "create_comment": ("CreateComment", ["id", "value"]), "remove_comment": ("RemoveComment", ["id"]),
        "callback_add": ("CallbackAdd", ["id", "event_name", "callback_id"]), "callback_remove": ("CallbackRemove", ["id", "event_name", "callback_id"])}


def destroyed(p, which):
    """operations on a collection that can lose or reorder what is in it"""
    return [e for e in calls(p, DESTR + "|" + SHUF) if e.args and which(e.args[0])]


def lst_of(msg):
    lst = next((x for x in msg.subs() if agg_of(x, "JsJson", "List")), None)
    return lst.a[3] if lst is not None else None


@check("D02")
def d02(cx):
    n = 0
    for m, (variant, fl) in CMDS.items():
        f = cx.fn(DD + m)
        for p in cx.run(f, [r"vec::Vec::(push|insert)$", r"dom_suspense::.*DomSuspense::"], opaque=opq("DomSuspense::"), branches=anyb):
            if p.end != "ret":
                continue
            pu = [e for e in calls(p, "(push|insert)$") if has_field(e.args[0], "commands") and ends_field(e.args[0], "commands")]
            lg = [e for e in calls(p, "(push|insert)$") if ends_field(e.args[0], "log_vec")]
            n += 1
            ok = len(pu) == 1 and agg_of(pu[0].args[1], "DriverDomCommand", variant)
            if ok:
                af = afields(pu[0].args[1])
                ok = all(af[x].has(T("param", x)) for x in fl) and set(af) == set(fl)
            cx.ob("one-command-with-the-given-fields", f["p"], ok, desc(p))
            cx.ob("log-gets-a-copy-only", f["p"], bool(pu) and len(lg) <= 1 and all(e.args[1].has(pu[0].args[1]) or pu[0].args[1].has(e.args[1]) for e in lg), desc(p))
    cx.floor("command producers", n, 13)
    # flush: everything taken, everything sent, once
    C = "vertigo::driver_module::dom::Commands::"
    f = cx.fn(C + "flush_dom_changes_inner")
    sent = 0
    for p in cx.run(f, ["dom_bulk_update$", "sort_commands$", "into_string$", "::push$", "mem::(take|replace)$", "VecMut::take$", DESTR, SHUF],
                    opaque=opq("dom_bulk_update$|sort_commands$|into_string$"), branches=anyb, stores=lambda a, v: has_field(a, "commands")):
        if p.end != "ret":
            continue
        gone = [e for e in calls(p, "mem::(take|replace)$") if has_field(e.args[0], "commands")] + [e for e in p.trace if e.kind == "store"]
        s = calls(p, "sort_commands$")
        b = calls(p, "dom_bulk_update$")
        cs = calls(p, "DriverDomCommand::into_string$")
        vis = [T("item", d) for d, w in iters(p).items()] if iters(p) else []
        empty = any(e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty") and e.args[1] == 1 for e in brs(p))
        if empty:
            cx.ob("nothing-sent-when-empty", f["p"], not b, desc(p))
            continue
        sent += 1
        ok = len(b) == 1 and len(s) == 1
        cx.ob("one-bulk-message", f["p"], ok, desc(p))
        if not ok:
            continue
        src = s[0].args[0]
        cx.ob("pending-commands-taken", f["p"], not agg_of(src, "Vec") and any(has_field(x, "commands") for x in src.subs()) and src.op in ("old", "call", "take", "f", "vf"), show(src))
        cx.ob("sent-commands-leave-the-queue", f["p"], bool(gone), desc(p))
        cx.ob("no-command-skipped", f["p"], finished(p), desc(p))
        cx.ob("no-command-dropped-on-the-way", f["p"], not destroyed(p, lambda x: x is s[0].res or x is lst_of(b[0].args[1])), desc(p))
        msg = b[0].args[1]
        lst = next((x for x in msg.subs() if agg_of(x, "JsJson", "List")), None)
        got = contents(p, lst.a[3]) if lst is not None else []
        visited = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
        direct = lst is not None and any(x.has(s[0].res) for x in [lst.a[3]])
        ok = lst is not None and (direct or all(how == "elem" and t.has(s[0].res) for how, t in got) and len(got) == len(visited))
        cx.ob("every-command-in-the-message", f["p"], ok, desc(p))
    cx.floor("flushes", sent, 1)
    tk = cx.fn("vertigo::computed::struct_mut::vec_mut::VecMut::take")
    for p in cx.run(tk, ["mem::(take|replace)$"], stores=lambda a, v: True):
        cleared = bool(calls(p, "mem::(take|replace)$")) or any(e.kind == "store" for e in p.trace)
        cx.ob("take-empties-the-list", tk["p"], cleared and p.ret is not None and p.ret.has(T("param", "self")), desc(p))
    # order: removals after everything else, each group in its original order, nothing lost
    f = cx.fn("vertigo::driver_module::dom_command::sort_commands")
    ADT = "vertigo::driver_module::dom_command::DriverDomCommand"
    REM = {"RemoveNode", "RemoveText", "RemoveComment"}
    seen = {}
    for p in cx.run(f, ["::push$", "::push_front$", "::insert$", "::extend$", "::append$", DESTR, SHUF], branches=anyb):
        if p.end != "ret":
            continue
        def kind_goes(vs, where):
            for v, how in vs:
                if how == "=":
                    seen[v] = where
                else:
                    for o in cx.crate().variants(ADT):
                        if o not in v and str(cx.crate().adt_discr(ADT, o)) not in v:
                            seen[o] = where
        by = calls(p, r"::sort_by_(cached_)?key$")
        if by:
            # a stable sort by "is it a removal"
            c = (clos(by[0].args[1]) or [None])[0]
            ok = len(by) == 1 and p.ret is by[0].args[0] and p.ret is T("param", "list") and c is not None and destroyed(p, lambda x: True) == by
            for q in closure_runs(cx, c, ["nothing"], branches=anyb) if ok else []:
                ok = ok and q.end == "ret" and ev(q.ret, {}) in (0, 1)
                kind_goes([(v, how) for x, v, how in variants_on(q, "DriverDomCommand")], "late" if ev(q.ret, {}) else "early")
            cx.ob("removals-appended-last", f["p"], ok, desc(p))
            continue
        cx.ob("no-command-skipped", f["p"], finished(p), desc(p))
        cx.ob("no-command-dropped-on-the-way", f["p"], not destroyed(p, lambda x: True), desc(p))
        ext = calls(p, "::(extend|append)$")
        ok = len(ext) == 1 and p.ret is ext[0].args[0]
        cx.ob("removals-appended-last", f["p"], ok, desc(p))
        if not ok:
            continue
        later = ext[0].args[1]
        for e in calls(p, "::(push|push_front|insert)$"):
            it = e.args[1]
            vs = [(v, how) for x, v, how in variants_on(p, "DriverDomCommand") if x is it]
            cx.ob("order-within-group-kept", f["p"], e.name.endswith("::push") and it.op == "item" and it.a[0] is T("param", "list"), desc(p))
            where = "late" if e.args[0] is later else "early" if e.args[0] is ext[0].args[0] else "?"
            kind_goes(vs, where)
            if not vs:
                cx.ob("group-decided-by-command-kind", f["p"], False, desc(p))
    allv = cx.crate().variants("vertigo::driver_module::dom_command::DriverDomCommand")
    for v in allv:
        cx.ob("removals-last:" + v, f["p"], seen.get(v) == ("late" if v in REM else "early"), f"{v} -> {seen.get(v)}")
    cx.floor("command kinds", len(allv), 13)
    # logging switch does not touch the queue
    f = cx.fn(C + "log_take")
    for p in cx.run(f, ["mem::take$"]):
        pass


@check("D04")
def d04(cx):
    SI = "vertigo::driver_module::dom::StateInitiation"
    f = cx.fn(SI + "::down")
    n = 0
    for p in cx.run(f, ["nothing"], stores=lambda a, v: True, branches=anyb):
        if p.end != "ret":
            continue
        v = next((x[1] for x in variants_on(p, "StateInitiation") if x[0] is T("param", "self")), None)
        st = [e for e in p.trace if e.kind == "store"]
        ready = [e for e in st if agg_of(e.args[1], "StateInitiation", "Ready")]
        dec = [e for e in st if e not in ready]
        if v == "Waiting":
            n += 1
            cnt = T("vf", T("param", "self"), "Waiting", "counter")
            last_, more = consistent(p, {cnt: 1}), consistent(p, {cnt: 2}) or consistent(p, {cnt: 7})
            ok = len(dec) == 1 and ev(dec[0].args[1], {cnt: 7}) == 6
            cx.ob("stop-counts-one-request-down", f["p"], ok, desc(p))
            if last_ and not more:
                cx.ob("last-request-opens-the-gate", f["p"], len(ready) == 1 and ev(p.ret, {cnt: 1}) == 1, desc(p) + show(p.ret))
            elif more and not last_:
                cx.ob("gate-stays-closed-while-requests-run", f["p"], not ready and ev(p.ret, {cnt: 2}) == 0, desc(p) + show(p.ret))
            else:
                cx.ob("gate-decided-by-counter", f["p"], False, desc(p))
        else:
            cx.ob("open-gate-stays-open", f["p"], not st and is_false(p.ret), desc(p))
    cx.floor("down paths", n, 2)
    f = cx.fn(SI + "::up")
    for p in cx.run(f, ["nothing"], stores=lambda a, v: True, branches=anyb):
        v = next((x[1] for x in variants_on(p, "StateInitiation") if x[0] is T("param", "self")), None)
        st = [e for e in p.trace if e.kind == "store"]
        cnt = T("vf", T("param", "self"), "Waiting", "counter")
        if v == "Waiting":
            cx.ob("start-counts-one-request-up", f["p"], len(st) == 1 and ev(st[0].args[1], {cnt: 7}) == 8, desc(p))
        else:
            cx.ob("open-gate-stays-open", f["p"], not st, desc(p))
    f = cx.fn(SI + "::new")
    for p in cx.run(f, ["nothing"]):
        cx.ob("starts-closed-with-no-requests", f["p"], agg_of(p.ret, "StateInitiation", "Waiting") and ev(p.ret.a[3], {}) == 0, show(p.ret))
    C = "vertigo::driver_module::dom::Commands::"
    f = cx.fn(C + "flush_dom_changes")
    k = 0
    for p in cx.run(f, ["flush_dom_changes_inner$"], opaque=opq("flush_dom_changes_inner$"), branches=anyb):
        if p.end != "ret":
            continue
        fl = calls(p, "flush_dom_changes_inner$")
        rd = None
        for e in brs(p):
            t = e.args[0]
            neg = 0
            while t.op == "not":
                neg, t = neg + 1, t.a[0]
            if t.op == "bin" and any("Ready" in show(x) for x in t.subs()) or t.op == "discr" and str(t.a[1]).endswith("StateInitiation"):
                if t.op == "discr":
                    rd = (e.args[1] == "Ready") if e.name == "=" else None
                else:
                    rd = (e.args[1] == 1) ^ (neg % 2 == 1)
        k += 1
        cx.ob("flush-only-through-the-open-gate", f["p"], rd is not None and bool(fl) == rd and len(fl) <= 1, desc(p))
    cx.floor("flush paths", k, 2)
    f = cx.fn(C + "fetch_down")
    for p in cx.run(f, ["flush_dom_changes_inner$", "StateInitiation::down$"], opaque=opq("flush_dom_changes_inner$|StateInitiation::down$"), branches=anyb):
        fl, dn = calls(p, "flush_dom_changes_inner$"), calls(p, "StateInitiation::down$")
        ok = len(dn) == 1
        opened = next((e.args[1] for e in brs(p) if dn and e.args[0] is dn[0].res), None)
        cx.ob("opening-the-gate-flushes", f["p"], ok and opened is not None and len(fl) == (1 if opened == 1 else 0), desc(p))
    f = cx.fn(C + "fetch_up")
    for p in cx.run(f, ["StateInitiation::up$"], opaque=opq("StateInitiation::up$")):
        cx.ob("start-counted", f["p"], len(calls(p, "StateInitiation::up$")) == 1, desc(p))
    # wiring: fetch start -> up, fetch stop -> down, both handles kept
    f = cx.fn(DD + "new")
    for p in cx.run(f, ["EventEmitter::add$"], opaque=opq("EventEmitter::add$")):
        ad = calls(p, "EventEmitter::add$")
        got = {}
        for e in ad:
            src = "start" if has_field(e.args[0], "on_fetch_start") else "stop" if has_field(e.args[0], "on_fetch_stop") else "?"
            for c in clos(e.args[1])[:1]:
                inst = cx.crate().insts[c.a[1]]
                for q in cx.run(inst, ["Commands::fetch_(up|down)$"], args=[havoc(c)], opaque=opq("Commands::fetch_")):
                    got.setdefault(src, set()).add(tuple(x.name.rsplit("::", 1)[-1] for x in calls(q, "fetch_")))
        cx.ob("fetch-signals-drive-the-counter", f["p"], got == {"start": {("fetch_up",)}, "stop": {("fetch_down",)}}, str(got))
        keeps = [x for x in p.ret.subs() if x.op == "agg" and str(x.a[0]).endswith("DriverDom")]
        cx.ob("signal-handles-kept", f["p"], bool(keeps) and all(any(keeps[0].has(e.res) for _ in [0]) for e in ad), show(p.ret))
    # flushes are triggered when a transaction ends
    f = cx.fn("vertigo::driver_module::driver::Driver::new") if cx.crate().inst("vertigo::driver_module::driver::Driver::new") else cx.fn("vertigo::driver_module::driver::DriverInner::new")
    hooked = 0
    for p in cx.run(f, [r"Hooks::on_after_transaction$", r"DriverDom::new$", r"CssManager::new$"], opaque=opq(r"Hooks::on_after_transaction$|DriverDom::new$|CssManager::new$|ApiImport|Dependencies as"), branches=anyb):
        if p.end != "ret":
            continue
        inner = next((x for x in p.ret.subs() if agg_of(x, "DriverInner")), None)
        af = afields(inner) if inner is not None else {}
        doms = calls(p, "DriverDom::new$")
        cx.ob("one-document", f["p"], len(doms) == 1 and af.get("dom") is doms[0].res, show(inner) if inner is not None else "no DriverInner")
        good = 0
        for e in calls(p, "on_after_transaction$"):
            runs = [q for c in [x for x in (e.args[1],) if x.op == "clo"] or clos(e.args[1])[:1] for q in closure_runs(cx, c, [r"Commands::flush_dom_changes(_inner)?$"], opaque=opq(r"Commands::flush_dom_changes(_inner)?$"), branches=anyb)]
            fl = [calls(q, "flush_dom_changes$") for q in runs]
            if not any(fl):
                continue
            good += 1
            cx.ob("transaction-end-always-flushes-the-document", f["p"], all(q.end == "ret" and len(x) == 1 and doms and x[0].args[0] is T("f", doms[0].res, "commands") for q, x in zip(runs, fl)), "; ".join(desc(q) for q in runs)[:400])
            cx.ob("flush-hooked-to-the-driver's-own-transactions", f["p"], e.args[0] is T("f", af.get("dependencies"), "hooks"), show(e.args[0]))
            cx.ob("flush-hook-kept", f["p"], any(v is e.res for v in af.values()), desc(p))
        hooked = max(hooked, good)
        cx.ob("flushed-once-per-transaction", f["p"], good == 1, f"{good} hooks flush")
    cx.ob("transaction-end-flushes", f["p"], hooked >= 1, "no end-of-transaction hook calls flush_dom_changes")


CM = DOM + "dom_element_class::"


def closure_runs(cx, clo, watch, **k):
    """paths of a closure term with its captures bound"""
    return cx.run(cx.crate().insts[clo.a[1]], watch, args=[havoc(clo)], **k)


def subscribed(p, meth="subscribe"):
    """(event, callback closure) of each subscription made on this path"""
    out = []
    for e in calls(p, r"Computed::" + meth + "$"):
        c = [x for x in (e.args[1],) if x.op == "clo"] or clos(e.args[1])
        out.append((e, c[0] if c else None))
    return out


def param_of(cx, clo, n=1):
    """term of the closure's n-th explicit parameter"""
    loc = cx.crate().insts[clo.a[1]]["locals"]
    k = n + 1
    return T("param", loc[k][1] if len(loc[k]) > 1 else f"arg{k}")


@check("D05")
def d05(cx):
    f = cx.fn(DOM + "dom_element::DomElement::add_attr")
    kinds = set()
    P = T("param", "value")
    for p in cx.run(f, ["set_attr_value$", r"Computed::subscribe$", r"::push$", "DomElement::add_attr$"], opaque=opq("set_attr_value$|Computed::subscribe$"), branches=anyb):
        if p.end != "ret":
            continue
        k = next((v for x, v, h in variants_on(p, "AttrValue") if h == "="), None)
        kinds.add(k)
        again = calls(p, "DomElement::add_attr$")
        if again:
            # handed on as another kind of source
            a = again[0].args
            ok = len(again) == 1 and a[0] is T("param", "self") and a[1].has(T("param", "name")) and agg_of(a[2], "AttrValue") and a[2].a[1] != k and a[2].has(T("vf", P, k, "0"))
            cx.ob("attribute-source-converted", f["p"], ok and not calls(p, "set_attr_value$") and not subscribed(p), desc(p))
            continue
        sets, subs = calls(p, "set_attr_value$"), subscribed(p)
        if k == "String":
            ok = len(sets) == 1 and not subs and agg_of(sets[0].args[2], "Option", "Some") and sets[0].args[2].has(P) and sets[0].args[1].has(T("param", "name"))
            cx.ob("constant-attribute-set-once", f["p"], ok, desc(p))
            continue
        ok = len(subs) == 1 and subs[0][1] is not None and not sets and subs[0][0].args[0].has(P)
        cx.ob("reactive-attribute-subscribed", f["p"], ok, desc(p))
        if not ok:
            continue
        cx.ob("attribute-subscription-kept", f["p"], any(has_field(e.args[0], "subscriptions") and e.args[1].has(subs[0][0].res) for e in calls(p, "::push$")), desc(p))
        c = subs[0][1]
        v = param_of(cx, c)
        m = 0
        for q in closure_runs(cx, c, ["set_attr_value$"], opaque=opq("set_attr_value$"), branches=anyb):
            if q.end != "ret":
                continue
            m += 1
            s = calls(q, "set_attr_value$")
            ok = len(s) == 1 and s[0].args[1].has(T("param", "name"))
            if ok:
                a = s[0].args[2]
                ok = a is v if k.endswith("Opt") else agg_of(a, "Option", "Some") and a.has(v)
                ok = ok and any(has_field(x, "class_manager") for x in s[0].args[0].subs())
            cx.ob("every-new-value-written", f["p"] + "/" + k, ok, desc(q))
        cx.floor("attribute updates", m, 1)
    cx.ob("all-attribute-sources-handled", f["p"], kinds == set(cx.crate().variants("vertigo::dom::attr_value::AttrValue")), str(kinds))
    for nm in ("attr", "attrs"):
        g = cx.fn(DOM + "dom_element::DomElement::" + nm)
        for p in cx.run(g, ["DomElement::add_attr$"], opaque=opq("DomElement::add_attr$"), branches=anyb):
            if p.end != "ret":
                continue
            vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
            a = calls(p, "add_attr$")
            cx.ob("builder-adds-the-attribute", g["p"], len(a) == (len(vis) if nm == "attrs" else 1) and not unfinished(p) and all(d.has(T("param", "attrs")) for d in iters(p)), desc(p))
    # set / remove
    f = cx.fn(CM + "DomElementClassMerge::set_attr_value")
    n = 0
    for p in cx.run(f, ["refresh_dom$", "DriverDom::"], opaque=opq("refresh_dom$|DriverDom::"), branches=anyb, stores=lambda a, v: has_field(a, "attr_name")):
        if p.end != "ret":
            continue
        isc = next((e.args[1] for e in brs(p) if "'class'" in show(e.args[0])), None)
        val = next((v for x, v, h in variants_on(p, "Option") if x is T("param", "value")), None)
        ops = calls(p, "DriverDom::")
        st = [e for e in p.trace if e.kind == "store"]
        rf = calls(p, "refresh_dom$")
        n += 1
        if isc == 1:
            ok = not ops and len(st) == 1 and len(rf) == 1 and p.trace.index(st[0]) < p.trace.index(rf[0])
            w = st[0].args[1] if st else None
            if ok and val == "Some":
                ok = agg_of(w, "Option", "Some") and w.has(T("param", "value"))
            elif ok and val == "None":
                ok = agg_of(w, "Option", "None")
            elif ok:
                ok = w is T("param", "value")
            cx.ob("class-attribute-merged", f["p"], ok, desc(p))
        else:
            nm = "set_attr" if val == "Some" else "remove_attr"
            ok = isc == 0 and len(ops) == 1 and ops[0].name.endswith("::" + nm) and ends_field(ops[0].args[1], "id_dom") and ops[0].args[2] is T("param", "name") and not st
            ok = ok and (val != "Some" or ops[0].args[3].has(T("param", "value")))
            cx.ob("value-sets-none-removes", f["p"], ok, desc(p))
    cx.floor("attribute write paths", n, 3)
    # class = attribute + css + suspense, re-sent exactly when it changed
    f = cx.fn(CM + "DomElementClassMergeInner::refresh_dom")
    for p in cx.run(f, ["get_new_command$", "DriverDom::", "clone_from$"], opaque=opq("get_new_command$|DriverDom::"), branches=anyb, stores=lambda a, v: has_field(a, "command_last_sent")):
        if p.end != "ret":
            continue
        g = calls(p, "get_new_command$")
        if len(g) != 1:
            cx.ob("class-computed-once", f["p"], False, desc(p))
            continue
        N = g[0].res
        same = None
        for e in brs(p):
            t, neg = e.args[0], 0
            while t.op == "not":
                t, neg = t.a[0], neg + 1
            if t.op == "bin" and t.a[0] == "Eq" and t.has(N) and has_field(t, "command_last_sent"):
                same = (e.args[1] == 1) ^ (neg % 2 == 1)
        ops = calls(p, "DriverDom::")
        kept = [e for e in calls(p, "clone_from$") if has_field(e.args[0], "command_last_sent") and e.args[1].has(N)] + \
               [e for e in p.trace if e.kind == "store" and e.args[1].has(N)]
        if same:
            cx.ob("unchanged-class-not-resent", f["p"], not ops, desc(p))
            continue
        kind = next((v for x, v, h in variants_on(p, "Option") if x is N), None)
        ok = same is False and len(ops) == 1 and ops[0].name.endswith("::set_attr") and "'class'" in show(ops[0].args[2]) and ends_field(ops[0].args[1], "id_dom")
        if ok:
            a = ops[0].args[3]
            ok = a.has(N) if kind != "None" else N not in a.subs() and empty_str(a)
        cx.ob("changed-class-sent", f["p"], ok, desc(p))
        cx.ob("sent-class-remembered", f["p"], len(kept) == 1, desc(p))
    f = cx.fn(CM + "DomElementClassMergeInner::get_new_command")
    parts = ("attr_name", "css_name", "suspense_css")
    full = 0
    for p in cx.run(f, ["get_class_name$", "::push$", "::extend$", "::join$", "::push_str$"], opaque=opq("get_class_name$"), branches=anyb):
        if p.end != "ret":
            continue
        have = {}
        for x, v, h in variants_on(p, "Option"):
            for q in parts:
                if ends_field(x, q):
                    have[q] = v
        empty = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty")]
        if agg_of(p.ret, "Option", "None"):
            if empty:
                continue  # the emptiness test of the collected parts itself
            cx.ob("class-dropped-only-without-parts", f["p"], all(have.get(q) == "None" for q in parts), desc(p))
            continue
        full += 1
        pushed = [e.args[1] for e in calls(p, "::(push|extend)$")]
        if sum(v == "Some" for v in have.values()) > 1:
            txt = [x for e in calls(p, "::(push_str|push|join)$") for a in e.args[1:] if isinstance(a, T) for x in a.subs()] + list(p.ret.subs())
            cx.ob("class-names-separated-by-a-space", f["p"], any(x.op == "c" and x.a[0] in (" ", 32) or x.op == "fmt" and "' '" in show(x) for x in txt), desc(p))
        for q in parts:
            got = [t for t in pushed if has_field(t, q)]
            cx.ob("class-part-included:" + q, f["p"], q in have and len(got) == (1 if have[q] == "Some" else 0) or q not in have and bool(got), desc(p))
            if q != "attr_name":
                cx.ob("css-part-becomes-a-class-name", f["p"], all(any(x.op == "call" and x.a[0].endswith("get_class_name") for x in t.subs()) for t in got), desc(p))
    cx.floor("class merges", full, 4)
    # css(): constant or subscribed, handle kept
    f = cx.fn(DOM + "dom_element::DomElement::css")
    ks = set()
    for p in cx.run(f, ["set_css$", "Computed::subscribe$", "::push$"], opaque=opq("set_css$|Computed::subscribe$"), branches=anyb):
        if p.end != "ret":
            continue
        k = next((v for x, v, h in variants_on(p, "CssAttrValue") if h == "="), None)
        ks.add(k)
        s, subs = calls(p, "set_css$"), subscribed(p)
        if k == "Css":
            cx.ob("constant-css-set", f["p"], len(s) == 1 and s[0].args[1].has(T("param", "css")) and not subs, desc(p))
        else:
            ok = len(subs) == 1 and not s and any(e.args[1].has(subs[0][0].res) and has_field(e.args[0], "subscriptions") for e in calls(p, "::push$"))
            if ok:
                v = param_of(cx, subs[0][1])
                for q in closure_runs(cx, subs[0][1], ["set_css$"], opaque=opq("set_css$")):
                    z = calls(q, "set_css$")
                    ok = ok and len(z) == 1 and z[0].args[1].has(v)
            cx.ob("reactive-css-subscribed-and-kept", f["p"], ok, desc(p))
    cx.ob("all-css-sources-handled", f["p"], ks == {"Css", "Computed"}, str(ks))
    f = cx.fn(CM + "DomElementClassMerge::set_css")
    for p in cx.run(f, ["refresh_dom$"], opaque=opq("refresh_dom$"), stores=lambda a, v: has_field(a, "css_name")):
        st = [e for e in p.trace if e.kind == "store"]
        rf = calls(p, "refresh_dom$")
        ok = len(st) == 1 and len(rf) == 1 and p.trace.index(st[0]) < p.trace.index(rf[0]) and agg_of(st[0].args[1], "Option", "Some") and st[0].args[1].has(T("param", "new_value"))
        cx.ob("css-stored-then-class-refreshed", f["p"], ok, desc(p))


EVENTS = {"on_click": ("click", None), "on_mouse_down": ("mousedown", "bool"), "on_mouse_up": ("mouseup", "bool"), "on_mouse_enter": ("mouseenter", None),
          "on_mouse_leave": ("mouseleave", None), "on_input": ("input", "str"), "on_change": ("change", "str"), "on_blur": ("blur", None),
          "on_key_down": ("keydown", "key"), "on_dropfile": ("drop", "drop"), "hook_key_down": ("hook_keydown", "key"), "on_load": ("load", None)}


@check("D06")
def d06(cx):
    E = DOM + "dom_element::DomElement::"
    f = cx.fn(E + "add_event_listener")
    n = 0
    for p in cx.run(f, [OPS, "CallbackStore::register$", "::push$", "DropResource::new$"], opaque=opq("DriverDom::|CallbackStore::register$"), branches=anyb):
        if p.end != "ret":
            continue
        rg, ad, dr = calls(p, "CallbackStore::register$"), calls(p, "DriverDom::callback_add$"), calls(p, "DropResource::new$")
        ok = len(rg) == 1 and len(ad) == 1 and rg[0].args[1].has(T("param", "callback"))
        cx.ob("listener-registered-once", f["p"], ok, desc(p))
        if not ok:
            continue
        n += 1
        cid = T("f", rg[0].res, "0")
        ok = ends_field(ad[0].args[1], "id_dom") and root_is_param(ad[0].args[1], "self") and ad[0].args[2] is T("param", "name") and ad[0].args[3] is cid
        cx.ob("listener-announced-for-this-element-event-and-id", f["p"], ok, desc(p))
        pushed = [e.args[1] for e in calls(p, "::push$") if has_field(e.args[0], "subscriptions")]
        cl = [c for t in pushed for c in clos(t)]
        cx.ob("listener-handle-kept-by-the-element", f["p"], bool(cl), desc(p))
        for c in cl[:1]:
            for q in closure_runs(cx, c, [OPS, "DropResource::off$"], opaque=opq("DriverDom::|DropResource::off$"), drops=True):
                rm = calls(q, "DriverDom::callback_remove$")
                ok = len(rm) == 1 and rm[0].args[1] is ad[0].args[1] and rm[0].args[2] is ad[0].args[2] and rm[0].args[3] is cid
                cx.ob("dropping-the-element-removes-exactly-that-listener", f["p"], ok, desc(q))
            cx.ob("registration-released-with-the-listener", f["p"], c.has(T("f", rg[0].res, "1")), show(c))
    cx.floor("listener registrations", n, 1)
    nothing_leaked(cx, DOM_MODULES, 60)
    used = {}
    for m, (ename, kind) in EVENTS.items():
        g = cx.fn(E + m)
        for p in cx.run(g, ["add_event_listener$", "install_callback1?$"], opaque=opq("add_event_listener$|install_callback1?$")):
            a, ic = calls(p, "add_event_listener$"), calls(p, "install_callback1?$")
            ok = len(a) == 1 and len(ic) == 1 and p.ret is a[0].res and ic[0].args[1].op == "param"
            cx.ob("one-listener-for-the-event", g["p"], ok, desc(p))
            if not ok:
                continue
            cx.ob("event-name", g["p"], show(a[0].args[1]).strip("'") == ename, show(a[0].args[1]))
            used[ename] = used.get(ename, 0) + 1
            c = (clos(a[0].args[2]) or [None])[0]
            if c is None:
                cx.ob("listener-body", g["p"], False, show(a[0].args[2]))
                continue
            H = ic[0].res
            data = param_of(cx, c)
            called = 0
            for q in closure_runs(cx, c, ["dyn-call", r"JsValue::convert$", "get_key_down_event$"], opaque=opq("JsValue::convert$|get_key_down_event$"), branches=anyb):
                if q.end != "ret":
                    continue
                d = [e for e in q.trace if e.kind == "dyn"]
                called += len(d)
                cx.ob("user-callback-at-most-once", g["p"], len(d) <= 1 and all(e.args[0] is H for e in d), desc(q))
                if kind is None:
                    cx.ob("user-callback-called", g["p"], len(d) == 1, desc(q))
                elif kind == "bool" or kind == "key" and d:
                    if kind == "bool":
                        cx.ob("user-callback-called", g["p"], len(d) == 1, desc(q))
                    if d:
                        r = next((e.args[1] for e in brs(q) if e.args[0] is d[0].res), None)
                        ok = agg_of(q.ret, "JsValue", "True") and r == 1 or agg_of(q.ret, "JsValue", "False") and r == 0
                        cx.ob("callback-answer-returned", g["p"], ok, desc(q) + " -> " + show(q.ret))
                elif kind == "str":
                    s = next((v for x, v, h in variants_on(q, "JsValue") if x is data and h == "="), None)
                    cx.ob("text-payload-passed-on", g["p"], (len(d) == 1 and d[0].args[1] is T("vf", data, "String", "0")) if s == "String" else not d, desc(q))
                if kind in ("key", "drop"):
                    dec = calls(q, r"JsValue::convert$|get_key_down_event$")
                    r = next((v for x, v, h in variants_on(q, "Result") if dec and x is dec[0].res), None)
                    ok = len(dec) == 1 and dec[0].args[0].has(data)
                    ok = ok and (len(d) == 1 and d[0].args[1] is T("vf", dec[0].res, "Ok", "0") if r == "Ok" else not d)
                    cx.ob("decoded-payload-passed-on", g["p"], ok, desc(q))
            cx.ob("listener-can-fire", g["p"], called >= 1, "no path of the listener calls the user's callback")
    cx.floor("event kinds", len(used), 12)
    for k, v in used.items():
        cx.ob("event-name-used-once", k, v == 1, str(v))
    # key payload
    g = cx.fn(DOM + "dom_element::get_key_down_event")
    want = {"key": ("get_string", "key"), "code": ("get_string", "code"), "alt_key": ("get_bool", "altKey"), "ctrl_key": ("get_bool", "ctrlKey"),
            "shift_key": ("get_bool", "shiftKey"), "meta_key": ("get_bool", "metaKey")}
    k = 0
    for i in closure_tree(cx.crate(), g):
        inst = cx.crate().insts[i]
        if inst["id"] == g["id"]:
            continue
        for p in cx.run(inst, ["JsValueListDecoder::"], opaque=opq("JsValueListDecoder::"), branches=anyb):
            if p.end != "ret" or not agg_of(p.ret, "Result", "Ok"):
                continue
            k += 1
            ev_ = p.ret.a[3]
            got = calls(p, "JsValueListDecoder::")
            order = [(e.name.rsplit("::", 1)[-1], show(e.args[1]).strip("'") if len(e.args) > 1 else "") for e in got]
            cx.ob("key-payload-order", inst["p"], order == list(want.values()) + [("expect_no_more", "")], str(order))
            af = afields(ev_) if ev_.op == "agg" else {}
            for fl, (gt, nm) in want.items():
                src = next((e.res for e in got if len(e.args) > 1 and show(e.args[1]).strip("'") == nm), None)
                cx.ob("key-payload-field:" + fl, inst["p"], src is not None and fl in af and af[fl].has(src), show(af.get(fl)) if fl in af else "missing")
    cx.floor("key payload decoders", k, 1)
    # callbacks given as a computed: always the latest one, subscription kept
    for cb in ("Callback", "Callback1"):
        g = cx.fn(DOM + f"callback::{cb}::subscribe")
        vs = set()
        for p in cx.run(g, ["Computed::subscribe"], opaque=opq("Computed::subscribe"), branches=anyb):
            if p.end != "ret":
                continue
            k = next((v for x, v, h in variants_on(p, cb) if h == "="), None)
            vs.add(k)
            fn_, dr = (p.ret.a[3], p.ret.a[4]) if p.ret.op == "agg" and len(p.ret.a) >= 5 else (None, None)
            if fn_ is None:
                cx.ob("callback-and-handle-returned", g["p"], False, show(p.ret))
                continue
            if k != "Computed":
                cx.ob("plain-callback-passed-through", g["p"], fn_.has(T("param", "self")) and agg_of(dr, "Option", "None"), show(p.ret))
                continue
            sub = calls(p, "Computed::subscribe_all$|Computed::subscribe$")
            ok = len(sub) == 1 and dr.has(sub[0].res) and sub[0].name.endswith("subscribe_all")
            cx.ob("callback-subscription-kept", g["p"], ok, show(p.ret) + " " + desc(p))
            c = clos(sub[0].args[1])[:1] if sub else []
            cell = None
            for x in c:
                v = param_of(cx, x)
                for q in closure_runs(cx, x, ["nothing"], stores=lambda a, v: True):
                    st = [e for e in q.trace if e.kind == "store" and e.args[1].has(v)]
                    cx.ob("latest-callback-stored", g["p"], len(st) == 1, desc(q))
                    if st:
                        cell = st[0].args[0]
            d = [x for x in clos(fn_)][:1]
            for x in d:
                for q in closure_runs(cx, x, ["dyn-call"], branches=anyb):
                    e = [e for e in q.trace if e.kind == "dyn"]
                    if q.end == "ret":
                        ok = len(e) == 1 and e[0].res is q.ret and cell is not None and (e[0].args[0].has(cell))
                        cx.ob("latest-callback-called", g["p"], ok, desc(q) + " cell=" + (show(cell) if cell is not None else "-"))
            cx.ob("computed-callback-analysed", g["p"], bool(c) and bool(d), show(p.ret))
        cx.ob("all-callback-sources-handled", g["p"], vs == set(cx.crate().variants(DOM + "callback::" + cb)), str(vs))
    for m in ("install_callback", "install_callback1"):
        g = cx.fn(E + m)
        for p in cx.run(g, [r"Callback1?::subscribe$", "::push$"], opaque=opq(r"Callback1?::subscribe$"), branches=anyb):
            s = calls(p, r"Callback1?::subscribe$")
            if p.end != "ret" or len(s) != 1:
                continue
            some = next((v for x, v, h in variants_on(p, "Option") if x is T("f", s[0].res, "1")), None)
            kept = [e for e in calls(p, "::push$") if has_field(e.args[0], "subscriptions") and e.args[1].has(s[0].res)]
            cx.ob("callback-handle-kept-by-the-element", g["p"], bool(kept) == (some == "Some") and p.ret is T("f", s[0].res, "0"), desc(p))


def marker_mounts(cx, fpath):
    """(function, path of the mount closure, its parent/comment params, subscription event, callback closure)"""
    f = cx.fn(fpath)
    out = []
    for p in cx.run(f, ["DomComment::new_marker$"], opaque=opq("DomComment::new_marker$")):
        mk = calls(p, "new_marker$")
        ok = len(mk) == 1 and p.ret is not None and p.ret.has(mk[0].res)
        cx.ob("rendered-as-one-marker", f["p"], ok, desc(p))
        for c in clos(mk[0].args[1])[:1] if ok else []:
            for q in closure_runs(cx, c, ["Computed::subscribe$"], opaque=opq("Computed::subscribe$")):
                sb = subscribed(q)
                ok = len(sb) == 1 and sb[0][1] is not None and agg_of(q.ret, "Option", "Some") and q.ret.a[3] is sb[0][0].res and sb[0][0].args[0].has(T("param", "computed"))
                cx.ob("mounting-subscribes-to-the-source", f["p"], ok, desc(q) + " -> " + show(q.ret))
                if ok:
                    out.append((f, q, param_of(cx, c, 1), param_of(cx, c, 2), sb[0][1]))
    return out


@check("D07")
def d07(cx):
    R = "vertigo::render::dom_value::"
    n = 0
    for f, q, parent, comment, cb in marker_mounts(cx, R + "render_value_option"):
        v = param_of(cx, cb)
        for p in closure_runs(cx, cb, ["dyn-call", OPS, "mem::"], opaque=opq("DriverDom::"), branches=anyb, stores=lambda a, v: True):
            if p.end != "ret":
                continue
            d = [e for e in p.trace if e.kind == "dyn"]
            ok = len(d) == 1 and d[0].args[0].has(T("param", "render")) and d[0].args[1] is v
            cx.ob("rendered-once-with-the-new-value", f["p"], ok, desc(p))
            if not ok:
                continue
            n += 1
            N = d[0].res
            some = next((w for x, w, h in variants_on(p, "Option") if x is N), None)
            ins = calls(p, "insert_before$")
            if some == "Some":
                ok = len(ins) == 1 and ins[0].args[1] is parent and ins[0].args[2].has(N) and ends_field(ins[0].args[2], "id_dom") and \
                    agg_of(ins[0].args[3], "Option", "Some") and ins[0].args[3].a[3] is comment
                cx.ob("new-content-placed-before-its-marker", f["p"], ok, desc(p))
            elif some == "None":
                cx.ob("nothing-inserted-for-no-content", f["p"], not ins, desc(p))
            else:
                cx.ob("rendered-content-examined", f["p"], False, desc(p))
            st = [e for e in p.trace if e.kind == "store"]
            ok = len(st) == 1 and (st[0].args[1] is N or agg_of(st[0].args[1], "Option", some) and (some == "None" or st[0].args[1].has(N)))
            cx.ob("new-content-replaces-the-old-and-is-kept", f["p"], ok, desc(p))
    cx.floor("value renderings", n, 2)
    f = cx.fn(R + "render_value")
    for p in cx.run(f, ["render_value_option$"], opaque=opq("render_value_option$")):
        rv = calls(p, "render_value_option$")
        ok = len(rv) == 1 and p.ret is rv[0].res and rv[0].args[0] is T("param", "computed")
        for c in clos(rv[0].args[1])[:1] if ok else []:
            for q in closure_runs(cx, c, ["dyn-call"]):
                d = [e for e in q.trace if e.kind == "dyn"]
                ok = ok and len(d) == 1 and d[0].args[1] is param_of(cx, c) and agg_of(q.ret, "Option", "Some") and q.ret.a[3] is d[0].res
        cx.ob("render-value-always-has-content", f["p"], ok, desc(p))
    # a computed text is updated with every new value
    f = cx.fn(DOM + "dom_text::DomText::new_computed")
    for p in cx.run(f, ["Computed::subscribe$", OPS, "::push$"], opaque=opq("DriverDom::|Computed::subscribe$")):
        sb = subscribed(p)
        ok = len(sb) == 1 and sb[0][1] is not None and any(e.args[1].has(sb[0][0].res) for e in calls(p, "::push$"))
        cx.ob("text-subscription-kept", f["p"], ok, desc(p))
        for e, c in sb:
            for q in closure_runs(cx, c, [OPS], opaque=opq("DriverDom::")):
                u = calls(q, "DriverDom::")
                ok = len(u) == 1 and u[0].name.endswith("update_text") and u[0].args[1] is afields(p.ret)["id_dom"] and param_of(cx, c) in u[0].args[2].subs()
                cx.ob("every-new-text-written", f["p"], ok, desc(q))


@check("D09")
def d09(cx):
    C = DOM + "dom_comment::DomComment::"
    f = cx.fn(C + "new_marker")
    k = 0
    for p in cx.run(f, [OPS, "::push$"], opaque=opq("DriverDom::")):
        np_, cc = calls(p, "node_parent$"), calls(p, "create_comment$")
        ok = len(np_) == 1 and len(cc) == 1 and np_[0].args[1] is cc[0].args[1] and afields(p.ret).get("id_dom") is cc[0].args[1]
        cx.ob("mount-hook-filed-under-the-marker-id", f["p"], ok, desc(p))
        cx.ob("mount-hook-handle-kept", f["p"], bool(np_) and any(e.args[1].has(np_[0].res) and p.ret.has(e.args[0]) for e in calls(p, "::push$")), desc(p))
        for c in clos(np_[0].args[2])[:1] if ok else []:
            par = param_of(cx, c)
            for q in closure_runs(cx, c, ["dyn-call"], stores=lambda a, v: True):
                d = [e for e in q.trace if e.kind == "dyn"]
                ok = len(d) == 1 and d[0].args[0] is T("param", "mount") and d[0].args[1] is par and d[0].args[2] is cc[0].args[1]
                cx.ob("mounting-runs-the-mount-with-parent-and-marker", f["p"], ok, desc(q))
                st = [e for e in q.trace if e.kind == "store"]
                cx.ob("mounted-resource-kept-until-next-mount", f["p"], ok and len(st) == 1 and st[0].args[1] is d[0].res, desc(q))
                k += 1
    cx.floor("marker mounts", k, 1)
    f = cx.fn(DD + "node_parent")
    for p in cx.run(f, ["collections::.*Map.*::(insert|remove)$"]):
        ins = calls(p, "::insert$")
        ok = len(ins) == 1 and ins[0].args[1] is T("param", "node_id") and ins[0].args[2].has(T("param", "callback")) and has_field(ins[0].args[0], "node_parent_callback")
        cx.ob("hook-stored-by-node", f["p"], ok, desc(p))
        cl = clos(p.ret)
        ok2 = ok and agg_of(p.ret, "DropResource", "Fun") and bool(cl)
        for c in cl[:1] if ok2 else []:
            for q in closure_runs(cx, c, ["collections::.*Map.*::(insert|remove|clear)$"]):
                r = calls(q, "::(insert|remove|clear)$")
                ok2 = ok2 and len(r) == 1 and r[0].name.endswith("remove") and r[0].args[1] is T("param", "node_id") and r[0].args[0] is ins[0].args[0]
        cx.ob("hook-removed-with-its-handle", f["p"], ok2, show(p.ret))
    f = cx.fn(DD + "insert_before")
    n = 0
    for p in cx.run(f, ["dyn-call", "set_parent$", "::push$"], opaque=opq("DomSuspense::"), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        d = [e for e in p.trace if e.kind == "dyn"]
        hit = next((w for x, w, h in variants_on(p, "Option") if has_field(x, "node_parent_callback") and x.has(T("param", "child"))), None)
        ok = hit is not None and len(d) == (1 if hit == "Some" else 0) and all(e.args[1] is T("param", "parent") and has_field(e.args[0], "node_parent_callback") for e in d)
        cx.ob("attached-marker-is-mounted-in-its-parent", f["p"], ok, desc(p))
        pu = [e for e in calls(p, "::push$") if ends_field(e.args[0], "commands")]
        cx.ob("marker-placed-before-its-content", f["p"], bool(pu) and all(p.trace.index(pu[0]) < p.trace.index(e) for e in d), desc(p))
    cx.floor("attach paths", n, 2)
    # a fragment puts its nodes before the marker, in order, and owns them
    f = cx.fn(C + "dom_fragment")
    n = 0
    for p in cx.run(f, ["DomComment::new_marker$"], opaque=opq("DomComment::new_marker$")):
        mk = calls(p, "new_marker$")
        cl = clos(mk[0].args[1])[:1] if mk else []
        cx.ob("fragment-is-one-marker-owning-its-nodes", f["p"], len(mk) == 1 and bool(cl) and p.ret is mk[0].res and cl[0].has(T("param", "list")), desc(p))
        for c in cl:
            par, com = param_of(cx, c, 1), param_of(cx, c, 2)
            for q in closure_runs(cx, c, [OPS], opaque=opq("DriverDom::"), branches=anyb):
                if q.end != "ret":
                    continue
                ins = calls(q, "insert_before$")
                vis = [e for e in brs(q) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
                n += len(vis)
                cx.ob("every-fragment-node-attached", f["p"], finished(q) and len(ins) == len(vis), desc(q))
                for e in ins:
                    dom = next((d for d in iters(q)), None)
                    ok = e.args[1] is par and dom is not None and e.args[2].has(item(dom)) and agg_of(e.args[3], "Option", "Some") and e.args[3].a[3] is com
                    rv = dom is not None and reversed_iter(cx, c, q)
                    cx.ob("fragment-order-kept", f["p"], ok and not rv, desc(q))
    cx.floor("fragment nodes", n, 3)


def reversed_iter(cx, clo_or_inst, path):
    """a double-ended iteration runs backwards somewhere in this body"""
    inst = cx.crate().insts[clo_or_inst.a[1]] if isinstance(clo_or_inst, T) else clo_or_inst
    return any(re.search(r"(Iterator|::)::?rev$|next_back$|pop_back$", t["f"].get("p") or "") or (t["f"].get("p") or "").endswith("::rev") for _, t in cx.crate().calls(inst))


L = "vertigo::render::dom_list::"


def _pairs(cx, nm, side):
    """the matched prefix/suffix: pops both ends, pushes back what did not match, keeps the order"""
    f = cx.fn(L + nm)
    back = "front" if side == "front" else "back"
    add = "push_back" if side == "front" else "push_front"
    n = 0
    cur, new = T("param", f["locals"][1][1]), T("param", f["locals"][2][1])
    for p in cx.run(f, [r"VecDeque::(pop_front|pop_back|push_front|push_back|front|back|remove|insert|append|extend)$", r"Extend>?::extend$"], branches=anyb):
        if p.end != "ret":
            continue
        okp = True
        bal = {"cur": 0, "new": 0}
        nkept = neq = 0
        for e in p.trace:
            if e.kind == "br":
                t, w = e.args[0], e.args[1]
                if t.op == "discr" and e.name == "=" and w == "None" and t.a[0].op == "call" and t.a[0].a[0].endswith("pop_" + back):
                    bal["cur" if cur in t.a[0].a else "new"] -= 1
                neg = 0
                while t.op == "not":
                    t, neg = t.a[0], neg + 1
                if t.op == "bin" and t.a[0] == "Eq" and t.has(cur) and t.has(new) and (w == 1) ^ (neg % 2 == 1):
                    neq += 1
                continue
            l = e.name.rsplit("::", 1)[-1]
            side_ = "cur" if e.args[0] is cur else "new" if e.args[0] is new else None
            if l.startswith("pop_"):
                okp = okp and l == "pop_" + back and side_ is not None
                if side_:
                    bal[side_] += 1
            elif l in ("front", "back"):
                okp = okp and (l == back or side_ is None)
            elif side_:
                okp = okp and l == "push_" + back
                bal[side_] -= 1
                cx.ob("put-back-what-was-taken", f["p"], (cur if side_ == "cur" else new) in e.args[1].subs() and (new if side_ == "cur" else cur) not in e.args[1].subs(), desc(p))
            else:
                okp = okp and (l == add or l == "extend" and add == "push_back" and (e.args[1].op == "call" and e.args[1].a[0].endswith("pop_" + back))) and e.args[0] is p.ret
                nkept += 1
                cx.ob("kept-only-when-equal", f["p"], neq >= nkept, desc(p))
                cx.ob("kept-pair-is-the-old-node", f["p"], e.args[1].has(cur) and new not in pair_node(e.args[1]).subs(), show(e.args[1]))
        n += nkept
        cx.ob("matched-from-the-" + side + "-in-order", f["p"], okp, desc(p))
        cx.ob("unmatched-items-put-back", f["p"], bal["cur"] == nkept and bal["new"] == nkept, f"old taken {bal['cur']}, new taken {bal['new']}, kept {nkept}: " + desc(p))
    cx.floor(nm + " matches", n, 1)


def pair_node(pair):
    return pair.a[4] if pair.op == "agg" and len(pair.a) >= 5 else pair


@check("D08")
def d08(cx):
    # one keyed reorder per change of the source
    n = 0
    for f, q, parent, comment, cb in marker_mounts(cx, L + "render_list"):
        v = param_of(cx, cb)
        for p in closure_runs(cx, cb, ["reorder_nodes$", "mem::(take|replace)$"], opaque=opq("reorder_nodes$"), stores=lambda a, v: True):
            if p.end != "ret":
                continue
            n += 1
            r = calls(p, "reorder_nodes$")
            ok = len(r) == 1 and r[0].args[0] is parent and r[0].args[1] is comment and r[0].args[3].has(v)
            ok = ok and r[0].args[4].has(T("param", "get_key")) and r[0].args[5].has(T("param", "render"))
            cx.ob("list-reordered-for-every-change", f["p"], ok, desc(p))
            st = [e for e in p.trace if e.kind == "store" and ok and e.args[1] is r[0].res]
            cx.ob("new-order-kept", f["p"], ok and len(st) == 1, desc(p))
            old = r[0].args[2] if ok else None
            cx.ob("reorders-the-previous-nodes", f["p"], ok and st and any(x is st[0].args[0] for x in old.subs()), show(old) if ok else desc(p))
    cx.floor("list updates", n, 1)
    f = cx.fn(L + "reorder_nodes")
    rc, nc = T("param", "real_child"), T("param", "new_child")
    for p in cx.run(f, ["get_pairs_(top|bottom|middle)$", r"VecDeque::\w+$"], opaque=opq("get_pairs_(top|bottom|middle)$"), branches=anyb):
        if p.end != "ret":
            continue
        t, b, m = calls(p, "get_pairs_top$"), calls(p, "get_pairs_bottom$"), calls(p, "get_pairs_middle$")
        ok = len(t) == len(b) == len(m) == 1 and p.trace.index(t[0]) < p.trace.index(m[0]) and p.trace.index(b[0]) < p.trace.index(m[0])
        cx.ob("three-parts", f["p"], ok, desc(p))
        if not ok:
            continue
        ok = all(e.args[0].has(rc) and e.args[1].has(nc) for e in t + b) and m[0].args[2] is rc and m[0].args[3] is nc and m[0].args[0] is T("param", "parent_id")
        cx.ob("parts-work-on-the-same-lists", f["p"], ok, desc(p))
        anchor = m[0].args[1]
        empty = next((w for x, w, h in variants_on(p, "Option") if x.has(b[0].res)), None)
        ok = anchor is T("param", "comment_id") if empty == "None" else empty == "Some" and anchor.has(b[0].res) and ends_field(anchor, "id_dom") and "front" in show(anchor)
        cx.ob("middle-goes-right-before-the-kept-tail-or-the-marker", f["p"], ok, desc(p))
        ok = seq(p, p.ret) == [("all", x.res) for x in (t[0], m[0], b[0])]
        cx.ob("result-is-top-middle-bottom", f["p"], ok, desc(p))
    _pairs(cx, "get_pairs_top", "front")
    _pairs(cx, "get_pairs_bottom", "back")
    # the tail's first node is an insertion anchor: never a marker, whose content lies before it
    f = cx.fn(L + "get_pairs_bottom")
    k = 0
    for p in cx.run(f, ["VecDeque::push_front$"], branches=anyb):
        for e in calls(p, "push_front$"):
            if p.ret is e.args[0] and p.end == "ret":
                k += 1
                kinds = [(w, h) for x, w, h in variants_on(p, "DomNode")]
                ok = any(h == "=" and w in ("Node", "Text") or h != "=" and ("Comment" in w or "2" in w) for w, h in kinds)
                cx.ob("anchor-is-never-a-marker", f["p"], ok, desc(p))
    cx.floor("tail matches", k, 1)
    # middle: all old nodes offered for reuse, each new item gets its node, attached in order before one fixed anchor
    f = cx.fn(L + "get_pairs_middle")
    rc, nc, lb = T("param", "real_child"), T("param", "new_child"), T("param", "last_before")
    n = 0
    for p in cx.run(f, ["CacheNode::(insert|get_or_create)$", OPS, "VecDeque::(push_back|push_front|insert)$"], opaque=opq("CacheNode::(insert|get_or_create)$|DriverDom::"), branches=anyb):
        if p.end != "ret":
            continue
        cx.ob("no-item-skipped", f["p"], finished(p), desc(p))
        ins, goc, at, pu = calls(p, "CacheNode::insert$"), calls(p, "get_or_create$"), calls(p, "insert_before$"), calls(p, "push_(back|front)$|VecDeque::insert$")
        pu = [e for e in pu if e.args[0] is p.ret]
        vis = [e.args[0].a[0].a[0] for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
        old = [d for d in vis if d is rc]
        new = [d for d in vis if d is nc]
        cx.ob("every-old-node-offered-for-reuse", f["p"], len(ins) == len(old) and all(e.args[1] is T("f", T("item", rc), "0") and e.args[2] is T("f", T("item", rc), "1") for e in ins), desc(p))
        ok = len(goc) == len(new) == len(at) == len(pu) and all(e.args[1] is T("item", nc) for e in goc)
        for g, a, u in zip(goc, at, pu) if ok else []:
            n += 1
            ok = ok and u.name.endswith("push_back") and u.args[1].op == "agg" and u.args[1].a[3:] == (T("item", nc), g.res)
            ok = ok and a.args[1] is T("param", "parent_id") and id_of_node(a.args[2], g.res) and agg_of(a.args[3], "Option", "Some") and a.args[3].a[3] is lb
        cx.ob("each-item-attached-in-order-before-the-anchor", f["p"], ok and not reversed_iter(cx, f, p), desc(p))
    cx.floor("middle items", n, 3)
    f = cx.fn(L + "CacheNode::insert")
    for p in cx.run(f, ["dyn-call", "::entry$", "push_(back|front)$"], branches=anyb):
        d, pu, en = [e for e in p.trace if e.kind == "dyn"], calls(p, "push_(back|front)$"), calls(p, "::entry$")
        ok = len(d) == 1 and has_field(d[0].args[0], "get_key") and d[0].args[1] is T("param", "item") and len(pu) == 1 and pu[0].args[1] is T("param", "element") and pu[0].args[0].has(d[0].res) and has_field(pu[0].args[0], "data")
        cx.ob("node-cached-under-its-key", f["p"], ok and pu[0].name.endswith("push_back"), desc(p))
    f = cx.fn(L + "CacheNode::get_or_create")
    k = set()
    for p in cx.run(f, ["dyn-call", "pop_(back|front)$"], branches=anyb):
        if p.end != "ret":
            continue
        d = [e for e in p.trace if e.kind == "dyn"]
        key = [e for e in d if has_field(e.args[0], "get_key")]
        mk = [e for e in d if has_field(e.args[0], "create_new")]
        po = calls(p, "pop_(back|front)$")
        ok = len(key) == 1 and key[0].args[1] is T("param", "item") and len(po) == 1 and po[0].args[0].has(key[0].res) and po[0].name.endswith("pop_front")
        hit = next((w for x, w, h in variants_on(p, "Option") if ok and x is po[0].res), None)
        if not po and len(key) == 1 and key[0].args[1] is T("param", "item"):
            # nothing is kept under that key
            hit = next((w for x, w, h in variants_on(p, "Option") if w == "None" and h and x.op == "call" and re.search(r"HashMap(<[^>]*>)?::(get_mut|remove)$", x.a[0]) and x.has(key[0].res)), None)
            ok = hit == "None"
        k.add(hit)
        if hit == "Some":
            cx.ob("cached-node-reused-once", f["p"], ok and not mk and p.ret is T("vf", po[0].res, "Some", "0"), desc(p))
        else:
            cx.ob("missing-node-rendered-once", f["p"], ok and hit == "None" and len(mk) == 1 and mk[0].args[1] is T("param", "item") and p.ret is mk[0].res, desc(p))
    cx.ob("both-reuse-and-render-possible", f["p"], k == {"Some", "None"}, str(k))


CSS = "vertigo::css::"


def concat_parts(t):
    """string pieces of a concatenation / format term, outermost level"""
    if t.op == "call" and t.a[0].endswith("concat"):
        a = next((x for x in t.a if isinstance(x, T) and x.op == "agg"), None)
        return list(a.a[3:]) if a is not None else []
    if t.op == "fmt":
        return [x for x in t.a]
    return [t]


@check("D10")
def d10(cx):
    cr = cx.crate()
    f = cx.fn(CSS + "css_manager::CssManager::get_class_name")
    TABLE = {"CssStatic": "value", "CssDynamic": "value"}
    seen = set()
    for p in cx.run(f, [r"collections::HashMap.*::(insert|remove|clear|get|contains_key|entry)$", "CssManagerInner::insert_css$", "::push$", "get_selector$"],
                    opaque=opq("CssManagerInner::insert_css$|get_selector$"), branches=anyb):
        if p.end != "ret":
            continue
        cx.ob("no-css-group-skipped", f["p"], finished(p, lambda d: has_field(d, "groups")), desc(p))
        vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some" and has_field(e.args[0], "groups")]
        ks = [v for x, v, h in variants_on(p, "CssGroup") if h == "="]
        for e in vis[:1]:
            it = T("item", e.args[0].a[0].a[0])
            k = ks[0] if ks else None
            if k not in TABLE or len(ks) != 1:
                continue
            seen.add(k)
            key = T("vf", it, k, "value")
            get = [x for x in calls(p, "HashMap.*::(get|contains_key)$") if x.args[1].has(key)]
            ins = calls(p, "HashMap.*::insert$")
            mk = calls(p, "CssManagerInner::insert_css$")
            sel = calls(p, "get_selector$")
            pu = calls(p, "::push$")
            hit = None
            for b in brs(p):
                if get and b.args[0].has(get[0].res):
                    hit = b.args[1] in ("Some", 1)
            ok = len(get) >= 1 and hit is not None and len(sel) == 1 and len(pu) == 1 and pu[0].args[1].has(sel[0].res)
            if hit:
                ok = ok and not ins and not mk and sel[0].args[0].has(get[0].res)
                cx.ob("known-css-reuses-its-class", f["p"], ok, desc(p))
            else:
                ok = ok and len(mk) == 1 and mk[0].args[1].has(key) and len(ins) == 1 and ins[0].args[0] is get[0].args[0] and ins[0].args[1].has(key) and ins[0].args[2] is mk[0].res and sel[0].args[0].has(mk[0].res)
                cx.ob("new-css-inserted-once-and-remembered", f["p"], ok, desc(p))
        cx.ob("class-list-joined-from-all-groups", f["p"], p.ret.op == "call" and p.ret.a[0].endswith("join") or "join" in show(p.ret), show(p.ret))
    cx.ob("both-css-kinds-handled", f["p"], seen == {"CssStatic", "CssDynamic"}, str(seen))
    # every generated rule reaches the document, the class's own rule before the conditional ones
    f = cx.fn(CSS + "css_manager::CssManagerInner::insert_css")
    tf = cx.fn(CSS + "transform_css::transform_css")
    n = 0
    MOVES = r"Vec::(pop|insert|remove|swap_remove|drain|retain|truncate|dedup\w*)$|::(rotate_right|rotate_left|reverse|sort\w*|swap)$"
    own_last = own_first = True
    for p in cx.run(tf, ["::push$", "::insert$", "next_id$", "transform_css_(media_query|selector_value|animation_value)$"], branches=anyb,
                    opaque=opq("transform_css_(media|selector|animation)|next_id$|splits::|find_brackets")):
        if p.end != "ret":
            continue
        n += 1
        nid = calls(p, "next_id$")
        cx.ob("one-class-id-per-css", tf["p"], len(nid) == 1 and p.ret.op == "agg" and p.ret.a[3] is nid[0].res, desc(p) + show(p.ret))
        docs = p.ret.a[4] if p.ret.op == "agg" and len(p.ret.a) > 4 else None
        pu = [e for e in calls(p, "::(push|insert)$") if e.args[0] is docs]
        own = [e for e in pu if e.args[-1].op == "agg" and nid and is_class_selector(e.args[-1].a[3], nid[0].res)]
        cx.ob("class-rule-emitted-once", tf["p"], len(own) == 1, desc(p))
        if len(own) == 1:
            first = own[0].name.endswith("insert") and ev(own[0].args[1], {}) == 0
            med = calls(p, "transform_css_media_query$")
            i = p.trace.index(own[0])
            others = [p.trace.index(e) for e in pu if e is not own[0]] + [p.trace.index(e) for e in med]
            if first:
                own_last = False
            else:
                own_last = own_last and all(j < i for j in others)
                own_first = own_first and all(j > i for j in others)
        # every row of the css goes somewhere
        cx.ob("no-css-row-skipped", tf["p"], finished(p), desc(p))
        for b in brs(p):
            if b.args[0].op == "discr" and b.args[0].a[0].op == "next" and b.args[1] == "Some":
                it = T("item", b.args[0].a[0].a[0])
                used = [e for e in calls(p, "::push$|transform_css_media_query$|transform_css_selector_value$") if any(a.has(it) for a in e.args if isinstance(a, T))]
                cx.ob("css-row-used", tf["p"], bool(used), desc(p))
        for e in calls(p, "transform_css_(media_query|selector_value)$"):
            cx.ob("nested-rules-use-this-class", tf["p"], nid and is_class_selector(e.args[1], nid[0].res), show(e.args[1]))
        for e in calls(p, "transform_css_selector_value$"):
            some = next((v for x, v, h in variants_on(p, "Option") if x is e.res), None)
            kept = [x for x in pu if e.res in x.args[-1].subs()]
            cx.ob("nested-rule-kept", tf["p"], bool(kept) == (some == "Some"), desc(p))
        for e in calls(p, "transform_css_animation_value$"):
            some = next((v for x, v, h in variants_on(p, "Option") if x is T("f", e.res, "1")), None)
            kept = [x for x in pu if T("f", e.res, "1") in x.args[-1].subs()]
            cx.ob("keyframes-kept", tf["p"], bool(kept) == (some == "Some"), desc(p))
    cx.floor("css transformations", n, 5)
    n = 0
    for p in cx.run(f, ["dyn-call", "transform_css$", MOVES], opaque=opq("transform_css$"), branches=anyb):
        if p.end != "ret":
            continue
        t = calls(p, "transform_css$")
        d = [e for e in p.trace if e.kind == "dyn"]
        ok = len(t) == 1 and t[0].args[0].has(T("param", "css")) and p.ret is T("f", t[0].res, "0")
        cx.ob("class-id-of-the-inserted-css", f["p"], ok, desc(p))
        vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
        n += len(d)
        cx.ob("every-rule-inserted", f["p"], len(d) == len(vis) and finished(p) and all(e.args[1].has(t[0].res) and has_field(e.args[0], "insert_css") and e.args[1].op == "f" and e.args[1].a[1] == "0" and e.args[2].a[1] == "1" for e in d), desc(p))
        L_ = T("f", t[0].res, "1") if t else T("none")
        rot = [e for e in calls(p, "::rotate_right$") if ev(e.args[1], {}) == 1]
        mv = calls(p, MOVES)
        if [e.name.rsplit("::", 1)[-1] for e in mv] == ["pop", "insert"] and mv[1].args[1:] == (T("c", 0), T("vf", mv[0].res, "Some", "0")) and mv[0].args[0] is mv[1].args[0] is L_:
            rot, mv = mv[:1], mv[:1]
        elif [e.name.rsplit("::", 1)[-1] for e in mv] == ["pop"] and any(x is mv[0].res and w == "None" for x, w, h in variants_on(p, "Option")):
            rot = mv
        cx.ob("class-rule-inserted-before-its-conditional-rules", f["p"], own_last and bool(rot) and len(mv) == len(rot) == 1 or own_first and not mv or not own_last and not mv, desc(p))
    cx.floor("css insertions", n, 1)
    css_builders(cx)
    # ids
    g = cx.fn(CSS + "next_id::NextId::get_next_id")
    for p in cx.run(g, ["nothing"], stores=lambda a, v: True):
        st = [e for e in p.trace if e.kind == "store"]
        ok = len(st) == 1 and ev(st[0].args[1], {st[0].args[0]: 5}) == 6 and (p.ret is st[0].args[1] or ev(p.ret, {st[0].args[0]: 5}) in (5, 6))
        cx.ob("class-ids-are-fresh", g["p"], ok, desc(p))
    # keyframes get their own id, used both as the animation name and in the rule
    g = cx.fn(CSS + "transform_css::transform_css_animation_value")
    for p in cx.run(g, ["next_id$", "find_brackets$"], opaque=opq("next_id$|find_brackets$"), branches=anyb):
        nid = calls(p, "next_id$")
        rule = p.ret.a[4] if p.ret.op == "agg" and len(p.ret.a) > 4 else None
        if agg_of(rule, "Option", "Some") if rule is not None else False:
            ok = len(nid) == 1 and p.ret.a[3].has(nid[0].res) and rule.a[3].a[3].has(nid[0].res) and "@keyframes" in show(rule.a[3].a[3])
            cx.ob("keyframes-named-like-the-animation", g["p"], ok, show(p.ret))
    # the document's stylesheet is fed by the driver
    drv = next((cr.inst(x) for x in ("vertigo::driver_module::driver::Driver::new", "vertigo::driver_module::driver::DriverInner::new") if cr.inst(x)), None)
    cx.need(drv, "driver constructor")
    k = 0
    for i in closure_tree(cr, drv):
        inst = cr.insts[i]
        if any((t["f"].get("p") or "").endswith("DriverDom::insert_css") for _, t in cr.calls(inst)):
            for p in cx.run(inst, ["DriverDom::insert_css$"], opaque=opq("DriverDom::")):
                e = calls(p, "insert_css$")
                k += 1
                ps_ = [x[1] if len(x) > 1 else None for x in inst["locals"][2:4]]
                cx.ob("rule-forwarded-to-the-document", inst["p"], len(e) == 1 and [a.a[0] for a in e[0].args[1:3] if a.op == "param"] == ps_, desc(p))
    cx.floor("css forwarders", k, 1)


def css_builders(cx):
    """what was put into a Css value is in it, in the order it was put in"""
    C = "vertigo::css::css_structs::Css::"
    V, N, SF = T("param", "value"), T("param", "new_css"), T("param", "self")
    n = 0
    for m, variant in (("str", "CssStatic"), ("string", "CssDynamic"), ("push_str", "CssStatic"), ("push_string", "CssDynamic"), ("extend", None)):
        f = cx.fn(C + m)
        for p in cx.run(f, [r"::(push|insert|extend|append|extend_from_slice)$", DESTR, SHUF], branches=anyb):
            n += 1
            ok = p.end == "ret" and not destroyed(p, lambda x: True)
            if m in ("str", "string"):
                g = p.ret.a[3] if ok and agg_of(p.ret, "::Css") else T("none")
            else:
                g = T("f", SF, "groups")
                ok = ok and (m == "push_string" or p.ret is SF)
            got = contents(p, g)
            if m == "extend":
                src = T("f", N, "groups")
                vis = [1 for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
                ok = ok and (got == [("all", src)] or got == [("elem", T("item", src))] * len(vis) and finished(p))
            else:
                ok = ok and len(got) == 1 and got[0][0] == "elem" and agg_of(got[0][1], "CssGroup", variant) and got[0][1].a[3] is V
            cx.ob("css-keeps-what-it-was-given", f["p"], ok and not calls(p, "::insert$"), desc(p))
    cx.floor("css builders", n, 5)


def is_class_selector(t, idt):
    s = show(t)
    return t.has(idt) and "'.'" in s


@check("D11")
def d11(cx):
    S = "vertigo::driver_module::dom_suspense::"
    # who is told: every layer whose parent is known, exactly when its state changed
    f = cx.fn(S + "dom_suspense_mod::DomSuspenseState::refresh_subscribers")
    n = 0
    for p in cx.run(f, ["dyn-call"], branches=anyb, stores=lambda a, v: has_field(a, "last_show_loading")):
        if p.end != "ret":
            continue
        cx.ob("every-layer-examined", f["p"], finished(p), desc(p))
        d = [e for e in p.trace if e.kind == "dyn"]
        st = [e for e in p.trace if e.kind == "store"]
        same = None
        for e in brs(p):
            t, neg = e.args[0], 0
            while t.op == "not":
                t, neg = t.a[0], neg + 1
            if t.op == "bin" and t.a[0] == "Eq" and has_field(t, "last_show_loading"):
                same = (e.args[1] == 1) ^ (neg % 2 == 1)
                now = next((x for x in (t.a[1], t.a[2]) if not has_field(x, "last_show_loading")), None)
        if same is False:
            n += 1
            ok = len(d) == 1 and has_field(d[0].args[0], "callback") and d[0].args[1] is now and len(st) == 1 and st[0].args[1] is now
            cx.ob("changed-layer-told-and-remembered", f["p"], ok, desc(p))
            ok = now is not None and now.op == "call" and "contains" in now.a[0] and has_field(now, "suspense") and has_field(now, "dom_connection") or now is not None and has_field(now, "suspense")
            up = {x for x in now.subs() if x.op in ("call", "index") and has_field(x, "dom_connection") and not has_field(x, "suspense")} if ok else set()
            ok = ok and len(up) == 1 and all(any(y.op == "item" and has_field(y, "layer_callback") for y in x.subs()) for x in up) and "suspense" in fields(now.a[2])[1]
            cx.ob("loading-means-a-suspense-below", f["p"], ok, show(now))
        else:
            cx.ob("unchanged-layer-not-told", f["p"], not d and not st, desc(p))
    cx.floor("layer notifications", n, 1)
    f = cx.fn(S + "dom_suspense_mod::DomSuspenseState::refresh_paths")
    for p in cx.run(f, ["NodePaths::refresh_paths$", "refresh_subscribers$"], opaque=opq("NodePaths::refresh_paths$|refresh_subscribers$")):
        np_, rs = calls(p, "NodePaths::refresh_paths$"), calls(p, "refresh_subscribers$")
        ok = len(rs) == 1 and any(has_field(e.args[0], "suspense") and has_field(e.args[1], "dom_connection") and p.trace.index(e) < p.trace.index(rs[0]) for e in np_)
        cx.ob("paths-recomputed-before-telling", f["p"], ok, desc(p))
    # each structural change recomputes
    st_ = "dom_suspense_mod::DomSuspenseState::"
    for nm, need in (("set_node_suspense", "NodePaths::insert$"), ("set_parent", "DomConnection::set_parent$"), ("set_layer_callback", None)):
        f = cx.fn(S + st_ + nm)
        for p in cx.run(f, ["refresh_paths$", "NodePaths::insert$", "DomConnection::", "BTreeMap.*::insert$", "dyn-call"], opaque=opq("refresh_paths$|NodePaths::|DomConnection::"), branches=anyb):
            if p.end != "ret":
                continue
            rp = calls(p, "DomSuspenseState::refresh_paths$")
            cx.ob("change-recomputes-layers:" + nm, f["p"], len(rp) == 1, desc(p))
            if need:
                nd = calls(p, need)
                ok = len(nd) == 1 and rp and p.trace.index(nd[0]) < p.trace.index(rp[0])
                if nm == "set_parent":
                    ok = ok and nd[0].args[1] is T("param", "node_id") and nd[0].args[2] is T("param", "parent_id")
                cx.ob("recorded-before-recomputing:" + nm, f["p"], ok, desc(p))
            else:
                ins = calls(p, "BTreeMap.*::insert$")
                d = [e for e in p.trace if e.kind == "dyn"]
                ok = len(ins) == 1 and has_field(ins[0].args[0], "layer_callback") and ins[0].args[1] is T("param", "node_id") and ins[0].args[2].has(T("param", "callback"))
                cx.ob("layer-callback-stored-by-node", f["p"], ok, desc(p))
                now = d[0].args[1] if len(d) == 1 else None
                ok = now is not None and d[0].args[0] is T("param", "callback") and ins[0].args[2].has(now) if ins else False
                cx.ob("layer-told-its-initial-state", f["p"], ok, desc(p))
    for nm in ("remove", "remove_layer_callback"):
        f = cx.fn(S + st_ + nm)
        for p in cx.run(f, ["refresh_paths$", "NodePaths::remove$", "DomConnection::remove$", "BTreeMap.*::(remove|clear)$"], opaque=opq("refresh_paths$|NodePaths::|DomConnection::"), branches=anyb):
            if p.end != "ret":
                continue
            np_ = calls(p, "NodePaths::remove$")
            rp = calls(p, "DomSuspenseState::refresh_paths$")
            I = T("param", "node_id")
            cx.ob("removed-node-leaves-the-paths:" + nm, f["p"], bool(np_) and all(e.args[1] is I for e in np_), desc(p))
            cx.ob("removal-recomputes-layers:" + nm, f["p"], bool(rp) or not any(consistent(p, {y.res: int(y is x) for y in np_}) for x in np_), desc(p))
            if nm == "remove":
                dc = calls(p, "DomConnection::remove$")
                cx.ob("removed-node-loses-its-parent", f["p"], len(dc) == 1 and dc[0].args[1] is I, desc(p))
                cx.ob("both-path-sets-updated", f["p"], {("suspense" if has_field(e.args[0], "suspense") else "layer") for e in np_} == {"suspense", "layer"}, desc(p))
            else:
                r = calls(p, "BTreeMap.*::(remove|clear)$")
                cx.ob("layer-callback-removed-by-node", f["p"], len(r) == 1 and r[0].name.endswith("remove") and has_field(r[0].args[0], "layer_callback") and r[0].args[1] is I, desc(p))
    # handle of the layer callback
    f = cx.fn(S + "dom_suspense_mod::DomSuspense::set_layer_callback")
    for p in cx.run(f, ["DomSuspenseState::set_layer_callback$"], opaque=opq("DomSuspenseState::")):
        e = calls(p, "set_layer_callback$")
        cl = clos(p.ret)
        ok = len(e) == 1 and e[0].args[1] is T("param", "node_id") and agg_of(p.ret, "DropResource", "Fun") and bool(cl)
        for c in cl[:1] if ok else []:
            for q in closure_runs(cx, c, ["DomSuspenseState::"], opaque=opq("DomSuspenseState::")):
                r = calls(q, "DomSuspenseState::")
                ok = ok and len(r) == 1 and r[0].name.endswith("remove_layer_callback") and r[0].args[1] is T("param", "node_id")
        cx.ob("layer-callback-removed-with-its-handle", f["p"], ok, desc(p) + show(p.ret))
    # ancestors
    f = cx.fn(S + "node_paths::calculate_path")
    n = 0
    for p in cx.run(f, ["::insert$", "get_parent$"], opaque=opq("get_parent$"), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        gp, ins = calls(p, "get_parent$"), calls(p, "::insert$")
        cx.ob("path-starts-at-the-node", f["p"], bool(ins) and ins[0].args[1] is T("param", "suspense_id") and p.ret is ins[0].args[0], desc(p))
        last_none = [v for x, v, h in variants_on(p, "Option") if gp and x is gp[-1].res]
        cx.ob("path-goes-up-to-the-root", f["p"], bool(last_none) and last_none[-1] == "None", desc(p))
        for e in gp:
            if any(x is e.res and v == "Some" for x, v, h in variants_on(p, "Option")):
                cx.ob("every-ancestor-in-the-path", f["p"], any(i.args[1].has(T("vf", e.res, "Some", "0")) for i in ins), desc(p))
    cx.floor("path walks", n, 1)
    f = cx.fn(S + "node_paths::NodePaths::refresh_paths")
    n = 0
    for p in cx.run(f, ["calculate_path$", "calculate_all_nodes$"], opaque=opq("calculate_(path|all_nodes)$"), branches=anyb, stores=lambda a, v: True):
        if p.end != "ret":
            continue
        cx.ob("every-path-recomputed", f["p"], finished(p), desc(p))
        ca = calls(p, "calculate_all_nodes$")
        st = [e for e in p.trace if e.kind == "store" and ends_field(e.args[0], "all_nodes")]
        cx.ob("node-set-recomputed-last", f["p"], len(ca) == 1 and len(st) == 1 and st[0].args[1] is ca[0].res and has_field(ca[0].args[0], "paths"), desc(p))
        for e in calls(p, "calculate_path$"):
            n += 1
            w = [x for x in p.trace if x.kind == "store" and x.args[1] is e.res]
            cx.ob("recomputed-path-stored", f["p"], len(w) == 1 and p.trace.index(w[0]) < p.trace.index(ca[0]) if ca else False, desc(p))
    cx.floor("paths recomputed", n, 1)
    for nm in ("insert", "remove"):
        f = cx.fn(S + "node_paths::NodePaths::" + nm)
        for p in cx.run(f, ["calculate_path$", "calculate_all_nodes$", "BTreeMap.*::(insert|remove)$"], opaque=opq("calculate_(path|all_nodes)$"), branches=anyb, stores=lambda a, v: True):
            if p.end != "ret":
                continue
            m = calls(p, "BTreeMap.*::(insert|remove)$")
            st = [e for e in p.trace if e.kind == "store" and ends_field(e.args[0], "all_nodes")]
            ok = len(m) == 1 and m[0].name.endswith(nm) and m[0].args[1] is T("param", "node_id") and has_field(m[0].args[0], "paths")
            if nm == "insert":
                cx.ob("node-path-inserted", f["p"], ok and len(st) == 1 and m[0].args[2].op == "call" and m[0].args[2].a[0].endswith("calculate_path"), desc(p))
            else:
                gone = next((v for x, v, h in variants_on(p, "Option") if ok and x is m[0].res), None)
                was = next((e.args[1] for e in brs(p) if ok and e.args[0].op == "call" and e.args[0].a[0].endswith("is_some")), None)
                cx.ob("node-path-removed", f["p"], ok and (bool(st) or gone == "None" or was == 0), desc(p))
    f = cx.fn(S + "node_paths::calculate_all_nodes")
    for p in cx.run(f, ["::insert$", "::extend$"], branches=anyb):
        if p.end != "ret":
            continue
        cx.ob("no-path-node-lost", f["p"], finished(p), desc(p))
        inner = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
        ins = calls(p, "::(insert|extend)$")
        deep = [e for e in inner if any(x.op == "item" for x in e.args[0].a[0].a[0].subs())]
        cx.ob("every-path-node-collected", f["p"], (len(ins) >= len(deep)) and all(e.args[0] is p.ret for e in ins), desc(p))
    # the class merge reacts through a weak handle and releases the previous layer
    f = cx.fn(CM + "DomElementClassMerge::set_suspense_attr")
    n = 0
    for p in cx.run(f, ["DomSuspense::set_layer_callback$"], opaque=opq("DomSuspense::"), branches=anyb, stores=lambda a, v: has_field(a, "_suspense_drop")):
        if p.end != "ret":
            continue
        st = [e for e in p.trace if e.kind == "store"]
        sl = calls(p, "set_layer_callback$")
        given = next((v for x, v, h in variants_on(p, "Option") if x is T("param", "callback")), None)
        cx.ob("previous-layer-released-first", f["p"], bool(st) and agg_of(st[0].args[1], "Option", "None") and all(p.trace.index(st[0]) < p.trace.index(e) for e in sl), desc(p))
        if given == "None":
            cx.ob("no-layer-without-callback", f["p"], not sl, desc(p))
            continue
        n += 1
        ok = len(sl) == 1 and ends_field(sl[0].args[1], "id_dom") and len(st) == 2 and agg_of(st[1].args[1], "Option", "Some") and st[1].args[1].a[3] is sl[0].res
        cx.ob("layer-handle-kept", f["p"], ok, desc(p))
        for c in clos(sl[0].args[2])[:1] if sl else []:
            par = param_of(cx, c)
            for q in closure_runs(cx, c, ["dyn-call", "refresh_dom$"], opaque=opq("refresh_dom$"), branches=anyb, stores=lambda a, v: has_field(a, "suspense_css")):
                alive = next((e.args[1] for e in brs(q) if e.args[0].op == "discr" and e.args[0].a[0].op == "weakup"), None)
                d = [e for e in q.trace if e.kind == "dyn"]
                w = [e for e in q.trace if e.kind == "store"]
                rf = calls(q, "refresh_dom$")
                cx.ob("layer-callback-does-not-own-the-element", f["p"], alive is not None, desc(q))
                if alive == "Some":
                    ok = len(d) == 1 and d[0].args[1] is par and len(w) == 1 and w[0].args[1].has(d[0].res) and len(rf) == 1 and q.trace.index(w[0]) < q.trace.index(rf[0])
                    cx.ob("layer-class-updated", f["p"], ok, desc(q))
    cx.floor("layers set", n, 1)
    nothing_leaked(cx, DOM_MODULES, 60)
    # driver wiring
    for m, callee in (("remove_node", "remove"), ("remove_text", "remove"), ("remove_comment", "remove"), ("insert_before", "set_parent")):
        f = cx.fn(DD + m)
        for p in cx.run(f, ["DomSuspense::"], opaque=opq("DomSuspense::"), branches=anyb):
            if p.end != "ret":
                continue
            e = calls(p, "DomSuspense::" + callee + "$")
            a = [T("param", "id")] if callee == "remove" else [T("param", "child"), T("param", "parent")]
            cx.ob("tree-change-reported:" + m, f["p"], len(e) == 1 and list(e[0].args[1:]) == a, desc(p))
    f = cx.fn(DD + "create_node")
    for p in cx.run(f, ["DomSuspense::"], opaque=opq("DomSuspense::"), branches=anyb):
        isn = next((e.args[1] for e in brs(p) if "vertigo-suspense" in show(e.args[0])), None)
        e = calls(p, "set_node_suspense$")
        cx.ob("suspense-element-recognised", f["p"], isn is not None and len(e) == (1 if isn == 1 else 0) and all(x.args[1] is T("param", "id") for x in e), desc(p))


def command_writer(cx):
    """{variant: (kind, {key: field})} of the JSON a DOM command is turned into"""
    f = cx.fn("vertigo::driver_module::dom_command::DriverDomCommand::into_string")
    S, out = T("param", "self"), {}
    for p in cx.run(f, [r"Map.*::(insert|extend)$", DESTR], branches=anyb):
        v = next((w for x, w, h in variants_on(p, "DriverDomCommand") if x is S and h == "="), None)
        if not cx.ob("command-has-a-json-form", f["p"], p.end == "ret" and agg_of(p.ret, "JsJson", "Object") and v is not None and not calls(p, DESTR), desc(p)):
            continue
        kind, keys = None, {}
        for e in calls(p, r"Map.*::insert$"):
            if e.args[0] is not p.ret.a[3]:
                continue
            k = e.args[1].a[0] if e.args[1].op == "c" else None
            val = e.args[2]
            if k == "type":
                kind = next((x.a[0] for x in val.subs() if x.op == "c" and isinstance(x.a[0], str)), None)
                continue
            src = {x.a[2] for x in val.faithful() if x.op == "vf" and x.a[0] is S}
            opt = next((w for x, w, h in variants_on(p, "Option") if x.op == "vf" and x.a[0] is S), None)
            if opt == "None" and agg_of(val, "JsJson", "Null") | agg_of(val, "Option", "None"):
                src = {next(x.a[2] for x, w, h in variants_on(p, "Option") if x.op == "vf" and x.a[0] is S)}
            cx.ob("command-field-written", f"{f['p']} ({v})", k is not None and k not in keys and len(src) == 1, desc(p))
            keys[k] = next(iter(src), None)
        old = out.setdefault(v, (kind, keys))
        cx.ob("command-written-one-way", f"{f['p']} ({v})", old == (kind, keys) and kind is not None, f"{old} / {(kind, keys)}")
    return f["p"], out


@check("D12", ("vertigo", "vertigo_cli"))
def d12(cx):
    w, wr = command_writer(cx)
    want = set(cx.crate().variants("vertigo::driver_module::dom_command::DriverDomCommand"))
    cx.ob("every-command-has-a-json-form", w, set(wr) == want, str(sorted(want - set(wr))))
    cx.ob("each-command-has-its-own-kind", w, len({k for k, _ in wr.values()}) == len(wr), str(wr))
    # the server's reader
    f = cx.fn("<vertigo_cli::serve::html::dom_command::DomCommand as vertigo::JsJsonDeserialize>::from_json", "vertigo_cli")
    rd = {}
    for p in cx.run(f, ["get_property$"], unit="vertigo_cli", branches=anyb):
        if p.end != "ret" or not agg_of(p.ret, "Result", "Ok"):
            continue
        got = lambda t: t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].endswith("::get_property") and t.a[0].a[2] is T("param", "json") and t.a[0].a[-1].op == "c"
        kind = None
        for b in brs(p):
            t = b.args[0]
            if t.op == "bin" and t.a[0] == "Eq" and b.args[1] == 1:
                a, c_ = t.a[1:] if got(t.a[1]) else t.a[:0:-1]
                if got(a) and a.a[0].a[-1].a[0] == "type" and c_.op == "c":
                    kind = c_.a[0]
        cmd = p.ret.a[3]
        af = afields(cmd) if cmd.op == "agg" else {}
        keys = {k: (v.a[0].a[-1].a[0] if got(v) else None) for k, v in af.items()}
        cx.ob("server-reads-the-field", f"{f['p']} ({cmd.a[1] if cmd.op == 'agg' else '?'})", kind is not None and None not in keys.values(), desc(p))
        rd[kind] = (cmd.a[1] if cmd.op == "agg" else None, keys)
    for v, (kind, keys) in sorted(wr.items()):
        r = rd.get(kind)
        cx.ob("server-knows-the-command", f"{f['p']} ({v})", r is not None and r[0] == v, f"{kind} -> {r}")
        if r:
            cx.ob("server-reads-what-was-written", f"{f['p']} ({v})", {fld: k for k, fld in keys.items()} == r[1], f"written {keys}, read {r[1]}")
    cx.floor("kinds read by the server", len(rd), 13)
