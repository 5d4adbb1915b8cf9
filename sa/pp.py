"""Readable rendering of the JSON syntax trees (diagnostics and reports)."""


def ex(e):
    if not e:
        return ""
    k = e.get("k")
    if k == "var":
        return e["n"]
    if k == "mem":
        b = e.get("b")
        if b is None or b["k"] == "this":
            return e["n"]
        return ex(b) + "." + e["n"]
    if k == "this":
        return "this"
    if k == "call":
        a = [ex(x) for x in e.get("a", [])]
        op = e.get("op")
        f = e.get("f", "?").split("::")[-1]
        o = e.get("o")
        if op:
            if op == "()":
                return "%s(%s)" % (ex(o) if o else a[0],
                                   ", ".join(a if o else a[1:]))
            if op == "[]":
                return "%s[%s]" % (ex(o), ", ".join(a))
            if op == "->":
                return ex(o) if o else a[0]
            args = ([ex(o)] if o else []) + a
            if len(args) == 1:
                return op + args[0]
            return "(%s %s %s)" % (args[0], op, ", ".join(args[1:]))
        if o:
            s = ex(o) + "." if o["k"] != "this" else ""
            if e.get("qual"):
                f = "::".join(e["f"].split("::")[-2:])
            return "%s%s(%s)" % (s, f, ", ".join(a))
        if e.get("st"):
            f = "::".join(e["f"].split("::")[-2:])
        if "f" not in e:
            f = ex(e.get("ce"))
        return "%s(%s)" % (f, ", ".join(a))
    if k == "ctor":
        a = e.get("a", [])
        if len(a) == 1 and (e.get("copy") or e.get("conv") or e.get("elid")):
            return ex(a[0])
        return "%s(%s)" % (e["c"].split("::")[-1],
                           ", ".join(ex(x) for x in a))
    if k == "bin":
        return "(%s %s %s)" % (ex(e["x"]), e["op"], ex(e["y"]))
    if k == "un":
        return ex(e["x"]) + e["op"] if e.get("post") else e["op"] + ex(e["x"])
    if k == "cond":
        return "(%s ? %s : %s)" % (ex(e["c"]), ex(e["x"]), ex(e["y"]))
    if k == "assert":
        return "assert(%s)" % ex(e["c"])
    if k == "lit":
        return str(e["v"])
    if k == "enum":
        return e["n"].split("::")[-1]
    if k == "str":
        return '"%s"' % e["v"][:40]
    if k == "nullptr":
        return "nullptr"
    if k == "sub":
        return "%s[%s]" % (ex(e["b"]), ex(e["x"]))
    if k == "cast":
        return "%s_cast<%s>(%s)" % (e["w"], e["t"], ex(e["x"]))
    if k == "defarg":
        return ex(e.get("x"))
    if k == "new":
        return "new %s(%s)" % (e["t"], ex(e.get("x")))
    if k == "throw":
        return "throw " + ex(e.get("x"))
    if k == "init":
        return "{%s}" % ", ".join(ex(x) for x in e.get("a", []))
    if k == "lambda":
        return "[](%s){...}" % ", ".join(p["n"] for p in e["ps"])
    if k == "dep":
        return (ex(e["b"]) + "." if e.get("b") else "") + "~" + e.get("n", "")
    if k == "fn":
        return (ex(e["b"]) + "." if e.get("b") else "") + e["f"]
    if k == "other":
        return "<%s>(%s)" % (e.get("cls"),
                             ", ".join(ex(x) for x in e.get("a", [])))
    return "<%s>" % k


def st(s, ind=0, out=None):
    top = out is None
    if top:
        out = []
    p = "  " * ind
    if not s:
        return out
    k = s["k"]
    ln = "%4s " % s.get("l", "")

    def w(t):
        out.append(ln + p + t)
    if k == "blk":
        for c in s["s"]:
            st(c, ind, out)
    elif k == "expr":
        w(ex(s["x"]))
    elif k == "decl":
        for v in s["d"]:
            w("%s %s = %s" % (v["t"], v["n"], ex(v.get("x"))))
    elif k == "if":
        if s.get("cvd"):
            w("if (%s %s = %s)" % (s["cvd"]["t"], s["cvd"]["n"],
                                   ex(s["cvd"].get("x"))))
        else:
            w("if (%s)" % ex(s["c"]))
        st(s["x"], ind + 1, out)
        if s.get("y"):
            w("else")
            st(s["y"], ind + 1, out)
    elif k == "for":
        i = st(s.get("init"), 0, []) if s.get("init") else []
        w("for (%s; %s; %s)" % ("; ".join(x[5:] for x in i),
                                ex(s.get("c")), ex(s.get("inc"))))
        st(s["s"], ind + 1, out)
    elif k in ("while", "do"):
        w("%s (%s)" % (k, ex(s["c"])))
        st(s["s"], ind + 1, out)
    elif k == "rfor":
        w("for (%s %s : %s)" % (s["v"]["t"], s["v"]["n"], ex(s["r"])))
        st(s["s"], ind + 1, out)
    elif k == "switch":
        w("switch (%s)" % ex(s["c"]))
        st(s["s"], ind + 1, out)
    elif k == "case":
        w("case %s:" % ex(s["v"]))
        st(s["s"], ind + 1, out)
    elif k == "default":
        w("default:")
        st(s["s"], ind + 1, out)
    elif k == "ret":
        w("return " + ex(s.get("x")))
    elif k == "try":
        w("try")
        st(s["s"], ind + 1, out)
        for h in s["h"]:
            w("catch (%s)" % h["t"])
            st(h["s"], ind + 1, out)
    else:
        w(k)
    return out


def fn(f):
    h = "%s:%d %s%s(%s)%s" % (
        f["file"], f["line"], f["q"], "<%s>" % f["ta"] if f.get("ta") else "",
        ", ".join("%s %s" % (p["t"], p["n"]) for p in f["ps"]),
        " const" if f.get("const") else "")
    out = [h]
    for i in f.get("inits", []):
        if i.get("w"):
            out.append("     : %s(%s)" % (i.get("m") or i.get("b") or "deleg",
                                          ex(i.get("x"))))
    out += st(f.get("body"), 1, [])
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    from sa import facts
    for d in facts.load()["decls"]:
        if d["kind"] == "func" and not d.get("dep") and \
                any(a in d["q"] for a in sys.argv[1:]):
            print(fn(d))
            print()
