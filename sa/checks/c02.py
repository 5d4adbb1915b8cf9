"""C02: an archive round trip restores every datum of the object."""
from .. import arch
from ..flow import flow
from ..interp import TooBig, V, show_path
from ..model import short, walk
from ..util import NS, base, tag

EXPLAIN = """Every serialization function (instantiated for an input and an
output archive) is interpreted abstractly on all paths. The sequence of data
written is compared with the sequence read, name by name and type by type.
Each data member that some member function other than a constructor, copy
operation or serialization function reads must be read from the archive or
assigned while loading (directly or in a function called by the loader), data
read while loading must have been loaded before, base classes that are
serialized must be part of the archive, state that a public setter changes
must be restored from data of the archive computed from the same state, and
classes archived through pointers to a base must be registered."""

SPECIAL = ("serialize", "save", "load", "operator=")


def key_of(f):
    return (f["cls"], f.get("cta"))


def reads_of(M):
    """(class, field) -> functions that read it, special members excluded."""
    out = {}
    whole = {}
    for f in M.funcs:
        if f.get("body") is None:
            continue
        n = base(f["q"])
        special = f.get("ctor") or n.startswith("~") or n in SPECIAL or \
            any(arch.is_archive(p) for p in f["ps"])
        lhs = set()
        for x in walk(f["body"]):
            t = None
            if x["k"] == "bin" and x.get("op") == "=":
                t = x.get("x")
            elif x["k"] == "call" and x.get("op") == "=":
                t = x.get("o") or (x.get("a") or [None])[0]
            elif x["k"] == "call" and base(x.get("f") or "") in (
                    "resize", "clear", "setZero", "reserve", "assign",
                    "conservativeResize"):
                t = x.get("o")
            while t is not None and t.get("k") == "call" and \
                    base(t.get("f") or "") == "noalias":
                t = t.get("o")
            if t is not None and t.get("k") == "mem":
                lhs.add(id(t))
                whole.setdefault((t["c"], t["n"]), set()).add(
                    (f["q"], bool(f.get("ctor"))))
        if special:
            continue
        for x in walk(f["body"]):
            if x["k"] == "mem" and id(x) not in lhs:
                out.setdefault((x["c"], x["n"]), set()).add(f["q"])
    return out, whole


def serializers(M):
    """(class, class template arguments) -> {archive direction: function}"""
    out = {}
    for f in M.funcs:
        if base(f["q"]) not in arch.SER or not f.get("cls") or \
                not f["cls"].startswith(NS) or f.get("body") is None:
            continue
        ta = f.get("ta") or ""
        if "archive" not in ta:
            continue
        d = "in" if "iarchive" in ta else "out"
        out.setdefault(key_of(f), {}).setdefault(d, {})[
            ta.split(",")[0]] = f
    return out


def run(R, M):
    R.rule("sequence: the data read equal the data written, in order")
    R.rule("coverage: data members read by operations are read from the "
           "archive or assigned by the loader")
    R.rule("order: a loader uses only data already loaded")
    R.rule("bases: serialized base classes are part of the archive")
    R.rule("state: what setters change is restored from the archive")
    R.rule("registration: classes archived by base pointer are exported")
    R.assume("each archive format reads back exactly what it wrote")
    reads, whole = reads_of(M)
    given = given_fields(M)
    ser = serializers(M)
    sercls = {k[0] for k in ser}
    for (K, cta), fs in sorted(ser.items(), key=str):
        name = short(K) + ("<%s>" % cta if cta else "")
        ins, outs = fs.get("in", {}), fs.get("out", {})
        if not ins or not outs:
            R.bad("%s:direction" % name,
                  "%s can be written but not read, or the reverse" % name,
                  (list(ins.values()) + list(outs.values()))[0]["file"], 1)
            continue
        fi = ins[sorted(ins)[0]]
        fo = outs[sorted(outs)[0]]
        R.analysed(fi)
        R.analysed(fo)
        try:
            ci, ri = arch.run(M, fi, K, True)
            co, ro = arch.run(M, fo, K, False)
        except TooBig:
            R.unclear("%s: too many paths" % name)
            continue
        ri = [r for r in ri if r[0] == "ret"]
        ro = [r for r in ro if r[0] == "ret"]
        sequence(R, M, name, K, fi, fo, ri, ro)
        coverage(R, M, name, K, cta, fi, ci, ri, reads, whole, given)
        order(R, M, name, K, fi, ci, ri, sercls)
        bases(R, M, name, K, fi, ri, sercls)
        if fi["q"] != fo["q"]:
            co.rs = ro
            state(R, M, name, K, fi, fo, ci, co, ri)
            through(R, M, name, K, fi, fo, ci, co, ri, ro)
    free_functions(R, M, reads, given)
    registration(R, M, sercls)


def seqs(rs):
    return {tuple(n for n, p in r[1].cl.get("ev", ())) for r in rs}


def sequence(R, M, name, K, fi, fo, ri, ro):
    si, so = seqs(ri), seqs(ro)
    extra = so - si
    if fi["q"] == fo["q"] and si != so:
        extra = so ^ si
    if not extra:
        R.ok("%s: %d data written and read in the same order" %
             (name, max(map(len, so or [()]))))
        return
    w = sorted(extra, key=len)[-1]
    R.bad("%s:sequence" % name,
          "%s writes the data %s, which no path of the reader reads in this "
          "order" % (name, list(w)), fo["file"], fo["line"],
          ["reader: %s" % (list(s),) for s in sorted(si, key=str)])


def loaded(r):
    return r[1].cl.get("w", frozenset())


def given_fields(M):
    """(class, field) set by something else than default initialisation."""
    out = set()
    for f in M.funcs:
        for x in f.get("inits") or ():
            if not x.get("m") or not x.get("w"):
                continue
            e = x.get("x") or {}
            while e.get("k") == "init" and len(e.get("a") or []) == 1:
                e = e["a"][0]
            if e.get("k") == "ctor" and not e.get("a") or \
                    e.get("k") in ("zero", "nullptr"):
                continue
            out.add((f["cls"], x["m"]))
        for x in walk(f.get("body") or {}):
            t = []
            if x["k"] == "bin" and (x.get("op") or "").endswith("=") and \
                    x["op"] not in ("==", "!=", "<=", ">="):
                t = [x.get("x")]
            elif x["k"] == "call":
                pm = x.get("pm") or []
                t = [a for n, a in enumerate(x.get("a") or [])
                     if n < len(pm) and pm[n] == "m"]
                if x.get("o") and not x.get("cm"):
                    t.append(x["o"])
            elif x["k"] == "un":
                t = [x.get("x")]
            for y in t:
                while y and y.get("k") not in ("mem", "var", "this"):
                    y = y.get("o") or y.get("x") or \
                        (y.get("a") or [None])[0]
                if y and y.get("k") == "mem":
                    out.add((y["c"], y["n"]))
    return out


SCALARS = ("bool", "int", "double", "float", "unsigned", "long", "size_type",
           "value_type", "std::size_t", "size_t")


def coverage(R, M, name, K, cta, fi, ci, ri, reads, whole, given):
    recs = [r for r in M.recs.get(K, []) if r.get("cta") == cta] or \
        [M.rec(K)]
    for f in recs[0]["fields"]:
        n = f["n"]
        if (K, n) not in reads or (K, n) not in given:
            continue
        R.count("data members")
        if f.get("mutable") or f.get("mut"):
            # work space: sized where it is used?
            if f["t"].replace("const ", "") in SCALARS or \
                    f.get("p") in ("double", "bool") and not f.get("r") or \
                    any(not c for g, c in whole.get((K, n), ())):
                R.ok()
                continue
        paths = [[p for p in loaded(r) if len(p) > 1 and p[0] == "this" and p[1] == n]
                 for r in ri]
        full = [any(p == ("this", n) for p in ps) for ps in paths]
        some = [bool(ps) for ps in paths]
        if any(full):
            R.ok("%s::%s restored" % (name, n))
        elif any(some) and any(len(p) > 2 for ps in paths for p in ps):
            R.ok("%s::%s restored element by element" % (name, n))
        else:
            R.bad("%s::%s:lost" % (name, n),
                  "%s::%s is read by %s, but neither read from the archive "
                  "nor assigned while loading" %
                  (name, n, ", ".join(sorted(short(x) for x in
                                             reads[(K, n)])[:3])),
                  fi["file"], fi["line"])


def events(rs):
    out = {}
    for r in rs:
        for n, p in r[1].cl.get("ev", ()):
            out.setdefault(p, n)
    return out


def order(R, M, name, K, fi, ci, ri, sercls):
    """No archived member is used by the loader before it is loaded."""
    arched = {p[1] for p in events(ri) if p[0] == "this" and len(p) == 2}
    for (n, bs), line in sorted(ci.early.items(), key=str):
        c, f = M.field(K, n)
        if f is None:
            continue
        late = n in arched and c == K or \
            c != K and c in sercls and c not in bs and \
            not any(M.isa(b, c) for b in bs)
        R.check(not late, "%s:order:%s" % (name, n),
                "%s uses %s while loading, before it is read from the "
                "archive" % (name, n), fi["file"], line,
                text="%s loads %s before using it" % (name, n))


def bases(R, M, name, K, fi, ri, sercls):
    for b in [x.split("<")[0] for x in M.bases(K)]:
        if b not in sercls:
            continue
        R.check(all(any(M.isa(x, b) for x in r[1].cl.get("base", ()))
                    for r in ri) and ri,
                "%s:base:%s" % (name, short(b)),
                "the data of base class %s are not read from the archive "
                "by %s" % (short(b), name), fi["file"], fi["line"],
                text="%s archives its base %s" % (name, short(b)))


def const_written(M, classes):
    """Names of members assigned in const functions (work space)."""
    out = set()
    for K in classes:
        for f in M.methods(K):
            if not f.get("const"):
                continue
            for x in walk(f.get("body") or {}):
                t = None
                if x["k"] == "bin" and x.get("op") == "=":
                    t = x.get("x")
                elif x["k"] == "call" and x.get("op") == "=":
                    t = x.get("o") or (x.get("a") or [None])[0]
                while t and t.get("k") == "call":
                    t = t.get("o") or (t.get("a") or [None])[0]
                if t and t.get("k") == "mem":
                    out.add(t["n"])
    return out


def state(R, M, name, K, fi, fo, ci, co, ri):
    """Data that public setters change are restored from archived data."""
    fams = [K] + M.ancestors(K)
    work = const_written(M, fams + [NS + "ExplicitConstraintSet"])
    for rs in M.recs.values():
        for f in rs[0]["fields"]:
            if (f.get("mutable") or f.get("mut")) and \
                    not any(f["n"] in [g["n"] for g in M.fields(c)]
                            for c in fams):
                work.add(f["n"])
    want = {}
    for f in M.methods(K):
        if f.get("ctor") or f.get("const") or f.get("static") or \
                f.get("access") != 0 or not f["ps"] or \
                f.get("body") is None or \
                base(f["q"]) in SPECIAL + ("add", "merge", "extract"):
            continue
        try:
            c, rs = flow(M, f, V(("this",), cls=K))
        except TooBig:
            continue
        for t, s, k in c.edges:
            if t[0] == "this" and len(t) > 1 and \
                    (s[0].startswith("arg:") or s[0][0] in "LT") and \
                    last(t) not in work and "stacks_" not in t:
                ff = M.field(K, t[1])[1]
                if ff is not None and len(t) == 2 and \
                        (ff.get("mutable") or ff.get("mut")):
                    continue
                want.setdefault(strip(t), f)
    want = {t: f for t, f in want.items()
            if not any(u != t and u[:len(t)] == t for u in want)}
    got, exact = {}, set()
    for t, s, k in ci.edges:
        got.setdefault(strip(t), set()).add(s)
        if k == "e":
            exact.add((strip(t), s))
    for t, f in sorted(want.items(), key=str):
        c, ff = M.field(K, t[1])
        if c != K and any(M.isa(b, c) for r in ri
                          for b in r[1].cl.get("base", ())):
            continue            # restored by the base class
        src = {s for s in got.get(t, ()) if s[0].startswith("ar:") or
               s[0][0] in "LT" or s[0] == "this" and len(t) == 2}
        R.check(bool(src), "%s:state:%s" % (name, show_path(t)),
                "%s, which %s changes, is not restored from data of the "
                "archive" % (show_path(t), short(f["q"])),
                fi["file"], fi["line"],
                text="%s restored from %s" % (show_path(t), sorted(
                    show_path(s) for s in src)[:2]))


def through(R, M, name, K, fi, fo, ci, co, ri, ro):
    """Data that go through local variables of the loader."""
    wr = {}
    for r in ro:
        for n, p in r[1].cl.get("ev", ()):
            wr.setdefault(n, set()).add(p)
    for p, n in sorted(events(ri).items(), key=str):
        if p[0][0] not in "LT" or p[0] == "this":
            continue
        to = {strip(q) for q in ci.reach(p, "edi") if q[0] == "this"}
        if not R.check(bool(to), "%s:dropped:%s" % (name, n),
                       "the datum %s is read from the archive but changes "
                       "nothing in the object" % n, fi["file"], fi["line"],
                       text="%s flows into the object" % n):
            continue
        near = {strip(q) for q in ci.reach(p, "e") if q[0] == "this"}
        for q in wr.get(n, ()):
            if q[0] == "this":
                src = {strip(q)}
                R.check(any(t[:len(x)] == x[:len(t)] for t in to
                            for x in src),
                        "%s:elsewhere:%s" % (name, n),
                        "the datum %s is written from %s but read into "
                        "something else" % (n, show_path(q)),
                        fi["file"], fi["line"],
                        text="%s restores %s" % (n, show_path(q)))
            elif q[0] != "?" and near:
                src = {strip(x) for x in co.reach_back(q)}
                R.check(any(t[1:2] == x[1:2] for t in near for x in src),
                        "%s:source:%s" % (name, n),
                        "the datum %s restores %s, but is not computed from "
                        "it when it is written" %
                        (n, sorted(show_path(t) for t in near)),
                        fo["file"], fo["line"],
                        text="%s restores %s" % (n, sorted(
                            show_path(t) for t in near)))


def strip(p):
    return tuple(x for x in p if isinstance(x, str) or x[0] != "#")


def last(p):
    xs = [x for x in p if isinstance(x, str)]
    return xs[-1]


def members(M, q):
    r = M.recs.get(q) or []
    out = []
    for x in r:
        for f in x["fields"]:
            if f["n"] not in [g["n"] for g in out]:
                out.append(f)
    return out


def free_functions(R, M, reads, given):
    """serialize functions of value classes that are not members."""
    for f in M.dep_funcs:
        if base(f["q"]) != "serialize" or f.get("cls") or \
                len(f["ps"]) < 2 or not f["ps"][1].get("n"):
            continue
        q = f["ps"][1]["t"].replace("const ", "").rstrip("& ")
        c = q.split("<")[0]
        full = [x for x in M.recs if x == c or x.endswith("::" + c)]
        if len(full) != 1:
            R.unclear("free serialization function of %s" % q)
            continue
        K = full[0]
        R.analysed(f)
        ta = q[len(c) + 1:-1] if "<" in q else None
        recs = [r for r in M.recs[K] if r.get("cta") == ta] or M.recs[K]
        done = arch.dep_members(M, f)
        for x in recs[0]["fields"]:
            n = x["n"]
            if x.get("r") == "void" or "empty_struct" in x["t"]:
                continue
            if (K, n) not in reads and not M.recs[K][0].get("dep"):
                continue
            R.count("data members")
            R.check(n in done, "%s::%s:lost" % (short(q), n),
                    "%s::%s is not part of the archive" % (short(q), n),
                    f["file"], f["line"], text="%s::%s archived" %
                    (short(q), n))


def registration(R, M, sercls):
    """Classes that reach an archive through a pointer to a base."""
    keys = set()
    for f in M.funcs:
        if f["q"] == "boost::serialization::guid":
            keys.add((f.get("ta") or "").strip())
    if not keys:
        R.unclear("no class is registered")
        return
    abstract = set()
    for K in sorted(sercls):
        if not [b for b in M.ancestors(K) if b in sercls]:
            continue
        r = M.rec(K)
        insts = [x for x in keys if x.split("<")[0] == K]
        R.check(bool(insts), "%s:registration" % short(K),
                "%s is archived through pointers to its base class but not "
                "registered for export" % short(K), r["file"], r["line"],
                text="%s registered: %d instance(s)" % (short(K),
                                                         len(insts)))
