"""C26: the Python reader returns what was written, as the C++ reader does (C05)

The functions build a stream the way CaliWriter writes it, read it with the package `cr`, and compare with the description
the stream was made from. Runs symbolically (lib/pysym.py) and with plain values (replay)."""

NESTED, ASVALUE, HIDDEN, GLOBAL, AGGR = 256, 1, 128, 512, 2048
TYPES = {"usr": 0, "int": 1, "uint": 2, "string": 3, "addr": 4, "double": 5, "bool": 6, "type": 7, "ptr": 11}


def esc(s):
    r = ""
    for c in s:
        if c == "\\" or c == "," or c == "=":
            r = r + "\\" + c
        elif c == "\n":
            r = r + "\\n"
        else:
            r = r + c
    return r


class Stream:
    def __init__(self):
        self.lines, self.next = [], 12
        self.nodes = {}     # id -> (attribute id, value, parent id)
        self.attrs = {}     # id -> (name, prop, type, meta)
        self.props = {}

    def line(self, l):
        self.lines.append(l + "\n")

    def node(self, attr, data, parent=None, id=None):
        i = id
        if i is None:
            i = self.next
            self.next = self.next + 1
        self.line("__rec=node,id=" + num(i) + ",attr=" + num(attr) + ",data=" + esc(data) + (",parent=" + num(parent) if parent is not None else ""))
        self.nodes[i] = (attr, data, parent)
        return i

    def attribute(self, name, prop, type="string", meta=()):
        p = TYPES[type]
        if p == 11 and 11 not in self.nodes:
            self.node(9, "ptr", None, 11)
            del self.nodes[11]
        for a, v in meta:
            p = self.node(a, v, p)
        if prop is not None:
            p = self.node(10, num(prop), p)
        i = self.node(8, name, p)
        self.attrs[i] = (name, prop or 0, type, meta)
        return i

    def record(self, refs, imms, kind="ctx"):
        l = "__rec=" + kind
        if refs:
            l = l + ",ref"
            for r in refs:
                l = l + "=" + num(r)
        if imms:
            l = l + ",attr"
            for a, v in imms:
                l = l + "=" + num(a)
            l = l + ",data"
            for a, v in imms:
                l = l + "=" + esc(v)
        self.line(l)

    def path(self, n):
        r = []
        while n is not None:
            a, v, p = self.nodes[n]
            r = [(a, v)] + r
            n = p if p in self.nodes else None
        return r

    def expect(self, refs, imms):
        """(attribute, value) in order; then as the reader presents it"""
        ent = []
        for r in refs:
            ent = ent + self.path(r)
        ent = ent + list(imms)
        res = {}
        for a, v in ent:
            name, prop, t, m = self.attrs[a]
            if prop & HIDDEN:
                continue
            if name in res:
                res[name] = (res[name] if isinstance(res[name], list) else [res[name]]) + [v]
            else:
                res[name] = v
            if prop & NESTED:
                res["path"] = res.get("path", []) + [v]
        return res


def num(n):
    return "%d" % n


def text(x, name, ln):
    n = x.choose(name + ".len", ln + 1)
    if n == 0:
        return ""
    s = x.string(name, n)
    x.assume(x.conj([x.disj([x.ge(c, 32), x.eq(c, "\n")]) for c in s]))
    return s


def read(x, cr, st):
    r = cr.CaliperReader()
    r.read(x.source(st.lines))
    return r


def records(x, r, want):
    x.check(len(r.records) == len(want), "there is one result per record")
    for a, b in zip(r.records, want):
        x.check(x.same_keys(a, b), "a record has exactly the visible attributes that were written")
        for k in b:
            x.check(x.eq(a[k], b[k]), "an attribute has the values that were written, in the order of the path")


def c26_path(x, cr):
    st = Stream()
    at = [st.attribute("region", NESTED + 12), st.attribute("kernel", NESTED + 20), st.attribute("iteration", 20), st.attribute("secret", HIDDEN + 20)]
    d = 1 + x.choose("depth", x.param("depth"))
    n = None
    for i in range(d):
        a = at[x.choose("attr%d" % i, 4)]
        n = st.node(a, text(x, "v%d" % i, x.param("len") if i == d - 1 else 1), n)
    st.record([n], [])
    x.mark("path")
    r = read(x, cr, st)
    records(x, r, [st.expect([n], [])])


def c26_imm(x, cr):
    st = Stream()
    reg = st.attribute("region", NESTED + 12)
    at = [st.attribute("note", ASVALUE + 20), st.attribute("msg", ASVALUE + 20), st.attribute("inner", ASVALUE + HIDDEN + 20)]
    k = x.choose("imms", x.param("imms") + 1)
    refs = []
    if x.choose("ref", 2):
        refs = [st.node(reg, "main")]
    imms = [(at[(x.choose("a%d" % i, 3)) % 3], text(x, "v%d" % i, x.param("len") if i == k - 1 else 1)) for i in range(k)]
    st.record(refs, imms)
    st.record([], [])
    x.mark("imm")
    r = read(x, cr, st)
    records(x, r, [st.expect(refs, imms), {}])


def c26_names(x, cr):
    st = Stream()
    a, b = text(x, "n0", x.param("len")), text(x, "n1", x.param("len"))
    x.assume(x.conj([x.neg(x.eq(a, b))] + [x.neg(x.eq(k, w)) for k in (a, b) for w in ("path", "unit", "cali.attribute.name", "cali.attribute.type", "cali.attribute.prop")]))
    mk = st.attribute("unit", ASVALUE + 20)
    mv = text(x, "meta", x.param("len"))
    p = [NESTED + 12, ASVALUE + 20, HIDDEN + 20, None][x.choose("prop", 4)]
    ia = st.attribute(a, p, "string", [(mk, mv)])
    ib = st.attribute(b, ASVALUE + GLOBAL + 12, "int")
    n = st.node(ia, "x")
    st.record([n], [(ib, "42")])
    x.mark("names")
    r = read(x, cr, st)
    records(x, r, [st.expect([n], [(ib, "42")])])
    names = r.attributes()
    x.check(x.disj([x.eq(k, a) for k in names]) if not (p or 0) & HIDDEN else x.neg(x.disj([x.eq(k, a) for k in names])), "the list of attributes contains the visible ones")
    x.check(x.disj([x.eq(k, b) for k in names]), "the list of attributes contains the visible ones")
    o = r.attribute(a)
    x.check(x.eq(o.name(), a), "an attribute is found by its name")
    x.check(x.eq(o.get("unit"), mv), "an attribute has its metadata")
    x.check(x.eq(o.metadata()["unit"], mv), "an attribute has its metadata")
    x.check(x.eq(o.attribute_type(), "string"), "an attribute has its type")
    x.check(x.eq(r.attribute(b).attribute_type(), "int"), "an attribute has its type")
    x.check(r.attribute(b).get("unit") is None, "an attribute has only its own metadata")


def c26_props(x, cr):
    st = Stream()
    f = [x.choose("flag%d" % i, 2) for i in range(5)]
    scope = x.choose("scope", 3)
    prop = [12, 20, 24][scope]
    for on, b in zip(f, (ASVALUE, HIDDEN, NESTED, GLOBAL, AGGR)):
        prop = prop + (b if on else 0)
    t = ["usr", "int", "uint", "string", "addr", "double", "bool", "type", "ptr"][x.choose("type", 9)]
    a = st.attribute("a", prop, t)
    other = st.attribute("b", 20, "int")
    x.mark("props")
    o = read(x, cr, st).attribute("a")
    x.check(o.is_value() == bool(f[0]) and o.is_hidden() == bool(f[1]) and o.is_nested() == bool(f[2]) and o.is_global() == bool(f[3]) and o.is_aggregatable() == bool(f[4]), "an attribute has its properties")
    x.check(x.eq(o.scope(), ["process", "thread", "task"][scope]), "an attribute has its scope")
    x.check(x.eq(o.attribute_type(), t), "an attribute has its type")
    x.check(o.metadata()["is_nested"] == bool(f[2]) and o.metadata()["is_global"] == bool(f[3]) and o.metadata()["is_value"] == bool(f[0]), "an attribute has its properties")


def c26_shared(x, cr):
    """records that share nodes, in any order; later definitions do not change earlier records"""
    st = Stream()
    at = [st.attribute("region", NESTED + 12), st.attribute("iteration", 20)]
    par = [None]
    ids, want = [], []
    for i in range(x.param("nodes")):
        p = x.choose("parent%d" % i, len(ids) + 1)
        n = st.node(at[x.choose("attr%d" % i, 2)], x.string("v%d" % i, 1) if i == 1 else num(i), ids[p - 1] if p else None)
        x.assume(True if i != 1 else x.conj([x.ge(st.nodes[n][1], 33)]))
        ids.append(n)
    for i in range(x.param("recs")):
        n = ids[x.choose("ref%d" % i, len(ids))]
        st.record([n], [])
        want.append(st.expect([n], []))
    x.mark("shared")
    records(x, read(x, cr, st), want)


def c26_refs(x, cr):
    """several references in a record"""
    st = Stream()
    at = [st.attribute("region", NESTED + 12), st.attribute("iteration", 20), st.attribute("rank", ASVALUE + 12, "int")]
    refs = []
    n = 2 + x.choose("refs", x.param("refs") - 1)
    for i in range(n):
        a = at[x.choose("attr%d" % i, 2)]
        m = st.node(a, text(x, "v%d" % i, 1) if i == 0 else num(i))
        if x.choose("deep%d" % i, 2):
            m = st.node(at[x.choose("sub%d" % i, 2)], num(i), m)
        refs.append(m)
    imms = [(at[2], "7")] if x.choose("imm", 2) else []
    st.record(refs, imms)
    x.mark("refs")
    records(x, read(x, cr, st), [st.expect(refs, imms)])


def c26_globals(x, cr):
    st = Stream()
    at = [st.attribute("version", GLOBAL + 12), st.attribute("mpi.size", GLOBAL + ASVALUE + 12, "int"), st.attribute("cmd", GLOBAL + ASVALUE + 12), st.attribute("region", NESTED + 12)]
    v, w = text(x, "v", 1), text(x, "w", x.param("len"))
    n = st.node(at[0], v)
    m = st.node(at[3], "main")
    k = x.choose("form", 4)
    refs = [n] if k & 1 else []
    imms = [(at[1], "16"), (at[2], w)] if k & 2 else []
    first = x.choose("first", 2)
    if first:
        st.record(refs, imms, "globals")
    st.record([m], [])
    if not first:
        st.record(refs, imms, "globals")
    x.mark("globals")
    want = st.expect(refs, imms)
    rec = st.expect([m], [])
    how = x.choose("how", 3)
    if how == 0:
        r = read(x, cr, st)
        recs, glb = r.records, r.globals
    elif how == 1:
        recs, glb = cr.read_caliper_contents(x.source(st.lines))
    else:
        recs, glb = None, cr.read_caliper_globals(x.source(st.lines))
    if recs is not None:
        x.check(x.eq(recs, [rec]), "globals are not records")
    x.check(x.same_keys(glb, want), "the globals are exactly those that were written")
    for g in want:
        x.check(x.eq(glb[g], want[g]), "a global has the value that was written")


def c26_ids(x, cr):
    """ids in any order of magnitude, not consecutive"""
    st = Stream()
    st.next = [12, 99, 1000, 4294967296, 9223372036854775807][x.choose("base", 5)]
    a = st.attribute("region", NESTED + 12)
    st.next = st.next + [0, 1, 100000][x.choose("gap", 3)]
    b = st.attribute("x", ASVALUE + 20, "int")
    n = st.node(a, text(x, "v", 1))
    m = st.node(a, text(x, "w", 1), n)
    st.record([m], [(b, "-1")])
    st.record([n], [])
    x.mark("ids")
    records(x, read(x, cr, st), [st.expect([m], [(b, "-1")]), st.expect([n], [])])


ENTRIES = {
    "c26_path": (c26_path, {"len": 2, "depth": 2}, {"len": 3, "depth": 3}, "path", "paths of up to depth nodes of 4 attributes, texts of 0-1 and (the last) up to len characters (any code point except controls other than newline)"),
    "c26_imm": (c26_imm, {"len": 2, "imms": 2}, {"len": 3, "imms": 3}, "imm", "up to imms immediate values, with or without a reference, texts of up to len characters"),
    "c26_names": (c26_names, {"len": 1}, {"len": 2}, "names", "two attributes with names and metadata of up to len characters, 4 property sets"),
    "c26_props": (c26_props, {}, {}, "props", "all combinations of 5 properties, 3 scopes, 9 types"),
    "c26_shared": (c26_shared, {"nodes": 3, "recs": 3}, {"nodes": 4, "recs": 3}, "shared", "all trees of nodes nodes over 2 attributes, recs records in any order"),
    "c26_refs": (c26_refs, {"refs": 2}, {"refs": 3}, "refs", "2 to refs references to paths of 1-2 nodes of 2 attributes"),
    "c26_globals": (c26_globals, {"len": 2}, {"len": 3}, "globals", "globals as nodes and values, before or after a record, 3 reading functions"),
    "c26_ids": (c26_ids, {}, {}, "ids", "node ids of 5 magnitudes with 3 gaps"),
}
