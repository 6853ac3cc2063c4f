// C01: binary encodings are exact inverses and never touch memory outside of the encoded bytes
#include "hc.h"
#include "CompressedSnapshotRecord.h"
#include "NodeBuffer.h"
#include "SnapshotBuffer.h"
#include "util/vlenc.h"

ENTRY(c01_varint)
{
    uint64_t a = symx_u64("a"), b = symx_u64("b");
    Buf      buf(20);
    size_t   pos = vlenc_u64(a, buf.p);
    CHECK(pos >= 1 && pos <= 10, "varint: 1 to 10 bytes");
    size_t p1 = pos;
    pos += vlenc_u64(b, buf.p + pos);
    size_t   q = 0;
    uint64_t x = vldec_u64(buf.p, &q);
    CHECK(q == p1, "varint: decoder consumes what the encoder wrote");
    uint64_t y = vldec_u64(buf.p + q, &q);
    CHECK(q == pos, "varint: second value's length");
    CHECK(x == a, "varint: first value");
    CHECK(y == b, "varint: second value");
    symx_print("len", pos);
    symx_reach("varint");
}

ENTRY(c01_varint_raw)
{
    // any byte sequence: stops at the first byte without the continuation bit, at most 10 bytes
    size_t n = 1 + symx_choose(10, "n");
    Buf    buf(n);
    symx_bytes(buf.p, n, "raw");
    for (size_t i = 0; i + 1 < n; ++i)
        symx_assume(buf[i] & 0x80);
    symx_assume(n == 10 || !(buf[n - 1] & 0x80));
    size_t   inc = 5;
    uint64_t v   = vldec_u64(buf.p, &inc);
    CHECK(inc == 5 + n, "varint: consumes up to the terminating byte");
    uint64_t ref = 0;
    for (size_t i = 0; i < n; ++i)
        ref |= (uint64_t) (buf[i] & 0x7f) << (7 * i);
    CHECK(v == ref, "varint: value of an arbitrary byte sequence");
    symx_reach("raw");
}

ENTRY(c01_variant)
{
    int     kind = (int) symx_choose(8, "kind");
    Variant v    = sym_scalar(kind, "v");
    Buf     buf(20);
    size_t  len = v.pack(buf.p);
    CHECK(len >= 1 && len <= 20, "variant: packed size bound");
    size_t  inc = 3;
    bool    ok  = false;
    Variant w   = Variant::unpack(buf.p, &inc, &ok);
    CHECK(ok, "variant: unpack succeeds");
    CHECK(inc == 3 + len, "variant: unpack consumes what pack wrote");
    CHECK(same_bits(v, w), "variant: value survives");
    CHECK(v.type() == w.type(), "variant: type survives");
    symx_print("len", len);
    symx_reach("variant");
}

ENTRY(c01_variant_str)
{
    SymStr  s(0, 3, "s", false);
    cali_attr_type t = symx_choose(2, "blob") ? CALI_TYPE_USR : CALI_TYPE_STRING;
    Variant v(t, s.p, s.n);
    Buf     buf(20);
    size_t  len = v.pack(buf.p), inc = 0;
    Variant w   = Variant::unpack(buf.p, &inc);
    CHECK(inc == len, "string variant: length");
    CHECK(w == v && w.size() == s.n && w.data() == v.data() && w.type() == t, "string variant: value survives");
    symx_reach("variant_str");
}

ENTRY(c01_variant_raw)
{
    Buf buf(20);
    symx_bytes(buf.p, 20, "raw");
    size_t  inc = 0;
    bool    ok  = symx_choose(2, "ok0") != 0;
    Variant v   = Variant::unpack(buf.p, &inc, &ok);
    if (ok) {
        CHECK((int) v.type() <= (int) CALI_MAXTYPE, "variant: unpacked type is a known type");
        CHECK(inc >= 2 && inc <= 20, "variant: unpack stays inside the encoding");
        symx_reach("ok");
    } else {
        CHECK(v.empty(), "variant: a rejected encoding gives an empty value");
        symx_reach("rejected");
    }
    size_t   q = 0;
    uint64_t t = vldec_u64(buf.p, &q);
    CHECK(ok == ((t & 0xff) <= CALI_MAXTYPE), "variant: accepted exactly when the type is known");
}

ENTRY(c01_entry)
{
    MiniDB  db;
    uint64_t id1 = symx_u64("id1"), id2 = symx_u64("id2"), id3 = symx_u64("id3");
    symx_assume(id1 != id2 && id1 != id3 && id2 != id3);
    symx_assume(id1 != 8 && id2 != 8 && id3 != 8);
    Node* attr = db.add(id1, Attribute::NAME_ATTR_ID, Variant("a"));
    Node* n1   = db.add(id2, id1, Variant(42));
    db.add(id3, id1, Variant(43), n1);
    int   kind = (int) symx_choose(9, "kind");
    Entry e    = kind == 8 ? Entry(db.node(id3)) : Entry(Attribute::make_attribute(attr), sym_scalar(kind, "v"));
    Buf   buf(Entry::MAX_PACKED_SIZE);
    size_t len = e.pack(buf.p);
    CHECK(len >= 1 && len <= Entry::MAX_PACKED_SIZE, "entry: packed size bound");
    size_t inc = 7;
    Entry  f   = Entry::unpack(db, buf.p, &inc);
    CHECK(inc == 7 + len, "entry: unpack consumes what pack wrote");
    CHECK(f == e, "entry: equal after the round trip");
    CHECK(f.node() == e.node() && same_bits(f.value(), e.value()), "entry: node and value survive");
    symx_reach(kind == 8 ? "entry_ref" : "entry_imm");
}

static bool contains(const std::vector<cali_id_t>& v, size_t n, cali_id_t id)
{
    bool r = false;
    for (size_t i = 0; i < n; ++i)
        r |= v[i] == id;
    return r;
}

// what a record must report for nn node entries and ni immediate entries given as one entry list
static void record_case(size_t maxn, size_t maxi, bool tight)
{
    size_t nn = symx_choose(maxn + 1, "nn"), ni = symx_choose(maxi + 1, "ni");
    MiniDB db;
    uint64_t idmax = symx_param("idmax", 1 << 20);
    std::vector<Entry>     list;
    std::vector<cali_id_t> nid, aid;
    std::vector<Variant>   val;
    for (size_t i = 0; i < nn; ++i) {
        // distinct ids of unknown magnitude
        uint64_t id = symx_range(0, idmax, nm("nid", i));
        for (cali_id_t o : nid)
            symx_assume(o != id);
        symx_assume(id != 8);
        nid.push_back(id);
        list.push_back(Entry(db.add(id, 1, Variant(1))));
    }
    for (size_t i = 0; i < ni; ++i) {
        uint64_t id = symx_range(0, idmax, nm("aid", i));
        for (cali_id_t o : aid)
            symx_assume(o != id);
        for (cali_id_t o : nid)
            symx_assume(o != id);
        symx_assume(id != 8);
        aid.push_back(id);
        val.push_back(Variant(cali_make_variant_from_uint(symx_range(0, idmax, nm("val", i)))));
        list.insert(list.begin() + (i % 2 ? list.size() : 0), Entry(Attribute::make_attribute(db.add(id, Attribute::NAME_ATTR_ID, Variant("x"))), val[i]));
    }
    size_t cap = tight ? 2 + symx_choose((nn * 10 + ni * 20) / 3 + 1, "cap") * 3 : 2 + nn * 10 + ni * 30;
    Buf    buf(cap);
    CompressedSnapshotRecord rec(cap, buf.p);
    size_t skipped = rec.append(list.size(), list.data());
    CHECK(skipped == rec.num_skipped(), "record: append reports the number of skipped entries");
    CHECK(rec.num_nodes() + rec.num_immediates() + skipped == nn + ni, "record: every entry is stored or counted as skipped");
    CHECK(rec.size() <= cap, "record: size within the buffer");
    CHECK(rec.needed_len() <= cap ? skipped == 0 : skipped > 0, "record: skips entries only if the needed size exceeds the buffer");
    if (skipped == 0)
        symx_reach("fits");
    else
        symx_reach("skips");

    size_t inc = 0;
    CompressedSnapshotRecordView parsed(rec.data(), &inc);
    CHECK(inc == rec.size(), "record: the encoding ends where the record says");
    for (int pass = 0; pass < 2; ++pass) {
        CompressedSnapshotRecordView view = pass ? parsed : rec.view();
        size_t kn = view.num_nodes(), ki = view.num_immediates();
        CHECK(kn == rec.num_nodes() && ki == rec.num_immediates(), "record: view has the stored counts");
        std::vector<cali_id_t> on(nn + 1), oa(ni + 1);
        std::vector<Variant>   ov(ni + 1);
        view.unpack_nodes(nn + 1, on.data());
        view.unpack_immediate(ni + 1, oa.data(), ov.data());
        if (kn == nn)
            for (size_t i = 0; i < nn; ++i)
                CHECK(contains(on, kn, nid[i]), "record: each appended node is read back");
        for (size_t i = 0; i < kn; ++i)
            CHECK(contains(nid, nn, on[i]), "record: no node that was not appended");
        for (size_t i = 0; i < ki; ++i) {
            bool found = false;
            for (size_t j = 0; j < ni; ++j)
                found |= (aid[j] == oa[i]) & same_bits(val[j], ov[i]);
            CHECK(found, "record: immediate entries are pairs that were appended");
        }
        if (ki == ni)
            for (size_t i = 0; i < ni; ++i)
                CHECK(contains(oa, ki, aid[i]), "record: each appended immediate entry is read back");
        std::vector<Entry> el = view.to_entrylist(&db);
        CHECK(el.size() == kn + ki, "record: entry list has all stored entries");
        size_t k = 0, un = 0;
        for (const Entry& e : el) {
            CHECK(k < kn ? e.is_reference() : e.is_immediate(), "record: nodes first, then immediates");
            ++k;
        }
        view.unpack(&db, [&](const Entry& e) {
            CHECK(un < el.size() && e == el[un], "record: streaming and list decoding agree");
            ++un;
            return true;
        });
        CHECK(un == el.size(), "record: streaming decode visits all entries");
    }
}

ENTRY(c01_record) { record_case(symx_param("nn", 2), symx_param("ni", 1), false); }
ENTRY(c01_record_tight) { record_case(symx_param("nn", 2), symx_param("ni", 2), true); }

// more than one block of four entries, and the 127 entry limit
ENTRY(c01_record_many)
{
    MiniDB             db;
    std::vector<Entry> list;
    size_t             n  = symx_param("n", 131);
    int                im = (int) symx_choose(2, "imm");
    uint64_t           v0 = symx_range(0, 100, "v0");
    for (size_t i = 0; i < n; ++i)
        list.push_back(im ? Entry(Attribute::make_attribute(db.add(100 + i, Attribute::NAME_ATTR_ID, Variant("x"))), Variant(cali_make_variant_from_uint(v0)))
                          : Entry(db.add(1000 + i, 1, Variant(1))));
    Buf                      buf(2048);
    CompressedSnapshotRecord rec(2048, buf.p);
    size_t                   take = 1 + symx_choose(n / 13, "take") * 13;
    size_t                   done = 0, skipped = 0;
    while (done < n) {
        size_t k = std::min(take, n - done);
        skipped += rec.append(k, list.data() + done);
        done += k;
    }
    CHECK(skipped == rec.num_skipped() && rec.num_nodes() + rec.num_immediates() + skipped == n, "record: every entry is stored or counted as skipped");
    CHECK(rec.num_nodes() < 128 && rec.num_immediates() < 128, "record: entry counts stay representable");
    size_t inc = 0;
    CompressedSnapshotRecordView view(rec.data(), &inc);
    CHECK(inc == rec.size(), "record: encoding ends where the record says");
    std::vector<Entry> el = view.to_entrylist(&db);
    CHECK(el.size() + skipped == n, "record: all stored entries decode");
    for (size_t i = 0; i < el.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            CHECK(el[i].node() != el[j].node(), "record: no entry is duplicated");
    symx_reach("many");
}

// mixed lists in one or two steps, ids and payloads of the largest size: stored in order
ENTRY(c01_record_mix)
{
    MiniDB   db;
    size_t   nn = symx_choose(symx_param("nn", 6), "nn"), ni = symx_choose(symx_param("ni", 10), "ni");
    int      order = (int) symx_choose(3, "order");
    uint64_t base = symx_choose(2, "big") ? UINT64_MAX / 2 + 1 : 100; // the largest and small varints
    uint64_t v0 = symx_u64("v0");
    symx_assume(v0 >> 63);
    std::vector<Entry> list, nl, il;
    for (size_t i = 0; i < nn; ++i)
        nl.push_back(Entry(db.add(base + i, 1, Variant(1))));
    for (size_t i = 0; i < ni; ++i)
        il.push_back(Entry(Attribute::make_attribute(db.add(base + 100 + i, Attribute::NAME_ATTR_ID, Variant("x"))), Variant(cali_make_variant_from_uint(v0 ^ i))));
    for (size_t i = 0, j = 0; i + j < nn + ni;) // immediates first, nodes first, alternating
        if (j < ni && (order == 0 || i == nn || (order == 2 && j <= i)))
            list.push_back(il[j++]);
        else
            list.push_back(nl[i++]);
    size_t cap = 2 + nn * 10 + ni * 22;
    Buf    buf(cap);
    CompressedSnapshotRecord rec(cap, buf.p);
    size_t cut = symx_choose(2, "two") ? list.size() / 2 : 0;
    size_t skipped = rec.append(cut, list.data());
    skipped += rec.append(list.size() - cut, list.data() + cut);
    CHECK(skipped == 0 && rec.num_nodes() == nn && rec.num_immediates() == ni, "record: all entries fit");
    size_t inc = 0;
    CompressedSnapshotRecordView view(rec.data(), &inc);
    CHECK(inc == rec.size(), "record: the encoding ends where the record says");
    std::vector<Entry> el = view.to_entrylist(&db);
    CHECK(el.size() == nn + ni, "record: all entries decode");
    for (size_t i = 0; i < el.size() && i < nn + ni; ++i)
        CHECK(el[i] == (i < nn ? nl[i] : il[i - nn]), "record: entries decode in the order they were appended");
    symx_reach("mix");
}

// records, node lists and values that are larger than the buffers start with
ENTRY(c01_nodebuffer_large)
{
    static const size_t sizes[] = { 0, 1, 120, 3000, 5000 };
    size_t n = symx_param("n", 3);
    std::string text;
    for (int i = 0; i < 5000; ++i)
        text.push_back('A' + i % 23);
    text[0]    = (char) symx_u8("c0");
    text[2999] = (char) symx_u8("c1");
    text[4999] = (char) symx_u8("c2");
    std::vector<size_t> len;
    NodeBuffer nb;
    for (size_t i = 0; i < n; ++i) {
        size_t l = sizes[symx_choose(5, "size")];
        len.push_back(l);
        NodeBuffer::NodeInfo info { UINT64_MAX / 2 - i, UINT64_MAX - i, UINT64_MAX - 10 - i, Variant(i % 2 ? CALI_TYPE_USR : CALI_TYPE_STRING, text.data(), l) };
        nb.append(info);
    }
    CHECK(nb.count() == n, "node buffer: count");
    NodeBuffer cp;
    memcpy(cp.import(nb.size(), nb.count()), nb.data(), nb.size());
    size_t k = 0;
    cp.for_each([&](const NodeBuffer::NodeInfo& o) {
        if (k < n) {
            CHECK(o.node_id == UINT64_MAX / 2 - k && o.attr_id == UINT64_MAX - k && o.parent_id == UINT64_MAX - 10 - k, "node buffer: ids");
            CHECK(o.value.type() == (k % 2 ? CALI_TYPE_USR : CALI_TYPE_STRING) && o.value.size() == len[k], "node buffer: type and size");
            const char* p = static_cast<const char*>(o.value.data());
            if (len[k] > 0)
                CHECK(p[0] == text[0] && p[len[k] - 1] == text[len[k] - 1], "node buffer: first and last byte");
            bool same = true;
            for (size_t i = 1; i + 1 < len[k]; i += 57)
                same &= p[i] == text[i];
            CHECK(same, "node buffer: value");
        }
        ++k;
    });
    CHECK(k == n, "node buffer: all nodes are visited");
    symx_reach("large");
}

ENTRY(c01_snapshotbuffer)
{
    MiniDB   db;
    uint64_t id1 = symx_u64("id1"), id2 = symx_u64("id2"), v1 = symx_u64("v1");
    symx_assume(id1 != id2 && id1 != 8 && id2 != 8);
    Entry    e1(db.add(id1, 1, Variant(1)));
    Entry    e2(Attribute::make_attribute(db.add(id2, Attribute::NAME_ATTR_ID, Variant("x"))), Variant(cali_make_variant_from_uint(v1)));
    Entry    both[2] = { e1, e2 };
    SnapshotBuffer sb(symx_choose(2, "presize") ? 16 : 64);
    CompressedSnapshotRecord r1(1, &e1), r2(2, both), r3(1, &e2);
    sb.append(r1);
    sb.append(r2);
    sb.append(r3);
    CHECK(sb.count() == 3 && sb.size() == r1.size() + r2.size() + r3.size(), "snapshot buffer: count and size");
    // transfer as raw bytes
    SnapshotBuffer in;
    memcpy(in.import(sb.size(), sb.count()), sb.data(), sb.size());
    int k = 0;
    in.for_each([&](const CompressedSnapshotRecordView& v) {
        cali_id_t n1 = 0, a1 = 0;
        Variant   d;
        v.unpack_nodes(1, &n1);
        v.unpack_immediate(1, &a1, &d);
        CHECK(v.num_nodes() == (k < 2 ? 1u : 0u) && v.num_immediates() == (k > 0 ? 1u : 0u), "snapshot buffer: records in order");
        if (k < 2)
            CHECK(n1 == id1, "snapshot buffer: node id");
        if (k > 0)
            CHECK(a1 == id2 && d.to_uint() == v1, "snapshot buffer: immediate entry");
        ++k;
    });
    CHECK(k == 3, "snapshot buffer: all records are visited");
    symx_reach("snapbuf");
}

ENTRY(c01_nodebuffer)
{
    // ids up to 2^63-1: the encoding keeps one flag bit in the id's varint
    size_t n = symx_param("n", 2);
    std::vector<NodeBuffer::NodeInfo> in;
    std::vector<std::unique_ptr<SymStr>> strs;
    NodeBuffer nb(symx_choose(2, "presize") ? 4 : 256);
    for (size_t i = 0; i < n; ++i) {
        NodeBuffer::NodeInfo info;
        info.node_id   = symx_range(0, UINT64_MAX / 2, nm("id", i));
        info.attr_id   = symx_u64(nm("attr", i));
        info.parent_id = symx_u64(nm("prnt", i));
        int kind       = (int) symx_choose(i == 0 ? 8 : 2, "kind");
        if (kind == 6 || kind == 7 || (i == 1 && kind == 1)) {
            strs.emplace_back(new SymStr(0, 3, nm("s", i), false));
            info.value = Variant(kind == 7 ? CALI_TYPE_USR : CALI_TYPE_STRING, strs.back()->p, strs.back()->n);
        } else
            info.value = sym_scalar(kind, nm("v", i));
        in.push_back(info);
        nb.append(info);
    }
    CHECK(nb.count() == n, "node buffer: count");
    NodeBuffer cp;
    memcpy(cp.import(nb.size(), nb.count()), nb.data(), nb.size());
    size_t k = 0;
    cp.for_each([&](const NodeBuffer::NodeInfo& o) {
        CHECK(k < n, "node buffer: no extra nodes");
        if (k < n) {
            CHECK(o.node_id == in[k].node_id, "node buffer: node id");
            CHECK(o.attr_id == in[k].attr_id, "node buffer: attribute id");
            CHECK(o.parent_id == in[k].parent_id, "node buffer: parent id");
            CHECK(o.value.type() == in[k].value.type() && o.value == in[k].value, "node buffer: value");
        }
        ++k;
    });
    CHECK(k == n, "node buffer: all nodes are visited");
    symx_reach("nodebuf");
}

// nodes appended from tree nodes keep the parent relation
ENTRY(c01_nodebuffer_tree)
{
    MiniDB   db;
    uint64_t i1 = symx_range(0, 1ull << 40, "i1"), i2 = symx_range(0, 1ull << 40, "i2");
    symx_assume(i1 != i2);
    Node*      a = db.add(i1, 3, Variant("foo"));
    Node*      b = db.add(i2, 4, Variant(-1), a);
    NodeBuffer nb;
    nb.append(a);
    nb.append(b);
    int k = 0;
    nb.for_each([&](const NodeBuffer::NodeInfo& o) {
        const Node* r = k == 0 ? a : b;
        CHECK(o.node_id == r->id() && o.attr_id == r->attribute() && o.value == r->data(), "node buffer: node content");
        CHECK(o.parent_id == (k == 0 ? CALI_INV_ID : i1), "node buffer: parent relation");
        ++k;
    });
    CHECK(k == 2, "node buffer: two nodes");
    symx_reach("tree");
}
