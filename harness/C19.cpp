// C19: table and tree output show every record in the requested order
#include "rec.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/FormatProcessor.h"
#include "caliper/reader/QuerySpec.h"
#include <algorithm>
#include <cstdio>

typedef std::vector<Entry> Rec;

static std::string format(CaliperMetadataDB& db, const std::string& query, const std::vector<Rec>& recs)
{
    CalQLParser p(query.c_str());
    CHECK(!p.error(), "query is accepted");
    std::ostringstream os;
    OutputStream       out;
    out.set_stream(&os);
    FormatProcessor f(p.spec(), out);
    for (const Rec& r : recs)
        f.process_record(db, r);
    f.flush(db);
    std::string s = os.str();
    if (!symx_engine())
        fprintf(stderr, "%s\n", s.c_str());
    return s;
}

static std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r;
    std::string              l;
    for (char c : s)
        if (c == '\n') {
            r.push_back(l);
            l.clear();
        } else
            l += c;
    CHECK(l.empty(), "the last line is complete");
    return r;
}

static std::string trim(const std::string& s)
{
    size_t b = 0, e = s.size();
    while (b < e && s[b] == ' ')
        ++b;
    while (e > b && s[e - 1] == ' ')
        --e;
    return s.substr(b, e - b);
}

// cells of a table: columns begin where their title begins
struct Table {
    std::vector<std::string>              cols;
    std::vector<std::vector<std::string>> rows;
    explicit Table(const std::string& text)
    {
        std::vector<std::string> ls = lines(text);
        CHECK(!ls.empty(), "the table has a header");
        if (ls.empty())
            return;
        std::vector<size_t> pos;
        for (size_t i = 0; i < ls[0].size(); ++i)
            if (ls[0][i] != ' ' && (i == 0 || ls[0][i - 1] == ' '))
                pos.push_back(i);
        for (size_t i = 0; i < pos.size(); ++i)
            cols.push_back(cell(ls[0], pos, i));
        for (size_t k = 1; k < ls.size(); ++k) {
            std::vector<std::string> row;
            for (size_t i = 0; i < pos.size(); ++i) {
                // the gap before a column stays free
                CHECK(pos[i] == 0 || ls[k].size() < pos[i] || ls[k][pos[i] - 1] == ' ', "values stay in their column");
                row.push_back(i ? trim(cell(ls[k], pos, i)) : cell(ls[k], pos, i));
            }
            rows.push_back(row);
        }
    }
    static std::string cell(const std::string& l, const std::vector<size_t>& pos, size_t i)
    {
        if (pos[i] >= l.size())
            return "";
        std::string s = l.substr(pos[i], i + 1 < pos.size() ? pos[i + 1] - pos[i] : std::string::npos);
        size_t      e = s.size();
        while (e > 0 && s[e - 1] == ' ')
            --e;
        return s.substr(0, e);
    }
};

static std::string num(int x)
{
    std::string s;
    bool        neg = x < 0;
    if (neg)
        x = -x;
    if (x > 9)
        s += (char) ('0' + x / 10);
    s += (char) ('0' + x % 10);
    return neg ? "-" + s : s;
}

struct Db {
    CaliperMetadataDB db;
    Attribute         region, tag, x, y;
    Db()
    {
        region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        tag    = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        x      = db.create_attribute("x", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        y      = db.create_attribute("y", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
    }
};

struct R {
    std::string path, tag, y;
    bool        hasx = false;
    int         x    = 0;
    Rec         rec;
};

// a record with a symbolic number
static R make(Db& d, int form, bool hasx, int xval, const char* y)
{
    R r;
    Attribute as[4];
    Variant   vs[4];
    int       m = 0;
    auto add = [&](const Attribute& a, const char* v, std::string& s) {
        as[m]   = a;
        vs[m++] = Variant(v);
        s += (s.empty() ? "" : "/") + std::string(v);
    };
    switch (form) {
    case 0: add(d.region, "a", r.path); break;
    case 1: add(d.region, "a", r.path); add(d.region, "b", r.path); break;
    case 2: add(d.region, "c", r.path); break;
    case 3: add(d.region, "a", r.path); add(d.tag, "t", r.tag); add(d.region, "b", r.path); add(d.region, "a", r.path); break;
    case 4: add(d.tag, "t", r.tag); add(d.tag, "u", r.tag); break;
    }
    if (m)
        r.rec.push_back(Entry(d.db.make_tree_entry(m, as, vs)));
    r.hasx = hasx;
    if (hasx) {
        r.x = xval;
        r.rec.push_back(Entry(d.x, Variant(cali_make_variant_from_int64(xval))));
    }
    if (y) {
        r.y = y;
        r.rec.push_back(Entry(d.y, Variant(y)));
    }
    return r;
}

static int sym_num(const char* name)
{
    return (int) (symx_u8(name) & 15) - 5; // also changes the width
}

// rows of a table
ENTRY(c19_table)
{
    Db  d;
    int n = (int) symx_choose(symx_param("recs", 2) + 1, "n");
    static const char* sels[] = { "SELECT region,x,tag", "SELECT x AS num,y", "SELECT tag,region", "", "SELECT x" };
    int  sel = (int) symx_choose(5, "select");
    std::vector<R>   rs;
    std::vector<Rec> recs;
    for (int i = 0; i < n; ++i) {
        static const int forms[] = { 1, 3, 4, 5 };
        int form = forms[symx_choose(4, nm("form", i))];
        rs.push_back(make(d, form, symx_choose(2, nm("hasx", i)), 0, symx_choose(2, nm("hasy", i)) ? (i ? "yy" : "z") : nullptr));
        if (rs.back().hasx) {
            rs.back().x = (int) (symx_u8(nm("x", i)) & 3) + 8; // also changes the width
            for (Entry& e : rs.back().rec)
                if (e.attribute() == d.x.id())
                    e = Entry(d.x, Variant(cali_make_variant_from_int64(rs.back().x)));
        }
        recs.push_back(rs.back().rec);
    }
    Table t(format(d.db, std::string(sels[sel]) + " FORMAT table", recs));
    auto  want = [&](const R& r, const std::string& col) {
        if (col == "region")
            return r.path;
        if (col == "tag")
            return r.tag;
        if (col == "y")
            return r.y;
        return r.hasx ? num(r.x) : std::string();
    };
    static const std::vector<std::string> cols[] = { { "region", "x", "tag" }, { "num", "y" }, { "tag", "region" }, {}, { "x" } };
    if (sel != 3) {
        std::vector<std::string> a = t.cols, b = cols[sel];
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        CHECK(a == b, "one column for each selected attribute");
    } else
        for (const R& r : rs)
            for (const char* c : { "region", "tag", "x", "y" })
                CHECK(want(r, c).empty() || std::count(t.cols.begin(), t.cols.end(), c) == 1, "one column for each attribute");
    size_t row = 0;
    for (const R& r : rs) {
        bool any = false;
        for (const std::string& c : t.cols)
            any |= !want(r, c).empty();
        if (!any) // records without selected values are left out
            continue;
        CHECK(row < t.rows.size(), "one row for each record");
        if (row >= t.rows.size())
            break;
        for (size_t c = 0; c < t.cols.size(); ++c)
            CHECK(trim(t.rows[row][c]) == want(r, t.cols[c]), "each value is in its column");
        ++row;
    }
    CHECK(row == t.rows.size(), "one row for each record");
    symx_reach("table");
}

// sorting: the last criterion is the most significant one
ENTRY(c19_table_sort)
{
    Db  d;
    int n = (int) symx_param("recs", 3);
    static const char* orders[] = { "x", "x DESC", "y,x", "x DESC,y", "y DESC", "missing,x" };
    int  ord = (int) symx_choose(6, "order");
    std::vector<R>   rs;
    std::vector<Rec> recs;
    static const char* ys[] = { "b", "a", "ab" };
    static const char* ids[] = { "r0", "r1", "r2", "r3", "r4" };
    Attribute id = d.db.create_attribute("id", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
    bool two = ord == 2 || ord == 3;
    for (int i = 0; i < n; ++i) {
        int xv = ord == 4 ? 0 : two ? (int) (symx_u8(nm("x", i)) & 7) - 1 : sym_num(nm("x", i));
        rs.push_back(make(d, 5, true, xv, two || ord == 4 ? ys[symx_choose(two ? 2 : 3, nm("y", i))] : nullptr));
        rs.back().rec.push_back(Entry(id, Variant(ids[i])));
        recs.push_back(rs.back().rec);
    }
    Table t(format(d.db, std::string("SELECT id,y,x FORMAT table ORDER BY ") + orders[ord], recs));
    CHECK(t.rows.size() == (size_t) n && t.cols.size() == 3, "one row for each record");
    if (t.rows.size() != (size_t) n || t.cols.size() != 3)
        return;
    std::vector<int> seq;
    int              seen = 0;
    for (auto& row : t.rows) {
        int k = row[0].size() == 2 ? row[0][1] - '0' : -1;
        CHECK(k >= 0 && k < n && !(seen & (1 << k)), "one row for each record");
        if (k < 0 || k >= n)
            return;
        seen |= 1 << k;
        CHECK(row[2] == num(rs[k].x) && row[1] == rs[k].y, "each value is in its row");
        seq.push_back(k);
    }
    for (int i = 0; i + 1 < n; ++i) {
        const R &a = rs[seq[i]], &b = rs[seq[i + 1]];
        bool first = seq[i] < seq[i + 1]; // records that compare equal stay in order
        bool ok    = false;
        switch (ord) {
        case 0: case 5: ok = (a.x < b.x) | ((a.x == b.x) & first); break;
        case 1: ok = (a.x > b.x) | ((a.x == b.x) & first); break;
        case 2: ok = (a.x < b.x) | ((a.x == b.x) & (a.y < b.y || (a.y == b.y && first))); break;
        case 3: ok = a.y < b.y || (a.y == b.y && ((a.x > b.x) | ((a.x == b.x) & first))); break;
        case 4: ok = a.y > b.y || (a.y == b.y && first); break;
        }
        CHECK(ok, "rows are sorted as requested");
    }
    symx_reach("sorted");
}

// text of any kind in a table
ENTRY(c19_table_text)
{
    Db     d;
    SymStr s(1, symx_param("len", 3), "text");
    for (size_t i = 0; i < s.n; ++i)
        symx_assume((unsigned char) s.p[i] > 0x20);
    int  what = (int) symx_choose(3, "what");
    std::string t = s.str();
    if (what == 2)
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(s.p[i] != '"' && s.p[i] != '\\');
    Rec  rec, rec2 { Entry(d.x, Variant(5)) };
    Variant v(CALI_TYPE_STRING, t.data(), t.size());
    if (what == 0)
        rec.push_back(Entry(d.y, v));
    else if (what == 1)
        rec.push_back(Entry(d.db.make_tree_entry(1, &d.tag, &v)));
    else
        rec.push_back(Entry(d.y, Variant("v")));
    rec.push_back(Entry(d.x, Variant(7)));
    Table tab(format(d.db, std::string("SELECT ") + (what == 1 ? "tag" : what == 2 ? "y AS \"" + t + "\"" : "y") + ",x FORMAT table", { rec, rec2 }));
    CHECK(tab.cols.size() == 2 && tab.rows.size() == 2, "one row for each record");
    if (tab.cols.size() == 2 && tab.rows.size() == 2) {
        CHECK(tab.cols[0] == (what == 1 ? "tag" : what == 2 ? t : "y"), "columns have a title");
        CHECK(tab.rows[0][0] == (what == 2 ? "v" : t) && tab.rows[0][1] == "7", "each value is in its column");
        CHECK(tab.rows[1][0].empty() && tab.rows[1][1] == "5", "each value is in its column");
    }
    symx_reach("text");
}

// ---- tree

struct TreeNode {
    std::string path;
    std::vector<std::vector<std::string>> recs; // values of each record
};

static std::vector<TreeNode> read_tree(const std::string& text, std::vector<std::string>& cols)
{
    std::vector<TreeNode>    r;
    std::vector<std::string> stack;
    Table t(text);
    cols = t.cols;
    CHECK(!cols.empty() && cols[0] == "Path", "the tree is in the first column");
    for (auto& row : t.rows) {
        size_t ind = 0;
        while (ind < row[0].size() && row[0][ind] == ' ')
            ++ind;
        std::string label = row[0].substr(ind);
        std::vector<std::string> vals(row.begin() + 1, row.end());
        if (label == "|-") { // another record of the last node
            CHECK(!r.empty(), "record of a node");
            if (!r.empty())
                r.back().recs.push_back(vals);
            continue;
        }
        CHECK(ind % 2 == 0 && ind / 2 <= stack.size(), "nodes are below their parent");
        if (ind / 2 > stack.size())
            return r;
        stack.resize(ind / 2);
        stack.push_back(label);
        TreeNode n;
        for (const std::string& s : stack)
            n.path += (n.path.empty() ? "" : "/") + s;
        bool any = false;
        for (const std::string& v : vals)
            any |= !v.empty();
        if (any)
            n.recs.push_back(vals);
        r.push_back(n);
    }
    return r;
}

static bool within(const std::string& p, const std::string& of)
{
    return p.size() >= of.size() && p.compare(0, of.size(), of) == 0 && (p.size() == of.size() || p[of.size()] == '/');
}

static void tree_case(int n, bool sorted)
{
    Db  d;
    int ord = sorted ? 1 + (int) symx_choose(2, "order") : (int) symx_choose(3, "order"); // none, ascending, descending
    std::vector<R>   rs;
    std::vector<Rec> recs;
    for (int i = 0; i < n; ++i) {
        int  form = (int) symx_choose(sorted ? 3 : 5, nm("form", i));
        bool hasx = sorted || symx_choose(2, nm("hasx", i));
        rs.push_back(make(d, form, hasx, hasx ? (int) (symx_u8(nm("x", i)) & (sorted ? 3 : 7)) - 1 : 0, nullptr));
        recs.push_back(rs.back().rec);
    }
    static const char* orders[] = { "", " ORDER BY x", " ORDER BY x DESC" };
    std::vector<std::string> cols;
    std::vector<TreeNode> t = read_tree(format(d.db, std::string("SELECT path,x,tag FORMAT tree") + orders[ord], recs), cols);
    // columns of attributes without any value may be left out
    bool anyx = false, anytag = false;
    for (const R& r : rs) {
        if (r.path.empty()) // not in the tree
            continue;
        anyx |= r.hasx;
        anytag |= !r.tag.empty();
    }
    size_t cx = std::find(cols.begin(), cols.end(), "x") - cols.begin(), ct = std::find(cols.begin(), cols.end(), "tag") - cols.begin();
    CHECK((!anyx || cx < cols.size()) && (!anytag || ct < cols.size()), "one column for each selected attribute");
    auto val = [&](const std::vector<std::string>& v, size_t c) { return c > 0 && c - 1 < v.size() ? v[c - 1] : std::string(); };
    // each path and its parents once
    std::vector<std::string> want;
    for (const R& r : rs)
        for (size_t p = 0; !r.path.empty() && p != std::string::npos; ) {
            p = r.path.find('/', p + 1);
            std::string s = r.path.substr(0, p);
            if (std::find(want.begin(), want.end(), s) == want.end())
                want.push_back(s);
        }
    CHECK(t.size() == want.size(), "each region path is shown once");
    for (const std::string& w : want) {
        int c = 0;
        for (const TreeNode& k : t)
            c += k.path == w;
        CHECK(c == 1, "each region path is shown once");
    }
    for (const TreeNode& k : t) {
        std::vector<const R*> have;
        for (const R& r : rs)
            if (r.path == k.path && (r.hasx || !r.tag.empty()))
                have.push_back(&r);
        std::vector<const R*> rest = have;
        std::vector<std::vector<std::string>> rows;
        for (auto& v : k.recs)
            if (!val(v, cx).empty() || !val(v, ct).empty())
                rows.push_back(v);
        CHECK(rows.size() == have.size(), "all records of the path are shown");
        // in the order of the records, or sorted
        std::vector<const R*> seq;
        for (auto& v : rows)
            for (size_t q = 0; q < rest.size(); ++q)
                if (val(v, ct) == rest[q]->tag && val(v, cx) == (rest[q]->hasx ? num(rest[q]->x) : "")) {
                    seq.push_back(rest[q]);
                    rest.erase(rest.begin() + q);
                    break;
                }
        CHECK(rest.empty(), "all records of the path are shown with their values");
        if (ord == 0)
            CHECK(seq == have, "records stay in order");
        for (size_t q = 0; q < seq.size(); ++q)
            for (size_t p = 0; p < q; ++p)
                if (ord && seq[p]->hasx && seq[q]->hasx)
                    CHECK(ord == 1 ? seq[p]->x <= seq[q]->x : seq[p]->x >= seq[q]->x, "records of a path are sorted as requested");
    }
    // siblings are sorted by the smallest (largest) value in the subtree
    auto parent = [](const std::string& p) { return p.find('/') == std::string::npos ? std::string() : p.substr(0, p.rfind('/')); };
    for (size_t q = 0; ord && q < t.size(); ++q)
        for (size_t p = 0; p < q; ++p)
            if (parent(t[p].path) == parent(t[q].path)) {
                bool hp = false, hq = false;
                int  vp = 0, vq = 0;
                for (const R& r : rs) {
                    if (!r.hasx)
                        continue;
                    if (within(r.path, t[p].path)) {
                        vp = !hp || (ord == 1 ? r.x < vp : r.x > vp) ? r.x : vp;
                        hp = true;
                    }
                    if (within(r.path, t[q].path)) {
                        vq = !hq || (ord == 1 ? r.x < vq : r.x > vq) ? r.x : vq;
                        hq = true;
                    }
                }
                if (hp && hq)
                    CHECK(ord == 1 ? vp <= vq : vp >= vq, "paths are sorted as requested");
            }
    symx_reach("tree");
}

ENTRY(c19_tree) { tree_case((int) symx_param("recs", 3), false); }
ENTRY(c19_tree_sort) { tree_case((int) symx_param("recs", 3), true); }

// values wider than the padding blocks
ENTRY(c19_wide)
{
    Db  d;
    static const int lens[] = { 30, 79, 80, 81, 82, 159, 160, 161, 240, 250 };
    std::string t(lens[symx_choose(10, "len")], 'w');
    t[0] = 'p' + (symx_u8("c") & 3);
    bool tree = symx_choose(2, "tree"), path = symx_choose(2, "path");
    Variant va[2] = { Variant("a"), Variant("b") };
    if (path)
        va[0] = Variant(CALI_TYPE_STRING, t.data(), t.size());
    Rec r[2];
    for (int i = 0; i < 2; ++i) {
        r[i].push_back(Entry(d.db.make_tree_entry(1, &d.region, &va[i])));
        r[i].push_back(Entry(d.y, i == 0 && !path ? Variant(CALI_TYPE_STRING, t.data(), t.size()) : Variant("s")));
        r[i].push_back(Entry(d.x, Variant(i + 1)));
    }
    Table tab(format(d.db, tree ? "SELECT path,y,x FORMAT tree(column-width=0)" : "SELECT region,y,x FORMAT table(column-width=0)", { r[0], r[1] }));
    CHECK(tab.cols.size() == 3 && tab.rows.size() == 2, "one row for each record");
    if (tab.cols.size() == 3 && tab.rows.size() == 2)
        for (int i = 0; i < 2; ++i) {
            auto& row = tab.rows[(tab.rows[0][0] == "b") ^ i]; // siblings can come in any order
            CHECK(row[0] == (i ? "b" : path ? t : "a"), "values are in their column");
            CHECK(row[1] == (i || path ? "s" : t), "values are in their column");
            CHECK(row[2] == (i ? "2" : "1"), "values are in their column");
        }
    symx_reach("wide");
}

// long labels and deep trees keep their lines apart
ENTRY(c19_tree_width)
{
    Db  d;
    int depth = 1 + (int) symx_choose(symx_param("depth", 30), "depth");
    static const int widths[] = { 10, 48, 0 };
    int w = widths[symx_choose(3, "width")];
    Node* n = nullptr;
    std::vector<Attribute> as(depth, d.region);
    std::vector<Variant>   vs(depth, Variant("abcdef"));
    n = d.db.make_tree_entry(depth, as.data(), vs.data());
    std::vector<Rec> recs { { Entry(n), Entry(d.x, Variant(42)) } };
    std::string q = "SELECT path,x FORMAT tree(column-width=" + std::string(w == 10 ? "10" : w == 48 ? "48" : "0") + ")";
    Table t(format(d.db, q, recs));
    CHECK(t.rows.size() == (size_t) depth && t.cols.size() == 2, "each region path is shown once");
    if (t.rows.size() == (size_t) depth && t.cols.size() == 2)
        for (int i = 0; i < depth; ++i)
            CHECK(t.rows[i][1] == (i == depth - 1 ? "42" : ""), "values are in their column");
    symx_reach("width");
}

// ---- other text formats

ENTRY(c19_expand)
{
    Db  d;
    R   r = make(d, (int) symx_choose(6, "form"), symx_choose(2, "hasx"), sym_num("x"), symx_choose(2, "hasy") ? "q" : nullptr);
    static const char* sels[] = { "", "SELECT x AS num", "SELECT path,y", "SELECT tag,x" };
    int  sel = (int) symx_choose(4, "select");
    std::vector<std::string> l = lines(format(d.db, std::string(sels[sel]) + " FORMAT expand", { r.rec }));
    std::vector<std::string> want;
    if (!r.path.empty() && (sel == 0 || sel == 2))
        want.push_back("region=" + r.path);
    if (!r.tag.empty() && (sel == 0 || sel == 3))
        want.push_back("tag=" + r.tag);
    if (r.hasx && sel != 2)
        want.push_back((sel == 1 ? "num=" : "x=") + num(r.x));
    if (!r.y.empty() && (sel == 0 || sel == 2))
        want.push_back("y=" + r.y);
    CHECK(l.size() == (want.empty() ? 0 : 1), "one line for each record");
    if (l.size() == 1) {
        std::vector<std::string> have;
        std::string cur;
        for (char c : l[0] + ",")
            if (c == ',') {
                have.push_back(cur);
                cur.clear();
            } else
                cur += c;
        std::sort(have.begin(), have.end());
        std::sort(want.begin(), want.end());
        CHECK(have == want, "each selected value is written once");
    }
    symx_reach("expand");
}

ENTRY(c19_format)
{
    Db  d;
    R   r = make(d, (int) symx_choose(5, "form"), symx_choose(2, "hasx"), sym_num("x"), nullptr);
    SymStr s(1, symx_param("len", 2), "fmt");
    for (size_t i = 0; i < s.n; ++i)
        symx_assume(s.p[i] != '"' && s.p[i] != '\\' && s.p[i] != '=' && s.p[i] != '%');
    int what = (int) symx_choose(3, "what");
    std::string t = s.str(), want, f;
    auto pad = [](std::string v, size_t w) { return v.size() < w ? v + std::string(w - v.size(), ' ') : v; };
    std::string vx = r.hasx ? num(r.x) : "";
    switch (what) {
    case 0: // text between the fields
        symx_assume(t != "format" && t != "title");
        f    = t + "%region%" + t + "%x%";
        want = t + r.path + t + vx;
        break;
    case 1: // width
        f    = "%[8]x%|%tag%";
        want = pad(vx, 8) + "|" + r.tag;
        break;
    default: // any width
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(s.p[i] != '[' && s.p[i] != ']' && !(s.p[i] >= '0' && s.p[i] <= '9'));
        f    = "%[" + t + "]x%|";
        want = vx + "|";
    }
    std::string out = format(d.db, "FORMAT format(\"" + f + "\")", { r.rec });
    CHECK(out == want + "\n", "values are written in the given format");
    symx_reach("format");
}
