// C21: region filters accept exactly the configured regions
#include "cal.h"
#include "caliper/RegionFilter.h"

namespace cali
{
extern CaliperService event_service;
}
SERVICES(event_service)

static bool starts(const std::string& s, const std::string& p)
{
    return s.size() >= p.size() && s.compare(0, p.size(), p) == 0;
}

// names that can be written in a filter
static void word(SymStr& s)
{
    for (size_t i = 0; i < s.n; ++i)
        symx_assume((unsigned char) s.p[i] > 0x20 && (unsigned char) s.p[i] < 0x80 && s.p[i] != '"' && s.p[i] != '\\');
}

static bool pass(const RegionFilter& f, const std::string& s)
{
    // region names are not terminated
    Buf b(s.size() ? s.size() : 1);
    memcpy(b.p, s.data(), s.size());
    return f.pass(Variant(CALI_TYPE_STRING, b.p, s.size()));
}

// the text for a name, written in different ways
static std::string quote(const std::string& s, int how)
{
    switch (how) {
    case 0: return "\"" + s + "\"";
    case 1: { // escaped
        std::string r;
        for (char c : s) {
            r += '\\';
            r += c;
        }
        return r;
    }
    case 2: return s.size() > 1 ? s.substr(0, 1) + "\"" + s.substr(1) + "\"" : "\"" + s + "\""; // partly quoted
    }
    return s;
}

ENTRY(c21_match)
{
    SymStr n(1, symx_param("len", 2), "name"), r(0, symx_param("len", 2) + 1, "region");
    word(n);
    int how  = (int) symx_choose(4, "quote");
    int form = (int) symx_choose(5, "form");
    int side = (int) symx_choose(2, "side");
    std::string t = n.str(), reg = r.str();
    if (how >= 2)
        symx_assume(n.p[0] != ',' && n.p[0] != '(' && n.p[0] != ')');
    if (how == 3)
        for (size_t i = 0; i < n.n; ++i)
            symx_assume(n.p[i] != ',' && n.p[i] != '(' && n.p[i] != ')');
    std::string q = quote(t, how), cfg;
    bool        want = false;
    switch (form) {
    case 0: cfg = q; want = reg == t; break;
    case 1: cfg = "match(" + q + ")"; want = reg == t; break;
    case 2: cfg = "startswith(" + q + ")"; want = starts(reg, t); break;
    case 3: cfg = " foo , startswith ( bar , " + q + " ) ,match(x1) "; want = reg == "foo" || starts(reg, "bar") || starts(reg, t) || reg == "x1"; break;
    case 4: cfg = "startswith(foo),match(b," + q + "),\"c d\""; want = starts(reg, "foo") || reg == "b" || reg == t || reg == "c d"; break;
    }
    auto p = side ? RegionFilter::from_config("", cfg) : RegionFilter::from_config(cfg, "");
    CHECK(p.second.empty(), "the filter is accepted");
    CHECK(p.first.has_filters(), "there is a filter");
    CHECK(pass(p.first, reg) == (want != (side == 1)), side ? "excluded regions do not pass" : "exactly the included regions pass");
    symx_reach("match");
}

// include and exclude lists together
ENTRY(c21_combine)
{
    static const char* lists[] = { "", "  ", "a", "a,b", "startswith(a)", "match(ab),startswith(b)", "match(b),ab", "startswith(b,ab)" };
    auto in = [](int l, const std::string& s) {
        switch (l) {
        case 2: return s == "a";
        case 3: return s == "a" || s == "b";
        case 4: return starts(s, "a");
        case 5: return s == "ab" || starts(s, "b");
        case 6: return s == "b" || s == "ab";
        case 7: return starts(s, "b") || starts(s, "ab");
        }
        return false;
    };
    int i = (int) symx_choose(8, "include"), e = (int) symx_choose(8, "exclude");
    SymStr r(0, symx_param("len", 2), "region");
    auto p = RegionFilter::from_config(lists[i], lists[e]);
    CHECK(p.second.empty(), "the filter is accepted");
    CHECK(p.first.has_filters() == (i > 1 || e > 1), "there is a filter");
    RegionFilter f(p.first);
    std::string  s = r.str();
    CHECK(pass(f, s) == ((i < 2 || in(i, s)) && !(e > 1 && in(e, s))), "a region passes if it is included and not excluded");
    symx_reach("combine");
}

ENTRY(c21_malformed)
{
    static const char* bad[] = { "match(a", "match(a,b", "startswith(a,", "startswith(", "regex(a", "match(a b)", "x,match(a", "match((a)", "startswith(a)b),match(c", "regex(\"(\")", "regex(\"[a\")", "regex(\"*\")", "regex(\"a{2\")", "a,regex(b,\"(c\"),d", "match(a),startswith(b" };
    int    k = (int) symx_choose(sizeof(bad) / sizeof(bad[0]), "filter");
    int    side = (int) symx_choose(2, "side");
    SymStr o(0, 1, "other");
    word(o);
    for (size_t i = 0; i < o.n; ++i)
        symx_assume(o.p[i] != '(' && o.p[i] != ')' && o.p[i] != ',');
    std::string other = o.str(), b = bad[k];
    if (k == 8)
        b = "startswith(a),match(c";
    auto p = side ? RegionFilter::from_config(other, b) : RegionFilter::from_config(b, other);
    CHECK(!p.second.empty(), "malformed filters are an error");
    CHECK(!p.first.has_filters(), "malformed filters yield no filter");
    symx_reach("malformed");
}

// arbitrary text: no crash, errors yield no filter
ENTRY(c21_bytes)
{
    SymStr s(0, symx_param("len", 3), "text");
    static const char* pre[] = { "", "match(", "startswith(a", "a,", "match(a)", "match(\"" };
    std::string t = std::string(pre[symx_choose(6, "prefix")]) + s.str();
    auto p = RegionFilter::from_config(t, "");
    CHECK(p.second.empty() || !p.first.has_filters(), "malformed filters yield no filter");
    p.first.pass(Variant("ab"));
    symx_reach("bytes");
}

// regular expressions
ENTRY(c21_regex)
{
    int    k = (int) symx_choose(9, "regex");
    SymStr r(0, symx_param("len", 2), "region");
    std::string s = r.str();
    static const char* re[] = { "\".*b.*\"", "a*b", "[a-c]x?", "\"(ab|c)*\"", "a.", ".*", "\"a+\",cb", "[^a]*", "\"a{2}|b\"" };
    bool want = false;
    auto all = [&](auto f) {
        for (char c : s)
            if (!f(c))
                return false;
        return true;
    };
    auto eol = [](char c) { return c == '\n' || c == '\r'; };
    switch (k) {
    case 0: want = s.find('b') != std::string::npos && all([&](char c) { return !eol(c); }); break;
    case 1: want = !s.empty() && s.back() == 'b' && s.find_first_not_of('a') == s.size() - 1; break;
    case 2: want = (s.size() == 1 || (s.size() == 2 && s[1] == 'x')) && s[0] >= 'a' && s[0] <= 'c'; break;
    case 3: {
        size_t i = 0;
        want = true;
        while (i < s.size() && want)
            if (s[i] == 'c')
                ++i;
            else if (s[i] == 'a' && i + 1 < s.size() && s[i + 1] == 'b')
                i += 2;
            else
                want = false;
        break;
    }
    case 4: want = s.size() == 2 && s[0] == 'a' && !eol(s[1]); break;
    case 5: want = all([&](char c) { return !eol(c); }); break;
    case 6: want = (!s.empty() && all([](char c) { return c == 'a'; })) || s == "cb"; break;
    case 7: want = all([](char c) { return c != 'a'; }); break;
    case 8: want = s == "aa" || s == "b"; break;
    }
    bool other = symx_choose(2, "other");
    auto p = RegionFilter::from_config(std::string(other ? "zz,startswith(zy)," : "") + "regex(" + re[k] + ")", "");
    CHECK(p.second.empty() && p.first.has_filters(), "the filter is accepted");
    CHECK(pass(p.first, s) == (want || (other && (s == "zz" || starts(s, "zy")))), "exactly the regions that match the expression pass");
    symx_reach("regex");
}

// measurements at selected regions
ENTRY(c21_events)
{
    quiet();
    Caliper   c;
    Attribute A = c.create_attribute("A", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute B = c.create_attribute("B", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute T = c.create_attribute("T", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    Attribute I = c.create_attribute("I", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    int what = (int) symx_choose(4, "filter");
    SymStr n(1, 1, "name");
    word(n);
    symx_assume(n.p[0] != '(' && n.p[0] != ')' && n.p[0] != ',');
    std::string name = n.str();
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "event" } };
    static const char* keys[] = { "CALI_EVENT_INCLUDE_REGIONS", "CALI_EVENT_EXCLUDE_REGIONS", "CALI_EVENT_INCLUDE_BRANCHES", "CALI_EVENT_INCLUDE_BRANCHES" };
    cfg[keys[what]] = name;
    if (what == 3) // branches and regions
        cfg["CALI_EVENT_EXCLUDE_REGIONS"] = "b";
    Channel ch = make_channel(c, "flt", cfg);
    c.activate_channel(ch);
    int count = 0, want = 0;
    ch.events().process_snapshot.connect([&](Caliper*, SnapshotView, SnapshotView) { ++count; });
    struct O { int a; std::string v; };
    std::vector<O> open;
    int steps = (int) symx_param("steps", 4);
    auto sel = [&](const O& e) {
        bool num  = e.a == 3;
        bool self = !num && e.v == name;
        bool br   = self;
        for (const O& o : open)
            br |= o.a < 2 && o.v == name;
        if (e.a == 2)
            for (const O& o : open)
                br |= o.a == 2 && o.v == name;
        switch (what) {
        case 0: return num || self;
        case 1: return num || !self;
        case 2: return br;
        }
        return br && (num || e.v != "b");
    };
    for (int i = 0; i < steps; ++i) {
        int op = (int) symx_choose(6, nm("op", i));
        O   e;
        if (op < 4) {
            e.a = op == 0 ? 0 : op == 1 ? 1 : op == 2 ? 2 : 0;
            e.v = op == 0 ? "a" : op == 3 ? "b" : op == 1 ? "c" : "a";
            want += sel(e);
            // the program's name may be a temporary
            char* tmp = (char*) malloc(2);
            tmp[0] = e.v[0];
            tmp[1] = 0;
            c.begin(e.a == 0 ? A : e.a == 1 ? B : T, Variant(tmp));
            free(tmp);
            open.push_back(e);
        } else if (op == 4) {
            symx_assume(!open.empty());
            e = open.back();
            want += sel(e);
            open.pop_back();
            c.end(e.a == 0 ? A : e.a == 1 ? B : T);
        } else {
            e.a = 3;
            want += sel(e);
            c.set(I, Variant(i));
        }
        CHECK(count == want, "measurements are taken at exactly the selected regions");
    }
    symx_reach("events");
}
