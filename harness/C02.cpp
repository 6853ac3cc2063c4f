// C02: text forms of values, types and attribute properties
#include "hc.h"
#include "StringConverter.h"
#include "caliper/common/cali_types.h"
#include <climits>
#include <sstream>

// windows around the values where digit counts, signs and ranges change
static const uint64_t bases[] = { 0, 1000, 999990, 4294967200ull, 9223372036854775700ull, 9999999999999999990ull, 18446744073709551500ull };

static uint64_t window(const char* name)
{
    uint64_t b = bases[symx_choose(sizeof(bases) / sizeof(bases[0]), "base")];
    uint64_t d = symx_range(0, symx_param("delta", 115), name);
    return b + d;
}

static std::string written(Variant v)
{
    std::ostringstream os;
    v.write_cali(os);
    return os.str();
}

ENTRY(c02_int)
{
    uint64_t u = window("d");
    int64_t  i = symx_choose(2, "neg") ? -(int64_t) u : (int64_t) u;
    Variant  v(cali_make_variant_from_int64(i));
    std::string s = v.to_string();
    CHECK(s.size() >= 1 && s.size() <= 20, "int: length of the text form");
    Variant w = Variant::from_string(CALI_TYPE_INT, s.c_str());
    CHECK(w.type() == CALI_TYPE_INT && w.to_int64() == i, "int: text round trip");
    Variant x = Variant::from_string(CALI_TYPE_INT, written(v).c_str());
    CHECK(x == v, "int: record text round trip");
    symx_print("n", s.size());
    symx_reach("int");
}

ENTRY(c02_uint)
{
    uint64_t u = window("d");
    Variant  v(cali_make_variant_from_uint(u));
    std::string s = v.to_string();
    Variant w = Variant::from_string(CALI_TYPE_UINT, s.c_str());
    CHECK(w.type() == CALI_TYPE_UINT && w.to_uint() == u, "uint: text round trip");
    Variant x = Variant::from_string(CALI_TYPE_UINT, written(v).c_str());
    CHECK(x == v, "uint: record text round trip");
    symx_print("n", s.size());
    symx_reach("uint");
}

ENTRY(c02_addr)
{
    uint64_t u = symx_u64("addr") & (UINT64_MAX >> symx_param("shift", 32));
    if (symx_choose(2, "high"))
        u |= 0xffff000000000000ull;
    Variant  v(CALI_TYPE_ADDR, &u, sizeof(u));
    std::string s = v.to_string();
    Variant w = Variant::from_string(CALI_TYPE_ADDR, s.c_str());
    CHECK(w == v && w.type() == CALI_TYPE_ADDR, "address: text round trip");
    Variant x = Variant::from_string(CALI_TYPE_ADDR, written(v).c_str());
    CHECK(x == v, "address: record text round trip");
    symx_reach("addr");
}

ENTRY(c02_small)
{
    bool    b = symx_range(0, 1, "b") != 0;
    Variant v(b);
    Variant w = Variant::from_string(CALI_TYPE_BOOL, v.to_string().c_str());
    CHECK(w == v, "bool: text round trip");
    cali_attr_type t = (cali_attr_type) (1 + symx_choose(CALI_MAXTYPE, "t"));
    Variant        tv(t);
    CHECK(Variant::from_string(CALI_TYPE_TYPE, tv.to_string().c_str()) == tv, "type value: text round trip");
    CHECK(Variant::from_string(CALI_TYPE_TYPE, written(tv).c_str()) == tv, "type value: record text round trip");
    CHECK(cali_string2type(cali_type2string(t)) == t, "type name round trip");
    symx_reach("small");
}

ENTRY(c02_string)
{
    SymStr  s(0, symx_param("len", 4), "s");
    Variant v(CALI_TYPE_STRING, s.p, s.n);
    std::string t = v.to_string();
    CHECK(t == s.str(), "string: text form is the string");
    Variant w = Variant::from_string(CALI_TYPE_STRING, t.c_str());
    CHECK(w == v, "string: text round trip");
    CHECK(Variant(s.p) == v, "string: both ways of making a string value agree");
    symx_reach("string");
}

// the escaped form never contains an unescaped separator and un-escaping restores all printable text
ENTRY(c02_escape)
{
    SymStr  s(0, symx_param("len", 3), "s");
    Variant v(CALI_TYPE_STRING, s.p, s.n);
    std::string t = written(v);
    std::string u;
    for (size_t i = 0; i < t.size(); ++i) {
        char c = t[i];
        CHECK(c != ',' && c != '=' && c != '\n', "escaped text: no bare separator");
        if (c == '\\') {
            CHECK(i + 1 < t.size(), "escaped text: no dangling escape");
            ++i;
            if (i < t.size())
                u.push_back(t[i] == 'n' ? '\n' : t[i]);
        } else
            u.push_back(c);
    }
    std::string want;
    for (size_t i = 0; i < s.n; ++i)
        if ((unsigned char) s.p[i] >= 0x20 || s.p[i] == '\n')
            want.push_back(s.p[i]);
    CHECK(u == want, "escaped text: every byte other than a control character is kept");
    symx_reach("escape");
}

// reference for decimal parsing of short strings: [space]* [+-]? digit+
static bool ref_int(const char* p, int64_t* out)
{
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        ++p;
    bool neg = false;
    if (*p == '-' || *p == '+')
        neg = *p++ == '-';
    if (*p < '0' || *p > '9')
        return false;
    int64_t v = 0;
    for (; *p >= '0' && *p <= '9'; ++p)
        v = v * 10 + (*p - '0');
    *out = neg ? -v : v;
    return true;
}

ENTRY(c02_parse_int)
{
    SymStr  s(0, symx_param("len", 3), "s");
    int64_t want = 0;
    bool    ok   = ref_int(s.p, &want);
    Variant v    = Variant::from_string(CALI_TYPE_INT, s.p);
    CHECK(ok == !v.empty(), "int text: accepted exactly when it starts with a number");
    if (ok) {
        CHECK(v.type() == CALI_TYPE_INT && v.to_int64() == want, "int text: value");
        symx_reach("number");
    } else
        symx_reach("no number");
}

ENTRY(c02_parse_uint)
{
    SymStr   s(0, symx_param("len", 3), "s");
    bool     ok   = s.n > 0 && s.p[0] >= '0' && s.p[0] <= '9';
    uint64_t want = 0;
    for (const char* p = s.p; ok && *p >= '0' && *p <= '9'; ++p)
        want = want * 10 + (uint64_t) (*p - '0');
    Variant v = Variant::from_string(CALI_TYPE_UINT, s.p);
    CHECK(ok == !v.empty(), "uint text: accepted exactly when it starts with a digit");
    if (ok)
        CHECK(v.type() == CALI_TYPE_UINT && v.to_uint() == want, "uint text: value");
    symx_reach("done");
}

// arbitrary text for every type: the result is empty or has the requested type
ENTRY(c02_parse_any)
{
    static const cali_attr_type types[] = { CALI_TYPE_INV, CALI_TYPE_USR, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_PTR };
    cali_attr_type t = types[symx_choose(7, "t")];
    SymStr  s(0, symx_param("len", 3), "s");
    Variant v = Variant::from_string(t, s.p);
    CHECK(v.empty() || v.type() == t, "text: result has the requested type");
    if (t == CALI_TYPE_STRING)
        CHECK(!v.empty() && v.size() == s.n, "text: strings are taken as they are");
    if (t == CALI_TYPE_BOOL && s.n == 1 && !v.empty())
        CHECK(v.to_bool() == (s.p[0] == 't' || s.p[0] == 'T' || (s.p[0] >= '1' && s.p[0] <= '9')), "text: single character booleans");
    symx_reach("done");
}

ENTRY(c02_props)
{
    static const int scopes[] = { 0, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_SCOPE_TASK };
    uint32_t r = symx_u32("props");
    int flags  = CALI_ATTR_ASVALUE | CALI_ATTR_NOMERGE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN | CALI_ATTR_NESTED | CALI_ATTR_GLOBAL | CALI_ATTR_UNALIGNED | CALI_ATTR_AGGREGATABLE;
    bool   small = symx_choose(2, "small") != 0;
    int    prop  = ((int) r & flags) | scopes[symx_choose(small ? 2 : 4, "scope")] | (int) (small ? 0x20000 : symx_range(0, 7, "level") << 16);
    static const size_t caps[] = { 8, 31, 60, 93 };
    size_t cap = small ? caps[symx_choose(4, "cap")] : 160;
    Buf    buf(cap);
    int    n = cali_prop2string(prop, (char*) buf.p, cap);
    if (n >= 0) {
        CHECK((size_t) n < cap && buf[n] == 0 && strlen((char*) buf.p) == (size_t) n, "properties: text is terminated inside the buffer");
        CHECK(cali_string2prop((const char*) buf.p) == prop, "properties: text round trip");
        symx_reach("fits");
    } else {
        CHECK(cap < 160, "properties: 160 bytes are enough");
        symx_reach("too small");
    }
}

ENTRY(c02_unknown_type)
{
    SymStr         s(0, symx_param("len", 6), "s");
    cali_attr_type t = cali_string2type(s.p);
    bool           known = false;
    for (int i = 0; i <= CALI_MAXTYPE; ++i)
        known |= strcmp(s.p, cali_type2string((cali_attr_type) i)) == 0;
    if (known)
        CHECK(strcmp(s.p, cali_type2string(t)) == 0, "type name: recognised");
    else
        CHECK(t == CALI_TYPE_INV, "type name: unknown names are invalid");
    CHECK(strcmp(cali_type2string((cali_attr_type) symx_range(CALI_MAXTYPE + 1, 4000, "big")), "inv") == 0, "type name: out of range types are invalid");
    symx_reach("done");
}

// numeric conversions are exact or reported as failed
ENTRY(c02_convert)
{
    int      kind = (int) symx_choose(8, "kind");
    Variant  v    = sym_scalar(kind, "v");
    uint64_t u    = bits(v);
    int64_t  i    = (int64_t) u;
    bool ok_i = false, ok_l = false, ok_u = false, ok_d = false, ok_b = false, ok_t = false;
    if (kind == 2) {
        double d = v.to_double(&ok_d);
        uint64_t b;
        memcpy(&b, &d, 8);
        CHECK(ok_d && b == u, "convert: double stays itself");
        symx_assume(d > -2000000000.0 && d < 2000000000.0);
        int      x = v.to_int(&ok_i);
        CHECK(ok_i && x == (int) d, "convert: double to int truncates");
        int64_t  y = v.to_int64(&ok_l);
        CHECK(ok_l && y == (int64_t) d, "convert: double to int64 truncates");
        symx_reach("double");
        return;
    }
    int      ri = v.to_int(&ok_i);
    int64_t  rl = v.to_int64(&ok_l);
    uint64_t ru = v.to_uint(&ok_u);
    bool     rb = v.to_bool(&ok_b);
    cali_attr_type rt = v.to_attr_type(&ok_t);
    CHECK(ok_t == (kind == 4) && (ok_t ? (uint64_t) rt == (uint32_t) u : rt == CALI_TYPE_INV), "convert: type");
    if (kind >= 6) {
        v.to_double(&ok_d);
        CHECK(!ok_i && !ok_l && !ok_u && !ok_d && !ok_b && ri == 0 && rl == 0 && ru == 0 && !rb, "convert: non-numeric values are not numbers");
        CHECK(v.to_id() == CALI_INV_ID, "convert: no id");
    } else if (kind == 0) {
        CHECK(ok_i == (i >= INT_MIN && i <= INT_MAX) && (!ok_i || ri == i), "convert: int to int");
        CHECK(ok_l && rl == i, "convert: int to int64");
        CHECK(ok_u == (i >= 0) && (!ok_u || ru == u), "convert: int to uint");
        CHECK(ok_b && rb == (i != 0), "convert: int to bool");
    } else if (kind == 1 || kind == 5) {
        CHECK(ok_i == (u <= INT_MAX) && (!ok_i || (uint64_t) ri == u), "convert: uint to int");
        CHECK(ok_l == (u <= INT64_MAX) && (!ok_l || (uint64_t) rl == u), "convert: uint to int64");
        CHECK(ok_u && ru == u && v.to_id() == u, "convert: uint to uint");
        CHECK(ok_b && rb == (u != 0), "convert: uint to bool");
    } else if (kind == 3) {
        CHECK(ok_i && ok_l && ok_u && ok_b && ri == (int) u && rl == i && ru == u && rb == (u != 0), "convert: bool");
    } else
        CHECK(ok_i && ok_l && ok_u && !ok_b && (uint64_t) ri == u && ru == u, "convert: type to number");
    symx_reach("scalar");
}
