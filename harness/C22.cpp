// C22: configuration strings, configuration files, and conversions of configuration values
#include "cal.h"
#include "caliper/ChannelController.h"
#include "common/StringConverter.h"
#include <fstream>
#include <map>

static void no_service(cali::Caliper*, cali::Channel*) {}
static cali::CaliperService sva = { "sva", no_service }, svb = { "svb", no_service };
SERVICES(sva, svb)

static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool any_of(char c, const char* s) { bool r = false; for (; *s; ++s) r |= (c == *s); return r; }

// writes a value: 0 plain, 1 quoted, 2 escaped, 3 partly quoted
static std::string written(const SymStr& s, int form, const char* sep)
{
    std::string r;
    if (form == 0) {
        symx_assume(s.n > 0);
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(!(blank(s.p[i]) | any_of(s.p[i], sep) | (s.p[i] == '"') | (s.p[i] == '\\')));
        return s.str();
    }
    if (form == 1 || form == 3)
        r += '"';
    for (size_t i = 0; i < s.n; ++i) {
        if (form == 3 && i == 1)
            r += '"';
        if (form == 2 || (form == 3 && i > 0))
            r += '\\';
        else {
            // escape what needs to be escaped within quotes
            if (s.p[i] == '"' || s.p[i] == '\\')
                r += '\\';
        }
        r += s.p[i];
    }
    if (form == 1 || (form == 3 && s.n <= 1))
        r += '"';
    return r;
}

static const char* gaps[] = { "", " ", "\t", "\n" };

ENTRY(c22_list)
{
    size_t                   len = symx_param("len", 2), n = 1 + symx_choose(2, "n");
    static const char*       seps[] = { ",", ",:", " ," };
    const char*              sep    = seps[symx_choose(2, "sep")];
    std::string              text   = gaps[symx_choose(2, "gap")];
    std::vector<std::string> want;
    for (size_t i = 0; i < n; ++i) {
        SymStr v(0, i ? 1 : len, nm("v", i));
        text += written(v, symx_choose(4, "form"), sep);
        if (v.n)
            want.push_back(v.str());
        text += gaps[symx_choose(2, "gap")];
        if (i + 1 < n) {
            text += sep[symx_choose(strlen(sep), "sepchar")];
            text += gaps[symx_choose(2, "gap")];
        }
    }
    bool ok   = false;
    auto list = StringConverter(text).to_stringlist(sep, &ok);
    CHECK(ok, "a list can be converted");
    CHECK(list.size() == want.size(), "a list has the items that were written");
    if (list.size() == want.size())
        for (size_t i = 0; i < want.size(); ++i)
            CHECK(list[i] == want[i], "a list item is what was written");
    symx_reach("list");
}

// nested lists and dicts
ENTRY(c22_nested)
{
    size_t                   len  = symx_param("len", 2);
    bool                     dict = symx_choose(2, "dict");
    size_t                   n    = 1 + symx_choose(2, "n");
    std::vector<std::string> vals;
    std::string              text = gaps[symx_choose(2, "gap")];
    text += dict ? "{" : "[";
    static const char* keys[] = { "one", "t,}w" };
    for (size_t i = 0; i < n; ++i) {
        if (i)
            text += i == 1 ? ", " : ",";
        if (dict)
            text += i ? "\"t,}w\" :" : " \"one\":  ";
        SymStr v(1, i ? 1 : len, nm("v", i));
        int    f = symx_choose(5, "form");
        if (f < 3) {
            std::string w = written(v, f, dict ? ",}" : ",]");
            if (f == 0)
                symx_assume((v.p[0] != '{') & (v.p[0] != '[') & (v.p[0] != ']') & (v.p[0] != '}'));
            text += w;
            vals.push_back(v.str());
        } else {
            // nested values are kept verbatim: arbitrary text in quotes
            std::string w = (f == 3 ? "{ k: " : "[ x , ") + written(v, 1, "") + (f == 3 ? ", l: { m: \"}\" } }" : ", [ \"]\" ] ]");
            text += w;
            vals.push_back(w);
            bool ok = false;
            if (f == 3) {
                auto d = StringConverter(w).rec_dict(&ok);
                CHECK(ok && d.size() == 2, "a nested dict has the entries that were written");
                CHECK(d["k"].to_string() == v.str(), "a value in a nested dict is what was written");
                CHECK(d["l"].to_string() == "{ m: \"}\" }", "a nested dict is kept verbatim");
            } else {
                auto l = StringConverter(w).rec_list(&ok);
                CHECK(ok && l.size() == 3, "a nested list has the items that were written");
                if (l.size() == 3) {
                    CHECK(l[0].to_string() == "x" && l[1].to_string() == v.str(), "an item of a nested list is what was written");
                    CHECK(l[2].to_string() == "[ \"]\" ]", "a nested list is kept verbatim");
                }
            }
        }
        text += gaps[symx_choose(2, "gap")];
    }
    bool cut = symx_choose(2, "cut");
    if (!cut)
        text += dict ? "}" : "]";
    bool ok = false;
    if (dict) {
        auto d = StringConverter(text).rec_dict(&ok);
        CHECK(ok == !cut, "a dict without end is an error, any other is not");
        if (!cut) {
            CHECK(d.size() == n, "a dict has the entries that were written");
            for (size_t i = 0; i < n; ++i)
                CHECK(d.count(keys[i]) && d[keys[i]].to_string() == vals[i], "a value in a dict is what was written");
        }
    } else {
        auto l = StringConverter(text).rec_list(&ok);
        CHECK(ok == !cut, "a list without end is an error, any other is not");
        if (!cut) {
            CHECK(l.size() == n, "a list has the items that were written");
            for (size_t i = 0; i < n && i < l.size(); ++i)
                CHECK(l[i].to_string() == vals[i], "an item of a list is what was written");
        }
    }
    symx_reach("nested");
}

// conversion of any text to bool and numbers
ENTRY(c22_numbers)
{
    SymStr s(0, symx_param("len", 3), "s", false);
    // what the text says: blanks, a sign, digits
    size_t   i = 0;
    while (i < s.n && blank(s.p[i]))
        ++i;
    bool neg = i < s.n && s.p[i] == '-';
    if (i < s.n && (s.p[i] == '-' || s.p[i] == '+'))
        ++i;
    bool    num = false;
    int64_t v   = 0;
    for (; i < s.n && s.p[i] >= '0' && s.p[i] <= '9'; ++i) {
        v   = v * 10 + (s.p[i] - '0');
        num = true;
    }
    if (neg)
        v = -v;
    StringConverter sc(s.str());
    bool            ok = !num;
    switch (symx_choose(4, "type")) {
    case 0:
        {
            int r = sc.to_int(&ok);
            CHECK(ok == num, "exactly texts that begin with a number can be converted to int");
            CHECK(r == v, "text is converted to the int it contains");
            break;
        }
    case 1:
        {
            int64_t r = sc.to_int64(&ok);
            CHECK(ok == num, "exactly texts that begin with a number can be converted to int64");
            CHECK(r == v, "text is converted to the int64 it contains");
            break;
        }
    case 2:
        {
            uint64_t r = sc.to_uint(&ok);
            CHECK(ok == (num && !neg), "exactly texts that begin with an unsigned number can be converted to uint");
            CHECK(r == (num && !neg ? (uint64_t) v : 0), "text is converted to the uint it contains");
            CHECK(sc.to_id() == (num && !neg ? (cali_id_t) v : CALI_INV_ID), "text is converted to the id it contains");
            break;
        }
    case 3:
        {
            bool r = sc.to_bool(&ok);
            bool t = s.n == 1 && (s.p[0] | 32) == 't', f = s.n == 1 && (s.p[0] | 32) == 'f';
            CHECK(ok == (t | f | num), "exactly boolean texts can be converted to bool");
            CHECK(r == (t || (num && v != 0)), "text is converted to the bool it contains");
            break;
        }
    }
    symx_reach("numbers");
}

ENTRY(c22_bool)
{
    static const char* words[] = { "true", "false", "True", "t", "FALSE", "f" };
    int                w       = symx_choose(6, "word");
    size_t             n       = strlen(words[w]);
    std::string        s(words[w]);
    // any capitalisation, one byte changed
    size_t pos = symx_choose(n, "pos");
    char   c   = symx_u8("c");
    symx_assume(c != 0);
    s[pos] = c;
    std::string l(s);
    for (char& x : l)
        x = x >= 'A' && x <= 'Z' ? x + 32 : x;
    bool t = l == "true" || l == "t", f = l == "false" || l == "f";
    bool d = pos == 0 && c >= '0' && c <= '9';
    symx_assume(!d);
    bool ok = false;
    bool r  = StringConverter(s).to_bool(&ok);
    CHECK(ok == (t || f), "exactly true, t, false, and f are boolean");
    CHECK(r == t, "true is true");
    symx_reach("bool");
}

ENTRY(c22_limits)
{
    static const struct { const char* text; int ok_int, ok_int64, ok_uint; uint64_t v; } t[] = {
        { "2147483647", 1, 1, 1, 2147483647 }, { "2147483648", 0, 1, 1, 2147483648ull },
        { "-2147483648", 1, 1, 0, (uint64_t) -2147483648ll }, { "-2147483649", 0, 1, 0, (uint64_t) -2147483649ll },
        { "9223372036854775807", 0, 1, 1, 9223372036854775807ull }, { "9223372036854775808", 0, 0, 1, 9223372036854775808ull },
        { "-9223372036854775808", 0, 1, 0, 9223372036854775808ull }, { "-9223372036854775809", 0, 0, 0, 0 },
        { "18446744073709551615", 0, 0, 1, ~0ull }, { "18446744073709551616", 0, 0, 0, 0 },
    };
    int  i  = symx_choose(10, "text");
    // any number of leading zeros and blanks does not change the value
    std::string text(gaps[symx_choose(4, "gap")]);
    bool neg = t[i].text[0] == '-';
    if (neg)
        text += "-";
    text += symx_choose(2, "zeros") ? "00" : "";
    text += t[i].text + neg;
    StringConverter sc(text);
    bool ok = false;
    int  a  = sc.to_int(&ok);
    CHECK(ok == t[i].ok_int && (!ok || a == (int) t[i].v), "int conversion at the limits");
    int64_t b = sc.to_int64(&ok);
    CHECK(ok == t[i].ok_int64 && (!ok || b == (int64_t) t[i].v), "int64 conversion at the limits");
    uint64_t c = sc.to_uint(&ok);
    CHECK(ok == t[i].ok_uint && (!ok || c == t[i].v), "uint conversion at the limits");
    symx_reach("limits");
}

// --- configuration manager

struct Seen {
    bool                     made = false;
    bool                     set_s = false, en_s = false, set_a = false, en_a = false, en_b = false, en_inh = false;
    std::string              s, a;
    std::vector<std::string> enabled;
    config_map_t             cfg;
    info_map_t               meta;
    std::string              qlocal, qcross;
};
static Seen* seen;

class TestCtrl : public ChannelController
{
public:

    TestCtrl(const char* name, const config_map_t& cfg, const ConfigManager::Options& o) : ChannelController(name, 0, cfg)
    {
        seen->made  = true;
        seen->set_s = o.is_set("s");
        seen->en_s  = o.is_enabled("s");
        seen->set_a = o.is_set("a");
        seen->en_a  = o.is_enabled("a");
        seen->en_b  = o.is_enabled("b");
        seen->en_inh = o.is_enabled("inh");
        seen->s     = o.get("s", "-none-");
        seen->a     = o.get("a", "-none-");
        seen->enabled = o.enabled_options();
        o.update_channel_config(config());
        o.update_channel_metadata(metadata());
        seen->cfg    = copy_config();
        seen->meta   = metadata();
        seen->qlocal = o.build_query("local", "Q");
        seen->qcross = o.build_query("cross", "Q");
    }
};
static ChannelController* make_test(const char* name, const config_map_t& cfg, const ConfigManager::Options& o)
{
    return new TestCtrl(name, cfg, o);
}

static const char* alpha_spec =
    "{ \"name\": \"alpha\", \"categories\": [ \"cat\" ], \"description\": \"d\","
    "  \"config\": { \"K1\": \"v1\", \"K2\": \"v{}\" },"
    "  \"defaults\": { \"d\": \"defval\" },"
    "  \"options\": ["
    "   { \"name\": \"a\", \"type\": \"bool\", \"description\": \"x\", \"config\": { \"A\": \"on\" }, \"query\": { \"local\": \"let qa\" } },"
    "   { \"name\": \"s\", \"type\": \"string\", \"description\": \"x\", \"config\": { \"S\": \"<{}>\", \"T\": \"{{{}}\" }, \"query\": { \"local\": \"where {}\", \"cross\": \"c={}\" } },"
    "   { \"name\": \"b\", \"type\": \"bool\", \"inherit\": [ \"inh\" ], \"description\": \"x\" },"
    "   { \"name\": \"d\", \"type\": \"string\", \"description\": \"x\", \"config\": { \"D\": \"{}\" } }"
    " ] }";
static const char* beta_spec = "{ \"name\": \"beta\", \"alias\": [ \"bb\" ], \"description\": \"d\", \"options\": [ { \"name\": \"a\", \"type\": \"bool\", \"description\": \"x\" } ] }";
static const char* options_spec =
    "[ { \"name\": \"inh\", \"category\": \"cat\", \"type\": \"bool\", \"description\": \"x\", \"config\": { \"INH\": \"1\" }, \"query\": { \"cross\": \"ci\" } },"
    "  { \"name\": \"hid\", \"category\": \"other\", \"type\": \"bool\", \"description\": \"x\" } ]";

struct Mgr {
    Seen          s;
    ConfigManager m;
    Mgr()
    {
        quiet();
        seen = &s;
        m.add_option_spec(options_spec);
        m.add_config_spec(ConfigManager::ConfigInfo { alpha_spec, make_test, nullptr });
        m.add_config_spec(ConfigManager::ConfigInfo { beta_spec, make_test, nullptr });
        CHECK(!m.error(), "the test configurations are valid");
    }
    ~Mgr() { seen = nullptr; }
};

// values are taken verbatim however they are written
ENTRY(c22_values)
{
    Mgr         m;
    SymStr      v(1, symx_param("len", 2), "v");
    int         f = symx_choose(5, "form"), place = symx_choose(4, "place");
    std::string text, val = v.str();
    if (f < 4)
        text = "=" + std::string(gaps[symx_choose(2, "gap")]) + written(v, f, ",=()\n");
    else {
        // nested text: parentheses match outside of quotes
        for (size_t i = 0; i < v.n; ++i)
            symx_assume((v.p[i] != '(') & (v.p[i] != ')') & (v.p[i] != '"') & (v.p[i] != '\\'));
        val  = v.str() + " (\")\",(x)) y=\\(" + v.str();
        text = "(" + val + ")";
    }
    static const char* pre[]  = { "alpha(s", "alpha ( a , s ", "alpha(a,b),s", " s " };
    static const char* post[] = { ")", ", b )", "", ", alpha(a)" };
    text = pre[place] + text + gaps[symx_choose(2, "gap")] + post[place];
    std::string err = m.m.check(text.c_str());
    CHECK(err.empty(), "a valid configuration string passes the check");
    CHECK(m.m.add(text.c_str()), "a valid configuration string is accepted");
    CHECK(!m.m.error(), "no error is reported for a valid configuration string");
    CHECK(m.m.get_all_channels().size() == 1, "the profile that is named is created");
    CHECK(m.s.made && m.s.s == val, "the value of an option is what was written");
    CHECK(m.s.set_s && m.s.en_s, "an option with a value is enabled");
    CHECK(m.s.en_a == (place != 0), "a boolean option is enabled if it is named");
    CHECK(m.s.en_b == (place == 1 || place == 2), "a boolean option is enabled if it is named");
    CHECK(m.s.en_inh == m.s.en_b, "an inherited option is enabled with the option");
    symx_reach("values");
}

// what is enabled takes effect
ENTRY(c22_options)
{
    Mgr                m;
    SymStr             v(1, symx_param("len", 1), "v");
    int                sa = symx_choose(4, "a"), sb = symx_choose(2, "b"), ss = symx_choose(2, "s"), sd = symx_choose(2, "d"), dup = symx_choose(3, "dup"), meta = symx_choose(2, "meta");
    static const char* as[] = { "", "a,", "a=true,", "a=false," };
    static const char* dups[] = { "", "a=true,", "a=f," };
    std::string        text = std::string("alpha(") + as[sa] + (sb ? "b," : "");
    if (ss)
        text += "s=" + written(v, 1, "") + ",";
    if (sd)
        text += "d=dd,";
    if (meta)
        text += "metadata(mk=" + written(v, 1, "") + ",mm=x),";
    text += dups[dup];
    text += "metadata(zz=1))";
    CHECK(m.m.check(text.c_str()).empty() && m.m.add(text.c_str()), "a valid configuration string is accepted");
    auto& s = m.s;
    CHECK(s.made, "the profile that is named is created");
    bool want_a = sa == 0 ? dup == 1 : sa < 3;
    CHECK(s.en_a == want_a, "a boolean option is enabled by its effective value");
    CHECK(s.set_a == (sa > 0 || dup > 0), "an option that is written is set");
    if (s.set_a)
        CHECK(StringConverter(s.a).to_bool() == s.en_a, "an option's value agrees with whether it is enabled");
    CHECK(s.en_b == (sb == 1) && s.en_inh == (sb == 1), "an option enables the options it inherits");
    CHECK(s.cfg.count("A") == want_a, "exactly enabled options change the configuration");
    CHECK(s.cfg.count("INH") == (sb == 1), "exactly enabled options change the configuration");
    CHECK(s.cfg.count("S") == ss, "exactly enabled options change the configuration");
    if (ss)
        CHECK(s.cfg["S"] == "<" + v.str() + ">" && s.cfg["T"] == "{{" + v.str() + "}", "the value of an option replaces its placeholders");
    CHECK(s.cfg["D"] == (sd ? "dd" : "defval"), "an option that is not given has its default value");
    CHECK(s.cfg["K1"] == "v1" && s.cfg["K2"] == "v{}", "the profile's own configuration is kept");
    std::string ql = "Q", qc = "Q";
    // options take effect in the order in which they are enabled
    std::vector<std::string> order;
    if (sa == 1 || sa == 2)
        ql += " let qa";
    if (sb)
        qc += " ci";
    if (ss) {
        ql += " where " + v.str();
        qc += " c=" + v.str();
    }
    if (sa == 0 && dup == 1)
        ql += " let qa";
    CHECK(s.qlocal == ql, "the local query has the parts of the enabled options");
    CHECK(s.qcross == qc, "the cross query has the parts of the enabled options");
    CHECK(s.enabled.size() == (size_t) want_a + 2 * sb, "the enabled boolean options are listed");
    CHECK(s.meta["zz"] == "1", "metadata is recorded");
    CHECK(s.meta.count("mk") == meta && s.meta.count("mm") == meta, "metadata is recorded");
    if (meta)
        CHECK(s.meta["mk"] == v.str() && s.meta["mm"] == "x", "a metadata value is what was written");
    if (ss)
        CHECK(s.meta["opts:s"] == v.str(), "the value of an option is recorded as metadata");
    symx_reach("options");
}

// services, value types, inheritance of disabled options, repeated options
ENTRY(c22_effects)
{
    quiet();
    Seen s;
    seen = &s;
    ConfigManager m;
    int           base = symx_choose(3, "base");
    std::string   spec = "{\"name\":\"alpha\",\"config\":{" + std::string(base == 1 ? "\"CALI_SERVICES_ENABLE\":\"sva\"," : base == 2 ? "\"CALI_SERVICES_ENABLE\":\"zz, yy\"," : "") + "\"K\":\"k\"}";
    bool          psv  = symx_choose(2, "services");
    if (psv)
        spec += ",\"services\":[\"svb\"]";
    spec += ",\"options\":["
            "{\"name\":\"x\",\"type\":\"bool\",\"services\":[\"sva\",\"svb\"],\"inherit\":[\"inh\"]},"
            "{\"name\":\"inh\",\"type\":\"bool\",\"config\":{\"INH\":\"1\"}},"
            "{\"name\":\"u\",\"type\":\"bool\",\"services\":[\"sva\",\"missing\"]},"
            "{\"name\":\"n\",\"type\":\"int\",\"config\":{\"N\":\"{}\"}},"
            "{\"name\":\"f\",\"type\":\"double\",\"config\":{\"F\":\"{}\"}},"
            "{\"name\":\"s\",\"type\":\"string\",\"config\":{\"S\":\"{}\"},\"query\":{\"local\":\"l={}\"}}]}";
    m.add_config_spec(ConfigManager::ConfigInfo { spec.c_str(), make_test, nullptr });
    CHECK(!m.error(), "the test configuration is valid");
    static const char* xs[]   = { "", "x,", "x=false,", "x=0,", "x=abc," };
    static const char* us[]   = { "", "u,", "u=false," };
    static const char* nums[] = { nullptr, "4", "-2", "abc", "x4", "true" };
    int                x = symx_choose(5, "x"), u = symx_choose(3, "u"), which = symx_choose(2, "which"), v = symx_choose(6, "v"), dup = symx_choose(3, "dup");
    std::string        text = std::string("alpha(") + xs[x] + us[u];
    if (v)
        text += std::string(which ? "n=" : "f=") + nums[v] + ",";
    if (dup)
        text += dup == 1 ? "s=one," : "s=one,s=two,";
    text += "metadata(z=1))";
    bool        bad = x == 4 || u == 1 || v >= 3;
    std::string err = m.check(text.c_str());
    CHECK(err.empty() == !bad, "the check reports values of a wrong type and missing services");
    CHECK(m.add(text.c_str()) == !bad, "values of a wrong type and missing services are errors");
    if (!bad) {
        CHECK(s.made, "the profile that is named is created");
        CHECK((s.cfg.count("INH") == 1) == (x == 1), "only an enabled option enables the options it inherits");
        CHECK(s.cfg.count("N") == (which && v) && s.cfg.count("F") == (!which && v), "exactly enabled options change the configuration");
        if (v)
            CHECK(s.cfg[which ? "N" : "F"] == nums[v], "the value of an option replaces its placeholders");
        CHECK(s.cfg.count("S") == (dup > 0), "exactly enabled options change the configuration");
        if (dup) {
            CHECK(s.cfg["S"] == s.s, "an option has one value");
            CHECK(s.qlocal == "Q l=" + s.s, "an option has one value");
        }
        std::map<std::string, int> want, got;
        if (base == 1)
            want["sva"] = 1;
        if (base == 2)
            want["zz"] = want["yy"] = 1;
        if (psv)
            want["svb"] = 1;
        if (x == 1)
            want["sva"] = want["svb"] = 1;
        for (const std::string& sv : StringConverter(s.cfg["CALI_SERVICES_ENABLE"]).to_stringlist())
            ++got[sv];
        CHECK(got == want, "exactly the services of the profile and its enabled options are used, once");
    }
    seen = nullptr;
    symx_reach("effects");
}

// metadata from a file
ENTRY(c22_metadata)
{
    Mgr m;
    SymStr v(0, symx_param("len", 2), "v");
    int    keys = symx_choose(7, "keys"), fault = symx_choose(4, "fault");
    {
        std::ofstream os("c22.json");
        os << "{ \"a\": " << written(v, 1, "") << ", \"b\": { \"b1\": 1, \"b2\": { \"c\": \"deep\", \"d\": true } },\n \"e\": 5, \"f\": \"six\", \"g\": 7, \"h\": 8" << (fault == 1 ? "" : " }");
    }
    static const char* K[] = { "", ",keys=a", ",keys=\"b\"", ",keys=\"b.b2\"", ",keys=\"a,b.b2.c,none,e\"", ",keys=\"b.x\"", ",keys=\"a.b,e\"" };
    std::string text = std::string("alpha(metadata(file=") + (fault == 2 ? "c22_missing.json" : "c22.json") + K[keys] + "),metadata(" + (fault == 3 ? "x=1,y=\"2,3\"" : "x=1") + "))";
    CHECK(m.m.add(text.c_str()), "a valid configuration string is accepted");
    info_map_t want;
    if (fault == 0 || fault == 3) {
        auto b2 = [&]() { want["b.b2.c"] = "deep"; want["b.b2.d"] = "true"; };
        if (keys == 0) {
            want["a"] = v.str();
            want["b.b1"] = "1";
            b2();
            want["e"] = "5"; want["f"] = "six"; want["g"] = "7"; want["h"] = "8";
        } else if (keys == 1)
            want["a"] = v.str();
        else if (keys == 2) {
            want["b.b1"] = "1";
            b2();
        } else if (keys == 3)
            b2();
        else if (keys == 4) {
            want["a"] = v.str();
            want["b.b2.c"] = "deep";
            want["e"] = "5";
        } else if (keys == 6)
            want["e"] = "5";
    }
    want["x"] = "1";
    if (fault == 3)
        want["y"] = "2,3";
    info_map_t got = m.s.meta;
    for (auto it = got.begin(); it != got.end();)
        it = it->first.substr(0, 5) == "opts:" ? got.erase(it) : std::next(it);
    CHECK(got.size() == want.size(), "exactly the selected entries of a file are metadata");
    for (auto& p : want)
        CHECK(got.count(p.first) && got[p.first] == p.second, "an entry of a metadata file has the value that is written in it");
    symx_reach("metadata");
}

static std::string letter(const char* name)
{
    char b = symx_u8(name);
    symx_assume((b >= 'a') & (b <= 'z'));
    return std::string(1, b);
}

// settings for one profile win over settings for all, which win over defaults of the profile
ENTRY(c22_precedence)
{
    Mgr         m;
    int         in_profile = symx_choose(2, "profile"), for_spec = symx_choose(3, "spec"), dflt = symx_choose(2, "default"), text_dflt = symx_choose(3, "text");
    std::string v[4];
    for (int i = 0; i < 4; ++i)
        v[i] = letter("v");
    if (for_spec == 1)
        m.m.set_default_parameter_for_config("alpha", "d", v[1].c_str());
    else if (for_spec == 2)
        m.m.set_default_parameter_for_config("beta", "d", v[1].c_str());
    if (dflt)
        m.m.set_default_parameter("d", v[2].c_str());
    std::string text;
    if (text_dflt == 1)
        text += "d=" + v[3] + ", ";
    text += in_profile ? "alpha(a, d=" + v[0] + ")" : std::string(symx_choose(2, "args") ? "alpha(a)" : "alpha");
    if (text_dflt == 2)
        text += ",d=" + v[3];
    CHECK(m.m.check(text.c_str()).empty() && m.m.add(text.c_str()), "a valid configuration string is accepted");
    CHECK(m.s.made, "the profile that is named is created");
    std::string want = in_profile ? v[0] : for_spec == 1 ? v[1] : dflt ? v[2] : text_dflt ? v[3] : std::string("defval");
    CHECK(m.s.cfg["D"] == want, "the most specific setting of an option is used");
    symx_reach("precedence");
}

// lists of profiles
ENTRY(c22_profiles)
{
    Mgr                m;
    static const char* parts[] = { "alpha", "beta", "bb(a)", "alpha(a,s=\"x,y\")", "a", "b=false", "\"alpha\"()", "beta(a=t)" };
    static const char* names[] = { "alpha", "beta", "beta", "alpha", 0, 0, "alpha", "beta" };
    int                n       = 1 + symx_choose(symx_param("n", 3), "n");
    std::string        text;
    std::vector<std::string> want;
    for (int i = 0; i < n; ++i) {
        if (i)
            text += symx_choose(2, "sep") ? "," : " ,\n ";
        int p = symx_choose(8, "part");
        text += parts[p];
        if (names[p])
            want.push_back(names[p]);
    }
    CHECK(m.m.check(text.c_str()).empty(), "a list of profiles passes the check");
    CHECK(m.m.add(text.c_str()), "a list of profiles is accepted");
    auto l = m.m.get_all_channels();
    CHECK(l.size() == want.size(), "every profile that is named is created");
    for (size_t i = 0; i < want.size() && i < l.size(); ++i)
        CHECK(l[i]->name() == want[i], "the profiles are created in order");
    symx_reach("profiles");
}

// unknown names and malformed texts are errors, and nothing is created for them
ENTRY(c22_unknown)
{
    Mgr    m;
    SymStr s(1, symx_param("len", 3), "s");
    int    place = symx_choose(5, "place");
    static const char* pre[]  = { "", "alpha,", "alpha(", "alpha(a,", "beta(" };
    static const char* post[] = { "", "", ")", "=1)", "=x)" };
    std::string        w = written(s, 1, ""), t = s.str();
    static const char* known[] = { "a", "b", "s", "d", "bb", "inh", "hid" };
    for (auto k : known)
        symx_assume(t != k);
    std::string text = pre[place] + w + post[place];
    std::string err  = m.m.check(text.c_str());
    CHECK(!err.empty(), "an unknown name does not pass the check");
    CHECK(!m.m.add(text.c_str()), "an unknown name is rejected");
    CHECK(m.m.error() && m.m.error_msg() == err, "an unknown name is reported");
    CHECK(err.find(t) != std::string::npos, "the report has the unknown name");
    CHECK(place < 2 || m.m.get_all_channels().empty(), "nothing is created for a profile with unknown options");
    symx_reach("unknown");
}

ENTRY(c22_malformed)
{
    Mgr                m;
    static const char* bad[] = {
        "alpha(", "alpha(a", "alpha(a,", "alpha(s=", "alpha(s=)", "alpha(s=,a)", "alpha(s=x", "alpha(s=x y)", "alpha(s=(x))", "alpha(s(x)", "alpha(s(x",
        "alpha(a b)", "alpha(a))", "alpha)", "alpha beta", "alpha(a) beta", "alpha=", "alpha=x", "alpha(a)(b)", "alpha(s=x=y)", "a=", "a=,alpha", "alpha,", ",alpha", "alpha,,beta", "alpha(a", "alpha(s=\"x)",
        "alpha(a=maybe)", "alpha(a=2x1,b=yes)", "beta(a=tru)", "alpha,a=maybe", "alpha(hid)", "beta(s=1)", "beta(inh)", "load", "load(", "load()", "load(nofile.json)", "a(x", "metadata(x", "alpha(metadata(x)", "alpha;beta",
    };
    int n = sizeof bad / sizeof *bad;
    int i = symx_choose(n, "bad");
    std::string text = std::string(symx_choose(2, "before") ? "beta," : "") + bad[i];
    CHECK(!m.m.check(text.c_str()).empty(), "a malformed configuration string does not pass the check");
    CHECK(!m.m.add(text.c_str()), "a malformed configuration string is rejected");
    CHECK(m.m.error() && !m.m.error_msg().empty(), "a malformed configuration string is reported");
    symx_reach("malformed");
}

// arbitrary text: check and add agree; no crash
ENTRY(c22_bytes)
{
    Mgr                m;
    static const char* pre[]  = { "", "alpha", "alpha(", "alpha(s=", "alpha(a(", "alpha(a)", "a=", "alpha(s=\"" };
    static const char* post[] = { "", "", ")", ")", "))", "", ",alpha", "\")" };
    int                p = symx_choose(8, "place");
    SymStr             s(0, symx_param("len", 2), "s");
    std::string        text = pre[p] + s.str() + post[p];
    std::string        err  = m.m.check(text.c_str());
    CHECK(!m.m.error(), "a check does not change the state");
    bool ok = m.m.add(text.c_str());
    CHECK(ok == err.empty(), "the check agrees with what is accepted");
    CHECK(ok == !m.m.error() && ok == m.m.error_msg().empty(), "an error is reported for everything that is not accepted");
    if (ok && p == 7)
        CHECK(m.s.made, "what is accepted is created");
    symx_reach(ok ? "ok" : "error");
}

// options that inherit each other
ENTRY(c22_cycle)
{
    quiet();
    Seen s;
    seen = &s;
    ConfigManager m;
    char b[4];
    for (int i = 0; i < 4; ++i) {
        b[i] = symx_u8("name");
        symx_assume((b[i] >= 'p') & (b[i] <= 'r'));
    }
    auto opt = [&](char n, char i) { return std::string("{\"name\":\"") + n + "\",\"type\":\"bool\",\"inherit\":[\"" + i + "\"],\"config\":{\"" + n + "\":\"1\"}}"; };
    std::string spec = "{\"name\":\"alpha\",\"options\":[" + opt('p', b[0]) + "," + opt('q', b[1]) + "," + opt('r', b[2]) + "]}";
    m.add_config_spec(ConfigManager::ConfigInfo { spec.c_str(), make_test, nullptr });
    CHECK(!m.error(), "the test configuration is valid");
    CHECK(m.add((std::string("alpha(") + b[3] + ")").c_str()), "a valid configuration string is accepted");
    // transitive closure
    bool on[3] = { b[3] == 'p', b[3] == 'q', b[3] == 'r' };
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 3; ++i)
            if (on[i])
                on[b[i] - 'p'] = true;
    for (int i = 0; i < 3; ++i)
        CHECK(s.cfg.count(std::string(1, 'p' + i)) == on[i], "exactly inherited options are enabled");
    seen = nullptr;
    symx_reach("cycle");
}

// configuration and option specifications
ENTRY(c22_spec)
{
    quiet();
    Seen s;
    seen = &s;
    ConfigManager m;
    SymStr        v(1, symx_param("len", 1), "v"), w(1, 1, "w");
    std::string   spec = "{\"name\":" + written(v, 1, "") + ",\"description\":" + written(w, 1, "") + ",\"config\":{\"A\":" + written(w, 1, "") + "}";
    int           bad  = symx_choose(9, "bad");
    static const char* more[] = { "}", ",\"options\":[{\"name\":\"o\",\"type\":\"bool\"}]}", "", ",\"options\":[{\"name\":\"o\"]}", ",\"options\":[{\"type\":\"bool\"}]}", ",\"config\":[]}", ",\"defaults\":x}", ",\"services\":[a}", ",\"options\":[{\"name\":\"o\",\"config\":{A:1]}]}" };
    spec += more[bad];
    m.add_config_spec(ConfigManager::ConfigInfo { spec.c_str(), make_test, nullptr });
    CHECK(m.error() == (bad > 1), "exactly malformed specifications are reported");
    if (bad <= 1) {
        symx_assume(!(v.n == 1 && v.p[0] == 'o'));
        CHECK(m.get_description_for_spec(v.str().c_str()) == w.str(), "a description is what was written");
        std::string t = written(v, 1, "");
        if (bad)
            t += "(o)";
        symx_assume(v.n != 4 || v.str() != "load");
        CHECK(m.add(t.c_str()), "a profile can be used after it is specified");
        CHECK(s.made && s.cfg["A"] == w.str(), "the profile's configuration is what was written");
        CHECK(m.get_channel(v.str().c_str()) != nullptr, "a profile is found by its name");
        m.add_config_spec(spec.c_str());
        CHECK(m.error(), "a second profile with the same name is an error");
    }
    seen = nullptr;
    symx_reach("spec");
}

// --- runtime configuration sets

// set > environment > selected profile > default profile > preset > default value
ENTRY(c22_sources)
{
    int  set = symx_choose(3, "set"), env = symx_choose(3, "env"), sel = symx_choose(3, "selected"), def = symx_choose(2, "in_default"), pre = symx_choose(2, "preset");
    bool read = symx_choose(2, "read_env");
    SymStr v(1, 1, "v");
    {
        std::ofstream os("c22.config");
        os << "# a comment with = and [\n";
        if (sel == 2)
            os << "CALI_CONFIG_PROFILE=p1,p2\n";
        if (def)
            os << "CALI_TEST_KEY=default\n";
        os << "# [p1]\nCALI_TEST_OTHER=p1\n";
        os << "CALI_TEST_KEY=p1\n";
        os << "# [p2]\nCALI_TEST_KEY=p2\n# [p3]\nCALI_TEST_KEY=p3\n";
    }
    RuntimeConfig cfg;
    cfg.allow_read_env(read);
    setenv("CALI_TEST_KEY", "env", 1);
    if (env == 0)
        unsetenv("CALI_TEST_KEY");
    else if (env == 2)
        setenv("CALI_TEST_KEY", v.str().c_str(), 1);
    unsetenv("CALI_TEST_OTHER");
    unsetenv("CALI_CONFIG_PROFILE");
    unsetenv("CALI_CONFIG_FILE");
    cfg.set("CALI_CONFIG_FILE", "c22.config");
    if (pre)
        cfg.preset("CALI_TEST_KEY", "preset");
    if (sel == 1)
        cfg.set("CALI_CONFIG_PROFILE", "p1");
    if (set == 1)
        cfg.set("CALI_TEST_KEY", v.str());
    else if (set == 2)
        cfg.import({ { "CALI_TEST_KEY", "import" } });
    ConfigSet   s    = cfg.init("test", { { "key", "dflt" }, { "other", "odflt" } });
    std::string want = set == 1 ? v.str() : set == 2 ? "import" : env && read ? (env == 1 ? "env" : v.str()) : sel == 1 ? "p1" : sel == 2 ? "p2" : def ? "default" : pre ? "preset" : "dflt";
    CHECK(s.get("key").to_string() == want, "an entry has the value of the source with the highest priority");
    CHECK(s.get("other").to_string() == (sel ? "p1" : "odflt"), "an entry has the value of the selected profile or its default");
    CHECK(s.get("none").to_string().empty(), "an entry that does not exist is empty");
    CHECK(cfg.get("test", "key").to_string() == want, "an entry can be read again");
    symx_reach("sources");
}

// the last definition counts, over all configuration files
ENTRY(c22_files)
{
    static const char* keys[]  = { "CALI_TEST_A", "CALI_TEST_B" };
    static const char* profs[] = { "default", "p", "q" };
    std::map<std::string, std::map<std::string, std::string>> want;
    int nlines = symx_param("lines", 3);
    const char* names[] = { "c22_1.config", "c22_2.config" };
    for (int f = 0; f < 2; ++f) {
        std::ofstream os(names[f]);
        std::string   cur = "default";
        for (int i = 0; i < (f == 0 ? nlines : 2); ++i) {
            int form = symx_choose(5, "line");
            if (form < 2) {
                std::string val(letter("val"));
                os << keys[form] << "=" << val << "\n";
                want[cur][keys[form]] = val;
            } else if (form < 4) {
                cur = profs[form - 1];
                os << "# [" << cur << "]\n";
            } else
                os << "\n# comment\nno definition\n";
        }
    }
    RuntimeConfig cfg;
    cfg.allow_read_env(false);
    cfg.set("CALI_CONFIG_FILE", "c22_1.config,c22_2.config");
    int sel = symx_choose(2, "sel");
    // profiles that do not exist are reported and ignored
    cfg.set("CALI_CONFIG_PROFILE", sel ? "p,q" : "default");
    std::map<std::string, std::string> m = want["default"];
    if (sel)
        for (const char* p : { "p", "q" })
            for (auto& e : want[p])
                m[e.first] = e.second;
    ConfigSet s = cfg.init("test", { { "a", "-" }, { "b", "-" } });
    for (int i = 0; i < 2; ++i)
        CHECK(s.get(i ? "b" : "a").to_string() == (m.count(keys[i]) ? m[keys[i]] : std::string("-")), "an entry has the value that was written last in a selected profile");
    symx_reach("files");
}

// values in configuration files
ENTRY(c22_file_values)
{
    SymStr v(1, symx_param("len", 2), "v");
    for (size_t i = 0; i < v.n; ++i)
        symx_assume(v.p[i] != '\n');
    {
        std::ofstream os("c22.config");
        os << "CALI_TEST_A=" << gaps[symx_choose(2, "gap")] << written(v, symx_choose(4, "form"), "") << gaps[symx_choose(2, "gap")] << "\nCALI_TEST_B=b";
        if (symx_choose(2, "newline"))
            os << "\n";
    }
    RuntimeConfig cfg;
    cfg.allow_read_env(false);
    cfg.preset("CALI_CONFIG_FILE", "c22.config");
    ConfigSet s = cfg.init("test", { { "a", "-" }, { "b", "-" } });
    CHECK(s.get("a").to_string() == v.str(), "the value of an entry is what was written");
    CHECK(s.get("b").to_string() == "b", "the value of an entry is what was written");
    symx_reach("file_values");
}
