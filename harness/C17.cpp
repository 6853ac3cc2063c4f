// C17: query text is parsed completely or rejected with an error
#include "hc.h"
#include <cstdio>
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QuerySpec.h"

// ---- canonical form of a query specification

static std::string str(const std::string& s)
{
    return std::string("'") + s + "'";
}

template <class F, class T>
static std::string list(const std::vector<T>& v, F f)
{
    std::string r = "[";
    for (const T& x : v)
        r += f(x) + ";";
    return r + "]";
}

static std::string cond(const QuerySpec::Condition& c)
{
    static const char* ops[] = { "none", "exist", "nexist", "eq", "ne", "lt", "gt", "le", "ge" };
    std::string r = std::string(ops[(int) c.op]);
    if (c.op != QuerySpec::Condition::None)
        r += str(c.attr_name);
    if (c.op >= QuerySpec::Condition::Equal)
        r += str(c.value);
    return r;
}

static std::string op(const QuerySpec::AggregationOp& o)
{
    return std::string(o.op.name ? o.op.name : "") + list(o.args, str);
}

static std::string kv(const std::map<std::string, std::string>& m)
{
    std::string r = "{";
    for (const auto& p : m)
        r += str(p.first) + "=" + str(p.second) + ";";
    return r + "}";
}

// parts that have their initial state are left out
static std::string ser(const QuerySpec& q)
{
    static const char* sel[] = { "default", "none", "all", "list" };
    std::string r;
    if (q.select.selection != QuerySpec::AttributeSelection::Default || !q.select.list.empty() || q.select.use_path) {
        r += std::string("S:") + sel[(int) q.select.selection] + list(q.select.list, str);
        if (q.select.use_path)
            r += "path";
    }
    if (q.aggregate.selection != QuerySpec::AggregationSelection::None || !q.aggregate.list.empty())
        r += std::string("A:") + sel[(int) q.aggregate.selection] + list(q.aggregate.list, op);
    if (q.groupby.selection != QuerySpec::AttributeSelection::Default || !q.groupby.list.empty() || q.groupby.use_path) {
        r += std::string("G:") + sel[(int) q.groupby.selection] + list(q.groupby.list, str);
        if (q.groupby.use_path)
            r += "path";
    }
    if (q.filter.selection != QuerySpec::FilterSelection::None || !q.filter.list.empty())
        r += std::string("W:") + sel[(int) q.filter.selection] + list(q.filter.list, cond);
    if (q.sort.selection != QuerySpec::SortSelection::None || !q.sort.list.empty())
        r += std::string("O:") + sel[(int) q.sort.selection] + list(q.sort.list, [](const QuerySpec::SortSpec& s) {
                 return str(s.attribute) + (s.order == QuerySpec::SortSpec::Ascending ? "+" : s.order == QuerySpec::SortSpec::Descending ? "-" : "0");
             });
    if (q.format.opt != QuerySpec::FormatSpec::Default)
        r += std::string("F:") + (q.format.formatter.name ? q.format.formatter.name : "") + kv(q.format.kwargs);
    if (!q.preprocess_ops.empty())
        r += "L:" + list(q.preprocess_ops, [](const QuerySpec::PreprocessSpec& p) { return str(p.target) + "=" + op(p.op) + "/" + cond(p.cond); });
    if (!q.aliases.empty())
        r += "as" + kv(q.aliases);
    if (!q.units.empty())
        r += "unit" + kv(q.units);
    return r;
}

static void accept(const std::string& text, const std::string& want, const char* msg)
{
    CalQLParser p(text.c_str());
    CHECK(!p.error(), "a well-formed query is accepted");
    std::string have = ser(p.spec());
    if (!symx_engine() && have != want) {
        fprintf(stderr, "%s\n", ("query: " + text).c_str());
        fprintf(stderr, "%s\n", ("have:  " + have).c_str());
        fprintf(stderr, "%s\n", ("want:  " + want).c_str());
    }
    CHECK(have.size() == want.size() && memcmp(have.data(), want.data(), want.size()) == 0, msg);
}

// ---- names: replace # in the query with a name, written plainly, in quotes, or with escapes

struct Name {
    std::string text, value;
};

static Name name(int lo, int hi)
{
    SymStr      s(lo, hi, "name");
    Name        n;
    int         form = (int) symx_choose(4, "form");
    n.value = s.str();
    if (form == 0)
        n.text = n.value;
    else if (form == 1)
        n.text = "\"" + n.value + "\"";
    else if (form == 2) {
        for (size_t i = 0; i < s.n; ++i)
            n.text += std::string("\\") + s.p[i];
    } else { // quotes around the middle of a word, and an escaped quote
        n.text  = "x\"" + n.value + "\"\\\"y";
        n.value = "x" + n.value + "\"y";
    }
    for (size_t i = 0; i < s.n; ++i) {
        unsigned char c = s.p[i];
        if (form == 0)
            symx_assume(!(c == ' ' || (c >= 9 && c <= 13) || c == ',' || c == ';' || c == '=' || c == '<' || c == '>' || c == '(' || c == ')' || c == '"' || c == '\\' || c == '*'));
        if (form == 1 || form == 3)
            symx_assume(!(c == '"' || c == '\\'));
    }
    // keywords
    if (s.n == 2)
        symx_assume((s.p[1] | 32) != 's' && (s.p[1] | 32) != 'f');
    return n;
}

static std::string subst(const char* t, const std::string& s)
{
    std::string r;
    for (; *t; ++t)
        if (*t == '@')
            r += s;
        else
            r += *t;
    return r;
}

struct Case {
    const char *text, *want;
};

static const Case names[] = {
    { "SELECT @", "S:list['@';]" },
    { "SELECT a,@ , b", "S:list['a';'@';'b';]" },
    { "SELECT sum(@),count()", "S:list['sum#@';'count';]A:list[sum['@';];count[];]" },
    { "SELECT a AS @ UNIT u GROUP BY b", "S:list['a';]G:list['b';]as{'a'='@';}unit{'a'='u';}" },
    { "SELECT sum(a) AS x UNIT @", "S:list['sum#a';]A:list[sum['a';];]as{'sum#a'='x';}unit{'sum#a'='@';}" },
    { "GROUP BY a,@ SELECT *", "S:all[]G:list['a';'@';]" },
    { "WHERE @ FORMAT json", "W:list[exist'@';]F:json{}" },
    { "WHERE NOT @, b", "W:list[nexist'@';exist'b';]" },
    { "WHERE a=@", "W:list[eq'a''@';]" },
    { "WHERE @ = 5", "W:list[eq'@''5';]" },
    { "WHERE a<@,NOT b>@,not c<@, d>@", "W:list[lt'a''@';le'b''@';ge'c''@';gt'd''@';]" },
    { "ORDER BY @ DESC", "O:list['@'-;]" },
    { "ORDER BY a desc,@", "O:list['a'-;'@'+;]" },
    { "LET @=first(a)", "L:['@'=first['a';]/none;]" },
    { "LET a=ratio(@,b,2) IF c=@ SELECT d", "S:list['d';]L:['a'=ratio['@';'b';'2';]/eq'c''@';]" },
    { "AGGREGATE sum(a),ratio(b,@,2),avg(@)", "A:list[sum['a';];ratio['b';'@';'2';];avg['@';];]" },
};
static const int NC = sizeof(names) / sizeof(names[0]);

ENTRY(c17_names)
{
    const Case& c = names[symx_choose(NC, "case")];
    Name        n = name(1, symx_param("len", 1));
    accept(subst(c.text, n.text), subst(c.want, n.value), "names and values in the query are kept as written");
    symx_reach("names");
}

static const Case fmts[] = {
    { "FORMAT format(\"@\",title=T) SELECT a", "S:list['a';]F:format{'format'='@';'title'='T';}" },
    { "FORMAT format(\"%a% %b%\",\"@\")", "F:format{'format'='%a% %b%';'title'='@';}" },
    { "FORMAT format(x,\"title=@ \")", "F:format{'format'='x';'title'='@ ';}" },
    { "FORMAT tree(\"@ path\",20)", "F:tree{'column-width'='20';'path-attributes'='@ path';}" },
    { "format table(column-width=\"@ \",print-globals)", "F:table{'column-width'='@ ';'print-globals'='true';}" },
};

ENTRY(c17_format_args)
{
    const Case& c = fmts[symx_choose(sizeof(fmts) / sizeof(fmts[0]), "case")];
    SymStr      s(1, symx_param("len", 2), "arg");
    for (size_t i = 0; i < s.n; ++i)
        symx_assume(s.p[i] != '"' && s.p[i] != '\\' && s.p[i] != '=');
    if (s.n == 1 && c.text[7] == 'f')
        symx_assume(s.p[0] != 0);
    accept(subst(c.text, s.str()), subst(c.want, s.str()), "formatter arguments are kept as written");
    symx_reach("args");
}

// ---- clauses in any order

struct Clause {
    char        kind;
    const char *text, *want;
};
// kinds in the order of the canonical form
static const Clause clauses[] = {
    { 'S', "SELECT a,path", "S:list['a';]path" },
    { 'S', "select a as x,b unit y , c", "S:list['a';'b';'c';]" },
    { 'S', "SELECT *", "S:all[]" },
    { 'S', "SELECT d,inclusive_scale(e,2)", "S:list['d';'iscale#e';]" },
    { 'A', "AGGREGATE percent_total(f), min(g)", "A:list[percent_total['f';];min['g';];]" },
    { 'G', "GROUP BY path", "G:list[]path" },
    { 'G', "GROUP  BY b, prop:nested ,c", "G:list['b';'c';]path" },
    { 'W', "WHERE b,not c,d=1", "W:list[exist'b';nexist'c';eq'd''1';]" },
    { 'W', "Where x<-1e3,not y > 5", "W:list[lt'x''-1e3';le'y''5';]" },
    { 'O', "ORDER BY c,a desc,b ASC", "O:list['c'+;'a'-;'b'+;]" },
    { 'O', "order By a", "O:list['a'+;]" },
    { 'F', "FORMAT json(object,pretty)", "F:json{'object'='true';'pretty'='true';}" },
    { 'F', "FORMAT Tree", "F:tree{}" },
    { 'L', "LET a=truncate(b,10),c=sum(d,e) IF NOT f", "L:['a'=truncate['b';'10';]/none;'c'=sum['d';'e';]/nexist'f';]" },
    { 'L', "let l=leaf() if x>2 , m=leaf(y)", "L:['l'=leaf[]/gt'x''2';'m'=leaf['y';]/none;]" },
};
static const int NCL = sizeof(clauses) / sizeof(clauses[0]);

ENTRY(c17_clauses)
{
    int         n = 1 + (int) symx_choose(symx_param("clauses", 3), "n");
    std::string text, agg, as, unit;
    const char* parts[256] = {};
    static const char* seps[] = { " ", "  ", "\n", "\t\n " };
    const char* sep = seps[symx_choose(4, "sep")];
    bool        lead = symx_choose(2, "lead");
    if (lead)
        text += sep;
    for (int i = 0; i < n; ++i) {
        const Clause& c = clauses[symx_choose(NCL, nm("clause", i))];
        symx_assume(!parts[(int) c.kind]);
        parts[(int) c.kind] = c.want;
        if (i)
            text += sep;
        text += c.text;
        if (&c == &clauses[1]) {
            as   = "as{'a'='x';}";
            unit = "unit{'b'='y';}";
        }
        if (&c == &clauses[3])
            agg += "inclusive_scale['e';'2';];";
        if (c.kind == 'A')
            agg += std::string(c.want).substr(7, strlen(c.want) - 8);
    }
    if (lead)
        text += sep;
    std::string want;
    for (const char* k = "SAGWOFL"; *k; ++k)
        if (*k == 'A') {
            if (!agg.empty())
                want += "A:list[" + agg + "]";
        } else if (parts[(int) *k])
            want += parts[(int) *k];
    accept(text, want + as + unit, "every clause is in the specification");
    symx_reach("clauses");
}

// a star selects everything, wherever it is
ENTRY(c17_star)
{
    static const Case cs[] = {
        { "SELECT *,count()", "S:all[]A:list[count[];]" },
        { "SELECT count(),*", "S:all['count';]A:list[count[];]" },
        { "SELECT *,sum(a) AS x", "S:all[]A:list[sum['a';];]as{'sum#a'='x';}" },
        { "select * group by a", "S:all[]G:list['a';]" },
    };
    const Case& c = cs[symx_choose(sizeof(cs) / sizeof(cs[0]), "case")];
    accept(c.text, c.want, "select everything");
    CalQLParser p(symx_choose(2, "order") ? "SELECT *,a AS b" : "SELECT a AS b,*");
    CHECK(!p.error() && p.spec().select.selection == QuerySpec::AttributeSelection::All && p.spec().aliases["a"] == "b", "a star selects everything, wherever it is");
    symx_reach("star");
}

// ---- malformed queries

static const char* bad[] = {
    "@ a", "SELECT", "SELECT a,", "SELECT ,a", "SELECT a AS", "SELECT a AS b UNIT", "SELECT a AS b,", "SELECT (a)",
    "SELECT @(a)", "SELECT sum()", "SELECT sum(a", "SELECT sum(a,b,c)", "SELECT sum(a b)", "SELECT count(a)", "SELECT a b",
    "SELECT sum(a) sum(b)", "SELECT a;", "SELECT a)", "SELECT a = b",
    "AGGREGATE", "AGGREGATE sum", "AGGREGATE @(a)", "AGGREGATE sum(a),", "AGGREGATE sum(a", "AGGREGATE ratio(a)",
    "GROUP a", "GROUP", "GROUP BY a b", "GROUP BY a(b)", "ORDER", "ORDER BY", "ORDER BY a,", "ORDER BY a up", "ORDER a",
    "WHERE", "WHERE a,", "WHERE a=", "WHERE NOT", "WHERE a<", "WHERE a >", "WHERE a=b=c", "WHERE a b", "WHERE a=,b", "WHERE (a)",
    "LET", "LET a", "LET a=", "LET a=@(b)", "LET a=first()", "LET a=ratio(b)", "LET a=first(b),", "LET a=first(b) IF", "LET a=first(b) when c",
    "LET a=first(b),a=first(c)", "LET a=scale(b,2", "LET =first(b)b",
    "FORMAT", "FORMAT @", "FORMAT json(foo=bar)", "FORMAT json(pretty", "FORMAT cali(a)", "FORMAT expand(b)", "FORMAT json-split(x)", "FORMAT format()", "FORMAT table(a,b,c)", "FORMAT json json",
    "a", "=", "(", "SELECT * FROM b", "SELECT *;", "WHERE a ;",
};
static const int NB = sizeof(bad) / sizeof(bad[0]);

ENTRY(c17_malformed)
{
    const char* t = bad[symx_choose(NB, "case")];
    std::string word;
    if (strchr(t, '@')) { // no keyword has less than three letters
        SymStr s(1, symx_param("len", 2), "word");
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(((s.p[i] | 32) >= 'a' && (s.p[i] | 32) <= 'z') || (s.p[i] >= '0' && s.p[i] <= '9') || (unsigned char) s.p[i] >= 128 || s.p[i] == '-' || s.p[i] == '.');
        if (s.n == 2) // as, if
            symx_assume((s.p[1] | 32) != 's' && (s.p[1] | 32) != 'f');
        word = s.str();
    }
    static const char* around[][2] = { { "", "" }, { "SELECT q ", "" }, { "GROUP BY a FORMAT json ", " " } };
    int  a = (int) symx_choose(3, "around");
    std::string q = around[a][0] + subst(t, word) + around[a][1];
    CalQLParser p(q.c_str());
    CHECK(p.error(), "a malformed query is rejected");
    CHECK(!p.error_msg().empty(), "errors have a message");
    symx_reach("malformed");
}

// any text at any place: an error or a specification, but never a crash or an exception
static const char* prefixes[] = { "", "SELECT ", "SELECT sum(", "SELECT a ", "WHERE a", "WHERE ", "LET ", "LET a=", "LET a=first(", "LET a=first(b) ", "FORMAT json(", "FORMAT ", "ORDER BY a", "GROUP ", "AGGREGATE ", "FORMAT cali", "SELECT \"" };

ENTRY(c17_bytes)
{
    const char* t = prefixes[symx_choose(sizeof(prefixes) / sizeof(prefixes[0]), "prefix")];
    SymStr      s(1, symx_param("len", 2), "text");
    CalQLParser p((std::string(t) + s.str()).c_str());
    std::string r = ser(p.spec());
    CHECK(!p.error() || !p.error_msg().empty(), "errors have a message");
    symx_reach(p.error() ? "error" : "ok");
}
