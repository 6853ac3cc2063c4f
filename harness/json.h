// a strict JSON parser
#pragma once
#include <string>
#include <utility>
#include <vector>

struct J {
    char        t = 0; // o a s n(umber) l(iteral)
    std::string s;     // text of strings, numbers, and literals
    std::vector<J>                         a;
    std::vector<std::pair<std::string, J>> o;
    const J* get(const std::string& key, int* count = nullptr) const
    {
        const J* r = nullptr;
        int      n = 0;
        for (const auto& p : o)
            if (p.first == key) {
                r = &p.second;
                ++n;
            }
        if (count)
            *count = n;
        return r;
    }
};

struct JsonParser {
    const std::string& in;
    size_t             p  = 0;
    bool               ok = true;
    explicit JsonParser(const std::string& s) : in(s) {}
    int  peek() const { return p < in.size() ? (unsigned char) in[p] : -1; }
    void ws()
    {
        while (p < in.size() && (in[p] == ' ' || in[p] == '\n' || in[p] == '\t' || in[p] == '\r'))
            ++p;
    }
    bool eat(char c)
    {
        ws();
        if (peek() == (unsigned char) c) {
            ++p;
            return true;
        }
        return false;
    }
    std::string string()
    {
        std::string r;
        if (!eat('"')) {
            ok = false;
            return r;
        }
        while (ok) {
            int c = peek();
            if (c < 0x20) {
                ok = false;
                break;
            }
            ++p;
            if (c == '"')
                return r;
            if (c == '\\') {
                c = peek();
                ++p;
                switch (c) {
                case '"': case '\\': case '/': r += (char) c; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    int v = 0;
                    for (int i = 0; i < 4; ++i, ++p) {
                        int d = peek();
                        d     = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : -1;
                        if (d < 0) {
                            ok = false;
                            return r;
                        }
                        v = v * 16 + d;
                    }
                    if (v < 0x80)
                        r += (char) v;
                    else
                        ok = false; // not expected
                    break;
                }
                default: ok = false;
                }
            } else
                r += (char) c;
        }
        return r;
    }
    bool digits()
    {
        size_t b = p;
        while (p < in.size() && in[p] >= '0' && in[p] <= '9')
            ++p;
        return p > b;
    }
    J value()
    {
        J j;
        ws();
        int c = peek();
        if (c == '{') {
            j.t = 'o';
            ++p;
            if (eat('}'))
                return j;
            do {
                ws();
                std::string k = string();
                if (!ok || !eat(':')) {
                    ok = false;
                    return j;
                }
                J v = value();
                if (!ok)
                    return j;
                j.o.emplace_back(std::move(k), std::move(v));
            } while (eat(','));
            ok = ok && eat('}');
        } else if (c == '[') {
            j.t = 'a';
            ++p;
            if (eat(']'))
                return j;
            do {
                j.a.push_back(value());
                if (!ok)
                    return j;
            } while (eat(','));
            ok = ok && eat(']');
        } else if (c == '"') {
            j.t = 's';
            j.s = string();
        } else if (c == '-' || (c >= '0' && c <= '9')) {
            j.t      = 'n';
            size_t b = p;
            if (c == '-')
                ++p;
            if (peek() == '0')
                ++p;
            else
                ok = digits();
            if (ok && peek() == '.') {
                ++p;
                ok = digits();
            }
            if (ok && (peek() == 'e' || peek() == 'E')) {
                ++p;
                if (peek() == '+' || peek() == '-')
                    ++p;
                ok = digits();
            }
            j.s = in.substr(b, p - b);
        } else {
            j.t = 'l';
            for (const char* l : { "true", "false", "null" })
                if (in.compare(p, strlen(l), l) == 0) {
                    j.s = l;
                    p += strlen(l);
                    return j;
                }
            ok = false;
        }
        return j;
    }
    // a complete document
    static bool parse(const std::string& s, J& j)
    {
        JsonParser q(s);
        j = q.value();
        q.ws();
        return q.ok && q.p == s.size();
    }
};
