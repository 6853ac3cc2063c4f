// helpers shared by the harnesses
#pragma once
#include "symx.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
#include "caliper/common/Entry.h"
#include "caliper/common/Node.h"
#include "caliper/common/Variant.h"
#include <cstring>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>

using namespace cali;
#define ENTRY(f) extern "C" __attribute__((visibility("default"), noinline)) void f()

// exactly sized heap buffer: every access outside of it is reported
struct Buf {
    unsigned char* p;
    size_t         n;
    explicit Buf(size_t n_) : p((unsigned char*) malloc(n_)), n(n_) {}
    ~Buf() { free(p); }
    Buf(const Buf&) = delete;
    unsigned char& operator[] (size_t i) { return p[i]; }
};

inline const char* nm(const char* base, int i)
{
    static char names[64][24];
    static int  k = 0;
    char*       s = names[k++ % 64];
    int         n = 0;
    for (; base[n] && n < 18; ++n)
        s[n] = base[n];
    if (i >= 10)
        s[n++] = '0' + (i / 10) % 10;
    s[n++] = '0' + i % 10;
    s[n]   = 0;
    return s;
}

// a string of symbolic bytes with a length in [lo,hi]; every length is explored
struct SymStr {
    char*  p;
    size_t n;
    SymStr(size_t lo, size_t hi, const char* name, bool no_nul = true)
    {
        n = lo + (hi > lo ? symx_choose(hi - lo + 1, "len") : 0);
        p = (char*) malloc(n + 1);
        if (n)
            symx_bytes(p, n, name);
        p[n] = 0;
        if (no_nul)
            for (size_t i = 0; i < n; ++i)
                symx_assume(p[i] != 0);
    }
    SymStr(const SymStr&) = delete;
    ~SymStr() { free(p); }
    std::string str() const { return std::string(p, n); }
};

inline uint64_t bits(const Variant& v)
{
    return v.c_variant().value.v_uint;
}

inline bool same_bits(const Variant& a, const Variant& b)
{
    cali_variant_t x = a.c_variant(), y = b.c_variant();
    return (x.type_and_size == y.type_and_size) & (x.value.v_uint == y.value.v_uint);
}

// scalar types: 0 int 1 uint 2 double 3 bool 4 type 5 addr 6 ptr 7 inv
inline Variant sym_scalar(int kind, const char* name)
{
    switch (kind) {
    case 0:
        return Variant(cali_make_variant_from_int64((int64_t) symx_u64(name)));
    case 1:
        return Variant(cali_make_variant_from_uint(symx_u64(name)));
    case 2:
        return Variant(symx_f64(name));
    case 3:
        return Variant(cali_make_variant_from_bool(symx_range(0, 1, name) != 0));
    case 4:
        return Variant((cali_attr_type) symx_range(0, CALI_MAXTYPE, name));
    case 5:
        {
            uint64_t u = symx_u64(name);
            return Variant(CALI_TYPE_ADDR, &u, sizeof(u));
        }
    case 6:
        return Variant(cali_make_variant_from_ptr((void*) symx_u64(name)));
    }
    return Variant();
}

// Minimal metadata store: nodes are looked up by id
class MiniDB : public CaliperMetadataAccessInterface
{
public:
    std::vector<Node*> nodes;

    ~MiniDB()
    {
        for (Node* n : nodes)
            delete n;
    }

    Node* add(cali_id_t id, cali_id_t attr, const Variant& data, Node* parent = nullptr)
    {
        Node* n = new Node(id, attr, data);
        nodes.push_back(n);
        if (parent)
            parent->append(n);
        return n;
    }

    Node* node(cali_id_t id) const override
    {
        for (Node* n : nodes)
            if (n->id() == id)
                return n;
        return nullptr;
    }

    Attribute get_attribute(cali_id_t id) const override { return Attribute::make_attribute(node(id)); }

    Attribute get_attribute(const std::string& name) const override
    {
        for (Node* n : nodes)
            if (n->attribute() == Attribute::NAME_ATTR_ID && n->data().to_string() == name)
                return Attribute::make_attribute(n);
        return Attribute();
    }

    std::vector<Attribute> get_all_attributes() const override
    {
        std::vector<Attribute> v;
        for (Node* n : nodes)
            if (n->attribute() == Attribute::NAME_ATTR_ID)
                v.push_back(Attribute::make_attribute(n));
        return v;
    }

    Node* make_tree_entry(size_t, const Node*[], Node* = nullptr) override { return nullptr; }
    Attribute create_attribute(const std::string&, cali_attr_type, int, int = 0, const Attribute* = nullptr, const Variant* = nullptr) override { return Attribute(); }
    std::vector<Entry> get_globals() override { return {}; }
};
