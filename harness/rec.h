// record comparison helpers
#pragma once
#include "hc.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/common/OutputStream.h"
#include <sstream>
#include <map>

struct Item {
    std::string    name;
    cali_attr_type type;
    int            prop;
    Variant        val;
    bool           imm;
};

// a record as the user sees it: attribute, value pairs from the root down
inline std::vector<Item> flatten(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    std::vector<Item> out;
    for (const Entry& e : rec) {
        if (e.is_immediate()) {
            Attribute a = db.get_attribute(e.attribute());
            out.push_back(Item { a.name(), a.type(), a.properties(), e.value(), true });
        } else {
            std::vector<Item> path;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                Attribute a = db.get_attribute(n->attribute());
                path.insert(path.begin(), Item { a.name(), a.type(), a.properties(), n->data(), false });
            }
            out.insert(out.end(), path.begin(), path.end());
        }
    }
    return out;
}

inline void check_same(const std::vector<Item>& a, const std::vector<Item>& b, const char* msg)
{
    CHECK(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        CHECK(a[i].name == b[i].name && a[i].type == b[i].type && a[i].prop == b[i].prop && a[i].imm == b[i].imm && a[i].val == b[i].val, msg);
}

struct Collected {
    std::vector<std::vector<Item>>  recs;
    std::vector<std::vector<Entry>> raw;
    int  nodes = 0;
    bool error = false;
    std::string msg;
};

inline void read_text(const std::string& text, CaliperMetadataDB& db, Collected& c, CaliReader* reader = nullptr)
{
    std::istringstream is(text);
    CaliReader own, &r = reader ? *reader : own;
    r.read(is, db, [&](CaliperMetadataAccessInterface&, const Node*) { ++c.nodes; },
           [&](CaliperMetadataAccessInterface& d, const EntryList& l) {
               c.raw.push_back(l);
               c.recs.push_back(flatten(d, l));
           });
    c.error = r.error();
    c.msg   = r.error_msg();
}

// NUL-free text without control characters other than newline
inline void printable(SymStr& s)
{
    for (size_t i = 0; i < s.n; ++i)
        symx_assume(((unsigned char) s.p[i] >= 0x20) | (s.p[i] == '\n'));
}
