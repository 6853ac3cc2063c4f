// what the C++ reader delivers for a .cali file, one JSON line per record; used to compare it with the Python reader
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/common/Node.h"
#include <cstdio>
#include <fstream>
#include <iostream>
using namespace cali;

static std::string q(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c < 0x20 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char) c;
    }
    return r + "\"";
}

static std::string dump(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    std::string r = "[";
    auto put = [&](const Attribute& a, const Variant& v) {
        if (r.size() > 1) r += ",";
        r += "[" + q(a.name()) + "," + q(v.to_string()) + "," + (a.is_hidden() ? "1" : "0") + "," + (a.is_nested() ? "1" : "0") + "]";
    };
    for (const Entry& e : rec) {
        if (e.is_reference()) {
            std::vector<Node*> l;
            for (Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) l.push_back(n);
            for (auto it = l.rbegin(); it != l.rend(); ++it) put(db.get_attribute((*it)->attribute()), (*it)->data());
        } else if (e.is_immediate())
            put(db.get_attribute(e.attribute()), e.value());
    }
    return r + "]";
}

int main(int argc, char* argv[])
{
    for (int i = 1; i < argc; ++i) {
        CaliperMetadataDB db;
        CaliReader reader;
        std::ifstream is(argv[i]);
        std::vector<EntryList> recs;
        reader.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface&, const EntryList& r) { recs.push_back(r); });
        std::cout << "{\"error\":" << (reader.error() ? "1" : "0") << ",\"records\":[";
        bool first = true;
        for (auto& r : recs) { std::cout << (first ? "" : ",") << dump(db, r); first = false; }
        std::cout << "],\"globals\":" << dump(db, db.get_globals()) << ",\"attributes\":[";
        first = true;
        for (auto& a : db.get_all_attributes()) {
            std::cout << (first ? "" : ",") << "[" << q(a.name()) << "," << q(cali_type2string(a.type())) << "," << a.properties() << "]";
            first = false;
        }
        std::cout << "]}\n";
    }
}
