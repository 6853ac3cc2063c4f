// C28: channels do not influence each other
#include "cal.h"

namespace cali { extern CaliperService trace_service; }
SERVICES(trace_service)

namespace
{

typedef std::vector<std::pair<cali_id_t, Variant>> Rec;
cali_id_t first_user = 0;

Rec content(const std::vector<Entry>& rr)
{
    Rec out;
    for (const Entry& e : rr) {
        if (e.is_immediate()) {
            if (e.attribute() >= first_user)
                out.push_back(std::make_pair(e.attribute(), e.value()));
        } else {
            Rec path;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                if (n->attribute() >= first_user)
                    path.insert(path.begin(), std::make_pair(n->attribute(), n->data()));
            out.insert(out.end(), path.begin(), path.end());
        }
    }
    return out;
}

bool same(const Rec& a, const Rec& b)
{
    if (a.size() != b.size())
        return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i)
        ok = ok & (a[i].first == b[i].first) & (a[i].second == b[i].second);
    return ok;
}

struct Chan {
    Channel ch;
    bool    alive = true, active = false;
    int     begins = 0, ends = 0, sets = 0, flushes = 0, clears = 0, writes = 0, finishes = 0, attrs = 0;
    int     wbegins = 0, wends = 0, wsets = 0, wflushes = 0, wclears = 0, wwrites = 0, wfinishes = 0;
    std::vector<Variant> open; // this channel's A values
    Variant              val;  // this channel's V value
    std::vector<Variant> globals;
    std::vector<Rec>     trace;

    void setup(Caliper& c, const char* name)
    {
        ch = make_channel(c, name, { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
        auto& e = ch.events();
        e.pre_begin_evt.connect([this](Caliper*, ChannelBody* b, const Attribute& a, const Variant&) {
            CHECK(b == ch.body(), "channels: a callback gets its own channel");
            if (a.id() >= first_user)
                ++begins;
        });
        e.pre_end_evt.connect([this](Caliper*, ChannelBody* b, const Attribute& a, const Variant&) {
            if (a.id() >= first_user)
                ++ends;
        });
        e.pre_set_evt.connect([this](Caliper*, ChannelBody* b, const Attribute& a, const Variant&) {
            if (a.id() >= first_user)
                ++sets;
        });
        e.pre_flush_evt.connect([this](Caliper*, ChannelBody* b, SnapshotView) { ++flushes; });
        e.clear_evt.connect([this](Caliper*, Channel* b) { ++clears; });
        e.write_output_evt.connect([this](Caliper*, ChannelBody* b, SnapshotView) { ++writes; });
        e.finish_evt.connect([this](Caliper*, Channel* b) { ++finishes; });
    }
};

} // namespace

ENTRY(c28_ops)
{
    quiet();
    Caliper   c;
    Chan      k[2];
    Attribute A = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_NESTED);
    first_user = A.id();
    Attribute V = c.create_attribute("V", CALI_TYPE_UINT, CALI_ATTR_ASVALUE), G = c.create_attribute("G", CALI_TYPE_INT, CALI_ATTR_GLOBAL);
    k[0].setup(c, "one");
    k[1].setup(c, "two");
    for (int i = 0; i < 2; ++i)
        if (symx_choose(2, "active")) {
            c.activate_channel(k[i].ch);
            k[i].active = true;
        }
    std::vector<Variant> open; // of the thread
    Variant              tval;
    int ops = (int) symx_param("ops", 4);
    for (int i = 0; i < ops; ++i) {
        int     op = (int) symx_choose(12, "op");
        int     t  = op < 4 ? 0 : (int) symx_choose(2, "channel");
        Chan&   x  = k[t];
        Variant vi(cali_make_variant_from_int((int) symx_range(0, 100, nm("i", i)))), vu(cali_make_variant_from_uint(symx_range(0, 100, nm("u", i))));
        if (op >= 4 && !x.alive)
            return;
        switch (op) {
        case 0:
            c.begin(A, vi);
            open.push_back(vi);
            for (Chan& y : k)
                y.wbegins += y.active;
            break;
        case 1:
            if (open.empty())
                return;
            c.end(A);
            open.pop_back();
            for (Chan& y : k)
                y.wends += y.active;
            break;
        case 2:
            c.set(V, vu);
            tval = vu;
            for (Chan& y : k)
                y.wsets += y.active;
            break;
        case 3: // a snapshot on all active channels
            for (Chan& y : k)
                if (y.alive) {
                    FixedSizeSnapshotRecord<60> rec;
                    c.pull_snapshot(y.ch.body(), SnapshotView(), rec.builder());
                    Rec want;
                    for (const Variant& v : open)
                        want.push_back(std::make_pair(A.id(), v));
                    Rec got = content(std::vector<Entry>(rec.view().begin(), rec.view().end()));
                    if (!tval.empty())
                        got.size() && got[0].first == V.id() ? (void) want.insert(want.begin(), std::make_pair(V.id(), tval)) : (void) want.push_back(std::make_pair(V.id(), tval));
                    CHECK(same(got, want), "channels: a snapshot has the values of the thread");
                }
            break;
        case 4:
            c.begin(x.ch.body(), A, vi);
            x.open.push_back(vi);
            x.wbegins += x.active;
            break;
        case 5:
            if (x.open.empty())
                return;
            c.end(x.ch.body(), A);
            x.open.pop_back();
            x.wends += x.active;
            break;
        case 6:
            if (symx_choose(2, "global")) {
                c.set(x.ch.body(), G, vi);
                x.globals.assign(1, vi);
            } else {
                c.set(x.ch.body(), V, vu);
                x.val = vu;
            }
            x.wsets += x.active;
            break;
        case 7:
            x.active ? c.deactivate_channel(x.ch) : c.activate_channel(x.ch);
            x.active = !x.active;
            break;
        case 8: {
            FixedSizeSnapshotRecord<2> rec;
            rec.builder().append(V, vu);
            c.push_snapshot(x.ch.body(), rec.view());
            Rec want;
            for (const Variant& v : open)
                want.push_back(std::make_pair(A.id(), v));
            if (!tval.empty())
                want.push_back(std::make_pair(V.id(), tval));
            want.push_back(std::make_pair(V.id(), vu));
            x.trace.push_back(want);
            break;
        }
        case 9: {
            size_t n = 0;
            c.flush(x.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) {
                Rec got = content(r);
                if (n < x.trace.size()) {
                    // the thread's values come in no particular order
                    Rec want(x.trace[n]);
                    if (got.size() == want.size() && got.size() > 2 && got[0].first == V.id())
                        std::rotate(want.begin(), want.end() - 2, want.end() - 1);
                    CHECK(same(got, want), "channels: a channel's data is what was recorded on it");
                }
                ++n;
            });
            CHECK(n == x.trace.size(), "channels: a channel's data is what was recorded on it");
            ++x.wflushes;
            break;
        }
        case 10:
            if (symx_choose(2, "write")) {
                c.flush_and_write(x.ch.body(), SnapshotView());
                ++x.wwrites;
            } else {
                c.clear(&x.ch);
                x.trace.clear();
                ++x.wclears;
            }
            break;
        case 11:
            c.delete_channel(x.ch);
            x.alive  = false;
            x.active = false;
            ++x.wfinishes;
            ++x.wclears; // not checked
            break;
        }
    }
    // each channel has seen its own events and no others
    for (Chan& y : k) {
        CHECK(y.begins == y.wbegins && y.ends == y.wends && y.sets == y.wsets, "channels: exactly the active channels see an event");
        CHECK(y.flushes == y.wflushes && y.writes == y.wwrites && y.finishes == y.wfinishes && (!y.alive || y.clears == y.wclears), "channels: flush, write, clear and delete concern one channel");
        if (!y.alive)
            continue;
        CHECK(y.ch.is_active() == y.active, "channels: activation concerns one channel");
        Entry e = c.get(y.ch.body(), A);
        CHECK(e.empty() == y.open.empty() && (y.open.empty() || e.value() == y.open.back()), "channels: a channel has the values that were set on it");
        e = c.get(y.ch.body(), V);
        CHECK(e.empty() == y.val.empty() && (y.val.empty() || e.value() == y.val), "channels: a channel has the values that were set on it");
        std::vector<Variant> g;
        for (auto& p : content(c.get_globals(y.ch.body())))
            if (p.first == G.id())
                g.push_back(p.second);
        CHECK(g.size() == y.globals.size() && (g.empty() || g[0] == y.globals[0]), "channels: a channel has the global values that were set on it");
    }
    Entry e = c.get(A);
    CHECK(e.empty() == open.empty() && (open.empty() || e.value() == open.back()), "channels: values of a channel do not change those of the thread");
    e = c.get(V);
    CHECK(e.empty() == tval.empty() && (tval.empty() || e.value() == tval), "channels: values of a channel do not change those of the thread");
    symx_reach("ops");
}

// channel ids and lookup through the C interface
ENTRY(c28_ids)
{
    quiet();
    Caliper   c;
    cali_configset_t cfg = cali_create_configset(nullptr);
    cali_configset_set(cfg, "CALI_CHANNEL_CONFIG_CHECK", "false");
    cali_configset_set(cfg, "CALI_CHANNEL_FLUSH_ON_EXIT", "false");
    int n = 1 + (int) symx_choose(3, "channels");
    cali_id_t ids[3];
    bool      act[3], alive[3];
    for (int i = 0; i < n; ++i) {
        act[i]   = symx_choose(2, "leave") == 0;
        alive[i] = true;
        ids[i]   = cali_create_channel(nm("c", i), act[i] ? 0 : CALI_CHANNEL_LEAVE_INACTIVE, cfg);
        for (int k = 0; k < i; ++k)
            CHECK(ids[k] != ids[i], "channels: each channel has its own id");
    }
    cali_delete_configset(cfg);
    for (int i = 0; i < 3; ++i) {
        int x = (int) symx_choose(n, "channel");
        switch (symx_choose(3, "op")) {
        case 0:
            if (!alive[x])
                break;
            cali_activate_channel(ids[x]);
            act[x] = true;
            break;
        case 1:
            cali_deactivate_channel(ids[x]);
            act[x] = false;
            break;
        case 2:
            cali_delete_channel(ids[x]);
            alive[x] = act[x] = false;
        }
        for (int k = 0; k < n; ++k) {
            CHECK((cali_channel_is_active(ids[k]) != 0) == act[k], "channels: activation concerns one channel");
            Channel ch = c.get_channel(ids[k]);
            CHECK(bool(ch) == alive[k] && (!ch || ch.name() == nm("c", k)), "channels: an id gives its channel");
        }
    }
    symx_reach("ids");
}
