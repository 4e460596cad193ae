// Replay search for the raft properties: real servers, recording stand-ins for log store, state manager,
// state machine, scheduler and network; adversarial scheduling; every observation checked against the properties.
#include "cornerstone.hxx"
#include "hcommon.hxx"
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <thread>
#include <unistd.h>
using namespace cornerstone;
typedef unsigned long long ull;
static const ull INF = ~0ull >> 2;

struct Ent
{
    ull term;
    int type;
    std::string data;
    bool operator==(const Ent& o) const { return term == o.term && type == o.type && data == o.data; }
};
static const int APP = (int)log_val_type::app_log, CONF = (int)log_val_type::conf;

static std::string bytes(buffer& b)
{
    size_t p = b.pos();
    b.pos(0);
    std::string s((const char*)b.data(), b.size());
    b.pos(p);
    return s;
}
static bufptr mkbuf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    if (s.size())
        memcpy(b->data(), s.data(), s.size());
    b->pos(0);
    return b;
}
static Ent of(log_entry& e)
{
    return Ent{e.get_term(), (int)e.get_val_type(), bytes(e.get_buf())};
}
static ptr<log_entry> mk(const Ent& e)
{
    return cs_new<log_entry>((ulong)e.term, mkbuf(e.data), (log_val_type)e.type);
}
struct Cfg
{
    ull idx = 0, prev = 0;
    std::map<int, std::string> srv;
    std::set<int> ids() const
    {
        std::set<int> s;
        for (auto& x : srv)
            s.insert(x.first);
        return s;
    }
};
static std::string cfgstr(const Cfg& c)
{
    cluster_config cc(c.idx, c.prev);
    for (auto& s : c.srv)
        cc.get_servers().push_back(cs_new<srv_config>(s.first, s.second));
    bufptr b = cc.serialize();
    return bytes(*b);
}
static Cfg cfgof(cluster_config& c)
{
    Cfg r;
    r.idx = c.get_log_idx();
    r.prev = c.get_prev_log_idx();
    for (auto& s : c.get_servers())
        r.srv[s->get_id()] = s->get_endpoint();
    return r;
}
static ptr<cluster_config> cfgptr(const Cfg& c)
{
    bufptr b = mkbuf(cfgstr(c));
    return cluster_config::deserialize(*b);
}
static Cfg cfgparse(const std::string& s)
{
    bufptr b = mkbuf(s);
    ptr<cluster_config> c = cluster_config::deserialize(*b);
    return cfgof(*c);
}
struct Snap
{
    ull idx, term;
    Cfg cfg;
    std::string data;
};

struct Inst;
struct Node
{
    int id;
    ull PT = 0;
    int PV = -1;
    bool hasState = false;
    Cfg cfg;
    ull start = 1;
    std::vector<Ent> log;
    std::map<ull, Ent> shadow; // what the log held at each index, compacted entries included
    ull applied = 0;
    std::shared_ptr<Snap> snap;
    std::map<ull, std::string> part; // snapshot being received: offset -> data
    Inst* in = nullptr;
    // history
    std::map<ull, int> voted;
    std::map<ull, std::set<int>> votes; // grants delivered
    std::map<ull, std::map<int, ull>> conf;
    ull leaderTerm = 0, candTerm = 0;
    ull legit = 0; // commit index justified so far
    ull lastSent = 0;
    ull maxCommit = 0; // highest commit index stated in the current leadership
    std::set<int> prevAcc;
    bool joined = false;
    size_t minq = 1000; // smallest membership ever handed to it
    ull next() const { return start + log.size(); }
    const Ent* at(ull i) const { return i >= start && i < next() ? &log[i - start] : nullptr; }
    bool termAt(ull i, ull& t) const
    {
        if (i == 0)
        {
            t = 0;
            return true;
        }
        if (const Ent* e = at(i))
        {
            t = e->term;
            return true;
        }
        if (snap && snap->idx == i)
        {
            t = snap->term;
            return true;
        }
        return false;
    }
};
struct Msg
{
    int src, dst;
    Inst* from;
    ptr<req_msg> req;
    rpc_handler h;
    std::vector<Ent> es;
    long id;
    bool answered = false;
    std::shared_ptr<resp_msg> resp; // waiting to be delivered to the sender
    bool failed = false;
};
struct Ev
{
    int kind; // 1 append 2 write_at 3 pack 4 compact 5 precommit 6 rollback 7 save_state 8 save_config 9 savesnap 10 applysnap
    ull idx;
    std::string data;
    ull a = 0;
    std::vector<Ent> dropped;
};
struct Op
{
    std::string what;
    int type = 0;
    std::vector<Ev> ev;
    std::vector<std::shared_ptr<Msg>> sends;
    int nsched = 0;
    Node* n = nullptr;
};
static thread_local Op* op = nullptr;
static thread_local bool mainThread = false;
static std::recursive_mutex G;
#define LG std::lock_guard<std::recursive_mutex> _g(G)

struct Exited
{
};
struct Task
{
    ptr<delayed_task> t;
    int ms;
};
struct PSnap
{
    Inst* in;
    async_result<bool>::handler_type h;
    std::shared_ptr<Snap> s;
};
struct World;
static World* W;
struct Inst
{
    Node* n;
    int epoch;
    bool dead = false;
    bool removed = false;
    raft_server* srv = nullptr;
    std::vector<Task> tasks, cancelled;
    std::map<int, std::pair<long, ull>> outst; // dst -> message, term
    bool snapOut = false;
    int completing = 0;
    std::set<std::pair<int, ull>> lateOk; // (dst, term): an answer from an earlier leadership freed the member
    ull lastSnapIdx = 0;
    bool hasSnap = false;
    ull dueIdx = 0;
    long stamp = 0;
};
struct Params
{
    int hb = 100, lo = 1000, up = 2000, maxapp = 3, dist = 0, blk = 0, reserved = 0, batch = 4, gap = 3;
    bool prevote = false, defensive = true;
};
struct World
{
    H& h;
    Params P;
    std::map<int, Node*> nodes;
    std::deque<std::shared_ptr<Msg>> net;
    std::vector<PSnap> psnaps;
    bool stat = true; // membership does not change
    bool craft = false;
    bool lapse = false;
    long mid = 0;
    ull dseq = 0;
    std::map<ull, std::string> appliedAll;
    std::map<ull, int> leaderOf;
    std::deque<std::string> trace;
    int probes = 0;
    World(H& hh) : h(hh) {}
    void tr(const char* f, ...)
    {
        char b[400];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        LG;
        trace.push_back(b);
        if (trace.size() > (getenv("HTRACE") ? 4000 : 45))
            trace.pop_front();
    }
    void fail(const char* prop, const char* f, ...)
    {
        if (h.prop != prop)
            return;
        char b[600];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        std::string s = b;
        s += " | history (latest last):";
        for (auto& x : trace)
            s += " " + x + ";";
        if (getenv("HTRACE"))
            fprintf(stderr, "%s\n", s.c_str());
        h.fail("%s", s.c_str());
    }
    size_t quorumSize(Node* n)
    {
        // smallest membership the node may be using
        size_t k = n->cfg.srv.size();
        if (!stat)
        {
            for (auto& x : n->shadow)
                if (x.second.type == CONF)
                    n->minq = std::min(n->minq, cfgparse(x.second.data).srv.size());
            if (n->snap)
                n->minq = std::min(n->minq, n->snap->cfg.srv.size());
            n->minq = std::min(n->minq, k);
            k = n->minq;
        }
        return k;
    }
    bool sole(Node* n) { return quorumSize(n) <= 1; }
    // may n, leading in term T, regard index c as committed
    bool mayCommit(Node* n, ull c, std::string& why)
    {
        if (c <= n->legit)
            return true;
        if (sole(n))
            return c < n->next();
        ull t;
        if (!n->termAt(c, t) || t != n->PT)
        {
            why = "the entry is not of the current term";
            return false;
        }
        size_t k = 1, q = quorumSize(n);
        std::set<int> mem = n->cfg.ids();
        for (auto& x : n->conf[n->PT])
            if (x.first != n->id && x.second >= c && (!stat || mem.count(x.first)))
                ++k;
        if (k * 2 <= q)
        {
            why = "only " + std::to_string(k) + " of " + std::to_string(q) + " hold it";
            return false;
        }
        return true;
    }
};

static void lead(Node* n)
{
    // evidence that n leads in its term
    if (n->leaderTerm == n->PT)
        return;
    size_t q = W->quorumSize(n), k = 1;
    std::set<int> mem = n->cfg.ids();
    for (int v : n->votes[n->PT])
        if (v != n->id && (!W->stat || mem.count(v)))
            ++k;
    if (k * 2 <= q)
        W->fail("C04", "server %d acts as leader of term %llu with %zu of %zu votes", n->id, n->PT, k, q);
    auto it = W->leaderOf.find(n->PT);
    if (it != W->leaderOf.end() && it->second != n->id && W->stat && !W->craft)
        W->fail("C04", "servers %d and %d both lead in term %llu", it->second, n->id, n->PT);
    W->leaderOf[n->PT] = n->id;
    n->leaderTerm = n->PT;
    n->maxCommit = 0;
    n->in->outst.clear();
}
static bool followerOp()
{
    return op && (op->type == append_entries_request || op->type == sync_log_request || op->type == install_snapshot_request ||
                  op->type == join_cluster_request);
}
static void probe(Inst* in, const char* what)
{
    if (W->h.prop != "C20" || !op || W->probes <= 0 || !in->srv)
        return;
    --W->probes;
    std::atomic<bool>* done = new std::atomic<bool>(false);
    raft_server* s = in->srv;
    std::thread th([s, done]() {
        req_msg r(0, msg_type::prevote_request, 77, 1, 0, 0, 0);
        s->process_req(r);
        done->store(true);
    });
    for (int i = 0; i < 12 && !done->load(); ++i)
        usleep(1000);
    bool d = done->load();
    th.detach();
    if (d)
        W->fail("C20", "%s during '%s' happened without the server lock: another request was processed meanwhile", what, op->what.c_str());
}

class mlog : public log_store
{
public:
    Inst* in;
    mlog(Inst* i) : in(i) {}
    Node* n() const { return in->n; }
    ulong next_slot() const override
    {
        LG;
        return n()->next();
    }
    ulong start_index() const override
    {
        LG;
        return n()->start;
    }
    ptr<log_entry> last_entry() const override
    {
        LG;
        if (n()->log.empty())
            return cs_new<log_entry>((ulong)0, buffer::alloc(8));
        return mk(n()->log.back());
    }
    ulong append(ptr<log_entry>& e) override
    {
        probe(in, "a write to the log");
        LG;
        ull i = n()->next();
        Ent x = of(*e);
        W->tr("%d:append[%llu]=t%llu/%d", n()->id, i, x.term, x.type);
        if (in->dead)
            return i;
        if (!followerOp())
        {
            if (x.term != n()->PT)
                W->fail("C06", "server %d appended an entry of term %llu at %llu while in term %llu", n()->id, x.term, i, n()->PT);
            lead(n());
            if (x.type == CONF)
                confEntry(x, i);
        }
        n()->log.push_back(x);
        n()->shadow[i] = x;
        if (op)
            op->ev.push_back(Ev{1, i, x.data, (ull)x.type});
        return i;
    }
    void confEntry(const Ent& x, ull i)
    {
        Node* m = n();
        if (m->joined)
            return; // part of its log is from before it joined
        Cfg c = cfgparse(x.data);
        Cfg cur = m->cfg;
        ull pi = 0;
        for (auto& s : m->shadow)
            if (s.second.type == CONF && s.first < i)
            {
                pi = s.first;
                cur = cfgparse(s.second.data);
            }
        if (m->snap && m->snap->idx >= pi && pi == 0)
            cur = m->snap->cfg;
        if (c.idx != i)
            W->fail("C13", "membership entry at %llu says index %llu", i, c.idx);
        if (pi == 0 && (!m->snap || cur.idx == 0))
            return; // records the initial membership
        if (c.prev != cur.idx)
            W->fail("C13", "membership entry at %llu is linked to %llu, the previous one is %llu", i, c.prev, cur.idx);
        std::string why;
        if (pi > m->applied && pi > m->legit && !W->mayCommit(m, pi, why))
            W->fail("C13", "membership entry proposed at %llu while the one at %llu is uncommitted (%s)", i, pi, why.c_str());
        std::set<int> a = cur.ids(), b = c.ids(), d;
        std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(d, d.begin()));
        if (d.size() != 1)
            W->fail("C13", "membership entry at %llu changes %zu servers", i, d.size());
        else if (*d.begin() == m->id)
            W->fail("C13", "membership entry at %llu removes or adds the leader itself", i);
        bufptr bb = mkbuf(x.data);
        if (cluster_config::deserialize(*bb)->get_servers().size() != b.size())
            W->fail("C13", "membership entry at %llu lists a server twice", i);
    }
    void write_at(ulong i, ptr<log_entry>& e) override
    {
        probe(in, "a write to the log");
        LG;
        Node* m = n();
        Ent x = of(*e);
        W->tr("%d:write_at[%llu]=t%llu/%d", m->id, (ull)i, x.term, x.type);
        if (in->dead)
            return;
        if (i < m->start || i > m->next())
            throw std::range_error("index out of range");
        if (!followerOp())
            W->fail("C06", "server %d overwrote its log at %llu during %s", m->id, (ull)i, op ? op->what.c_str() : "background work");
        Ev v{2, i, x.data, (ull)x.type};
        while (m->next() > i)
        {
            v.dropped.push_back(m->log.back());
            m->shadow.erase(m->next() - 1);
            m->log.pop_back();
        }
        m->log.push_back(x);
        m->shadow[i] = x;
        if (op)
            op->ev.push_back(v);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) override
    {
        LG;
        ptr<std::vector<ptr<log_entry>>> r = cs_new<std::vector<ptr<log_entry>>>();
        for (ull i = s; i < e; ++i)
            r->push_back(entry_at(i));
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        LG;
        const Ent* e = n()->at(i);
        if (!e)
            throw std::range_error("no entry");
        return mk(*e);
    }
    ulong term_at(ulong i) override
    {
        LG;
        const Ent* e = n()->at(i);
        if (!e)
            throw std::range_error("no entry");
        return e->term;
    }
    bufptr pack(ulong i, int32 cnt) override
    {
        LG;
        std::string s;
        for (int k = 0; k < cnt; ++k)
        {
            const Ent* e = n()->at(i + k);
            if (!e)
                break;
            ull h[3] = {e->term, (ull)e->type, e->data.size()};
            s.append((const char*)h, sizeof h);
            s += e->data;
        }
        if (s.empty())
            s = std::string(1, 0);
        return mkbuf(s);
    }
    void apply_pack(ulong i, buffer& p) override
    {
        LG;
        Node* m = n();
        if (in->dead)
            return;
        std::string s = bytes(p);
        if (i < m->start || i > m->next())
            return; // a made-up request
        while (m->next() > i)
        {
            m->shadow.erase(m->next() - 1);
            m->log.pop_back();
        }
        for (size_t k = 0; k + 24 <= s.size();)
        {
            ull h[3];
            memcpy(h, s.data() + k, 24);
            Ent x{h[0], (int)h[1], s.substr(k + 24, h[2])};
            m->shadow[m->next()] = x;
            m->log.push_back(x);
            k += 24 + h[2];
        }
        if (op)
            op->ev.push_back(Ev{3, i, ""});
        if (!followerOp())
            W->fail("C06", "log pack applied during %s", op ? op->what.c_str() : "background work");
    }
    bool compact(ulong last) override
    {
        LG;
        Node* m = n();
        W->tr("%d:compact(%llu)", m->id, (ull)last);
        if (in->dead)
            return true;
        if (op)
            op->ev.push_back(Ev{4, last, ""});
        if (!(op && op->type == install_snapshot_request))
        {
            // completion of a snapshot
            if (!in->hasSnap || last + W->P.reserved > in->lastSnapIdx)
                W->fail("C24", "server %d compacted its log up to %llu, last completed snapshot is at %llu and %d entries are reserved", m->id, (ull)last, in->hasSnap ? in->lastSnapIdx : 0, W->P.reserved);
        }
        while (m->start <= last)
        {
            if (!m->log.empty())
                m->log.erase(m->log.begin());
            m->start++;
        }
        return true;
    }
};
class mmgr : public state_mgr
{
public:
    Inst* in;
    mmgr(Inst* i) : in(i) {}
    ptr<cluster_config> load_config() override { return cfgptr(in->n->cfg); }
    void save_config(const cluster_config& c) override
    {
        probe(in, "saving a membership");
        LG;
        Cfg x = cfgof(const_cast<cluster_config&>(c));
        W->tr("%d:save_config(idx %llu, %zu servers)", in->n->id, x.idx, x.srv.size());
        if (in->dead)
            return;
        in->n->cfg = x;
        if (op)
            op->ev.push_back(Ev{8, x.idx, cfgstr(x)});
    }
    void save_state(const srv_state& s) override
    {
        probe(in, "saving term and vote");
        LG;
        Node* n = in->n;
        srv_state& st = const_cast<srv_state&>(s);
        ull t = st.get_term();
        int v = st.get_voted_for();
        W->tr("%d:save_state(term %llu, vote %d)", n->id, t, v);
        if (in->dead)
            return;
        bool join = op && op->type == join_cluster_request;
        if (join)
        {
            n->joined = true;
            n->voted.clear();
            n->leaderTerm = n->candTerm = 0;
            n->legit = INF;
            n->lastSent = 0;
        }
        else
        {
            if (t < n->PT)
                W->fail("C01", "server %d went back from term %llu to %llu", n->id, n->PT, t);
            if (t == n->PT && n->PV != -1 && v != n->PV)
                W->fail("C02", "server %d changed its vote in term %llu from %d to %d", n->id, t, n->PV, v);
        }
        if (t != n->PT)
            n->prevAcc.clear();
        if (op)
            op->ev.push_back(Ev{7, t, "", (ull)(long long)v});
        n->PT = t;
        n->PV = v;
        n->hasState = true;
    }
    ptr<srv_state> read_state() override
    {
        if (!in->n->hasState)
            return ptr<srv_state>();
        ptr<srv_state> s = cs_new<srv_state>();
        s->set_term(in->n->PT);
        s->set_voted_for(in->n->PV);
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<mlog>(in); }
    int32 server_id() override { return in->n->id; }
    void system_exit(const int code) override
    {
        W->tr("%d:exit(%d)%s", in->n->id, code, mainThread ? "" : " in background");
        if (!mainThread)
        {
            if (code != 0)
                _exit(78);
            in->removed = true;
            return;
        }
        in->removed = true;
        throw Exited();
    }
};
class msm : public state_machine
{
public:
    Inst* in;
    msm(Inst* i) : in(i) {}
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        LG;
        Node* n = in->n;
        if (in->dead)
            return;
        std::string x = bytes(d);
        W->tr("%d:apply[%llu]", n->id, (ull)i);
        in->stamp++;
        if (i <= n->applied && !n->joined)
            W->fail("C10", "server %d applied index %llu again or out of order (last was %llu)", n->id, (ull)i, n->applied);
        for (auto it = n->shadow.upper_bound(n->applied); it != n->shadow.end() && it->first < i; ++it)
        {
            if (it->second.type == APP && !n->joined)
                W->fail("C10", "server %d skipped entry %llu, applying %llu after %llu", n->id, it->first, (ull)i, n->applied);
            if (it->second.type == CONF && n->cfg.idx < cfgparse(it->second.data).idx)
                W->fail("C14", "server %d applies %llu but the membership committed at %llu has not been saved", n->id, (ull)i, it->first);
        }
        auto it = n->shadow.find(i);
        if (it == n->shadow.end())
            W->fail("C10", "server %d applied index %llu beyond its log (next %llu)", n->id, (ull)i, n->next());
        else if (it->second.data != x || it->second.type != APP)
            W->fail("C10", "server %d applied something else than the entry stored at %llu", n->id, (ull)i);
        if (i > n->legit)
        {
            std::string why;
            if (n->leaderTerm == n->PT || W->sole(n))
            {
                if (!W->mayCommit(n, i, why))
                    W->fail("C08", "leader %d applied index %llu in term %llu: %s", n->id, (ull)i, n->PT, why.c_str());
                else
                    n->legit = i;
            }
            else
                W->fail("C09", "server %d applied index %llu, only %llu is verified as committed", n->id, (ull)i, n->legit);
        }
        if (W->stat && !W->craft)
        {
            auto a = W->appliedAll.find(i);
            if (a != W->appliedAll.end() && a->second != x)
                W->fail("C08", "different entries were applied at index %llu", (ull)i);
            W->appliedAll[i] = x;
        }
        if (in->dueIdx && in->dueIdx < i && !in->snapOut && in->dueIdx == n->applied)
            W->fail("C24", "no snapshot was created at %llu although one was due", in->dueIdx);
        n->applied = i;
        in->dueIdx = 0;
        if (W->P.dist > 0 && !in->removed && !in->snapOut && !in->completing && i >= n->start && i - n->start >= (ull)W->P.dist && (!in->hasSnap || (i > in->lastSnapIdx && i - in->lastSnapIdx >= (ull)W->P.dist)) && n->cfg.idx > 0)
            in->dueIdx = i;
    }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        LG;
        if (op)
            op->ev.push_back(Ev{5, i, bytes(d)});
    }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        LG;
        if (op)
            op->ev.push_back(Ev{6, i, bytes(d)});
    }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override
    {
        LG;
        if (op)
            op->ev.push_back(Ev{9, off, bytes(d), s.get_last_log_idx()});
        if (off == 0)
            in->n->part.clear();
        in->n->part[off] = bytes(d);
    }
    bool apply_snapshot(snapshot& s) override
    {
        LG;
        Node* n = in->n;
        W->tr("%d:apply_snapshot(%llu)", n->id, (ull)s.get_last_log_idx());
        if (!(op && op->type == install_snapshot_request))
            W->fail("C11", "snapshot applied outside of an installation");
        if (op)
            op->ev.push_back(Ev{10, s.get_last_log_idx(), ""});
        n->snap = std::make_shared<Snap>();
        n->snap->idx = s.get_last_log_idx();
        n->snap->term = s.get_last_log_term();
        n->snap->cfg = cfgof(*s.get_last_config());
        for (auto& p : n->part)
            n->snap->data += p.second;
        if (n->snap->data.size() != s.size())
            n->snap->data.resize(s.size());
        for (auto it = n->shadow.begin(); it != n->shadow.end() && it->first <= n->snap->idx;)
            it = it->second.type == CONF && it->first > n->snap->cfg.idx ? n->shadow.erase(it) : std::next(it); // not in the committed history
        n->applied = s.get_last_log_idx();
        if (n->legit < n->applied)
            n->legit = n->applied;
        in->hasSnap = true;
        in->lastSnapIdx = n->snap->idx;
        in->dueIdx = 0;
        return true;
    }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& d) override
    {
        LG;
        Node* n = in->n;
        if (!n->snap || off + d.size() > n->snap->data.size())
            return 0;
        memcpy(d.data(), n->snap->data.data() + off, d.size());
        return (int)d.size();
    }
    ptr<snapshot> last_snapshot() override
    {
        LG;
        Node* n = in->n;
        if (!n->snap)
            return ptr<snapshot>();
        return cs_new<snapshot>(n->snap->idx, n->snap->term, cfgptr(n->snap->cfg), n->snap->data.size());
    }
    ulong last_commit_index() override
    {
        LG;
        return in->n->applied;
    }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        int how;
        PSnap p;
        {
            LG;
            Node* n = in->n;
            if (in->dead || in->removed)
                return;
            ull i = s.get_last_log_idx();
            W->tr("%d:create_snapshot(%llu)", n->id, i);
            if (in->snapOut)
                W->fail("C24", "a second snapshot is created while one is in progress");
            if (i > n->applied)
            {
                // entries that are not handed to the state machine may lie between
                bool app = false;
                for (auto it = n->shadow.upper_bound(n->applied); it != n->shadow.end() && it->first <= i; ++it)
                    app = app || it->second.type == APP;
                if (app || !n->shadow.count(i))
                    W->fail("C24", "snapshot created at %llu, applied is %llu", i, n->applied);
            }
            auto e = n->shadow.find(i);
            if (e != n->shadow.end() && e->second.term != s.get_last_log_term())
                W->fail("C24", "snapshot at %llu carries term %llu, the entry has %llu", i, (ull)s.get_last_log_term(), e->second.term);
            Cfg c = cfgof(*s.get_last_config());
            if (c.idx > i)
                W->fail("C24", "snapshot at %llu carries the membership of %llu", i, c.idx);
            bool linked = true; // made-up entries may not be
            ull lc = 0;
            for (auto& x : n->shadow)
                if (x.second.type == CONF)
                {
                    linked = linked && (lc == 0 || cfgparse(x.second.data).prev == lc);
                    lc = x.first;
                }
            for (auto it = n->shadow.begin(); it != n->shadow.end() && it->first <= i; ++it)
                if (it->second.type == CONF && it->first > c.idx && !n->joined && linked)
                    W->fail("C24", "snapshot at %llu carries the membership of %llu, not that of %llu", i, c.idx, it->first);
            if (W->P.dist <= 0)
                W->fail("C24", "snapshot created although disabled");
            // (the log may have been compacted since the decision)
            if (!n->joined && (i < (ull)W->P.dist || (in->hasSnap && (i < in->lastSnapIdx || i - in->lastSnapIdx < (ull)W->P.dist))))
                W->fail("C24", "snapshot created at %llu although not due (log starts at %llu, last snapshot %llu)", i, n->start, in->lastSnapIdx);
            in->dueIdx = 0;
            p.in = in;
            p.h = done;
            p.s = std::make_shared<Snap>();
            p.s->idx = i;
            p.s->term = s.get_last_log_term();
            p.s->cfg = c;
            p.s->data = std::string(1 + W->h.rnd(40), 'a' + W->h.rnd(26));
            how = (int)W->h.rnd(10);
            in->snapOut = true;
            if (how < 5)
            {
                W->psnaps.push_back(p);
                return;
            }
            if (how == 9)
            {
                in->snapOut = false;
                W->tr("%d:create_snapshot throws", n->id);
            }
        }
        if (how == 9)
            throw std::runtime_error("cannot");
        complete(p, how == 8 ? 0 : how == 7 ? 2 : 1);
    }
    static void complete(PSnap& p, int how)
    {
        bool r = how == 1;
        ptr<std::exception> e;
        {
            LG;
            if (p.in->dead)
                return;
            W->tr("%d:snapshot %llu completes %d", p.in->n->id, p.s->idx, how);
            p.in->snapOut = false;
            p.in->completing++;
            if (how == 1 && !(p.in->n->snap && p.in->n->snap->idx >= p.s->idx))
            {
                p.in->n->snap = p.s;
                p.in->hasSnap = true;
                p.in->lastSnapIdx = p.s->idx;
            }
            else if (how == 1)
                r = false; // overtaken by an installed one
            if (how == 2)
                e = cs_new<std::runtime_error>("failed");
        }
        p.h(r, e);
        LG;
        p.in->completing--;
    }
};
class msched : public delayed_task_scheduler
{
public:
    Inst* in;
    msched(Inst* i) : in(i) {}
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        LG;
        t->reset();
        for (size_t i = 0; i < in->cancelled.size();)
            if (in->cancelled[i].t == t)
                in->cancelled.erase(in->cancelled.begin() + i);
            else
                ++i;
        in->tasks.push_back(Task{t, ms});
        if (op)
            op->nsched++;
    }

private:
    void cancel_impl(ptr<delayed_task>& t) override
    {
        LG;
        for (size_t i = 0; i < in->tasks.size();)
            if (in->tasks[i].t == t)
            {
                in->cancelled.push_back(in->tasks[i]);
                in->tasks.erase(in->tasks.begin() + i);
            }
            else
                ++i;
        if (in->cancelled.size() > 8)
            in->cancelled.erase(in->cancelled.begin());
    }
};
class mrpc : public rpc_client
{
public:
    Inst* in;
    int dst;
    mrpc(Inst* i, int d) : in(i), dst(d) {}
    void send(ptr<req_msg>& r, rpc_handler& h) override
    {
        LG;
        if (in->dead)
            return;
        Node* n = in->n;
        auto m = std::make_shared<Msg>();
        m->src = n->id;
        m->dst = dst;
        m->from = in;
        m->req = r;
        m->h = h;
        m->id = ++W->mid;
        for (auto& e : r->log_entries())
            m->es.push_back(of(*e));
        int ty = r->get_type();
        ull t = r->get_term(), c = r->get_commit_idx(), prev = r->get_last_log_idx(), pt = r->get_last_log_term();
        W->tr("%d->%d type %d term %llu prev %llu/%llu commit %llu n %zu", n->id, dst, ty, t, prev, pt, c, m->es.size());
        bool stat = W->stat;
        if (ty == append_entries_request || ty == vote_request || ty == prevote_request || ty == install_snapshot_request)
        {
            if (t != n->PT)
                W->fail("C01", "server %d sent a message of term %llu, saved is %llu", n->id, t, n->PT);
            if (dst == n->id)
                W->fail("C14", "server %d sends to itself", n->id);
            if (stat && !n->cfg.srv.count(dst))
                W->fail("C14", "server %d sends to %d, which is not a member", n->id, dst);
        }
        if (ty == vote_request || ty == prevote_request)
        {
            ull lt = 0;
            if (prev != n->next() - 1 || !n->termAt(prev, lt) || lt != pt)
                W->fail("C03", "server %d states its last entry as %llu/%llu, it is %llu/%llu", n->id, prev, pt, n->next() - 1, lt);
        }
        if (ty == vote_request)
        {
            if (n->PV != n->id)
                W->fail("C02", "server %d asks for votes in term %llu but saved the vote %d", n->id, t, n->PV);
            auto v = n->voted.find(t);
            if (v != n->voted.end() && v->second != n->id)
                W->fail("C02", "server %d asks for votes in term %llu after voting for %d", n->id, t, v->second);
            n->voted[t] = n->id;
            n->candTerm = t;
            n->prevAcc.clear();
        }
        if (ty == append_entries_request || ty == install_snapshot_request)
        {
            bool member = n->cfg.srv.count(dst) && stat;
            if (stat)
                lead(n);
            else if (ty == append_entries_request)
                lead(n);
            auto o = in->outst.find(dst);
            if (member && o != in->outst.end() && o->second.second == t && !in->lateOk.count(std::make_pair(dst, t)))
                W->fail("C23", "server %d sends another request to %d while one is outstanding", n->id, dst);
            in->outst[dst] = std::make_pair(m->id, t);
            if (c < n->lastSent && !n->joined)
                W->fail("C09", "the commit index of server %d went back from %llu to %llu", n->id, n->lastSent, c);
            n->lastSent = std::max(n->lastSent, c);
            if (c > n->legit)
            {
                std::string why;
                if (!W->mayCommit(n, c, why))
                    W->fail("C08", "leader %d states commit index %llu in term %llu: %s", n->id, c, n->PT, why.c_str());
                else
                    n->legit = c;
            }
            n->maxCommit = std::max(n->maxCommit, c);
        }
        if (ty == append_entries_request)
        {
            ull lt = 0;
            if (prev >= n->next() || !n->termAt(prev, lt) || lt != pt)
                W->fail("C07", "server %d names preceding entry %llu/%llu, its log has %llu (next %llu)", n->id, prev, pt, lt, n->next());
            else
            {
                ull want = std::min<ull>(W->P.maxapp, n->next() - 1 - prev);
                if (m->es.size() != want)
                    W->fail("C07", "server %d sends %zu entries after %llu, %llu are due", n->id, m->es.size(), prev, want);
                for (size_t k = 0; k < m->es.size(); ++k)
                {
                    const Ent* e = n->at(prev + 1 + k);
                    if (!e || !(*e == m->es[k]))
                        W->fail("C07", "server %d sends another entry than the one at %llu of its log", n->id, prev + 1 + (ull)k);
                }
            }
        }
        if (ty == install_snapshot_request)
            chunk(m, c);
        if (op)
            op->sends.push_back(m);
        W->net.push_back(m);
    }
    std::map<int, std::pair<ull, ull>>& confd();
    void chunk(std::shared_ptr<Msg>& m, ull c);
};
static std::map<std::pair<Inst*, int>, std::pair<ull, ull>> snapConf; // confirmed: snapshot index, offset
void mrpc::chunk(std::shared_ptr<Msg>& m, ull)
{
    Node* n = in->n;
    if (m->es.size() != 1)
    {
        W->fail("C12", "a chunk with %zu entries", m->es.size());
        return;
    }
    bufptr b = mkbuf(m->es[0].data);
    ptr<snapshot_sync_req> s = snapshot_sync_req::deserialize(*b);
    ull idx = s->get_snapshot().get_last_log_idx(), off = s->get_offset(), sz = s->get_snapshot().size();
    std::string d = bytes(s->get_data());
    ull blk = W->P.blk ? W->P.blk : 4096;
    if (d.empty())
        W->fail("C12", "an empty chunk at offset %llu of %llu", off, sz);
    if (d.size() > blk)
        W->fail("C12", "a chunk of %zu bytes, block size %llu", d.size(), blk);
    if (off + d.size() > sz)
        W->fail("C12", "a chunk beyond the end of the snapshot");
    if (s->is_done() != (off + d.size() == sz))
        W->fail("C12", "chunk %llu+%zu of %llu is flagged %s", off, d.size(), sz, s->is_done() ? "final" : "not final");
    if (n->snap && n->snap->idx == idx && n->snap->data.compare(off, d.size(), d) != 0)
        W->fail("C12", "a chunk with other data than the snapshot has");
    if (m->req->get_last_log_idx() != idx || m->req->get_last_log_term() != s->get_snapshot().get_last_log_term())
        W->fail("C12", "the chunk names another position than its snapshot");
    if (W->stat)
    {
        auto k = std::make_pair(in, dst);
        auto it = snapConf.find(k);
        ull want = it != snapConf.end() && it->second.first == idx ? it->second.second : 0;
        if (off != want && off != 0)
            W->fail("C12", "chunk at offset %llu, the receiver confirmed %llu", off, want);
        if (off == 0 && want != 0 && n->leaderTerm == n->PT && in->outst.count(-dst) && in->outst[-dst].second == n->PT)
            W->fail("C12", "the transfer starts over although the receiver confirmed %llu", want);
        in->outst[-dst] = std::make_pair(0, n->PT);
        if (off == 0)
            snapConf[k] = std::make_pair(idx, 0);
    }
}
class mfac : public rpc_client_factory
{
public:
    Inst* in;
    mfac(Inst* i) : in(i) {}
    ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<mrpc>(in, atoi(ep.c_str() + 1)); }
};
class mlsn : public rpc_listener
{
public:
    void listen(ptr<msg_handler>&) override {}
    void stop() override {}
};
class mlg : public logger
{
public:
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string& s) override
    {
        if (getenv("HLOG"))
            fprintf(stderr, "ERR %s\n", s.c_str());
    }
};

static void begin(Op& o, Node* n, int type, const char* what)
{
    o.n = n;
    o.type = type;
    o.what = what;
    op = &o;
}
static void boot(Node* n)
{
    Inst* in = new Inst;
    in->n = n;
    static int ep = 0;
    in->epoch = ++ep;
    if (n->snap)
    {
        in->hasSnap = true;
        in->lastSnapIdx = n->snap->idx;
    }
    n->in = in;
    n->leaderTerm = n->candTerm = 0;
    n->prevAcc.clear();
    n->lastSent = 0;
    if (n->legit < n->applied)
        n->legit = n->applied;
    raft_params* p = new raft_params;
    Params& q = W->P;
    p->with_election_timeout_lower(q.lo).with_election_timeout_upper(q.up).with_hb_interval(q.hb).with_rpc_failure_backoff(5).with_max_append_size(q.maxapp).with_log_sync_batch_size(q.batch).with_log_sync_stopping_gap(q.gap).with_snapshot_enabled(q.dist).with_snapshot_sync_block_size(q.blk).with_reserved_log_items(q.reserved).with_prevote_enabled(q.prevote).with_defensive_prevote(q.defensive);
    Op o;
    begin(o, n, 0, "start");
    context* c = new context(cs_new<mmgr>(in), cs_new<msm>(in), cs_new<mlsn>(), cs_new<mlg>(), cs_new<mfac>(in), cs_new<msched>(in), ptr<raft_event_listener>(), p);
    in->srv = new raft_server(c);
    op = nullptr;
}
static void quiesce(Node* n)
{
    // let the background committer come to rest
    long s = -1;
    for (int i = 0; i < 20; ++i)
    {
        {
            LG;
            if (s == n->in->stamp && i > 2)
                return;
            s = n->in->stamp;
        }
        usleep(150);
    }
}

// ---- checks at the end of operations
static void endop(Op& o, Node* n, const std::vector<Ent>& log0, ull start0)
{
    // notifications
    std::map<std::pair<ull, std::string>, int> pc, rb;
    std::set<std::pair<ull, std::string>> rbsofar;
    bool pack = false;
    for (auto& e : o.ev)
    {
        if (e.kind == 3)
            pack = true;
        if (e.kind == 1 && e.a == (ull)APP)
            pc[{e.idx, e.data}]++;
        if (e.kind == 2)
        {
            if (e.a == (ull)APP)
                pc[{e.idx, e.data}]++;
            for (size_t k = 0; k < e.dropped.size(); ++k)
            {
                const Ent& d = e.dropped[e.dropped.size() - 1 - k];
                if (d.type != APP)
                    continue;
                rb[{e.idx + k, d.data}]++;
                if (!rbsofar.count({e.idx + k, d.data}))
                    W->fail("C26", "the entry at %llu of server %d was removed without a rollback before", e.idx + (ull)k, n->id);
            }
        }
        if (e.kind == 5)
            pc[{e.idx, e.data}]--;
        if (e.kind == 6)
        {
            rb[{e.idx, e.data}]--;
            rbsofar.insert({e.idx, e.data});
        }
    }
    if (!pack)
    {
        for (auto& x : pc)
            if (x.second)
                W->fail("C26", "server %d: entry %llu was %s", n->id, x.first.first, x.second > 0 ? "added but not announced" : "announced but not added");
        for (auto& x : rb)
            if (x.second)
                W->fail("C26", "server %d: entry %llu was %s", n->id, x.first.first, x.second > 0 ? "removed but not rolled back" : "rolled back but not removed");
    }
    // fan-out of elections
    std::set<int> vr, ar;
    for (auto& m : o.sends)
    {
        if (m->req->get_type() == vote_request)
            vr.insert(m->dst);
    }
    if (!vr.empty() && W->stat)
    {
        std::set<int> want = n->cfg.ids();
        want.erase(n->id);
        if (vr != want)
            W->fail("C14", "server %d asks %zu servers for votes, its membership has %zu others", n->id, vr.size(), want.size());
    }
    (void)ar;
}
static bool logSame(Node* n, const std::vector<Ent>& l0, ull s0)
{
    return n->start == s0 && n->log == l0;
}
static bool call(Node* n, Op& o, const std::function<void()>& f)
{
    // false: the server stopped
    bool ok = true;
    try
    {
        f();
    }
    catch (Exited&)
    {
        ok = false;
    }
    catch (std::exception& e)
    {
        const char* p = o.type == append_entries_request ? "C05" : o.type == vote_request ? "C02" : o.type == install_snapshot_request ? "C11" : o.type == prevote_request ? "C22" : o.type == client_request ? "C25" : "C13";
        W->fail(p, "server %d: '%s' ended with an exception: %s", n->id, o.what.c_str(), e.what());
        ok = false;
    }
    op = nullptr;
    if (!ok || n->in->removed)
    {
        LG;
        n->in->dead = true;
        return false;
    }
    return true;
}

static ptr<resp_msg> deliverReq(Node* n, int type, ull term, int src, ull pt, ull prev, ull commit, const std::vector<Ent>& es, bool& alive)
{
    alive = true;
    req_msg r(term, (msg_type)type, src, n->id, pt, prev, commit);
    for (auto& e : es)
        r.log_entries().push_back(mk(e));
    if (type == install_snapshot_request || !W->stat)
        quiesce(n);
    std::vector<Ent> l0;
    ull s0, PT0, nx0, ap0;
    int PV0;
    bool wasLeader;
    {
        LG;
        l0 = n->log;
        s0 = n->start;
        PT0 = n->PT;
        PV0 = n->PV;
        nx0 = n->next();
        ap0 = n->applied;
        wasLeader = n->leaderTerm == n->PT && n->PT > 0;
        W->quorumSize(n);
        for (auto& e : es)
            if (e.type == CONF && !W->stat)
                n->minq = std::min(n->minq, cfgparse(e.data).srv.size());
    }
    bool pubLeader = type == prevote_request && n->in->srv->is_leader();
    bool okterm = term >= PT0;
    bool okprev = false;
    if (type == append_entries_request)
    {
        LG;
        ull t;
        okprev = prev == 0 || (prev < n->next() && n->termAt(prev, t) && t == pt);
        if (okterm && okprev && n->legit < INF)
            n->legit = std::max(n->legit, std::min<ull>(commit, prev + es.size()));
        W->tr("=> %d append from %d term %llu prev %llu/%llu commit %llu n %zu", n->id, src, term, prev, pt, commit, es.size());
    }
    else
        W->tr("=> %d type %d from %d term %llu pos %llu/%llu n %zu", n->id, type, src, term, prev, pt, es.size());
    Op o;
    char w[60];
    snprintf(w, sizeof w, "request of type %d", type);
    begin(o, n, type, w);
    ptr<resp_msg> resp;
    bool ok = call(n, o, [&]() { resp = n->in->srv->process_req(r); });
    bool stillLeader = ok && pubLeader && n->in->srv->is_leader();
    LG;
    if (!ok || !resp)
    {
        alive = ok;
        return ptr<resp_msg>();
    }
    endop(o, n, l0, s0);
    bool acc = resp->get_accepted();
    ull t1 = n->PT;
    W->tr("   answer acc %d next %llu term %llu", acc, (ull)resp->get_next_idx(), (ull)resp->get_term());
    if (resp->get_term() != t1 && type != join_cluster_request)
        W->fail("C01", "server %d answers with term %llu, saved is %llu", n->id, (ull)resp->get_term(), t1);
    if (type == append_entries_request)
    {
        if (acc)
        {
            if (!okterm)
                W->fail("C05", "server %d accepted entries of term %llu in term %llu", n->id, term, PT0);
            else if (!okprev)
                W->fail("C05", "server %d accepted entries after %llu/%llu, which its log does not contain", n->id, prev, pt);
            else
            {
                if (resp->get_next_idx() != prev + es.size() + 1)
                    W->fail("C05", "server %d confirms %llu, the request ends at %llu", n->id, (ull)resp->get_next_idx(), prev + (ull)es.size());
                std::vector<Ent> x = l0;
                size_t k = 0;
                for (; k < es.size(); ++k)
                {
                    ull i = prev + 1 + k;
                    if (i < s0)
                        continue;
                    if (i >= nx0 || x[i - s0].term != es[k].term)
                        break;
                }
                if (k < es.size())
                {
                    ull i = prev + 1 + k;
                    x.resize(i - s0);
                    for (; k < es.size(); ++k)
                        x.push_back(es[k]);
                }
                std::vector<Ent> y = n->log;
                if (n->start > s0) // compacted meanwhile
                    x.erase(x.begin(), x.begin() + std::min<size_t>(x.size(), n->start - s0));
                if (!(x == y))
                    W->fail("C05", "the log of server %d after the request is not the matched one (length %zu, expected %zu)", n->id, y.size(), x.size());
            }
            n->candTerm = 0;
        }
        else
        {
            bool same = n->next() == nx0;
            for (ull i = std::max(s0, n->start); same && i < nx0; ++i)
                same = l0[i - s0] == *n->at(i);
            if (!same)
                W->fail("C05", "server %d rejected the request but changed its log", n->id);
        }
    }
    if (type == vote_request || type == prevote_request)
    {
        if (acc)
        {
            ull lt = 0;
            n->termAt(n->next() - 1, lt);
            if (pt < lt || (pt == lt && prev < n->next() - 1))
                W->fail("C03", "server %d, last entry %llu/%llu, grants a %s to a candidate with %llu/%llu", n->id, n->next() - 1, lt, type == vote_request ? "vote" : "pre-vote", prev, pt);
        }
    }
    if (type == vote_request && acc)
    {
        if (n->PT != term || n->PV != src)
            W->fail("C02", "server %d grants its vote of term %llu to %d, saved is %d in %llu", n->id, term, src, n->PV, n->PT);
        auto v = n->voted.find(term);
        if (v != n->voted.end() && v->second != src)
            W->fail("C02", "server %d votes for %d and %d in term %llu", n->id, v->second, src, term);
        n->voted[term] = src;
    }
    if (type == prevote_request)
    {
        if (n->PT != PT0 || n->PV != PV0 || n->next() != nx0)
            W->fail("C22", "a pre-vote request changed term, vote or log of server %d", n->id);
        if (pubLeader && !stillLeader && !W->lapse)
            W->fail("C22", "a pre-vote request made leader %d step down", n->id);
        for (auto& m : o.sends)
            if (m->req->get_type() == vote_request)
                W->fail("C22", "a pre-vote request made server %d a candidate", n->id);
    }
    if (type == client_request)
    {
        bool same = n->next() == nx0;
        if (acc)
        {
            if (!(wasLeader || W->sole(n)))
                W->fail("C25", "server %d accepted client data although it does not lead", n->id);
            bool good = n->next() == nx0 + es.size();
            for (size_t k = 0; good && k < es.size(); ++k)
            {
                const Ent* e = n->at(nx0 + k);
                good = !e ? nx0 + k < n->start : e->data == es[k].data && e->term == n->PT && e->type == es[k].type;
            }
            if (!good)
                W->fail("C25", "server %d accepted %zu entries but its log went from %llu to %llu or holds others", n->id, es.size(), nx0, n->next());
        }
        else if (!same)
            W->fail("C25", "server %d refused client data but changed its log", n->id);
    }
    if (type == install_snapshot_request && es.size() == 1)
    {
        bufptr b = mkbuf(es[0].data);
        ptr<snapshot_sync_req> s = snapshot_sync_req::deserialize(*b);
        ull idx = s->get_snapshot().get_last_log_idx();
        std::string d = bytes(s->get_data());
        int nsave = 0, napply = 0, ncfg = 0;
        bool bad = false;
        std::string sc;
        for (auto& e : o.ev)
        {
            if (e.kind == 9)
            {
                ++nsave;
                bad = bad || e.idx != s->get_offset() || e.data != d || e.a != idx;
            }
            if (e.kind == 10)
                ++napply;
            if (e.kind == 8)
            {
                ++ncfg;
                sc = e.data;
            }
        }
        bool stale = idx <= ap0 && !n->joined;
        if (nsave && (bad || nsave > 1))
            W->fail("C11", "server %d stored a chunk with another offset, data or snapshot", n->id);
        if ((napply || nsave) && !okterm && !n->joined)
            W->fail("C11", "server %d took a snapshot of term %llu in term %llu", n->id, term, PT0);
        if (napply && stale)
            W->fail("C11", "server %d applied snapshot %llu although %llu is applied", n->id, idx, ap0);
        if (napply && !s->is_done())
            W->fail("C11", "server %d applied a snapshot before its last chunk", n->id);
        if (acc && !nsave)
            W->fail("C11", "server %d confirms a chunk it did not store", n->id);
        if (acc && s->is_done() && napply != 1)
            W->fail("C11", "server %d confirmed the last chunk but applied the snapshot %d times", n->id, napply);
        if (acc && resp->get_next_idx() != s->get_offset() + d.size())
            W->fail("C11", "server %d confirms %llu, the chunk ends at %llu", n->id, (ull)resp->get_next_idx(), (ull)s->get_offset() + (ull)d.size());
        if (napply)
        {
            if (n->start <= idx)
                W->fail("C11", "the log of server %d still begins at %llu after installing %llu", n->id, n->start, idx);
            Cfg c = cfgof(*s->get_snapshot().get_last_config());
            if (!ncfg || sc != cfgstr(c))
                W->fail("C11", "the membership of the snapshot was not saved");
        }
    }
    return resp;
}

static void deliverResp(std::shared_ptr<Msg> m, ptr<resp_msg> resp)
{
    Inst* in = m->from;
    Node* n = in->n;
    if (in->dead)
        return;
    int ty = m->req->get_type();
    ull PT0, mc0, lt0;
    int rt = resp->get_type();
    if (!W->stat)
        quiesce(n);
    std::vector<Ent> l0;
    ull s0;
    {
        LG;
        PT0 = n->PT;
        l0 = n->log;
        s0 = n->start;
        mc0 = n->maxCommit;
        lt0 = n->leaderTerm;
        W->tr("<= %d answer type %d from %d acc %d next %llu term %llu", n->id, rt, (int)resp->get_src(), resp->get_accepted(), (ull)resp->get_next_idx(), (ull)resp->get_term());
        auto o = in->outst.find(m->dst);
        if (m->req->get_term() != n->PT)
            in->lateOk.insert(std::make_pair(m->dst, n->PT));
        if (o != in->outst.end() && o->second.first == m->id)
            in->outst.erase(o);
        if (resp->get_accepted() && resp->get_term() == PT0)
        {
            if (rt == vote_response && m->req->get_term() == PT0)
                n->votes[PT0].insert(resp->get_src());
            if (rt == append_entries_response && ty == append_entries_request && m->req->get_term() == PT0)
                n->conf[PT0][resp->get_src()] = std::max<ull>(n->conf[PT0][resp->get_src()], resp->get_next_idx() - 1);
            if (rt == install_snapshot_response && ty == install_snapshot_request)
            {
                bufptr b = mkbuf(m->es[0].data);
                ptr<snapshot_sync_req> s = snapshot_sync_req::deserialize(*b);
                ull idx = s->get_snapshot().get_last_log_idx();
                snapConf[std::make_pair(in, m->dst)] = std::make_pair(idx, (ull)resp->get_next_idx());
                if (resp->get_next_idx() >= s->get_snapshot().size())
                {
                    n->conf[PT0][resp->get_src()] = std::max<ull>(n->conf[PT0][resp->get_src()], idx);
                    snapConf.erase(std::make_pair(in, m->dst));
                    in->outst.erase(-m->dst);
                }
            }
        }
        if (rt == prevote_response && resp->get_accepted())
            n->prevAcc.insert(resp->get_src());
    }
    std::set<int> pa = n->prevAcc;
    Op o;
    char w[60];
    snprintf(w, sizeof w, "response of type %d", rt);
    begin(o, n, 1000 + rt, w);
    ptr<rpc_exception> noerr;
    if (!call(n, o, [&]() { m->h(resp, noerr); }))
        return;
    LG;
    endop(o, n, l0, s0);
    bool cand = false, again = false;
    for (auto& x : o.sends)
    {
        if (x->req->get_type() == vote_request)
            cand = true;
        if (x->dst == m->dst && (x->req->get_type() == append_entries_request || x->req->get_type() == install_snapshot_request))
            again = true;
    }
    if (cand && rt == prevote_response)
    {
        std::set<int> mem = n->cfg.ids();
        size_t k = 1;
        for (int v : pa)
            if (v != n->id && (!W->stat || mem.count(v)))
                ++k;
        if (k * 2 <= W->quorumSize(n))
            W->fail("C22", "server %d becomes a candidate with %zu of %zu pre-votes", n->id, k, W->quorumSize(n));
    }
    if (cand && rt != prevote_response)
        W->fail("C22", "server %d becomes a candidate on a response of type %d", n->id, rt);
    if (ty == append_entries_request && rt == append_entries_response && W->stat && lt0 == PT0 && n->PT == PT0 && resp->get_term() == PT0 && m->req->get_term() == PT0 && n->leaderTerm == PT0)
    {
        if (n->maxCommit > m->req->get_commit_idx() && !again && !in->lateOk.count(std::make_pair(m->dst, PT0)))
            W->fail("C23", "server %d was told commit index %llu, the leader has announced %llu, but the answer is not followed by a request", m->dst, (ull)m->req->get_commit_idx(), n->maxCommit);
    }
    (void)mc0;
}
static void failReq(std::shared_ptr<Msg> m)
{
    Inst* in = m->from;
    Node* n = in->n;
    if (in->dead)
        return;
    std::vector<Ent> l0;
    ull s0, nx0;
    {
        LG;
        l0 = n->log;
        s0 = n->start;
        nx0 = n->next();
        W->tr("<= %d request to %d type %d failed", n->id, m->dst, (int)m->req->get_type());
        auto o = in->outst.find(m->dst);
        if (m->req->get_term() != n->PT)
            in->lateOk.insert(std::make_pair(m->dst, n->PT));
        if (o != in->outst.end() && o->second.first == m->id)
            in->outst.erase(o);
    }
    Op o;
    begin(o, n, 2000, "failed request");
    ptr<resp_msg> nil;
    ptr<rpc_exception> e = cs_new<rpc_exception>(std::string("lost"), m->req);
    if (!call(n, o, [&]() { m->h(nil, e); }))
        return;
    LG;
    endop(o, n, l0, s0);
    if (m->req->get_type() != leave_cluster_request && n->next() != nx0)
        W->fail("C06", "a failed request changed the log of server %d", n->id);
}
static void fire(Node* n, bool election, bool any)
{
    Inst* in = n->in;
    Task t;
    bool cancelled = false;
    std::vector<Ent> l0;
    ull s0, PT0, lt;
    int PV0;
    bool wasCand;
    if (!W->stat)
        quiesce(n);
    {
        LG;
        if (any && !in->cancelled.empty() && W->h.chance(20))
        {
            t = in->cancelled[W->h.rnd(in->cancelled.size())];
            for (auto& x : in->tasks)
                if (x.t == t.t)
                    return; // scheduled again
            cancelled = true;
        }
        else
        {
            std::vector<size_t> c;
            for (size_t i = 0; i < in->tasks.size(); ++i)
                if (any || (in->tasks[i].ms >= W->P.lo) == election)
                    c.push_back(i);
            if (c.empty())
                return;
            size_t k = c[W->h.rnd(c.size())];
            t = in->tasks[k];
            in->tasks.erase(in->tasks.begin() + k);
        }
        l0 = n->log;
        s0 = n->start;
        PT0 = n->PT;
        PV0 = n->PV;
        lt = n->leaderTerm;
        wasCand = n->candTerm == PT0 && PT0 > 0;
        W->tr("* %d timer %d%s", n->id, t.ms, cancelled ? " (cancelled)" : "");
    }
    bool el = t.ms >= W->P.lo;
    Op o;
    begin(o, n, el ? 3000 : 3001, el ? "election timeout" : "heartbeat");
    if (!call(n, o, [&]() { t.t->execute(); }))
        return;
    LG;
    endop(o, n, l0, s0);
    if (cancelled && (!o.sends.empty() || !o.ev.empty() || o.nsched))
        W->fail("C27", "a cancelled %s of server %d ran", o.what.c_str(), n->id);
    if (!el && !cancelled && lt != PT0 && !W->sole(n) && W->stat)
    {
        for (auto& x : o.sends)
            if (x->req->get_type() == append_entries_request || x->req->get_type() == install_snapshot_request)
                W->fail("C27", "a heartbeat of server %d is sent although it does not lead", n->id);
    }
    if (el && W->P.prevote && !wasCand && !cancelled && W->stat && n->cfg.srv.size() > 1)
    {
        bool cand = false;
        for (auto& x : o.sends)
            cand = cand || x->req->get_type() == vote_request;
        if (cand || n->PT != PT0 || n->PV != PV0)
            W->fail("C22", "with pre-voting an election timeout made follower %d change its term or vote or ask for votes", n->id);
    }
}

// ---- scenarios
static std::string data(int k)
{
    char b[40];
    snprintf(b, sizeof b, "d%d-%llu", k, ++W->dseq);
    return b;
}
static void addNode(int id, const Cfg& c)
{
    Node* n = new Node;
    n->id = id;
    n->cfg = c;
    W->nodes[id] = n;
}
static std::string ep(int id)
{
    return "n" + std::to_string(id);
}
static void randomParams()
{
    H& h = W->h;
    Params& p = W->P;
    p.maxapp = 1 + (int)h.rnd(4);
    p.prevote = h.chance(h.prop == "C22" ? 85 : 35);
    p.defensive = h.chance(50);
    if (h.chance(60) || h.prop == "C24" || h.prop == "C12" || h.prop == "C11")
    {
        p.dist = 1 + (int)h.rnd(6);
        p.blk = 1 + (int)h.rnd(20);
        p.reserved = h.chance(70) ? 0 : (int)h.rnd(4);
    }
    p.batch = 1 + (int)h.rnd(4);
    p.gap = 1 + (int)h.rnd(4);
}
static void simulate()
{
    H& h = W->h;
    randomParams();
    int N = h.chance(10) ? 1 : h.chance(20) ? 2 : h.chance(60) ? 3 : h.chance(50) ? 4 : 5;
    W->stat = !(h.chance(25) || ((h.prop == "C13" || h.prop == "C14") && h.chance(60)));
    Cfg c;
    for (int i = 1; i <= N; ++i)
        c.srv[i] = ep(i);
    for (int i = 1; i <= N; ++i)
        addNode(i, c);
    if (!W->stat)
        for (int i = N + 1; i <= N + 2; ++i)
        {
            Cfg d;
            d.srv[i] = ep(i);
            addNode(i, d);
        }
    for (auto& x : W->nodes)
        boot(x.second);
    int steps = 80 + (int)h.rnd(220);
    std::set<int> cut;
    bool alive;
    for (int s = 0; s < steps; ++s)
    {
        if (h.chance(3))
        {
            cut.clear();
            if (h.chance(60))
                for (auto& x : W->nodes)
                    if (h.chance(30))
                        cut.insert(x.first);
        }
        Node* n;
        {
            auto it = W->nodes.begin();
            std::advance(it, h.rnd(W->nodes.size()));
            n = it->second;
        }
        int r = (int)h.rnd(100);
        if (r < 58)
        {
            std::shared_ptr<Msg> m;
            {
                LG;
                if (W->net.empty())
                {
                    r = 70;
                }
                else
                {
                    size_t k = h.chance(65) ? 0 : h.rnd(std::min<size_t>(W->net.size(), 12));
                    m = W->net[k];
                    W->net.erase(W->net.begin() + k);
                }
            }
            if (m)
            {
                auto it = W->nodes.find(m->dst);
                Node* d = it == W->nodes.end() ? nullptr : it->second;
                if (m->resp)
                {
                    if (h.chance(4) || cut.count(m->dst) || cut.count(m->src))
                        failReq(m);
                    else
                        deliverResp(m, m->resp);
                    continue;
                }
                if (!d || d->in->dead || d->in->removed || m->from->removed || cut.count(m->dst) || cut.count(m->src) || h.chance(4))
                {
                    failReq(m);
                    continue;
                }
                req_msg& q = *m->req;
                ptr<resp_msg> rs = deliverReq(d, q.get_type(), q.get_term(), q.get_src(), q.get_last_log_term(), q.get_last_log_idx(), q.get_commit_idx(), m->es, alive);
                if (rs && h.chance(6) && !d->in->dead)
                    deliverReq(d, q.get_type(), q.get_term(), q.get_src(), q.get_last_log_term(), q.get_last_log_idx(), q.get_commit_idx(), m->es, alive);
                if (!rs)
                    failReq(m);
                else
                {
                    LG;
                    m->resp = rs;
                    if (h.chance(70))
                        W->net.push_front(m);
                    else
                        W->net.push_back(m);
                }
                continue;
            }
        }
        if (n->in->dead || n->in->removed)
        {
            if (n->in->removed && !W->stat && h.chance(70))
                continue;
            if (h.chance(30))
            {
                W->tr("restart %d", n->id);
                boot(n);
            }
            continue;
        }
        if (r < 72)
            fire(n, false, h.chance(30));
        else if (r < 79)
            fire(n, true, false);
        else if (r < 93)
        {
            std::vector<Ent> es;
            for (int k = 0, m = 1 + (int)h.rnd(3); k < m; ++k)
                es.push_back(Ent{0, APP, data(n->id)});
            if (h.chance(50))
                for (auto& x : W->nodes)
                    if (x.second->leaderTerm == x.second->PT && x.second->PT && !x.second->in->dead)
                        n = x.second;
            if (h.chance(70))
                deliverReq(n, client_request, 0, 0, 0, 0, 0, es, alive);
            else
            {
                quiesce(n);
                ull nx0;
                {
                    LG;
                    nx0 = n->next();
                }
                std::vector<Ent> l0 = n->log;
                Op o;
                begin(o, n, client_request, "replicate_log");
                bool res = false;
                bufptr b = mkbuf(es[0].data);
                if (call(n, o, [&]() { res = n->in->srv->replicate_log(b, ptr<void>(), 0); }))
                {
                    LG;
                    endop(o, n, l0, 0);
                    const Ent* e = n->at(nx0);
                    if (res != (n->next() == nx0 + 1) || (res && e && (e->data != es[0].data || e->term != n->PT)))
                        W->fail("C25", "replicate_log of server %d returned %d, its log went from %llu to %llu", n->id, res, nx0, n->next());
                }
            }
        }
        else if (r < 95)
        {
            PSnap p;
            bool have = false;
            {
                LG;
                if (!W->psnaps.empty())
                {
                    p = W->psnaps.front();
                    W->psnaps.erase(W->psnaps.begin());
                    have = true;
                }
            }
            if (have)
            {
                Op o;
                begin(o, p.in->n, 4000, "snapshot completion");
                call(p.in->n, o, [&]() { msm::complete(p, h.chance(70) ? 1 : h.chance(50) ? 0 : 2); });
            }
        }
        else if (r < 97)
        {
            quiesce(n);
            W->tr("crash %d", n->id);
            LG;
            n->in->dead = true;
        }
        else if (!W->stat)
        {
            Node* l = nullptr;
            for (auto& x : W->nodes)
                if (x.second->leaderTerm == x.second->PT && x.second->PT && !x.second->in->dead && !x.second->in->removed && (x.first <= N || x.second->joined))
                    l = x.second;
            if (l)
            {
                int target = 1 + (int)h.rnd(N + 2);
                if (h.chance(50))
                {
                    srv_config sc(target, ep(target));
                    bufptr b = sc.serialize();
                    deliverReq(l, add_server_request, 0, 0, 0, 0, 0, {Ent{0, (int)log_val_type::cluster_server, bytes(*b)}}, alive);
                }
                else
                {
                    bufptr b = buffer::alloc(4);
                    b->put((int32)target);
                    deliverReq(l, remove_server_request, 0, 0, 0, 0, 0, {Ent{0, (int)log_val_type::cluster_server, bytes(*b)}}, alive);
                }
            }
        }
        if (h.chance(30))
            usleep(50);
    }
    for (auto& x : W->nodes)
        if (!x.second->in->dead)
            quiesce(x.second);
}

// one real server, everything else made up
static void crafted()
{
    H& h = W->h;
    W->craft = true;
    randomParams();
    int N = 1 + (int)h.rnd(5);
    if (h.chance(60))
        N = 3 + (int)h.rnd(3);
    Cfg c;
    for (int i = 1; i <= N; ++i)
        c.srv[i] = ep(i);
    addNode(1, c);
    Node* n = W->nodes[1];
    if (h.chance(80))
    {
        // a server with a past
        ull t = 1;
        c.idx = 1;
        n->cfg = c;
        int len = 1 + (int)h.rnd(12);
        for (int i = 1; i <= len; ++i)
        {
            if (h.chance(35))
                t += 1 + h.rnd(2);
            Ent e{t, APP, data(1)};
            if (i == 1 || h.chance(8))
            {
                Cfg d = c;
                d.prev = i == 1 ? 0 : c.idx;
                d.idx = i;
                e.type = CONF;
                e.data = cfgstr(d);
                c = d;
            }
            n->log.push_back(e);
            n->shadow[i] = e;
        }
        n->cfg.idx = 1;
        n->applied = h.rnd(len + 1);
        for (ull i = 1; i <= n->applied; ++i)
            if (n->shadow[i].type == CONF)
                n->cfg = cfgparse(n->shadow[i].data);
        if (n->applied > 0 && h.chance(60))
        {
            ull k = 1 + h.rnd(n->applied);
            n->snap = std::make_shared<Snap>();
            n->snap->idx = k;
            n->snap->term = n->shadow[k].term;
            n->snap->cfg = c;
            for (ull i = 1; i <= k; ++i)
                if (n->shadow[i].type == CONF)
                    n->snap->cfg = cfgparse(n->shadow[i].data);
            n->snap->data = std::string(1 + h.rnd(60), 'q');
            for (size_t i = 0; i < n->snap->data.size(); ++i)
                n->snap->data[i] = 'a' + i % 26;
            ull keep = W->P.reserved ? h.rnd(std::min<ull>(k, W->P.reserved) + 1) : 0;
            ull upto = k - keep;
            n->start = upto + 1;
            n->log.erase(n->log.begin(), n->log.begin() + upto);
        }
        n->legit = n->applied;
        n->PT = t + h.rnd(3);
        n->PV = h.chance(50) ? -1 : 1 + (int)h.rnd(N);
        if (n->PV == 1 && h.chance(50))
            n->PV = -1;
        if (n->PV != -1)
            n->voted[n->PT] = n->PV;
        n->hasState = true;
    }
    boot(n);
    int steps = 10 + (int)h.rnd(60);
    bool alive = true;
    std::map<int, ull> have; // made up: matched position of the other members
    for (int s = 0; s < steps && !n->in->dead && !n->in->removed; ++s)
    {
        int r = (int)h.rnd(100);
        ull PT, nx, st, lt, legit, ap;
        {
            LG;
            PT = n->PT;
            nx = n->next();
            st = n->start;
            lt = n->leaderTerm;
            legit = n->legit;
            ap = n->applied;
        }
        int src = N > 1 ? 2 + (int)h.rnd(N - 1) : 2;
        ull term = h.chance(60) ? PT : h.chance(70) ? PT + 1 + h.rnd(2) : PT - (PT ? h.rnd(std::min<ull>(PT, 3)) : 0);
        bool leading = lt == PT && PT > 0;
        if (r < 40)
        {
            std::shared_ptr<Msg> m;
            {
                LG;
                if (!W->net.empty())
                {
                    size_t k = h.chance(60) ? 0 : h.rnd(W->net.size());
                    m = W->net[k];
                    if (!(m->req->get_type() == vote_request && false))
                        W->net.erase(W->net.begin() + k);
                }
            }
            if (m)
            {
                int ty = m->req->get_type();
                ull t = m->req->get_term();
                if (h.chance(8))
                {
                    failReq(m);
                    continue;
                }
                bool acc = h.chance(70);
                ull rt = h.chance(6) ? PT + 1 : t;
                if (rt != t)
                    acc = false;
                ptr<resp_msg> rs;
                int who = m->dst;
                if (ty == vote_request)
                {
                    rs = cs_new<resp_msg>((ulong)rt, msg_type::vote_response, who, 1, (ulong)0, acc);
                    if (acc)
                        rs->accept(nx);
                }
                else if (ty == prevote_request)
                {
                    rs = cs_new<resp_msg>((ulong)rt, msg_type::prevote_response, who, 1, (ulong)0, acc);
                }
                else if (ty == append_entries_request)
                {
                    ull e = m->req->get_last_log_idx() + m->es.size();
                    if (acc && have[who] > m->req->get_last_log_idx() && have[who] < m->req->get_last_log_idx())
                        acc = false;
                    rs = cs_new<resp_msg>((ulong)rt, msg_type::append_entries_response, who, 1, (ulong)(acc ? e + 1 : 1 + h.rnd(nx + 1)), acc);
                }
                else if (ty == install_snapshot_request)
                {
                    bufptr b = mkbuf(m->es[0].data);
                    ptr<snapshot_sync_req> q = snapshot_sync_req::deserialize(*b);
                    acc = h.chance(90);
                    rs = cs_new<resp_msg>((ulong)rt, msg_type::install_snapshot_response, who, 1, (ulong)(acc && rt == t ? q->get_offset() + q->get_data().size() : 0), acc && rt == t);
                }
                else
                {
                    failReq(m);
                    continue;
                }
                deliverResp(m, rs);
                // the same answer again, as a duplicate of the network would be
                if (h.chance(25) && (ty == vote_request || ty == prevote_request) && !n->in->dead)
                {
                    ptr<resp_msg> r2 = cs_new<resp_msg>(rs->get_term(), rs->get_type(), rs->get_src(), rs->get_dst(), rs->get_next_idx(), rs->get_accepted());
                    std::shared_ptr<Msg> other;
                    {
                        LG;
                        for (auto& x : W->net)
                            if (x->req->get_type() == ty && x->req->get_term() == t)
                                other = x;
                        if (other)
                            W->net.erase(std::find(W->net.begin(), W->net.end(), other));
                    }
                    if (other)
                        deliverResp(other, r2);
                }
                continue;
            }
            r = 90;
        }
        if (r < 60 && N > 1)
        {
            if (leading && term == PT)
                term = h.chance(50) ? PT + 1 : PT - 1;
            ull prev = nx - 1;
            if (h.chance(60))
                prev = h.rnd(nx + 2);
            ull pt = 0;
            bool known;
            {
                LG;
                known = n->termAt(prev, pt);
            }
            if (prev > 0 && prev < st && !known)
                continue;
            if (!known || h.chance(10))
                pt = 1 + h.rnd(term + 1);
            if (prev < legit && prev + 1 < st)
                continue;
            std::vector<Ent> es;
            int k = (int)h.rnd(5);
            ull et = pt;
            {
                LG;
                bool own = true;
                for (int j = 0; j < k; ++j)
                {
                    ull i = prev + 1 + j;
                    const Ent* e = n->at(i);
                    if (own && i < st)
                    {
                        auto sh = n->shadow.find(i);
                        if (sh == n->shadow.end())
                            break;
                        es.push_back(sh->second);
                        et = sh->second.term;
                        continue;
                    }
                    if (own && e && (i <= std::max(legit, ap) || h.chance(55)))
                    {
                        es.push_back(*e);
                        et = e->term;
                        continue;
                    }
                    own = false;
                    ull lo = std::max<ull>(et, 1);
                    if (e && lo <= e->term && e->term < term && h.chance(60))
                        lo = e->term + 1;
                    if (lo > term)
                        break;
                    et = lo + h.rnd(term - lo + 1);
                    if (e && et == e->term)
                    {
                        if (et < term)
                            ++et;
                        else
                            break;
                    }
                    Ent x{et, APP, data(src)};
                    if (h.chance(12))
                    {
                        Cfg d = n->cfg;
                        d.prev = d.idx;
                        d.idx = i;
                        x.type = CONF;
                        x.data = cfgstr(d);
                    }
                    es.push_back(x);
                }
            }
            ull commit = h.chance(30) ? legit : h.rnd(nx + 6);
            deliverReq(n, append_entries_request, term, src, pt, prev, commit, es, alive);
        }
        else if (r < 72)
        {
            ull own = 0;
            {
                LG;
                n->termAt(nx - 1, own);
            }
            ull pt = h.chance(50) ? own : own + h.rnd(3) - (own ? h.rnd(2) : 0);
            ull pos = h.chance(50) ? nx - 1 : h.rnd(nx + 3);
            deliverReq(n, h.chance(60) ? vote_request : prevote_request, term, src, pt, pos, 0, {}, alive);
        }
        else if (r < 78 && N > 1)
        {
            if (leading && term == PT)
                term = PT + 1;
            // a snapshot
            static ull seq = 0;
            ull idx = h.chance(40) ? h.rnd(nx + 1) + 1 : ap + 1 + h.rnd(6);
            ull sterm;
            {
                LG;
                if (idx <= legit && idx > ap)
                    continue;
                if (idx <= ap && n->shadow.count(idx))
                    sterm = n->shadow[idx].term;
                else
                    sterm = std::max<ull>(1, term ? term - h.rnd(2) : 1);
                if (idx > ap)
                {
                    const Ent* e = n->at(idx);
                    if (e && e->term > sterm)
                        sterm = e->term;
                    bool conflict = false;
                    for (ull i = idx + 1; i < nx; ++i)
                        if (n->at(i) && n->at(i)->term < sterm)
                            conflict = true;
                    if (conflict || idx < nx)
                        continue;
                }
            }
            ++seq;
            Cfg d = n->cfg;
            d.idx = std::max<ull>(1, std::min<ull>(idx, n->cfg.idx ? n->cfg.idx : 1));
            ull sz = 1 + h.rnd(30), off = 0;
            int lim = h.chance(80) ? 100 : 1;
            while (off < sz && lim-- > 0 && !n->in->dead)
            {
                ull len = std::min<ull>(sz - off, 1 + h.rnd(20));
                snapshot_sync_req q(cs_new<snapshot>((ulong)idx, (ulong)sterm, cfgptr(d), (ulong)sz), off, mkbuf(std::string(len, 'a' + off % 26)), off + len == sz);
                bufptr b = q.serialize();
                ptr<resp_msg> rs = deliverReq(n, install_snapshot_request, term, src, sterm, idx, 0, {Ent{term, (int)log_val_type::snp_sync_req, bytes(*b)}}, alive);
                if (!rs || !rs->get_accepted())
                    break;
                if (h.chance(15))
                    continue; // the chunk again
                off += len;
            }
        }
        else if (r < 86)
        {
            std::vector<Ent> es;
            for (int k = 0, m = 1 + (int)h.rnd(3); k < m; ++k)
                es.push_back(Ent{h.rnd(3), APP, data(1)});
            deliverReq(n, client_request, 0, 0, 0, 0, 0, es, alive);
        }
        else if (r < 93)
            fire(n, true, false);
        else if (r < 97)
            fire(n, false, h.chance(40));
        else
        {
            quiesce(n);
            LG;
            n->in->dead = true;
            W->tr("restart");
            boot(n);
            W->net.clear();
        }
        if (h.chance(30))
            usleep(60);
        PSnap p;
        bool hp = false;
        {
            LG;
            if (!W->psnaps.empty() && h.chance(30))
            {
                p = W->psnaps.front();
                W->psnaps.erase(W->psnaps.begin());
                hp = true;
            }
        }
        if (hp && !p.in->dead)
        {
            Op o;
            begin(o, p.in->n, 4000, "snapshot completion");
            call(p.in->n, o, [&]() { msm::complete(p, h.chance(70) ? 1 : h.chance(50) ? 0 : 2); });
        }
    }
    if (!n->in->dead)
        quiesce(n);
}
// a leader whose members fell silent
static void lapse()
{
    H& h = W->h;
    W->craft = true;
    W->lapse = true;
    Params& p = W->P;
    p.lo = 12;
    p.up = 14;
    p.hb = 10;
    int N = 2 + (int)h.rnd(4);
    Cfg c;
    for (int i = 1; i <= N; ++i)
        c.srv[i] = ep(i);
    addNode(1, c);
    Node* n = W->nodes[1];
    boot(n);
    fire(n, true, false);
    auto answer = [&](const std::set<int>& who) {
        for (int round = 0; round < 3; ++round)
        {
            std::deque<std::shared_ptr<Msg>> q;
            {
                LG;
                q.swap(W->net);
            }
            for (auto& m : q)
            {
                if (!who.count(m->dst))
                {
                    LG;
                    W->net.push_back(m);
                    continue;
                }
                ptr<resp_msg> rs;
                if (m->req->get_type() == vote_request)
                    rs = cs_new<resp_msg>(m->req->get_term(), msg_type::vote_response, m->dst, 1, (ulong)1, true);
                else
                    rs = cs_new<resp_msg>(m->req->get_term(), msg_type::append_entries_response, m->dst, 1, (ulong)(m->req->get_last_log_idx() + m->es.size() + 1), true);
                deliverResp(m, rs);
            }
        }
    };
    std::set<int> all, some;
    for (int i = 2; i <= N; ++i)
        all.insert(i);
    answer(all);
    if (n->leaderTerm != n->PT || n->PT == 0)
        return;
    for (int k = 0; k < 2; ++k)
    {
        usleep(45000);
        // answers of fewer than a quorum (the leader counts itself)
        some.clear();
        size_t m = h.rnd(N / 2); // servers besides the leader needed for a quorum: N/2
        for (int i : all)
            if (some.size() < m)
                some.insert(i);
        for (int i : some)
        {
            // make an exchange with i
            std::vector<Task> ts;
            {
                LG;
                ts = n->in->tasks;
                n->in->tasks.clear();
            }
            for (auto& t : ts)
            {
                Op o;
                begin(o, n, 3001, "heartbeat");
                call(n, o, [&]() { t.t->execute(); });
            }
            answer({i});
        }
        bool alive;
        ull nx0 = n->next();
        std::vector<Ent> es{Ent{0, APP, data(1)}};
        ptr<resp_msg> r = deliverReq(n, client_request, 0, 0, 0, 0, 0, es, alive);
        if (r && (r->get_accepted() || n->next() != nx0))
            W->fail("C25", "leader %d of %d servers took client data although only %zu others answered within twice the election timeout", n->id, N, some.size());
        if (n->in->srv->is_leader())
            W->fail("C25", "server %d of %d servers still claims to lead although only %zu others answered within twice the election timeout", n->id, N, some.size());
        bufptr b = mkbuf("x");
        Op o;
        begin(o, n, client_request, "replicate_log");
        bool res = false;
        if (call(n, o, [&]() { res = n->in->srv->replicate_log(b, ptr<void>(), 0); }) && res)
            W->fail("C25", "replicate_log took data although the leadership lapsed");
    }
}

int main(int argc, char** argv)
{
    H h(argc, argv);
    struct Sh
    {
        volatile unsigned long cases;
        volatile double beat;
    };
    Sh* sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    unsigned long chunk = 0;
    while (h.more())
    {
        ++chunk;
        fflush(stdout);
        sh->beat = H::now();
        pid_t p = fork();
        if (p == 0)
        {
            mainThread = true;
            h.rng.seed(h.seed * 1000003ul + chunk);
            for (int k = 0; k < 12 && h.more(); ++k)
            {
                sh->beat = H::now();
                sh->cases = sh->cases + 1;
                h.cases = sh->cases;
                W = new World(h);
                W->probes = h.prop == "C20" ? 6 : 0;
                snapConf.clear();
                int r = (int)h.rnd(100);
                if (h.prop == "C25" && r < 40)
                    lapse();
                else if (r < 50)
                    simulate();
                else
                    crafted();
                LG;
                for (auto& x : W->nodes)
                    x.second->in->dead = true;
            }
            _exit(0);
        }
        int st = 0;
        while (true)
        {
            pid_t q = waitpid(p, &st, WNOHANG);
            if (q == p)
                break;
            if (H::now() - sh->beat > 12)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                if (h.prop == "C20")
                {
                    h.cases = sh->cases;
                    h.fail("an operation of a server did not return within 12 s (deadlock), chunk %lu", chunk);
                }
                break;
            }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
            _exit(1);
        if (WIFSIGNALED(st) && getenv("HLOG"))
            fprintf(stderr, "child died of signal %d chunk %lu\n", WTERMSIG(st), chunk);
    }
    h.cases = sh->cases;
    return h.done();
}
