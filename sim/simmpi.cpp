#include "mpi.h"
#include "simmpi.h"
#include <algorithm>
#include <complex>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

namespace simmpi {
struct World;
struct Message {
    int src, dst, tag; // ranks in the communicator
    MPI_Datatype type; int count; size_t bytes;
    bool sync; std::vector<char> payload; void const *ptr;
    struct simmpi_request_s *sreq = nullptr; // sender's request
    bool matched = false, delivered = false;
    void *rbuf = nullptr;
};
struct Coll {
    std::string kind; int arrived = 0, left = 0; std::shared_ptr<bool> done = std::make_shared<bool>(false);
    struct Args { void const *s = nullptr; void *r = nullptr; int scount = 0, rcount = 0; int const *sc = nullptr, *sd = nullptr, *rc = nullptr, *rd = nullptr; MPI_Datatype const *stv = nullptr, *rtv = nullptr;
                  MPI_Datatype st = 0, rt = 0; MPI_Op op = 0; int root = 0; std::vector<int> group; MPI_Comm *newcomm = nullptr; int color = 0, key = 0; bool present = false; };
    std::vector<Args> args;
};
}
using simmpi::Message; using simmpi::Coll;

struct simmpi_request_s {
    bool recv; int owner; MPI_Comm comm; int peer, tag; MPI_Datatype type; int count; void *buf;
    std::shared_ptr<Message> msg; // matched message (recv) or own message (send)
    bool complete = false;        // only for already finished operations (buffered sends, null process)
    std::shared_ptr<bool> coll;   // nonblocking collective: set when everybody arrived
    bool persistent = false, active = false, sync = false; void const *sbuf = nullptr; int me = 0;
    long serial;
};
struct simmpi_group_s { std::vector<int> ranks; int owner; bool predefined = false; bool freed = false; };
struct simmpi_comm_s {
    int id; std::vector<int> members; std::vector<char> alive; bool predefined = false;
    std::vector<std::deque<std::shared_ptr<Message>>> inbox; // per destination, unmatched messages in order
    std::vector<std::list<MPI_Request>> posted;              // per destination, posted receives in order
    std::vector<long> cseq; std::map<long, Coll> colls;
    int index_of(int w) const { for(size_t i=0;i<members.size();i++) if (members[i]==w) return (int)i; return -1; }
};

namespace simmpi {
void (*failure_handler)(std::string const &msg) = nullptr;
static void fail(std::string const &msg){
    if (failure_handler) failure_handler(msg);
    std::fprintf(stderr, "simmpi failure: %s\n", msg.c_str());
    std::abort();
}
static thread_local int tl_rank = -1;
static bool g_record_links = false, g_record_ops = false;
void (*switch_hook)(int from, int to) = nullptr;
double clock_base = 0;

struct Rank {
    std::condition_variable cv; bool done = false, blocked = false;
    std::function<bool()> pred; std::string what; uint64_t prio = 0;
    long calls = 0; long reqs = 0, comms = 0, groups = 0; std::set<MPI_Request> live; std::vector<Op> ops;
};
struct World {
    int n; Schedule sc; uint64_t s; std::mutex mu; std::vector<std::unique_ptr<Rank>> ranks; int current = -1; int starved = 0;
    std::condition_variable main_cv; bool all_done = false;
    Stats st; double clock = 0; long serial = 0; long steps = 0;
    std::vector<std::unique_ptr<simmpi_comm_s>> comms; std::vector<std::unique_ptr<simmpi_group_s>> groups;
    std::vector<simmpi_comm_s*> selfs; simmpi_comm_s *world = nullptr; simmpi_group_s *empty = nullptr;
    uint64_t rnd(){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t rnd(uint64_t k){ return rnd() % k; }
    simmpi_comm_s* make_comm(std::vector<int> const &m){
        comms.emplace_back(new simmpi_comm_s); auto *c = comms.back().get();
        c->id = (int)comms.size()-1; c->members = m; c->alive.assign(m.size(), 1); c->inbox.resize(m.size()); c->posted.resize(m.size()); c->cseq.assign(m.size(), 0);
        return c;
    }
    bool runnable(int r){ auto &k = *ranks[r]; return not k.done and (not k.blocked or k.pred()); }
    int pick(int me, bool must_leave){
        // returns the next rank to run or -1
        std::vector<int> cand; for(int r=0;r<n;r++) if (runnable(r)) cand.push_back(r);
        (void) must_leave;
        if (cand.empty()) return -1;
        switch(sc.policy){
            case 1: return cand[rnd(cand.size())];
            case 2: { int b = cand[0]; for(int c : cand) if (ranks[c]->prio > ranks[b]->prio) b = c; return b; }
            case 3: { std::vector<int> o; for(int c : cand) if (c != starved) o.push_back(c); if (o.empty()) return cand[0]; return o[rnd(o.size())]; }
            case 4: { for(int c : cand) if (c > me) return c; return cand[0]; }
            default: return cand[0];
        }
    }
    std::string dump(){
        std::ostringstream os;
        for(int r=0;r<n;r++){ auto &k = *ranks[r]; os << " [rank " << r << ": " << (k.done ? "finished" : (k.blocked ? k.what : "running")) << "]"; }
        return os.str();
    }
};
static World *W = nullptr;

// hand over the baton; called by the current rank with the baton
static void handoff(std::unique_lock<std::mutex> &lk, int me, int next){
    if (next == me) return;
    W->st.switches++; if (switch_hook) switch_hook(me, next);
    W->current = next; W->ranks[next]->cv.notify_one();
    W->ranks[me]->cv.wait(lk, [&]{ return W->current == me; });
}
static int ME(){ if (W == nullptr or tl_rank < 0) fail("MPI called outside of a simulated rank"); return tl_rank; }
static void enter(char const *){
    int me = ME(); auto &k = *W->ranks[me]; k.calls++; W->st.calls_by_rank[me]++; W->clock += 1.e-6;
    if (++W->steps > 4000000) fail("more than 4000000 MPI calls in one case: live-lock" + W->dump());
    bool sw = false;
    switch(W->sc.policy){ case 1: sw = (W->rnd(2) == 0); break; case 2: if (W->rnd(24) == 0) k.prio = W->rnd(1000); sw = true; break; case 3: sw = true; break; case 4: sw = true; break; default: break; }
    if (not sw) return;
    std::unique_lock<std::mutex> lk(W->mu);
    int nx = W->pick(me, false); if (nx < 0) nx = me;
    handoff(lk, me, nx);
}
static void block(std::string const &what, std::function<bool()> pred){
    int me = ME(); if (pred()) return;
    auto &k = *W->ranks[me];
    std::unique_lock<std::mutex> lk(W->mu);
    k.blocked = true; k.what = what; k.pred = pred;
    int nx = W->pick(me, true);
    if (nx < 0) fail("deadlock:" + W->dump());
    handoff(lk, me, nx);
    k.blocked = false; k.pred = nullptr;
}

Stats& stats(){ return W->st; }
int rank(){ return tl_rank; }
bool inside(){ return W != nullptr and tl_rank >= 0; }
void yield(){ enter("yield"); }
void record_links(bool on){ g_record_links = on; }
void record_ops(bool on){ g_record_ops = on; }
std::vector<Op> const& ops(){ return W->ranks[ME()]->ops; }
static void note(char const *fn, long count, int peer){ if (g_record_ops) W->ranks[ME()]->ops.push_back({fn, count, peer, W->clock}); }
long my_calls(){ return W->ranks[ME()]->calls; }
long live_objects(){ auto &k = *W->ranks[ME()]; return (long)k.live.size() + k.comms + k.groups; }

Stats run(int nranks, Schedule const &sc, std::function<void(int)> const &body){
    World w; W = &w; w.n = nranks; w.sc = sc; w.s = sc.seed * 0x2545F4914F6CDD1Dull + 12345; w.starved = (int)w.rnd(nranks); w.clock = clock_base;
    w.st.calls_by_rank.assign(nranks, 0); w.st.sends_by_rank.assign(nranks, 0); w.st.sent_bytes.assign(nranks, 0); w.st.received_bytes.assign(nranks, 0);
    for(int r=0;r<nranks;r++){ w.ranks.emplace_back(new Rank); w.ranks.back()->prio = w.rnd(1000); }
    std::vector<int> all(nranks); for(int r=0;r<nranks;r++) all[r] = r;
    w.world = w.make_comm(all); w.world->predefined = true;
    for(int r=0;r<nranks;r++){ w.selfs.push_back(w.make_comm({r})); w.selfs.back()->predefined = true; }
    w.groups.emplace_back(new simmpi_group_s); w.empty = w.groups.back().get(); w.empty->predefined = true; w.empty->owner = -1;
    std::vector<std::thread> th;
    for(int r=0;r<nranks;r++) th.emplace_back([&w,r,&body]{
        { std::unique_lock<std::mutex> lk(w.mu); w.ranks[r]->cv.wait(lk, [&]{ return w.current == r; }); }
        tl_rank = r;
        try { body(r); }
        catch(std::exception &e){ fail(std::string("uncaught exception on rank ") + std::to_string(r) + ": " + e.what()); }
        tl_rank = -1;
        std::unique_lock<std::mutex> lk(w.mu);
        w.ranks[r]->done = true; if (switch_hook) switch_hook(r, -1);
        bool all_done = true; for(auto &k : w.ranks) if (not k->done) all_done = false;
        if (all_done){ w.all_done = true; w.current = -2; w.main_cv.notify_one(); return; }
        int nx = w.pick(r, true);
        if (nx < 0) fail("deadlock:" + w.dump());
        if (switch_hook) switch_hook(-1, nx);
        w.current = nx; w.ranks[nx]->cv.notify_one();
    });
    {
        std::unique_lock<std::mutex> lk(w.mu);
        int first = w.pick(-1, true); if (switch_hook) switch_hook(-1, first); w.current = first; w.ranks[first]->cv.notify_one();
        w.main_cv.wait(lk, [&]{ return w.all_done; });
    }
    for(auto &t : th) t.join();
    for(auto &c : w.comms){
        for(size_t i=0;i<c->members.size();i++){
            if (not c->inbox[i].empty()) fail("unmatched message left behind: from " + std::to_string(c->inbox[i].front()->src) + " to " + std::to_string(i) + " on communicator " + std::to_string(c->id) + " count " + std::to_string(c->inbox[i].front()->count));
            if (not c->posted[i].empty()) fail("posted receive never matched on rank " + std::to_string(c->members[i]));
            if (not c->predefined and c->alive[i]) fail("communicator " + std::to_string(c->id) + " (size " + std::to_string(c->members.size()) + ") never freed on rank " + std::to_string(c->members[i]));
        }
        for(auto &p : c->colls) fail("incomplete collective " + p.second.kind);
    }
    for(int r=0;r<nranks;r++){
        if (not w.ranks[r]->live.empty()) fail("request leaked on rank " + std::to_string(r));
        if (w.ranks[r]->groups != 0) fail("group leaked on rank " + std::to_string(r));
    }
    Stats st = w.st; W = nullptr;
    return st;
}
} // namespace simmpi
using namespace simmpi;

// contiguous derived types: base type and number of its elements (freed types stay valid for operations under way, which is allowed)
struct Derived { MPI_Datatype base; int count; bool committed, freed; };
static std::vector<Derived> g_types; static World *g_types_world = nullptr;
enum { FIRST_DERIVED = 1000 };
static Derived& derived(MPI_Datatype t){
    if (g_types_world != W){ g_types.clear(); g_types_world = W; }
    if (t < FIRST_DERIVED or t >= FIRST_DERIVED + (int) g_types.size()) fail("invalid datatype");
    return g_types[t - FIRST_DERIVED];
}
static MPI_Datatype basetype(MPI_Datatype t){ return (t >= FIRST_DERIVED) ? basetype(derived(t).base) : t; }
static size_t tsize(MPI_Datatype t){
    if (t >= FIRST_DERIVED){ auto &d = derived(t); return (size_t) d.count * tsize(d.base); }
    switch(t){
        case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: return 1;
        case MPI_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
        case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_C_COMPLEX: case MPI_INT64_T: case MPI_UINT64_T: return 8;
        case MPI_C_DOUBLE_COMPLEX: return 16;
    }
    fail("invalid datatype"); return 0;
}
static int cme(MPI_Comm c, char const *fn){
    if (c == nullptr) fail(std::string(fn) + " on MPI_COMM_NULL");
    int me = c->index_of(ME());
    if (me < 0) fail(std::string(fn) + " on a communicator the rank is not a member of");
    if (not c->alive[me]) fail(std::string(fn) + " on a freed communicator");
    return me;
}
static MPI_Request new_req(bool recv){
    auto *r = new simmpi_request_s; r->recv = recv; r->owner = ME(); r->serial = W->serial++; W->ranks[ME()]->live.insert(r); r->comm = nullptr; r->buf = nullptr; r->peer = 0; r->tag = 0; r->type = 0; r->count = 0;
    return r;
}
static void drop_req(MPI_Request r){ W->ranks[r->owner]->live.erase(r); delete r; }
static bool idle(MPI_Request r){ return r == nullptr or (r->persistent and not r->active); }
static void check_req(MPI_Request r){
    if (W->ranks[ME()]->live.count(r) == 0) fail("use of an invalid, foreign or already completed request");
}
static void deliver(Message &m){
    if (m.delivered) return;
    if (m.bytes){ void const *src = m.sync ? m.ptr : m.payload.data(); std::memcpy(m.rbuf, src, m.bytes); }
    m.delivered = true;
}
static void match(std::shared_ptr<Message> m, MPI_Request r){
    if (basetype(m->type) != basetype(r->type) and not (m->type == MPI_BYTE or r->type == MPI_BYTE)) fail("datatype mismatch between a send and its receive");
    if (m->bytes > (size_t) r->count * tsize(r->type)) fail("message truncated: sent " + std::to_string(m->count) + " elements, receive posted for " + std::to_string(r->count) + " (from " + std::to_string(m->src) + " to " + std::to_string(m->dst) + ")");
    m->matched = true; m->rbuf = r->buf; r->msg = m;
    bool late = (W->sc.delivery == 2) or (W->sc.delivery == 1 and W->rnd(2));
    if (not late) deliver(*m); else W->st.late++;
}
static std::shared_ptr<Message> post_send(void const *b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, int me, bool force_sync, char const *fn){
    if (count < 0) fail(std::string(fn) + " with negative count");
    if (dst < 0 or dst >= (int)c->members.size()) fail(std::string(fn) + " to invalid rank " + std::to_string(dst));
    if (tag < 0) fail(std::string(fn) + " with invalid tag");
    auto m = std::make_shared<Message>(); m->src = me; m->dst = dst; m->tag = tag; m->type = t; m->count = count; m->bytes = (size_t)count * tsize(t);
    m->sync = force_sync or W->sc.send_mode == 2 or (W->sc.send_mode == 1 and W->rnd(2));
    if (m->sync) m->ptr = b; else { m->ptr = nullptr; m->payload.assign((char const*)b, (char const*)b + m->bytes); }
    W->st.p2p++; if (m->sync) W->st.p2p_sync++; if (count == 0) W->st.zero_p2p++;
    if (c->members[dst] != ME()){ W->st.sends_by_rank[ME()] += count; W->st.sent_bytes[ME()] += m->bytes; W->st.received_bytes[c->members[dst]] += m->bytes; }
    if (g_record_links and count > 0) W->st.links.push_back({ME(), c->members[dst]});
    auto &pl = c->posted[dst];
    for(auto it = pl.begin(); it != pl.end(); ++it){
        MPI_Request r = *it;
        if ((r->peer == MPI_ANY_SOURCE or r->peer == me) and (r->tag == MPI_ANY_TAG or r->tag == tag)){ pl.erase(it); match(m, r); return m; }
    }
    c->inbox[dst].push_back(m);
    return m;
}
static void take_or_post(MPI_Request r, int me){
    MPI_Comm c = r->comm; int src = r->peer, tag = r->tag;
    auto &q = c->inbox[me];
    // candidates: first matching message of every source
    std::vector<size_t> cand; std::set<int> seen;
    for(size_t i=0;i<q.size();i++){
        auto &m = q[i];
        if ((src == MPI_ANY_SOURCE or m->src == src) and (tag == MPI_ANY_TAG or m->tag == tag) and not seen.count(m->src)){ cand.push_back(i); seen.insert(m->src); }
    }
    if (not cand.empty()){
        size_t i = cand[W->rnd(cand.size())]; auto m = q[i]; q.erase(q.begin() + i); match(m, r);
    } else c->posted[me].push_back(r);
}
static MPI_Request post_recv(void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, int me, char const *fn){
    if (count < 0) fail(std::string(fn) + " with negative count");
    if (src != MPI_ANY_SOURCE and (src < 0 or src >= (int)c->members.size())) fail(std::string(fn) + " from invalid rank " + std::to_string(src));
    MPI_Request r = new_req(true); r->comm = c; r->peer = src; r->tag = tag; r->type = t; r->count = count; r->buf = b;
    take_or_post(r, me);
    return r;
}
static bool can_complete(MPI_Request r){
    if (r->complete) return true;
    if (r->coll) return *r->coll;
    if (r->recv) return (bool) r->msg; // matched
    return (not r->msg->sync) or r->msg->matched;
}
static void finish(MPI_Request *pr, MPI_Status *st){
    MPI_Request r = *pr;
    if (r->complete or r->coll){ if (st){ st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_count = 0; } }
    else {
        if (r->recv or r->msg->sync) deliver(*r->msg);
        if (st){ st->MPI_SOURCE = r->msg->src; st->MPI_TAG = r->msg->tag; st->MPI_ERROR = 0; st->sim_count = (int) r->msg->bytes; }
    }
    if (r->persistent){ r->active = false; r->msg.reset(); return; }
    drop_req(r); *pr = nullptr;
}
static std::string wreq(MPI_Request r){ return r->recv ? ("receive from " + std::to_string(r->peer) + " count " + std::to_string(r->count) + " tag " + std::to_string(r->tag) + " comm " + std::to_string(r->comm ? r->comm->id : -1)) : ("send to " + std::to_string(r->peer) + " count " + std::to_string(r->count)); }

// registers the arguments of one rank and runs the operation when everybody arrived, returns the completion flag
static std::shared_ptr<bool> arrive(MPI_Comm c, int me, std::string const &kind, Coll::Args a, std::function<void(Coll&)> const &exec){
    long seq = c->cseq[me]++;
    Coll &k = c->colls[seq];
    if (k.arrived == 0){ k.kind = kind; k.args.resize(c->members.size()); W->st.collectives++; }
    if (k.kind != kind) fail("collective mismatch on communicator " + std::to_string(c->id) + ": rank " + std::to_string(ME()) + " calls " + kind + " while another called " + k.kind + W->dump());
    a.present = true; k.args[me] = a; k.arrived++;
    auto done = k.done;
    if (k.arrived == (int)c->members.size()){ exec(k); *done = true; c->colls.erase(seq); }
    return done;
}
static void collective(MPI_Comm c, int me, std::string const &kind, Coll::Args a, std::function<void(Coll&)> const &exec){
    auto done = arrive(c, me, kind, a, exec);
    if (not *done) block(kind + " on communicator " + std::to_string(c->id) + " (size " + std::to_string(c->members.size()) + ")", [done]{ return *done; });
}
static void copyb(void *d, void const *s, size_t n){ if (n) std::memmove(d, s, n); }
static void count_coll_send(MPI_Comm c, int from, int to, long count){
    if (c->members[from] != c->members[to]){ W->st.sends_by_rank[c->members[from]] += count; W->st.sent_bytes[c->members[from]] += count; W->st.received_bytes[c->members[to]] += count; }
    if (g_record_links and count > 0) W->st.links.push_back({c->members[from], c->members[to]});
}
template<typename T> static void red(T *acc, T const *x, int n, MPI_Op op){
    for(int i=0;i<n;i++) switch(op){ case MPI_SUM: acc[i] += x[i]; break; case MPI_PROD: acc[i] *= x[i]; break; case MPI_MAX: acc[i] = std::max(acc[i], x[i]); break; case MPI_MIN: acc[i] = std::min(acc[i], x[i]); break;
        case MPI_LAND: acc[i] = (acc[i] != T(0) and x[i] != T(0)); break; case MPI_LOR: acc[i] = (acc[i] != T(0) or x[i] != T(0)); break; default: fail("unsupported reduction"); }
}
static void reduce(void *acc, void const *x, int n, MPI_Datatype t, MPI_Op op){
    switch(t){
        case MPI_INT: case MPI_INT32_T: red((int*)acc, (int const*)x, n, op); break; case MPI_UNSIGNED: red((unsigned*)acc,(unsigned const*)x,n,op); break;
        case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red((long*)acc,(long const*)x,n,op); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red((unsigned long*)acc,(unsigned long const*)x,n,op); break;
        case MPI_FLOAT: red((float*)acc,(float const*)x,n,op); break; case MPI_DOUBLE: red((double*)acc,(double const*)x,n,op); break;
        case MPI_CHAR: case MPI_SIGNED_CHAR: red((signed char*)acc,(signed char const*)x,n,op); break; case MPI_C_BOOL: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: red((unsigned char*)acc,(unsigned char const*)x,n,op); break;
        default: fail("unsupported reduction type");
    }
}
static MPI_Group mkgroup(std::vector<int> const &r){ W->groups.emplace_back(new simmpi_group_s); auto *g = W->groups.back().get(); g->ranks = r; g->owner = ME(); W->ranks[ME()]->groups++; return g; }
static void gchk(MPI_Group g, char const *fn){ if (g == nullptr or g->freed) fail(std::string(fn) + " on an invalid group"); }

extern "C" {
MPI_Comm simmpi_world(void){ ME(); return W->world; }
MPI_Comm simmpi_self(void){ return W->selfs[ME()]; }
MPI_Group simmpi_group_empty(void){ ME(); return W->empty; }
int MPI_Init(int*, char***){ return 0; }
int MPI_Init_thread(int*, char***, int, int *p){ *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int *f){ *f = 1; return 0; }
int MPI_Finalized(int *f){ *f = 0; return 0; }
int MPI_Finalize(void){ return 0; }
int MPI_Abort(MPI_Comm, int code){ fail("MPI_Abort(" + std::to_string(code) + ")"); return 0; }
double MPI_Wtime(void){ ME(); return W->clock += 1.e-6; }
double MPI_Wtick(void){ return 1.e-6; }
int MPI_Get_processor_name(char *n, int *l){ std::strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char *s, int *l){ std::strcpy(s, "error"); *l = 5; return 0; }

int MPI_Comm_rank(MPI_Comm c, int *r){ *r = cme(c, "MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s){ cme(c, "MPI_Comm_size"); *s = (int)c->members.size(); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g){ cme(c, "MPI_Comm_group"); *g = mkgroup(c->members); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *out){ gchk(g, "MPI_Group_incl"); std::vector<int> v; std::set<int> seen;
    for(int i=0;i<n;i++){ if (r[i] < 0 or r[i] >= (int)g->ranks.size() or not seen.insert(r[i]).second) fail("MPI_Group_incl with invalid ranks"); v.push_back(g->ranks[r[i]]); }
    *out = mkgroup(v); return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *out){ gchk(g, "MPI_Group_excl"); std::set<int> ex(r, r+n); std::vector<int> v; for(int i=0;i<(int)g->ranks.size();i++) if (not ex.count(i)) v.push_back(g->ranks[i]); *out = mkgroup(v); return 0; }
int MPI_Group_size(MPI_Group g, int *n){ gchk(g, "MPI_Group_size"); *n = (int)g->ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *n){ gchk(g, "MPI_Group_rank"); *n = MPI_UNDEFINED; for(size_t i=0;i<g->ranks.size();i++) if (g->ranks[i] == ME()) *n = (int)i; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o){ gchk(a, "x"); gchk(b, "x"); for(int i=0;i<n;i++){ o[i] = MPI_UNDEFINED; for(size_t j=0;j<b->ranks.size();j++) if (b->ranks[j] == a->ranks[r[i]]) o[i] = (int)j; } return 0; }
int MPI_Group_free(MPI_Group *g){ gchk(*g, "MPI_Group_free"); if (not (*g)->predefined){ if ((*g)->owner != ME()) fail("foreign group freed"); (*g)->freed = true; W->ranks[ME()]->groups--; } *g = nullptr; return 0; }

int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out){
    int me = cme(c, "MPI_Comm_create"); gchk(g, "MPI_Comm_create"); enter("MPI_Comm_create");
    for(int w : g->ranks) if (c->index_of(w) < 0) fail("MPI_Comm_create with a group that is not a subset");
    Coll::Args a; a.group = g->ranks; a.newcomm = out;
    collective(c, me, "MPI_Comm_create", a, [c](Coll &k){
        std::map<std::vector<int>, simmpi_comm_s*> made;
        for(size_t i=0;i<k.args.size();i++){
            auto &A = k.args[i]; *A.newcomm = nullptr;
            if (A.group.empty()) continue;
            for(int w : A.group) if (k.args[c->index_of(w)].group != A.group) fail("MPI_Comm_create with inconsistent groups");
            if (std::find(A.group.begin(), A.group.end(), c->members[i]) == A.group.end()) continue;
            auto &m = made[A.group]; if (m == nullptr){ m = W->make_comm(A.group); W->st.comms_created++; }
            *A.newcomm = m; W->ranks[c->members[i]]->comms++;
        }
    });
    return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int, MPI_Comm *out){
    // collective over the group only: use a private pseudo communicator keyed by the group
    cme(c, "MPI_Comm_create_group"); gchk(g, "MPI_Comm_create_group"); enter("MPI_Comm_create_group");
    static std::map<std::pair<World*, std::vector<int>>, simmpi_comm_s*> hidden; // one hidden communicator per group and world
    static World *last = nullptr; if (last != W){ hidden.clear(); last = W; }
    if (std::find(g->ranks.begin(), g->ranks.end(), ME()) == g->ranks.end()){ *out = nullptr; return 0; }
    auto &h = hidden[{W, g->ranks}]; if (h == nullptr){ h = W->make_comm(g->ranks); h->predefined = true; }
    Coll::Args a; a.newcomm = out; simmpi_comm_s *hh = h;
    collective(hh, hh->index_of(ME()), "MPI_Comm_create_group", a, [hh](Coll &k){ auto *m = W->make_comm(hh->members); W->st.comms_created++; for(size_t i=0;i<k.args.size();i++){ *k.args[i].newcomm = m; W->ranks[hh->members[i]]->comms++; } });
    return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out){
    int me = cme(c, "MPI_Comm_split"); enter("MPI_Comm_split");
    Coll::Args a; a.color = color; a.key = key; a.newcomm = out;
    collective(c, me, "MPI_Comm_split", a, [c](Coll &k){
        std::map<int, std::vector<std::pair<int,int>>> by;
        for(size_t i=0;i<k.args.size();i++) if (k.args[i].color != MPI_UNDEFINED) by[k.args[i].color].push_back({k.args[i].key, (int)i}); else *k.args[i].newcomm = nullptr;
        for(auto &b : by){ std::stable_sort(b.second.begin(), b.second.end()); std::vector<int> m; for(auto &p : b.second) m.push_back(c->members[p.second]);
            auto *n = W->make_comm(m); W->st.comms_created++; for(auto &p : b.second){ *k.args[p.second].newcomm = n; W->ranks[c->members[p.second]]->comms++; } }
    });
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out){
    int me = cme(c, "MPI_Comm_dup"); enter("MPI_Comm_dup"); Coll::Args a; a.newcomm = out;
    collective(c, me, "MPI_Comm_dup", a, [c](Coll &k){ auto *m = W->make_comm(c->members); W->st.comms_created++; for(size_t i=0;i<k.args.size();i++){ *k.args[i].newcomm = m; W->ranks[c->members[i]]->comms++; } });
    return 0;
}
int MPI_Comm_free(MPI_Comm *pc){
    MPI_Comm c = *pc; int me = cme(c, "MPI_Comm_free"); if (c->predefined) fail("MPI_Comm_free on a predefined communicator"); enter("MPI_Comm_free");
    if (W->sc.sync_free){ Coll::Args a; collective(c, me, "MPI_Comm_free", a, [](Coll&){}); }
    c->alive[me] = 0; W->ranks[ME()]->comms--; *pc = nullptr; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r){
    if (a == b) *r = MPI_IDENT; else if (a->members == b->members) *r = MPI_CONGRUENT;
    else { auto x = a->members, y = b->members; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = (x == y) ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler){ return 0; }
int MPI_Type_size(MPI_Datatype t, int *s){ *s = (int)tsize(t); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c){ *c = s->sim_count / (int)tsize(t); return 0; }

static int do_send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync, char const *fn){
    int me = cme(c, fn); enter(fn); note("send", n, dst); if (dst == MPI_PROC_NULL) return 0;
    auto m = post_send(b, n, t, dst, tag, c, me, sync, fn);
    if (m->sync){ block(std::string(fn) + " to " + std::to_string(dst) + " count " + std::to_string(n) + " comm " + std::to_string(c->id), [m]{ return m->matched; }); deliver(*m); }
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ return do_send(b,n,t,dst,tag,c,false,"MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ return do_send(b,n,t,dst,tag,c,true,"MPI_Ssend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ int me = cme(c, "MPI_Rsend"); bool posted = (dst == MPI_PROC_NULL);
    if (not posted and dst >= 0 and dst < (int) c->members.size()) for(auto r : c->posted[dst]) if ((r->peer == MPI_ANY_SOURCE or r->peer == me) and (r->tag == MPI_ANY_TAG or r->tag == tag)) posted = true;
    if (not posted) fail("MPI_Rsend before the matching receive was posted"); return do_send(b,n,t,dst,tag,c,false,"MPI_Rsend"); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){
    int me = cme(c, "MPI_Bsend"); enter("MPI_Bsend"); int old = W->sc.send_mode; W->sc.send_mode = 0; post_send(b,n,t,dst,tag,c,me,false,"MPI_Bsend"); W->sc.send_mode = old; return 0; }
static int do_isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r, bool sync, char const *fn){
    int me = cme(c, fn); enter(fn); note("isend", n, dst); *r = new_req(false); (*r)->comm = c; (*r)->peer = dst; (*r)->count = n;
    if (dst == MPI_PROC_NULL){ (*r)->complete = true; return 0; }
    (*r)->msg = post_send(b, n, t, dst, tag, c, me, sync, fn); return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r){ return do_isend(b,n,t,dst,tag,c,r,false,"MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r){ return do_isend(b,n,t,dst,tag,c,r,true,"MPI_Issend"); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r){
    int me = cme(c, "MPI_Irecv"); enter("MPI_Irecv"); note("irecv", n, src);
    if (src == MPI_PROC_NULL){ *r = new_req(true); (*r)->complete = true; return 0; }
    *r = post_recv(b, n, t, src, tag, c, me, "MPI_Irecv"); return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st){ MPI_Request r; MPI_Irecv(b,n,t,src,tag,c,&r); return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *s){
    MPI_Request rr, sr; MPI_Irecv(rb,rn,rt,src,rtag,c,&rr); MPI_Isend(sb,sn,st,dst,stag,c,&sr); MPI_Wait(&rr, s); MPI_Wait(&sr, nullptr); return 0; }
static std::shared_ptr<Message> probe_find(int src, int tag, MPI_Comm c, int me){ for(auto &m : c->inbox[me]) if ((src == MPI_ANY_SOURCE or m->src == src) and (tag == MPI_ANY_TAG or m->tag == tag)) return m; return nullptr; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st){ int me = cme(c, "MPI_Probe"); enter("MPI_Probe"); block("MPI_Probe", [=]{ return (bool) probe_find(src,tag,c,me); }); auto m = probe_find(src,tag,c,me); if (st){ st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_count = (int)m->bytes; } return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st){ int me = cme(c, "MPI_Iprobe"); enter("MPI_Iprobe"); auto m = probe_find(src,tag,c,me); *f = m ? 1 : 0; if (m and st){ st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_count = (int)m->bytes; } if (not m) simmpi::yield(); return 0; }

int MPI_Wait(MPI_Request *r, MPI_Status *st){ enter("MPI_Wait"); if (*r == nullptr) return 0; check_req(*r); if (idle(*r)) return 0; MPI_Request q = *r; block("MPI_Wait " + wreq(q), [q]{ return can_complete(q); }); finish(r, st); return 0; }
static int choose(std::vector<int> const &c){ if (c.size() > 1) W->st.waitany_choices++; switch(W->sc.wait_order){ case 1: return c[W->rnd(c.size())]; case 2: return c.back(); default: return c.front(); } }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st){
    enter("MPI_Waitany"); note("waitany", n, -1); std::string what = "MPI_Waitany on"; bool any = false;
    for(int i=0;i<n;i++) if (r[i]){ check_req(r[i]); if (not idle(r[i])){ any = true; what += " {" + wreq(r[i]) + "}"; } }
    if (not any){ *idx = MPI_UNDEFINED; return 0; }
    block(what, [n,r]{ for(int i=0;i<n;i++) if (not idle(r[i]) and can_complete(r[i])) return true; return false; });
    std::vector<int> c; for(int i=0;i<n;i++) if (not idle(r[i]) and can_complete(r[i])) c.push_back(i);
    *idx = choose(c); finish(&r[*idx], st); return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *idx, MPI_Status *st){
    enter("MPI_Waitsome"); bool any = false; for(int i=0;i<n;i++) if (r[i]){ check_req(r[i]); if (not idle(r[i])) any = true; }
    if (not any){ *out = MPI_UNDEFINED; return 0; }
    block("MPI_Waitsome", [n,r]{ for(int i=0;i<n;i++) if (not idle(r[i]) and can_complete(r[i])) return true; return false; });
    std::vector<int> c; for(int i=0;i<n;i++) if (not idle(r[i]) and can_complete(r[i])) c.push_back(i);
    int keep = 1 + (int) W->rnd(c.size()); while((int)c.size() > keep) c.erase(c.begin() + W->rnd(c.size()));
    if (W->sc.wait_order == 2) std::reverse(c.begin(), c.end());
    *out = (int)c.size(); for(size_t i=0;i<c.size();i++){ idx[i] = c[i]; finish(&r[c[i]], st ? st + i : nullptr); } return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st){
    enter("MPI_Waitall"); for(int i=0;i<n;i++) if (r[i]) check_req(r[i]);
    std::string what = "MPI_Waitall on"; for(int i=0;i<n;i++) if (not idle(r[i]) and not can_complete(r[i])) what += " {" + wreq(r[i]) + "}";
    block(what, [n,r]{ for(int i=0;i<n;i++) if (not idle(r[i]) and not can_complete(r[i])) return false; return true; });
    for(int i=0;i<n;i++) if (not idle(r[i])) finish(&r[i], st ? st + i : nullptr);
    return 0;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st){ enter("MPI_Test"); if (*r == nullptr){ *f = 1; return 0; } check_req(*r); if (idle(*r)){ *f = 1; return 0; } if (can_complete(*r) and W->rnd(4)){ finish(r, st); *f = 1; } else { *f = 0; int p = W->sc.policy; W->sc.policy = 1; simmpi::yield(); W->sc.policy = p; } return 0; }
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *st){
    enter("MPI_Testany"); bool any = false; std::vector<int> c; for(int i=0;i<n;i++) if (r[i]){ check_req(r[i]); if (idle(r[i])) continue; any = true; if (can_complete(r[i])) c.push_back(i); }
    if (not any){ *f = 1; *idx = MPI_UNDEFINED; return 0; }
    if (c.empty() or W->rnd(4) == 0){ *f = 0; int p = W->sc.policy; W->sc.policy = 1; simmpi::yield(); W->sc.policy = p; return 0; }
    *f = 1; *idx = choose(c); finish(&r[*idx], st); return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st){
    enter("MPI_Testall"); bool all = true; for(int i=0;i<n;i++) if (r[i]){ check_req(r[i]); if (not idle(r[i]) and not can_complete(r[i])) all = false; }
    if (not all or W->rnd(4) == 0){ *f = 0; int p = W->sc.policy; W->sc.policy = 1; simmpi::yield(); W->sc.policy = p; return 0; }
    for(int i=0;i<n;i++) if (not idle(r[i])) finish(&r[i], st ? st + i : nullptr); *f = 1; return 0;
}
int MPI_Request_free(MPI_Request *r){ enter("MPI_Request_free"); check_req(*r); if (not idle(*r) and ((*r)->recv or (*r)->persistent or (*r)->coll)) fail("MPI_Request_free on a receive, an active persistent request or a collective"); drop_req(*r); *r = nullptr; return 0; }
int MPI_Cancel(MPI_Request*){ fail("MPI_Cancel is not simulated"); return 0; }

int MPI_Barrier(MPI_Comm c){ int me = cme(c, "MPI_Barrier"); enter("MPI_Barrier"); collective(c, me, "MPI_Barrier", Coll::Args(), [](Coll&){}); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c){
    int me = cme(c, "MPI_Bcast"); enter("MPI_Bcast"); Coll::Args a; a.r = b; a.scount = n; a.st = t; a.root = root;
    collective(c, me, "MPI_Bcast", a, [c](Coll &k){ auto &R = k.args[k.args[0].root]; for(size_t i=0;i<k.args.size();i++){ auto &A = k.args[i]; if (A.root != k.args[0].root or A.scount*tsize(A.st) != R.scount*tsize(R.st)) fail("MPI_Bcast argument mismatch"); if (&A != &R) copyb(A.r, R.r, R.scount*tsize(R.st)); } });
    return 0;
}
static void exec_reduce(Coll &k, char const *fn){
        size_t nb = k.args[0].scount * tsize(k.args[0].st); std::vector<char> acc(nb);
        for(size_t i=0;i<k.args.size();i++){ auto &A = k.args[i]; if (A.scount != k.args[0].scount or A.st != k.args[0].st or A.op != k.args[0].op or A.root != k.args[0].root) fail(std::string(fn) + " argument mismatch");
            void const *src = (A.s == MPI_IN_PLACE) ? A.r : A.s; if (i == 0) copyb(acc.data(), src, nb); else reduce(acc.data(), src, A.scount, A.st, A.op); }
        for(size_t i=0;i<k.args.size();i++) if (k.args[i].root < 0 or k.args[i].root == (int)i) copyb(k.args[i].r, acc.data(), nb);
}
static int do_reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, char const *fn){
    int me = cme(c, fn); enter(fn); Coll::Args a; a.s = s; a.r = r; a.scount = n; a.st = t; a.op = op; a.root = root;
    collective(c, me, fn, a, [fn](Coll &k){ exec_reduce(k, fn); });
    return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c){ return do_reduce(s,r,n,t,op,root,c,"MPI_Reduce"); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return do_reduce(s,r,n,t,op,-1,c,"MPI_Allreduce"); }

// generic gather: root < 0 means everybody receives
static void exec_gather(Coll &k, char const *fn){
        for(size_t i=0;i<k.args.size();i++){ auto &R = k.args[i]; if (R.root != k.args[0].root) fail(std::string(fn) + " root mismatch"); if (R.root >= 0 and R.root != (int)i) continue;
            for(size_t j=0;j<k.args.size();j++){ auto &S = k.args[j]; if (S.s == MPI_IN_PLACE) continue;
                size_t sb = (size_t)S.scount*tsize(S.st), rb = (size_t)(R.rc ? R.rc[j] : R.rcount)*tsize(R.rt), off = (R.rd ? (size_t)R.rd[j] : j*(size_t)R.rcount)*tsize(R.rt);
                if (sb != rb) fail(std::string(fn) + " count mismatch"); copyb((char*)R.r + off, S.s, sb); } }
}
static int do_gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, char const *fn){
    int me = cme(c, fn); enter(fn); Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rcount = rn; a.rc = rc; a.rd = rd; a.rt = rt; a.root = root;
    collective(c, me, fn, a, [fn](Coll &k){ exec_gather(k, fn); });
    return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c){ return do_gather(s,sn,st,r,rn,nullptr,nullptr,rt,root,c,"MPI_Gather"); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c){ return do_gather(s,sn,st,r,0,rc,rd,rt,root,c,"MPI_Gatherv"); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c){ return do_gather(s,sn,st,r,rn,nullptr,nullptr,rt,-1,c,"MPI_Allgather"); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){ return do_gather(s,sn,st,r,0,rc,rd,rt,-1,c,"MPI_Allgatherv"); }
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c){
    int me = cme(c, "MPI_Scatter"); enter("MPI_Scatter"); Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rcount = rn; a.rt = rt; a.root = root;
    collective(c, me, "MPI_Scatter", a, [](Coll &k){ auto &S = k.args[k.args[0].root]; for(size_t i=0;i<k.args.size();i++){ auto &R = k.args[i]; if ((void*)R.r == MPI_IN_PLACE) continue; copyb(R.r, (char const*)S.s + i*S.scount*tsize(S.st), (size_t)R.rcount*tsize(R.rt)); } });
    return 0;
}
static void exec_alltoall(MPI_Comm c, Coll &k){
    for(size_t i=0;i<k.args.size();i++) for(size_t j=0;j<k.args.size();j++){
        auto &S = k.args[i]; auto &R = k.args[j]; if (S.s == MPI_IN_PLACE) fail("MPI_IN_PLACE all-to-all is not simulated");
        size_t sb = (size_t)(S.sc ? S.sc[j] : S.scount), rb = (size_t)(R.rc ? R.rc[i] : R.rcount);
        if ((S.sc and S.sc[j] < 0) or (R.rc and R.rc[i] < 0)) fail("negative count in all-to-all");
        MPI_Datatype st = S.stv ? S.stv[j] : S.st, rt = R.rtv ? R.rtv[i] : R.rt;
        if (basetype(st) != basetype(rt) and not (st == MPI_BYTE or rt == MPI_BYTE)) fail("datatype mismatch in all-to-all");
        if (sb*tsize(st) != rb*tsize(rt)) fail("all-to-all count mismatch: rank " + std::to_string(c->members[i]) + " sends " + std::to_string(sb) + " to rank " + std::to_string(c->members[j]) + " which expects " + std::to_string(rb));
        copyb((char*)R.r + (R.rtv ? (size_t)R.rd[i] : (R.rd ? (size_t)R.rd[i] : i*(size_t)R.rcount)*tsize(rt)), (char const*)S.s + (S.stv ? (size_t)S.sd[j] : (S.sd ? (size_t)S.sd[j] : j*(size_t)S.scount)*tsize(st)), sb*tsize(st));
        if (S.sc == nullptr or S.sc[j] > 0) count_coll_send(c, (int)i, (int)j, (long)sb);
    }
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c){
    int me = cme(c, "MPI_Alltoall"); enter("MPI_Alltoall"); note("all2all", sn, -1); Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rcount = rn; a.rt = rt;
    collective(c, me, "MPI_Alltoall", a, [c](Coll &k){ exec_alltoall(c, k); }); return 0;
}
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){
    int me = cme(c, "MPI_Alltoallv"); enter("MPI_Alltoallv"); note("all2allv", -1, -1); Coll::Args a; a.s = s; a.sc = sc; a.sd = sd; a.st = st; a.r = r; a.rc = rc; a.rd = rd; a.rt = rt;
    collective(c, me, "MPI_Alltoallv", a, [c](Coll &k){ exec_alltoall(c, k); }); return 0;
}
int MPI_Alltoallw(const void *s, const int *sc, const int *sd, const MPI_Datatype *st, void *r, const int *rc, const int *rd, const MPI_Datatype *rt, MPI_Comm c){
    int me = cme(c, "MPI_Alltoallw"); enter("MPI_Alltoallw"); note("all2allw", -1, -1); Coll::Args a; a.s = s; a.sc = sc; a.sd = sd; a.stv = st; a.r = r; a.rc = rc; a.rd = rd; a.rtv = rt;
    collective(c, me, "MPI_Alltoallw", a, [c](Coll &k){ exec_alltoall(c, k); }); return 0;
}
// nonblocking collectives: the data moves when the last process arrives, the request completes after that
static int icoll(MPI_Comm c, char const *kind, Coll::Args const &a, MPI_Request *q, std::function<void(Coll&)> const &exec){
    int me = cme(c, kind); enter(kind); note(kind, a.sc ? -1 : a.scount, -1); auto done = arrive(c, me, kind, a, exec);
    *q = new_req(true); (*q)->comm = c; (*q)->coll = done; return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q){ return icoll(c, "MPI_Ibarrier", Coll::Args(), q, [](Coll&){}); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){
    Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rcount = rn; a.rt = rt; return icoll(c, "MPI_Ialltoall", a, q, [c](Coll &k){ exec_alltoall(c, k); }); }
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){
    Coll::Args a; a.s = s; a.sc = sc; a.sd = sd; a.st = st; a.r = r; a.rc = rc; a.rd = rd; a.rt = rt; return icoll(c, "MPI_Ialltoallv", a, q, [c](Coll &k){ exec_alltoall(c, k); }); }
static void exec_bcast(Coll &k){ auto &R = k.args[k.args[0].root]; for(size_t i=0;i<k.args.size();i++){ auto &A = k.args[i]; if (A.root != k.args[0].root or A.scount*tsize(A.st) != R.scount*tsize(R.st)) fail("broadcast argument mismatch"); if (&A != &R) copyb(A.r, R.r, R.scount*tsize(R.st)); } }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *q){ Coll::Args a; a.r = b; a.scount = n; a.st = t; a.root = root; return icoll(c, "MPI_Ibcast", a, q, exec_bcast); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q){
    Coll::Args a; a.s = s; a.r = r; a.scount = n; a.st = t; a.op = op; a.root = -1; return icoll(c, "MPI_Iallreduce", a, q, [](Coll &k){ exec_reduce(k, "MPI_Iallreduce"); }); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){
    Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rcount = rn; a.rt = rt; a.root = -1; return icoll(c, "MPI_Iallgather", a, q, [](Coll &k){ exec_gather(k, "MPI_Iallgather"); }); }
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){
    Coll::Args a; a.s = s; a.scount = sn; a.st = st; a.r = r; a.rc = rc; a.rd = rd; a.rt = rt; a.root = -1; return icoll(c, "MPI_Iallgatherv", a, q, [](Coll &k){ exec_gather(k, "MPI_Iallgatherv"); }); }
// prefix reductions
static int do_scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool exclusive, char const *fn){
    int me = cme(c, fn); enter(fn); Coll::Args a; a.s = s; a.r = r; a.scount = n; a.st = t; a.op = op;
    collective(c, me, fn, a, [exclusive](Coll &k){
        size_t nb = k.args[0].scount * tsize(k.args[0].st); std::vector<char> acc(nb), in(nb);
        for(size_t i=0;i<k.args.size();i++){ auto &A = k.args[i]; copyb(in.data(), (A.s == MPI_IN_PLACE) ? A.r : A.s, nb);
            if (exclusive and i > 0) copyb(A.r, acc.data(), nb);
            if (i == 0) acc = in; else reduce(acc.data(), in.data(), A.scount, A.st, A.op);
            if (not exclusive) copyb(A.r, acc.data(), nb); }
    });
    return 0;
}
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return do_scan(s,r,n,t,op,c,false,"MPI_Scan"); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return do_scan(s,r,n,t,op,c,true,"MPI_Exscan"); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){
    int size = (int) c->members.size(); std::vector<char> all((size_t) n * size * tsize(t)); MPI_Allreduce(s == MPI_IN_PLACE ? r : s, all.data(), n * size, t, op, c);
    int me; MPI_Comm_rank(c, &me); std::memcpy(r, all.data() + (size_t) me * n * tsize(t), (size_t) n * tsize(t)); return 0;
}
// persistent requests
static int do_init(void const *sb, void *rb, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request *q, bool sync, char const *fn){
    int me = cme(c, fn); enter(fn); auto *r = new_req(rb != nullptr or sb == nullptr); r->persistent = true; r->sbuf = sb; r->buf = rb; r->comm = c; r->peer = peer; r->tag = tag; r->type = t; r->count = n; r->sync = sync; r->me = me; *q = r; return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q){ int e = do_init(b,nullptr,n,t,dst,tag,c,q,false,"MPI_Send_init"); (*q)->recv = false; return e; }
int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q){ int e = do_init(b,nullptr,n,t,dst,tag,c,q,true,"MPI_Ssend_init"); (*q)->recv = false; return e; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q){ int e = do_init(nullptr,b,n,t,src,tag,c,q,false,"MPI_Recv_init"); (*q)->recv = true; return e; }
int MPI_Start(MPI_Request *pq){
    enter("MPI_Start"); MPI_Request q = *pq; check_req(q); if (not q->persistent or q->active) fail("MPI_Start on an active or non-persistent request");
    note(q->recv ? "irecv" : "isend", q->count, q->peer); cme(q->comm, "MPI_Start");
    q->active = true; if (q->peer == MPI_PROC_NULL){ q->complete = true; return 0; }
    if (q->recv) take_or_post(q, q->me); else q->msg = post_send(q->sbuf, q->count, q->type, q->peer, q->tag, q->comm, q->me, q->sync, "MPI_Start");
    return 0;
}
int MPI_Startall(int n, MPI_Request *q){ for(int i=0;i<n;i++) MPI_Start(q + i); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o){ if (n < 0) fail("MPI_Type_contiguous with a negative count"); tsize(t); if (g_types_world != W){ g_types.clear(); g_types_world = W; } g_types.push_back({t, n, false, false}); *o = FIRST_DERIVED + (int) g_types.size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype *t){ derived(*t).committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t){ auto &d = derived(*t); if (d.freed) fail("MPI_Type_free twice"); d.freed = true; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ext){ *lb = 0; *ext = (MPI_Aint) tsize(t); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *out){ return MPI_Comm_split(c, 0, key, out); }
int MPI_Comm_get_name(MPI_Comm, char *n, int *l){ n[0] = 0; *l = 0; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char*){ return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o){ gchk(a, "MPI_Group_union"); gchk(b, "MPI_Group_union"); auto v = a->ranks; for(int w : b->ranks) if (std::find(v.begin(), v.end(), w) == v.end()) v.push_back(w); *o = mkgroup(v); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o){ gchk(a, "MPI_Group_intersection"); gchk(b, "MPI_Group_intersection"); std::vector<int> v; for(int w : a->ranks) if (std::find(b->ranks.begin(), b->ranks.end(), w) != b->ranks.end()) v.push_back(w); *o = mkgroup(v); return 0; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *c){ *c = s->sim_count / (int)tsize(basetype(t)); return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c ? c->id : -1; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return (f < 0) ? nullptr : W->comms[f].get(); }
}
