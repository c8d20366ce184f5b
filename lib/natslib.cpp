// A stand-in for the NATS C library under the scheduler: one server; every asynchronous
// subscription has a delivery thread; everything that crosses the interface is recorded.
#include "natsched.hpp"
#include "natslib.hpp"
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <thread>
#include <nats/nats.h>
struct __natsConnection { int c; bool closed{}, destroyed{}; };
struct __natsMsg { std::string subject, reply, data; bool nr{}; bool own{}; };
struct __natsSubscription {
    int sid; natsConnection* nc; std::string subject, group; natsMsgHandler cb; void* ctx; natsOnCompleteCB done{}; void* done_ctx{};
    bool closed{}, ended{}, destroyed{}; std::deque<natsMsg*> queue;
};
namespace lib {
static std::vector<std::string> events;
static std::deque<std::unique_ptr<__natsSubscription>> subs;
static std::deque<std::unique_ptr<__natsConnection>> conns;
static std::map<std::string, int> names;
static std::map<std::string, int> contents;
static std::map<int, int> failing;
static std::map<int, std::vector<int>> thread_client;
static std::vector<std::thread> deliverers;
long live_msgs = 0;
int subject_id(const std::string& s) {
    if (s.empty()) return 0;
    if (s.size() > 2 && s.substr(0, 2) == "s.") return std::atoi(s.c_str() + 2);
    auto i = names.find(s);
    if (i == names.end()) i = names.emplace(s, 100 + (int)names.size()).first;
    return i->second;
}
std::string content(int d) {
    static const int size[] = { 0, 1, 4, 33, 1500, 7, 70000 };
    std::string b(size[d % 7], 0); unsigned x = d * 2654435761u + 1;
    for (auto& c : b) { x = x * 1103515245u + 12345u; c = (char)(x >> 16); }
    // bytes of value zero, at the ends too
    if (b.size() > 3) b.back() = 0;
    if (b.size() > 4 && d % 2) { b.front() = 0; b[b.size() - 2] = 0; }
    if (!b.empty()) contents[b] = d;
    return b;
}
int content_id(const void* p, size_t n) {
    if (n == 0) return 0;
    auto i = contents.find(std::string(static_cast<const char*>(p), n));
    return i == contents.end() ? 99999 : i->second;
}
void log(const std::string& e) { events.push_back("{\"n\":" + std::to_string(sched::now_ms()) + "," + e + "}"); }
static std::string I(const char* k, long v) { return ",\"" + std::string(k) + "\":" + std::to_string(v); }
std::string E(const char* e, std::initializer_list<std::pair<const char*, long>> f) {
    std::string s = "\"e\":\"" + std::string(e) + "\"";
    for (auto& [k, v] : f) s += I(k, v);
    return s;
}
static std::string M(const natsMsg* m) { return I("r", subject_id(m->reply)) + I("d", content_id(m->data.data(), m->data.size())) + I("nr", m->nr); }
void reset() { events.clear(); subs.clear(); conns.clear(); names.clear(); failing.clear(); deliverers.clear(); }
std::vector<std::string> take() { return std::move(events); }
void fail(int t, int st) { failing[t] = st; }
static natsStatus refuse(natsStatus st) { log(E("fail", { { "t", sched::me() }, { "st", st } })); return st; }
// a handle given back to the library may not be used any more
template <class H> static H* valid(H* h) { if (h && h->destroyed) log(E("misuse", {})); return h; }
static natsStatus fails() {
    auto i = failing.find(sched::me());
    if (i == failing.end()) return NATS_OK;
    auto st = static_cast<natsStatus>(i->second); failing.erase(i);
    return refuse(st);
}
static void drop(__natsSubscription* s) { for (auto m : s->queue) { delete m; --live_msgs; } s->queue.clear(); }
void route(const std::string& subject, const std::string& reply, const std::string& data, bool nr) {
    std::vector<__natsSubscription*> to; std::map<std::string, std::vector<__natsSubscription*>> groups;
    for (auto& s : subs) if (!s->closed && s->subject == subject) { if (s->group.empty()) to.push_back(s.get()); else groups[s->group].push_back(s.get()); }
    for (auto& g : groups) to.push_back(g.second[sched::rnd() % g.second.size()]);
    for (auto s : to) {
        auto m = new natsMsg{ subject, reply, data, nr }; ++live_msgs;
        log(E("route", { { "sid", s->sid } }) + M(m));
        s->queue.push_back(m); sched::wake(s, 1 << 20);
    }
    if (to.empty() && !reply.empty() && !nr) route(reply, "", "", true);
}
void spub(const std::string& subject, const std::string& reply, const std::string& data) { sched::Quiet q; route(subject, reply, data, false); }
std::vector<std::string> subjects(int c) { std::vector<std::string> r; for (auto& s : subs) if (!s->closed && s->nc->c == c) r.push_back(s->subject); return r; }
static void deliver(__natsSubscription* s) {
    sched::Quiet quiet;
    for (;;) {
        while (s->queue.empty() && !s->closed) sched::block(s, "a message to deliver", 1000000000ll * 100000000);
        if (s->closed) break;
        auto m = s->queue.front(); s->queue.pop_front();
        log(E("cb", { { "sid", s->sid } }) + M(m));
        sched::quiet(false);
        s->cb(s->nc, s, m, s->ctx);
        sched::quiet(true);
        log(E("cbend", { { "sid", s->sid } }));
    }
    drop(s);
    if (s->done) { auto d = s->done; s->done = nullptr; sched::quiet(false); d(s->done_ctx); sched::quiet(true); }
    s->ended = true;
}
static natsStatus subscribe(natsSubscription** out, natsConnection* nc, const char* subject, const char* group, natsMsgHandler cb, void* ctx) {
    sched::yield();
    sched::Quiet q;
    if (auto st = fails()) return st;
    if (!valid(nc) || nc->closed) return refuse(NATS_CONNECTION_CLOSED);
    if (!subject || !*subject) return refuse(NATS_INVALID_SUBJECT);
    subs.push_back(std::make_unique<__natsSubscription>());
    auto s = subs.back().get();
    s->sid = (int)subs.size(); s->nc = nc; s->subject = subject; s->group = group; s->cb = cb; s->ctx = ctx;
    log(E("sub", { { "t", sched::me() }, { "c", nc->c }, { "sid", s->sid }, { "s", subject_id(subject) }, { "g", group[0] ? std::atoi(group + 1) : 0 } }));
    *out = s;
    sched::quiet(false);
    std::thread t;
    if (cb) t = std::thread(deliver, s);
    sched::quiet(true);
    if (cb) deliverers.push_back(std::move(t));
    return NATS_OK;
}
void finish() { for (auto& t : deliverers) t.join(); deliverers.clear(); }
static void close(__natsSubscription* s) {
    if (s->closed) return;
    s->closed = true;
    log(E("unsub", { { "sid", s->sid } }));
    if (!s->cb) drop(s);
    sched::wake(s, 1 << 20);
}
int live(int c) { int n = 0; for (auto& s : subs) n += !s->closed && s->nc->c == c; return n; }
}
using namespace lib;
int lib_client = 0;
extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection** nc, const char*) {
    sched::Quiet q;
    if (auto st = fails()) { return st; }
    conns.push_back(std::make_unique<__natsConnection>()); conns.back()->c = lib_client; *nc = conns.back().get(); return NATS_OK;
}
natsConnStatus natsConnection_Status(natsConnection* nc) { sched::Quiet q; return valid(nc) && !nc->closed ? NATS_CONN_STATUS_CONNECTED : NATS_CONN_STATUS_CLOSED; }
natsStatus natsConnection_GetConnectedUrl(natsConnection* nc, char* b, size_t n) { sched::Quiet q; if (!valid(nc)) return NATS_INVALID_ARG; std::strncpy(b, "nats://here", n); return NATS_OK; }
void natsConnection_Close(natsConnection* nc) { sched::yield(); sched::Quiet q; if (!valid(nc)) return; nc->closed = true; for (auto& s : subs) if (s->nc == nc) close(s.get()); }
void natsConnection_Destroy(natsConnection* nc) { natsConnection_Close(nc); if (nc) nc->destroyed = true; }
natsStatus natsConnection_Flush(natsConnection*) { sched::yield(); return NATS_OK; }
natsStatus natsConnection_PublishRequest(natsConnection* nc, const char* s, const char* r, const void* d, int n) {
    sched::yield();
    sched::Quiet q;
    if (auto st = fails()) return st;
    if (!valid(nc) || nc->closed) return refuse(NATS_CONNECTION_CLOSED);
    if (!s || !*s) return refuse(NATS_INVALID_SUBJECT);
    log(E("srv", { { "t", sched::me() }, { "s", subject_id(s) }, { "r", subject_id(r ? r : "") }, { "d", content_id(d, n) } }));
    route(s, r ? r : "", std::string(static_cast<const char*>(d), n), false);
    return NATS_OK;
}
natsStatus natsConnection_Publish(natsConnection* c, const char* s, const void* d, int n) { return natsConnection_PublishRequest(c, s, nullptr, d, n); }
natsStatus natsConnection_Subscribe(natsSubscription** o, natsConnection* c, const char* s, natsMsgHandler cb, void* ctx) { return lib::subscribe(o, c, s, "", cb, ctx); }
natsStatus natsConnection_QueueSubscribe(natsSubscription** o, natsConnection* c, const char* s, const char* g, natsMsgHandler cb, void* ctx) { return lib::subscribe(o, c, s, g, cb, ctx); }
natsStatus natsConnection_SubscribeSync(natsSubscription** o, natsConnection* c, const char* s) { return lib::subscribe(o, c, s, "", nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription** o, natsConnection* c, const char* s, const char* g) { return lib::subscribe(o, c, s, g, nullptr, nullptr); }
const char* natsSubscription_GetSubject(natsSubscription* s) { sched::Quiet q; return valid(s) ? s->subject.c_str() : nullptr; }
bool natsSubscription_IsValid(natsSubscription* s) { sched::Quiet q; return valid(s) && !s->closed; }
natsStatus natsSubscription_SetOnCompleteCB(natsSubscription* s, natsOnCompleteCB cb, void* c) {
    sched::yield();
    sched::Quiet q;
    if (!valid(s) || s->closed || !s->cb) return NATS_INVALID_SUBSCRIPTION;
    s->done = cb; s->done_ctx = c;
    return NATS_OK;
}
natsStatus natsSubscription_NextMsg(natsMsg** m, natsSubscription* s, int64_t ms) {
    sched::yield();
    sched::Quiet q;
    if (!valid(s) || s->closed) return NATS_INVALID_SUBSCRIPTION;
    if (s->cb) return NATS_ILLEGAL_STATE;
    log(E("poll", { { "sid", s->sid } }));
    auto end = sched::now_ms() + ms;
    while (s->queue.empty() && !s->closed && sched::now_ms() < end) sched::block(s, "a message from the library", end * 1000000);
    if (s->closed) return NATS_INVALID_SUBSCRIPTION;
    if (s->queue.empty()) return NATS_TIMEOUT;
    *m = s->queue.front(); s->queue.pop_front();
    log(E("cb", { { "sid", s->sid } }) + M(*m));
    return NATS_OK;
}
natsStatus natsSubscription_Unsubscribe(natsSubscription* s) { sched::yield(); sched::Quiet q; if (!valid(s) || s->closed) return NATS_INVALID_SUBSCRIPTION; close(s); return NATS_OK; }
void natsSubscription_Destroy(natsSubscription* s) { sched::yield(); sched::Quiet q; if (valid(s)) { close(s); s->destroyed = true; } }
natsStatus natsMsg_Create(natsMsg** m, const char* s, const char* r, const char* d, int n) { ++live_msgs; *m = new natsMsg{ s, r ? r : "", std::string(d, n) }; return NATS_OK; }
void natsMsg_Destroy(natsMsg* m) { if (m) { --live_msgs; delete m; } }
const char* natsMsg_GetData(const natsMsg* m) { return m->data.data(); }
int natsMsg_GetDataLength(const natsMsg* m) { return static_cast<int>(m->data.size()); }
const char* natsMsg_GetReply(const natsMsg* m) { return m->reply.empty() ? nullptr : m->reply.c_str(); }
const char* natsMsg_GetSubject(const natsMsg* m) { return m->subject.c_str(); }
bool natsMsg_IsNoResponders(natsMsg* m) { return m && m->nr; }
}
