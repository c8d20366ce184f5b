// An in-process stand-in for the NATS C library: one server, callbacks made by whoever delivers.
#pragma once
#include <nats/nats.h>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <mutex>
#include <string>
#include <vector>

struct __natsConnection { std::string url; };
struct __natsMsg { std::string subject, reply; std::vector<uint8_t> data; };
struct __natsSubscription {
    std::string subject; natsMsgHandler cb; void* ctx; natsOnCompleteCB done{}; void* done_ctx{};
    bool closed{ false }; int busy{ 0 }; std::deque<natsMsg*> queue;
};
namespace fake {
inline std::mutex mtx;
inline std::condition_variable cv;
inline std::vector<natsSubscription*> subs;
inline std::function<void(const std::string&, const std::string&, const std::vector<uint8_t>&)> on_publish;
// returns false when nobody listens
inline bool deliver(const std::string& subject, const std::string& reply, const std::vector<uint8_t>& data) {
    std::unique_lock<std::mutex> l(mtx);
    bool any = false;
    for (size_t i = 0; i < subs.size(); ++i) {
        auto s = subs[i];
        if (s->closed || s->subject != subject) continue;
        any = true;
        auto m = new natsMsg{ subject, reply, data };
        if (!s->cb) { s->queue.push_back(m); cv.notify_all(); continue; }
        ++s->busy; l.unlock();
        s->cb(nullptr, s, m, s->ctx);
        l.lock(); --s->busy;
        if (s->closed && !s->busy && s->done) { auto d = s->done; auto c = s->done_ctx; s->done = nullptr; l.unlock(); d(c); l.lock(); }
    }
    return any;
}
inline natsStatus sub(natsSubscription** out, const char* subject, natsMsgHandler cb, void* ctx) {
    std::lock_guard<std::mutex> l(mtx);
    auto s = new natsSubscription{ subject, cb, ctx };
    subs.push_back(s); *out = s;
    return NATS_OK;
}
}
extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection** nc, const char* urls) { *nc = new natsConnection{ urls }; return NATS_OK; }
natsConnStatus natsConnection_Status(natsConnection* nc) { return nc ? NATS_CONN_STATUS_CONNECTED : NATS_CONN_STATUS_CLOSED; }
natsStatus natsConnection_GetConnectedUrl(natsConnection* nc, char* b, size_t n) { std::strncpy(b, nc->url.c_str(), n); return NATS_OK; }
void natsConnection_Destroy(natsConnection* nc) { delete nc; }
natsStatus natsConnection_PublishRequest(natsConnection*, const char* s, const char* r, const void* d, int n) {
    auto p = static_cast<const uint8_t*>(d);
    if (fake::on_publish) fake::on_publish(s, r ? r : "", std::vector<uint8_t>(p, p + n));
    return NATS_OK;
}
natsStatus natsConnection_Publish(natsConnection* c, const char* s, const void* d, int n) { return natsConnection_PublishRequest(c, s, "", d, n); }
natsStatus natsConnection_Subscribe(natsSubscription** o, natsConnection*, const char* s, natsMsgHandler cb, void* ctx) { return fake::sub(o, s, cb, ctx); }
natsStatus natsConnection_QueueSubscribe(natsSubscription** o, natsConnection*, const char* s, const char*, natsMsgHandler cb, void* ctx) { return fake::sub(o, s, cb, ctx); }
natsStatus natsConnection_SubscribeSync(natsSubscription** o, natsConnection*, const char* s) { return fake::sub(o, s, nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription** o, natsConnection*, const char* s, const char*) { return fake::sub(o, s, nullptr, nullptr); }
const char* natsSubscription_GetSubject(natsSubscription* s) { return s->subject.c_str(); }
natsStatus natsSubscription_SetOnCompleteCB(natsSubscription* s, natsOnCompleteCB cb, void* c) {
    std::lock_guard<std::mutex> l(fake::mtx);
    if (!s || s->closed || !s->cb) return NATS_INVALID_SUBSCRIPTION;
    s->done = cb; s->done_ctx = c;
    return NATS_OK;
}
natsStatus natsSubscription_NextMsg(natsMsg** m, natsSubscription* s, int64_t ms) {
    std::unique_lock<std::mutex> l(fake::mtx);
    fake::cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return !s->queue.empty() || s->closed; });
    if (s->queue.empty()) return NATS_TIMEOUT;
    *m = s->queue.front(); s->queue.pop_front();
    return NATS_OK;
}
natsStatus natsSubscription_Unsubscribe(natsSubscription* s) {
    std::unique_lock<std::mutex> l(fake::mtx);
    s->closed = true; fake::cv.notify_all();
    if (!s->busy && s->done) { auto d = s->done; auto c = s->done_ctx; s->done = nullptr; l.unlock(); d(c); }
    return NATS_OK;
}
void natsSubscription_Destroy(natsSubscription* s) { if (s) natsSubscription_Unsubscribe(s); }
natsStatus natsMsg_Create(natsMsg** m, const char* s, const char* r, const char* d, int n) { *m = new natsMsg{ s, r ? r : "", std::vector<uint8_t>(d, d + n) }; return NATS_OK; }
void natsMsg_Destroy(natsMsg* m) { delete m; }
const char* natsMsg_GetData(const natsMsg* m) { return reinterpret_cast<const char*>(m->data.data()); }
int natsMsg_GetDataLength(const natsMsg* m) { return static_cast<int>(m->data.size()); }
const char* natsMsg_GetReply(const natsMsg* m) { return m->reply.empty() ? nullptr : m->reply.c_str(); }
const char* natsMsg_GetSubject(const natsMsg* m) { return m->subject.c_str(); }
bool natsMsg_IsNoResponders(natsMsg*) { return false; }
}
