// Runs scenarios with the real NATS client under many schedules; prints every distinct record.
// natsdrv FILE FIRST COUNT OUT: each line of FILE is a scenario.
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <unistd.h>
#include <vrtgen/nats/client.hpp>
#include "natsched.hpp"
#include "natslib.hpp"
using vrtgen::nats::client;
using lib::E;
namespace {
struct Script { int c; std::vector<std::vector<std::string>> ops; };
struct Scenario { int clients; std::vector<Script> threads; };
std::vector<std::unique_ptr<client>> cl;
std::vector<std::map<int, bool>> pending;      // per client: threads inside one of its operations
std::vector<bool> gone;
std::string cur; uint64_t cur_seed; FILE* out;

std::string sub(int s) { return s ? "s." + std::to_string(s) : ""; }
void stuck(const char* what) {
    std::string ev;
    for (auto& e : lib::take()) ev += (ev.empty() ? "" : ",") + e;
    std::fprintf(out, "{\"stuck\":\"%s\",\"scenario\":%s,\"seed\":%llu,\"ev\":[%s]}\n", what, cur.c_str(), (unsigned long long)cur_seed, ev.c_str());
    std::fflush(out);
}
// an operation of client c: logs call and ret around f, which returns the fields of ret
template <class F> void op(int c, const char* o, std::initializer_list<std::pair<const char*, long>> args, F&& f) {
    { sched::Quiet q; pending[c][sched::me()] = true; lib::log(E("call", { { "t", sched::me() }, { "c", c } }) + ",\"o\":\"" + o + "\"" + E("", args).substr(6)); }
    auto r = f(*cl[c]);
    { sched::Quiet q; lib::log(E("ret", { { "t", sched::me() } }) + r); pending[c].erase(sched::me()); }
}
std::string st(natsStatus s) { return ",\"st\":" + std::to_string(s); }
struct Got { bool any{}; std::string reply; std::string data; };
Got next(int c, bool box, long ms) {
    Got g;
    op(c, box ? "nexti" : "next", { { "ms", ms } }, [&](client& k) -> std::string {
        auto m = ms < 0 ? (box ? k.next_inbox_msg() : k.next_msg()) : box ? k.next_inbox_msg(std::chrono::milliseconds(ms)) : k.next_msg(std::chrono::milliseconds(ms));
        if (!m) return ",\"any\":0";
        auto d = m->data(); g.any = true; g.reply = m->reply_subject(); g.data = std::string(reinterpret_cast<const char*>(d.data()), d.size());
        sched::Quiet q;
        return ",\"any\":1,\"r\":" + std::to_string(lib::subject_id(g.reply)) + ",\"d\":" + std::to_string(lib::content_id(g.data.data(), g.data.size()));
    });
    return g;
}
std::string inbox(int c) {
    std::string s;
    op(c, "inbox", {}, [&](client& k) { s = k.inbox(); sched::Quiet q; return ",\"s\":" + std::to_string(lib::subject_id(s)); });
    return s;
}
void publish(int c, const std::string& s, const std::string& d, const std::string& r) {
    long a, b, e; { sched::Quiet q; a = lib::subject_id(s); b = lib::subject_id(r); e = lib::content_id(d.data(), d.size()); }
    op(c, "pub", { { "s", a }, { "r", b }, { "d", e } }, [&](client& k) {
        std::span<const uint8_t> p(reinterpret_cast<const uint8_t*>(d.data()), d.size());
        return st(r.empty() && d.size() % 2 ? k.publish(s, p) : k.publish(s, p, r));
    });
}
void settle(int c) {
    sched::Quiet q;
    for (;;) {
        sched::block(nullptr, "others to wait", (sched::now_ms() + 1) * 1000000);
        bool ok = true;
        for (auto& [t, p] : pending[c]) ok = ok && sched::waiting(t);
        if (ok) return;
    }
}
void destroy(int c, int k) {
    if (gone[c]) return;
    gone[c] = true;
    settle(c);
    { sched::Quiet q; auto ss = lib::subjects(c); for (int i = 0; i < k && !ss.empty(); ++i) lib::spub(ss[sched::rnd() % ss.size()], "", lib::content(1 + i % 5)); }
    // no one can be inside an operation of its own of a client that has gone
    { sched::Quiet q; lib::log(E("call", { { "t", sched::me() }, { "c", c } }) + ",\"o\":\"destroy\""); }
    cl[c].reset();
    { sched::Quiet q; lib::log(E("ret", { { "t", sched::me() } })); }
}
void run(const Script& s) {
    for (auto& w : s.ops) {
        const int c = s.c; const auto& o = w[0];
        auto n = [&](int i) { return std::stol(w[i]); };
        { sched::Quiet q; if (o != "sleep" && o != "spub" && c >= 0 && gone[c]) continue; }
        if (o == "sub") op(c, "sub", { { "s", n(1) }, { "g", 0 }, { "y", n(2) } }, [&](client& k) { return st(n(2) == 0 && n(1) % 2 ? k.subscribe(sub(n(1))) : k.subscribe(sub(n(1)), n(2) == 1)); });
        else if (o == "qsub") op(c, "sub", { { "s", n(1) }, { "g", n(2) ? n(2) : -1 }, { "y", n(3) } }, [&](client& k) { return st(k.queue_subscribe(sub(n(1)), n(2) ? "g" + std::to_string(n(2)) : "", n(3) == 1)); });
        else if (o == "subject") op(c, "subject", {}, [&](client& k) { auto x = k.subject(); sched::Quiet q; return ",\"s\":" + std::to_string(lib::subject_id(x)); });
        else if (o == "newin") op(c, "newin", {}, [&](client& k) { return st(k.new_inbox()); });
        else if (o == "inbox") inbox(c);
        else if (o == "pub") { std::string d, r; { sched::Quiet q; d = lib::content(n(2)); } r = n(3) < 0 ? inbox(c) : sub(n(3)); publish(c, sub(n(1)), d, r); }
        else if (o == "next") next(c, false, n(1));
        else if (o == "nexti") next(c, true, n(1));
        else if (o == "serve") { auto g = next(c, false, n(1)); bool again; { sched::Quiet q; again = !gone[c]; } if (g.any && !g.reply.empty() && again) { int id; std::string d; { sched::Quiet q; id = lib::content_id(g.data.data(), g.data.size()); d = lib::content(id + 70); } publish(c, g.reply, d, ""); } }
        else if (o == "ask") {
            op(c, "newin", {}, [&](client& k) { return st(k.new_inbox()); });
            std::string d; { sched::Quiet q; d = lib::content(n(2)); }
            publish(c, sub(n(1)), d, inbox(c)); next(c, true, n(3));
        }
        else if (o == "fail") { sched::Quiet q; lib::fail(sched::me(), (int)n(1)); }
        else if (o == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(n(1)));
        else if (o == "spub") { sched::yield(); sched::Quiet q; lib::spub(sub(n(1)), sub(n(3)), lib::content(n(2))); }
        else if (o == "connect") { { sched::Quiet q; lib_client = c; } op(c, "connect", {}, [&](client& k) { return st(k.connect("nats://here")); }); }
        else if (o == "url") op(c, "url", {}, [&](client& k) { return std::string(k.url() == "nats://here" ? ",\"s\":1" : k.url().empty() ? ",\"s\":0" : ",\"s\":2"); });
        else if (o == "up") op(c, "up", {}, [&](client& k) { return std::string(k.is_connected() ? ",\"s\":1" : ",\"s\":0"); });
        else if (o == "destroy") destroy(c, (int)n(1));
        else throw std::runtime_error("bad operation " + o);
    }
}
Scenario parse(const std::string& line) {
    // clients | c op:a:b op ... | c op ...
    Scenario s; std::stringstream ss(line); std::string part; bool first = true;
    while (std::getline(ss, part, '|')) {
        if (first) { s.clients = std::stoi(part); first = false; continue; }
        std::stringstream ps(part); std::string w; Script t; ps >> t.c;
        while (ps >> w) { std::vector<std::string> v; std::stringstream ws(w); std::string x; while (std::getline(ws, x, ':')) v.push_back(x); t.ops.push_back(v); }
        s.threads.push_back(t);
    }
    return s;
}
std::string once(const Scenario& s, uint64_t seed) {
    lib::reset(); cl.clear(); pending.assign(s.clients, {}); gone.assign(s.clients, false);
    sched::begin(seed, stuck);
    for (int c = 0; c < s.clients; ++c) { lib_client = c; cl.push_back((seed + c) % 2 ? std::make_unique<client>("nats://here") : std::make_unique<client>()); if ((seed + c) % 2 == 0) cl.back()->connect("nats://here"); }
    { sched::Quiet q; lib::take(); }
    std::vector<std::thread> ts;
    for (auto& t : s.threads) ts.emplace_back(run, std::cref(t));
    std::this_thread::sleep_for(std::chrono::seconds(60));
    { sched::Quiet q; lib::log(E("quiet", {})); }
    for (int c = 0; c < s.clients; ++c) { bool g; { sched::Quiet q; g = gone[c]; } if (!g) destroy(c, 0); }
    for (auto& t : ts) t.join();
    lib::finish();
    sched::end();
    std::string ev;
    for (auto& e : lib::take()) ev += (ev.empty() ? "" : ",") + e;
    return ev;
}
}
extern "C" void __asan_on_error() { static bool once; if (once) return; once = true; sched::end(); stuck("memory error"); }
int main(int, char** argv)
{
    out = std::fopen(argv[4], "w");
    std::ifstream f(argv[1]); std::string line;
    const long first = std::stol(argv[2]), count = std::stol(argv[3]);
    long id = 0, runs = 0;
    while (std::getline(f, line)) {
        cur = std::to_string(id++);
        auto s = parse(line);
        std::set<std::string> seen;
        for (long i = 0; i < count; ++i) {
            cur_seed = first + i; ++runs;
            auto ev = once(s, cur_seed);
            if (seen.insert(ev).second) std::fprintf(out, "{\"scenario\":%s,\"seed\":%llu,\"ev\":[%s]}\n", cur.c_str(), (unsigned long long)cur_seed, ev.c_str());
        }
    }
    std::fprintf(out, "{\"runs\":%ld}\n", runs);
    std::fclose(out);
}
