// Replays histories of spec/Transport.tla into the socket wrappers.  Each line is an
// operation; each answer is one line of JSON.
#include <vrtgen/socket.hpp>
#include <chrono>
#include <cstdint>
#include <dirent.h>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace so = vrtgen::socket;
using uep4 = so::endpoint::udp::v4; using uep6 = so::endpoint::udp::v6;
using Clock = std::chrono::steady_clock;

static std::string host;
static std::vector<uint8_t> pattern(long tag, size_t from, size_t n) {
    std::vector<uint8_t> b(n);
    for (size_t k = 0; k < n; ++k) { size_t x = from + k; b[k] = static_cast<uint8_t>(tag * 37 + x * 7 + x / 251); }
    return b;
}
static unsigned long hash(const uint8_t* p, size_t n) {
    unsigned long h = 5381;
    for (size_t i = 0; i < n; ++i) h = (h * 33 + p[i]) & 0xffffffff;
    return h;
}
static std::string me(int fd) {
    sockaddr_storage a{}; socklen_t l = sizeof a;
    if (fd < 0 || getsockname(fd, (sockaddr*)&a, &l) < 0) return "";
    char t[64]; bool v4 = a.ss_family == AF_INET;
    inet_ntop(a.ss_family, v4 ? (void*)&((sockaddr_in&)a).sin_addr : (void*)&((sockaddr_in6&)a).sin6_addr, t, sizeof t);
    return std::string(t) + ":" + std::to_string(ntohs(v4 ? ((sockaddr_in&)a).sin_port : ((sockaddr_in6&)a).sin6_port));
}
static void wait_ms(int fd, long ms) {
    if (ms <= 0) return;
    timeval tv{ ms / 1000, (ms % 1000) * 1000 };
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
}
static int fds() {
    int n = 0; auto d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d); return n;
}

template <class E, int AF, size_t N> void ep_op(std::unique_ptr<E>& e, const std::string& o, const std::string& t, int port) {
    bool thr = false;
    try {
        if (o == "default") e = std::make_unique<E>();
        else if (o == "port_ctor") e = std::make_unique<E>(static_cast<in_port_t>(port));
        else if (o == "ctor") e = std::make_unique<E>(t, static_cast<in_port_t>(port));
        else if (o == "address") e->address(t);
        else if (o == "port") e->port(static_cast<in_port_t>(port));
    } catch (const std::runtime_error&) { thr = true; }
    const E& c = *e;
    auto dump = [&](const E& x) {
        std::string s = "[";
        auto p = reinterpret_cast<const uint8_t*>(&x.address());
        for (size_t i = 0; i < N; ++i) s += (i ? "," : "") + std::to_string(p[i]);
        return s + "]";
    };
    // what the text stands for: everything up to the last colon is the address
    auto txt = c.to_string(); auto k = txt.rfind(':');
    uint8_t raw[N] = {}; bool ok = k != std::string::npos && inet_pton(AF, txt.substr(0, k).c_str(), raw) == 1;
    std::string ts = "[";
    for (size_t i = 0; i < N; ++i) ts += (i ? "," : "") + std::to_string(raw[i]);
    E copy = c;
    std::cout << "{\"throws\":" << (thr ? "true" : "false") << ",\"addr\":" << dump(c) << ",\"eport\":" << c.port()
              << ",\"copy\":" << dump(copy) << ",\"cport\":" << copy.port()
              << ",\"taddr\":" << (ok ? ts + "]" : std::string("[]")) << ",\"tport\":\"" << (k == std::string::npos ? "" : txt.substr(k + 1)) << "\""
              << ",\"family\":" << reinterpret_cast<const ::sockaddr*>(&c.sockaddr())->sa_family << ",\"len\":" << c.socklen() << "}" << std::endl;
}

template <class udp, class tcp, bool V6> int main_() {
    using uep = typename udp::endpoint_type; using tep = typename tcp::endpoint_type;
    auto named = [](long p) { return uep(host, static_cast<in_port_t>(20000 + p)); };
    std::map<long, std::unique_ptr<udp>> u; std::map<long, uep> last; std::map<long, long> from, inc; std::map<long, uep> autos;
    std::unique_ptr<tcp> L; std::map<long, std::unique_ptr<tcp>> C;
    std::unique_ptr<uep4> e; std::unique_ptr<uep6> e6;
    int base = fds();
    std::string line;
    auto t0 = Clock::now();
    auto ms = [&] { return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count(); };
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string o; in >> o;
        auto num = [&] { long v = 0; in >> v; return v; };
        t0 = Clock::now();
        auto ok = [&](bool b) { std::cout << "{\"ok\":" << (b ? "true" : "false"); };
        try {
        if (o == "start") { e = std::make_unique<uep4>(); e6 = std::make_unique<uep6>(); std::cout << "{}" << std::endl; }
        else if (o == "ep" || o == "ep6") {
            std::string op, t; int port; in >> op >> port; std::getline(in, t); t = t.size() > 2 ? t.substr(2, t.size() - 3) : "";   // quoted
            if (o == "ep") ep_op<uep4, AF_INET, 4>(e, op, t, port); else ep_op<uep6, AF_INET6, 16>(e6, op, t, port);
        }
        else if (o == "uopen") { auto s = num(), g = num(), w = num(); u[s] = std::make_unique<udp>(); inc[s] = g; from.erase(s); wait_ms(u[s]->native_handle(), w);
            std::cout << "{\"open\":" << (u[s]->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "uclose") { auto s = num(); u[s]->close(); std::cout << "{\"open\":" << (u[s]->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "udel") { u.erase(num()); std::cout << "{}" << std::endl; }
        else if (o == "ubind") { auto s = num(), p = num(); ok(u[s]->bind(named(p))); std::cout << ",\"src\":\"" << u[s]->src().to_string() << "\"}" << std::endl; }
        else if (o == "utimeout") { auto s = num(); u[s]->timeout(num()); std::cout << "{}" << std::endl; }
        else if (o == "usend") {
            auto s = num(), to = num(), len = num(), tag = num(), via = num();
            uep d = from.count(s) && from[s] == to ? last[s] : to < 100 ? named(to) : autos[to];
            auto b = pattern(tag, 0, len);
            ssize_t r;
            if (via) { u[s]->dst(d); r = u[s]->send_to(b.data(), b.size(), u[s]->dst()); } else r = u[s]->send_to(b.data(), b.size(), d);
            auto m = me(u[s]->native_handle());
            if (!m.empty()) autos[100 + inc[s]] = uep(V6 ? "::ffff:127.0.0.1" : "127.0.0.1", static_cast<in_port_t>(std::stoi(m.substr(m.rfind(':') + 1))));
            std::cout << "{\"ret\":" << r << ",\"me\":\"" << m << "\",\"dst\":\"" << u[s]->dst().to_string() << "\"}" << std::endl;
        }
        else if (o == "urecv") {
            auto s = num(), n = num(), f = num();
            std::vector<uint8_t> b(n);
            uep x(V6 ? "::9" : "9.9.9.9", 9);
            auto r = u[s]->receive_from(b.data(), b.size(), x);
            auto t = ms();
            if (r >= 0) { last[s] = x; from[s] = f; }
            std::cout << "{\"ret\":" << r << ",\"hash\":" << (r > 0 && r <= n ? hash(b.data(), r) : 5381) << ",\"from\":\"" << x.to_string() << "\",\"t\":" << t << "}" << std::endl;
        }
        else if (o == "lopen") { L = std::make_unique<tcp>(); wait_ms(L->native_handle(), num()); std::cout << "{\"open\":" << (L->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "lclose") { L->close(); std::cout << "{\"open\":" << (L->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "ldel") { L.reset(); std::cout << "{\"open\":false}" << std::endl; }
        else if (o == "lbind") { auto p = num(); ok(L->bind(tep(host, static_cast<in_port_t>(20000 + p)))); std::cout << ",\"src\":\"" << L->src().to_string() << "\"}" << std::endl; }
        else if (o == "llisten") { ok(L->listen()); std::cout << "}" << std::endl; }
        else if (o == "laccept") { bool r = L->accept(); auto t = ms(); ok(r); std::cout << ",\"dst\":\"" << L->dst().to_string() << "\",\"t\":" << t << "}" << std::endl; }
        else if (o == "ltimeout") { L->timeout(num()); std::cout << "{}" << std::endl; }
        else if (o == "copen") { auto s = num(); C[s] = std::make_unique<tcp>(); wait_ms(C[s]->native_handle(), num()); std::cout << "{\"open\":" << (C[s]->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "cclose") { auto s = num(); C[s]->close(); std::cout << "{\"open\":" << (C[s]->is_open() ? "true" : "false") << "}" << std::endl; }
        else if (o == "cdel") { C.erase(num()); std::cout << "{\"open\":false}" << std::endl; }
        else if (o == "cconnect") { auto s = num(), p = num(); bool r = C[s]->connect(tep(host, static_cast<in_port_t>(20000 + p))); ok(r);
            std::cout << ",\"dst\":\"" << C[s]->dst().to_string() << "\",\"me\":\"" << me(C[s]->native_handle()) << "\"}" << std::endl; }
        else if (o == "cshutdown") { auto s = num(); C[s]->shutdown(num()); std::cout << "{}" << std::endl; }
        else if (o == "twrite") {
            auto side = num(), s = num(), len = num(), tag = num();
            auto b = pattern(tag, 0, len);
            auto& x = side == 1 ? *C[s] : *L;
            std::cout << "{\"ret\":" << x.write_some(b.data(), b.size()) << "}" << std::endl;
        }
        else if (o == "tread") {
            auto side = num(), s = num(), want = num(), over = num();
            auto& x = side == 1 ? *C[s] : *L;
            std::vector<uint8_t> all; long r = 0, tot = 0; bool sane = true;
            do {
                size_t n = want == 0 ? 64 : want - tot + over;
                std::vector<uint8_t> b(n);
                r = x.read_some(b.data(), n);
                if (r > static_cast<long>(n)) sane = false;
                if (r > 0 && sane) { all.insert(all.end(), b.begin(), b.begin() + r); tot += r; }
            } while (r > 0 && sane && tot < want);
            std::cout << "{\"ret\":" << (tot > 0 ? tot : r) << ",\"end\":" << r << ",\"hash\":" << hash(all.data(), all.size()) << ",\"sane\":" << (sane ? "true" : "false") << ",\"t\":" << ms() << "}" << std::endl;
        }
        else if (o == "end") { u.clear(); C.clear(); L.reset(); autos.clear(); last.clear(); from.clear(); std::cout << "{\"leak\":" << fds() - base << "}" << std::endl; }
        else std::cout << "{\"error\":\"" << o << "\"}" << std::endl;
        } catch (const std::exception& x) { std::cout << "{\"error\":\"exception\"}" << std::endl; }
    }
    return 0;
}
int main(int, char** argv) {
    host = argv[1];
    return std::string(argv[2]) == "6" ? main_<so::udp::v6, so::tcp::v6, true>() : main_<so::udp::v4, so::tcp::v4, false>();
}
