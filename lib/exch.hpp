// Common parts of the drivers for the generated Controller and Controllee.
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <fstream>
#include <functional>
#include <mutex>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include "drv.hpp"
namespace ex {
using drv::Bytes;
using Clock = std::chrono::steady_clock;
inline void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
inline Bytes unhex(const std::string& s) {
    Bytes b;
    if (s == "-") return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return b;
}
inline std::vector<Bytes> list(const std::string& s) {
    std::vector<Bytes> r;
    if (s == "-") return r;
    for (auto& x : drv::split(s, ',')) r.push_back(unhex(x == "." ? "" : x));
    return r;
}
template <class T> bool until(T&& done, int ms = 5000) {
    auto end = Clock::now() + std::chrono::milliseconds(ms);
    while (!done()) { if (Clock::now() > end) return false; nap(200); }
    return true;
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }
inline std::string arr(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
    return r + "]";
}
inline std::string host;
inline sockaddr_in at(int port) {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(static_cast<uint16_t>(port));
    inet_pton(AF_INET, host.c_str(), &a.sin_addr);
    return a;
}
inline void slice(int fd, int ms) {
    timeval tv{ ms / 1000, (ms % 1000) * 1000 };
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
}
inline int sock(int type, int port) {
    int fd = socket(AF_INET, type, 0); int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (type == SOCK_STREAM) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    auto a = at(port);
    if (port && bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) < 0) { std::cout << "{\"fatal\":\"bind\"}\n"; std::exit(5); }
    return fd;
}
// sends a stream in the given pieces
inline void stream(int fd, const Bytes& b, const std::vector<long>& segs) {
    size_t at = 0;
    for (auto n : segs) {
        if (at) nap(1500);
        send(fd, b.data() + at, std::min<size_t>(n, b.size() - at), MSG_NOSIGNAL); at += n;
    }
    if (at < b.size()) send(fd, b.data() + at, b.size() - at, MSG_NOSIGNAL);
}
// one line of a script: words
inline std::vector<std::string> words(const std::string& l) { return drv::split(l, ' '); }
}
