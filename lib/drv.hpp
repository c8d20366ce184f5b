// Text-driven replay of specification behaviours into a generated packet class.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <vrtgen/vrtgen.hpp>

namespace drv {
// converts to whatever a setter takes; only used to ask whether there is one
struct Any { template <class T> operator T() const; };
using Bytes = std::vector<uint8_t>;
using Val = std::map<std::string, std::string>;   // member -> "1,2,3" | "-" | "1,2;3,4"

inline std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
    r.push_back(cur);
    return r;
}
inline std::vector<long> ints(const std::string& s) {
    std::vector<long> r;
    if (s == "-" || s.empty()) return r;
    for (auto& x : split(s, ',')) r.push_back(std::stol(x));
    return r;
}
inline Bytes bytes(const std::string& s) { Bytes b; for (auto x : ints(s)) b.push_back(static_cast<uint8_t>(x)); return b; }
inline std::vector<std::string> items(const std::string& s) { if (s == "-" || s.empty()) return {}; return split(s, ';'); }

template <class T> struct strip { using type = T; };
template <class T> struct strip<std::optional<T>> { using type = T; };
template <class T> using bare = typename strip<std::remove_cv_t<std::remove_reference_t<T>>>::type;

// two's complement / unsigned big-endian bytes
inline __int128 be(const Bytes& b, bool sgn) {
    __int128 v = (sgn && !b.empty() && (b[0] & 0x80)) ? -1 : 0;
    for (auto x : b) v = v * 256 + x;
    return v;
}
template <class T> T from_int(__int128 v) {
    if constexpr (std::is_same_v<T, bool>) return v != 0;
    else return static_cast<T>(static_cast<long long>(v));
}
template <class T> T from_raw(const Bytes& b, int rx) {
    if constexpr (std::is_same_v<T, vrtgen::UUID>) {
        static const char* d = "0123456789abcdef";
        std::string s;
        for (size_t i = 0; i < b.size(); ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) s += '-'; s += d[b[i] >> 4]; s += d[b[i] & 15]; }
        return vrtgen::UUID(s);
    } else if constexpr (std::is_floating_point_v<T>) {
        // radix 100 + rx: unsigned
        long double v = static_cast<long double>(static_cast<long long>(be(b, rx < 100)));
        return static_cast<T>(std::ldexp(v, rx < 0 ? 0 : -(rx % 100)));
    } else if constexpr (std::is_enum_v<T>) return static_cast<T>(static_cast<long long>(be(b, false)));
    else return static_cast<T>(static_cast<unsigned long long>(be(b, false)));
}
inline std::string js(const Bytes& b) {
    std::string s = "[";
    for (size_t i = 0; i < b.size(); ++i) { if (i) s += ','; s += std::to_string(b[i]); }
    return s + "]";
}
template <class T> std::string to_raw(const T& v, size_t n, int rx) {
    Bytes b(n, 0);
    if constexpr (std::is_same_v<T, vrtgen::UUID>) {
        std::string h; for (char c : v.get()) if (c != '-') h += c;
        for (size_t i = 0; i < n; ++i) b[i] = static_cast<uint8_t>(std::stoul(h.substr(2 * i, 2), nullptr, 16));
        return js(b);
    } else {
        __int128 x;
        if constexpr (std::is_floating_point_v<T>) {
            long double s = std::ldexp(static_cast<long double>(v), rx < 0 ? 0 : rx % 100);
            if (!(std::fabs(s) < 9.3e18L) || s != std::floor(s)) return "\"inexact\"";
            const long double lim = std::ldexp(1.0L, static_cast<int>(8 * n) - (rx < 100 ? 1 : 0));
            if (s >= lim || s < (rx < 100 ? -lim : 0.0L)) return "\"out of range " + std::to_string(static_cast<double>(v)) + "\"";
            x = static_cast<long long>(s);
        } else x = static_cast<__int128>(static_cast<long long>(v));
        for (size_t i = 0; i < n; ++i) { b[n - 1 - i] = static_cast<uint8_t>(x & 0xFF); x >>= 8; }
        return js(b);
    }
}
template <class T> std::string num(const std::optional<T>& v);
template <class T> std::string num(const T& v) { return "[" + std::to_string(static_cast<long long>(v)) + "]"; }
template <class T> std::string num(const std::optional<T>& v) { return v ? num(*v) : std::string("[]"); }

struct Out {
    std::string s; bool first = true;
    void raw(const std::string& k, const std::string& v) { s += first ? "" : ","; first = false; s += "\"" + k + "\":" + v; }
    std::string str() const { return "{" + s + "}"; }
};
inline std::string hex(std::span<const uint8_t> d) {
    static const char* x = "0123456789abcdef"; std::string s;
    for (auto b : d) { s += x[b >> 4]; s += x[b & 15]; }
    return s;
}

struct Line { std::string op, key; Val v; };
inline Line parse(const std::string& l) {
    Line r; auto t = split(l, ' ');
    r.op = t[0]; if (t.size() > 1) r.key = t[1];
    for (size_t i = 2; i < t.size(); ++i) { auto p = t[i].find('='); r.v[t[i].substr(0, p)] = t[i].substr(p + 1); }
    return r;
}
} // namespace drv

// one member of a packed word: set, or clear when the value is "-"
#define SETW(o, m, v) do { auto _i = drv::ints((v).at(#m)); if (!_i.empty()) (o).m(drv::from_int<drv::bare<decltype((o).m())>>(_i[0])); } while (0)
#define SETP(o, m, v) do { auto _i = drv::ints((v).at(#m)); if (!_i.empty()) (o).m(drv::from_int<drv::bare<decltype((o).m())>>(_i[0])); else (o).reset_##m(); } while (0)
#define SETR(o, m, v, rx) (o).m(drv::from_raw<drv::bare<decltype((o).m())>>(drv::bytes((v).at(#m)), rx))
#define SETL(o, m, v) do { std::remove_cv_t<std::remove_reference_t<decltype((o).m())>> _l; \
    for (auto& _s : drv::items((v).at(#m))) _l.push_back(static_cast<typename decltype(_l)::value_type>(drv::be(drv::bytes(_s), false))); (o).m(_l); } while (0)
#define GETW(out, o, m) (out).raw(#m, drv::num((o).m()))
#define GETR(out, o, m, n, rx) (out).raw(#m, drv::to_raw((o).m(), n, rx))
#define GETL(out, o, m, n) do { std::string _s = "["; bool _f = true; for (auto _e : (o).m()) { _s += _f ? "" : ","; _f = false; \
    _s += drv::to_raw(_e, n, -1); } (out).raw(#m, _s + "]"); } while (0)
