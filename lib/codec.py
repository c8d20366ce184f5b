"""Replays behaviours of spec/Codec.tla into the header library's word and field classes."""
import collections
from run import *
from replay import lit, as_map, words, run_driver, hexs
NORESET = {'sample_frame', 'associated_context_packets_count'}
MAIN = r'''
#include "codec.hpp"
int main()
{
    std::unique_ptr<Obj> p; std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        auto l = drv::parse(line);
        try {
            if (l.op == "new") p = registry().at(l.key)();
            else if (l.op == "load") {
                auto b = unhex(l.key);
                auto h = std::make_unique<uint8_t[]>(b.size());
                std::copy(b.begin(), b.end(), h.get());
                p->load(h.get());
            }
            else if (l.op == "sweep") { p->sweep(l.key, std::stoll(l.v.at("lo")), std::stoll(l.v.at("hi")), std::stoll(l.v.at("step")), std::stoi(l.v.at("q"))); continue; }
            else p->apply(l.op, l.key, l.v);
            std::cout << p->bytes() << "\n" << p->obs() << "\n" << std::flush;
        } catch (const std::exception& e) { std::cout << "E " << e.what() << "\n" << std::flush; return 3; }
    }
}
'''
HDR = r'''
#pragma once
#include "drv.hpp"
#include <functional>
struct Obj {
    virtual ~Obj() = default;
    virtual void apply(const std::string&, const std::string&, const drv::Val&) = 0;
    virtual void load(const uint8_t*) = 0;
    virtual std::string bytes() = 0;
    virtual std::string obs() = 0;
    virtual void sweep(const std::string&, long long, long long, long long, int) = 0;
};
inline std::map<std::string, std::function<std::unique_ptr<Obj>()>>& registry() { static std::map<std::string, std::function<std::unique_ptr<Obj>()>> m; return m; }
// a sector record of eight bytes, and the sub-field indicators under the names of the specification
struct Rec8 {
    uint64_t v = 0;
    Rec8() = default;
    explicit Rec8(uint64_t x) : v(x) {}
    explicit operator long long() const { return static_cast<long long>(v); }
    std::size_t size() const { return 8; }
    void pack_into(uint8_t* p) const { for (int i = 0; i < 8; ++i) p[i] = static_cast<uint8_t>(v >> (56 - 8 * i)); }
    void unpack_from(const uint8_t* p) { v = 0; for (int i = 0; i < 8; ++i) v = (v << 8) | p[i]; }
};
struct Sss : vrtgen::packing::SectorStepScan<Rec8> {
    bool cif_sector_number() const { return subfield_cif().sector_number(); }
    void cif_sector_number(bool x) { subfield_cif().sector_number(x); }
    bool cif_f1_start_frequency() const { return subfield_cif().f1_start_frequency(); }
    void cif_f1_start_frequency(bool x) { subfield_cif().f1_start_frequency(x); }
    bool cif_f2_stop_frequency() const { return subfield_cif().f2_stop_frequency(); }
    void cif_f2_stop_frequency(bool x) { subfield_cif().f2_stop_frequency(x); }
    bool cif_resolution_bandwidth() const { return subfield_cif().resolution_bandwidth(); }
    void cif_resolution_bandwidth(bool x) { subfield_cif().resolution_bandwidth(x); }
    bool cif_tune_step_size() const { return subfield_cif().tune_step_size(); }
    void cif_tune_step_size(bool x) { subfield_cif().tune_step_size(x); }
    bool cif_number_points() const { return subfield_cif().number_points(); }
    void cif_number_points(bool x) { subfield_cif().number_points(x); }
    bool cif_default_gain() const { return subfield_cif().default_gain(); }
    void cif_default_gain(bool x) { subfield_cif().default_gain(x); }
    bool cif_threshold() const { return subfield_cif().threshold(); }
    void cif_threshold(bool x) { subfield_cif().threshold(x); }
    bool cif_dwell_time() const { return subfield_cif().dwell_time(); }
    void cif_dwell_time(bool x) { subfield_cif().dwell_time(x); }
    bool cif_start_time() const { return subfield_cif().start_time(); }
    void cif_start_time(bool x) { subfield_cif().start_time(x); }
    bool cif_time_3() const { return subfield_cif().time_3(); }
    void cif_time_3(bool x) { subfield_cif().time_3(x); }
    bool cif_time_4() const { return subfield_cif().time_4(); }
    void cif_time_4(bool x) { subfield_cif().time_4(x); }
};
inline drv::Bytes unhex(const std::string& s) { drv::Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16))); return b; }
template <class T> std::string packed(const T& o) {
    auto h = std::make_unique<uint8_t[]>(o.size());
    std::memset(h.get(), 0xA5, o.size());
    o.pack_into(h.get());
    return "B " + drv::hex({h.get(), o.size()}) + " " + std::to_string(o.size());
}
// a quantity with rx fraction bits written as (raw + q/4) / 2^rx for raw in lo..hi: maximal runs of
// "the encoded integer is raw + d" and of "the value read back is the encoded integer"
struct Runs {
    long long from = 0, to = 0, d = 0; bool any = false; std::string s;
    void flush() { if (any) s += (s.empty() ? "" : ",") + std::string("[") + std::to_string(from) + "," + std::to_string(to) + "," + std::to_string(d) + "]"; }
    void add(long long x, long long delta) { if (any && delta == d) { to = x; return; } flush(); any = true; from = to = x; d = delta; }
};
template <class T, class Set, class Get> void sweep_(T& o, size_t off, size_t n, int rx, Set set, Get get, long long lo, long long hi, long long step, int q) {
    Runs enc, dec; std::vector<uint8_t> buf(o.size());
    for (long long r = lo; ; r += step) {
        if (r > hi) r = hi;
        set(o, std::ldexp(static_cast<double>(r) + q * 0.25, -(rx % 100)));
        o.pack_into(buf.data());
        long long e = (buf[off] & 0x80) && rx < 100 ? -1 : 0;
        for (size_t i = 0; i < n; ++i) e = static_cast<long long>((static_cast<unsigned long long>(e) << 8) | buf[off + i]);
        enc.add(r, e - r);
        double back = std::ldexp(static_cast<double>(get(o)), rx % 100);
        dec.add(r, back == std::floor(back) ? static_cast<long long>(back) - e : 99);
        if (r == hi) break;
    }
    enc.flush(); dec.flush();
    std::cout << "S {\"enc\":[" << enc.s << "],\"dec\":[" << dec.s << "]}\n" << std::flush;
}
'''

def class_code(c):
    A, G, S = [], [], []
    al = []
    for m in c['ms']:
        k, n = m['k'], m['m']
        if k in 'wp':
            s = f'SETW(o, {n}, v);'; g = f'GETW(r, o, {n});'
            w = f'if (op == "set" && k == "{n}") {{ drv::Val v{{{{"{n}", a.at("v")}}}}; {s} return; }}'
            A.append(w)
            if k == 'p' and n not in NORESET:
                A.append(f'if (op == "reset" && k == "{n}") {{ o.reset_{n}(); return; }}')
        elif k == 'r':
            s = f'SETR(o, {n}, v, {m["rx"]});'; g = f'GETR(r, o, {n}, {m["n"]}, {m["rx"]});'
            A.append(f'if (op == "set" && k == "{n}") {{ drv::Val v{{{{"{n}", a.at("v")}}}}; {s} return; }}')
            if m['rx'] >= 0:
                A.append(f'if (op == "near" && k == "{n}") {{ o.{n}(std::ldexp(static_cast<double>(static_cast<long long>(drv::be(drv::bytes(a.at("v")), {"true" if m["rx"] < 100 else "false"}))) + std::stoi(a.at("q")) * 0.25, -{m["rx"] % 100})); return; }}')
                S.append(f'if (k == "{n}") {{ sweep_(o, {m["off"]}, {m["n"]}, {m["rx"]}, [](T& x, double d) {{ x.{n}(d); }}, [](const T& x) {{ return x.{n}(); }}, lo, hi, step, q); return; }}')
        else:
            s = f'SETL(o, {n}, v);'; g = f'GETL(r, o, {n}, {m["n"]});'
        al.append(s); G.append(g)
    if c['t'] == 'ContextAssociationLists': al.append('o.async_channel_tag_list_enable(!o.async_channel_tag_list().empty());')
    if c['t'] in ('GPS_ASCII', 'ContextAssociationLists', 'IndexList8', 'IndexList16', 'IndexList32', 'sss'):
        A.append(f'if (op == "all") {{ auto& v = a; {" ".join(al)} return; }}')
    if c['ind']: G.append('r.raw("*any", o.any() ? "1" : "0"); r.raw("*none", o.none() ? "1" : "0");')
    nl = '\n        '
    return f'''
namespace {{
struct C_{c["name"]} : Obj {{
    using T = {"Sss" if c["t"] == "sss" else c["cxx"]};
    T o{{}};
    void apply(const std::string& op, const std::string& k, const drv::Val& a) override {{
        {nl.join(A)}
        throw std::runtime_error("driver: " + op + " " + k);
    }}
    void load(const uint8_t* p) override {{ o.unpack_from(p); }}
    std::string bytes() override {{ return packed(o); }}
    std::string obs() override {{ drv::Out r; {" ".join(G)} return "O " + r.str(); }}
    void sweep(const std::string& k, long long lo, long long hi, long long step, int q) override {{
        {nl.join(S)}
        throw std::runtime_error("driver: sweep " + k);
    }}
}};
const int r_{c["name"]} = (registry()["{c["name"]}"] = [] {{ return std::make_unique<C_{c["name"]}>(); }}, 0);
}}
'''

def table(sc):
    f = sc.path('codec', 'table.json')
    rc, o = tlc(sc, 'CodecOut', '', env=dict(OUT=f))
    if rc or not os.path.exists(f): raise Fail('CodecOut: ' + tlc_error(o))
    return json.load(open(f))

def build(sc, cs, asan=True, opt='-O0'):
    """(executable, {class: compiler error}); a class that does not compile is left out"""
    d = sc.dir('codec', 'src' + opt)
    open(os.path.join(d, 'codec.hpp'), 'w').write(HDR)
    open(os.path.join(d, 'main.cpp'), 'w').write(MAIN)
    sh = [cs[i::NCPU * 2] for i in range(NCPU * 2)]
    errs = {}
    def comp(i):
        def go(group, tag):
            src = os.path.join(d, f's{tag}.cpp'); obj = src[:-4] + '.o'
            open(src, 'w').write('#include "codec.hpp"\n' + ''.join(class_code(c) for c in group))
            rc, o = cxx(['-c', src], obj, [d], extra=[opt], asan=asan)
            if rc == 0: return [obj]
            if len(group) == 1:
                errs[group[0]['name']] = o[:1500]; return []
            return [x for j, c in enumerate(group) for x in go([c], f'{tag}_{j}')]
        return go(sh[i], str(i)) if sh[i] else []
    objs = [x for l in pmap(comp, range(len(sh))) for x in l]
    exe = os.path.join(d, 'codec')
    rc, o = cxx([os.path.join(d, 'main.cpp'), *objs], exe, [d], asan=asan)
    if rc: raise Fail('codec driver: ' + o[:1500])
    return exe, errs

INV = 'SPECIFICATION Spec\nINVARIANTS RoundTrip PairRule\nPROPERTY WriteIsLocal\nCHECK_DEADLOCK FALSE\n'

def behaviours(sc, seed, num, depth, only='all'):
    rc, o = tlc(sc, 'Codec', INV, env=dict(ONLY=only), args=['-simulate', f'num={num}', '-depth', depth, '-seed', seed])
    if rc: raise Fail('Codec: ' + tlc_error(o))
    out = []
    for r in prints(o):
        if r['o'] == 'start': out.append((r['cls'], [r]))
        else: out[-1][1].append(r)
    return out

def systematic(sc, part, parts):
    rc, o = tlc(sc, 'Codec', 'SPECIFICATION XSpec\nINVARIANTS RoundTrip PairRule\nCHECK_DEADLOCK FALSE\n', env=dict(PART=str(part), PARTS=str(parts)))
    if rc: raise Fail('Codec: ' + tlc_error(o))
    out = collections.OrderedDict()
    for r in prints(o):
        out.setdefault(r['cls'], []).append(r)
    # split into behaviours of one object each
    R = []
    for c, rs in out.items():
        for i in range(0, len(rs), 100):
            R.append((c, [dict(o='start', cls=c)] + rs[i:i + 100]))
    return R

def line(r):
    o = r['o']
    if o == 'start': return f'new {r["cls"]}'
    if o == 'load': return f'load {hexs(r["v"])}'
    if o == 'all': return 'all - ' + ' '.join(f'{m}={lit(x)}' for m, x in as_map(r['v']).items())
    if o == 'near': return f'near {r["k"]} v={lit(r["v"])} q={r["q"]}'
    return f'{o} {r["k"]} v={lit(r["v"])}'

def obs_diff(exp, got, bytes_):
    exp = words(dict(as_map(exp))); bad = []
    for k, g in got.items():
        if k == '*any': e = int(any(bytes_))
        elif k == '*none': e = int(not any(bytes_))
        else: e = exp[k]
        if k == 'ascii_sentences': g = words({k: g})[k]
        if e != g: bad.append((k, e, g))
    return bad

def replay(exe, cls, recs):
    """mismatches [(category, member, step, expected, got)] of the first step that has any"""
    lines = [line(r) for r in recs]
    rc, out, err = run_driver(exe, lines)
    it = iter(out)
    for i, r in enumerate(recs):
        try:
            b = next(it); o = next(it)
            if not b.startswith('B ') or not o.startswith('O '): raise StopIteration
        except StopIteration:
            why = next((l for l in err.splitlines() if 'ERROR' in l or 'ssert' in l), err[-200:]) or (out[-1] if out else '')
            return [('crash', r.get('k', '-'), i, 'completes', f'rc={rc} {why}'[:300])], lines
        if 'data' not in r: continue
        hx, size = b.split(' ')[1:]
        if r['o'] == 'near':
            if hx not in (hexs(r['one']), hexs(r['two'])):
                return [('near', r['k'], i, f'{hexs(r["one"])} or {hexs(r["two"])}', hx)], lines
            continue
        bad = []
        if hx != hexs(r['data']): bad.append(('bytes', r.get('k', '-'), i, hexs(r['data']), hx))
        if int(size) * 2 != len(hexs(r['data'])): bad.append(('size', '-', i, len(r['data']), size))
        bad += [('obs', k, i, e, g) for k, e, g in obs_diff(r['obs'], json.loads(o[2:]), r['data'])]
        if bad:
            return [(c, k, i, e, g) for c, k, i, e, g in bad], lines
    return [], lines
