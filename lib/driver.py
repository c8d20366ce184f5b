"""Generates the C++ replay driver of one packet class from the shape that
spec/Defs.tla derives for it. Only the public interface of the class is used."""

SCALAR = {'u32', 'i32', 'u64', 'i64', 'id16', 'fx16r7', 'fx16r6', 'fx32r6', 'fx64r20', 'uuid'}

def parts(ty, types):
    return ty['parts'] if ty['t'] == 'user' else types[ty['t']]

def members(ps):
    """(kind, part, member) of every member in a format"""
    for p in ps:
        if p['k'] == 'w':
            for m in p['ms']:
                yield ('p' if m['en'] >= 0 else 'w', p, m)
        elif p['k'] in 'rl':
            yield (p['k'], p, p)

NORESET = {'sample_frame', 'associated_context_packets_count'}

def set_code(o, ps, ref, only=None, cond=''):
    L = []
    for k, p, m in members(ps):
        n = m['m']
        if k == 'w': s = f'SETW({o}, {n}, v);'
        elif k == 'p': s = f"{'SETP' if ref and n not in NORESET else 'SETW'}({o}, {n}, v);"
        elif k == 'r': s = f"SETR({o}, {n}, v, {p['rx']});"
        else: s = f'SETL({o}, {n}, v);'
        L.append(s)
    return ' '.join(L)

def post_code(o, ty):
    t = ty['t']
    if t == 'ContextAssociationLists':
        return f' {o}.async_channel_tag_list_enable(!{o}.async_channel_tag_list().empty());'
    return ''

def get_code(o, ps, out='r'):
    L = []
    for k, p, m in members(ps):
        n = m['m']
        if k in 'wp': L.append(f'GETW({out}, {o}, {n});')
        elif k == 'r': L.append(f"GETR({out}, {o}, {n}, {p['n']}, {p['rx']});")
        else: L.append(f"GETL({out}, {o}, {n}, {p['n']});")
    return ' '.join(L)

def attributes(sh, f, types, A, G):
    """operations and observation of the attributes of a field"""
    k = f['k']
    O = []
    for a in sh['at7']:
        n, ty = a['k'], dict(t=a['t']) if a['t'] else f['ty']
        ps = parts(ty, types)
        if ty['t'] in SCALAR:
            r = [p for p in ps if p['k'] == 'r'][0]
            how = f'a.{n}(drv::from_raw<drv::bare<decltype(a.{n}())>>(drv::bytes(v.at("v")), {r["rx"]}));'
            O.append(f'x.raw("{n}", "{{\\"v\\":" + drv::to_raw(a.{n}(), {r["n"]}, {r["rx"]}) + "}}");')
        else:
            how = f'drv::bare<decltype(a.{n}())> o{{}}; {set_code("o", ps, False)}{post_code("o", ty)} a.{n}(o);'
            O.append(f'{{ auto& o = a.{n}(); drv::Out r; {get_code("o", ps)} x.raw("{n}", r.str()); }}')
        pre = '' if f['req'] else f'if (!p.{k}_attributes().has_value()) p.{k}_attributes().emplace(); '
        A.append(f'if (op == "attr" && k == "{k}:{n}") {{ {pre}auto& a = {"" if f["req"] else "*"}p.{k}_attributes(); {how} return; }}')
    if O:
        guard = '' if f['req'] else f'if (p.{k}_attributes().has_value()) '
        G.append(f'{guard}{{ auto& a = {"" if f["req"] else "*"}p.{k}_attributes(); drv::Out x; {" ".join(O)} av.raw("{k}", x.str()); }}')

def driver(sh, types, ns, hdr):
    """C++ source text"""
    A = []   # op cases
    G = []   # observation
    cls = f'{ns}::packets::{sh["cls"]}' if ns else '::' + sh['cls']
    for f in sh['fields']:
        k, ty = f['k'], f['ty']
        if sh['query']:
            A.append(f'if (op == "enable" && k == "{k}") {{ p.{k}_enabled(drv::ints(v.at("v")).at(0) != 0); return; }}')
            if not f['req']:
                A.append(f'if (op == "reset" && k == "{k}") {{ p.reset_{k}(); return; }}')
            G.append(f'if (p.{k}_enabled()) fv.raw("{k}", "{{}}");')
            continue
        ps = parts(ty, types)
        attributes(sh, f, types, A, G)
        if not f['req']:
            A.append(f'if (op == "reset" && k == "{k}") {{ p.reset_{k}(); return; }}')
        if ty['t'] in SCALAR:
            r = [p for p in ps if p['k'] == 'r'][0]
            A.append(f'if (op == "set" && k == "{k}") {{ p.{k}(drv::from_raw<drv::bare<decltype(p.{k}())>>(drv::bytes(v.at("v")), {r["rx"]})); return; }}')
            if f['req']:
                G.append(f'fv.raw("{k}", "{{\\"v\\":" + drv::to_raw(p.{k}(), {r["n"]}, {r["rx"]}) + "}}");')
            else:
                G.append(f'if (auto x = p.{k}()) fv.raw("{k}", "{{\\"v\\":" + drv::to_raw(*x, {r["n"]}, {r["rx"]}) + "}}");')
        else:
            ref = f'p.{k}()' if f['req'] else f'(*p.{k}())'
            A.append(f'if (op == "set" && k == "{k}") {{ drv::bare<decltype(p.{k}())> o{{}}; {set_code("o", ps, False)}{post_code("o", ty)} p.{k}(o); return; }}')
            A.append(f'if (op == "mod" && k == "{k}") {{ auto& o = {ref}; {set_code("o", ps, True)}{post_code("o", ty)} return; }}')
            if not f['req']:
                A.append(f'if (op == "drop" && k == "{k}") {{ p.{k}().reset();{" p.data();" if sh["has7"] else ""} return; }}')
            guard = '' if f['req'] else f'if (p.{k}().has_value()) '
            G.append(f'{guard}{{ auto& o = {ref}; drv::Out r; {get_code("o", ps)} fv.raw("{k}", r.str()); }}')
    one = lambda: 'drv::ints(v.at("v")).at(0)'
    A.append(f'if (op == "cnt") {{ p.packet_count(static_cast<uint8_t>({one()})); return; }}')
    G.append('o.raw("cnt", std::to_string(p.packet_count()));')
    if sh['hascls']:
        A.append(f'if (op == "pad") {{ p.pad_bits(static_cast<uint8_t>({one()})); return; }}')
        G.append('o.raw("pad", std::to_string(p.class_id().pad_bits()));')
        G.append('o.raw("info", std::to_string(p.class_id().information_code()));')
        if sh['icmulti']:
            A.append(f'if (op == "info") {{ p.information_code(static_cast<uint16_t>({one()})); return; }}')
    if sh['sid'] == 'word':
        A.append('if (op == "sid") { p.stream_id(drv::from_raw<uint32_t>(drv::bytes(v.at("v")), -1)); return; }')
        G.append('o.raw("sid", drv::to_raw(p.stream_id(), 4, -1));')
    elif sh['sid'] == 'user':
        A.append(f'if (op == "sid") {{ auto& o = p.stream_id(); {set_code("o", sh["sidty"]["parts"], True)} return; }}')
        G.append(f'{{ auto& s = p.stream_id(); drv::Out r; {get_code("s", sh["sidty"]["parts"])} o.raw("sid", r.str()); }}')
    for nm, has, n, acc in (('its', 'its', 4, 'integer_timestamp'), ('fts', 'fts', 8, 'fractional_timestamp')):
        if sh[has]:
            A.append(f'if (op == "{nm}") {{ p.{acc}(drv::from_raw<drv::bare<decltype(p.{acc}())>>(drv::bytes(v.at("v")), -1)); return; }}')
            G.append(f'o.raw("{nm}", drv::to_raw(p.{acc}(), {n}, -1));')
    for nm, on, any_ in (('tsi', sh['its'], sh['tsiany']), ('tsf', sh['fts'], sh['tsfany']), ('tsm', sh['ptype'] in (4, 5), sh['tsmany'])):
        if any_:
            A.append(f'if (op == "{nm}") {{ p.{nm}(static_cast<drv::bare<decltype(p.header().{nm}())>>({one()})); return; }}')
        if on:
            G.append(f'o.raw("{nm}", std::to_string(static_cast<int>(p.header().{nm}())));')
    if sh['command']:
        A.append('if (op == "mid") { p.message_id(drv::from_raw<uint32_t>(drv::bytes(v.at("v")), -1)); return; }')
        G.append('o.raw("mid", drv::to_raw(p.message_id(), 4, -1));')
        ack = sh['kind'] in ('ack', 'xack')
        for c in sh['camset']:
            acc = (('ack_' if ack else 'req_') + c) if c in ('v', 'x', 's') else c
            A.append(f'if (op == "cam" && k == "{c}") {{ p.{acc}(static_cast<drv::bare<decltype(p.{acc}())>>({one()})); return; }}')
            G.append(f'camx.raw("{c}", std::to_string(static_cast<int>(p.{acc}())));')
        for c in sh['cam']:
            if c in ('partial_action', 'scheduled_or_executed') and not ack:
                continue
            acc = (('ack_' if ack else 'req_') + c) if c in ('v', 'x', 's', 'w', 'er') else c
            G.append(f'cam.raw("{c}", std::to_string(static_cast<int>(p.cam().{acc}())));')
        G.append('o.raw("cam", cam.str());')
        G.append('o.raw("camx", camx.str());')
        for nm, fmt, acc in (('ctee', sh['ctee'], 'controllee_id'), ('cter', sh['cter'], 'controller_id')):
            if fmt:
                A.append(f'if (op == "{nm}") {{ p.{acc}(drv::from_raw<drv::bare<decltype(p.{acc}())>>(drv::bytes(v.at("v")), -1)); return; }}')
                G.append(f'o.raw("{nm}", drv::to_raw(p.{acc}(), {4 if fmt == "word" else 16}, -1));')
    if sh['has0'] and not sh['vx'] and not sh['query']:
        A.append(f'if (op == "ci") {{ p.change_indicator({one()} != 0); return; }}')
        G.append('o.raw("ci", std::to_string(static_cast<int>(p.change_indicator())));')
    if sh['vx']:
        gs = {f['g'] for f in sh['fields']}
        for base, nm in ((0, 'wif'), (3, 'eif')):
            mine = [g for g in gs if base < g <= base + 3]
            for g in sorted(set(mine) | ({base + 1} if mine else set())):
                w = f'{nm}_{g - base - 1}'
                A.append(f'if (op == "resetword" && k == "{w}") {{ p.reset_{w}(); return; }}')
    else:
        for g, w in (('g1', 'cif_1'), ('g2', 'cif_2')):
            if sh[g] == 'dyn':
                A.append(f'if (op == "resetword" && k == "{w}") {{ p.reset_{w}(); return; }}')
    if sh['data']:
        A.append('if (op == "pay") { auto b = drv::bytes(v.at("v")); p.payload(std::span<const uint8_t>(b)); return; }')
        G.append('{ auto s = p.payload(); o.raw("pay", drv::js(drv::Bytes(s.begin(), s.end()))); o.raw("paysize", std::to_string(p.payload_size())); }')
    if sh['trailer']:
        ps = sh['trty']['parts']
        for kk, p_, m in members(ps):
            n = m['m']
            A.append(f'if (op == "tr" && k == "{n}") {{ auto& o = p.trailer(); drv::Val w{{{{"{n}", v.at("v")}}}}; '
                     f'{"SETW" if n in NORESET else "SETP"}(o, {n}, w); return; }}')
        G.append(f'{{ auto& t = p.trailer(); drv::Out r; {get_code("t", ps)} o.raw("tr", r.str()); }}')
    nl = '\n    '
    # members the definition does not allow for
    C = []
    for k, expr in (('get', 'q.{}()'), ('set', 'q.{}(drv::Any{{}})'), ('reset', 'q.reset_{}()')):
        for n in sh['closed'][k]:
            C.append(f'if constexpr (requires(Q& q) {{ {expr.format(n)}; }}) std::cout << "A {k} {n}\\n";')
    return f'''#include "{hdr}"
#include "drv.hpp"
using P = {cls};
static void apply(P& p, const std::string& op, [[maybe_unused]] const std::string& k, [[maybe_unused]] const drv::Val& v)
{{
    {nl.join(A)}
    throw std::runtime_error("driver: unknown operation " + op + " " + k);
}}
static std::string observe([[maybe_unused]] P& p)
{{
    drv::Out o, fv, av, cam, camx;
    {nl.join(G)}
    o.raw("fv", fv.str());
    o.raw("av", av.str());
    return o.str();
}}
template <class Q> static void offered()
{{
    {nl.join(C)}
    std::cout << "A -\\n";
}}
static void data(P& p, const char* tag)
{{
    auto d = p.data();
    std::cout << tag << " " << drv::hex(d) << " " << p.size() << " " << p.header().packet_size() << "\\n";
}}
int main()
{{
    auto p = std::make_unique<P>();
    std::string line;
    while (std::getline(std::cin, line)) {{
        if (line.empty()) continue;
        auto l = drv::parse(line);
        try {{
            if (l.op == "new") p = std::make_unique<P>();
            else if (l.op == "api") offered<P>();
            else if (l.op == "data") data(*p, "D");
            else if (l.op == "obs") {{ {'p->data(); ' if sh['vx'] or sh['has7'] else ''}std::cout << "O " << observe(*p) << "\\n"; }}
            else if (l.op == "match" || l.op == "load" || l.op == "probe") {{
                drv::Bytes b;
                for (size_t i = 0; i + 1 < l.key.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoul(l.key.substr(i, 2), nullptr, 16)));
                auto h = std::make_unique<uint8_t[]>(b.size());
                std::copy(b.begin(), b.end(), h.get());
                std::span<const uint8_t> s(h.get(), b.size());
                if (l.op == "probe") {{
                    // recognition; when recognised, decode and read everything
                    if (P::match(s)) std::cout << "P 0\\n";
                    else try {{
                        auto q = std::make_unique<P>(s);
                        h.reset();
                        q->data(); observe(*q); q->data();
                        std::cout << "P 1\\n";
                    }} catch (const std::exception&) {{ std::cout << "P 2\\n"; }}
                }}
                else if (l.op == "match") std::cout << "M " << (P::match(s) ? 0 : 1) << "\\n";
                else {{ p.reset(); p = std::make_unique<P>(s); h.reset(); data(*p, "R"); std::cout << "O " << observe(*p) << "\\n"; }}
            }} else if (l.op == "rebuild") {{
                auto d = p->data();
                auto h = std::make_unique<uint8_t[]>(d.size());
                std::copy(d.begin(), d.end(), h.get());
                std::span<const uint8_t> s(h.get(), d.size());
                auto m = P::match(s);
                std::cout << "M " << (m ? 0 : 1) << (m ? " " + *m : std::string()) << "\\n";
                data(*p, "D");
                auto q = std::make_unique<P>(s);
                h.reset(); p = std::move(q);
                data(*p, "R");
                std::cout << "O " << observe(*p) << "\\n";
            }} else apply(*p, l.op, l.key, l.v);
        }} catch (const std::exception& e) {{
            std::cout << "E " << e.what() << "\\n" << std::flush;
            return 3;
        }}
        std::cout << std::flush;
    }}
    return 0;
}}
'''
