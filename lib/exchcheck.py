"""Generated Controller and Controllee: histories of spec/GenExchange.tla carried out with the
real classes over loopback sockets and an in-process NATS server."""
import itertools, subprocess
from run import *
import exchcat, defs
import replay as rp
from sockcheck import address

CFG = 'SPECIFICATION Spec\nINVARIANTS EachAnswers AllAnswered OneExecution OwnAnswers\nCHECK_DEADLOCK FALSE\n'
KINDS = {'v': 'VX', 'x': 'VX', 's': 'S'}

class System(rp.Group):
    def prepare(self, vias):
        self.shapes_()
        j = json.load(open(self.shapef))
        ix = {s['cls']: i + 1 for i, s in enumerate(j['shapes'])}
        ack = {d['to']: d['name'] for d in self.ds if d['kind'] in ('ack', 'xack')}
        self.cmds = []
        for s in j['shapes']:
            if s['kind'] not in ('control', 'xcontrol'): continue
            a = ack.get(s['name'], '?')
            self.cmds.append(dict(cls=s['cls'], c=ix[s['cls']], vx=ix.get(a + 'VX', 0), s=ix.get(a + 'S', 0), ack=a,
                                  kinds=[k for k in 'vxs' if s['cam'][k] or k in s['camset']]))
        self.data = [s['cls'] for s in j['shapes'] if s['kind'] in ('data', 'context', 'xcontext')]
        j['cmds'] = [dict(c=c['c'], vx=c['vx'], s=c['s']) for c in self.cmds]
        j['data'] = [ix[n] for n in self.data]
        json.dump(j, open(self.shapef, 'w'))
        y = os.path.join(self.dir, self.name + '.yaml'); open(y, 'w').write(defs.render_all(self.ds))
        self.outs = {}
        for v in vias:
            out = os.path.join(self.dir, 'out_' + v); os.makedirs(out)
            rc, o = generate(y, out, self.ns, ['--cmd-socket', v])
            if rc: self.errors.append(('generate', f'{self.name} ({v})', o[-1200:]))
            else: self.outs[v] = out

def handler(c, sh, ns):
    """overrides of the handlers of one command"""
    n, sn = c['cls'], snake(c['cls'])
    has = c['vx'] or c['s']
    def make(var, suf):
        s = sh[c['ack'] + suf]
        L = [f'auto {var} = {c["ack"]}{suf}{{}};']
        for m, e in (('timing_control', 'k % 5'), ('partial_action', '(k / 2) % 2'), ('scheduled_or_executed', '(k / 4) % 2')):
            if m in s['camset']: L.append(f'{var}.{m}(static_cast<drv::bare<decltype({var}.{m}())>>({e}));')
        return ' '.join(L)
    out = []
    log = lambda h: f'const int k = note("{h}", "{n}", packet);'
    if has and 'v' in c['kinds']:
        out.append(f'auto validate_{sn}({n}& packet) -> {c["ack"]}VX override {{ {log("v")} {make("a", "VX")} return a; }}')
    x, s = 'x' in c['kinds'], has and 's' in c['kinds']
    if x and not has: out.append(f'auto execute_{sn}({n}& packet) -> void override {{ {log("x")} (void)k; }}')
    elif x and s: out.append(f'auto execute_{sn}({n}& packet) -> std::tuple<{c["ack"]}VX, {c["ack"]}S> override {{ {log("x")} {make("a", "VX")} {make("b", "S")} return {{ a, b }}; }}')
    elif x: out.append(f'auto execute_{sn}({n}& packet) -> {c["ack"]}VX override {{ {log("x")} {make("a", "VX")} return a; }}')
    elif s: out.append(f'auto execute_{sn}({n}& packet) -> {c["ack"]}S override {{ {log("x")} {make("b", "S")} return b; }}')
    return '\n    '.join(out)

def controllee(g, via):
    sh = g.shapes
    nl = '\n    '
    ctor = {'nats': 'Mine() : B("nats://here", "the.subject") {}'}.get(via, 'Mine() : B(vrtgen::socket::%s::v4::endpoint_type(ex::host, 21000)) {}' % via)
    body = {
     'udp': '''
    int peer[3] = { -1, ex::sock(SOCK_DGRAM, 21001), ex::sock(SOCK_DGRAM, 21002) };
    auto c = std::make_unique<Mine>();
    ex::slice(c->cmd_socket().native_handle(), 20);
    auto poll_all = [&] { for (int i : { 1, 2 }) { uint8_t b[65536]; ssize_t n; while ((n = recv(peer[i], b, sizeof b, MSG_DONTWAIT)) >= 0) got[i].push_back(drv::hex(drv::Bytes(b, b + n))); } };
    auto give = [&](int from, const drv::Bytes& d, const std::vector<long>&) { auto a = ex::at(21000); sendto(peer[from], d.data(), d.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a); };
    c->vrt_listen();''',
     'tcp': '''
    auto c = std::make_unique<Mine>();
    c->cmd_socket().listen();
    int peer = ex::sock(SOCK_STREAM, 0); auto a = ex::at(21000);
    if (connect(peer, reinterpret_cast<sockaddr*>(&a), sizeof a) < 0) { std::cout << "{\\"fatal\\":\\"connect\\"}\\n"; return 5; }
    c->cmd_socket().accept();
    ex::slice(c->cmd_socket().native_handle(), 20);
    auto poll_all = [&] { uint8_t b[65536]; ssize_t n; while ((n = recv(peer, b, sizeof b, MSG_DONTWAIT)) > 0) { if (got[1].empty()) got[1].push_back(""); got[1][0] += drv::hex(drv::Bytes(b, b + n)); } };
    auto give = [&](int, const drv::Bytes& d, const std::vector<long>& segs) { ex::stream(peer, d, segs); };
    c->vrt_listen();''',
     'nats': '''
    std::mutex pm;
    fake::on_publish = [&](const std::string& s, const std::string& r, const drv::Bytes& d) { std::lock_guard<std::mutex> l(pm); got[s == "reply.1" ? 1 : s == "reply.2" ? 2 : 0].push_back(drv::hex(d) + (r.empty() ? "" : "+" + r)); };
    auto c = std::make_unique<Mine>();
    auto poll_all = [] {};
    auto give = [&](int from, const drv::Bytes& d, const std::vector<long>&) { fake::deliver("the.subject", from ? "reply." + std::to_string(from) : "", d); };
    c->vrt_listen();''' }[via]
    count = {'tcp': '(got[1].empty() ? 0 : (long)got[1][0].size() / 2)', 'nats': '([&] { std::lock_guard<std::mutex> l(pm); return (long)(got[0].size() + got[1].size() + got[2].size()); }())',
             'udp': '(long)(got[1].size() + got[2].size())'}[via]
    return f'''{'#include "fakenats.hpp"' if via == 'nats' else ''}
#include "exch.hpp"
#include <Controllee_base.hpp>
using namespace {g.ns}::packets;
static std::mutex lm; static std::vector<std::string> calls;
template <class P> int note(const char* h, const char* cls, P& p) {{
    auto d = p.data(); std::lock_guard<std::mutex> l(lm);
    calls.push_back("[" + ex::q(h) + "," + ex::q(cls) + "," + ex::q(drv::hex(d)) + "]");
    return static_cast<int>(calls.size());
}}
using B = {g.ns}::controllee::Controllee_base;
struct Mine : B {{
    {ctor}
    ~Mine() override {{ vrt_stop(); }}
    {nl.join(handler(c, sh, g.ns) for c in g.cmds)}
}};
int main(int argc, char** argv)
{{
    ex::host = argv[1];
    std::vector<std::string> got[3];
    long ncalls = 0, nacks = 0;
    {body}
    std::string line;
    auto settle = [&] {{ return ex::until([&] {{ poll_all(); std::lock_guard<std::mutex> l(lm); return (long)calls.size() >= ncalls && {count} >= nacks; }}); }};
    while (std::getline(std::cin, line)) {{
        auto w = ex::words(line);
        if (w[0] == "msg") {{
            give(std::stoi(w[1]), ex::unhex(w[2]), drv::ints(w[3]));
            ncalls += std::stol(w[4]); nacks += std::stol(w[5]);
            if (w[6] == "1" && !settle()) break;
        }} else if (w[0] == "end") break;
    }}
    settle(); ex::nap(30000); poll_all();
    c.reset();
    poll_all();
    std::vector<std::string> o;
    for (auto& g : got) {{ std::vector<std::string> x; for (auto& s : g) x.push_back(ex::q(s)); o.push_back(ex::arr(x)); }}
    std::cout << "{{\\"calls\\":" << ex::arr(calls) << ",\\"got\\":" << ex::arr(o) << "}}\\n" << std::flush;
    std::_Exit(0);
}}
'''

def controller(g, via):
    cter = next((g.shapes[c['cls']]['cter'] for c in g.cmds), '')
    calls = []
    for c in g.cmds:
        sn = snake(c['cls'])
        has = c['vx'] or c['s']
        if not has or not c['kinds']:
            calls.append(f'if (cls == "{c["cls"]}") {{ {c["cls"]} p(std::span<const uint8_t>(b.data(), b.size())); ctl->send_{sn}(p); }}')
        else:
            outs = ' '.join(f'if (auto& a = std::get<{i}>(r)) {{ auto d = a->data(); out.push_back("[" + ex::q("{k}") + "," + ex::q(drv::hex(d)) + "]"); }}' for i, k in enumerate(c['kinds']))
            calls.append(f'if (cls == "{c["cls"]}") {{ {c["cls"]} p(std::span<const uint8_t>(b.data(), b.size())); auto r = ctl->send_{sn}(p); static_assert(std::tuple_size_v<decltype(r)> == {len(c["kinds"])}); {outs} }}')
    nl = '\n            '
    setup = {
     'udp': '''int fd = ex::sock(SOCK_DGRAM, 22001); ex::slice(fd, 50);
    auto ctl = std::make_unique<Controller>(vrtgen::socket::udp::v4::endpoint_type(ex::host, 22000));
    ctl->controllee_endpoint(vrtgen::socket::udp::v4::endpoint_type(ex::host, 22001));
    auto peer = [&](const std::vector<drv::Bytes>& rs, const drv::Bytes&, bool, const std::vector<long>&) {
        uint8_t buf[65536]; sockaddr_in a{}; socklen_t l = sizeof a; ssize_t n = -1;
        for (int i = 0; i < 100 && n < 0 && !stop; ++i) n = recvfrom(fd, buf, sizeof buf, 0, reinterpret_cast<sockaddr*>(&a), &l);
        if (n < 0) return;
        seen.push_back(ex::q(drv::hex(drv::Bytes(buf, buf + n))));
        for (auto& r : rs) sendto(fd, r.data(), r.size(), 0, reinterpret_cast<sockaddr*>(&a), l);
    };
    auto more = [&] { uint8_t buf[65536]; ssize_t n; while ((n = recv(fd, buf, sizeof buf, MSG_DONTWAIT)) >= 0) seen.push_back(ex::q(drv::hex(drv::Bytes(buf, buf + n)))); };''',
     'tcp': '''int ls = ex::sock(SOCK_STREAM, 22001); listen(ls, 4);
    auto ctl = std::make_unique<Controller>(vrtgen::socket::tcp::v4::endpoint_type(ex::host, 22000));
    ctl->controllee_endpoint(vrtgen::socket::tcp::v4::endpoint_type(ex::host, 22001));
    int fd = accept(ls, nullptr, nullptr); ex::slice(fd, 50); { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    auto peer = [&](const std::vector<drv::Bytes>& rs, const drv::Bytes& part, bool cl, const std::vector<long>& segs) {
        drv::Bytes cmd; uint8_t buf[65536];
        for (int i = 0; i < 100 && !stop; ++i) {
            if (cmd.size() >= 4 && cmd.size() >= 4u * (cmd[2] * 256u + cmd[3])) break;
            ssize_t n = recv(fd, buf, sizeof buf, 0);
            if (n > 0) cmd.insert(cmd.end(), buf, buf + n); else if (n == 0) return;
        }
        seen.push_back(ex::q(drv::hex(cmd)));
        drv::Bytes all; for (auto& r : rs) all.insert(all.end(), r.begin(), r.end());
        if (!all.empty()) ex::stream(fd, all, segs);
        if (!part.empty()) { ex::nap(1000); send(fd, part.data(), part.size(), MSG_NOSIGNAL); }
        if (cl) { ex::nap(1000); shutdown(fd, SHUT_WR); }
    };
    auto more = [&] { uint8_t buf[65536]; ssize_t n; while ((n = recv(fd, buf, sizeof buf, MSG_DONTWAIT)) > 0) seen.push_back(ex::q(drv::hex(drv::Bytes(buf, buf + n)))); };''',
     'nats': '''std::mutex pm; std::vector<std::pair<std::string, drv::Bytes>> sent; std::string strange;
    fake::on_publish = [&](const std::string& s, const std::string& r, const drv::Bytes& d) { std::lock_guard<std::mutex> l(pm); if (s == "to.peer") sent.push_back({ r, d }); else strange = s; };
    auto ctl = std::make_unique<Controller>("nats://here");
    ctl->controllee_endpoint("to.peer");
    auto peer = [&](const std::vector<drv::Bytes>& rs, const drv::Bytes&, bool, const std::vector<long>&) {
        std::pair<std::string, drv::Bytes> m; bool have = false;
        ex::until([&] { std::lock_guard<std::mutex> l(pm); if (!sent.empty()) { m = sent.front(); sent.erase(sent.begin()); have = true; } return have || stop; });
        if (!have) return;
        seen.push_back(ex::q(drv::hex(m.second)));
        ex::nap(300);
        for (auto& r : rs) fake::deliver(m.first, "", r);
    };
    auto more = [&] { std::lock_guard<std::mutex> l(pm); for (auto& m : sent) seen.push_back(ex::q(drv::hex(m.second))); sent.clear(); };''' }[via]
    return f'''{'#include "fakenats.hpp"' if via == 'nats' else ''}
#include "exch.hpp"
#include <Controller.hpp>
using namespace {g.ns}::packets; using {g.ns}::Controller;
int main(int argc, char** argv)
{{
    ex::host = argv[1];
    std::vector<std::string> seen; std::atomic_bool stop{{ false }};
    {setup}
    std::string line;
    while (std::getline(std::cin, line)) {{
        auto w = ex::words(line);
        if (w[0] == "id") {{ {f'ctl->controller_id(drv::from_raw<drv::bare<decltype(ctl->controller_id())>>(drv::bytes(w[1]), -1));' if cter else ''} std::cout << "{{}}\\n" << std::flush; continue; }}
        if (w[0] != "call") break;
        const auto cls = w[1]; const auto b = ex::unhex(w[2]);
        stop = false; seen.clear();
        std::thread t([&] {{ peer(ex::list(w[3]), ex::unhex(w[4]), w[5] == "1", drv::ints(w[6])); }});
        std::vector<std::string> out; std::string err; bool ok = true;
        const auto t0 = ex::Clock::now();
        try {{
            {nl.join(calls)}
        }} catch (const std::exception& e) {{ ok = false; err = e.what(); }}
        const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(ex::Clock::now() - t0).count();
        if (ok) ex::nap(500); else ex::nap(2000);
        t.join(); stop = true; more();
        std::cout << "{{\\"ok\\":" << (ok ? "true" : "false") << ",\\"acks\\":" << ex::arr(out) << ",\\"ms\\":" << ms << ",\\"seen\\":" << ex::arr(seen) << "}}\\n" << std::flush;
    }}
    ctl.reset();
    std::cout << "{{\\"end\\":1}}\\n" << std::flush;
    std::_Exit(0);
}}
'''

def receiver(g, via):
    reg, snd = [], []
    for n in g.data:
        sn = snake(n)
        reg.append(f'''if (cls == "{n}") {{ if (tag == 0) ctl->register_{sn}_listener(std::function<void({n}&)>{{}});
            else ctl->register_{sn}_listener([tag]({n}& p) {{ auto d = p.data(); note(tag, "{n}", drv::hex(d)); if (tag < 0) {{ live->disable_receive(); allowed = false; }} ++total; }}); return; }}''')
        snd.append(f'if (cls == "{n}") {{ {n} p(std::span<const uint8_t>(b.data(), b.size())); ctl->send_{sn}(p); return; }}')
    nl = '\n    '
    ctor = 'std::make_unique<Controller>("nats://here")' if via == 'nats' else f'std::make_unique<Controller>(vrtgen::socket::{via}::v4::endpoint_type(ex::host, 23009))'
    return f'''{'#include "fakenats.hpp"' if via == 'nats' else ''}
#include "exch.hpp"
#include <Controller.hpp>
using namespace {g.ns}::packets; using {g.ns}::Controller;
using ep = vrtgen::socket::udp::v4::endpoint_type;
static std::mutex lm; static std::vector<std::string> calls; static std::atomic<long> total{{ 0 }};
static std::atomic_bool allowed{{ false }}; static Controller* live = nullptr;
static void note(long tag, const char* cls, const std::string& h) {{
    std::lock_guard<std::mutex> l(lm);
    calls.push_back("[" + std::to_string(allowed ? tag : 77777) + "," + ex::q(cls) + "," + ex::q(h) + "]");
}}
static std::unique_ptr<Controller> ctl;
static void listener(const std::string& cls, long tag) {{
    {nl.join(reg)}
}}
static void sendit(const std::string& cls, const drv::Bytes& b) {{
    {nl.join(snd)}
}}
static void renew() {{
    ctl.reset(); allowed = false;
    ctl = {ctor}; live = ctl.get();
    ctl->data_ctxt_src_endpoint(ep(ex::host, 23000));
    ctl->data_ctxt_dst_endpoint(ep(ex::host, 23001));
    ex::slice(ctl->data_ctxt_recv_socket().native_handle(), 20);
    listener("Flush", 9999);
}}
int main(int argc, char** argv)
{{
    ex::host = argv[1];
    int fd = ex::sock(SOCK_DGRAM, 23001); ex::slice(fd, 3000);
    int out = ex::sock(SOCK_DGRAM, 0); auto to = ex::at(23000); connect(out, reinterpret_cast<sockaddr*>(&to), sizeof to);
    renew();
    std::string line; long want = 0; unsigned salt = 1;
    while (std::getline(std::cin, line)) {{
        auto w = ex::words(line);
        if (w[0] == "end") break;
        const long n = std::stol(w[1]);
        std::string sent;
        {{ std::lock_guard<std::mutex> l(lm); calls.clear(); }}
        if (w[0] == "register") listener(w[3], std::stol(w[2]));
        else if (w[0] == "enable") {{ allowed = true; ctl->enable_receive(); }}
        else if (w[0] == "disable") {{ ctl->disable_receive(); allowed = false; }}
        else if (w[0] == "renew") renew();
        else if (w[0] == "arrive") for (auto& b : ex::list(w[2])) send(out, b.data(), b.size(), 0);
        else if (w[0] == "send") {{
            sendit(w[2], ex::unhex(w[3]));
            uint8_t b[65536]; ssize_t k = recv(fd, b, sizeof b, 0);
            if (k >= 0) sent = drv::hex(drv::Bytes(b, b + k));
            if (recv(fd, b, sizeof b, MSG_DONTWAIT) >= 0) sent += "+";
        }}
        else if (w[0] == "storm") {{
            auto ds = ex::list(w[4]);
            allowed = true; ctl->enable_receive();
            std::thread t([&] {{ for (auto& b : ds) {{ send(out, b.data(), b.size(), 0); ex::nap(100 + salt * 7919 % 700); }} }});
            auto pause = [&] {{ salt = salt * 1103515245u + 12345u; ex::nap(salt / 65536 % 4000); }};
            for (int i = std::stoi(w[2]); i > 0; --i) {{ pause(); ctl->disable_receive(); allowed = false; pause(); allowed = true; ctl->enable_receive(); }}
            if (w[3] == "1") {{ pause(); renew(); }}
            t.join();
            if (w[3] == "1") {{ ex::nap(3000); renew(); want = total; }}
        }}
        if (w[0] == "storm" && w[3] == "1") want = total; else want += n;
        ex::until([&] {{ return total >= want; }});
        if (w[0] == "arrive" && !n) ex::nap(2000);
        std::lock_guard<std::mutex> l(lm);
        std::cout << "{{\\"calls\\":" << ex::arr(calls) << ",\\"sent\\":" << ex::q(sent) << "}}\\n" << std::flush;
    }}
    ctl.reset();
    std::cout << "{{\\"end\\":1}}\\n" << std::flush;
    std::_Exit(0);
}}
'''
DRIVER = dict(controllee=controllee, controller=controller, receiver=receiver)

def hx(b): return ''.join('%02x' % x for x in b) or '-'
def hxs(bs): return ','.join(hx(b) if b else '.' for b in bs) or '-'
def nums(v): return ','.join(map(str, v)) or '-'

def script(role, via, H):
    L = []
    for r in H[1:]:
        o = r['o']
        if o == 'msg':
            nb = sum(len(a) for a in r['acks']) if via == 'tcp' else len(r['acks'])
            L.append(f'msg {r["from"]} {hx(r["data"])} {nums(r["segs"])} {len(r["calls"])} {nb} {r["sync"]}')
        elif o == 'id': L.append('id ' + nums(r['v']))
        elif o == 'call': L.append(f'call {r["cls"]} {hx(r["give"])} {hxs(r["replies"])} {hx(r["part"])} {int(r["close"])} {nums(r["segs"])}')
        elif o == 'register': L.append(f'register 0 {r["tag"]} {r["cls"]}')
        elif o == 'arrive': L.append(f'arrive {len(r["calls"])} {hxs(r["data"])}')
        elif o == 'send': L.append(f'send 0 {r["cls"]} {hx(r["data"])}')
        elif o == 'storm': L.append(f'storm {len(r["calls"])} {r["turns"]} {int(r["destroy"])} {hxs(r["data"])}')
        else: L.append(f'{o} {len(r["calls"])}')
    return L + ['end']

def first_diff(e, g):
    for i, (a, b) in enumerate(itertools.zip_longest(e, g)):
        if a != b: return i, a, b

def judge(role, via, H, A):
    """[(category, step, text)]"""
    bad = []
    if role == 'controllee':
        if not A: return [('hang', len(H) - 1, 'the controllee gave no account of itself')]
        a = A[0]; steps = H[1:]
        ec, es = [], []
        for i, r in enumerate(steps, 1):
            for c in r['calls']: ec.append([c['h'], c['cls'], hx(c['data'])]); es.append(i)
        d = first_diff(ec, a['calls'])
        if d:
            i, e, g = d
            step = es[i] if i < len(es) else len(H) - 1
            what = {'v': 'validation', 'x': 'execution'}
            nm = lambda c: 'no handler call' if c is None else f'{what[c[0]]} of {c[1]} {c[2][:160]}'
            bad.append(('handler', step, f'handler call {i + 1}: {nm(g)} instead of {nm(e)}'))
        for p in ((1,) if via == 'tcp' else (0, 1, 2)):
            ea, es = [], []
            for i, r in enumerate(steps, 1):
                if r['from'] != p and not (via == 'tcp' and p == 1): continue
                for x in r['acks']: ea.append(hx(x)); es.append(i)
            if via == 'tcp':
                e, g = ''.join(ea), ''.join(a['got'][p])
                if e != g:
                    at = next((k for k, (x, y) in enumerate(itertools.zip_longest(e, g)) if x != y), 0)
                    n = 0; step = len(H) - 1
                    for s, x in zip(es, ea):
                        n += len(x)
                        if at < n: step = s; break
                    bad.append(('answer', step, f'answers differ from byte {at // 2} on: {g[max(0, at - 40):at + 80]} instead of {e[max(0, at - 40):at + 80]}'))
            else:
                d = first_diff(ea, a['got'][p])
                if d: bad.append(('answer', es[d[0]] if d[0] < len(es) else len(H) - 1, f'answer {d[0] + 1}: {d[2]} instead of {d[1]}'))
        return bad[:1] if bad else []
    for i, r in enumerate(H[1:], 1):
        if i > len(A): return [('hang', i, f'no return from {r["o"]} ({r.get("cls", "")})')]
        a = A[i - 1]
        if r['o'] == 'call':
            if a['seen'] != [hx(r['wire'])]:
                return [('command', i, f'{r["cls"]} went out as {a["seen"]} instead of {hx(r["wire"])}')]
            if a['ok'] != r['ok']:
                return [('result', i, f'sending {r["cls"]} {"succeeded with " + str(a["acks"]) if a["ok"] else "failed"} where it must {"succeed" if r["ok"] else "fail"}; wanted {"".join(r["want"]) or "nothing"}, replies {hxs(r["replies"])[:400]}')]
            if a['ok'] and a['acks'] != [[k, hx(x)] for k, x in zip(r['want'], r['acks'])]:
                return [('result', i, f'sending {r["cls"]} returned {a["acks"]} instead of {[[k, hx(x)] for k, x in zip(r["want"], r["acks"])]}')]
        elif 'calls' in r:
            e = [[c['tag'], c['cls'], hx(c['data'])] for c in r['calls']]
            g = a['calls']
            if any(c[0] == 77777 for c in g): return [('late', i, f'{r["o"]}: a listener was called while receiving was off or the object gone')]
            if r['o'] == 'storm' and r['destroy']:
                if g != e[:len(g)]: return [('listener', i, f'storm: calls {g[:6]} do not begin {e[:6]}')]
            elif g != e:
                d = first_diff(e, g)
                return [('listener', i, f'{r["o"]}: listener call {d[0] + 1} is {d[2]} instead of {d[1]}')]
            if r['o'] == 'send' and a['sent'] != hx(r['data']): return [('sent', i, f'{r["cls"]} went out as {a["sent"]} instead of {hx(r["data"])}')]
    return []

def replay(exe, role, via, H):
    inp = '\n'.join(script(role, via, H)) + '\n'
    try:
        p = subprocess.run([exe, address()], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=RUNENV, timeout=60)
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:
        out, rc, err = (x.stdout or b'').decode(), -1, 'hang'
    A = [json.loads(l) for l in out.splitlines() if l.startswith('{')]
    if rc == 5 and A and 'fatal' in A[-1]: raise Fail('cannot set up ' + str(A[-1]))
    if rc and err != 'hang':
        k = min(len(A) + 1, len(H) - 1)
        bad = judge(role, via, H[:k], A) if role != 'controllee' else []
        return bad or [('crash', k, f'died (status {rc}): ' + next((l for l in err.splitlines() if 'ERROR' in l or 'terminate' in l or 'what()' in l), err[-300:]))]
    return judge(role, via, H, A)

def run(rep, role, full, num, depth, vias=('udp', 'tcp', 'nats'), jobs=1):
    with Scratch() as sc:
        gs = [System(sc, n, ds) for n, ds in exchcat.systems(full).items()]
        pmap(lambda g: g.prepare(vias), gs)
        todo = []
        for g in gs:
            for v in vias:
                if v not in g.outs: continue
                if role == 'receiver' and v != vias[gs.index(g) % len(vias)] and not full: continue
                todo.append((g, v))
        # histories and objects at the same time
        work = []
        for g, v in todo:
            for j in range(jobs): work.append(('hist', g, v, SEED * 100 + j))
            work.append(('drv', g, v, None))
        for g in gs:
            v = next(iter(g.outs), None)
            if v:
                for n in {s['name'] for s in g.shapes.values()}: work.append(('obj', g, v, n))
        work.sort(key=lambda w: ('drv', 'hist', 'obj').index(w[0]))
        objs, drvs, hists, errs = {}, {}, {}, []
        def do(w):
            kind, g, v, x = w
            if kind == 'hist':
                rc, o = tlc(sc, 'GenExchange', CFG, env=dict(SHAPES=g.shapef, ROLE=role, VIA=v), args=['-simulate', f'num={num}', '-depth', depth, '-seed', x])
                if rc: raise Fail('GenExchange: ' + tlc_error(o))
                H = []
                for r in prints(o):
                    if r['o'] == 'start': H.append([r])
                    else: H[-1].append(r)
                hists[g.name, v, x] = H
            else:
                src = sc.path('src', f'{g.name}_{v}_{x or role}.cpp'); obj = src[:-4] + '.o'
                if kind == 'drv': open(src, 'w').write(DRIVER[role](g, v))
                else: src = os.path.join(g.outs[v], snake(x) + '.cpp')
                rc, o = cxx(['-c', src], obj, [g.outs[v]])
                if rc: errs.append((g.name, v, x or role, o[:1200]))
                elif kind == 'drv': drvs[g.name, v] = obj
                else: objs.setdefault(g.name, []).append(obj)
        pmap(do, work)
        for g in gs:
            for kind, n, t in g.errors: rep.add(f'{kind}:{n}', f'{n}: {kind} fails: {t}', dict(check='exchange', system=g.name))
        for n, v, x, o in errs: rep.add(f'compile:{n}:{v}:{x}', f'{n} ({v}): {x} does not compile: {o}', dict(check='exchange', system=n))
        exes = {}
        def link(k):
            exe = sc.path('bin', '_'.join(k))
            rc, o = cxx([drvs[k], *objs.get(k[0], [])], exe, [], extra=['-lpthread'] + (['-lnats'] if k[1] == 'nats' else []))
            if rc: rep.add(f'link:{k[0]}:{k[1]}', f'{k}: does not link: {o[:600]}', dict(check='exchange', system=k[0]))
            else: exes[k] = exe
        if not errs: pmap(link, list(drvs))
        runs = [(exes[k[0], k[1]], k[1], H) for k, Hs in hists.items() if (k[0], k[1]) in exes for H in Hs if len(H) > 1]
        failed = []
        def one(a):
            if len(failed) >= 24: return []
            b = replay(a[0], role, a[1], a[2])
            if b: failed.append(a)
            return b
        res = pmap(one, runs, 48 if role == 'controller' else 24)
        again = 0
        for (exe, via, H), bad in zip(runs, res):
            if bad and again < 3:       # seen again in one of twelve repetitions, so that no accident of this run is reported
                again += 1
                bad = next((b for b in pmap(lambda a: replay(*a), [(exe, role, via, H)] * 12, 12) if b), [])
            for cat, k, text in bad:
                rep.add(f'{role}:{cat}', f'{role} over {via}: {text}', dict(check='exchange', role=role, via=via, history=H))
        steps = sum(len(h) - 1 for _, _, h in runs)
        rep.count(states=steps + len(runs), transitions=steps, traces_validated_against_impl=len(runs))
        if runs:
            for h in (runs[0][2], runs[-1][2]): rep.sample(script(role, 'udp', h)[:5])
        rep.assumptions += ['the Linux loopback interface delivers datagrams in order and without loss',
                            'the NATS library is replaced by an in-process stand-in that delivers in order']
