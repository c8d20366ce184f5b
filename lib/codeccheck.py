"""Checks of the word and field formats: behaviours of spec/Codec.tla replayed into the
header library, and sweeps of fixed-point members judged by spec/Sweep.tla."""
import collections
from run import *
import codec, catalog, replay

PAIRS = {'StateEventIndicators', 'Trailer'}
MAXI = dict((n, (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)) for n in (2, 4, 8))

def relevant(pid, c, cat, m):
    """does this mismatch, in class c at member m, break the property?"""
    info = {x['m']: x for x in c['ms']}
    mem = info.get(m)
    if pid == 'C04':
        if c['t'] in ('', 'StateEventIndicators', 'Trailer'): return True
        return mem is None and m.startswith('*') or mem is not None and mem['k'] in 'wp'
    if pid == 'C06': return c['name'] in PAIRS
    if pid == 'C07': return c['t'] not in ('', 'Trailer')
    if pid == 'C08': return cat == 'near' or mem is not None and mem['rx'] >= 0

def sweeps(sc, rep, cs, exe, full):
    """[(record)] of every fixed-point member, from the real code"""
    jobs = []
    def ranges(n, rx):
        lo, hi = MAXI[n] if rx < 100 else (0, (1 << 8 * n) - 1)
        if n == 2: return [(lo, hi, 1)]
        if n == 4:
            w = 40000 if not full else 3000000
            return [(lo, lo + w, 1), (-w, w, 1), (hi - w, hi, 1), (lo, hi, 104729 if not full else 1009)]
        hi, lo = (1 << 50) - 1, -(1 << 50)
        w = 20000 if not full else 1000000
        R = [(-w, w, 1), (lo, hi, (hi - lo) // (20011 if not full else 2000003))]
        for e in (31, 32, 40, 48, 49): R += [((1 << e) - w // 4, (1 << e) + w // 4, 1), (-(1 << e) - w // 4, -(1 << e) + w // 4, 1)]
        return R
    for c in cs:
        for m in c['ms']:
            if m['rx'] >= 0:
                for lo, hi, st in ranges(m['n'], m['rx']):
                    for q in (0, 1, 2, 3):
                        # above the largest encodable value there is no neighbour
                        jobs.append((c['name'], m['m'], m['n'], lo, hi - (1 if q and m['n'] < 8 and hi == (MAXI[m['n']][1] if m['rx'] < 100 else (1 << 8 * m['n']) - 1) else 0), st, q, exe[c['name']], m['m']))
    by = collections.defaultdict(list)
    for j in jobs: by[j[7]].append(j)
    chunks = [js[i::4] for js in by.values() for i in range(4 if len(js) > 40 else 1)]
    bad = []
    def go(js):
        lines, cur = [], None
        for cl, m, n, lo, hi, st, q, ex, key in js:
            if cl != cur and cl != 'field': lines.append(f'new {cl}'); cur = cl
            lines.append(f'sweep {key} lo={lo} hi={hi} step={st} q={q}')
        rc, out, err = codec.run_driver(js[0][7], lines, timeout=800)
        S = [json.loads(l[2:]) for l in out if l.startswith('S ')]
        if len(S) != len(js):
            bad.append((js[min(len(S), len(js) - 1)], rc, err[-300:]))
        R = []
        for j, s in zip(js, S):
            e, d = s['enc'], s['dec']
            # runs are many where neighbours alternate: merge those the specification allows
            R.append(dict(cls=j[0], m=j[1], q=j[6], lo=str(j[3]), hi=str(j[4]), enc=merge(e, j[6]), dec=merge(d, 0)))
        return R
    return [r for rs in pmap(go, chunks) for r in rs], bad

def merge(rs, q):
    """consecutive runs with the same d or, between representable values, mixing 0 and 1; d kept as the
    largest deviation of the merged run so that the judgement is unchanged"""
    out = []
    for a, b, d in rs:
        d = max(-1000, min(1000, d))
        if out and q and d in (0, 1) and out[-1][2] in (0, 1):
            out[-1] = [out[-1][0], str(b), max(d, out[-1][2])]
        else:
            out.append([str(a), str(b), d])
    if len(out) > 500: out = out[:499] + [out[-1]]
    return out

FIELD_SWEEP = r'''
#include "codec.hpp"
#include "%(hdr)s"
#include <iostream>
using P = %(cls)s;
struct View { P p; size_t n; size_t size() const { return n; } mutable P* q = nullptr;
    void pack_into(uint8_t* b) const { auto d = const_cast<P&>(p).data(); std::copy(d.end() - n, d.end(), b); } };
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        auto l = drv::parse(line);
        if (l.op != "sweep") continue;
        View v{{}, %(n)d};
        sweep_(v, 0, %(n)d, %(rx)d, [](View& x, double d) { x.p.%(f)s(d); }, [](const View& x) { return const_cast<P&>(x.p).%(f)s(); },
               std::stoll(l.v.at("lo")), std::stoll(l.v.at("hi")), std::stoll(l.v.at("step")), std::stoi(l.v.at("q")));
    }
}
'''

def field_drivers(sc, rep):
    """one sweep driver per fixed-point field of generated packets; [(class record)], {name: exe}"""
    G = replay.Group(sc, 'fx', catalog.group('fx'))
    G.shapes_()
    if not G.gen_():
        rep.add('generate:fx', 'generation fails: ' + G.errors[0][2][-300:], dict(error=G.errors)); return []
    d = sc.dir('codec', 'fx')
    open(os.path.join(d, 'codec.hpp'), 'w').write(codec.HDR)
    RX = dict(fx16r7=(2, 7), fx16r6=(2, 6), fx32r6=(4, 6), fx64r20=(8, 20))
    cs = []
    def one(sh):
        f = sh['fields'][0]
        n, rx = RX[f['ty']['t']]
        src = os.path.join(d, f['k'] + '.cpp')
        open(src, 'w').write(FIELD_SWEEP % dict(hdr=G.hdr(sh), cls=f'{G.ns}::packets::{sh["cls"]}', n=n, rx=rx, f=f['k']))
        exe = os.path.join(d, 'b_' + f['k'])
        rc, o = cxx([src, os.path.join(G.out, snake(sh['name']) + '.cpp')], exe, [d, G.out], asan=False, extra=['-O1'])
        if rc: rep.add('compile:' + f['k'], f'packet with {f["k"]} does not compile: {o[:300]}', dict(error=o[:1500])); return None
        return dict(name='field', t='', ms=[dict(k='r', m=f['k'], n=n, rx=rx, off=0)]), exe
    for r in pmap(one, G.shapes.values()):
        if r: cs.append(r)
    return cs

def sweep_check(rep, sc, cs, full):
    cls = [c for c in cs if any(m['rx'] >= 0 for m in c['ms'])]
    exe, errs = codec.build(sc, cls, asan=False, opt='-O1')
    for k, v in errs.items(): rep.add(f'compile:{k}', f'{k} does not compile: {v[:300]}', dict(error=v))
    R, bad = sweeps(sc, rep, [c for c in cls if c['name'] not in errs], {c['name']: exe for c in cls}, full)
    for c, e in field_drivers(sc, rep):
        r, b = sweeps(sc, rep, [c], {'field': e}, full)
        R += r; bad += b
    for j, rc, err in bad:
        rep.add(f'sweep-crash:{j[0]}.{j[1]}', f'{j[0]}.{j[1]}: writing quantities from {j[3]} to {j[4]} fails (rc={rc}) {err[-200:]}', dict(job=list(map(str, j))))
    f = sc.path('codec', 'sweeps.json')
    json.dump(R, open(f, 'w'))
    rc, o = tlc(sc, 'Sweep', '', env=dict(SWEEPS=f))
    v = next(prints(o), None)
    if rc or v is None: raise Fail('Sweep: ' + tlc_error(o))
    for i in v['bad'] if isinstance(v['bad'], list) else []:
        s = R[i - 1]
        off = [x for x in s['enc'] if x[2] not in ((0,) if s['q'] == 0 else (0, 1))][:2] + [x for x in s['dec'] if x[2]][:2]
        rep.add(f'sweep:{s["cls"]}.{s["m"]}', f'{s["cls"]}.{s["m"]}: quantities (raw + {s["q"]}/4)/2^rx are not encoded as specified; runs [from,to,error] {off}', s)
    if not bad:
        for x in v['missing'] if isinstance(v['missing'], list) else []:
            if x[0] not in errs and not rep.viol: raise Fail(f'no sweep of {x}')
    rep.count(sweeps=len(R))

def run(rep, num, depth, seeds, systematic=True, sweep=None):
    pid = rep.pid
    with Scratch() as sc:
        cs = codec.table(sc)
        T = {c['name']: c for c in cs}
        jobs = [lambda: codec.build(sc, cs)]
        jobs += [lambda s=s: codec.behaviours(sc, SEED * 100 + s, num, depth) for s in range(seeds)]
        if systematic: jobs += [lambda p=p: codec.systematic(sc, p, NCPU) for p in range(NCPU)]
        res = pmap(lambda j: j(), jobs)
        exe, errs = res[0]
        for k, v in errs.items():
            if any(relevant(pid, T[k], 'bytes', m['m']) for m in T[k]['ms']):
                rep.add(f'compile:{k}', f'{T[k]["cxx"]} does not offer the members of its format: {v[:600]}', dict(error=v))
        B = [b for bs in res[1:] for b in bs if b[0] not in errs]
        R = pmap(lambda b: codec.replay(exe, *b), B)
        steps = sum(len(b[1]) for b in B)
        for (cls, recs), (bad, lines) in zip(B, R):
            for cat, m, i, e, g in bad:
                if relevant(pid, T[cls], cat, m) or relevant(pid, T[cls], cat, recs[i].get('k', '-')):
                    rep.add(f'{cls}:{cat}:{m}', f'{T[cls]["cxx"]}: after {lines[i][:150]}: {cat} {m} expected {str(e)[:200]} got {str(g)[:200]}',
                            dict(cls=cls, step=i, expected=e, got=g, script=lines[:i + 1]))
                    break
        rep.count(states=steps, transitions=steps - len(B), traces_validated_against_impl=len(B), comparisons=2 * steps, classes=len(T) - len(errs))
        for cls, recs in B[:2] + B[-1:]:
            rep.sample(dict(cls=cls, behaviour=[codec.line(r)[:100] for r in recs[:8]]))
        if sweep is not None: sweep_check(rep, sc, cs, sweep)
