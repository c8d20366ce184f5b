"""C09 and C18: packets produced by spec/Probe.tla, deviations from them and damaged
versions of them are held against the generated classes; the specification says
which must be recognised and which must not be decoded."""
import json
from run import *
import catalog, replay

def probes(sc, g, seed, num, depth):
    rc, o = tlc(sc, 'Probe', 'SPECIFICATION PSpec\nCHECK_DEADLOCK FALSE\n', env=dict(SHAPES=g.shapef),
                args=['-simulate', f'num={num}', '-depth', depth, '-seed', seed])
    if rc:
        raise Fail(f'Probe: {tlc_error(o)}')
    return [r for r in prints(o) if r['o'] == 'probe']

def flip(d, k):
    d = bytearray(d); d[k // 8] ^= 128 >> (k % 8)
    return bytes(d)

def cases(r, aspects):
    """(aspect, class or None for the packet's own, bytes, expected fate, what was done);
    fate 0 not recognised, 1 recognised, 2 recognised but not decodable"""
    d = bytes(r['data'])
    sized = lambda k, b: b[:2] + k.to_bytes(2, 'big') + b[4:]
    if 'own' in aspects: yield 'own', None, d, r['own'], 'its own bytes'
    if 'flips' in aspects:
        for k, v in enumerate(r['flips']):
            if v != 9: yield 'flips', None, flip(d, k), v, f'bit {7 - k % 8} of byte {k // 8} inverted'
    if 'cross' in aspects:
        for c, v in r['cross']: yield 'cross', c, d, v, 'its own bytes'
    if 'more' in aspects:
        for b, v in r['more']: yield 'more', None, bytes(b), v, 'other header attributes'
    if 'sizes' in aspects:
        for k, v in enumerate(r['sizes']): yield 'sizes', None, sized(k, d), v, f'declared size {k} words'
        for k, v in enumerate(r['words'], 1): yield 'words', None, sized(k, d[:4 * k]), v, f'cut to {k} words, header adjusted'
        for k, v in enumerate(r['cuts']): yield 'cuts', None, d[:k], v, f'cut to {k} bytes'
        for at, b, v in r['hurt']: yield 'hurt', None, d[:at - 1] + bytes([b]) + d[at:], v, f'byte {at - 1} set to {b}'

def judge(aspect, exp, got):
    """is this outcome allowed?"""
    if exp == 0: return got == 0
    if aspect in ('words', 'hurt'):
        # recognising or decoding may be stricter than the specification on damaged contents,
        # but contents that do not fit are never reported
        return got != 1 if exp == 2 else True
    if aspect == 'own': return got == 1
    return got in (1, 2)

def run(rep, G, aspects, num, depth, seeds=1):
    with Scratch() as sc:
        G = [g if isinstance(g, replay.Group) else replay.Group(sc, g, catalog.group(g)) for g in (G(sc) if callable(G) else G)]
        replay.build(G)
        for g in G:
            for kind, cls, text in g.errors:
                first = next((l for l in text.splitlines() if 'error' in l.lower()), text[-300:])
                rep.add(f'{kind}:{g.name}:{cls}', f'{cls}: {kind} fails: {first[-400:]}', dict(definitions=g.ds, error=text))
        jobs = [(g, SEED * 1000 + k) for k in range(seeds) for g in G if g.bin]
        P = [(g, r) for (g, _), rs in zip(jobs, pmap(lambda j: probes(sc, j[0], j[1], num, depth), jobs)) for r in rs if r['cls'] in g.bin]
        def one(x):
            g, r = x
            cs = list(cases(r, aspects))
            per = {}
            for c in cs: per.setdefault(c[1] or r['cls'], []).append(c)
            bad = []; n = 0
            for cls, cc in per.items():
                if cls not in g.bin: continue
                while cc:
                    rc, out, err = replay.run_driver(g.bin[cls], ['probe ' + c[2].hex() for c in cc])
                    res = [int(l[2:]) for l in out if l.startswith('P ')]
                    n += len(res)
                    for c, v in zip(cc, res):
                        if not judge(c[0], c[3], v): bad.append((cls, c, v))
                    if len(res) >= len(cc): break
                    c = cc[len(res)]
                    bad.append((cls, c, 'crash: ' + ' | '.join(l for l in err.splitlines() if 'ERROR' in l or 'ssert' in l)[:300]))
                    cc = cc[len(res) + 1:]
                    if len(bad) > 20: break
            return bad, n
        R = pmap(one, P)
    rep.count(states=sum(len(json.loads(json.dumps(r['flips']))) for _, r in P), transitions=len(P), traces_validated_against_impl=len(P),
              comparisons=sum(n for _, n in R), classes=len({(g.name, r['cls']) for g, r in P}))
    name = {0: 'not recognised', 1: 'recognised', 2: 'recognised but undecodable'}
    for g, r in P[:3]:
        rep.sample(dict(cls=r['cls'], packet=bytes(r['data']).hex()[:120], flips=''.join(map(str, r['flips'][:64])), cut_fates=r['words'][:20]))
    for (g, r), (bad, _) in zip(P, R):
        for cls, c, v in bad[:3]:
            rep.add(f'{cls}:{c[0]}', f'{cls}: a packet of {r["cls"]}, {c[4]}, must be {name[c[3]]} but is {name.get(v, v)}',
                    dict(definition=g.ds, packet_class=r['cls'], against=cls, bytes=c[2].hex(), what=c[4], expected=name[c[3]], got=name.get(v, v)))
