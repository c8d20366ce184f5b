"""Definition files: documents drawn by spec/GenSchema and judged by spec/Schema, written down as YAML
in several equivalent ways and read by the real parser and generator, many in one process."""
import hashlib, random, subprocess
from run import *
import schemadoc

NAMES = ('packets facts differ', 'one', 'two')

def draw(sc, num, seeds):
    """documents with their verdicts and meanings"""
    def one(s):
        rc, o = tlc(sc, 'GenSchema', 'SPECIFICATION Sspec\nCHECK_DEADLOCK FALSE\n', env={'WHAT': 'all'},
                    args=['-simulate', 'num=1', '-depth', num + 1, '-seed', s])
        if rc: raise Fail('GenSchema: ' + tlc_error(o))
        return list(prints(o))[:num]
    return [x for l in pmap(one, seeds) for x in l]

def enumerated(sc):
    """the systematic documents"""
    rc, o = tlc(sc, 'SysSchema', 'SPECIFICATION SysSpec\nCHECK_DEADLOCK FALSE\n', env={'WHAT': 'all'}, args=['-seed', SEED], workers=1)
    if rc: raise Fail('SysSchema: ' + tlc_error(o))
    return [dict(x, sys=True) for x in prints(o)]

def norm(f):
    return sorted({json.dumps(x, sort_keys=True) for x in f})

def differ(got, want):
    """a readable difference between two lists of facts"""
    a, b = norm(got), norm(want)
    if a == b: return ''
    G, W = {x['name']: x for x in got}, {x['name']: x for x in want}
    if set(G) != set(W):
        return f'packets {sorted(x["name"] for x in got)} instead of {sorted(x["name"] for x in want)}'
    if len(G) == len(a) == len(W):
        return '; '.join(f'{n}.{k}: {json.dumps(G[n].get(k))} instead of {json.dumps(W[n][k])}' for n in W for k in W[n] if G[n].get(k) != W[n][k])
    return f'{[x for x in a if x not in b]} instead of {[x for x in b if x not in a]}'

def expected_files(d):
    fs = {snake(f['name']) + e for f in d['facts'] for e in ('.cpp', '.hpp')}
    if d['info']:
        fs |= {'Controller.hpp', 'Controllee_base.hpp', 'Controllee.hpp'}
    return fs

def texts(w, rng, fancy):
    return schemadoc.write(w['own'], rng, fancy), schemadoc.write(w['inc'], rng, fancy) if w['inc'] else None

def histories(docs, procs, rng):
    """every document that is to be accepted goes into two processes, written differently; the others into one"""
    hist = [[] for _ in range(procs)]
    for i, d in enumerate(docs):
        a, b = rng.sample(range(procs), 2)
        extra = rng.choice([[], [], [], ['--project'], ['--cmd-socket', 'udp'], ['--cmd-socket', 'nats']]) if d['info'] else []
        for p, w, fancy in (((a, d[rng.choice(['one', 'two'])], rng.random() < .5),) if d.get('sys') else
                            ((a, d['one'], rng.random() < .8), (b, d['two'], True)) if d['v'] == 0 else ((a, d['one'], rng.random() < .5),)):
            text, inc = texts(w, rng, fancy)
            hist[p].append(dict(key=i, text=text, inc=inc, dump=d['v'] == 0, extra=extra))
    for h in hist:
        rng.shuffle(h)
        for j, x in enumerate(h): x['id'] = j
    return hist

def run_history(sc, p, h, tag=''):
    f, o, s = sc.path('hist', f'{p}{tag}.json'), sc.path('hist', f'{p}{tag}.out'), sc.dir('hist', f's{p}{tag}')
    json.dump(h, open(f, 'w'))
    env = dict(os.environ, PYTHONHASHSEED=str(p * 7 + SEED), PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'schemadrv.py'), REPO, f, o, s], env=env, cwd=s,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60 + 20 * len(h))
        tail = r.stdout[-600:]
    except subprocess.TimeoutExpired:
        tail = 'no answer'
    res = [json.loads(l) for l in open(o)] if os.path.exists(o) else []
    return res, tail

def show(j):
    return j['text'][:700] + (f'\n--- included:\n{j["inc"][:400]}' if j['inc'] else '')

def run(r, num, tlcs, only_output=False):
    """num documents from each of tlcs generator runs"""
    with Scratch() as sc:
        rng = random.Random(SEED * 1000 + num)
        docs = draw(sc, num, [SEED * 100 + k for k in range(tlcs)])
        if only_output: docs = [d for d in docs if d['v'] == 0]
        else: docs += enumerated(sc)
        procs = NCPU
        hist = histories(docs, procs, rng)
        outs = pmap(lambda p: run_history(sc, p, hist[p]), range(procs))
        seen = {}
        for p, (res, tail) in enumerate(outs):
            for x, j in zip(res, hist[p]):
                d = docs[j['key']]
                bad = None
                if d['v'] == 0:
                    if not x['ok'] or 'error' in x:
                        bad = ('rejected', f'an allowed definition file is rejected: {x.get("error") or x["say"]}')
                    elif x.get('facts') is not None and differ(x['facts'], d['facts']):
                        bad = ('meaning', 'the parsed meaning is not that of the text: ' + differ(x['facts'], d['facts'])[:500])
                    elif x.get('info') is not None and sorted(map(json.dumps, x['info'])) != sorted(map(json.dumps, d['info'])):
                        bad = ('info', f'information classes {x["info"]} instead of {d["info"]}')
                    else:
                        names = {os.path.basename(f) for f in x['files'] if f.endswith(('.cpp', '.hpp'))}
                        miss = sorted(expected_files(d) - names)
                        if miss: bad = ('files', f'nothing is generated for {miss}')
                        seen.setdefault(j['key'], []).append((x['files'], j, p))
                elif x['ok'] or x['files']:
                    bad = ('accepted', 'a definition file that is not allowed is ' + ('accepted' if x['ok'] else f'rejected ({x["say"]}) but generates {sorted(x["files"])}'))
                if bad and not only_output:
                    # is it the document, or what was read before it?
                    again = run_history(sc, p, [dict(j, id=0)], f'_{x["id"]}')[0] if len(r.viol) < 10 else []
                    alone = bool(again) and again[0].get('facts') == x.get('facts') and again[0]['ok'] == x['ok']
                    r.add(f'{bad[0]}:{hashlib.md5(j["text"].encode()).hexdigest()[:8]}',
                          f'{bad[1]}\n{"" if alone else "(only after other files were read in the same process)"}\n{show(j)}',
                          dict(document=j, expected=d, earlier=[] if alone else hist[p][:x['id']]))
            if len(res) < len(hist[p]):
                j = hist[p][len(res)]
                r.add(f'crash:{p}', f'reading a definition file ended the process or never returned: {tail}\n{show(j)}', dict(document=j))
            r.count(files_read=len(res), meanings_compared=sum(x.get('facts') is not None for x in res))
        pairs = 0
        for k, v in seen.items():
            if len(v) < 2: continue
            pairs += 1
            (f1, j1, p1), (f2, j2, p2) = v
            # with several information classes the last one written has the controller files
            if len(docs[k]['info']) < 2:
                f1, f2 = ({os.path.basename(n): h for n, h in f.items() if n.endswith(('.cpp', '.hpp')) and n != 'src/bin/main.cpp'} for f in (f1, f2))
            else: f1 = f2 = {}
            if f1 != f2:
                ds = sorted(n for n in set(f1) | set(f2) if f1.get(n) != f2.get(n))
                r.add(f'output:{k}', f'two readings of the same definitions generate different code: {ds}\n{show(j1)}\n=== and\n{show(j2)}', dict(one=j1, two=j2))
        r.count(documents=len(docs), enumerated=sum('sys' in d for d in docs), to_accept=sum(d['v'] == 0 for d in docs), to_reject=sum(d['v'] == 1 for d in docs), read_twice=pairs, processes=procs)
        for d in docs[:3]:
            r.sample(schemadoc.write(d['one']['own'], random.Random(1))[:400])
