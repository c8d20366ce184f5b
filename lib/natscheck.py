"""The NATS client: scenarios of spec/GenNats.tla run by the real client under many schedules of a
deterministic scheduler; every record of calls, returns and library traffic is checked by TLC
against spec/NatsClient.tla."""
import hashlib, subprocess
from run import *

ASAN = '-fsanitize=address -fno-omit-frame-pointer -g -O0'.split()

def build(sc):
    L = os.path.join(VERIF, 'lib')
    def one(a):
        n, fl = a
        rc, o = run_cc([*'g++ -std=c++20'.split(), *ASAN, *fl, '-I', os.path.join(REPO, 'include'), '-I', L, '-c', os.path.join(L, n + '.cpp'), '-o', sc.path(n + '.o')])
        return n, rc, o
    for n, rc, o in pmap(one, [('natsched', []), ('natslib', []), ('natsdrv', ['-finstrument-functions', '-D_GLIBCXX_ASSERTIONS'])]):
        if rc:
            if n == 'natsdrv': return None, o
            raise Fail(n + ': ' + o[:800])
    exe = sc.path('natsdrv')
    rc, o = run_cc(['g++', *ASAN, '-rdynamic', *[sc.path(n + '.o') for n in ('natsched', 'natslib', 'natsdrv')], '-o', exe, '-ldl', '-lpthread', '-lnats'])
    return (exe, o) if rc == 0 else (None, o)

def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode, p.stdout

def scenario_line(s):
    return f'{s["clients"]}|' + '|'.join(f'{t["c"]} ' + ' '.join(':'.join(map(str, o)) for o in t['ops']) for t in s['threads'])

def prophecy(ev):
    """adds to every call what it comes back with"""
    open_ = {}
    for e in ev:
        if e['e'] == 'call': open_[e['t']] = e
        elif e['e'] == 'ret':
            c = open_.pop(e['t'], None)
            if c is not None and c['o'] in ('next', 'nexti') and e.get('any'): c['v'] = [dict(r=e['r'], d=e['d'], nr=0)]
    return ev

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'

def validate(sc, traces, tag, show=''):
    """the ids of the traces the specification accepts"""
    f = sc.path('traces', tag + '.json')
    json.dump(traces, open(f, 'w'))
    rc, o = tlc(sc, 'TraceNats', CFG, env=dict(TRACES=f, SHOW=show), heap='3g')
    if rc: raise Fail('TraceNats: ' + tlc_error(o))
    return list(prints(o)), states(o)

def states(o):
    import re
    m = re.search(r'(\d+) states generated, (\d+) distinct', o)
    return (int(m[1]), int(m[2])) if m else (0, 0)

def scenarios(sc, num):
    rc, o = tlc(sc, 'GenNats', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', args=['-simulate', 'num=1', '-depth', num + 1, '-seed', SEED])
    if rc: raise Fail('GenNats: ' + tlc_error(o))
    return list(prints(o))[:num]

def systematic(sc, n):
    rc, o = tlc(sc, 'SysNats', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=dict(LEN=str(n)))
    if rc: raise Fail('SysNats: ' + tlc_error(o))
    return list(prints(o))

MC = """SPECIFICATION Spec
CONSTANTS MaxCalls = %d
 MaxMsgs = %d
 MaxTime = 1
INVARIANTS Once InOrder NoMixUp OwnReply Kept GoneQuiet CanReturn
CHECK_DEADLOCK FALSE
"""
def model(rep, sc, calls, msgs):
    rc, o = tlc(sc, 'MCNats', MC % (calls, msgs), workers=NCPU, heap='8g')
    if rc: raise Fail('MCNats: ' + tlc_error(o))
    g, d = states(o)
    rep.count(states=d, transitions=g)

def run(rep, num, schedules, calls, msgs, steps=2, sysschedules=12):
    with Scratch() as sc:
        model(rep, sc, calls, msgs)
        exe, o = build(sc)
        if not exe:
            rep.add('compile', 'the NATS client does not compile: ' + o[:1500], dict(check='nats'))
            return
        rnd, systematic_ = pmap(lambda f: f(), [lambda: scenarios(sc, num), lambda: systematic(sc, steps)])
        ss = rnd + systematic_
        rows = [scenario_line(s) for s in ss]
        many = range(len(rnd)); few = range(len(rnd), len(rows))
        groups = [(list(part[i::NCPU * 3]), k) for part, k in ((many, schedules), (few, sysschedules)) for i in range(NCPU * 3)]
        groups = [g for g in groups if g[0]]
        def work(gi):
            g, count = groups[gi]; f = sc.path('sc', f'{gi}.txt'); out = sc.path('sc', f'{gi}.out')
            todo, recs, runs = list(g), [], 0
            while todo:
                open(f, 'w').write('\n'.join(rows[k] for k in todo) + '\n')
                hang = False
                try: p = subprocess.run([exe, f, str(SEED * 100000 + gi * 1000), str(count), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=300,
                                        env={**RUNENV, 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=7'})
                except subprocess.TimeoutExpired: hang = True
                last = None
                for l in open(out):
                    try: r = json.loads(l)
                    except ValueError: continue
                    if 'runs' in r: runs += r['runs']; continue
                    r['scenario'] = todo[r['scenario']]; last = r['scenario']
                    recs.append(r)
                if hang: recs.append(dict(stuck='the run does not end', scenario=last if last is not None else todo[0], seed=0, ev=[])); break
                if p.returncode == 0: break
                err = p.stderr
                if not recs or 'stuck' not in recs[-1]:
                    recs.append(dict(stuck='the run dies: ' + err[-300:], scenario=last if last is not None else todo[0], seed=0, ev=[]))
                elif recs[-1]['stuck'] == 'memory error':
                    recs[-1]['stuck'] = 'memory error: ' + next((x for x in err.splitlines() if 'ERROR: AddressSanitizer' in x), '')[:200]
                recs[-1]['err'] = err[:2500]
                k = todo.index(recs[-1]['scenario'])
                if sum('stuck' in r for r in recs) > 3: break
                todo = todo[k + 1:]
            return recs, runs
        recs, runs = [], 0
        for r, n in pmap(work, range(len(groups))): recs += r; runs += n
        bad = []
        for r in recs:
            if 'stuck' in r: bad.append((r['stuck'].split(';')[0].split(':')[0], r['stuck'], r))
        good = [r for r in recs if 'stuck' not in r]
        seen, uniq = set(), []
        for r in good:
            h = hashlib.md5(json.dumps([r['scenario'], r['ev']]).encode()).digest()
            if h not in seen: seen.add(h); uniq.append(r)
        traces = [dict(id=i, ev=prophecy(r['ev'])) for i, r in enumerate(uniq)]
        parts = [traces[i::NCPU] for i in range(NCPU)]
        ok, st = set(), [0, 0]
        def val(a):
            i, p = a
            return validate(sc, p, f'p{i}') if p else ([], (0, 0))
        for pr, s in pmap(val, list(enumerate(parts))):
            ok |= {x['ok'] for x in pr}; st[0] += s[0]; st[1] += s[1]
        for t in [t for t in traces if t['id'] not in ok][:6]:
            pr, _ = validate(sc, [t], f'bad{t["id"]}', '1')
            at = max([x['at'] for x in pr if 'at' in x], default=1)
            e = t['ev'][at - 1]
            bad.append((f'record:{e["e"]}', f'event {at} is no step of the specification: {json.dumps(e)}', dict(uniq[t['id']], at=at)))
        for sig, text, r in bad:
            rep.add(sig, f'scenario {rows[r["scenario"]]}: {text[:600]}', dict(check='nats', scenario=rows[r['scenario']], seed=r['seed'], events=r['ev'][:r.get('at', 10 ** 6) + 2], error=r.get('err', '')))
        rep.count(states=st[1], transitions=st[0], traces_validated_against_impl=len(traces), schedules_run=runs, scenarios=len(rows))
        for s in rows[:4]: rep.sample(s)
        rep.assumptions += ['the NATS library is replaced by a stand-in with its documented threading: a delivery thread per subscription, completion callback after the last delivery',
                            'hand-overs between threads happen at library calls, synchronisation and function calls']
