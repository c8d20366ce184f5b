"""Socket wrappers: histories of spec/Transport.tla replayed over loopback."""
import collections, itertools, socket, subprocess
from run import *

INV = 'SPECIFICATION Spec\nINVARIANTS Faithful NoInvention Exclusive EndpointSane\nCHECK_DEADLOCK FALSE\n'

def histories(sc, kind, seed, num, depth):
    rc, o = tlc(sc, 'Transport', INV, env=dict(KIND=kind), args=['-simulate', f'num={num}', '-depth', depth, '-seed', seed])
    if rc: raise Fail('Transport: ' + tlc_error(o))
    H = []
    for r in prints(o):
        if r['o'] == 'start': H.append([r])
        else: H[-1].append(r)
    return H

def line(kind, r):
    o = r['o']
    if o == 'start': return 'start'
    if kind in ('ep', 'ep6'): return f'{kind} {o} {r["port"]} "{r["text"]}"'
    args = {'uopen': ('s', 'g', 'ms'), 'uclose': ('s',), 'udel': ('s',), 'ubind': ('s', 'place'), 'utimeout': ('s', 'sec'),
            'usend': ('s', 'to', 'len', 'tag', 'viadst'), 'urecv': ('s', 'buf', 'from'), 'lopen': ('ms',), 'lclose': (), 'ldel': (),
            'lbind': ('place',), 'llisten': (), 'laccept': (), 'ltimeout': ('sec',), 'copen': ('s', 'ms'), 'cclose': ('s',), 'cdel': ('s',),
            'cshutdown': ('s', 'what'), 'cconnect': ('s', 'place'), 'twrite': ('side', 's', 'len', 'tag'), 'tread': ('side', 's', 'want', 'over')}[o]
    return ' '.join([o] + [str(int(r[a])) for a in args])

def pattern(tag, n):
    return bytes((tag * 37 + x * 7 + x // 251) & 255 for x in range(n))

def hsh(b):
    h = 5381
    for x in b: h = (h * 33 + x) & 0xffffffff
    return h

def judge(kind, host, H, A, v6=False):
    """[(category, step, text)] where the answers differ from what the specification says"""
    bad = []
    streams = collections.defaultdict(bytes)    # (conn, side) -> written
    eph, cme, inc = {}, {}, {}
    place = lambda p: f'{host}:{20000 + p}' if p else ':::0' if v6 else '0.0.0.0:0'
    pre = '::ffff:127.' if v6 else '127.'
    cme[0] = place(0)
    def time(k, r, a):
        ms = r['ms'] or 3000
        if r['wait'] and not (0.9 * ms <= a['t'] <= ms + (900 if ms >= 1000 else 3000)): bad.append(('timeout', k, f'{r["o"]} gave up after {a["t"]} ms, not {ms}'))
        if not r['wait'] and r.get('ret', 0) > 0 and ms >= 1000 and a['t'] > ms / 2: bad.append(('late', k, f'{r["o"]} took {a["t"]} ms although there was something to read'))
        if not r['wait'] and r['ret' if 'ret' in r else 'ok'] in (-1, False) and a['t'] > 2000: bad.append(('timeout', k, f'{r["o"]} took {a["t"]} ms to fail'))
    for k, (r, a) in enumerate(zip(H, A)):
        o = r['o']
        def chk(f, e, g, cat=o):
            if e != g: bad.append((cat, k, f'{o}: {f} is {g}, not {e}'))
        if 'error' in a: bad.append((o, k, f'{o}: {a["error"]}')); continue
        if kind in ('ep', 'ep6') and o != 'start':
            # only the address and port of a live object are told; a refused construction made none
            for f in ('throws', 'addr', 'eport'): chk(f, r[f], a[f], 'endpoint')
            chk('copied address', r['addr'], a['copy'], 'endpoint'); chk('copied port', r['eport'], a['cport'], 'endpoint')
            chk('address in text', r['addr'], a['taddr'], 'text'); chk('port in text', str(r['eport']), a['tport'], 'text')
            chk('family', 2 if kind == 'ep' else 10, a['family'], 'endpoint'); chk('socklen', 16 if kind == 'ep' else 28, a['len'], 'endpoint')
            continue
        if o == 'uopen': inc[r['s']] = r['g']
        if 'open' in r: chk('is_open', r['open'], a['open'])
        if o == 'ubind':
            chk('result', r['ok'], a['ok']); chk('src', place(r['src']), a['src'])
        elif o == 'usend':
            chk('result', r['ret'], a['ret'])
            if a['me']: eph[100 + inc[r['s']]] = a['me'].rsplit(':', 1)[1]
            if r['dst'] and r['dst'] < 100: chk('dst', place(r['dst']), a['dst'])
        elif o == 'urecv':
            time(k, r, a)
            chk('result', r['ret'], a['ret'])
            if r['ret'] >= 0:
                chk('content', hsh(pattern(r['tag'], r['ret'])), a['hash'])
                if r['from'] < 100: chk('sender', place(r['from']), a['from'])
                elif not (a['from'].startswith(pre) and a['from'].rsplit(':', 1)[1] == eph.get(r['from'])): bad.append((o, k, f'urecv: sender {a["from"]}, not port {eph.get(r["from"])}'))
        elif o == 'lbind': chk('result', r['ok'], a['ok']); chk('src', place(r['src']), a['src'])
        elif o == 'llisten': chk('result', r['ok'], a['ok'])
        elif o == 'cconnect':
            chk('result', r['ok'], a['ok'])
            chk('dst', place(r['dst']), a['dst'])
            if r['ok']: cme[r['conn']] = a['me']
        elif o == 'laccept':
            time(k, r, a); chk('result', r['ok'], a['ok'])
            chk('dst', cme.get(r['dst']), a['dst'])
        elif o == 'twrite':
            if not r['any']:
                chk('result', r['ret'], a['ret'])
                if r['conn'] and r['ret'] > 0: streams[r['conn'], r['side']] += pattern(r['tag'], r['ret'])
        elif o == 'tread':
            if not a['sane']: bad.append((o, k, 'tread: more bytes reported than there was room for'))
            if r['any']: continue
            time(k, r, a)
            chk('result', r['ret'], a['ret'])
            if r['ret'] > 0: chk('content', hsh(streams[r['conn'], 3 - r['side']][r['from']:r['from'] + r['ret']]), a['hash'])
        if bad: break        # what follows depends on it
    return bad

_addr = itertools.count(int.from_bytes(os.urandom(3), 'big') % 12000000)
def address():
    x = next(_addr) % 16000000
    return f'127.{1 + x // 65536 % 254}.{x // 256 % 256}.{1 + x % 254}'

def replay(exe, H):
    kind = H[0]['kind']; v6 = H[0].get('v6', False); host = ('::ffff:' if v6 else '') + address()
    inp = '\n'.join([line(kind, r) for r in H] + ['end', ''])
    try:
        p = subprocess.run([exe, host, '6' if v6 else '4'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=RUNENV, timeout=60)
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode().splitlines()
        return [('hang', len(out), f'no return from {line(kind, H[min(len(out), len(H) - 1)])}')]
    A = []
    for l in p.stdout.splitlines():
        if l.startswith('{'): A.append(json.loads(l))
    bad = judge(kind, host, H, A[:len(H)], v6)
    if not bad and (p.returncode or len(A) != len(H) + 1):
        k = min(len(A), len(H) - 1)
        bad.append(('crash', k, f'died (status {p.returncode}) in {line(kind, H[k])}: ' + next((l for l in p.stderr.splitlines() if 'ERROR' in l), '')[:200]))
    if not bad and A[-1]['leak'] > 0: bad.append(('leak', len(H), f'{A[-1]["leak"]} descriptors left open'))
    return bad

def has_v6():
    """sockets of the other family, here with addresses that stand for those of IPv4"""
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as s: s.bind(('::ffff:127.9.9.9', 0))
        return True
    except OSError: return False

def build(sc):
    exe = sc.path('sock')
    rc, o = cxx([os.path.join(HERE, 'sock.cpp')], exe, [])
    return (exe, None) if rc == 0 else (None, o)

def run(rep, num, depth, jobs):
    with Scratch() as sc:
        plan = []
        for j in range(jobs):
            for kind, w in (('ep', 1), ('ep6', 1), ('udp', 4), ('tcp', 4)):
                plan.append((kind, SEED * 1000 + j, num * w))
        exe, err = build(sc)
        if not exe:
            rep.add('build', 'the socket headers do not compile: ' + err[-600:]); rep.count(states=1, transitions=1, traces_validated_against_impl=0)
            return
        sets = pmap(lambda a: histories(sc, a[0], a[1], a[2], depth), plan)
        Hs = [h for s in sets for h in s]
        if has_v6():
            for k, h in enumerate(Hs):
                if h[0]['kind'] in ('udp', 'tcp') and k % 3 == 0: h[0]['v6'] = True
        failed = []
        def one(h):
            if len(failed) >= 40: return []
            b = replay(exe, h)
            if b: failed.append(h)
            return b
        res = pmap(one, Hs, 48)
        again = 0
        for H, bad in zip(Hs, res):
            if bad and (again < 3 or bad[0][0] != 'hang') and again < 20:      # alone, so that other histories cannot interfere (ports, load)
                again += 1
                bad = replay(exe, H) and replay(exe, H)
            for cat, k, text in bad:
                rep.add(f'{H[0]["kind"]}:{cat}', f'sockets: {text}', dict(check='sock', history=H[:k + 1]))
        steps = sum(len(h) - 1 for h in Hs)
        rep.count(states=steps + len(Hs), transitions=steps, traces_validated_against_impl=len(Hs))
        for h in (Hs[0], Hs[-1]): rep.sample([line(h[0]['kind'], r) for r in h[:8]])
        rep.assumptions += ['the Linux loopback interface delivers in order and at once', 'streams are judged as octet sequences: how reads are cut is not constrained']
