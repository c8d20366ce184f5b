"""Replays behaviours of spec/GenPacket.tla into generated packet classes."""
import json, os, random, shutil
from run import *
import defs, driver as drvmod

def lit(v):
    """a specification value as a driver argument"""
    if isinstance(v, list):
        if v and isinstance(v[0], list):
            return ';'.join(lit(x) for x in v)
        return ','.join(str(x) for x in v) if v else '-'
    return str(v)

def opline(r):
    o = r['o']
    if o in ('new', 'data', 'obs', 'rebuild'):
        return o
    key = r.get('k', '-')
    v = r.get('v')
    if isinstance(v, dict):
        args = [f'{m}={lit(x)}' for m, x in v.items()]
    elif v is None or (o in ('set', 'mod', 'attr') and v == []):
        args = []
    else:
        args = ['v=' + lit(v)]
    return ' '.join([o, key, *args])

def as_map(x):
    return {} if x == [] else x

class Group:
    """one YAML file: definitions, generated code, shapes, compiled drivers"""
    def __init__(self, sc, name, ds, ns='ns', asan=True, only=None):
        self.sc, self.name, self.ds, self.ns = sc, name, ds, ns
        self.dir = sc.dir('g_' + name)
        self.only = only
        self.asan = asan
        self.bin, self.errors = {}, []
        self.built = False

    def shapes_(self):
        f = os.path.join(self.dir, 'defs.json'); json.dump(self.ds, open(f, 'w'))
        self.shapef = os.path.join(self.dir, 'shapes.json')
        rc, o = tlc(self.sc, 'DefsOut', '', env=dict(DEFS=f, SHAPES=self.shapef))
        if rc or not os.path.exists(self.shapef):
            raise Fail('DefsOut: ' + tlc_error(o))
        j = json.load(open(self.shapef))
        for s, c in zip(j['shapes'], json.load(open(self.shapef + '.closed'))): s['closed'] = c
        self.shapes = {s['cls']: s for s in j['shapes'] if not self.only or self.only(s)}
        self.types = j['types']
        if self.only:
            j['shapes'] = [{k: v for k, v in s.items() if k != 'closed'} for s in self.shapes.values()]
            json.dump(j, open(self.shapef, 'w'))

    def gen_(self):
        y = os.path.join(self.dir, self.name + '.yaml')
        open(y, 'w').write(defs.render_all(self.ds))
        self.yaml = y
        self.out = os.path.join(self.dir, 'out')
        os.makedirs(self.out, exist_ok=True)
        rc, o = generate(y, self.out, self.ns)
        if rc:
            self.errors.append(('generate', self.name, o[-1500:]))
        return rc == 0

    def hdr(self, sh):
        return snake(sh['name']) + '.hpp'

    def compile_jobs(self):
        jobs = []
        for cls, sh in self.shapes.items():
            src = os.path.join(self.dir, f'drv_{cls}.cpp')
            open(src, 'w').write(drvmod.driver(sh, self.types, self.ns, self.hdr(sh)))
            impl = os.path.join(self.out, snake(sh['name']) + '.cpp')
            jobs.append((self, cls, src, impl))
        return jobs

def compile_one(job):
    g, cls, src, impl = job
    exe = os.path.join(g.dir, 'bin_' + cls)
    rc, o = cxx([src, impl], exe, [g.out], asan=g.asan)
    if rc:
        g.errors.append(('compile', cls, o[:1500]))
    else:
        g.bin[cls] = exe

def build(groups):
    pmap(lambda g: g.shapes_(), groups)
    ok = pmap(lambda g: g.gen_(), groups)
    jobs = [j for g, k in zip(groups, ok) if k for j in g.compile_jobs()]
    # biggest first
    jobs.sort(key=lambda j: -len(j[0].shapes[j[1]]['fields']))
    pmap(compile_one, jobs)
    for g in groups: g.built = True

def behaviours(sc, g, seed, num, depth, module='GenPacket', env=None):
    """[(class, [records])] from TLC simulation"""
    rc, o = tlc(sc, module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=dict(SHAPES=g.shapef, **(env or {})),
                args=['-simulate', f'num={num}', '-depth', depth, '-seed', seed])
    if rc:
        raise Fail(f'{module}: {tlc_error(o)}')
    return split(o)

def portions(g, keep, most=45):
    """the classes of a group, in portions of at most so many fields"""
    out, room = [], 0
    for s in sorted((s for c, s in g.shapes.items() if c in g.bin and (not keep or keep(s))), key=lambda s: -len(s['fields'])):
        w = len(s['fields']) + 3
        if not out or room < w: out.append([]); room = most
        out[-1].append(s); room -= w
    return out

def enumerated(sc, g, shapes, seed, pairs):
    """[(class, [records])] of the enumerated histories of some classes of the group"""
    f = os.path.join(g.dir, f'sys_{shapes[0]["cls"]}.json')
    json.dump(dict(shapes=[{k: v for k, v in s.items() if k != 'closed'} for s in shapes], types=g.types), open(f, 'w'))
    rc, o = tlc(sc, 'SysPacket', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=dict(SHAPES=f, PAIRS='1' if pairs else '0'), args=['-seed', seed])
    if rc:
        raise Fail(f'SysPacket: {tlc_error(o)}')
    return split(o)

def split(o):
    out = []
    for r in prints(o):
        if r['o'] == 'start':
            out.append((r['cls'], [r]))
        else:
            out[-1][1].append(r)
    return out

class Mismatch:
    def __init__(self, cat, cls, step, exp, got, script):
        self.cat, self.cls, self.step, self.exp, self.got, self.script = cat, cls, step, exp, got, script
    def __str__(self):
        return f'{self.cls}: {self.cat} at step {self.step}: expected {str(self.exp)[:300]} got {str(self.got)[:300]}'

def run_driver(exe, lines, timeout=120):
    try:
        p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=RUNENV, timeout=timeout)
        return p.returncode, p.stdout.splitlines(), p.stderr
    except subprocess.TimeoutExpired as e:
        return 98, (e.stdout or b'').decode(errors='replace').splitlines(), 'timeout'

def hexs(b):
    return ''.join('%02x' % x for x in b)

def fvmap(sh, fv):
    return {f['k']: as_map(x[0]) for f, x in zip(sh['fields'], fv) if x != []}

def norm_obs(sh, o):
    e = dict(o)
    e['fv'] = fvmap(sh, o['fv'])
    if sh['query']:
        e['fv'] = {k: {} for k in e['fv']}
    e['av'] = {f['k']: {a['k']: as_map(x) for a, x in zip(sh['at7'], v)} for f, v in zip(sh['fields'], o['av']) if v != []}
    e['camx'] = {c: o['cam'][c] for c in sh['camset']}
    e['paysize'] = len(o['pay'])
    return e

def words(v):
    """ASCII sentences travel as whole words: trailing padding to a word is not part of the value"""
    if isinstance(v, dict) and 'ascii_sentences' in v:
        s = v['ascii_sentences']
        return {**v, 'ascii_sentences': s + [[0]] * (-len(s) % 4)}
    return v

# observation key -> mismatch category
def diff_obs(sh, exp, got, pay_mod4=False):
    """list of (category, expected, got) for every reported attribute that differs"""
    bad = []
    for k, g in got.items():
        e = exp.get(k)
        if k in ('cam', 'camx'):
            for c, x in g.items():
                if e[c] != x:
                    bad.append((f'obs:{k}.{c}', e[c], x))
        elif k == 'fv':
            e = as_map(e)
            for f in sorted(set(e) | set(g)):
                if f not in g: bad.append((f'obs:field.{f}', e[f], 'absent'))
                elif f not in e: bad.append((f'obs:field.{f}', 'absent', g[f]))
                elif e[f] != g[f] and words(e[f]) != words(g[f]): bad.append((f'obs:field.{f}', e[f], g[f]))
        elif k == 'av':
            for f in sorted(set(e) | set(g)):
                if f not in g: bad.append((f'obs:attributes.{f}', e[f], 'absent'))
                elif f not in e: bad.append((f'obs:attributes.{f}', 'absent', g[f]))
                else:
                    for a in e[f]:
                        if e[f][a] != g[f][a] and words(e[f][a]) != words(g[f][a]): bad.append((f'obs:attributes.{f}.{a}', e[f][a], g[f][a]))
        elif k == 'tr' or isinstance(g, dict):
            for f in g:
                if e[f] != g[f]: bad.append((f'obs:{k}.{f}', e[f], g[f]))
        elif e != g:
            bad.append((f'obs:{k}', e, g))
    return bad

def replay(g, cls, recs, relevant=None, tolerate=False, lines=None):
    """mismatches of one behaviour: all those of the first step at which any
    occurs, or, with tolerate, every step's mismatches in a relevant category"""
    sh = g.shapes[cls]
    lines = lines or script(recs)
    rc, out, err = run_driver(g.bin[cls], lines)
    it = iter(out)
    bad = []
    rebuilt = False
    def mm(cat, step, e, x):
        if tolerate and relevant and not relevant(cat):
            return
        m = Mismatch(cat, cls, step, e, x, lines)
        m.rebuilt = rebuilt
        bad.append(m)
    def check_data(tag, step, data):
        l = next(it).split(' ')
        if l[0] != tag:
            raise StopIteration
        exp = hexs(data)
        n = len(l[1]) // 2
        if int(l[2]) != n: mm('size', step, f'size() {n}', l[2])
        if int(l[3]) * 4 != n: mm('size', step, f'packet_size {n / 4} words', l[3])
        if n >= 4 and int(l[1][4:8], 16) * 4 != n: mm('size', step, f'packet_size {n / 4} words on the wire', int(l[1][4:8], 16))
        if l[1] != exp:
            mm('rbytes' if tag == 'R' else 'bytes', step, exp, l[1])
            if len(l[1]) != len(exp): mm('length', step, len(exp) // 2, n)
    def check_obs(step, obs, pre=''):
        l = next(it)
        if not l.startswith('O '): raise StopIteration
        for c, e, x in diff_obs(sh, norm_obs(sh, obs), json.loads(l[2:])):
            mm(pre + c, step, e, x)
    step = 0
    nobs = 0
    try:
        while True:
            l = next(it)
            if l == 'A -': break
            if not l.startswith('A '): raise StopIteration
            mm('api', 0, 'not offered', l[2:])
        check_data('D', 0, recs[0]['data']); check_obs(0, recs[0]['obs'])
        for step, r in enumerate(recs[1:], 1):
            if bad and not tolerate: break
            if r['o'] == 'data':
                check_data('D', step, r['data']); nobs += 1
            elif r['o'] == 'obs':
                check_obs(step, r['obs']); nobs += 1
            elif r['o'] == 'rebuild':
                l = next(it)
                if not l.startswith('M '): raise StopIteration
                if l.split()[1] != str(r['match']): mm('match', step, 'accepted' if r['match'] else 'rejected', l)
                check_data('D', step, r['data'])
                if bad and not tolerate: break
                rebuilt = True
                check_data('R', step, r['data']); check_obs(step, r['obs'], 'r'); nobs += 1
    except (StopIteration, RuntimeError, IndexError, ValueError):
        pass
    if rc != 0 and (tolerate or not bad):
        m = [l for l in out if l.startswith('E ')]
        what = m[-1] if m else f'exit {rc}: ' + ' | '.join(l for l in err.splitlines() if 'ERROR' in l or '#' in l or 'ssert' in l)[:400]
        # the step the driver stopped in: the operations before it produced what was read
        mm('crash', step, 'no error', what)
    return bad, nobs

def script(recs):
    return ['api', 'data', 'obs'] + [opline(r) for r in recs[1:]]

def rebuild_matters(g, cls, recs, bad):
    """does the mismatch need the packet to have been rebuilt?"""
    step = bad[0].step
    plain = [r if r['o'] != 'rebuild' or i == step else dict(o='data', data=r['data']) for i, r in enumerate(recs[:step + 1])]
    b, _ = replay(g, cls, plain)
    return not any(m.step == step and m.cat == bad[0].cat for m in b)
