"""Runs of the generator (spec/GenRun.tla): what is collected from several files, included files
and information classes, under names of any spelling and all output options, is written to the
files the specification names, compiles, and behaves as the collected definitions say."""
import filecmp, os, re, shutil, subprocess
from run import *
import defs, driver as drvmod, replay

SAYS = dict(generate='the definition is accepted by the specification but generate fails',
            compile='the definition is accepted by the specification but compile fails',
            accepted='the definition is rejected by the specification', differs='generation is not deterministic',
            missing='a file is not written', project='the generated project')
SHAPES = ['one', 'inc', 'nest', 'split', 'diamond', 'two', 'three', 'twice', 'info', 'incinfo', 'codes', 'multi', 'same']

def scenarios(sc, shape, num, seed):
    rc, o = tlc(sc, 'GenRun', 'SPECIFICATION RSpec\nINVARIANT Distinct Written\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n', env=dict(WHAT='all', SHAPE=shape),
                args=['-simulate', f'num={num}', '-depth', 8, '-seed', seed])
    if rc: raise Fail('GenRun: ' + tlc_error(o))
    return list(prints(o))

def spelled(d, ymap):
    d = dict(d, name=ymap.get(d['name'], d['name']))
    if d.get('to'): d['to'] = ymap[d['to']]
    if d.get('packets'): d['packets'] = [ymap[p] for p in d['packets']]
    return d

def files(s, d):
    """writes the definition files of a run; the names of those given to the generator"""
    r = s['run']; ymap = {n['id']: n['yaml'] for n in r['names']}
    part = lambda i: '\n'.join(defs.render(spelled(x, ymap)) for x in r['parts'][i - 1])
    name = lambda k: f'main_{k}.yaml' if k in r['mains'] else f'part-{k}.v1.yaml'
    for k, m in enumerate(r['files'], 1):
        inc = 'include:\n' + ''.join(f"  - '{name(i)}'\n" for i in m['inc']) if m['inc'] else ''
        # the order of the parts says nothing, that of the information classes does: the first to list a class gives its code
        body, infos = [part(i) for i in m['own']], [defs.render(spelled(x, ymap)) for x in m['infos']]
        body = infos + body[::-1] if k % 2 else body + infos
        with open(os.path.join(d, name(k)), 'w') as f: f.write('\n'.join([inc] + body if k % 3 else body + [inc]))
    return [name(k) for k in r['mains']]

def generator(s, d, mains, hashseed):
    o = s['run']['opts']
    outdir = os.path.join(d, o['dir']) if o['absolute'] else o['dir']
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed))
    cmd = [PY, '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', '--dir', outdir, '--cmd-socket', o['sock']]
    if o['ns']: cmd += ['--namespace', o['ns']]
    if o['hext'] != 'hpp': cmd += ['--header-ext', o['hext']]
    if o['sext'] != 'cpp': cmd += ['--source-ext', o['sext']]
    if o['project']: cmd += ['--project']
    p = subprocess.run(cmd + mains, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    return p.returncode, p.stdout, os.path.join(d, o['dir'])

def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): open(os.path.join(p, f), 'rb').read() for p, _, fs in os.walk(d) for f in fs}

class Run(replay.Group):
    """the classes of a run, as a group to be replayed"""
    def __init__(self, sc, name, s, asan=False):
        super().__init__(sc, name, s['defs'], ns=s['run']['opts']['ns'], asan=asan)
        self.s = s
        self.file = {n['id']: n['file'] for n in s['run']['names']}

    def shapes_(self):
        # an acknowledgement may be listed without its control packet: its class is still made from it
        if self.s['ok'] and self.ds: super().shapes_()
        else: self.shapes, self.types = {}, []

    def gen_(self):
        s, o = self.s, self.s['run']['opts']
        bad = lambda what, text: self.errors.append((what, self.name, text))
        a, b = self.sc.dir(f'run_{self.name}', 'a'), self.sc.dir(f'run_{self.name}', 'b')
        mains = files(s, a); files(s, b)
        self.cmd = f"{' '.join(mains)} as {s['run']['shape']} {o}"
        rc, text, out = generator(s, a, mains, 11 + SEED)
        self.root = out
        if s['ok'] and rc: return bad('generate', f'{self.cmd}: {text[-800:]}')
        if not s['ok'] and not rc: return bad('accepted', f'{self.cmd}: two packet classes of one name and information code are accepted')
        # exactly as given by the definitions: whatever the hash seed, and over an earlier run
        if o['again']: generator(s, b, mains, 1)
        rc2, _, out2 = generator(s, b, mains, 4242)
        ta, tb = tree(out), tree(out2)
        ab = lambda t: {k: v.replace(b.encode(), a.encode()) for k, v in t.items()}
        if rc != rc2 or ta != ab(tb):
            diff = [k for k in sorted(set(ta) | set(tb)) if ta.get(k) != ab(tb).get(k)]
            return bad('differs', f'{self.cmd}: two runs differ in {diff[:5]}')
        if not s['ok']: return False
        for p in s['paths']:
            if p not in ta: return bad('missing', f'{self.cmd}: no {p}; there are {sorted(ta)[:20]}')
        pre = ('include', 'include/packets', 'src/packets') if o['project'] else ('', '', '')
        self.out, self.inc, self.src = [os.path.join(out, x) for x in pre]
        return True

    def compile_jobs(self):
        jobs = []
        for cls, sh in self.shapes.items():
            f = self.file[sh['name']]
            src = os.path.join(self.dir, f'drv_{cls}.cpp')
            open(src, 'w').write(drvmod.driver(sh, self.types, self.ns, f + '.' + self.s['run']['opts']['hext']))
            jobs.append((self, cls, [src, os.path.join(self.src, f + '.' + self.s['run']['opts']['sext'])], [self.out, self.inc]))
        return jobs

def compile_class(j):
    g, cls, srcs, inc = j
    exe = os.path.join(g.dir, 'bin_' + cls)
    rc, o = cxx(srcs, exe, inc, asan=g.asan)
    if rc: g.errors.append(('compile', cls, f'{g.cmd}: {cls}: {o[:1500]}'))
    else: g.bin[cls] = exe

def compile_rest(g):
    """the controller pair, or the project by its own build files"""
    o = g.s['run']['opts']
    if g.s['info']:
        src = os.path.join(g.dir, 'both.cpp')
        ns = f'{g.ns}::' if g.ns else ''
        says = []
        for t in g.s['talk']:
            p = f'{ns}packets::' if ns else ''
            c = f'{ns}Controller'
            if t['role'] == 'stream':
                says.append(f'static_assert(requires({c}& x, {p}{t["cls"]}& p) {{ x.send_{t["file"]}(p); x.register_{t["file"]}_listener(std::function<void({p}{t["cls"]}&)>{{}}); }}, "{t["cls"]} cannot be sent and received");')
            elif t['role'] == 'command':
                res = 'std::tuple<' + ', '.join(f'std::optional<{p}{a}>' for a in t['acks']) + '>' if t['acks'] else 'void'
                says.append(f'static_assert(std::is_same_v<decltype(std::declval<{c}&>().send_{t["file"]}(std::declval<{p}{t["cls"]}&>())), {res}>, "{t["cls"]} is not answered as it should be");')
        open(src, 'w').write(f'#include <Controller.{o["hext"]}>\n#include <Controllee.{o["hext"]}>\n#include <functional>\n#include <tuple>\n#include <optional>\n#include <type_traits>\n' + '\n'.join(says) + '\n'
                             f'int main(int n, char**) {{ return n > 1 && sizeof({ns}Controller) && sizeof({ns and ns + 'controllee::'}Controllee); }}\n')
        impl = [os.path.join(g.root, p) for p in g.s['paths'] if p.endswith('.' + o['sext']) and not p.endswith('bin/main.cpp')]
        rc, t = cxx([src] + impl, os.path.join(g.dir, 'both'), [g.out, g.inc], asan=False, extra=['-lpthread'])
        if rc: g.errors.append(('compile', 'Controller', f'{g.cmd}: {t[:1500]}'))
    if o['project']:
        bd = os.path.join(g.dir, 'build')
        env = {k: v for k, v in os.environ.items() if not k.startswith('CMAKE')}
        run = lambda c: subprocess.run(c, cwd=g.root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        p = run(['cmake', '-S', '.', '-B', bd, f'-DFETCHCONTENT_SOURCE_DIR_VRTGEN={REPO}', '-DCMAKE_BUILD_TYPE=Debug'])
        if not p.returncode: p = run(['cmake', '--build', bd, '-j', '2'])
        if p.returncode:
            ls = [l for l in p.stdout.splitlines() if 'rror' in l] or p.stdout.splitlines()[-5:]
            return g.errors.append(('project', 'project', f'{g.cmd}: the generated project does not build: {" | ".join(ls)[:800]}'))
        exes = [os.path.join(bd, 'src/bin', f) for f in os.listdir(os.path.join(bd, 'src/bin')) if os.access(os.path.join(bd, 'src/bin', f), os.X_OK) and os.path.isfile(os.path.join(bd, 'src/bin', f))]
        if not exes or subprocess.run([exes[0]], timeout=60).returncode:
            g.errors.append(('project', 'project', f'{g.cmd}: the generated program does not run'))

def runs(sc, num, seed):
    G = []
    for shape, ss in zip(SHAPES, pmap(lambda x: scenarios(sc, x, num, seed * 10 + SHAPES.index(x)), SHAPES)):
        G += [Run(sc, f'{shape}{seed}_{i}', s) for i, s in enumerate(ss)]
    pmap(lambda g: g.shapes_(), G)
    ok = pmap(lambda g: g.gen_(), G)
    jobs = [(compile_class, j) for g, k in zip(G, ok) if k for j in g.compile_jobs()]
    jobs = [(compile_rest, g) for g, k in zip(G, ok) if k and (g.s['info'] or g.s['run']['opts']['project'])] + jobs
    pmap(lambda j: j[0](j[1]), jobs)
    for g in G: g.built = True
    return G
