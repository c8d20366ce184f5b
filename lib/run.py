"""Shared machinery: scratch space, TLC, generator, compiler, replay, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/vrtgen-venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4

class Fail(Exception):
    pass

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vrtchk.')
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
    def path(self, *p):
        r = os.path.join(self.d, *p)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        return r
    def dir(self, *p):
        r = os.path.join(self.d, *p)
        os.makedirs(r, exist_ok=True)
        return r

def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

def tlc(sc, module, cfg, env=None, args=(), workers=1, heap='3g', timeout=800, sim=None):
    """Run TLC on a copy-free spec dir; returns (rc, stdout)."""
    name = f'{module}_{hashlib.md5((cfg + str(env) + str(args)).encode()).hexdigest()[:8]}'
    cfgp = sc.path('tlc', name, module + '.cfg')
    open(cfgp, 'w').write(cfg)
    meta = sc.dir('tlc', name, 'states')
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-DTLA-Library={SPEC}',
           '-cp', JARS, 'tlc2.TLC', '-config', cfgp, '-metadir', meta, '-workers', str(workers),
           '-noGenerateSpecTE', '-lncheck', 'final', *map(str, args), os.path.join(SPEC, module + '.tla')]
    p = subprocess.run(cmd, cwd=os.path.dirname(cfgp), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def prints(out):
    """records printed with PrintT("@" \\o ToJson(..))"""
    for l in out.splitlines():
        if l.startswith('"@'):
            yield json.loads(json.loads(l)[1:])

GEN = r'''
import sys, json, traceback
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1] + '/src')
from vrtgen.main import main
'''

def generate(yaml_path, outdir, ns, extra=(), timeout=120):
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', '--dir', outdir, '--namespace', ns, *extra, yaml_path],
                       cwd=os.path.dirname(outdir) or '/', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def cxx(srcs, out, inc, extra=(), asan=True, timeout=600):
    cmd = ['g++', '-std=c++20', '-O0', '-w', '-D_GLIBCXX_ASSERTIONS', f'-I{REPO}/include', f'-I{HERE}'] + [f'-I{i}' for i in inc]
    if asan:
        cmd += ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_SANITIZE_VECTOR=1']
    cmd += [*srcs, '-o', out, *extra]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

RUNENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')

def snake(n):
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()

def tlc_error(out):
    """the interesting part of a failed TLC run, cut to a readable size"""
    ls = [l for l in out.splitlines() if not l.startswith('"@') and not re.match(r'(Parsing|Semantic|Linting|Warning|Progress|Computing|TLC2|Running|Starting|Finished)', l)]
    i = next((k for k, l in enumerate(ls) if 'rror' in l or 'ssert' in l), 0)
    return '\n'.join(l[:1500] for l in ls[i:i + 12])
