"""Runs the parser and the generator on a history of documents in one process.

usage: schemadrv.py REPO JOBS OUT SCRATCH;  JOBS: [{id, text, inc, dump}], results one JSON per line"""
import sys, os, json, io, shutil, contextlib, hashlib, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
repo, jobs, out, scratch = sys.argv[1:5]
sys.path.insert(0, repo + '/src')
import jinja2
# compiled templates are shared between the runs; they are keyed by the text of the template
def cached(init, cache=jinja2.FileSystemBytecodeCache(os.path.dirname(scratch))):
    def f(self, *a, **k):
        init(self, *a, **dict(dict(bytecode_cache=cache), **k))
    return f
jinja2.Environment.__init__ = cached(jinja2.Environment.__init__)
import vrtgen.main
from vrtgen import parser
from vrtgen.parser.loader import get_loader

CAM = ('permit_partial', 'permit_warnings', 'permit_errors')
REQ = ('req_v', 'req_x', 'req_s', 'req_w', 'req_er')

def num(v):
    return -1 if v is None else int(v)

def members(ms):
    return [[m.name, m.packed_tag.position, m.packed_tag.bits] for m in ms]

def extra(name, ty):
    """what a field's definition says beyond its mode"""
    t = type(ty).__name__
    if name in ('reference_level', 'buffer_size'):
        return ('difi' if t in ('ReferenceLevel', 'BufferSize') else ''), []
    if name == 'index_list':
        return str(ty.entries.type_.bits if ty.entries.type_.bits in (8, 16, 32) else 8), []
    if name.startswith('discrete_io'):
        return '', members(ty.subfields)
    return '', []

def enabled(c):
    return [f for f in c.fields if f.enabled and not getattr(f, 'indicator_only', False) and not f.name.startswith('packed')]

def cif(c):
    if not c.enabled:
        return dict(on=False, f=[])
    return dict(on=True, f=[[f.name, bool(f.required), *extra(f.name, f.type_)] for f in enabled(c)])

def ident(i):
    return i.format.name.lower() if i.enabled else ''

def dump(name, p):
    h = p.header
    r = dict(name=name, ptype=int(h.packet_type.value), ack=False)
    r['cls'] = []
    if h.class_id_enable.value:
        c = p.class_id
        oui = c.oui.value
        r['cls'] = [list(oui.to_bytes(3, 'big')) if oui is not None else [], num(c.information_code.value), num(c.packet_code.value)]
    r['tsi'] = [bool(p.timestamp.integer.enabled), int(h.tsi.value) if h.tsi.enabled else 0]
    r['tsf'] = [bool(p.timestamp.fractional.enabled), int(h.tsf.value) if h.tsf.enabled else 0]
    r['tsm'] = int(h.tsm.value) if getattr(h, 'tsm', None) is not None and h.tsm.enabled else -1
    r['sot'] = int(h.spectrum_or_time.value) if getattr(h, 'spectrum_or_time', None) is not None and h.spectrum_or_time.enabled else -1
    nv = getattr(h, 'not_v49d0', None)
    r['b25'] = 1 if nv is not None and nv.value else 0
    s = p.stream_id
    if not s.enabled:
        r['sid'] = ['none']
    elif s.user_defined:
        r['sid'] = ['user', members([f for f in s.fields if f.user_defined])]
    else:
        r['sid'] = ['word', [] if s.value is None else list(s.value.to_bytes(4, 'big'))]
    r.update(cam=[], action=[], ctee='', cter='', cif0=dict(on=False, f=[]), cif1=dict(on=False, f=[]), cif2=dict(on=False, f=[]),
             cif7=[False, []], trailer=[False, '', []], weif=[])
    if hasattr(p, 'cam'):
        c = p.cam
        r['ack'] = bool(h.acknowledge_packet.value)
        pick = lambda k: getattr(c, k if not r['ack'] else k.replace('req_', 'ack_'))
        r['cam'] = {k: [bool(pick(k).enabled), bool(pick(k).required), bool(pick(k).value)] for k in CAM + REQ}
        r['action'] = [bool(c.action_mode.enabled), int(c.action_mode.value)]
        r['ctee'], r['cter'] = ident(p.controllee_id), ident(p.controller_id)
        for k in ('controllee', 'controller'):
            i = getattr(p, k + '_id')
            if bool(getattr(c, k + '_enable').value) != bool(i.enabled) or (i.enabled and getattr(c, k + '_format').value != i.format):
                r['cam'][k] = 'the mode word disagrees with the identifier'
    if hasattr(p, 'cif_0'):
        for i in (0, 1, 2):
            r[f'cif{i}'] = cif(getattr(p, f'cif_{i}'))
        if p.cif_7.enabled:
            r['cif7'] = [True, [f.name for f in p.cif_7.fields if f.enabled]]
    if hasattr(p, 'trailer') and p.trailer.enabled:
        t = p.trailer
        r['trailer'] = [True, ('required' if t.sample_frame.required else 'optional') if t.sample_frame.enabled else '', members(t.subfields)]
        if bool(h.trailer_included.value) is not True:
            r['trailer'].append('not announced in the header')
    if hasattr(p, 'wif_0') and (p.wif_0.enabled or p.eif_0.enabled):
        w = [[f.name for f in enabled(getattr(p, f'wif_{i}'))] for i in (0, 1, 2)]
        e = [[f.name for f in enabled(getattr(p, f'eif_{i}'))] for i in (0, 1, 2)]
        r['weif'] = w if w == e else [w, e]
    return r

def model(path):
    facts, info = [], []
    for name, v in parser.parse_file(path, get_loader()):
        if name == 'files' and isinstance(v, list):
            continue
        if hasattr(v, 'packet_classes'):
            info.append([name, num(v.code), list(v.packet_classes.values)])
        else:
            # a model that cannot be looked into says nothing about the file
            try: f = dump(name, v)
            except Exception: f = None
            facts.append(f)
    return (None if None in facts else facts), info

def run_main(path, outdir, extra):
    sys.argv = ['vrtpktgen', 'cpp', '--dir', outdir, '--namespace', 'q', *extra, path]
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
            vrtgen.main.main()
        return True, ''
    except SystemExit as e:
        return e.code in (None, 0), f'SystemExit({e.code!r})'
    except Exception as e:
        return False, f'{type(e).__name__}: {e}'[:300]

fp = open(out, 'w')
for j in json.load(open(jobs)):
    d = os.path.join(scratch, str(j['id'])); os.makedirs(d)
    incp, path, outdir = os.path.join(d, 'inc.yaml'), os.path.join(d, 'main.yaml'), os.path.join(d, 'out')
    if j['inc'] is not None:
        open(incp, 'w').write(j['inc'].replace('@inc', incp))
    open(path, 'w').write(j['text'].replace('@inc', incp))
    r = dict(id=j['id'], key=j['key'])
    if j['dump']:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r['facts'], r['info'] = model(path)
        except Exception as e:
            r['error'] = f'{type(e).__name__}: {e}'[:300]
    r['ok'], r['say'] = run_main(path, outdir, j.get('extra', []))
    files = {}
    for root, _, fs in os.walk(outdir):
        for f in fs:
            files[os.path.relpath(os.path.join(root, f), outdir)] = hashlib.md5(open(os.path.join(root, f), 'rb').read().replace(d.encode(), b'')).hexdigest()
    r['files'] = files
    fp.write(json.dumps(r) + '\n'); fp.flush()
    shutil.rmtree(d)
