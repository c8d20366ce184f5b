"""Abstract packet definitions: defaults, and mechanical rendering to YAML.

The meaning of a definition is given by spec/Defs.tla; this file only fills in
absent keys and writes the same information down in the YAML syntax."""
import copy

def norm(d):
    o = dict(name='', kind='context', to='', sid='none', sidv=[], sidparts=[],
             clsid=dict(on=False, oui=[], ic=-1, pc=-1, multi=False),
             tsi='', tsf='', tsm='', sot='', ctee='', cter='', cam=[],
             cif0=dict(on=False, f=[]), cif1=dict(on=False, f=[]), cif2=dict(on=False, f=[]),
             cif7=dict(on=False, f=[]), trailer=dict(on=False, sf='', user=[]), code=0, packets=[])
    o = copy.deepcopy(o)
    for k, v in d.items():
        if k == 'clsid':
            o['clsid'].update(v); o['clsid']['on'] = True
        elif k in ('cif0', 'cif1', 'cif2'):
            o[k] = dict(on=True, f=[fld(x) for x in v])
        elif k == 'cif7':
            o[k] = dict(on=True, f=list(v))
        elif k == 'trailer':
            o[k].update(v); o[k]['on'] = True
        else:
            o[k] = copy.deepcopy(v)
    return o

def fld(x):
    if isinstance(x, str):
        x = dict(n=x)
    r = dict(n='', mode='optional', x='', dio=[])
    r.update(x)
    return r

TAG = dict(data='Data', context='Context', xcontext='ExtensionContext', control='Control',
           xcontrol='ExtensionControl', ack='Ack', xack='ExtensionAck')

def render(d):
    if d['kind'] == 'info':
        return f"{d['name']}: !InformationClass\n  code: {d['code']:#x}\n  packet_classes:\n" + ''.join(f'    - {p}\n' for p in d['packets'])
    L = [f"{d['name']}: !{TAG[d['kind']]}"]
    if d['kind'] in ('ack', 'xack'):
        return '\n'.join(L + [f"  responds_to: {d['to']}"]) + '\n'
    if d['sid'] == 'word':
        if d['sidv']:
            L.append('  stream_id: !StreamID 0x' + ''.join('%02X' % b for b in d['sidv']))
        else:
            L.append('  stream_id: !StreamID')
    elif d['sid'] == 'user':
        L.append('  stream_id: !StreamID')
        for n, b in d['sidparts']:
            L += [f'    {n}: !IntegerType', f'      bits: {b}']
    c = d['clsid']
    if c['on']:
        L.append('  class_id: !ClassID')
        if c['oui']:
            L.append('    oui: ' + '-'.join('%02X' % b for b in c['oui']))
        if c['pc'] >= 0:
            L.append('    packet_code: 0x%X' % c['pc'])
        if c['ic'] >= 0:
            L.append('    information_code: 0x%X' % c['ic'])
    if d['tsi'] or d['tsf']:
        L.append('  timestamp: !Timestamp')
        if d['tsi']:
            L.append(f"    integer: {d['tsi']}")
        if d['tsf']:
            L.append(f"    fractional: {d['tsf']}")
    if d['tsm']:
        L.append(f"  tsm: {d['tsm']}")
    if d['sot']:
        L.append(f"  spectrum_or_time: {d['sot']}")
    if d['cam']:
        L.append('  cam: !ControlAcknowledgeMode')
        L += [f'    {k}: {v}' for k, v in d['cam']]
    if d['ctee']:
        L.append(f"  controllee_id: {d['ctee']}")
    if d['cter']:
        L.append(f"  controller_id: {d['cter']}")
    for i in (0, 1, 2):
        cif = d[f'cif{i}']
        if cif['on']:
            L.append(f'  cif_{i}: !CIF{i}')
            for f in cif['f']:
                L += field(f)
    if d['cif7']['on']:
        L.append('  cif_7: !CIF7')
        L += [f'    {n}: required' for n in d['cif7']['f']]
    t = d['trailer']
    if t['on']:
        L.append('  trailer: !Trailer')
        if t['sf']:
            L.append(f"    sample_frame: {t['sf']}")
        for n, k, ln in t['user']:
            if k == 'ind':
                L.append(f'    {n}: enable_indicator')
            else:
                L.append(f'    {n}:')
                L += [f'      - {n}_v{i}' for i in range(ln)]
    return '\n'.join(L) + '\n'

def field(f):
    n, m = f['n'], f['mode']
    if f['x'] == 'difi':
        tag = {'reference_level': 'DIFI1p2ReferenceLevel', 'buffer_size': 'DIFI1p2BufferSize'}[n]
        return [f'    {n}: !{tag}', f'      mode: {m}']
    if n == 'index_list':
        return [f'    {n}: !IndexList', f"      entry_size: {f['x'] or 8}"]
    if f['dio']:
        tag = {'discrete_io_32': 'DiscreteIO32', 'discrete_io_64': 'DiscreteIO64'}[n]
        L = [f'    {n}: !{tag}', f'      mode: {m}']
        for nm, k, ln in f['dio']:
            if k == 'bool': L.append(f'      {nm}: bool')
            elif k == 'ind': L.append(f'      {nm}: enable_indicator')
            elif k == 'int': L.append(f'      {nm}: {ln}')
            else:
                L.append(f'      {nm}:')
                L += [f'        - {nm}_v{i}' for i in range(ln)]
        return L
    return [f'    {n}: {m}']

def render_all(ds):
    return '\n'.join(render(d) for d in ds)
