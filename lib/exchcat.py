"""Systems of one information class: commands for every combination of requestable
acknowledgements, with their acknowledgement classes, and data/context packets."""
import itertools
from defs import norm

MODES = ['off', 'optional', 'required']
IDS = [('', ''), ('word', 'uuid'), ('uuid', 'word')]       # controllee, controller
OUI = [0x12, 0x34, 0x56]

def command(k, n, combo):
    v, x, s = combo
    ids = IDS[k]
    cam = [[f'req_{q}', m] for q, m in zip('vxs', combo) if m != 'off']
    query = v == 'off' and x == 'off' and s != 'off' and n % 2 == 0
    if query: cam.insert(0, ['action_mode', 'none']); cam = [c for c in cam if c[0] != 'req_s'] + [['req_s', 'true']]
    else: cam.insert(n % 2 * len(cam), ['action_mode', 'dry-run' if n % 5 == 4 else 'execute'])
    if (v != 'off' or x != 'off') and n % 3 == 0: cam += [['req_w', 'true']] + ([['req_er', 'true']] if n % 2 else [])
    d = dict(name=f'Cmd{"ABC"[k]}{n}', kind='control', cam=cam, ctee=ids[0] if n % 4 else '', cter=ids[1],
             clsid=dict(oui=OUI, pc=0x100 * (k + 1) + n),
             cif0=[dict(n='bandwidth')] + ([dict(n='gain', mode='required')] if n % 2 and not query else []) + ([dict(n='gps_ascii')] if n == 2 else []))
    if n == 3: d.update(tsi='utc', tsf='picoseconds')
    if n == 4: d.update(sid='user', sidparts=[['lane', 5], ['unit', 11], ['site', 16]])
    if n == 5: d.update(kind='xcontrol', cif0=[dict(n='bandwidth'), dict(n='gain')])
    return d

def system(k, pick):
    """information class k with the commands of the given combinations"""
    ds, names = [], []
    for n, combo in pick:
        c = command(k, n, combo); ds.append(c); names.append(c['name'])
        if any(m != 'off' for m in combo) and n != 8:
            a = dict(name=(f'Answer{n}' if n % 2 else c['name'] + 'Ack'), kind='xack' if c['kind'] == 'xcontrol' else 'ack', to=c['name'])
            ds.append(a); names.append(a['name'])
    more = [
        dict(name='Signal', kind='data', sid='word', clsid=dict(oui=OUI, pc=0x700), tsi='utc', trailer=dict(sf='optional') if k else {}, ),
        dict(name='Scene', kind='context', clsid=dict(oui=OUI, pc=0x701), cif0=[dict(n='bandwidth'), dict(n='gps_ascii'), dict(n='gain', mode='required')]),
        dict(name='Extra', kind='xcontext', clsid=dict(oui=OUI, pc=0x702), tsm='any', cif0=[dict(n='temperature'), dict(n='state_event_indicators')]),
        dict(name='Flush', kind='data', sid='none', clsid=dict(oui=OUI, pc=0x703)),
    ]
    if not k: more[0].pop('trailer')
    ds += more; names += [m['name'] for m in more]
    ds.append(dict(name='Info', kind='info', code=0x40 + k, packets=names))
    return [norm(d) for d in ds]

def systems(full):
    all_ = list(itertools.product(MODES, MODES, MODES))
    out = {}
    for k in range(3):
        mine = [c for i, c in enumerate(all_) if (i + i // 3 + i // 9) % 3 == k]      # a Latin square: all pairs of modes
        # rotate so that the numbering tricks fall on different combinations
        mine = mine[2 * k:] + mine[:2 * k]
        pick = list(enumerate(mine))
        if not full: pick = [pick[i] for i in ((0, 1, 3, 4, 5), (1, 2, 4, 6, 7), (0, 3, 5, 7, 8))[k]]
        out['sys' + 'ABC'[k]] = system(k, pick)
    return out
