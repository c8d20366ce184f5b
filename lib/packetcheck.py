"""Checks of the packet properties: behaviours of spec/GenPacket.tla, generated by
TLC, are replayed into the generated classes and compared with the specification."""
import collections
from run import *
import catalog, replay, gencheck

def obs_of(cat): return cat.startswith('obs:')
def robs_of(cat): return cat.startswith('robs:')

ALL = ['ctx0', 'ctx12', 'ctxvar', 'data', 'ctl', 'weif']

def relevant(pid):
    """does this mismatch category, seen on an otherwise conforming history, break the property?"""
    return dict(
        C01=lambda c: c in ('bytes', 'length', 'crash'),
        C02=lambda c: c == 'rbytes' or c.startswith('robs:') or c in ('after-rebuild', 'rcrash'),
        C03=lambda c: c == 'size',
        C05=lambda c: c != 'match',
        C06=lambda c: c in ('bytes', 'crash', 'api', 'length', 'rbytes') or c.startswith(('obs:tr.', 'robs:tr.', 'obs:field.discrete_io', 'robs:field.discrete_io',
                                                                       'obs:field.state_event', 'robs:field.state_event')),
        C07=lambda c: c in ('bytes', 'length', 'rbytes', 'crash', 'size') or c.startswith(('obs:field.', 'robs:field.')),
        C08=lambda c: c in ('bytes', 'rbytes', 'crash') or c.startswith(('obs:field.', 'robs:field.')),
        C09=lambda c: c == 'match',
        C10=lambda c: c not in ('match', 'size'),
        C15=lambda c: c in ('generate', 'compile', 'init', 'api') or c.startswith('obs:'),
        C16=lambda c: True,
        C19=lambda c: c != 'match',
    )[pid]

def has_pairs(sh):
    """the class has a trailer, a state/event word or a discrete I/O word"""
    return bool(sh.get('trailer')) or any(f['k'] in ('state_event_indicators', 'discrete_io_32', 'discrete_io_64') for f in sh['fields'])

def random_groups(sc, what, num, seed, only=None):
    """definition files generated by spec/GenDefs.tla"""
    rc, o = tlc(sc, 'GenDefs', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=dict(WHAT=what),
                args=['-simulate', f'num={num}', '-depth', 3, '-seed', seed])
    if rc:
        raise Fail('GenDefs: ' + tlc_error(o))
    return [replay.Group(sc, f'{what}{seed}_{i}', r['defs'], only=only) for i, r in enumerate(prints(o))]

def run(rep, groups, num, depth, seeds=1, keep=None, only=None, sys=0, sysgroups=None):
    """replay behaviours for every class of the groups; report the property's violations"""
    pid = rep.pid
    rel = relevant(pid)
    with Scratch() as sc:
        G = [g if isinstance(g, replay.Group) else replay.Group(sc, g, catalog.group(g), only=only) for g in (groups(sc) if callable(groups) else groups)]
        replay.build([g for g in G if not g.built])
        for g in G:
            for kind, cls, text in g.errors:
                # code that cannot be generated or compiled provides none of the guarantees
                if keep and cls in g.shapes and not keep(g.shapes[cls]): continue
                first = next((l for l in text.splitlines() if 'error' in l.lower()), text[-300:])
                if kind == 'generate': first = text.strip().splitlines()[-1]
                if kind not in ('generate', 'compile'): first = text
                rep.add(f'{kind}:{g.name}:{cls}', f'{cls}: {gencheck.SAYS[kind]}: {first[-600:]}',
                        dict(definitions=[d for d in g.ds], error=text))
        jobs = [(g, SEED * 1000 + k) for k in range(seeds) for g in G if g.bin]
        # enumerated histories (1: every field on its own and amid all others; 2: in pairs too)
        enum = [(g, p) for g in G if sys and g.bin and (not sysgroups or g.name in sysgroups) for p in replay.portions(g, keep)]
        enum.sort(key=lambda x: -sum(len(s['fields']) for s in x[1]))
        jobs = enum + jobs
        work = lambda j: replay.enumerated(sc, j[0], j[1], SEED, sys > 1) if isinstance(j[1], list) else replay.behaviours(sc, j[0], j[1], num or 5 * len(j[0].shapes), depth)
        B = [(g, b) for (g, _), bs in zip(jobs, pmap(work, jobs)) for b in bs]
        B = [(g, b) for g, b in B if b[0] in g.bin and (not keep or keep(g.shapes[b[0]]))]
        tol = pid == 'C03'
        def one(x):
            g, (cls, recs) = x
            bad, n = replay.replay(g, cls, recs, rel, tol)
            if bad:
                again, _ = replay.replay(g, cls, recs, rel, tol)
                if [(m.cat, m.step) for m in again] != [(m.cat, m.step) for m in bad]:
                    return [], n          # not reproducible: not believed
                if pid == 'C15' and bad[0].step == 0:
                    for m in bad: m.cat = 'init'
                if pid == 'C02' and bad[0].rebuilt and not any(rel(m.cat) for m in bad) and replay.rebuild_matters(g, cls, recs, bad):
                    bad[0].cat = 'after-rebuild' if bad[0].cat != 'crash' else 'rcrash'
            return [m for m in bad if rel(m.cat)], n
        R = pmap(one, B)
    steps = sum(len(b[1]) for _, b in B)
    rep.count(states=steps, transitions=steps - len(B), traces_validated_against_impl=len(B),
              comparisons=sum(n for _, n in R) + len(B), classes=len({(g.name, b[0]) for g, b in B}))
    per = collections.Counter(b[0] for _, b in B)
    rep.cov['traces_per_class'] = {**rep.cov.get('traces_per_class', {}), **per}
    for g, (cls, recs) in B[:3]:
        rep.sample(dict(cls=cls, behaviour=[replay.opline(r)[:120] for r in recs[1:12]]))
    for (g, (cls, recs)), (bad, _) in zip(B, R):
        for m in bad:
            rep.add(f'{m.cls}:{m.cat}', f'{m}', dict(definition=g.ds, cls=cls, category=m.cat, step=m.step, expected=m.exp,
                    got=m.got, script=m.script[:m.step + 3]))
            break
    return G
