"""Outcome of a check: violations, known findings, evidence."""
import json, os, re, shutil, sys, time
from run import VERIF, SEED

KNOWN = os.path.join(VERIF, 'known-findings.txt')

def known():
    """signatures listed as known findings: {(property, sig): text}"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

class Report:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.viol = {}     # sig -> (text, replay dict)
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.replays = os.path.join(VERIF, 'replay', pid)
        shutil.rmtree(self.replays, ignore_errors=True)

    def add(self, sig, text, replay=None):
        if sig not in self.viol:
            self.viol[sig] = (text, replay or {})

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        kn = known()
        new = 0
        listed = []
        for sig, (text, rp) in self.viol.items():
            if (self.pid, sig) in kn:
                listed.append(sig)
                continue
            new += 1
            if new > 10: continue
            os.makedirs(self.replays, exist_ok=True)
            path = os.path.join(self.replays, f'{new}.json')
            json.dump({**rp, "property": self.pid, "sig": sig, "text": text}, open(path, 'w'), indent=1, default=str)
            print(f'  {text[:1200]}')
            print(f'VIOLATION property={self.pid} replay={path}')
        for (p, sig), text in kn.items():
            if p == self.pid and sig in listed:
                print(f'KNOWN-FINDING: property={p} {text}')
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['none']
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 1), violations=new, assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print(f'{self.pid} {self.tier}: {"VIOLATED" if new else "held"} on everything explored; '
              + ', '.join(f'{k}={v}' for k, v in self.cov.items()) + f'; {ev["wall_s"]} s')
        return 1 if new else 0
