"""The check of every property."""
from report import Report
from run import SEED
import packetcheck as pk, probecheck as pb, codeccheck as cc, sockcheck as so, exchcheck as ex, natscheck as nc, schemacheck as sk, gencheck as gr

FIXED = pk.ALL + ['attr', 'fx']

def C01(r, q):
    pk.run(r, pk.ALL, 40 if q else 600, 40, 1 if q else 4, sys=1 if q else 2)
def C02(r, q):
    pk.run(r, pk.ALL, 40 if q else 600, 40, 1 if q else 4, sys=1 if q else 2)
def C03(r, q):
    pk.run(r, pk.ALL, 40 if q else 600, 40, 1 if q else 4, sys=1 if q else 2)
def C05(r, q):
    pk.run(r, ['data'], 120 if q else 1500, 60, 4 if q else 8, sys=1 if q else 2)

def C09(r, q):
    pb.run(r, pk.ALL + ['near'], ('own', 'flips', 'cross', 'more'), 25 if q else 250, 20, 1 if q else 4)
def C18(r, q):
    pb.run(r, pk.ALL + ['near'], ('own', 'sizes'), 20 if q else 200, 20, 1 if q else 4)

def C10(r, q):
    vx = lambda s: s['vx']
    pk.run(r, lambda sc: ['weif', 'ctl'] + pk.random_groups(sc, 'ctl', 8 if q else 40, SEED, vx), 60 if q else 1000, 50, 2 if q else 6, only=vx, sys=1 if q else 2, sysgroups=FIXED if q else None)
def C15(r, q):
    pk.run(r, lambda sc: pk.ALL + pk.random_groups(sc, 'all', 8 if q else 48, SEED + 100) + gr.runs(sc, 2 if q else 8, SEED), None, 12, 1 if q else 4)
def C16(r, q):
    ack = lambda s: s['kind'] in ('ack', 'xack')
    pk.run(r, lambda sc: ['weif', 'ctl'] + pk.random_groups(sc, 'ctl', 16 if q else 80, SEED + 200, ack), 20 if q else 400, 40, 1 if q else 4, only=ack, sys=1, sysgroups=FIXED if q else None)

def C04(r, q):
    cc.run(r, 150 if q else 3000, 30, 8)
def C06(r, q):
    cc.run(r, 100 if q else 2000, 30, 8)
    pk.run(r, lambda sc: ['ctx12', 'data'] + pk.random_groups(sc, 'data', 8 if q else 40, SEED + 300) + pk.random_groups(sc, 'ctx', 4 if q else 30, SEED + 301),
           None if q else 400, 30, 1 if q else 4, keep=lambda sh: pk.has_pairs(sh), sys=1, sysgroups=['data'] if q else None)
def C07(r, q):
    cc.run(r, 200 if q else 4000, 30, 8)
    pk.run(r, ['ctx0', 'ctx12', 'ctxvar'], 40 if q else 800, 40, 1 if q else 4, sys=1 if q else 2)
def C08(r, q):
    cc.run(r, 150 if q else 3000, 30, 8, sweep=not q)
    pk.run(r, ['fx'], 60 if q else 600, 20, 1, sys=1)

def C11(r, q):
    ex.run(r, 'controllee', not q, 12 if q else 120, 30, jobs=1 if q else 3)
def C12(r, q):
    ex.run(r, 'controller', not q, 12 if q else 120, 30, jobs=1 if q else 3)
def C13(r, q):
    nc.run(r, 160 if q else 1600, 60 if q else 200, 3 if q else 4, 2)
def C14(r, q):
    sk.run(r, 70 if q else 1500, 6)
def C17(r, q):
    ex.run(r, 'receiver', not q, 16 if q else 160, 30, jobs=1 if q else 3)

def C19(r, q):
    pk.run(r, lambda sc: ['attr'] + pk.random_groups(sc, 'attr', 4 if q else 32, SEED + 400), 60 if q else 800, 40, 1 if q else 4, keep=lambda sh: sh['has7'] or sh['name'] == 'AttNone', sys=1 if q else 2, sysgroups=FIXED if q else None)

def C20(r, q):
    so.run(r, 40 if q else 400, 60, 2 if q else 8)

LEVEL = {}

def run(pid, tier):
    r = Report(pid, tier, LEVEL.get(pid, 'model_checking'))
    globals()[pid](r, tier == 'quick')
    return r.finish()
