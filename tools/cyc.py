"""Checks of the cycler: CycMC (model), CycGen (schedules), CycTrace (conformance)."""
import rt, family

def edit(pred, ctx, change):
    """falsifies the first event which satisfies pred within a command which satisfies ctx"""
    def go(ev):
        c = None
        for k, e in enumerate(ev):
            if e['op'] == 'begin': c = e
            if e['op'] == 'end' and c and pred(e) and ctx(c): change(e); return True
            if e['op'] == 'end': c = None
            elif c and e['op'] != 'begin' and ctx(c) and pred(e): change(e); return True
        return False
    return go
def add(key, d): return lambda e: e.__setitem__(key, e[key] + d)
def put(key, v): return lambda e: e.__setitem__(key, v)
def cmd(*n): return lambda c: c['cmd'] in n and not c['faulty']
A = {'cell', 'spm', 'string', 'block', 'battery', 'spms'}
cc = dict(Cmds={'cc'}, Steps=3, Small2=False); cv = dict(Cmds={'cv'}, Steps=3, Small2=False); rest = dict(Cmds={'rest'}, Steps=3, Small2=False); cccv = dict(Cmds={'cccv'}, Steps=2, Small2=True)
step = lambda e: e['op'] == 'time' and e['exc'] == 0
def sign(ev):
    for i, e in enumerate(ev):
        if e['op'] == 'begin' and e['cmd'] == 'cccv' and not e['faulty'] and i + 3 < len(ev):
            s = [x for x in ev[i + 1:i + 6] if x['op'] == 'setI']
            if len(s) > 1 and s[0]['x'] == 0 and s[1]['x'] != 0 and abs(s[1]['pV'] - e['v']) > 9: s[1]['x'] = -s[1]['x']; return True
    return False
def viol(ev):
    c = None
    for i, e in enumerate(ev):
        if e['op'] == 'begin': c = e
        if c and c['cmd'] == 'cc' and c['diag'] and step(e) and e['vs'] == 0 and e['V'] > 0: e['vs'] = 2; return True
    return False
P = {
 'P20': dict(mc=[(cc, b) for b in ('none', 'late', 'limit', 'restore', 'half', 'over')], bad=[edit(step, cmd('cc'), add('pI', 5000)), edit(lambda e: e['op'] == 'end' and e['st'] == -5, cmd('cc'), put('st', -4))]),
 'P21': dict(mc=[(cv, b) for b in ('none', 'vset', 'hold', 'ilim', 'notol', 'over', 'safety')], bad=[edit(lambda e: e['op'] == 'setV', cmd('cv'), add('x', 9000)), edit(lambda e: e['op'] == 'end' and e['st'] == -4, cmd('cv'), put('st', -6))]),
 'P22': dict(mc=[(cccv, b) for b in ('none', 'sign')], bad=[sign]),
 'P23': dict(mc=[(rest, b) for b in ('none', 'idle', 'over')], bad=[edit(step, cmd('rest'), add('pI', 5000)), edit(step, cmd('rest'), add('k', 1000))]),
 'P24': dict(mc=[(cc, 'none'), (cc, 'thru'), (cc, 'volt'), (cccv, 'none'), (cccv, 'first'), (rest, 'rtime')], bad=[edit(lambda e: e['op'] == 'end', cmd(k), add('tm', 3000)) for k in ('cc', 'cv', 'rest')]),
 'P25': dict(mc=[(cc, b) for b in ('none', 'stride', 'idat', 'final')] + [(cv, 'none'), (rest, 'none')], bad=[edit(lambda e: e['op'] == 'store', cmd(k), put('op', 'none')) for k in ('cc', 'rest')]),
 'P26': dict(mc=[(cc, b) for b in ('none', 'diag')], bad=[viol]),
 'P27': dict(mc=[(cc, 'none')], bad=[edit(lambda e: e['op'] == 'end' and e['ret'] > 0, cmd('cap'), add('ret', 900000)), edit(lambda e: e['op'] == 'end', cmd('cap'), put('same', False))]),
}
def run(prop, work, cov):
    c = P[prop]; th = rt.TIER == 'thorough'
    mc = [('CycMC', dict(k, Steps=k['Steps'] + 1) if th and b == 'none' and 'cccv' not in k['Cmds'] else k, b) for k, b in c['mc']]
    if prop == 'P27': rounds = [(400, dict(Depth=6, Classes={'cap'}))] if not th else [(3000, dict(Depth=6, Classes={'cap'})), (1500, dict(Depth=12, Classes={'cap'}))]
    else: rounds = [(900, dict(Depth=6, Classes=A))] if not th else [(3000, dict(Depth=5, Classes=A)), (3000, dict(Depth=8, Classes=A)), (1500, dict(Depth=16, Classes=A))]
    family.run(prop, work, cov, mc, 'CycGen', 'CycTrace', 'h_cyc', rounds, c['bad'])
