"""Checks of the physics-based cell and its ageing: AgeMC (model), AgeGen (schedules), AgeTrace (conformance)."""
import rt, family

def edit(pred, change):
    """falsifies the first event which satisfies pred"""
    def go(ev):
        for e in ev:
            if pred(e): change(e); return True
        return False
    return go
def add(key, d): return lambda e: e.__setitem__(key, e[key] + d)
def inc(key, k, d): return lambda e: e[key].__setitem__(k, e[key][k] + d)
step = lambda e: e['op'] == 'step' and e['exc'] == 0 and e['dt'] > 0 and abs(e['it']) < 1900000000
free = lambda e: step(e) and not e['blk'] and e['texc'] == 0 and len(e['row']) > 2 and e['dir'][1] == 1 and e['eps'][1] < 1000000 and e['who'].count('p1') == 0
law = lambda e: e['ok'] and abs(e['xp']) < 1900000000 and abs(e['xn']) < 1900000000 and 100 < abs(e['I'])
def row(k, d): return lambda e: e['row'][0].__setitem__(k, e['row'][0][k] + d)
P = {
 'P07': dict(mc=['leak', 'flow', 'relax', 'jump', 'block'], cls={'lith', 'all', 'none'}, bad=[edit(step, add('dln', 40)), edit(step, add('dlp', -40)), edit(lambda e: e['op'] == 'setI', add('dcp', 5)), edit(lambda e: e['op'] == 'step' and e['I'] == 0 and e['exc'] == 0 and 0 < e['dt'] <= 1000 and e['mp'] > 0, add('mp', 1000000000))]),
 'P08': dict(mc=['block', 'back', 'aged', 'zero'], cls={'lith', 'all', 'none'}, bad=[edit(lambda e: step(e) and e['dir'][1] == 1, inc('dir', 1, -2)), edit(lambda e: step(e) and e['blk'], inc('dir', 0, 1)), edit(lambda e: e['op'] == 'setT', lambda e: e.__setitem__('aged', True))]),
 'P09': dict(mc=['first', 'mix', 'crackx', 'factor', 'square', 'swap', 'unknown', 'por'], cls={'all', 'bad', 'none'}, bad=[edit(free, row(1, 9000000)), edit(free, row(2, -9000000)), edit(lambda e: step(e) and e['uexc'] == 0, add('uz', 90)), edit(lambda e: e['op'] == 'build', add('R1', 90000))]),
 'P19': dict(mc=['entropy', 'eta', 'isothermal', 'film', 'drop'], cls={'lith', 'all', 'none'}, bad=[edit(law, add('V', 200)), edit(law, add('ocv', 90)), edit(lambda e: 'R' in e, add('R', 900))]),
}
def run(prop, work, cov):
    c = P[prop]; th = rt.TIER == 'thorough'
    mc = [('AgeMC', dict(Steps=2 if th and prop != 'P09' else 1, Small=not th), 'none')] + [('AgeMC', dict(Steps=1, Small=True), b) for b in c['mc']]
    if th: mc.append(('AgeMC', dict(Steps=3, Small=True), 'none'))
    rounds = [(700, dict(Depth=14, Classes={k})) for k in sorted(c['cls'])] if not th else [(n, dict(Depth=d, Classes={k})) for k in sorted(c['cls']) for n, d in ((4000, 10), (3000, 25))]
    family.run(prop, work, cov, mc, 'AgeGen', 'AgeTrace', 'h_spm', rounds, c['bad'])
