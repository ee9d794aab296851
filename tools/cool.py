"""Checks of cooling, of the heat balance and of the converter: CoolMC (model), CoolGen (schedules), CoolTrace (conformance)."""
import rt, family
from age import edit, add, inc

def unit(pred, change):
    """falsifies the first unit of a pack which satisfies pred"""
    def go(ev):
        for e in ev:
            if e['op'] != 'step' or e['exc'] or not e['dt'] or e['blk']: continue
            for x in e['u']:
                if pred(e, x): change(e, x); return True
        return False
    return go
def put(key, f): return lambda e: e.__setitem__(key, f(e))
cool = lambda x: x['k'] in ('hvac', 'std', 'open')
kcell = lambda e, x: x['k'] == 'k'
def more(key, f): return lambda e, x: x.__setitem__(key, x[key] + f(e, x))
dst = lambda e: e['op'] == 'dst' and e['exc'] == 0
LONE = [(1500, dict(Depth=24, Classes={'lone'}))]
def packs(n, d, cls, variant): return (n, dict(Depth=d, Classes=cls), variant)
P = {
 'P30': dict(mc=['stuck', 'dead', 'global', 'gain', 'acfloor', 'late', 'strat'], steps=3, rounds=[(2000, dict(Depth=24, Classes={'lone'}), 'base'), packs(500, 16, {'pack', 'bat'}, 'base'), packs(300, 16, {'pack', 'bat'}, 't2')],
   bad=[edit(lambda e: e['op'] == 'ctrl', add('f', 900)), edit(lambda e: e['op'] == 'ctrl' and e['q'], add('q', 900)), edit(lambda e: e['op'] == 'dst', add('h', 900)), edit(lambda e: e['op'] == 'strat', add('ctl', 1))]),
 'P31': dict(mc=['anyT', 'cap', 'noac', 'absorbed', 'twice', 'copy'], steps=2, rounds=[(1500, dict(Depth=24, Classes={'lone'}), 'base'), packs(500, 16, {'pack', 'bat'}, 't2'), packs(200, 16, {'pack', 'bat'}, 'base')],
   bad=[edit(dst, add('ab', 900)), edit(dst, add('ev', 900)), edit(lambda e: dst(e) and abs(e['en']) < 2000000000, put('en', lambda e: e['en'] + e['en'] // 500 + 900)), edit(dst, add('tm', 1)), edit(lambda e: dst(e), add('dT', 90000)), edit(lambda e: e['op'] == 'ctrl', add('T', 1))]),
 'P32': dict(mc=['edge', 'oneway', 'block', 'lossfree', 'ohm'], steps=1, rounds=[packs(600, 16, {'pack', 'ecm'}, 't2'), packs(300, 16, {'bat'}, 't2'), packs(300, 14, {'pack', 'ecm', 'bat'}, 't1'), packs(100, 14, {'pack', 'bat'}, 'base')],
   bad=[unit(lambda e, x: kcell(e, x) and abs(x['dT']) < 2000000000, more('dT', lambda e, x: 300 + abs(x['dT']) // 200)), unit(kcell, more('qw', lambda e, x: 5000)), unit(lambda e, x: cool(x) and abs(x['dT']) < 2000000000, more('dT', lambda e, x: 60000 + abs(x['dT']) // 20)), edit(lambda e: e['op'] == 'load', lambda e: e['u'][-1].__setitem__('T', e['u'][-1]['T'] + 9))]),
 'P33': dict(mc=['conduct', 'idle', 'halved', 'again'], steps=1, rounds=[packs(700, 16, {'bat'}, 'base'), packs(500, 16, {'bat'}, 't2')],
   bad=[edit(lambda e: e['op'] == 'step' and e['exc'] == 0 and e['dt'] and 0 < e['loss'] < 1000000000, put('loss', lambda e: e['loss'] + e['loss'] // 900 + 5)), edit(lambda e: e['op'] == 'step' and e['exc'] == 0 and e['dt'], add('again', 1)), edit(lambda e: e['op'] == 'step' and e['exc'] == 0 and e['dt'], add('per', 1))]),
}
def run(prop, work, cov):
    c = P[prop]; th = rt.TIER == 'thorough'
    mc = [('CoolMC', dict(Steps=2 if not th else 3, Small=True), 'none')] + [('CoolMC', dict(Steps=c['steps'], Small=True), b) for b in c['mc']]
    if th: mc.append(('CoolMC', dict(Steps=2, Small=False), 'none'))
    rounds = c['rounds'] if not th else [(n * 6, dict(g, Depth=d), v) for n, g, v in c['rounds'] for d in (12, 32)]
    family.run(prop, work, cov, mc, 'CoolGen', 'CoolTrace', 'h_cool', rounds, c['bad'])
