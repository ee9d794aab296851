"""Checks of the degradation procedures and of the files of cell data: ProcMC (model), ProcGen (schedules), ProcTrace (conformance)."""
import os
import rt, family, buildlib
from age import edit, add, inc

def op(name, pred=lambda e: True): return lambda e: e['op'] == name and pred(e)
def put(key, f): return lambda e: e.__setitem__(key, f(e))
def unit(key, k, f): return lambda e: e['u1'][0].__setitem__(k, f(e['u1'][0][k]))
def nth(pred, n, change):
    """falsifies the n-th event which satisfies pred"""
    def go(ev):
        c = [e for e in ev if pred(e)]
        if len(c) <= n: return False
        change(c[n]); return True
    return go
def drop(pred, n=0):
    def go(ev):
        c = [i for i, e in enumerate(ev) if pred(e)]
        if len(c) <= n: return False
        del ev[c[n]]; return True
    return go
def skipped(ev):
    """a data point in the middle of a phase was never stored, and is in no file"""
    for i in range(1, len(ev) - 1):
        if ev[i]['op'] == 'st' and ev[i - 1]['op'] == 'st' and ev[i + 1]['op'] == 'st':
            t = [e['pt'][0][4] for e in ev[i - 1:i + 2]]
            end = next(e for e in ev[i:] if e['op'] == 'cyced') if any(e['op'] == 'cyced' for e in ev[i:]) else None
            if end and t[2] - t[0] >= 2 * end['nd'] * end['dt'] > 0:
                ev[:] = [e for e in ev[:i] + ev[i + 1:] if e['op'] != 'files']; return True
    return False
balanced = op('bal', lambda e: e['bal'] and not e['chk'] and e['u0'][0]['k'] == 'k' and 2700000 <= e['vb'] <= 4200000)
full = op('fin', lambda e: len(e['thr']) >= 3 and len(e['cu']) >= 2)
def incycle(o): return op('p', lambda e: e['o'] == o)
P = {
 'P40': dict(mc=['uneven', 'all', 'force', 'loose', 'current', 'ages', 'heats', 'firstonly', 'stays', 'uncalled'], rounds=[('bal', 500, 2, 'cwd'), ('bal', 250, 2, 'cwd40'), ('cyc', 120, 1, 'cwd')],
   bad=[edit(balanced, unit('u1', 'V', lambda x: x + 5000)), edit(balanced, unit('u1', 'I', lambda x: 7)), edit(balanced, unit('u1', 'age', lambda x: 'x')), edit(balanced, unit('u1', 'T', lambda x: x + 1)), edit(op('bal'), put('blk', lambda e: True)),
        edit(op('p', lambda e: e['o'] == 'b' and e['v'] == 0 and e['any']), add('hi', 9000))]),
 'P41': dict(mc=['cuzero', 'skip', 'firstcap', 'nr', 'ah', 'states', 'tested', 'rewrite', 'oldnr', 'nocheck'], rounds=[('chk', 350, 2, 'cwd'), ('cyc', 120, 1, 'cwd'), ('chk', 100, 2, 'cwd40')],
   bad=[edit(op('checkup', lambda e: e['got']), lambda e: e['got'].pop()), edit(op('checkup'), put('same', lambda e: False)), edit(op('checkup', lambda e: e['got']), lambda e: e['got'][-1].__setitem__('cap', e['got'][-1]['cap'] + 50)), edit(op('checkup'), add('nr', 1)),
        edit(op('checkup', lambda e: e['got']), lambda e: e['got'][0]['st'].pop()), edit(full, lambda e: e['cu'][-1].__setitem__('nr', e['cu'][-1]['nr'] - 1)), edit(op('bal', lambda e: e['chk']), add('cu', 1))]),
 'P42': dict(mc=['norow', 'rowfail', 'dup', 'prepcount', 'nohead', 'nowrite', 'nostate', 'nothead', 'toponly', 'swapped'], rounds=[('cyc', 110, 2, 'cwd40'), ('cyc', 90, 2, 'cwd'), ('use', 12, 1, 'cwd'), ('one5', 24, 1, 'cwd40'), ('chk', 40, 2, 'cwd40')],
   bad=[edit(full, lambda e: e['thr'].pop()), edit(full, lambda e: e['thr'][1].__setitem__('ah', e['thr'][1]['ah'] + e['thr'][1]['ah'] // 2000 + 50)), edit(full, lambda e: e['thr'][1].__setitem__('wh', e['thr'][1]['wh'] + e['thr'][1]['wh'] // 1000 + 50)),
        edit(op('fin', lambda e: len(e['thr']) >= 3 and e['modw'] == [] and e['cv'] == 0), lambda e: e['thr'][2].__setitem__('cv', 500)), edit(op('mods', lambda e: e['got']), lambda e: e['got'][0].__setitem__('tm', e['got'][0]['tm'] + 5)), edit(op('fin'), put('hd', lambda e: 2))]),
 'P43': dict(mc=['late', 'every', 'blocked', 'nocv', 'goon', 'short', 'nofinal', 'deep'], rounds=[('cyc', 200, 2, 'cwd'), ('one5', 40, 1, 'cwd'), ('use', 16, 1, 'cwd'), ('use', 8, 1, 'cwd40')],
   bad=[drop(op('p', lambda e: e['o'] == 'I' and e['n'] > 0), 1), edit(op('p', lambda e: e['o'] == 'b'), add('v', 30)), nth(op('p', lambda e: e['o'] == 'I' and e['v'] == 0 and e['n'] > 0), 2, add('t', -9000)), edit(op('p', lambda e: e['o'] == 'w'), put('s', lambda e: 'other')), drop(op('p', lambda e: e['o'] == 'w')), edit(op('fin'), put('exc', lambda e: 1))]),
 'P50': dict(mc=['drop', 'lost', 'kept', 'truncate', 'prefix', 'shared', 'nofile'], rounds=[('rows', 220, 14, 'cwd40'), ('rows', 100, 14, 'cwd'), ('cycrows', 14, 1, 'cwd')],
   bad=[skipped, edit(op('files', lambda e: e['f'] and len(e['f'][0]['rows']) > 2), lambda e: e['f'][0]['rows'].pop()), edit(op('files', lambda e: e['f'] and len(e['f'][0]['rows']) > 2), lambda e: e['f'][0]['rows'].append(e['f'][0]['rows'][-1])), edit(op('files', lambda e: e['f']), lambda e: e['f'][0].__setitem__('heads', e['f'][0]['heads'] + 1)),
        edit(op('files', lambda e: e['f'] and len(e['f'][0]['rows']) > 2), lambda e: inc(2, 2, 90)(e['f'][0]['rows'])), edit(op('files', lambda e: e['f']), lambda e: e['f'][-1].__setitem__('pre', 'z')), edit(op('files', lambda e: e['f']), lambda e: e['f'][0].__setitem__('bad', 1))]),
}
def run(prop, work, cov):
    c = P[prop]; th = rt.TIER == 'thorough'
    mc = [('ProcMC', dict(N=3, Size=2), 'none')] + [('ProcMC', dict(N=3, Size=2), b) for b in c['mc']]
    if th: mc.append(('ProcMC', dict(N=5, Size=4), 'none'))
    rounds = [(n * (8 if th and k != 'cycrows' else 2 if th else 1), dict(Depth=d, Classes={k}), v) for k, n, d, v in c['rounds']]
    family.run(prop, work, cov, mc, 'ProcGen', 'ProcTrace', 'h_proc', rounds, c['bad'], variant='cwd', hargs=(os.path.join(buildlib.REPO, 'data'),), timeout=300)
