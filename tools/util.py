"""Checks of the utilities: UtilMC (models of the algorithms), UtilGen (calls), UtilTrace (conformance)."""
import rt, family
from age import edit, add, inc

def op(name, pred=lambda e: True): return lambda e: e['op'] == name and pred(e)
def put(key, f): return lambda e: e.__setitem__(key, f(e))
inside = lambda e: not e['exc'] and not e['nan'] and e['X'][0] < e['q'] < e['X'][-1]
P = {
 'P51': dict(mc=['nowalk', 'upper', 'extrap', 'nearest', 'always', 'side'], size=4, rounds=[('lin', 1200, 24)],
   bad=[edit(op('lin', lambda e: e['exc'] == 1), put('exc', lambda e: 0)), edit(op('lin', lambda e: not e['exc'] and e['bound']), put('exc', lambda e: 1)), edit(op('lin', inside), put('yt', lambda e: e['yt'] + 5 + abs(e['yt']) // 10000)),
        edit(op('lin', lambda e: e['k'] == 'vec' and e['st'] == -1), add('st', 2)), edit(op('lin', lambda e: e['k'] == 'span' and not e['exc'] and not e['nan']), put('y', lambda e: e['y'] + 9 + abs(e['y']) // 10000))]),
 'P52': dict(mc=['last', 'shift', 'lost', 'edge'], size=3, rounds=[('hist', 1500, 30)],
   bad=[edit(op('add', lambda e: len(e['ch']) == 2), inc('ch', 0, 3)), edit(op('add', lambda e: len(e['ch']) == 2), inc('ch', 1, 1)), edit(op('add'), add('tot', 1)), edit(op('hist', lambda e: e['n'] > 1), lambda e: e['edges'].pop()), edit(op('show', lambda e: e['bins']), inc('bins', 0, 1))]),
 'P53': dict(mc=['short', 'ratio', 'end', 'prev'], size=3, rounds=[('grid', 1200, 24)],
   bad=[edit(op('grid', lambda e: e['v'] and abs(e['v'][-1]) < 10 ** 8), inc('v', -1, 200)), edit(op('grid', lambda e: e['size']), add('back', 9)), edit(op('grid', lambda e: e['size'] > 2 and e['k'] == 'linspace_fix' and abs(e['nx']) < 10 ** 8), add('nx', 300)), edit(op('grid'), add('thr', -1)), edit(op('grid'), add('size', 1))]),
 'P55': dict(mc=['more', 'swap', 'first', 'silent'], size=3, rounds=[('csv', 1200, 24)],
   bad=[edit(op('csv', lambda e: e['missing']), put('exc', lambda e: 0)), edit(op('csv', lambda e: len(e['got']) > 1), lambda e: e['got'].pop()), edit(op('csv', lambda e: e['got'] and e['got'][0]), lambda e: inc(0, 0, 1)(e['got'])), edit(op('csv', lambda e: e['k'] == 'vec' and not e['missing']), add('d1', 1)), edit(op('models', lambda e: e['n'] > 12), add('refused', -1)), edit(op('models', lambda e: e['n'] > 2), inc('got', 1, 1))]),
 'P56': dict(mc=['double', 'low', 'clamp', 'norm', 'bucket', 'late', 'sum', 'half'], size=3, rounds=[('ocv', 500, 20), ('dis', 200, 16)],
   bad=[edit(op('valid'), put('ok', lambda e: not e['ok'])), edit(op('ocvin', lambda e: e['exc'] == 10000), put('exc', lambda e: 0)), edit(op('ocvin', lambda e: e['exc'] == 0), lambda e: e['got'][1]['Y'].append(4)), edit(op('rmse'), put('r', lambda e: e['r'] + 9000)),
        edit(op('dis', lambda e: len(e['v']) > 9), inc('v', 4, 2000)), edit(op('dis', lambda e: len(e['v']) > 9), inc('ax', 4, 5000)), edit(op('dis', lambda e: len(e['v']) > 9), inc('fp', 1, 400)), edit(op('dis', lambda e: len(e['v']) > 9), lambda e: [e[k].pop(4) for k in ('v', 'ah', 'ax', 'ay', 'cx', 'cy')])]),
}
def run(prop, work, cov):
    c = P[prop]; th = rt.TIER == 'thorough'
    mc = [('UtilMC', dict(Size=c['size']), 'none')] + [('UtilMC', dict(Size=c['size']), b) for b in c['mc']]
    if th: mc.append(('UtilMC', dict(Size=c['size'] + 2 if prop == 'P51' else 4), 'none'))
    rounds = [(n, dict(Depth=d, Classes={k}), 'cwd') for k, n, d in c['rounds']] if not th else [(n * 10, dict(Depth=d, Classes={k}), 'cwd') for k, n, _ in c['rounds'] for d in (16, 60)]
    family.run(prop, work, cov, mc, 'UtilGen', 'UtilTrace', 'h_util', rounds, c['bad'], variant='cwd')
