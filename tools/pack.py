"""Checks of the storage-unit properties: PackMC (model), PackGen (schedules), PackTrace (conformance)."""
import rt, buildlib

def nodes(e, f): return [n for n in e.get('sn', []) if f(n)]
def leaf(n): return n['k'] in ('b', 'e1', 'e2', 'k')
def bump(pred, sel, key, d):
    """falsifies one field of one unit in the first event which satisfies pred"""
    def go(ev):
        for e in ev:
            if pred(e):
                c = [n for n in e['sn'] if sel(n) and key in n and abs(n[key]) < 1000000000] if key != 'h' else nodes(e, sel)
                if c:
                    if key == 'h': c[-1]['h'] = 'x' + c[-1]['h'][1:]
                    else: c[-1][key] += d
                    return True
        return False
    return go
ok = lambda e: e.get('exc', 0) == 0
def setfield(pred, key, val):
    def go(ev):
        for e in ev:
            if pred(e): e[key] = val(e); return True
        return False
    return go
def flip(a):
    return lambda e: 1 if e[a] == 0 else 0

# classes of trees, number of schedules (quick, thorough), models (kind, bug) and falsification per property
P = {
 'P01': dict(cl={'cell', 'spm'}, n=(900, 12000), mc=[('cell', 'none'), ('cell', 'keep')], bad=bump(lambda e: e['op'] == 'setI' and e['st'] >= 3 and ok(e), leaf, 'I', 500)),
 'P02': dict(cl={'cell', 'spm', 'string'}, n=(900, 12000), mc=[('cell', 'none'), ('cell', 'status')], bad=bump(lambda e: e['op'] == 'setI', leaf, 'chk', 5)),
 'P03': dict(cl={'cell', 'spm', 'string', 'block', 'nested', 'battery'}, n=(900, 12000), mc=[('cell', 'none'), ('cell', 'ah'), ('string', 'charge')], bad=bump(lambda e: e['op'] == 'step' and e['x'] > 0 and ok(e), leaf, 'ah', 300)),
 'P04': dict(cl={'cell', 'spm', 'string', 'block', 'nested', 'battery'}, n=(900, 12000), mc=[('string', 'none'), ('string', 'stale')], bad=bump(lambda e: e['op'] == 'setI', leaf, 'V', 90)),
 'P05': dict(cl={'cell', 'spm', 'string', 'block', 'nested', 'battery'}, n=(900, 12000), mc=[('string', 'none'), ('string', 'partial'), ('cell', 'none')], bad=bump(lambda e: e['op'] == 'load', lambda n: True, 'h', 0)),
 'P06': dict(cl={'cell', 'string', 'block'}, n=(900, 12000), mc=[('cell', 'none'), ('cell', 'ohm')], bad=bump(lambda e: e['op'] == 'setI' and e['st'] == 0, lambda n: leaf(n) and n['V'] > 0, 'V', 90)),
 'P10': dict(cl={'string', 'nested', 'spm', 'battery'}, n=(800, 10000), mc=[('string', 'none'), ('string', 'rollback')], bad=bump(lambda e: e['op'] == 'setI', lambda n: n['k'] == 's' and n['V'] > 0, 'V', 900)),
 'P11': dict(cl={'block', 'nested', 'spm'}, n=(800, 10000), mc=[('block', 'none'), ('block', 'split'), ('block', 'total')], bad=bump(lambda e: e['op'] == 'setI' and e['st'] == 0, lambda n: n['k'] == 'p', 'I', 900)),
 'P12': dict(cl={'string', 'block', 'nested', 'spm'}, n=(500, 6000), mc=[('string', 'none'), ('block', 'none'), ('block', 'cap')], bad=bump(lambda e: e['op'] == 'setI', lambda n: n['k'] in 'sp' and n['ch'], 'cap', 900)),
 'P13': dict(cl={'string', 'nested', 'spm', 'battery', 'block'}, n=(1200, 14000), mc=[('string', 'none'), ('string', 'rollback'), ('block', 'none'), ('block', 'keep')], bad=bump(lambda e: e['op'] == 'setI' and e['st'] >= 3 and ok(e), lambda n: n['n'] == 1, 'I', 900000)),
 'P14': dict(cl={'cell', 'string', 'block', 'nested', 'battery', 'spm'}, n=(700, 10000), mc=[('string', 'none'), ('string', 'worst'), ('block', 'low')], bad=bump(lambda e: e['op'] == 'setI', lambda n: n['k'] in 'sp', 'vh', 900)),
 'P15': dict(cl={'string', 'block', 'nested', 'battery', 'spm'}, n=(700, 10000), mc=[('battery', 'none'), ('battery', 'owner')], bad=bump(lambda e: e['op'] == 'copy', lambda n: n['up'] == 1, 'up', 1)),
 'P16': dict(cl={'string', 'block', 'nested', 'spm', 'wide'}, n=(450, 6000), mc=[('string', 'none')], bad=setfield(lambda e: e['op'] == 'setI', 'h2', lambda e: 'x'), args=['twin']),
 'P17': dict(cl={'battery'}, n=(700, 10000), mc=[('battery', 'none'), ('battery', 'np')], bad=bump(lambda e: e['op'] == 'setI', lambda n: n['k'] == 'B', 'I', 900)),
 'P18': dict(cl={'string', 'nested', 'battery', 'spm', 'block'}, n=(700, 10000), mc=[('string', 'none')], bad=bump(lambda e: e['op'] == 'setV' and e['st'] == 0, lambda n: n['n'] == 1, 'V', 90000)),
}

def run(prop, work, cov):
    c = P[prop]; thorough = rt.TIER == 'thorough'
    consts = dict(Clauses={prop})
    cov.update(states=0, transitions=0, models=[])
    for kind, bug in c['mc']:
        m = dict(Kind=kind, Bug=bug, Depth=5 if thorough and bug == 'none' else 3, Clauses={prop})
        st = rt.modelcheck(work, 'PackMC', m, 'SPECIFICATION Spec\nINVARIANTS CommandsLegal LawsHold\nVIEW View\nCHECK_DEADLOCK FALSE\n', expect_violation=bug != 'none')
        cov['models'].append(dict(model='PackMC', kind=kind, mutation=bug, result='violated as it must be' if bug != 'none' else 'holds', **st))
        if bug == 'none': cov['states'] += st.get('distinct', 0); cov['transitions'] += st.get('generated', 0)
    exe = buildlib.build(['h_tree'], 'base')['h_tree']
    n = c['n'][1 if thorough else 0]; rounds = 4 if thorough else 1
    tot = None
    for r in range(rounds):
        seed = rt.SEED * 1000 + int(prop[1:]) * 17 + r
        sch = rt.generate(work, 'PackGen', dict(Depth=(16, 10, 28, 40)[r], Classes=c['cl']), n // rounds, 200, seed)
        t = rt.check_schedules(work, prop, exe, c.get('args', []), 'PackTrace', consts, sch)
        if tot is None: tot = t; tot['sample'] = sch[:2]
        else:
            for k in ('events', 'schedules', 'states'): tot[k] += t[k]
            for k, v in t['ops'].items(): tot['ops'][k] = tot['ops'].get(k, 0) + v
    cov['falsified_traces_rejected'] = rt.self_test(work, prop, 'PackTrace', consts, tot, c['bad'])
    cov.update(traces_validated_against_impl=tot['schedules'], events_validated=tot['events'], commands=tot['ops'], samples=tot['sample'])
    cov['transitions'] += tot['events']; cov['states'] += tot['states']
