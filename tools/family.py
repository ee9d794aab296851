"""One property of a family: models (with planted mistakes which must be rejected), schedules generated from the specification,
executed on the code, validated against the trace specification; and the self test of that validation."""
import concurrent.futures
import rt, buildlib

def run(prop, work, cov, mc, gen, trace, prog, rounds, bad, consts=None, inv='INVARIANT Sound', variant='base', hargs=(), start_op='build', timeout=100, env=None, tconsts=None, confirm=2):
    """mc: (module, constants, bug); rounds: (number of schedules, generator constants[, variant of the build]) for this tier"""
    clauses = dict(Clauses={prop})
    cov.update(states=0, transitions=0, models=[])
    def model(m):
        module, c, bug = m
        return rt.modelcheck(work, module, dict(c, Bug=bug, **clauses), f'SPECIFICATION Spec\n{inv}\nCHECK_DEADLOCK FALSE\n', workers='auto' if bug == 'none' else '2', expect_violation=bug != 'none')
    with concurrent.futures.ThreadPoolExecutor(4) as ex: results = list(ex.map(model, mc))
    for (module, c, bug), st in zip(mc, results):
        cov['models'].append(dict(model=module, constants={k: str(v) for k, v in c.items()}, mutation=bug, result='violated as it must be' if bug != 'none' else 'holds', **st))
        if bug == 'none': cov['states'] += st.get('distinct', 0); cov['transitions'] += st.get('generated', 0)
    variants = list(dict.fromkeys(r[2] if len(r) > 2 else variant for r in rounds))
    exes = {v: buildlib.build([prog], v)[prog] for v in variants}
    tot = None
    tc = dict(clauses, **(tconsts or {}))
    for r, (n, c, *v) in enumerate(rounds):
        exe = exes[v[0] if v else variant]
        seed = rt.SEED * 1000 + int(prop[1:]) * 17 + r
        sch = rt.generate(work, gen, c, n, 300, seed)
        t = rt.check_schedules(work, prop, exe, list(hargs), trace, tc, sch, start_op=start_op, timeout=timeout, env=env, confirm=confirm)
        if tot is None: tot = t; tot['sample'] = sch[:2]
        else:
            for k in ('events', 'schedules', 'states', 'traces'): tot[k] += t[k]
            for k, v in t['ops'].items(): tot['ops'][k] = tot['ops'].get(k, 0) + v
    cov['falsified_traces_rejected'] = sum(rt.self_test(work, prop, trace, tc, tot, b, start_op) for b in (bad if isinstance(bad, list) else [bad]))
    cov.update(traces_validated_against_impl=tot['schedules'], events_validated=tot['events'], commands=tot['ops'], samples=tot['sample'], builds=variants)
    cov['transitions'] += tot['events']; cov['states'] += tot['states']
    return tot
