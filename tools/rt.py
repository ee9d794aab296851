"""Runtime of the checks: TLC runs, generation of schedules from a specification, execution on the implementation, validation of the
recorded executions against a specification, and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildlib
VERIF = buildlib.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
T0 = time.time()
NCPU = os.cpu_count() or 4

class CheckError(Exception): pass

def errs(out):
    """the first error TLC reports"""
    k = out.find('Error: ')
    return out[max(k, 0):][:1200]

def log(*a): print(*a, flush=True)

def classes():
    """the Java evaluation of Num.tla"""
    d = os.path.join(VERIF, '.build', 'classes'); os.makedirs(d, exist_ok=True)
    src = os.path.join(SPEC, 'java', 'Num.java'); stamp = os.path.join(d, 'ok-' + buildlib.tree_hash([src]))
    if not os.path.exists(stamp):
        tmp = tempfile.mkdtemp(dir=d)
        r = subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError('javac: ' + r.stdout)
        for f in os.listdir(tmp): os.replace(os.path.join(tmp, f), os.path.join(d, f))
        os.rmdir(tmp); open(stamp, 'w').close()
    return d

class Work:
    """scratch directory of one check"""
    def __init__(self, prop):
        base = os.path.join(VERIF, '.work'); os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix=prop + '-', dir=base); self.n = 0
        self.replay = os.path.join(VERIF, '.replay', prop)
        shutil.rmtree(self.replay, ignore_errors=True)
    def sub(self, name):
        self.n += 1
        p = os.path.join(self.d, f'{self.n}-{name}'); os.makedirs(p); return p
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def tlaval(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tlaval(x) for x in sorted(v)) + '}'
    return '"' + str(v).replace('\\', '\\\\').replace('"', '\\"') + '"'

def cfgtext(consts, extra): return 'CONSTANTS\n' + ''.join(f' {k} = {tlaval(v)}\n' for k, v in consts.items()) + extra if consts else extra

def tlc(work, module, cfg, args=(), timeout=600, workers='1', heap='2g'):
    """runs TLC in a scratch copy of the specification; returns (exit code, output)"""
    d = work.sub(module)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
    open(os.path.join(d, module + '.cfg'), 'w').write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-cp', JARS + ':' + classes(), 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', os.path.join(d, 'meta'), '-workers', workers, *args, '-config', module + '.cfg', module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        raise CheckError(f'TLC {module}: timeout {timeout}s')
    out = r.stdout
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out

def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    dpt = re.findall(r'depth of the complete state graph search is (\d+)', out)
    return dict(generated=int(m[-1][0]), distinct=int(m[-1][1]), depth=int(dpt[-1]) if dpt else 0) if m else {}

def generate(work, module, consts, num, depth, seed):
    """behaviours of a generator specification, as lists of commands"""
    rc, out = tlc(work, module, cfgtext(consts, 'SPECIFICATION Spec\nINVARIANT Show\nCHECK_DEADLOCK FALSE\n'),
                  ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)], timeout=300)
    res = []
    seen = set()
    for line in out.splitlines():
        if line.startswith('"SCHEDULE '):
            s = json.loads(line)[9:]
            if s in seen: continue
            seen.add(s); res.append(json.loads(s))
    if not res: raise CheckError('no schedules generated: ' + errs(out))
    return res

def modelcheck(work, module, consts, extra, timeout=600, workers='auto', args=(), expect_violation=False):
    """exhaustive check of a model; any error here is an error of the check, not of the implementation"""
    rc, out = tlc(work, module, cfgtext(consts, extra), args, timeout, workers, heap='4g')
    if expect_violation:
        if 'is violated' not in out: raise CheckError(f'the model with a planted mistake is not rejected: {consts} ' + errs(out))
        return {}
    if rc != 0 or 'No error has been found' not in out: raise CheckError(f'model {module} fails: ' + errs(out))
    return stats(out)

class Crash(Exception):
    def __init__(self, why, events): super().__init__(why); self.events = events

def execute(exe, args, lines, timeout=120, cwd=None, env=None):
    """one process of the implementation; returns its recorded events"""
    try:
        r = subprocess.run([exe, *args], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd, errors='replace', env=env)
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        o = o.decode(errors='replace') if isinstance(o, bytes) else o
        raise Crash(f'no end after {timeout} s', events_of(o))
    if r.returncode == 3 : raise CheckError('harness rejects its input: ' + r.stderr[-500:])
    if r.returncode != 0: raise Crash(f'ended with {r.returncode}: {r.stderr[-300:]}', events_of(r.stdout))
    return events_of(r.stdout)

def events_of(txt):
    ev = []
    for l in txt.splitlines():
        if l.startswith('{'):
            try: ev.append(json.loads(l))
            except ValueError: pass
    return ev

def validate(work, module, consts, events, timeout=600):
    """(accepted, consumed, names of rejected guarantees, TLC statistics)"""
    d = work.sub('trace')
    f = os.path.join(d, 'trace.ndjson')
    with open(f, 'w') as fh:
        for e in events: fh.write(json.dumps(e, separators=(',', ':')) + '\n')
    rc, out = tlc(work, module, cfgtext(dict(consts, TraceFile=f), 'SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'), timeout=timeout, heap='3g')
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
    if os.environ.get('VERIF_KEEP') is None: shutil.rmtree(d, ignore_errors=True)
    if not m: raise CheckError(f'trace validation with {module} gives no answer: ' + errs(out))
    c, n = int(m.group(1)), int(m.group(2))
    if n != len(events): raise CheckError('trace not read completely')
    why = re.findall(r'<<"REJECT", "([^"]*)"', out)
    if 'Error: ' in out and c == n and 'No error' not in out: raise CheckError(errs(out))
    return c == n, c, why, stats(out), out

def chunks(lst, n):
    n = max(1, min(n, len(lst)))
    return [lst[i::n] for i in range(n)]

class Violation(Exception):
    def __init__(self, prop, what, artefacts): super().__init__(what); self.prop = prop; self.what = what; self.artefacts = artefacts

def flat(schedules): return [c for s in schedules for c in s]

def split_events(ev, start_op):
    out = []
    for e in ev:
        if e['op'] == start_op: out.append([])
        if out: out[-1].append(e)
    return out

def self_test(work, prop, module, consts, totals, corrupt, start_op='build', tries=12):
    """the trace specification is not vacuous: a recorded execution with one falsified observation must be rejected"""
    done = 0
    for ev in totals['traces']:
        c = json.loads(json.dumps(ev))
        if not corrupt(c): continue
        ok, k, why, st, out = validate(work, module, consts, c)
        if not ok: return 1
        done += 1
        if done >= tries: break
    if done: raise CheckError(f'{done} falsified executions were all accepted: the specification does not see the corruption')
    raise CheckError('no recorded execution is suitable for the self test')

def check_schedules(work, prop, exe, hargs, module, consts, schedules, start_op='build', jobs=None, timeout=100, env=None, confirm=2, nondet=1):
    """executes the schedules on the implementation and validates what was recorded; raises Violation"""
    jobs = jobs or NCPU
    totals = dict(events=0, schedules=len(schedules), ops={}, states=0, traces=[])
    def one(sched, tmo):
        """a single schedule on its own: (rejected?, why, events)"""
        try: ev = execute(exe, hargs, sched, tmo, env=env)
        except Crash as c: return True, f'the implementation does not complete the schedule ({c})', c.events
        ok, c, why, st, out = validate(work, module, consts, ev)
        if ok: return False, '', ev
        return True, f'{"; ".join(dict.fromkeys(why)) or "no behaviour of the specification"} at event {c + 1}: {json.dumps({k: v for k, v in ev[c].items() if len(str(v)) < 200})[:600]}', ev
    def confirmed(sched, first):
        for k in range(confirm if nondet == 1 else nondet):
            bad, why, ev = one(sched, timeout)
            if bad: return why, ev
        return None
    def job(part):
        try: ev = execute(exe, hargs, flat(part), timeout, env=env)
        except Crash as c:
            for s in part:
                r = confirmed(s, None)
                if r: raise Violation(prop, r[0], dict(schedule=s, events=r[1]))
            raise CheckError(f'a run failed once but not again: {c}')
        ok, c, why, st, out = validate(work, module, consts, ev)
        if not ok:
            # the schedule the first rejected event belongs to
            k = -1
            for i in range(0, c + 1):
                if ev[i]['op'] == start_op: k += 1
            r = confirmed(part[k], why)
            if r: raise Violation(prop, r[0], dict(schedule=part[k], events=r[1]))
            # depends on what happened before in the same process: replay the whole prefix
            pre = part[:k + 1]
            ev2 = execute(exe, hargs, flat(pre), timeout, env=env)
            ok2, c2, why2, _, _ = validate(work, module, consts, ev2)
            if not ok2: raise Violation(prop, f'{"; ".join(why2)} at event {c2 + 1} (needs the earlier schedules of the same process): {json.dumps({k: v for k, v in ev2[c2].items() if len(str(v)) < 200})[:400]}', dict(schedule=flat(pre), events=ev2[-50:]))
            raise CheckError('a rejection did not repeat: ' + '; '.join(why))
        return ev, st
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        for ev, st in ex.map(job, chunks(schedules, jobs)):
            totals['traces'] += split_events(ev, start_op)
            totals['events'] += len(ev); totals['states'] += st.get('distinct', 0)
            for e in ev:
                k = e['op']
                totals['ops'][k] = totals['ops'].get(k, 0) + 1
    return totals

def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def evidence(prop, level, coverage, assumptions=(), violations=0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, wall_s=round(time.time() - T0, 2), assumptions=list(assumptions))
    if violations: ev['violations'] = int(violations)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def report(work, v):
    os.makedirs(work.replay, exist_ok=True)
    with open(os.path.join(work.replay, 'what.txt'), 'w') as f: f.write(v.what + '\n')
    for k, x in v.artefacts.items():
        with open(os.path.join(work.replay, k + ('.txt' if k == 'schedule' else '.ndjson')), 'w') as f:
            f.write('\n'.join(x if k == 'schedule' else [json.dumps(e) for e in x]) + '\n')
    log('  ' + v.what)
    log(f'VIOLATION property={v.prop} replay={work.replay}')
