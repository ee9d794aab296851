"""Builds the library from /repo's current working tree plus the harness programs, out of tree, cached by content hash."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, shutil, fcntl
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
VARIANTS = {
  'base': [],                                                                   # exactly what a user builds
  't2':   ['-DSLIDE_VERIF_HOOKS', '-DSLIDE_VERIF_T_MODEL=2', '-DSLIDE_VERIF_NDATA_MAX=40'],
  'cwd':  [],                                                                   # data and results below the working directory
  'cwd40': ['-DSLIDE_VERIF_HOOKS', '-DSLIDE_VERIF_T_MODEL=2', '-DSLIDE_VERIF_NDATA_MAX=40'],   # the same, with a small buffer of data points
  't1':   ['-DSLIDE_VERIF_HOOKS', '-DSLIDE_VERIF_T_MODEL=1', '-DSLIDE_VERIF_NDATA_MAX=40'],
}
FLAGS = ['-std=c++20', '-O2', '-g', '-w']
SKIP = {'main.cpp'}

def lib_sources():
    # the translation units the project itself compiles into its library
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        lst = os.path.join(root, 'CMakeLists.txt')
        if not os.path.exists(lst): continue
        txt = open(lst, errors='replace').read()
        import re
        for m in re.findall(r'[\w./-]+\.cpp', re.sub(r'#[^\n]*', '', txt)):
            f = os.path.normpath(os.path.join(root, m))
            if os.path.exists(f) and os.path.basename(f) not in SKIP: out.append(f)
    return sorted(set(out))

def include_dirs():
    out = [os.path.join(REPO, 'src')]
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        if 'CMakeLists.txt' in files and 'target_include_directories' in open(os.path.join(root, 'CMakeLists.txt'), errors='replace').read():
            out.append(root)
    return out

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]

def all_src():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            if f.endswith(('.hpp', '.cpp', '.h', '.txt')): out.append(os.path.join(root, f))
    return sorted(out)

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise SystemExit('BUILD-FAILED ' + ' '.join(cmd) + '\n' + r.stdout[-6000:])

def build(progs, variant='base'):
    """returns {prog: path to executable}"""
    os.makedirs(BUILD, exist_ok=True)
    srch = tree_hash(all_src())
    vdir = os.path.join(BUILD, f'{variant}-{srch}')
    os.makedirs(vdir, exist_ok=True)
    with open(os.path.join(vdir, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = [x for d in include_dirs() + [os.path.join(VERIF, 'harness')] for x in ('-I', d)]
        root = os.path.join(vdir, 'root')
        os.makedirs(os.path.join(root, 'results'), exist_ok=True)
        if not os.path.islink(os.path.join(root, 'data')): os.symlink(os.path.join(REPO, 'data'), os.path.join(root, 'data'))
        defs = VARIANTS[variant] + ['-DSLIDE_ROOT_DIR="' + ('.' if variant.startswith('cwd') else root) + '"']
        jobs = []; objs = []
        for s in lib_sources():
            o = os.path.join(vdir, 'lib_' + os.path.relpath(s, REPO).replace('/', '_') + '.o')
            objs.append(o)
            if not os.path.exists(o): jobs.append((s, o))
        exe = {}
        hh = tree_hash([os.path.join(VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))) if f.endswith('.hpp')])
        pobj = {}
        for p in progs:
            src = os.path.join(VERIF, 'harness', p + '.cpp')
            o = os.path.join(vdir, f'{p}_{tree_hash([src])}_{hh}.o')
            pobj[p] = o; exe[p] = o[:-2] + '.exe'
            if not os.path.exists(exe[p]) : jobs.insert(0, (src, o))
        def comp(j):
            s, o = j
            run(['g++', *FLAGS, *defs, *inc, '-c', s, '-o', o + '.tmp']); os.rename(o + '.tmp', o)
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(comp, jobs))
        for p in progs:
            if not os.path.exists(exe[p]):
                run(['g++', '-g', '-o', exe[p] + '.tmp', pobj[p], *objs, '-lpthread']); os.rename(exe[p] + '.tmp', exe[p])
                os.unlink(pobj[p])
    # keep only a few cached trees
    dirs = sorted((d for d in os.listdir(BUILD) if '-' in d), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in dirs[:-9]:
        if not d.endswith(srch): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return exe

if __name__ == '__main__':
    print(build(sys.argv[2:], sys.argv[1]))
