"""Builds harness executables from /repo's working tree. Object files are cached by the content of everything they include."""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, os.path.join(VERIF, 'tools'))

RT = ['rt/sim.cpp', 'rt/alloc.cpp', 'rt/io.cpp', 'rt/runner.cpp']
RTFLAGS = ['-std=c++17', '-O2', '-g', '-Wno-shadow', '-fno-omit-frame-pointer']
SIMFLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0', '-fno-omit-frame-pointer', '-w', '-fno-pie']
LINK = ['-no-pie', '-rdynamic', '-Wl,--allow-multiple-definition']

_sha = {}
def sha(p):
    if p not in _sha:
        try:
            with open(p, 'rb') as f: _sha[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _sha[p] = None
    return _sha[p]

class BuildError(Exception): pass

def compile_one(src, flags, key_extra=''):
    """returns the object path"""
    cmd = ['g++'] + flags + ['-c', src]
    # paths differ between copies only if the roots differ; the key is the command, the content check is by dependency
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, 'obj'); os.makedirs(d, exist_ok=True)
    meta = os.path.join(d, key + '.json')
    try:
        variants = json.load(open(meta))
    except Exception: variants = []
    for v in variants:
        if os.path.exists(v['obj']) and all(sha(p) == h for p, h in v['deps'].items()):
            return v['obj']
    tmp = os.path.join(d, key + '.%d' % os.getpid())
    r = subprocess.run(cmd + ['-o', tmp + '.o', '-MD', '-MF', tmp + '.d'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.unlink(tmp + '.d')
    # system headers outside the two trees do not change
    deps = {p: sha(p) for p in map(os.path.normpath, deps) if p.startswith(REPO + '/') or p.startswith(VERIF + '/') or p.startswith(BUILD)}
    h = hashlib.sha256(json.dumps(sorted(deps.items())).encode()).hexdigest()[:16]
    obj = os.path.join(d, key + '-' + h + '.o')
    os.replace(tmp + '.o', obj)
    variants = [v for v in variants if os.path.exists(v['obj'])][-3:] + [{'obj': obj, 'deps': deps}]
    with open(meta + '.%d' % os.getpid(), 'w') as f: json.dump(variants, f)
    os.replace(meta + '.%d' % os.getpid(), meta)
    return obj

def protos():
    """generates C++ for the repository's protos; returns (include dir, sources)"""
    import glob
    names = sorted(glob.glob(os.path.join(REPO, 'src/tateyama/proto/kvs/*.proto')) + glob.glob(os.path.join(REPO, 'src/jogasaki/proto/*/*.proto')))
    own = os.path.join(VERIF, 'standin/proto')
    extra = [os.path.join(own, 'tateyama/proto/diagnostics.proto')]
    key = hashlib.sha256(''.join(n + str(sha(n)) for n in names + extra).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, 'proto', key)
    if not os.path.exists(d):
        t = d + '.%d' % os.getpid(); os.makedirs(t)
        r = subprocess.run(['protoc', '-I', os.path.join(REPO, 'src'), '-I', own, '--cpp_out=' + t] + names + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError('protoc\n' + r.stdout[-4000:])
        try: os.rename(t, d)
        except OSError: pass
    return d, sorted(glob.glob(d + '/**/*.pb.cc', recursive=True))

def unity_groups(u):
    """the sources of /repo matched by the harness, as lists that are compiled as one file each; files in solo stay alone"""
    import glob, re
    fs = sorted(os.path.relpath(p, REPO) for g in u['globs'] for p in glob.glob(os.path.join(REPO, g), recursive=True))
    fs = [f for f in dict.fromkeys(fs) if not any(re.search(x, f) for x in u.get('exclude', []))]
    solo = [f for f in fs if f in u.get('solo', [])]
    rest = [f for f in fs if f not in solo]
    cost = lambda f: os.path.getsize(os.path.join(REPO, f)) + 6000
    total = sum(map(cost, rest)); n = u['groups']; groups = [[]]; acc = 0
    for f in rest:
        if groups[-1] and acc > total / n * len(groups): groups.append([])
        groups[-1].append(f); acc += cost(f)
    return groups + [[f] for f in solo]

def compile_group(files, flags):
    """one object for several files; when they do not compile together, one object each"""
    if len(files) == 1: return [compile_one(os.path.join(REPO, files[0]), flags)]
    text = ''.join('#include "%s"\n' % os.path.join(REPO, f) for f in files)
    d = os.path.join(BUILD, 'unity'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(text.encode()).hexdigest()[:20] + '.cpp')
    if not os.path.exists(p):
        open(p + '.%d' % os.getpid(), 'w').write(text); os.replace(p + '.%d' % os.getpid(), p)
    try: return [compile_one(p, flags)]
    except BuildError as e:
        sys.stderr.write('unity group split: %s\n' % str(e)[-1500:])
        half = len(files) // 2
        return compile_group(files[:half], flags) + compile_group(files[half:], flags)

def build(name, h, log=None):
    srcs = []
    inc = ['-I' + os.path.join(VERIF, 'rt')] + ['-I' + os.path.join(VERIF, i) for i in h.get('vinc', [])] + \
          ['-I' + os.path.join(REPO, i) for i in h.get('inc', ['include', 'src'])] + h.get('cflags', [])
    if h.get('standin'):
        import mkstandin
        inc.append('-I' + mkstandin.generate(REPO, BUILD))
    jobs = []
    if h.get('protos'):
        pd, pcc = protos()
        inc.append('-I' + pd)
        want = h['protos'] if isinstance(h['protos'], list) else None
        for s in pcc:
            if want is None or any(s.endswith(w) for w in want): jobs.append((s, ['-std=c++17', '-O1', '-w', '-fno-pie', '-I' + pd]))
    for s in h['harness']: jobs.append((os.path.join(VERIF, s), SIMFLAGS + inc))
    for s in h.get('vsrc', []): jobs.append((os.path.join(VERIF, s), SIMFLAGS + inc))
    for s in h.get('sources', []): jobs.append((os.path.join(REPO, s), SIMFLAGS + h.get('flags', {}).get(s, []) + inc))
    for s in RT: jobs.append((os.path.join(VERIF, s), RTFLAGS + ['-fno-pie']))
    groups = unity_groups(h['unity']) if h.get('unity') else []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        gs = [ex.submit(compile_group, g, SIMFLAGS + h['unity'].get('flags', []) + inc) for g in groups]
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
        for g in gs: objs += g.result()
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    exe = os.path.join(BUILD, 'bin', name)
    cmd = ['g++'] + LINK + objs + h.get('libs', []) + ['-ldl', '-lpthread']
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    try:
        if open(exe + '.key').read() == key and os.path.exists(exe): return exe
    except OSError: pass
    t = exe + '.%d' % os.getpid()
    r = subprocess.run(cmd + ['-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('link %s\n%s' % (name, r.stdout[-6000:]))
    os.replace(t, exe)
    open(exe + '.key', 'w').write(key)
    return exe

if __name__ == '__main__':
    import harnesses
    names = sys.argv[1:] or list(harnesses.H)
    bad = 0
    for n in names:
        try: print(n, build(n, harnesses.H[n]), flush=True)
        except BuildError as e: print('BUILD FAILED', n, e); bad = 1
    sys.exit(bad)
