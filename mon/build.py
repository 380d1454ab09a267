"""Build the monitored library, driver and tools from /repo's working tree."""
import hashlib, os, re, shutil, subprocess, sys, glob, concurrent.futures, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FLPR_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
BASE = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_DEBUG',
        '-ftrivial-auto-var-init=pattern', '-DFLPR_MONITOR']
# for valgrind, which has to see uninitialized variables
PLAIN = ['-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-DFLPR_MONITOR']
# the release build, for what work costs
FAST = ['-std=c++17', '-O2', '-g1', '-DNDEBUG', '-DFLPR_MONITOR']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fsanitize-address-use-after-scope']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('latin-1')[-6000:]))


def build(what=('driver',), san='asan', verbose=False):
    """Returns dict name -> binary path. Object files are cached by the content of
    everything they can include, so an unchanged tree is not recompiled."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(what, san, verbose)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(what, san, verbose):
    src = os.path.join(REPO, 'src', 'flpr')
    headers = sorted(glob.glob(os.path.join(src, '*.hh')))
    lfile = os.path.join(src, 'scan_fort.l')
    flags = {'asan': BASE + SAN, 'plain': PLAIN, 'fast': FAST}[san]
    hh = sha(*[os.path.basename(h).encode() + b'\0' + read(h) for h in headers])
    lh = sha(read(lfile))
    gen = os.path.join(BUILD, 'gen', lh)
    if not os.path.exists(os.path.join(gen, 'done')):
        os.makedirs(gen, exist_ok=True)
        run(['flex', '--outfile=' + os.path.join(gen, 'scan_fort.cc'),
             '--header-file=' + os.path.join(gen, 'scan_fort.hh'), lfile])
        open(os.path.join(gen, 'done'), 'w').close()
    # the statement rules which this tree declares
    hdir = os.path.join(VERIF, 'harness')
    decl = set(re.findall(r'\bStmt_Tree\s+(\w+)\s*\(\s*TT_Stream', ''.join(read(h).decode('latin-1') for h in headers)))
    rl = ''.join(l for l in open(os.path.join(hdir, 'rules.list')) if l.strip()[2:-1] in decl)
    rdir = os.path.join(BUILD, 'gen', 'rules-' + sha(rl))
    os.makedirs(rdir, exist_ok=True)
    with open(os.path.join(rdir, 'rules.inc'), 'w') as f:
        f.write(rl)
    lib = sorted(glob.glob(os.path.join(src, '*.cc')))
    units = [(f, 'lib') for f in lib] + [(os.path.join(gen, 'scan_fort.cc'), 'lib')]
    hinc = sha(rl, *[read(f) for f in sorted(glob.glob(os.path.join(hdir, '*.hh')) + glob.glob(os.path.join(hdir, '*.inc')))])
    appdir = os.path.join(REPO, 'apps')
    ainc = sha(*[read(f) for f in sorted(glob.glob(os.path.join(appdir, '*.hh')))])
    groups = {}
    if 'driver' in what:
        groups['driver'] = sorted(glob.glob(os.path.join(hdir, '*.cc')))
    if 'apps' in what:
        bases = [f for f in glob.glob(os.path.join(appdir, '*_base.cc'))]
        for m in sorted(glob.glob(os.path.join(appdir, '*.cc'))):
            if m in bases:
                continue
            n = os.path.basename(m)[:-3]
            b = os.path.join(appdir, n.replace('-', '_') + '_base.cc')
            groups[n] = [m] + ([b] if b in bases else [])
    for g, fs in groups.items():
        units += [(f, g) for f in fs]
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    jobs, objs, seen = [], {}, {}
    for f, g in units:
        extra = '' if g == 'lib' else (hinc if g == 'driver' else ainc)
        key = sha(os.path.basename(f), read(f), hh, lh, extra, ' '.join(flags))
        o = os.path.join(objdir, key + '.o')
        objs.setdefault(g, []).append(o)
        if key in seen:
            continue
        seen[key] = 1
        if not os.path.exists(o):
            inc = ['-I' + os.path.join(REPO, 'src'), '-I' + gen]
            if g == 'driver':
                inc += ['-I' + hdir, '-I' + rdir]
            elif g != 'lib':
                inc.append('-I' + appdir)
            jobs.append((f, [CXX] + flags + inc + ['-c', f, '-o', o + '.tmp'], o))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if j[0].endswith('parse_stmt.cc') else 0))

    def one(j):
        if verbose:
            print('compile', j[0], flush=True)
        run(j[1])
        os.replace(j[2] + '.tmp', j[2])
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(one, j) for j in jobs]:
                r.result()
    bins = {}
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    links = []
    for g in groups:
        key = sha(g, san, *objs[g], *objs['lib'])
        b = os.path.join(bindir, '%s-%s' % (g, key))
        bins[g] = b
        if not os.path.exists(b):
            links.append([CXX] + flags + objs[g] + objs['lib'] + ['-o', b + '.tmp'] + ['&', b])

    def link(cmd):
        b = cmd[-1]
        run(cmd[:-2])
        os.replace(b + '.tmp', b)
    if links:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(link, c) for c in links]:
                r.result()
    # bound the cache
    for d, keep in ((objdir, 400), (bindir, 60)):
        fs = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
        for x in fs[:-keep]:
            try:
                os.remove(x)
            except OSError:
                pass
    return bins


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(tuple(sys.argv[1:]) or ('driver',), verbose=True), time.time() - t)
