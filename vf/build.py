"""Builds every executable and library the checks need from /repo's current working tree.

Nothing is written inside /repo.  Results are cached under /verif/.cache/<hash of all the
sources and of this recipe>; a changed source file therefore always leads to a rebuild.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
CTL = '/usr/share/libctl'
H5S = '/usr/lib/x86_64-linux-gnu/hdf5/serial'
H5P = '/usr/lib/x86_64-linux-gnu/hdf5/openmpi'

#            config.h dir, extra flags, compiler
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-omit-frame-pointer',
       '-fno-sanitize-recover=undefined', '-g1']
VARIANTS = {
    'complex': ('complex', [], 'gcc'),
    'inv': ('inv', [], 'gcc'),
    'herm': ('herm', [], 'gcc'),
    'mpi': ('mpi', [], 'mpicc'),
    'mpiinv': ('mpiinv', [], 'mpicc'),
    'debug': ('debug', [], 'gcc'),
    'asan-complex': ('complex', SAN, 'gcc'),
    'asan-inv': ('inv', SAN, 'gcc'),
    'asan-herm': ('herm', SAN, 'gcc'),
}

class BuildError(Exception):
    pass

def sources():
    out = []
    for pat in ('src/*.h', 'src/*/*.[ch]', 'src/*/Makefile.am', 'mpb/*', 'utils/*'):
        out += [p for p in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(p)]
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for p in sources() + sorted(glob.glob(os.path.join(VERIF, 'cfg/*/*'))) + [os.path.abspath(__file__)] \
            + sorted(glob.glob(os.path.join(VERIF, 'shim/*.c')) + glob.glob(os.path.join(VERIF, 'shim/*/*.c'))):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def am_sources(mkfile, var):
    s = open(os.path.join(REPO, mkfile)).read().replace('\\\n', ' ')
    m = re.search(r'^' + re.escape(var) + r'\s*=\s*(.*)$', s, re.M)
    if not m: raise BuildError('no %s in %s' % (var, mkfile))
    return [w for w in m.group(1).split() if w.endswith('.c')]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

ENV = dict(os.environ, LC_ALL='C.UTF-8', GUILE_AUTO_COMPILE='0', OMPI_CC='gcc')

def gen_common(d):
    """generated sources shared by all variants: sphere-quad.h, mu.c, mpb.scm, ctl-io, main, geom"""
    done = os.path.join(d, 'done')
    if os.path.exists(done): return
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'sphere_quad')
    cfg = os.path.join(VERIF, 'cfg', 'complex')
    def sphere():
        sh(['gcc', '-DHAVE_CONFIG_H', '-I' + cfg, '-O1', os.path.join(REPO, 'src/util/sphere-quad.c'), '-o', exe, '-lm'])
        out = subprocess.run([exe], stdout=subprocess.PIPE, text=True)
        if out.returncode: raise BuildError('sphere_quad failed')
        with open(os.path.join(d, 'sphere-quad.h'), 'w') as f: f.write('/* generated */\n\n' + out.stdout)
    def rest():
        s = open(os.path.join(REPO, 'mpb/epsilon.c')).read()
        open(os.path.join(d, 'mu.c'), 'w').write(s.replace('epsilon', 'mu').replace('eps_inv', 'mu_inv'))
        flags = ''
        for line in open(os.path.join(REPO, 'src/matrices/eigensolver.h')):
            line = line.rstrip('\n')
            if '#define EIGS_' not in line: continue
            line = re.sub(r'#define ([A-Za-z0-9_]*) \(1<<([0-9]*)\)', r'(define \1 (pow2 \2))', line, count=1)
            line = re.sub(r'#define ([A-Za-z0-9_]*) \((.*)\)', r'(define \1 (+ \2))', line, count=1)
            flags += re.sub(r' *\| *', ' ', line)
        s = open(os.path.join(REPO, 'mpb/mpb.scm.in')).read()
        s = s.replace('@LIBCTL_DIR@', CTL).replace('@EIGS_FLAGS_SCM@', flags).replace('@ACTIVATE_READLINE@', '')
        scm = os.path.join(d, 'mpb.scm')
        open(scm, 'w').write(s)
        shutil.copy(CTL + '/base/main.c', os.path.join(d, 'main.c'))
        shutil.copy(CTL + '/utils/geom.c', os.path.join(d, 'geom.c'))
        sh(['gen-ctl-io', '--code', '-o', os.path.join(d, 'ctl-io.c'), scm, CTL], env=ENV, cwd=d)
        sh(['gen-ctl-io', '--header', '-o', os.path.join(d, 'ctl-io.h'), scm, CTL], env=ENV, cwd=d)
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(sphere), ex.submit(rest)]: f.result()
    open(done, 'w').write('ok')

def libsrc():
    out = []
    for mk, var in (('src/util', 'libutil_la_SOURCES'), ('src/matrices', 'libmatrices_la_SOURCES'),
                    ('src/maxwell', 'libmaxwell_la_SOURCES'), ('src/matrixio', 'libmatrixio_a_SOURCES')):
        out += [os.path.join(REPO, mk, f) for f in am_sources(mk + '/Makefile.am', var)]
    return out

def _build(variant, root, parts, ex):
    """returns list of (future) compile jobs and a link closure"""
    cfg, extra, cc = VARIANTS[variant]
    g = os.path.join(root, 'gen')
    d = os.path.join(root, variant)
    os.makedirs(d, exist_ok=True)
    mpi = cc == 'mpicc'
    inc = '/usr/include/hdf5/openmpi' if mpi else '/usr/include/hdf5/serial'
    hl = H5P if mpi else H5S
    # debugging configuration: plain -O1; others -O1 as well (the checks do not depend on it)
    base = [cc, '-DHAVE_CONFIG_H', '-I' + os.path.join(VERIF, 'cfg', cfg), '-O1', '-fPIC', '-w'] + extra
    incs = ['-I' + os.path.join(REPO, p) for p in ('src/util', 'src/matrices', 'src/matrixio', 'src/maxwell')] + ['-I' + g, '-I' + inc]
    mpbf = ['-I' + os.path.join(REPO, 'mpb'), '-I/usr/include/guile/3.0', '-DHAVE_CTL_HOOKS=1', '-DHAVE_CTL_EXPORT_HOOK=1',
            '-DCTL_SCM="%s/base/ctl.scm"' % CTL, '-DINCLUDE_SCM="%s/base/include.scm"' % CTL,
            '-DSPEC_SCM="%s/mpb.scm"' % g, '-DVERSION_STRING="mpb (verif build)"']
    libs = ['-L' + hl, '-lhdf5', '-lz'] + (['-lfftw3_mpi'] if mpi else []) + ['-llapack', '-lblas', '-lfftw3', '-lgfortran', '-lm', '-lquadmath']
    jobs, links = [], []
    def comp(src, obj, flags):
        o = os.path.join(d, obj)
        jobs.append(ex.submit(sh, base + flags + incs + ['-c', src, '-o', o], env=ENV))
        return o
    lib = [comp(s, 'lib-' + os.path.basename(s)[:-2] + '.o', []) for s in libsrc()]
    if 'mpb' in parts:
        ms = [os.path.join(REPO, 'mpb', f) for f in am_sources('mpb/Makefile.am', 'MY_SOURCES')]
        ms += [os.path.join(g, f) for f in ('main.c', 'geom.c', 'ctl-io.c')]
        objs = [comp(s, 'mpb-' + os.path.basename(s)[:-2] + '.o', mpbf) for s in ms]
        links.append((os.path.join(d, 'mpb'), base + ['-rdynamic'] + objs + lib + ['-lnlopt', '-lctl', '-lguile-3.0', '-lgc', '-lpthread', '-ldl'] + libs))
    if 'data' in parts:
        objs = [comp(os.path.join(REPO, 'utils', f), 'data-' + f[:-2] + '.o', []) for f in am_sources('utils/Makefile.am', 'mpb@MPB_SUFFIX@_data_SOURCES')]
        links.append((os.path.join(d, 'mpb-data'), base + objs + lib + ['-lctlgeom'] + libs))
    if 'shim' in parts:
        objs = [comp(s, os.path.basename(s)[:-2] + '.o', []) for s in sorted(glob.glob(os.path.join(VERIF, 'shim', '*.c')))]
        links.append((os.path.join(d, 'libshim.so'), base + ['-shared'] + objs + lib + libs))
    if 'mem' in parts:
        links.append((os.path.join(d, 'libvfmem.so'), ['gcc', '-O1', '-fPIC', '-shared', '-w', os.path.join(VERIF, 'shim', 'mem', 'vfmem.c'), '-lpthread']))
    return jobs, links

def ensure(*wants):
    """wants: 'variant' (=mpb executable) or 'variant:part' (part in mpb, data, shim, mem).  Returns {variant: dir}."""
    need = {}
    for w in wants:
        v, _, p = w.partition(':')
        need.setdefault(v, set()).add(p or 'mpb')
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash()
    root = os.path.join(CACHE, h)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for old in sorted(glob.glob(os.path.join(CACHE, '*')), key=os.path.getmtime)[:-6]:
            if os.path.isdir(old) and old != root: shutil.rmtree(old, ignore_errors=True)
        gen_common(os.path.join(root, 'gen'))
        with cf.ThreadPoolExecutor(8) as ex:
            alljobs, alllinks = [], []
            for v, parts in need.items():
                todo = {p for p in parts if not os.path.exists(os.path.join(root, v, {'mpb': 'mpb', 'data': 'mpb-data', 'shim': 'libshim.so', 'mem': 'libvfmem.so'}[p]))}
                if not todo: continue
                j, l = _build(v, root, todo, ex)
                alljobs += j; alllinks += l
            for j in alljobs: j.result()
            def link(l):
                sh(l[1] + ['-o', l[0] + '.tmp'], env=ENV)
                os.rename(l[0] + '.tmp', l[0])
            for f in [ex.submit(link, l) for l in alllinks]: f.result()
    return {v: os.path.join(root, v) for v in need}

if __name__ == '__main__':
    import time
    t = time.time()
    print(ensure(*(sys.argv[1:] or ['complex'])), round(time.time() - t, 1), 's')
