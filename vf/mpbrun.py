"""Running mpb / mpbi / mpb-mpi / mpb-data sessions in scratch directories, and decoding what they print."""
import json, os, re, shutil, signal, subprocess, tempfile
import numpy as np

BIN = {}          # variant -> build directory; filled in by the runner before workers fork

class Fail(Exception):
    """the property is violated by this case"""
    def __init__(self, msg, key=None):
        super().__init__(msg); self.msg = msg; self.key = key

class Skip(Exception):
    """the case is inconclusive / outside the domain"""

def need(c, msg, key=None):
    if not c: raise Fail(msg, key)

PRELUDE = r'''
(set! interactive? false)
(define (vf-num x)
  (cond ((not (number? x)) "null")
        ((and (real? x) (exact? x)) (number->string (if (integer? x) x (exact->inexact x))))
        ((real? x) (cond ((nan? x) "NaN") ((inf? x) (if (> x 0) "Infinity" "-Infinity")) (else (let ((s (number->string x))) s))))
        (else (string-append "[" (vf-num (real-part x)) "," (vf-num (imag-part x)) "]"))))
(define (vf-json x)
  (cond ((number? x) (vf-num x))
        ((string? x) (string-append "\"" x "\""))
        ((symbol? x) (string-append "\"" (symbol->string x) "\""))
        ((boolean? x) (if x "true" "false"))
        ((null? x) "[]")
        ((vector? x) (vf-json (vector->list x)))
        ((list? x) (string-append "[" (string-join (map vf-json x) ",") "]"))
        ((pair? x) (string-append "[" (vf-json (car x)) "," (vf-json (cdr x)) "]"))
        (else "null")))
(define (vp name x) (print "\n@@ " name " " (vf-json x) "\n"))
; complex numbers always as a pair
(define (vc x) (list (real-part x) (imag-part x)))
(define (vcv v) (map vc (vector->list v)))
'''

def scheme_num(x):
    if isinstance(x, bool): return 'true' if x else 'false'
    if isinstance(x, complex): 
        s = '%+.17g' % x.imag
        return '(make-rectangular %s %s)' % (scheme_num(x.real), scheme_num(x.imag))
    if isinstance(x, (int, np.integer)): return str(int(x))
    s = repr(float(x))
    return {'inf': '+inf.0', '-inf': '-inf.0', 'nan': '+nan.0'}.get(s, s)

def v3(v): return '(vector3 %s)' % ' '.join(scheme_num(x) for x in v)
def cv3(v): return '(cvector3 %s)' % ' '.join(scheme_num(complex(x)) for x in v)
def slist(l): return '(list %s)' % ' '.join(l)

class Result:
    def __init__(self, rc, stdout, stderr, timeout, d):
        self.rc, self.stdout, self.stderr, self.timeout, self.dir = rc, stdout, stderr, timeout, d
        self.out = {}
        for line in stdout.split('\n'):
            if line.startswith('@@ '):
                _, name, js = line.split(' ', 2)
                try: self.out.setdefault(name, []).append(json.loads(js))
                except ValueError: self.out.setdefault(name, []).append(None)
    def tail(self, n=600):
        return ('rc=%s%s stdout: ...%s stderr: ...%s' % (self.rc, ' TIMEOUT' if self.timeout else '', self.stdout[-n:], self.stderr[-n:]))
    def ok(self, what='session'):
        if self.timeout or self.rc != 0 or '@@ END' not in self.stdout:
            raise Fail('%s did not finish normally: %s' % (what, self.tail()), 'died')
        return self
    def get(self, name, i=0):
        if name not in self.out or i >= len(self.out[name]):
            raise Fail('no output %s[%d]: %s' % (name, i, self.tail()), 'noout')
        return self.out[name][i]
    def arr(self, name, i=0): 
        return np.array(self.get(name, i), dtype=float)
    def all(self, name): return self.out.get(name, [])

def environ():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    e.update(LC_ALL='C.UTF-8', GUILE_AUTO_COMPILE='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_plm='isolated',
             OMPI_MCA_btl='self,vader', OMPI_MCA_btl_base_warn_component_unused='0', PRTE_MCA_plm='isolated',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', HDF5_USE_FILE_LOCKING='FALSE',
             ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1',
             UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    return e

class Scratch:
    def __init__(self): self.d = None
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf-'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def run_proc(cmd, cwd, timeout=150, env=None, stdin=None):
    e = environ()
    if env: e.update(env)
    e['TMPDIR'] = cwd
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout); to = False
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, er = p.communicate()
    return Result(p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace'), to, cwd)

def run_ctl(text, d, variant='complex', args=(), np_=None, name='t.ctl', timeout=150, prelude=True, end=True, env=None):
    with open(os.path.join(d, name), 'w') as f:
        f.write((PRELUDE if prelude else '') + text + ('\n(vp "END" 1)\n' if end else ''))
    cmd = [os.path.join(BIN[variant], 'mpb')] + list(args) + [name]
    if np_:   # every rank writes to its own file: the forwarding of mpirun loses parts of long lines
        cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(np_), 'sh', '-c', 'exec "$0" "$@" >vf-rank.$OMPI_COMM_WORLD_RANK.out 2>vf-rank.$OMPI_COMM_WORLD_RANK.err'] + cmd
    r = run_proc(cmd, d, timeout, env)
    if np_:
        o = e = ''
        for i in range(np_):
            for w in ('out', 'err'):
                f = os.path.join(d, 'vf-rank.%d.%s' % (i, w))
                if os.path.exists(f):
                    t = open(f, errors='replace').read(); os.remove(f)
                    if t and not t.endswith('\n'): t += '\n'
                    if w == 'out': o += t
                    else: e += t
        r = Result(r.rc, o + r.stdout, e + r.stderr, r.timeout, d)
    if r.rc and 'failure to converge' in r.stderr and '(set! tolerance 1e-11)' in text:
        # stagnation at round-off: an honest report; the same session must succeed at a looser tolerance
        return run_ctl(text.replace('(set! tolerance 1e-11)', '(set! tolerance 1e-09)'), d, variant, args, np_, name, timeout, prelude, end, env)
    return r

def session(text, variant='complex', **kw):
    """one-shot session whose files are not needed afterwards"""
    with Scratch() as d:
        return run_ctl(text, d, variant, **kw)
