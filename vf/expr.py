"""Random integrands: JSON syntax trees, rendered to Scheme and evaluated with numpy."""
import numpy as np
from mpbrun import scheme_num as sn

UN = {'sin': np.sin, 'cos': np.cos, 're': np.real, 'im': np.imag, 'conj': np.conj, 'neg': lambda z: -z, 'sq': lambda z: z * z, 'abs2': lambda z: (z * np.conj(z)).real}
def gen(rng, rv, cv, depth=3, cplx=None):
    """rv: real variables, cv: complex variables"""
    if depth <= 0 or rng.random() < 0.12:
        r = rng.random()
        if r < 0.3: return ['k', round(rng.uniform(-2, 2), 2)]
        return ['v', rng.choice(list(cv) * 2 + list(rv) if cv else list(rv))]
    op = rng.choice(['+', '-', '*', '*', 'un', 'un'])
    if op == 'un':
        if cv and rng.random() < 0.6: return [rng.choice(['re', 'im', 'conj', 'neg', 'sq', 'abs2']), gen(rng, rv, cv, depth - 1)]
        return [rng.choice(['sin', 'cos', 'neg', 'sq']), gen(rng, rv, (), depth - 1)]
    return [op, gen(rng, rv, cv, depth - 1), gen(rng, rv, cv, depth - 1)]

def scm(e, names):
    o = e[0]
    if o == 'k': return sn(e[1])
    if o == 'v': return names[e[1]]
    a = scm(e[1], names)
    if o in '+-*': return '(%s %s %s)' % (o, a, scm(e[2], names))
    return {'sin': '(sin %s)', 'cos': '(cos %s)', 're': '(real-part %s)', 'im': '(imag-part %s)', 'neg': '(- %s)', 'sq': '(let ((w %s)) (* w w))',
            'conj': '(let ((w %s)) (make-rectangular (real-part w) (- (imag-part w))))', 'abs2': '(let ((w %s)) (+ (* (real-part w) (real-part w)) (* (imag-part w) (imag-part w))))'}[o] % a

def ev(e, env):
    o = e[0]
    if o == 'k': return e[1]
    if o == 'v': return env[e[1]]
    a = ev(e[1], env)
    if o == '+': return a + ev(e[2], env)
    if o == '-': return a - ev(e[2], env)
    if o == '*': return a * ev(e[2], env)
    return UN[o](a)

def ok(e, rv, cv):
    try:
        o = e[0]
        if o == 'k': return len(e) == 2 and isinstance(e[1], (int, float))
        if o == 'v': return len(e) == 2 and e[1] in tuple(rv) + tuple(cv)
        if o in '+-*': return len(e) == 3 and ok(e[1], rv, cv) and ok(e[2], rv, cv)
        if o in ('sin', 'cos'): return len(e) == 2 and ok(e[1], rv, ())
        return o in UN and len(e) == 2 and ok(e[1], rv, cv)
    except (TypeError, IndexError, KeyError): return False

def magnitude(e, env):
    """upper bound on the size of intermediate values, for tolerances"""
    m = float(np.max(np.abs(np.asarray(ev(e, env)))))
    for x in e[1:]:
        if isinstance(x, list): m = max(m, magnitude(x, env))
    return m
