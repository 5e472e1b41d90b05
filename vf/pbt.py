"""A small property-based-testing engine: deterministic generation from VERIF_SEED, parallel execution,
three-fold replay, JSON shrinking to a minimal reproduction (the replay file), known findings, evidence."""
import argparse, copy, hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
import mpbrun
from mpbrun import Fail, Skip

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    id = None
    title = ''
    rule = ''
    assumptions = []
    wants = ('complex',)
    n_quick, n_thorough = 200, 3000
    max_wall = {'quick': 420, 'thorough': 6 * 3600}
    shrink_budget = 60     # evaluations
    workers = 8
    def gen(self, rng, i, tier): raise NotImplementedError
    def run(self, case):
        """returns (nontrivial: bool, tags: list[str]); raises Fail or Skip"""
        raise NotImplementedError
    def valid(self, case):
        """used while shrinking"""
        return True
    def fixed(self):
        """cases run in addition to the generated ones on every run (regressions)"""
        return []

def evaluate(chk, case):
    try:
        r = chk.run(copy.deepcopy(case))
        nt, tags = r if r is not None else (True, [])
        return dict(status='ok', nt=bool(nt), tags=list(tags))
    except Skip as e:
        return dict(status='skip', nt=False, tags=['skip:' + str(e)[:60]])
    except Fail as e:
        return dict(status='fail', nt=True, tags=[], msg=e.msg[:3000], key=e.key)
    except Exception as e:
        return dict(status='fail', nt=True, tags=[], msg='exception: ' + traceback.format_exc()[-2500:], key='exception:' + type(e).__name__)

_CHK = None
def _work(a):
    i, case = a
    t = time.time()
    r = evaluate(_CHK, case)
    r['i'] = i; r['t'] = time.time() - t
    return r

def canon(c): return json.dumps(c, sort_keys=True)

def shrink_candidates(c):
    """generic structural shrinking of a JSON value, smallest-first"""
    def walk(node, path):
        if isinstance(node, dict):
            for k in sorted(node): yield from walk(node[k], path + [k])
        elif isinstance(node, list):
            if len(node) > 1:
                yield ('set', path, node[:len(node) // 2])
                yield ('set', path, node[len(node) // 2:])
            for j in range(len(node)):
                if len(node) > 0: yield ('del', path + [j], None)
            for j, x in enumerate(node): yield from walk(x, path + [j])
        elif isinstance(node, bool):
            if node: yield ('set', path, False)
        elif isinstance(node, int):
            for v in {0, 1, 2, node // 2, node - 1}:
                if 0 <= v < node: yield ('set', path, v)
        elif isinstance(node, float):
            for v in (0.0, 1.0, round(node, 1)):
                if v != node: yield ('set', path, v)
    for op, path, v in walk(c, []):
        d = copy.deepcopy(c); p = d
        if not path: continue
        for k in path[:-1]: p = p[k]
        if op == 'set': p[path[-1]] = v
        else: del p[path[-1]]
        yield d

def shrink(chk, case, key, pool_eval, budget, deadline):
    used = 0; best = case; seen = {canon(case)}
    progress = True
    while progress and used < budget and time.time() < deadline:
        progress = False
        batch = []
        cands = list(shrink_candidates(best))
        cands.sort(key=lambda c: len(canon(c)))
        for c in cands:
            s = canon(c)
            if s in seen: continue
            seen.add(s)
            try:
                if not chk.valid(c): continue
            except Exception: continue
            batch.append(c)
            if len(batch) >= min(8, budget - used): break
        if not batch: break
        used += len(batch)
        rs = pool_eval(batch)
        for c, r in zip(batch, rs):
            if r['status'] == 'fail' and r.get('key') == key and not str(key).startswith('exception'):
                best = c; progress = True; break
        else:
            progress = len(cands) > len(batch) and used < budget
    return best, used

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main(chk):
    global _CHK
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('-v', action='store_true')
    a, _ = ap.parse_known_args(sys.argv[2:])
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    import build
    t0 = time.time()
    try:
        mpbrun.BIN.update(build.ensure(*chk.wants))
    except build.BuildError as e:
        print('BUILD-ERROR', str(e)[-3000:]); return 2
    tb = time.time() - t0
    _CHK = chk
    chk.setup() if hasattr(chk, 'setup') else None
    if a.replay:
        case = json.load(open(a.replay)); case = case.get('case', case)
        r = evaluate(chk, case); print(json.dumps(r, indent=1))
        return 1 if r['status'] == 'fail' else 0
    def mk(i): return chk.gen(random.Random('%s:%d:%d' % (chk.id, a.seed, i)), i, tier)
    if a.case is not None:
        c = mk(a.case); print(json.dumps(c, indent=1)); r = evaluate(chk, c); print(json.dumps(r, indent=1)); print(r.get('msg', ''))
        return 0
    n = a.n or (chk.n_quick if tier == 'quick' else chk.n_thorough)
    known = [k for k in load_known() if k.get('property') == chk.id and not k.get('fixed')]
    fixed = chk.fixed()
    cases = {}
    stats = dict(ok=0, skip=0, fail=0); tags = {}; distinct = set(); samples = []; fails = []; flaky = []
    kf_seen = {}
    limit = chk.max_wall[tier]
    pool = mp.Pool(chk.workers)
    def gen_items():
        for j, c in enumerate(fixed):
            cases[-1 - j] = c; yield (-1 - j, c)
        for i in range(n):
            if time.time() - t0 > limit: return
            c = mk(i); cases[i] = c
            yield (i, c)
    evals = 0
    tslow = (0, None)
    try:
        for r in pool.imap_unordered(_work, gen_items()):
            evals += 1
            c = cases.pop(r['i'])
            stats[r['status']] += 1
            if r['t'] > tslow[0]: tslow = (r['t'], r['i'])
            for t in r['tags']: tags[t] = tags.get(t, 0) + 1
            if r['status'] == 'ok' and r['nt']:
                distinct.add(hashlib.md5(canon(c).encode()).hexdigest())
                if len(samples) < 4: samples.append(c)
            if r['status'] == 'fail':
                if a.v: print('FAIL case', r['i'], r.get('key'), r['msg'][:700], flush=True)
                k = [k for k in known if k['key'] == r.get('key')]
                if k: kf_seen[k[0]['key']] = c; continue
                fails.append((r['i'], c, r))
                if len(fails) >= (3 if not a.v else 40): break
            if time.time() - t0 > limit + 120: break
    finally:
        pool.terminate(); pool.join()
    viol = []
    if fails:
        fails.sort(key=lambda f: f[0])
        with mp.Pool(chk.workers) as pool2:
            def pe(cs): 
                return pool2.map(_work, [(0, c) for c in cs], chunksize=1)
            for i, c, r in fails:
                rs = [pe([c])[0] for _ in range(3)] if not any('TIMEOUT' in x for x in [r['msg']]) else [pe([c])[0]]
                if not all(x['status'] == 'fail' for x in rs):
                    flaky.append(dict(case=c, first=r['msg'][:500], replays=[x['status'] for x in rs])); continue
                best, used = (c, 0)
                if not viol and time.time() - t0 < 500 and 'TIMEOUT' not in r['msg']:
                    best, used = shrink(chk, c, r.get('key'), pe, chk.shrink_budget, time.time() + 60)
                fr = pe([best])[0]
                if fr['status'] != 'fail': best, fr = c, r
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                h = hashlib.md5(canon(best).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, 'replays', '%s-%s.json' % (chk.id, h))
                json.dump(dict(property=chk.id, case=best, original=c, key=r.get('key'), message=fr.get('msg', ''), shrink_evaluations=used), open(path, 'w'), indent=1)
                viol.append((path, fr.get('msg', ''), r.get('key')))
                if len(viol) >= 2: break
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (chk.id, k['what']))
    ev = dict(property=chk.id, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=chk.rule, samples=samples or [c for _, c, _ in fails[:2]],
                            outcomes=stats, tags=dict(sorted(tags.items())), build_seconds=round(tb, 1), flaky=flaky[:3],
                            known_findings_hit=sorted(kf_seen), slowest_case=[round(tslow[0], 1), tslow[1]]),
              assumptions=list(chk.assumptions), wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', chk.id + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d evaluations (%d ok, %d skipped, %d failing), %d distinct non-trivial, %.0f s' %
          (chk.id, tier, a.seed, evals, stats['ok'], stats['skip'], stats['fail'], len(distinct), ev['wall_s']))
    if a.v: print(json.dumps(ev['coverage']['tags'], indent=0), tslow)
    for f in flaky: print('not reproducible on replay (not reported):', f['first'][:300])
    for path, msg, key in viol:
        print('violated: [%s] %s' % (key, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (chk.id, path))
    return 1 if viol else 0
