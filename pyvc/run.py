"""Check driver:  python /verif/pyvc/run.py <ID> [--tier quick|thorough]
exit 0: every obligation that could be decided is discharged and no contract fails on the explored inputs
exit 1: a VIOLATION line was printed
"""
import sys, os, json, time, subprocess, tempfile, shutil, pickle, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, TF_USE_LEGACY_KERAS='1', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', PYTHONPATH=HERE, TF_ENABLE_ONEDNN_OPTS='0', OMP_NUM_THREADS='2')

def findings():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(t.split('=', 1) for t in l[len('finding:'):].split()[:2])
                d['what'] = ' '.join(l[len('finding:'):].split()[2:])
                out.append(d)
    return out

def spawn(args, timeout, scratch):
    n = tempfile.mktemp(dir=scratch, suffix='.pkl')
    log = open(n + '.log', 'w')
    e = dict(ENV, TMPDIR=scratch, VERIF_SCRATCH=scratch)
    p = subprocess.Popen([PY, os.path.join(HERE, 'pyvc', 'worker.py')] + args + [n], stdout=log, stderr=subprocess.STDOUT, env=e,
                         cwd=scratch, start_new_session=True)
    p._out, p._log, p._dl = n, n + '.log', time.time() + timeout
    return p

def collect(p):
    try:
        p.wait(max(1, p._dl - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        # partial results survive
    if os.path.exists(p._out):
        try:
            with open(p._out, 'rb') as f:
                return pickle.load(f), ''
        except Exception:
            pass
    with open(p._log, errors='replace') as f:
        return None, f.read()[-3000:]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = 600 if tier == 'quick' else 780
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = go(pid, tier, seed, t0, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def go(pid, tier, seed, t0, budget, scratch):
    meta, err = collect(spawn(['list', pid, tier, str(seed)], 120, scratch))
    if meta is None:
        print('check could not start:\n' + err)
        return 2
    jobs = []
    nproc = meta['proof_shards']
    for k in range(nproc):
        jobs.append(('prove', spawn(['prove', pid, tier, str(seed), str(k), str(nproc), str(budget)], budget + 30, scratch)))
    for k in range(meta['bounded_shards']):
        jobs.append(('bounded', spawn(['bounded', pid, tier, str(seed), str(k), str(meta['bounded_shards']), str(budget)], budget + 30, scratch)))
    proofs, viols, cover, errors, lemma = [], [], {}, [], []
    for kind, p in jobs:
        r, err = collect(p)
        if r is None:
            errors.append('%s worker gave no result: %s' % (kind, err[-1500:]))
            continue
        errors += r.get('errors', [])
        if kind == 'prove':
            proofs += r['proofs']
        else:
            viols += r['violations']
            for k, v in r['coverage'].items():
                cover[k] = cover.get(k, 0) + v if isinstance(v, (int, float)) else v
    # replay the verifier's counter-models on the real, uninstrumented code
    cand = [(p['contract'], p['mode'], f) for p in proofs for f in p['failed'] if f.get('args') is not None]
    replay_note = {}
    if cand:
        cf = os.path.join(scratch, 'cand.pkl')
        with open(cf, 'wb') as f:
            pickle.dump([(c, m, x['name'], x['args']) for c, m, x in cand], f)
        r, err = collect(spawn(['replay', pid, tier, str(seed), cf], 120, scratch))
        if r is None:
            errors.append('replay worker: ' + err)
        else:
            viols += r['violations']
            replay_note = r['notes']
    # a refuted obligation without loop abstraction and without a replayable input is still a violation
    bykey = {}
    for v in viols:
        bykey.setdefault(v['key'], v)
    for p in proofs:
        if p['status'] != 'refuted':
            continue
        for f in p['failed']:
            if f['status'] == 'failed' and not f['cut'] and (f.get('args') is None or p.get('structural')) and not p.get('advisory'):
                key = 'obligation:' + f['name']
                if not any(v.get('contract') == p['contract'] for v in viols):
                    bykey.setdefault(key, dict(key=key, what='obligation %s is refuted by the solver' % f['name'], noinput=True,
                                               contract=p['contract'], detail=f.get('modeltext', '') + '\n' + str(f.get('detail'))))
    known = [f for f in findings() if f['property'] == pid]
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    for old in os.listdir(os.path.join(HERE, 'evidence', 'replays')):
        if old.startswith(pid + '-'):
            os.remove(os.path.join(HERE, 'evidence', 'replays', old))
    rc, nviol = 0, []
    import fnmatch
    hit = set()
    for n, (key, v) in enumerate(sorted(bykey.items(), key=lambda kv: bool(kv[1].get('noinput')))):
        kf = next((f for f in known if fnmatch.fnmatchcase(key, f['key'])), None)
        if kf:
            if kf['key'] not in hit:
                hit.add(kf['key'])
                print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
            continue
        rp = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (pid, n))
        with open(rp, 'w') as f:
            json.dump({k: (x if isinstance(x, (str, int, float, bool, list, dict, type(None))) else repr(x)) for k, x in v.items()}, f, indent=1, default=repr)
        if len(nviol) < 20:
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if v.get('noinput') else ''))
            print('  ' + str(v['what'])[:600])
        nviol.append(key)
        rc = 1
    write_evidence(pid, tier, seed, meta, proofs, cover, errors, nviol, known, hit, t0, replay_note, bykey)
    npf = sum(p['status'] == 'proved' for p in proofs)
    print('%s %s: %d/%d contract proofs discharged (%d obligations), bounded: %s, %d violation(s), %.0f s' % (
        pid, tier, npf, len(proofs), sum(p['discharged'] for p in proofs), {k: v for k, v in cover.items() if isinstance(v, int)}, len(nviol), time.time() - t0))
    for p in proofs:
        if p['status'] != 'proved':
            print('  undecided/refuted: %s [%s] %s: %s' % (p['contract'], p['mode'], p['status'], p['reason'][:300]))
    for e in errors:
        print('  worker error: ' + e[-600:])
    if rc == 0 and errors and not proofs and not cover:
        return 2
    return rc

def write_evidence(pid, tier, seed, meta, proofs, cover, errors, nviol, known, hit, t0, replay_note, bykey):
    ob = sum(p['obligations'] for p in proofs)
    dis = sum(p['discharged'] for p in proofs)
    back = {}
    for p in proofs:
        for k, v in p['by_backend'].items():
            back[k] = back.get(k, 0) + v
    level = meta['level']
    assum = list(meta['assumptions'])
    for p in proofs:
        for x in p['assumed']:
            if x not in assum:
                assum.append(x)
    cov = dict(obligations=ob, discharged=dis,
               checker_cmd='python3 /verif/pyvc/run.py %s --tier %s' % (pid, tier),
               trusted_base=meta['trusted'],
               functions_under_contract=sorted({p['function'] for p in proofs}),
               back_ends=back, solver_s=round(sum(p['solver_s'] for p in proofs), 2),
               proofs=[{k: p[k] for k in ('contract', 'function', 'mode', 'status', 'reason', 'paths', 'obligations', 'discharged', 'solver_s')} for p in proofs],
               bounded=cover, bounded_note=meta['bounded_note'], undecided=[p['contract'] + ' [' + p['mode'] + '] ' + p['reason'] for p in proofs if p['status'] != 'proved'],
               worker_errors=errors, replay=replay_note, explanation=meta['explanation'],
               known_findings_hit=sorted(hit))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 1),
              violations=len(nviol))
    ev = json.loads(json.dumps(ev, default=repr))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    main()
