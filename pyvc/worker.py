import sys, os, pickle, time, traceback, importlib, logging
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')

def dump(out, obj):
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(obj, f)
    os.replace(out + '.tmp', out)

def load(pid):
    return importlib.import_module('props.' + pid)

class Report:
    def __init__(self, out):
        self.v, self.c, self.e, self.out = {}, {}, [], out
    def violation(self, key, what, **k):
        if key not in self.v:
            self.v[key] = dict(key=key, what=what, **k)
    def count(self, name, n=1):
        self.c[name] = self.c.get(name, 0) + n
    def note(self, name, val):
        self.c[name] = val
    def full(self):
        return len(self.v) >= 40
    def result(self):
        return dict(violations=list(self.v.values()), coverage=self.c, errors=self.e)
    def flush(self):
        dump(self.out, self.result())

def plain():
    """the real package, uninstrumented"""
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    from pyvc import z3load  # noqa
    import tf2onnx
    got = os.path.realpath(os.path.dirname(tf2onnx.__file__))
    assert got == os.path.realpath(os.path.join(REPO, 'tf2onnx')), got

def main():
    mode, pid, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    out = sys.argv[-1]
    if mode == 'list':
        from pyvc import z3load  # noqa
        m = load(pid)
        dump(out, dict(proof_shards=getattr(m, 'PROOF_SHARDS', 1), bounded_shards=getattr(m, 'BOUNDED_SHARDS', 1), level=getattr(m, 'LEVEL', 'proof'),
                       assumptions=m.ASSUMPTIONS, trusted=m.TRUSTED, bounded_note=getattr(m, 'BOUNDED_NOTE', ''), explanation=m.EXPLANATION))
        return
    if mode == 'prove':
        k, n, budget = int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7])
        sys.setrecursionlimit(20000)
        from pyvc import instr
        instr.install()
        logging.disable(logging.CRITICAL)
        from pyvc.contract import prove
        from pyvc import core
        m = load(pid)
        dl = time.time() + budget
        res, errs = [], []
        jobs = []
        if hasattr(m, 'contracts'):
            for con in _contracts(m, tier):
                for md in con.modes:
                    jobs.append((con.name, md, lambda con=con, md=md: prove(con, md, min(dl, time.time() + getattr(con, 'limit', 200)))))
        if hasattr(m, 'custom_proofs'):
            for name, md, fn in m.custom_proofs():
                jobs.append((name, md, lambda fn=fn: fn(min(dl, time.time() + 300))))
        for i, (name, md, fn) in enumerate(jobs):
            if i % n != k:
                continue
            try:
                r = fn()
                for r in (r if isinstance(r, list) else [r]):
                    s = r.summary()
                    s['failed'] = [dict(name=o.name, status=o.status, args=_clean(o.args), detail=o.detail, modeltext=getattr(o, 'modeltext', ''),
                                        cut=getattr(o, 'cut', False)) for o in r.failed[:20]]
                    s['advisory'] = getattr(r, 'advisory', False)
                    s['structural'] = getattr(m, 'STRUCTURAL', False)
                    s['covers'] = sorted(r.covers)
                    res.append(s)
            except BaseException as e:
                errs.append('%s [%s]: %s' % (name, md, traceback.format_exc()[-1500:]))
            dump(out, dict(proofs=res, errors=errs))
        dump(out, dict(proofs=res, errors=errs))
        return
    if mode == 'bounded':
        k, n, budget = int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7])
        R = Report(out)
        R.deadline = time.time() + budget
        R.tier = tier
        try:
            plain()
            m = load(pid)
            if hasattr(m, 'contracts'):
                from pyvc.contract import check_concrete, enum_args
                for i, con in enumerate(_contracts(m, tier)):
                    if i % n != k or getattr(con, 'no_concrete', False):
                        continue
                    try:
                        f = con.resolve()
                    except (AttributeError, ImportError) as e:
                        R.e.append('contract %s: %r' % (con.name, e))
                        continue
                    lim = getattr(con, 'limit_inputs', 4000) * (1 if tier == 'quick' else 10)
                    for args in enum_args(con, lim, seed):
                        try:
                            bad = check_concrete(con, f, args)
                        except Exception:
                            R.e.append('contract %s on %r: %s' % (con.name, args, traceback.format_exc()[-600:]))
                            break
                        R.count('contract_inputs')
                        if bad:
                            R.violation('%s:%s' % (con.name, bad[:60].split(':')[0]), '%s: %s' % (con.fn, bad), contract=con.name, function=con.fn)
                            break
            if hasattr(m, 'bounded'):
                m.bounded(tier, seed, k, n, R)
        except BaseException:
            R.e.append(traceback.format_exc()[-2500:])
        R.flush()
        return
    if mode == 'replay':
        with open(sys.argv[5], 'rb') as f:
            cands = pickle.load(f)
        plain()
        m = load(pid)
        from pyvc.contract import check_concrete
        cons = {c.name: c for c in (m.contracts() if hasattr(m, 'contracts') else [])}
        vs, notes = [], {}
        for cn, md, name, args in cands:
            con = cons.get(cn)
            fn = getattr(m, 'replay', None)
            try:
                if con is not None and not getattr(con, 'no_concrete', False):
                    bad = check_concrete(con, con.resolve(), {k: args[k] for k in con.params})
                elif fn is not None:
                    bad = fn(cn, args)
                else:
                    continue
            except Exception as e:
                notes['%s [%s]' % (name, md)] = 'replay failed: %r' % e
                continue
            if bad:
                vs.append(dict(key='%s:%s' % (cn, bad[:60].split(':')[0]), what='%s: %s (counter-model of obligation %s)' % (cn, bad, name), contract=cn, args=args))
                notes['%s [%s]' % (name, md)] = 'confirmed on the real code'
            else:
                notes['%s [%s]' % (name, md)] = 'counter-model %s does not fail on the real code' % (args,)
        dump(out, dict(violations=vs, notes=notes, errors=[]))

def _contracts(m, tier):
    import inspect
    return m.contracts(tier) if inspect.signature(m.contracts).parameters else m.contracts()

def _clean(a):
    if a is None:
        return None
    try:
        pickle.dumps(a)
        return a
    except Exception:
        return None

if __name__ == '__main__':
    main()
