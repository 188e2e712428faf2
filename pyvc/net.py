"""Bounded nets: whole conversions of small generated models compared with an independent reference."""
import time, traceback, hashlib
import numpy as np
from . import tfrun as T

class Case:
    """one generated model.  fn(*placeholders); specs [(static shape, dtype)]; feeds; want: arrays or None (run TensorFlow)"""
    def __init__(self, key, fn, specs, feeds, opset, want=None, optimize=False, desc='', may_refuse=False, tol=1e-4, post=None, outs_ok=None, extra_opset=None, conv_kw=None, unimplemented=False):
        self.__dict__.update(locals())
        del self.__dict__['self']

def run_case(c):
    """-> ('ok'|'skip'|'bad', text)"""
    try:
        g, i, o = T.build(c.fn, c.specs)
        want = c.want if c.want is not None else T.tf_ref(g, i, o, c.feeds)
    except Exception as e:
        return 'skip', 'TensorFlow refuses: %r' % e
    try:
        m = T.convert(g, i, o, c.opset, c.optimize, extra_opset=c.extra_opset, **(c.conv_kw or {}))
    except Exception as e:
        if c.may_refuse:
            return 'skip', 'refused: %r' % e
        return 'bad', 'conversion raises %s: %s' % (type(e).__name__, str(e)[:300])
    try:
        got = T.run_onnx(m, dict(zip(i, c.feeds)))
    except T.NoRun as e:
        if c.unimplemented and 'NOT_IMPLEMENTED' in str(e): return 'skip', 'no kernel in onnxruntime'
        return 'bad', 'the model does not run: %s' % str(e)[:300]
    r = T.differs(want, got, c.tol)
    if r:
        return 'bad', r
    if c.post:
        r = c.post(m)
        if r:
            return 'bad', r
    return 'ok', ''

def run_net(R, cases, name='models', limit=None):
    n = 0
    for c in cases:
        if limit is not None and n >= limit or time.time() > R.deadline or R.full():
            break
        n += 1
        try:
            st, txt = run_case(c)
        except Exception:
            R.e.append('net case %s %s: %s' % (c.key, c.desc, traceback.format_exc()[-800:]))
            continue
        R.count('%s_%s' % (name, {'ok': 'agree', 'skip': 'skipped', 'bad': 'disagree'}[st]))
        if st == 'bad':
            R.violation(c.key, '%s opset %d%s: %s  [%s]' % (c.key, c.opset, ' optimized' if c.optimize else '', txt, c.desc), desc=c.desc, opset=c.opset)
    R.flush()
