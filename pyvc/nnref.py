"""Direct numpy definitions of TensorFlow's convolutions and poolings (channels last), from the TensorFlow documentation."""
import itertools
import numpy as np

def same_pads(n, k, s, d):
    e = (k - 1) * d + 1
    out = -(-n // s)
    tot = max((out - 1) * s + e - n, 0)
    return out, tot // 2, tot - tot // 2
def valid_pads(n, k, s, d, lo=0, hi=0):
    e = (k - 1) * d + 1
    return (n + lo + hi - e) // s + 1, lo, hi
def geom(S, K, st, dil, pad):
    r = []
    for i, (n, k, s, d) in enumerate(zip(S, K, st, dil)):
        r.append(same_pads(n, k, s, d) if pad == 'SAME' else valid_pads(n, k, s, d) if pad == 'VALID' else valid_pads(n, k, s, d, *pad[i]))
    return r
def windows(x, K, st, dil, g, fill):
    """yield (kernel offset, view of x for every output position)"""
    sp = len(K)
    xp = np.pad(x, [(0, 0)] + [(lo, max(hi, 0) + s * 2 + k * d) for (o, lo, hi), s, k, d in zip(g, st, K, dil)] + [(0, 0)], constant_values=fill)
    for off in itertools.product(*[range(k) for k in K]):
        sl = tuple(slice(o * d, o * d + (q[0] - 1) * s + 1, s) for o, d, q, s in zip(off, dil, g, st))
        yield off, xp[(slice(None),) + sl]
def conv(x, w, st, dil, pad):
    x, w = x.astype(np.float64), w.astype(np.float64)
    K = w.shape[:-2]
    g = geom(x.shape[1:-1], K, st, dil, pad)
    C, ci, M = x.shape[-1], w.shape[-2], w.shape[-1]
    grp = C // ci
    out = np.zeros((x.shape[0],) + tuple(q[0] for q in g) + (M,))
    for off, v in windows(x, K, st, dil, g, 0):
        for q in range(grp):
            ms = slice(q * M // grp, (q + 1) * M // grp)
            out[..., ms] += v[..., q * ci:(q + 1) * ci] @ w[off][:, ms]
    return out.astype(np.float32)
def depthwise(x, w, st, dil, pad):
    x, w = x.astype(np.float64), w.astype(np.float64)
    K = w.shape[:-2]
    C, Q = w.shape[-2:]
    g = geom(x.shape[1:-1], K, st, dil, pad)
    out = np.zeros((x.shape[0],) + tuple(q[0] for q in g) + (C * Q,))
    for off, v in windows(x, K, st, dil, g, 0):
        out += (v[..., :, None] * w[off]).reshape(v.shape[:-1] + (C * Q,))
    return out.astype(np.float32)
def maxpool(x, K, st, pad):
    g = geom(x.shape[1:-1], K, st, [1] * len(K), pad)
    out = None
    for off, v in windows(x.astype(np.float64), K, st, [1] * len(K), g, -np.inf):
        out = v if out is None else np.maximum(out, v)
    return out.astype(np.float32)
def avgpool(x, K, st, pad):
    g = geom(x.shape[1:-1], K, st, [1] * len(K), pad)
    s = n = 0
    for off, v in windows(x.astype(np.float64), K, st, [1] * len(K), g, np.nan):
        s = s + np.nan_to_num(v, nan=0.0)
        n = n + ~np.isnan(v)
    return (s / n).astype(np.float32)
def conv_transpose(y, w, outsize, st, dil, pad):
    """gradient of conv with respect to its input: w is (K..., out channels, in channels)"""
    y, w = y.astype(np.float64), w.astype(np.float64)
    K = w.shape[:-2]
    g = geom(outsize, K, st, dil, pad)
    assert tuple(q[0] for q in g) == y.shape[1:-1], (g, y.shape)
    lo = [q[1] for q in g]
    ext = [n + 2 * (k * d) + s for n, k, d, s in zip(outsize, K, dil, st)]
    out = np.zeros((y.shape[0],) + tuple(e + l for e, l in zip(ext, lo)) + (w.shape[-2],))
    for off in itertools.product(*[range(k) for k in K]):
        sl = tuple(slice(o * d, o * d + (q[0] - 1) * s + 1, s) for o, d, q, s in zip(off, dil, g, st))
        out[(slice(None),) + sl] += y @ w[off].T
    crop = tuple(slice(l, l + n) for l, n in zip(lo, outsize))
    return out[(slice(None),) + crop].astype(np.float32)
