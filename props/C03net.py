"""generated slicing models for C03"""
import numpy as np, tensorflow as tf
from pyvc import tfrun as T
from pyvc.net import Case
raw = tf.raw_ops

def strided(rng, weird):
    pick = lambda *a: a[rng.randint(len(a))]
    r = rng.randint(1, 5)
    S = [rng.randint(1, 6) for _ in range(r)]
    n = rng.randint(1, r + 1)
    spec, ell, nax, shr, bm, em = [], 0, 0, 0, 0, 0
    b, e, s = [], [], []
    used, k, seen_e = 0, 0, False
    allone = rng.randint(2)
    while k < 6:
        left = r - used
        c = pick('range', 'range', 'range', 'shrink', 'new', 'ell') if left > 0 else pick('new', 'stop', 'stop')
        if c == 'stop' or (k and rng.randint(5) == 0):
            break
        bit = 1 << k
        junk = lambda: rng.randint(-7, 8) if weird else 0
        if c == 'ell':
            if seen_e:
                continue
            seen_e = True
            ell |= bit
            b.append(junk()); e.append(junk()); s.append(1 if not weird or allone else pick(1, 2, -1))
            used_after = rng.randint(0, left + 1)
            used += used_after           # how many dimensions the ellipsis covers is decided by what follows
            k += 1
            # only as many further entries as remaining dims
            r_left = r - used
            while r_left and k < 6:
                c2 = pick('range', 'shrink', 'new')
                bit = 1 << k
                d = S[r - r_left]
                k += 1
                if c2 == 'new':
                    nax |= bit; b.append(junk()); e.append(junk()); s.append(1)
                    if weird and rng.randint(3) == 0: shr |= bit
                    continue
                r_left -= 1
                if c2 == 'shrink':
                    shr |= bit
                    v = rng.randint(-d, d); b.append(v); e.append(v + 1 if not weird else junk()); s.append(1)
                else:
                    b.append(rng.randint(-d - 2, d + 3)); e.append(rng.randint(-d - 2, d + 3)); s.append(1 if allone else pick(1, 2, 3, -1, -2))
                    if rng.randint(3) == 0:
                        bm |= bit
                        if not weird: b[-1] = 0
                    if rng.randint(3) == 0:
                        em |= bit
                        if not weird: e[-1] = 0
            if r_left:
                return None
            break
        if c == 'new':
            nax |= bit; b.append(junk()); e.append(junk()); s.append(1)
            if weird and rng.randint(3) == 0: bm |= bit
            if weird and rng.randint(3) == 0: shr |= bit
        else:
            d = S[used]
            used += 1
            if c == 'shrink':
                shr |= bit
                v = rng.randint(-d, d); b.append(v); e.append(v + 1 if not weird else junk()); s.append(1)
                if weird and rng.randint(3) == 0: em |= bit
            else:
                b.append(rng.randint(-d - 2, d + 3)); e.append(rng.randint(-d - 2, d + 3)); s.append(1 if allone else pick(1, 2, 3, -1, -2))
                if rng.randint(3) == 0:
                    bm |= bit
                    if not weird: b[-1] = 0
                if rng.randint(3) == 0:
                    em |= bit
                    if not weird: e[-1] = 0
        k += 1
    if not b:
        return None
    return S, b, e, s, dict(begin_mask=bm, end_mask=em, ellipsis_mask=ell, new_axis_mask=nax, shrink_axis_mask=shr)

def make_strided(S, b, e, s, masks, dyn='', i64=False, opset=13, xs=None, dt='float32', opt=False, key='net:strided', rng=None):
    it = 'int64' if i64 else 'int32'
    x = T.data(rng or np.random.RandomState(0), S, dt)
    consts = {'b': b, 'e': e, 's': s}
    order = [k for k in 'bes' if k in dyn]
    specs = [(xs if xs is not None else S, dt)] + [([len(b)], it) for k in order]
    feeds = [x] + [np.array(consts[k], it) for k in order]
    def fn(x, *ph):
        v = {k: tf.constant(np.array(consts[k], it)) for k in consts}
        v.update(dict(zip(order, ph)))
        return raw.StridedSlice(input=x, begin=v['b'], end=v['e'], strides=v['s'], **masks)
    # a negative stride that starts before the first element: ONNX Slice has no way to say "nothing"
    ax, early = 0, False
    ell = [k for k in range(len(b)) if masks['ellipsis_mask'] >> k & 1]
    after = len([k for k in range(len(b)) if (not ell or k > ell[0]) and not masks['new_axis_mask'] >> k & 1])
    for k in range(len(b)):
        if masks['ellipsis_mask'] >> k & 1:
            ax = len(S) - after
            continue
        if masks['new_axis_mask'] >> k & 1:
            continue
        if not (masks['shrink_axis_mask'] >> k & 1) and not masks['begin_mask'] >> k & 1 and s[k] < 0 and b[k] + S[ax] < 0:
            early = True
        ax += 1
    desc = dict(kind='strided', S=S, begin=b, end=e, strides=s, dyn=dyn, dtype=dt, itype=it, **masks)
    return Case(key + (':nonconst' if dyn else '') + (':before-start' if early else ''), fn, specs, feeds, opset, optimize=opt, desc=repr(desc))

def make_slice(S, b, z, dyn='', i64=False, opset=13, xs=None, dt='float32', opt=False, rng=None):
    it = 'int64' if i64 else 'int32'
    consts = {'b': b, 'z': z}
    order = [k for k in 'bz' if k in dyn]
    specs = [(xs if xs is not None else S, dt)] + [([len(S)], it) for k in order]
    feeds = [T.data(rng or np.random.RandomState(0), S, dt)] + [np.array(consts[k], it) for k in order]
    def fn(x, *ph):
        v = {k: tf.constant(np.array(consts[k], it)) for k in consts}
        v.update(dict(zip(order, ph)))
        return raw.Slice(input=x, begin=v['b'], size=v['z'])
    return Case('net:slice' + (':nonconst' if dyn else ''), fn, specs, feeds, opset, optimize=opt, desc=repr(dict(kind='slice', S=S, b=b, z=z, dyn=dyn, dtype=dt, itype=it)))

def cases(rng, tier):
    pick = lambda *a: a[rng.randint(len(a))]
    none = dict(begin_mask=0, end_mask=0, ellipsis_mask=0, new_axis_mask=0, shrink_axis_mask=0)
    yield make_strided([2, 5], [0, -7], [2, -9], [1, -1], none, opset=13)        # known finding
    while True:
        opset = pick(7, 8, 9, 10, 11, 12, 13, 15, 17, 18)
        opt = bool(pick(0, 0, 1))
        kind = pick('strided', 'strided', 'strided', 'slice')
        dt = pick('float32', 'float32', 'int32', 'int64', 'bool')
        if kind == 'strided':
            weird = bool(pick(0, 1))
            q = strided(rng, weird)
            if q is None:
                continue
            S, b, e, s, masks = q
            it = pick('int32', 'int32', 'int64')
            dyn = pick('', '', '', 'b', 'e', 's', 'be', 'bes')
            if opset < 10 and (any(v != 1 for v in s) or dyn or masks['new_axis_mask']):
                continue             # refused by design below opset 10
            xs = list(S)
            if pick(0, 1):
                xs = [None if rng.randint(2) else d for d in xs]
            c = make_strided(S, b, e, s, masks, dyn, it == 'int64', opset, xs, dt, opt, 'net:strided' + (':junk' if weird else ''), rng)
            if not c.key.endswith(':before-start'):
                yield c
        else:
            r = rng.randint(1, 5)
            S = [rng.randint(1, 6) for _ in range(r)]
            b = [rng.randint(0, d + 1) for d in S]
            z = [pick(-1, rng.randint(0, d - q + 1)) for d, q in zip(S, b)]
            dyn = pick('', '', 'b', 'z', 'bz')
            if opset < 10 and dyn:
                continue
            yield make_slice(S, b, z, dyn, bool(pick(0, 1)), opset, [None if rng.randint(4) == 0 else d for d in S], dt, opt, rng)
