"""C05: mindur persists over every mask update."""
from itertools import product
import numpy as np
from harness.packlib import mkpack, barr, blist, bits, runs, farr
from harness.c03 import latch

BOUNDS = ('data length 3 to 5; mindur symbolic 0..6 set before, between or '
          'after the updates; histories of 2 (quick) / 3 (thorough) updates '
          'of 11 kinds after it, also after refused changes; all mask bits and triggers symbolic')
OUTSIDE = 'longer histories and arrays; in-place writes to the mask array'
ASSUMPTIONS = []

OPS = ('mask=', 'mask&=', 'startstop', 'duration', 'duration_max', 'reset',
       'data', 'npdict', 'append', 'mindur', 'mindur_none', 'empty',
       'append_empty')
FAILING = ('fail_append', 'fail_mindur', 'fail_data', 'fail_mask')


def short(bs, req):
    out = list(bs)
    if req is None:
        return out
    for a, b in runs(bs):
        if req > b - a:
            out[a:b] = [False] * (b - a)
    return out


def step(env, P, pack, cur, md, op, t):
    n = len(cur)
    if op == 'mask=':
        m = barr(env, t + 'm', n)
        e = list(m)
        pack.mask = m
        return short(bits(e), md), md
    if op == 'mask&=':
        m = barr(env, t + 'm', n)
        pack.mask &= m
        return short([a and b for a, b in zip(cur, bits(m))], md), md
    if op == 'startstop':
        a, b = blist(env, t + 's', n), blist(env, t + 'e', n)
        pack.startstop(a, b)
        w = latch(bits(a), bits(b))
        return short([x and y for x, y in zip(cur, w)], md), md
    if op == 'duration':
        d = env.int(t + 'd', 0, n + 1)
        pack.duration(d)
        return short(cur, d), md
    if op == 'duration_max':
        d = env.int(t + 'd', 0, n + 1)
        pack.duration(d, mindur=False)
        out = list(cur)
        for a, b in runs(cur):
            if d < b - a:
                out[a:b] = [False] * (b - a)
        return out, md
    if op == 'reset':
        pack.mask_reset()
        return short([True] * n, md), md
    if op in ('data', 'npdict'):
        m = env.choice(t + 'n', (n, n + 1))
        d = {k: farr(env, t + 'd%d_' % k, m) for k in (0, 2)}
        pack.data = d if op == 'data' else P.NpDict(d)
        return short([True] * m, md), md
    if op == 'append':
        other, od = mkpack(env, 1, tag=t + 'a')
        pack.append_pack(other)
        return short([True] * (n + 1), md), md
    if op == 'mindur':
        md = env.int(t + 'md', 0, n + 2)
        pack.mindur = md
        return short(cur, md), md
    if op == 'mindur_none':
        pack.mindur = None
        return cur, None
    if op == 'empty':
        pack.data = {}
        return [], md
    if op == 'append_empty':
        pack.append_pack(P.ChannelPack())
        return short([True] * n, md), md
    if op == 'fail_append':
        r, exc = env.attempt(pack.append_pack, P.ChannelPack({1: [1.0]}))
    elif op == 'fail_mindur':
        r, exc = env.attempt(setattr, pack, 'mindur', 'x')
    elif op == 'fail_data':
        r, exc = env.attempt(setattr, pack, 'data', {'a': [1.0]})
    elif op == 'fail_mask':
        r, exc = env.attempt(setattr, pack, 'mask', [True])
    else:
        raise AssertionError(op)
    env.check(exc is not None, 'refused')
    return cur, md


def history(env, n, ops, first):
    P = env.load('channelpack.pack')
    pack, data = mkpack(env, n)
    cur, md = [True] * n, None
    if first == 'set':
        md = env.int('md', 0, n + 1)
        pack.mindur = md
        cur = short(cur, md)
    for j, op in enumerate(ops):
        cur, md = step(env, P, pack, cur, md, op, 'o%d_' % j)
        env.check(bits(pack.mask) == cur,
                  'the mask is the update without too short parts')
        rs = runs(cur)
        env.check(list(pack.parts()) == list(range(len(rs))), 'parts')
        if md is not None:
            for a, b in rs:
                env.check(env.lnot(md > b - a), 'no part below mindur')
    env.check(env.same(pack.mindur, md), 'mindur keeps its value')


def cases(tier):
    out = []
    k = 2 if tier == 'quick' else 3
    for ops in product(OPS, repeat=k):
        out.append(dict(name='set,' + ','.join(ops), fn=history,
                        params=dict(n=3, ops=ops, first='set')))
    for op in OPS:
        out.append(dict(name='late:%s' % op, fn=history,
                        params=dict(n=3 if tier == 'quick' else 4,
                                    ops=('mask=', 'mindur', op),
                                    first='none')))
    for f in FAILING:
        for op in ('mask=', 'reset', 'data', 'append'):
            out.append(dict(name='fail:%s:%s' % (f, op), fn=history,
                            params=dict(n=3, ops=(f, op), first='set')))
    for op in OPS:
        out.append(dict(name='one:%s' % op, fn=history,
                        params=dict(n=4, ops=(op,), first='set')))
    return out
