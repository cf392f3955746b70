"""Shared pieces of the pack harnesses: symbolic packs and operations."""
import numpy as np


def farr(env, name, n, nan=True):
    return env.array([env.float('%s%d' % (name, i), nan) for i in range(n)],
                     float)


def barr(env, name, n):
    return env.array([env.bool('%s%d' % (name, i)) for i in range(n)], bool)


def blist(env, name, n):
    return [env.bool('%s%d' % (name, i)) for i in range(n)]


def bits(mask):
    return [bool(b) for b in mask]


def runs(bs):
    """Maximal runs of true values as (start, stop)."""
    out, i = [], 0
    while i < len(bs):
        if bs[i]:
            j = i
            while j < len(bs) and bs[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def mkpack(env, n, keys=(0, 2), names=None, nan=True, tag='d'):
    P = env.load('channelpack.pack')
    data = {k: farr(env, '%s%d_' % (tag, k), n, nan) for k in keys}
    return P.ChannelPack(dict(data), names), data


OPS = ('mask=', 'mask&=', 'startstop', 'startstop_noapply', 'duration',
       'duration_max', 'mindur', 'mindur_none', 'reset', 'data', 'append')


def apply_op(env, pack, data, op, tag, n):
    """Apply one operation; returns the (possibly new) data dict of lists.
    n is the current length."""
    if op == 'mask=':
        pack.mask = barr(env, tag + 'm', n)
    elif op == 'mask&=':
        pack.mask &= barr(env, tag + 'm', n)
    elif op == 'startstop':
        pack.startstop(blist(env, tag + 's', n), blist(env, tag + 'e', n))
    elif op == 'startstop_noapply':
        pack.startstop(blist(env, tag + 's', n), blist(env, tag + 'e', n),
                       apply=False)
    elif op == 'duration':
        pack.duration(env.int(tag + 'dur', 0, n + 1))
    elif op == 'duration_max':
        pack.duration(env.int(tag + 'dur', 0, n + 1), mindur=False)
    elif op == 'mindur':
        pack.mindur = env.int(tag + 'min', 0, n + 1)
    elif op == 'mindur_none':
        pack.mindur = None
    elif op == 'reset':
        pack.mask_reset()
    elif op == 'data':
        m = env.choice(tag + 'len', (n, n + 1, max(0, n - 1)))
        new = {k: farr(env, '%sd%d_' % (tag, k), m) for k in data}
        pack.data = dict(new)
        return new, m
    elif op == 'append':
        other, od = mkpack(env, 1, keys=tuple(data), tag=tag + 'a')
        pack.append_pack(other)
        return {k: list(data[k]) + list(od[k]) for k in data}, n + 1
    else:
        raise AssertionError(op)
    return data, n
