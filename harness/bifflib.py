"""Building BIFF streams (xls workbooks without their container)."""
import struct

EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)


def u16(n):
    return struct.pack('<H', n)


def rec(env, code, *parts):
    """A record of the parts (bytes, symbolic or not)."""
    body = env.concat(b'', *parts) if parts else b''
    return env.concat(struct.pack('<HH', code, len(body)), body)


def bof(kind, version=0x0600):
    if version == 0x0600:
        return struct.pack('<HHHHHHII', 0x809, 16, version, kind, 0x0dbb,
                           1996, 0, 6)
    return struct.pack('<HHHHHH', 0x809, 8, version, kind, 0x0dbb, 1996)


EOF = struct.pack('<HH', 10, 0)


def xf(env, fmt, version=0x0600):
    n = 16 if version == 0x0600 else 12
    return rec(env, 0xe0, u16(0), fmt if not isinstance(fmt, int) else
               u16(fmt), b'\0' * n)


def fmt(env, key, code, version=0x0600):
    """A number format; code is text or symbolic text of latin-1."""
    b = env.encode(code, 'latin-1')
    if version == 0x0600:
        return rec(env, 0x41e, u16(key), u16(len(code)), b'\0', b)
    return rec(env, 0x41e, u16(key), bytes([len(code)]), b)


def ustr(env, s, wide=False, lenlen=2):
    """An unformatted unicode string of BIFF8 from text below 256, or for
    wide from bytes already in UTF-16."""
    if wide:
        n, b = len(s) // 2, s
    else:
        n, b = len(s), env.encode(s, 'latin-1')
    return env.concat(u16(n) if lenlen == 2 else bytes([n]),
                      b'\1' if wide else b'\0', b)


def stream(env, globs, sheets, version=0x0600, gap=b''):
    """A workbook stream: globals, then the sheets with their BOUNDSHEET
    records.  sheets: (name, kind, visibility, [records])."""
    head = env.concat(bof(5, version), *globs) if globs else bof(5, version)
    bsl = []
    for name, kind, vis, recs in sheets:
        if version == 0x0600:
            nm = ustr(env, name, lenlen=1)
        else:
            nm = env.concat(bytes([len(name)]), env.encode(name, 'latin-1'))
        bsl.append((nm, kind, vis))
    size = len(head) + sum(4 + 6 + len(n) for n, k, v in bsl) + len(EOF)
    bodies, offs = [], []
    # the sheets may lie in another order in the stream
    at = size
    for i, (name, kind, vis, recs) in enumerate(sheets):
        b = env.concat(gap, bof(0x20 if kind == 2 else 0x10, version),
                       *(list(recs) + [EOF]))
        offs.append(at + len(gap))
        at += len(b)
        bodies.append(b)
    bss = [rec(env, 0x85, struct.pack('<iBB', o, v, k), nm)
           for o, (nm, k, v) in zip(offs, bsl)]
    return env.concat(head, *(bss + [EOF] + bodies))


def book(env, globs, recs, version=0x0600, fname='t.xls'):
    return env.file(fname, stream(env, globs, [('S', 0, 0, recs)], version))
