"""Variants of a file: changes of its text or data after which it is often still a valid file of its kind, with another content.
What a variant must show is not known; properties that compare two executions use them."""
import random, re

FLOAT = re.compile(rb'(?<![\w.])[-+]?(?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])')
WORD = re.compile(rb'[A-Za-z]{4,}')
NUMS = [b'1.0E-100', b'-2.5E-101', b'0.0', b'-0.0', b'1.23456789012345678', b'-3.0000000000000004', b'1e300', b'7.0', b'NaN', b'-1.000000001E-07', b'123456.789012345',
        b'.5', b'5.', b'+4.25', b'1.0E+10', b'33.333333333333336']


def text(b):
    h = b[:4096]
    return b'\0' not in h and sum(c > 127 for c in h) < len(h) / 10


def variant(files, target, seed):
    """the same files with one to three changes; the number of changes and what they are is given by the seed"""
    r = random.Random('variant/%d' % seed)
    files = dict(files)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = target if r.random() < 0.8 else r.choice(sorted(files))
        files[k] = change(r, files[k])
    return files


def change(r, b):
    if len(b) < 8:
        return b
    if not text(b):
        i = len(b) // 2 + r.randrange(len(b) - len(b) // 2)       # the data part: sizes stay what they are
        return b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    kind = r.choice(['num', 'num', 'num', 'num', 'word', 'word', 'latin', 'utf8', 'eol', 'noeol', 'blank', 'tab', 'trail', 'spaces', 'case', 'dup', 'quote', 'digits'])
    if kind == 'num':
        m = list(FLOAT.finditer(b))
        if not m:
            return b
        m = r.choice(m)
        return b[:m.start()] + r.choice(NUMS) + b[m.end():]
    if kind == 'digits':
        m = [x for x in FLOAT.finditer(b)]
        if not m:
            return b
        m = r.choice(m)
        return b[:m.start()] + re.sub(rb'[1-9]', lambda x: b'%d' % r.randrange(1, 10), m.group()) + b[m.end():]
    if kind in ('word', 'latin', 'utf8', 'case', 'quote'):
        m = list(WORD.finditer(b))
        if not m:
            return b
        m = r.choice(m[:40] if r.random() < 0.6 else m)
        i = m.start() + 1 + r.randrange(2)
        if kind == 'quote':
            return b[:m.start()] + b'"' + m.group() + b'"' + b[m.end():]
        c = {'word': bytes([97 + r.randrange(26)]), 'latin': b'\xe9', 'utf8': 'é'.encode(), 'case': bytes([b[i]]).swapcase()}[kind]
        return b[:i] + c + b[i + 1:]
    if kind == 'eol':
        return b.replace(b'\r\n', b'\n') if b'\r\n' in b else b.replace(b'\n', b'\r\n')
    if kind == 'noeol':
        return b.rstrip(b'\r\n')
    L = b.split(b'\n')
    i = r.randrange(len(L))
    if kind == 'blank':
        return b + r.choice([b'\n', b'\n\n', b'  \n'])
    if kind == 'tab':
        L[i] = re.sub(rb' {2,}', b'\t', L[i])
    elif kind == 'trail':
        L[i] = L[i].rstrip(b'\r') + b'   ' + (b'\r' if L[i].endswith(b'\r') else b'')
    elif kind == 'spaces':
        L[i] = L[i].replace(b' ', b'  ')
    elif kind == 'dup':
        L.insert(i, L[i])
    return b'\n'.join(L)


def twin(files, target, seed):
    """files of the same size, with other numbers"""
    r = random.Random('twin/%d' % seed)
    files = dict(files)
    for k in sorted(files):
        b = files[k]
        if text(b):
            files[k] = FLOAT.sub(lambda m: re.sub(rb'[1-9]', lambda x: b'%d' % r.randrange(1, 10), m.group()), b)
        elif len(b) > 16:
            b = bytearray(b)
            for i in range(len(b) // 2, len(b), max(1, len(b) // 64)):
                b[i] ^= 1 << r.randrange(3)
            files[k] = bytes(b)
    return files


def flipped(b, seed):
    """other bytes, as many"""
    r = random.Random('flip/%d' % seed)
    if text(b):
        return re.sub(rb'[1-9]', lambda x: b'%d' % r.randrange(1, 10) if r.random() < 0.3 else x.group(), b)
    b = bytearray(b)
    for _ in range(1 + r.randrange(8)):
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)
