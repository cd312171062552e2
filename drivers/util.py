"""Shared pieces of the drivers."""
import os
import random

NAMINGS = [                                                 # injective renamings
    {},                                                     # as in the model
    {'a': 'grid file.xml', 'b': 'r\u00e9sum\u00e9.txt', 'd': 'sub dir', 'e': 'deep'},
    {'a': 'd.tmp', 'b': '.hidden', 'd': 'aa', 'e': 'aaa', 'g': '-dash'},
    {'a': 'x', 'b': 'xx', 'd': 'x.d', 'e': 'x.', 'h': 'x.d.tmp'},
    {'a': 'us1', 'b': 'us1.tmp', 'f': 'us1.tmp_', 'c': 'us1.part', 'd': 'us2', 'w': 'us1.tmp_1', 'e': ' e', 'z': 'us1.txt', 'i': 'us1.bak'},
    {'a': 'us1.txt', 'b': 'us1.tmp_20200101000000', 'c': 'us1.xml', 'z': 'us1.tmp', 'tmp': 'us1', 'w': 'us1.txt.tmp'},
]


def pool(seed, big=False):
    """content id -> bytes (0 is empty), injective"""
    r = random.Random(seed)
    size = [0, 1, 5, 700, 1024, 1025, 4096, 65536, 70001, 300000, 1048577, 2500000]

    def get(k):
        if k == 0:
            return b''
        rr = random.Random('%s/%s' % (seed, k))
        n = rr.choice(size if big else size[:7])
        style = rr.randrange(3)
        head = ('#%d\n' % k).encode()
        if style == 0:
            body = (b'line of text \r\n' * (n // 14 + 1))[:n]
        elif style == 1:
            body = bytes(rr.getrandbits(8) for _ in range(min(n, 3000))) * (n // 3000 + 1)
        else:
            body = b'\x00\xff\xfe\n' * (n // 4)
        return head + body
    r.random()
    return get


TEXTS = ['Cancelled: reason %d', '  caf\u00e9 \u2013 no. %d "quoted" $HOME `id`', 'it\'s %d\n\nsecond line\t\n ', '-n %d\\n*']


class Rev(object):
    """bytes -> content id, filled as contents are made"""

    def __init__(self, get):
        self.get = get
        self.rev = {b'': 0}

    def bytes(self, k):
        b = self.get(k)
        self.rev[b] = k
        return b

    def text(self, k):
        # marker texts: printable
        t = '' if k == 0 else TEXTS[k % len(TEXTS)] % k
        self.rev[t.encode()] = k
        return t

    def id(self, b):
        return self.rev.get(b, -1)


def walk_files(root, plain=False):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            full = os.path.join(r, f)
            rel = os.path.relpath(full, root)
            if plain and os.path.islink(full):
                out[rel] = b'*link*'
                continue
            with open(full, 'rb') as h:
                out[rel] = h.read()
    return out


def mkfile(path, data, link=None, when=None):
    """link: the file is kept there and path is a symbolic link to it"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if link is not None:
        if os.path.exists(path):
            os.remove(path)
        os.symlink(os.path.relpath(link, os.path.realpath(os.path.dirname(path))), path)
        path = link
        os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        _write(path, data)
    finally:
        if when is not None:
            os.utime(path, (when, when))


def _write(path, data):
    with open(path, 'wb') as h:
        h.write(data)


def exc(e):
    return type(e).__name__
