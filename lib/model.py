"""Reference model: abstract hierarchies and the walks bfs should make of them.

A node is a tuple: ('d', {name: node}), ('f', size), ('l', target), ('p',), ('s',)
"""
import os, itertools, functools, socket

def D(**kw): return ('d', {k.encode(): v for k, v in kw.items()})
F = ('f', 0)

# ---- enumeration of unlabelled rooted trees; leaves are files or empty directories
@functools.lru_cache(None)
def shapes(n):
    """All unordered directory trees with exactly n nodes (root is a dir), as canonical nested tuples.
    'f' is a file; a tuple is a directory of its children."""
    if n == 1: return ((),)
    out = set()
    for part in partitions(n - 1):
        # multiset of child sizes
        groups = {}
        for p in part: groups[p] = groups.get(p, 0) + 1
        lists = []
        for size, cnt in groups.items():
            opts = subtrees(size)
            lists.append([c for c in itertools.combinations_with_replacement(range(len(opts)), cnt)])
        sizes = list(groups)
        for combo in itertools.product(*lists):
            kids = []
            for size, idxs in zip(sizes, combo):
                o = subtrees(size)
                kids += [o[i] for i in idxs]
            out.add(tuple(sorted(kids, key=repr)))
    return tuple(sorted(out, key=repr))

@functools.lru_cache(None)
def subtrees(n):
    return (('f',) if n == 1 else ()) + shapes(n)

def partitions(n, m=None):
    m = m or n
    if n == 0: yield (); return
    for k in range(min(n, m), 0, -1):
        for rest in partitions(n - k, k): yield (k,) + rest

# Names chosen so that string order differs from creation order, and comparing
# "name/..." differs from comparing names.
NAMES = [b"b", b"a", b"b.c", b"B", b"a b", b"-x", b"bb", b"a-", b"~", b"0", b".h", b"zz", b"\xc3\xa9", b"(", b"!"]

def label(shape, names=NAMES, perm=0):
    if shape == 'f': return ('f', 0)
    k = len(shape)
    kids = {}
    for i, c in enumerate(shape):
        j = (i + perm) % k if k else 0
        kids[names[i]] = label(shape[j], names, perm)
    return ('d', kids)

def size(node):
    return 1 + (sum(size(c) for c in node[1].values()) if node[0] == 'd' else 0)

def make(base, name, node):
    p = os.path.join(base, name)
    _make(p, node)

def _make(p, node):
    t = node[0]
    if t == 'd':
        os.mkdir(p)
        for n, c in node[1].items(): _make(os.path.join(p, n), c)
    elif t == 'f':
        fd = os.open(p, os.O_WRONLY | os.O_CREAT, 0o644)
        if len(node) > 1 and node[1]: os.truncate(fd, node[1])
        os.close(fd)
    elif t == 'l': os.symlink(node[1], p)
    elif t == 'p': os.mkfifo(p)
    elif t == 's':
        s = socket.socket(socket.AF_UNIX); cwd = os.getcwd(); os.chdir(os.path.dirname(p)); s.bind(os.path.basename(p)); os.chdir(cwd); s.close()
    else: raise ValueError(t)

def join(path, name):
    return path + name if path.endswith(b"/") else path + b"/" + name

def walk(root, node, depth=0):
    """Pre-order, siblings in byte order: (path, node, depth)."""
    yield root, node, depth
    if node[0] == 'd':
        for n in sorted(node[1]): yield from walk(join(root, n), node[1][n], depth + 1)

def postwalk(root, node, depth=0):
    if node[0] == 'd':
        for n in sorted(node[1]): yield from postwalk(join(root, n), node[1][n], depth + 1)
    yield root, node, depth

def sorted_order(roots, strategy, mind=0, maxd=10**9, post=False):
    """Exact visit order with -s; None where only constraints are specified."""
    roots = sorted(roots, key=lambda rn: rn[0])  # roots are siblings too
    flt = lambda seq: [p for p, n, d in seq if mind <= d <= maxd]
    pre = [e for r, n in roots for e in walk(r, n)]
    md = max((d for _, _, d in pre), default=0)
    if not post:
        if strategy == "dfs": return flt(pre)
        if strategy in ("bfs", "ids"):
            return flt([e for k in range(md + 1) for e in pre if e[2] == k])
        if strategy == "eds":
            out = []; lo, hi = 0, 1
            while lo <= md:
                out += [e for e in pre if lo <= e[2] < hi]; lo, hi = hi, hi * 2
            return flt(out)
    else:
        pst = [e for r, n in roots for e in postwalk(r, n)]
        if strategy == "dfs": return flt(pst)
        if strategy == "ids": return flt([e for k in range(md, -1, -1) for e in pst if e[2] == k])
    return None
