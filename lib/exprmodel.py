"""Reference semantics of find expressions: parse a token list by the documented grammar, evaluate it over a model hierarchy."""
import model
from model import join

class Bad(Exception): pass
class Unspecified(Exception): pass
class Quit(Exception): pass

# A token is a tuple of argv words.
ACTIONS = {"-print", "-print0", "-printf", "-exit", "-prune", "-quit", "-limit"}
NOPRINT_NEUTRAL = {"-prune", "-quit", "-limit"}  # do not suppress the implied -print

class Parser:
    def __init__(self, toks):
        self.t = toks; self.i = 0
        self.has_action = False; self.limit = False; self.excl = []; self.excluding = False
        self.mind = 0; self.maxd = 10**9; self.post = False
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def parse(self):
        if not self.t: e = None
        else:
            e = self.expr()
            if self.peek() is not None: raise Bad("junk")
        if not self.has_action:
            if self.limit: raise Bad("-limit needs an action")
            e = ("and", e, ("prim", ("-print",), [0])) if e is not None else ("prim", ("-print",), [0])
        return e
    def expr(self):
        e = self.clause()
        while self.peek() is not None and self.peek()[0] == ",":
            self.i += 1; e = (",", e, self.clause())
        return e
    def clause(self):
        e = self.term()
        while self.peek() is not None and self.peek()[0] in ("-o", "-or"):
            self.i += 1; e = ("or", e, self.term())
        return e
    def term(self):
        e = self.factor()
        while True:
            p = self.peek()
            if p is None or p[0] in ("-o", "-or", ",", ")"): return e
            if p[0] in ("-a", "-and"): self.i += 1
            e = ("and", e, self.factor())
    def factor(self):
        p = self.peek()
        if p is None: raise Bad("eof")
        self.i += 1
        w = p[0]
        if w == "(":
            e = self.expr()
            if self.peek() is None or self.peek()[0] != ")": raise Bad("paren")
            self.i += 1
            return e
        if w in ("!", "-not"): return ("not", self.factor())
        if w == "-exclude":
            if self.excluding: raise Bad("nested")
            self.excluding = True
            self.excl.append(self.factor())
            self.excluding = False
            return ("prim", ("-true",), [0])
        if w in (")", "-a", "-and", "-o", "-or", ","): raise Bad("operator")
        if w in ACTIONS:
            if self.excluding: raise Bad("action in -exclude")
            if w not in NOPRINT_NEUTRAL: self.has_action = True
            if w == "-limit": self.limit = True
        if w == "-nohidden":
            if self.excluding: raise Unspecified()
            self.excl.append(("prim", ("-hidden",), [0])); return ("prim", ("-true",), [0])
        if w == "-maxdepth": self.maxd = int(p[1]); return ("prim", ("-true",), [0])
        if w == "-mindepth": self.mind = int(p[1]); return ("prim", ("-true",), [0])
        if w in ("-depth", "-d") and len(p) == 1: self.post = True; return ("prim", ("-true",), [0])
        return ("prim", p, [0])

class Eval:
    def __init__(self, e, p, tests):
        self.e = e; self.p = p; self.out = []; self.status = 0; self.tests = tests
    def ev(self, e, f):
        k = e[0]
        if k == "and": return self.ev(e[1], f) and self.ev(e[2], f)
        if k == "or": return self.ev(e[1], f) or self.ev(e[2], f)
        if k == ",": self.ev(e[1], f); return self.ev(e[2], f)
        if k == "not": return not self.ev(e[1], f)
        w = e[1]; n = w[0]
        if n == "-true": return True
        if n == "-false": return False
        if n == "-print": self.out.append(f.path + b"\n"); return True
        if n == "-print0": self.out.append(f.path + b"\0"); return True
        if n == "-printf": self.out.append(self.tests["-printf"](w[1], f)); return True
        if n == "-prune": f.prune = True; return True
        if n == "-quit": raise Quit()
        if n == "-exit": self.status = int(w[1]) if len(w) > 1 else 0; raise Quit()
        if n == "-limit":
            e[2][0] += 1
            if e[2][0] >= int(w[1]): raise Quit()
            return True
        return self.tests[n](w[1:], f)

class File:
    __slots__ = ("path", "name", "node", "depth", "prune")

def simulate(toks, roots, tests, strategy="dfs"):
    """-> (status, output bytes) of bfs -s -S strategy over the roots, or raises Bad."""
    p = Parser(toks)
    e = p.parse()
    m = Eval(e, p, tests)
    def mk(path, name, node, depth):
        f = File(); f.path = path; f.name = name; f.node = node; f.depth = depth; f.prune = False; return f
    def excluded(f):
        return any(m.ev(x, f) for x in p.excl)
    def visit(f):
        """-> whether to descend"""
        if excluded(f): return False
        if p.mind <= f.depth <= p.maxd: m.ev(e, f)
        return f.node[0] == 'd' and not f.prune and f.depth < p.maxd
    def kids(f):
        for n in sorted(f.node[1]): yield mk(join(f.path, n), n, f.node[1][n], f.depth + 1)
    def pre(f):
        if visit(f):
            for k in kids(f): pre(k)
    def postw(f):
        if excluded(f): return
        if f.node[0] == 'd' and f.depth < p.maxd:
            for k in kids(f): postw(k)
        if p.mind <= f.depth <= p.maxd: m.ev(e, f)
    rs = [mk(r, r.rstrip(b"/").split(b"/")[-1] or b"/", n, 0) for r, n in sorted(roots, key=lambda x: x[0])]
    try:
        if p.post:
            for r in rs: postw(r)
        elif strategy == "dfs":
            for r in rs: pre(r)
        else:
            level = rs
            while level:
                nxt = []
                for f in level:
                    if visit(f): nxt.append(f)
                level = [k for f in nxt for k in kids(f)]
    except Quit: pass
    return m.status, b"".join(m.out)
