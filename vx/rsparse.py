"""A small Rust tokenizer and item parser, precise enough to find items,
signatures, loops, closures and calls in /repo's sources by byte offset.
Nothing here interprets the code: it only locates spans so that ghost text can
be inserted and a fixed list of rewrites applied to verbatim source text."""
import re

class ParseError(Exception):
    pass

class Tok:
    __slots__ = ("k", "s", "a", "b", "m")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None
    def __repr__(self):
        return "%s:%r@%d" % (self.k, self.s, self.a)

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")
OPENERS = {"(": ")", "[": "]", "{": "}"}

def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if c == '"' or (c in "bc" and src[i+1:i+2] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            toks.append(Tok("lit", src[i:j+1], i, j+1)); i = j + 1; continue
        m = re.match(r'b?r(#*)"', src[i:])
        if m:
            e = src.index('"' + m.group(1), i + m.end())
            j = e + 1 + len(m.group(1))
            toks.append(Tok("lit", src[i:j], i, j)); i = j; continue
        if c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                j = i + m.end(); toks.append(Tok("lit", src[i:j], i, j)); i = j; continue
            m = IDENT.match(src, i + 1)
            if not m: raise ParseError("lex ' at %d" % i)
            toks.append(Tok("life", src[i:m.end()], i, m.end())); i = m.end(); continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(), i, m.end())); i = m.end(); continue
        m = NUM.match(src, i)
        if m:
            toks.append(Tok("lit", m.group(), i, m.end())); i = m.end(); continue
        toks.append(Tok("p", c, i, i + 1)); i += 1
    # matching delimiters
    st = []
    for x, t in enumerate(toks):
        if t.k == "p" and t.s in OPENERS:
            st.append(x)
        elif t.k == "p" and t.s in ")]}":
            if not st: raise ParseError("unbalanced")
            o = st.pop()
            if OPENERS[toks[o].s] != t.s: raise ParseError("unbalanced")
            toks[o].m = x; t.m = o
    if st: raise ParseError("unbalanced")
    return toks

class Item:
    """kind: fn struct enum impl trait mod use macro const type static extern"""
    def __init__(self):
        self.attrs = []       # list of (tok lo, tok hi) inclusive
        self.kind = None
        self.name = None
        self.lo = self.hi = None   # token range inclusive, attrs included
        self.start = None          # first token after attrs
        self.kw = None             # keyword token index
        self.body = None           # (open, close) brace tokens
        self.members = []
        self.header = None
        self.vis = None            # tok range of visibility or None

class File:
    def __init__(self, src, name):
        self.src, self.name = src, name
        self.t = lex(src)
        self.items = self.parse_items(0, len(self.t))

    def text(self, lo, hi):
        """source of tokens lo..hi inclusive"""
        return self.src[self.t[lo].a:self.t[hi].b]

    def norm(self, lo, hi):
        """normalized token text of lo..hi (inclusive)"""
        return " ".join(x.s for x in self.t[lo:hi+1])

    def is_(self, i, s):
        return i < len(self.t) and self.t[i].s == s

    def skip_generics(self, i):
        """i at '<': return index after the matching '>'"""
        d, t = 0, self.t
        while True:
            s = t[i].s
            if t[i].k == "p":
                if s == "<": d += 1
                elif s == ">" and not (t[i-1].s == "-" and t[i-1].b == t[i].a) and not (t[i-1].s == "=" and t[i-1].b == t[i].a):
                    d -= 1
                    if d == 0: return i + 1
                elif s in OPENERS: i = t[i].m
            i += 1

    def parse_items(self, i, end):
        out, t = [], self.t
        while i < end:
            it = Item(); it.lo = i
            while self.is_(i, "#"):
                j = i + 1
                if self.is_(j, "!"): j += 1
                it.attrs.append((i, t[j].m)); i = t[j].m + 1
            if i >= end:
                if it.attrs:
                    it.kind = "attr"; it.hi = i - 1; it.start = i; out.append(it)
                break
            it.start = i
            if self.is_(i, "pub"):
                v = i; i += 1
                if self.is_(i, "("): i = t[i].m + 1
                it.vis = (v, i - 1)
            q = i
            while t[q].s in ("unsafe", "const", "async", "extern", "default") and t[q].k == "id":
                if t[q].s == "const" and not (t[q+1].s in ("fn", "unsafe", "extern", "async")): break
                if t[q].s == "extern" and t[q+1].s == "crate": break
                q += 1
                if t[q].k == "lit": q += 1
            s = t[q].s; it.kw = q
            if s == "fn":
                it.kind = "fn"; it.name = t[q+1].s; self.parse_fn(it)
            elif s in ("struct", "enum", "union"):
                it.kind = s; it.name = t[q+1].s; j = q + 2
                if self.is_(j, "<"): j = self.skip_generics(j)
                while not (t[j].s in ("{", ";", "(")): j += 1
                if t[j].s == "(":
                    it.body = (j, t[j].m); j = t[j].m + 1
                    while t[j].s != ";": j += 1
                    it.hi = j
                elif t[j].s == "{":
                    it.body = (j, t[j].m); it.hi = t[j].m
                else: it.hi = j
            elif s in ("impl", "trait", "mod"):
                it.kind = s
                if s != "impl": it.name = t[q+1].s
                j = q + 1
                while not (t[j].s == "{" or t[j].s == ";"):
                    if t[j].s in "([" and t[j].k == "p": j = t[j].m
                    j += 1
                it.header = (q, j - 1)
                if t[j].s == ";": it.hi = j
                else:
                    it.body = (j, t[j].m); it.hi = t[j].m
                    it.members = self.parse_items(j + 1, t[j].m)
            elif s in ("use", "const", "static", "type", "extern"):
                it.kind = s; it.name = t[q+1].s
                j = q
                while t[j].s != ";":
                    if t[j].k == "p" and t[j].s in OPENERS: j = t[j].m
                    j += 1
                it.hi = j
            elif t[q].k == "id" and self.is_(q + 1, "!"):
                it.kind = "macro"; it.name = s
                j = q + 2
                if t[j].k == "id": it.name = s + "!" + t[j].s; j += 1
                it.body = (j, t[j].m); it.hi = t[j].m
                if self.is_(it.hi + 1, ";"): it.hi += 1
            elif s == ";":
                it.kind = "semi"; it.hi = q
            else:
                raise ParseError("%s: cannot parse item at %r (offset %d)" % (self.name, s, t[q].a))
            out.append(it); i = it.hi + 1
        return out

    def parse_fn(self, it):
        t = self.t; j = it.kw + 2
        it.generics = None
        if t[j].s == "<":
            e = self.skip_generics(j); it.generics = (j, e - 1); j = e
        if t[j].s != "(": raise ParseError("fn params")
        it.params = (j, t[j].m); j = t[j].m + 1
        it.ret = None; it.where = None
        if t[j].s == "-" and t[j+1].s == ">":
            a = j + 2; j = a
            while not (t[j].s in ("{", ";") or (t[j].s == "where" and t[j].k == "id")):
                if t[j].k == "p" and t[j].s in "([": j = t[j].m
                j += 1
            it.ret = (a, j - 1)
        if t[j].s == "where":
            a = j
            while not t[j].s in ("{", ";"):
                if t[j].k == "p" and t[j].s in "([": j = t[j].m
                j += 1
            it.where = (a, j - 1)
        if t[j].s == ";": it.body = None; it.hi = j
        else: it.body = (j, t[j].m); it.hi = t[j].m

    # ---- inside bodies
    def loops(self, lo, hi):
        """loops in token range, source order: dicts kind, kw, body(open tok), label tok or None"""
        out, t = [], self.t
        i = lo
        while i <= hi:
            x = t[i]
            if x.k == "id" and x.s in ("while", "loop", "for"):
                if x.s == "for" and (t[i+1].s == "<"):   # for<'a>
                    i += 1; continue
                j = i + 1; pin = None
                while t[j].s != "{":
                    if x.s == "for" and t[j].k == "id" and t[j].s == "in" and pin is None: pin = j
                    if t[j].k == "p" and t[j].s in "([": j = t[j].m
                    j += 1
                lab = None
                if t[i-1].s == ":" and t[i-2].k == "life": lab = i - 2
                out.append({"kind": x.s, "kw": i, "open": j, "close": t[j].m, "label": lab, "in": pin})
            i += 1
        return out

    def guards(self, lo, hi):
        """matches with a guarded arm in token range: dicts arms: pat, guard (from the `if`) or None, arrow, body (token spans)"""
        out, t = [], self.t
        for i in range(lo, hi + 1):
            if not (t[i].k == "id" and t[i].s == "match"): continue
            j = i + 1
            while t[j].s != "{":
                if t[j].k == "p" and t[j].s in "([": j = t[j].m
                j += 1
            end, k, arms = t[j].m, j + 1, []
            while k < end:
                a = {"guard": None}; s = k; g = None
                while not (t[k].s == "=" and t[k+1].s == ">" and t[k+1].a == t[k].b):
                    if t[k].k == "p" and t[k].s in OPENERS: k = t[k].m
                    elif t[k].k == "id" and t[k].s == "if" and g is None: g = k
                    k += 1
                a["pat"] = (s, (g if g is not None else k) - 1); a["arrow"] = k
                if g is not None: a["guard"] = (g, k - 1)
                k += 2; b = k
                if t[k].s == "{": e = t[k].m
                else:
                    e = k
                    while True:
                        if t[e].k == "p" and t[e].s in OPENERS: e = t[e].m
                        if e + 1 >= end or t[e+1].s == ",": break
                        e += 1
                a["body"] = (b, e); k = e + 1
                if k < end and t[k].s == ",": k += 1
                arms.append(a)
            if any(a["guard"] for a in arms): out.append({"arms": arms})
        return out

    def closures(self, lo, hi):
        """closure literals in token range, source order"""
        out, t = [], self.t
        i = lo
        while i <= hi:
            x = t[i]
            if x.k == "p" and x.s == "|":
                p = t[i-1]
                prefix = (p.k == "p" and p.s in "(,={;[>") or (p.k == "id" and p.s in ("move", "return", "in", "else"))
                if p.k == "p" and p.s == "|" : prefix = False
                if prefix:
                    # params end
                    j = i + 1
                    while t[j].s != "|":
                        if t[j].k == "p" and t[j].s in OPENERS: j = t[j].m
                        j += 1
                    mv = i - 1 if p.s == "move" else None
                    b = j + 1
                    if t[b].s == "{":
                        be = t[b].m
                    else:
                        be = b
                        while True:
                            if t[be].k == "p" and t[be].s in OPENERS: be = t[be].m
                            n = t[be+1]
                            if n.k == "p" and n.s in ",)];}": break
                            be += 1
                    out.append({"bar": i, "bar2": j, "move": mv, "body": (b, be), "block": t[b].s == "{"})
                    i = j + 1; continue
            i += 1
        return out

    def calls(self, lo, hi, name):
        """NAME( ... ) calls (not method calls, not definitions)"""
        out, t = [], self.t
        for i in range(lo, hi):
            if t[i].k == "id" and t[i].s == name and t[i+1].s == "(" and t[i-1].s not in (".", "fn"):
                out.append((i, i + 1, t[i+1].m))
        return out

    def split_args(self, o, c):
        """top-level comma split of the tokens strictly between o and c"""
        t, out, a, i = self.t, [], o + 1, o + 1
        inbar = False
        while i < c:
            x = t[i]
            if x.k == "p":
                if x.s in OPENERS: i = x.m
                elif x.s == "|": inbar = not inbar
                elif x.s == "," and not inbar:
                    out.append((a, i - 1)); a = i + 1
            i += 1
        if a < c: out.append((a, c - 1))
        return out

def fn_key(f, impl, it):
    """stable key of a function: Head::name, Trait<..> for Head::name, or name"""
    if impl is None: return it.name
    if impl.kind == "trait":
        h = "trait %s" % impl.name
        return h if it is None else "%s::%s" % (h, it.name)
    q, e = impl.header; t = f.t
    j = q + 1; params = set()
    if t[j].s == "<":
        g = f.skip_generics(j)
        d = 0
        for k in range(j, g):
            if t[k].s == "<": d += 1
            elif t[k].s == ">" and t[k-1].s != "-": d -= 1
            if t[k].k == "id" and d == 1 and t[k-1].s in ("<", ","): params.add(t[k].s)
        j = g
    # up to where
    w = j
    while w <= e and not (t[w].k == "id" and t[w].s == "where"): w += 1
    forp = None; d = 0
    for k in range(j, w):
        if t[k].s == "<": d += 1
        elif t[k].s == ">" and t[k-1].s != "-": d -= 1
        elif t[k].k == "id" and t[k].s == "for" and d == 0: forp = k
    def norm(a, b):
        out = []
        for k in range(a, b):
            x = t[k]
            if x.k == "life": continue
            s = x.s
            if s in params and len(s) <= 2: s = "_" if s not in ("C",) else "C"
            out.append(s)
        s = "".join(out)
        s = re.sub(r"(std|core|ops|crate|fmt|mem|cmp)::", "", s)
        s = re.sub(r"(std|core|ops|crate|fmt|mem|cmp)::", "", s)
        s = s.replace("<,", "<").replace("<>", "").replace(",>", ">")
        return s
    if forp is None:
        h = norm(j, w)
        h = h.split("<")[0]
    else:
        h = "%s for %s" % (norm(j, forp), norm(forp + 1, w))
    return h if it is None else "%s::%s" % (h, it.name)
