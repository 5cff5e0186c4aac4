#!/usr/bin/env python3
"""Mechanical extraction of /repo/src into one Verus file.

The executable text is copied verbatim from the sources; the only changes are
the ones listed in REWRITES below and ghost text inserted from the contract
files (vx/*.vx).  The list of what was dropped or rewritten is returned and
reported in the evidence of every run."""
import copy, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rsparse import File, fn_key, ParseError, lex

REWRITES = {
 "attrs":   "attributes and doc comments removed (derive(Copy, Clone) and copy_and_clone! expanded by hand; optional features treated as enabled)",
 "vis":     "struct fields, functions and modules made pub, so that specifications may mention them",
 "ret":     "return types given the name `ret` (`-> T` becomes `-> (ret: T)`)",
 "dbg":     "debug_assert!(e) becomes a call vx_debug_assert(e) whose precondition is e (so it must be proved)",
 "scope":   "scope(x, |v| body) is beta-reduced to { let v = vx_scope(x); body }; `return` inside becomes `return <the value the enclosing function returns after the scope call>`",
 "fnbound": "FnMut closure parameters treated as Fn where they are captured by another closure (predicates are relations; their own mutable state is not modelled)",
 "rawref":  "`&*p` on a raw pointer becomes vx_ref(p), specified over the ghost contents the pointer was created with",
 "rawdrf":  "`&*p` and `&mut *p` in dereference become vx_deref(p), vx_deref_mut(p), which record that the reference was obtained for p",
 "transmute": "mem::transmute in the no_proof functions of the pointer types becomes the field-wise rebuild with the other marker type",
 "rawslice": "slice::from_raw_parts(p, len) becomes vx_from_raw_parts(p, len, &self.arr): the storage the pointer denotes is passed along so that the result can be specified as a subrange of it",
 "defaults": "default methods of IndexRange and PointerExt copied into the impls that inherit them",
 "macro":   "pindex_range! expanded textually",
 "closure": "closure literals given typed parameters and contracts",
 "asinherent": "impls of Iterator, DoubleEndedIterator, ExactSizeIterator and IntoIterator emitted as inherent methods of the same name and body",
 "rawmem":  "`&mut self[i] as *mut T` becomes vx_elt_ptr_mut(self, i); `&*p` becomes vx_ref(p, &storage), a read `*p` becomes `*vx_ref(p, &storage)`; ptr::read/write/copy/copy_nonoverlapping/swap become vx_ptr_read(.., &storage) etc., specified over the contents of the storage the pointers point into",
 "mapdesugar": "`e.map(|p| b)` on an Option written as `match e { Some(p) => Some(b), None => None }`",
 "fordesugar": "`for x in e {..}` over the crate's iterators written as the loop over into_iter()/next() it stands for",
 "whiledesugar": "`while c {..}` written as `loop { if !(c) { break } .. }`, `while let` likewise, so that one loop contract fits either form",
 "debt":    "a ghost counter is added: +1 at every ptr::read, -1 at every mem::forget and ptr::write, asserted to be 0 at every comparison, every return and the end: what was read out of the storage is given back",
 "atcmp":   "in the sorts and merges every comparison `c` becomes `({ proof { assert(all elements are present exactly once); } c })`: a ghost assertion in front, nothing else",
 "guarddesugar": "`match s { .., A if g => b, _ => e }` with a simple e written as `match s { .., A => if g { b } else { e }, _ => e }` (Verus forgets what a `&mut` parameter holds across a match guard); a function with a guard in any other place is not judged by the proof",
 "inlinecall": "the call of zip in zip_dot_i32_prange, whose closure accumulates into a captured variable, replaced by zip's body as it is in the source, the closure's body in place of the call of it (arguments bound first; methods of the range parameters resolved to the trait)",
 "iterzip": "`for (p, q) in a.iter().zip(b) {..}` and `a.iter().zip(b).map(|(p, q)| e).sum()` over slices written as the loop over the first min(len) positions that std documents",
 "drop":    "items without bearing on the properties dropped (Debug, Display, Send/Sync impls, tests)",
}

DROP_TRAITS = ("Debug", "Display", "Sync", "Send", "FusedIterator")

# storage of a type the contracts do not know (the traits' obligations are stated per type)
STORAGE_TRAITS = ("Trustworthy", "Contiguous", "ContiguousMut", "GetUnchecked", "GetUncheckedMut", "FixedLength", "Pushable")

class Lost(Exception):
    """a contract could not be attached to the code as it is now"""
    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg)); self.key, self.msg = key, msg

# ------------------------------------------------------------ contract files
class Contract:
    def __init__(self, key):
        self.key, self.sec, self.opts, self.props = key, [], {}, []
    def get(self, name):
        return [x for x in self.sec if x[0] == name]

def load_contracts(paths):
    cs, blocks, cur, sec = {}, [], None, None
    for p in paths:
        for ln, line in enumerate(open(p), 1):
            if line.startswith("##"): continue
            if line.startswith("@@ "):
                w = line[3:].strip(); kind, _, arg = w.partition(" ")
                arg = arg.strip()
                if kind in ("fn", "leaf", "drop"):
                    cur = cs.get(arg)
                    if cur is None:
                        cur = Contract(arg); cs[arg] = cur
                    if kind != "fn": cur.opts[kind] = True
                    sec = None
                else:
                    cur = None; sec = [kind, arg, []]; blocks.append(sec)
            elif cur is not None and re.match(r"^@[a-z]", line):
                w = line[1:].rstrip("\n"); kind, _, arg = w.partition(" ")
                arg = arg.strip()
                if kind == "opt":
                    k, _, v = arg.partition(" "); cur.opts[k] = v or True
                    sec = None
                else:
                    sec = [kind, arg, []]; cur.sec.append(sec)
            elif sec is not None:
                sec[2].append(line)
            elif line.strip():
                raise SystemExit("%s:%d: stray text" % (p, ln))
    return cs, blocks

# ------------------------------------------------------------ extraction
class Out:
    def __init__(self):
        self.parts = []; self.line = 1; self.map = []   # (first line, last line, key)
    def w(self, s):
        self.parts.append(s); self.line += s.count("\n")
    def text(self): return "".join(self.parts)

class Extractor:
    def __init__(self, srcdir, contracts, blocks, demote=(), only=None, canary=False, leafnc=False, omit=()):
        self.omit = set(omit)             # not emitted at all
        self.src, self.cs, self.blocks = srcdir, contracts, blocks
        self.demote = set(demote)         # emitted as external_body
        self.lostset = {}                 # key -> reason
        self.used, self.seen, self.nocontract = set(), {}, []
        self.bare = {}   # functions with closure literals or loops that have no contract
        self.applied = {}                 # rewrite name -> count
        self.dropped = []
        self.out = Out()
        self.texts = {}
        self.canary = canary; self.leafnc = leafnc
        self.defaults = {}
        self.skipmods = set()
        self.named = set()                # methods and paths named in the bodies
        self.specs = {}
        self.status = {}                  # key -> body / leaf / decl

    def note(self, r, n=1): self.applied[r] = self.applied.get(r, 0) + n

    def block(self, kind, arg=""):
        return "".join("".join(b[2]) for b in self.blocks if b[0] == kind and b[1] == arg)

    def load(self, name):
        p = os.path.join(self.src, name + ".rs")
        if name == "macro_utils": return None
        if not os.path.exists(p):
            p = os.path.join(self.src, name, "mod.rs")
        s = open(p).read()
        s = self.expand_macros(s, name)
        for b in self.blocks:
            if b[0] in ("inline", "iterzip"):
                w = b[1].split()
                if w[0] != name: continue
                try: s2 = (self.expand_call if b[0] == "inline" else self.expand_iter)(s, name, w[1:], dict(re.findall(r"(?m)^(\w+) = (.*)$", "".join(b[2]))))
                except (Lost, IndexError, KeyError): s2 = None
                if s2: s = s2; self.note("inlinecall" if b[0] == "inline" else "iterzip")
        return File(s, name)

    @staticmethod
    def find_fn(f, name):
        return next((i for i in f.items if i.kind == "fn" and i.name == name and i.body and "cfg ( test" not in " ".join(f.norm(*a) for a in i.attrs)), None)

    @staticmethod
    def bind(f, pat, val):
        """`let` statements for the closure or tuple parameter pattern"""
        a, b = pat
        s = f.norm(a, b)
        m = re.match(r"& ?(\w+)$", s)
        if m: return "let %s = *%s; " % (m.group(1), val)
        if re.match(r"\w+$", s): return "let %s = %s; " % (s, val)
        raise Lost(None, "pattern")

    def expand_call(self, s, name, w, opt):
        """a call whose last argument is a closure literal is replaced by the callee's body"""
        fn, cmod, callee = w
        f = File(s, name); t = f.t
        it = self.find_fn(f, fn)
        if it is None: return None
        lo, hi = it.body
        cs = f.calls(lo, hi, callee)
        if len(cs) != 1: return None
        i, o, cl = cs[0]
        args = f.split_args(o, cl)
        g = File(open(os.path.join(self.src, cmod + ".rs")).read(), cmod)
        c = self.find_fn(g, callee)
        if c is None: return None
        u = g.t
        q = c.kw
        while not (u[q].k == "id" and u[q].s == callee): q += 1
        q += 1
        if u[q].s == "<": q = g.skip_generics(q)
        ps = [g.norm(a, b).split(" : ")[0].split(":")[0].split()[-1] for a, b in g.split_args(q, u[q].m)]
        if len(ps) != len(args): return None
        (a1, b1) = args[-1]
        if t[a1].s == "move": a1 += 1
        k = next((k for k in f.closures(lo, hi) if k["bar"] == a1), None)
        if k is None: return None
        pats = f.split_args_bars(k["bar"], k["bar2"])
        fname = ps[-1]
        pre = "".join("let vx_in_%s = %s; " % (p, f.text(a, b)) for p, (a, b) in zip(ps, args[:-1]))
        x, y = c.body
        out, j = "", x + 1
        last = u[x].b
        body = f.text(*k["body"])
        if re.search(r"\b(return|break|continue)\b", body): return None
        while j < y:
            z = u[j]
            if z.k == "id" and u[j-1].s != ".":
                if z.s == "return": return None
                if z.s == fname:
                    if u[j+1].s != "(": return None
                    av = g.split_args(j + 1, u[j+1].m)
                    if len(av) != len(pats): return None
                    arg = lambda a, b: "".join((opt[u[m].s] if u[m].s in opt else u[m].s) + ("" if u[m+1].k == "p" or u[m].k == "p" else " ") for m in range(a, b + 1))
                    txt = "{ " + "".join("let vx_arg%d = %s; " % (n, arg(a, b)) for n, (a, b) in enumerate(av)) + "".join(self.bind(f, p, "vx_arg%d" % n) for n, p in enumerate(pats)) + "let vx_args = (); " + body + "; }"
                    out += g.src[last:z.a] + txt; last = u[u[j+1].m].b; j = u[j+1].m + 1; continue
                if z.s in ps[:-1] and z.s in opt and u[j+1].s == "." and u[j+3].s == "(":
                    # the method of the trait bound, not an inherent one of the actual type
                    out += g.src[last:z.a] + "%s::%s(vx_in_%s%s" % (opt[z.s], u[j+2].s, z.s, "" if u[j+4].s == ")" else ", "); last = u[j+3].b; j += 4; continue
                if z.s in opt: out += g.src[last:z.a] + opt[z.s]; last = z.b
                elif z.s in ps[:-1]: out += g.src[last:z.a] + "vx_in_" + z.s; last = z.b
            j += 1
        out += g.src[last:u[y].a]
        return s[:t[i].a] + "{ " + pre + out + " }" + s[t[cl].b:]

    def expand_iter(self, s, name, w, opt):
        """std's zip of two slice iterators, written as a counting loop"""
        f = File(s, name); t = f.t
        it = self.find_fn(f, w[0])
        if it is None: return None
        lo, hi = it.body
        # A.iter().zip(B)
        for i in range(lo, hi):
            if t[i].k == "id" and [x.s for x in t[i+1:i+8]] == [".", "iter", "(", ")", ".", "zip", "("] and t[i-1].s != ".":
                o = i + 7; cl = t[o].m; break
        else: return None
        A, B = t[i].s, f.text(o + 1, cl - 1)
        pre = "let vx_za = %s; let vx_zb = %s; let vx_zn = if vx_za.len() < vx_zb.len() { vx_za.len() } else { vx_zb.len() }; let mut vx_zi: usize = 0; " % (A, B)
        two = lambda p: f.split_args(p, t[p].m)
        if w[1] == "for":
            # for (P, Q) in A.iter().zip(B) { .. }
            p = i - 2
            if t[i-1].s != "in" or t[p].s != ")" or t[t[p].m - 1].s != "for" or t[cl+1].s != "{": return None
            p = t[p].m; k = p - 1; o2 = cl + 1
            pats = two(p)
            if len(pats) != 2: return None
            txt = "{ " + pre + "while vx_zi < vx_zn { let vx_arg0 = &vx_za[vx_zi]; let vx_arg1 = &%svx_zb[vx_zi]; vx_zi += 1; " % opt.get("mut", "")
            txt += self.bind(f, pats[0], "vx_arg0") + self.bind(f, pats[1], "vx_arg1")
            return s[:t[k].a] + txt + s[t[o2].b:t[t[o2].m].b] + " }" + s[t[t[o2].m].b:]
        # A.iter().zip(B).map(|(x, y)| E).sum()
        k = cl + 1
        if [x.s for x in t[k:k+5]] != [".", "map", "(", "|", "("]: return None
        p = k + 4; pats = two(p); e = t[k+2].m
        if len(pats) != 2 or t[t[p].m+1].s != "|" or [x.s for x in t[e+1:e+5]] != [".", "sum", "(", ")"]: return None
        b0 = t[p].m + 2
        body = f.text(b0, e - 1)
        if re.search(r"\b(return|break|continue)\b", body): return None
        txt = "{ " + pre + "let mut vx_zs: %s = 0; while vx_zi < vx_zn { let vx_arg0 = &vx_za[vx_zi]; let vx_arg1 = &vx_zb[vx_zi]; vx_zi += 1; " % opt["sum"]
        txt += self.bind(f, pats[0], "vx_arg0") + self.bind(f, pats[1], "vx_arg1") + "vx_zs = vx_zs + (" + body + "); } vx_zs }"
        return s[:t[i].a] + txt + s[t[e+4].b:]

    def expand_macros(self, s, name):
        """textual expansion of the crate's own simple macros"""
        m = re.search(r"macro_rules!\s*pindex_range\s*\{", s)
        if m:
            f = File(s, name)
            mac = [i for i in f.items if i.kind == "macro" and i.name == "macro_rules!pindex_range"]
            uses = [i for i in f.items if i.kind == "macro" and i.name == "pindex_range"]
            if len(mac) == 1:
                b = mac[0].body
                # ($index_type:ty) => { BODY }
                t = f.t; k = b[0] + 1
                k = t[k].m + 1
                while t[k].s != "{" and t[k].s != "(": k += 1
                body = s[t[k].b:t[t[k].m].a]
                out = s
                for u in reversed(uses):
                    arg = s[t[u.body[0]].b:t[u.body[1]].a]
                    out = out[:t[u.start].a] + body.replace("$index_type", arg) + out[t[u.hi].b:]
                    self.note("macro")
                a, z = t[mac[0].start].a, t[mac[0].hi].b
                out = out[:a] + out[z:]
                s = out
        return s

    def run(self):
        o = self.out
        o.w("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_unsafe, unused_parens, unused_braces, non_snake_case)]\n")
        o.w("use vstd::prelude::*;\n")
        o.w(self.block("head"))
        o.w("verus! {\n")
        o.w(self.block("root"))
        f = self.load("lib")
        self.items(f, f.items, None, "")
        o.w(self.block("tail"))
        o.w(self.stdspecs())
        o.w("\n} // verus!\nfn main() {}\n")
        for k, c in self.cs.items():
            if k not in self.seen and not c.opts.get("drop"):
                self.lostset.setdefault(k, "function not found")
        return o.text()

    def stdspecs(self):
        """the optional specifications of library functions, for those the crate names"""
        s = ""
        for b in self.blocks:
            if b[0] == "ifuse" and b[1] in self.named:
                s += "".join(b[2])
        return "pub mod vxs { use vstd::prelude::*; use crate::vxp::*;\n" + s + "}\n" if s else ""

    # -- items
    def items(self, f, items, impl, mod):
        t, o = f.t, self.out
        for it in items:
            at = " ".join(f.norm(*a) for a in it.attrs)
            if "cfg ( test" in at or re.search(r"# \[ test \]", at): self.note("drop"); continue
            if 'cfg ( not ( feature = "use_std"' in at: continue
            k = it.kind
            if k == "use":
                s = f.norm(it.start, it.hi)
                if re.search(r"\b(fmt|Debug)\b", s): continue
                s = f.text(it.kw, it.hi)
                o.w(("pub " if False else "") + s + "\n")
            elif k == "mod":
                if it.name == "macro_utils" or it.name in self.skipmods: continue
                if it.body is None:
                    o.w("pub mod %s {\nuse vstd::prelude::*;\nuse crate::*;\n" % it.name if False else "pub mod %s {\nuse vstd::prelude::*;\n" % it.name)
                    o.w(self.block("mod", it.name))
                    g = self.load(it.name)
                    if g is not None: self.items(g, g.items, None, it.name)
                    o.w(self.block("modend", it.name))
                    o.w("}\n")
                else:
                    o.w("pub mod %s {\nuse vstd::prelude::*;\n" % it.name)
                    o.w(self.block("mod", it.name))
                    self.items(f, it.members, None, it.name)
                    o.w("}\n")
            elif k in ("struct", "enum"):
                self.struct(f, it)
            elif k == "macro":
                if it.name == "copy_and_clone": self.copyclone(f, it)
                else: self.dropped.append("%s!" % it.name)
            elif k in ("impl", "trait"):
                self.impl(f, it, mod)
            elif k == "fn":
                self.fn(f, None, it)
            elif k in ("const", "static", "type"):
                s = f.text(it.kw, it.hi)
                if k == "static": s = "exec " + s
                if k != "type": s = re.sub(r"&(?!\s*')(?=[^=]*=)", "&'static ", s)
                o.w("pub " + s + "\n")
            elif k in ("attr", "semi", "extern"):
                pass
            else:
                self.dropped.append("%s %s" % (k, it.name))

    def struct(self, f, it):
        t, o = f.t, self.out
        b = self.block("replace", "%s %s" % (it.kind, it.name))
        if b:
            o.w(b); return
        if it.body is None:
            o.w("pub " + f.text(it.kw, it.hi) + "\n")
        elif it.kind == "enum":
            o.w("pub " + f.text(it.kw, it.hi) + "\n")
        else:
            o.w("pub " + f.text(it.kw, it.body[0]))
            # fields: strip attrs, add pub
            lo, hi = it.body[0] + 1, it.body[1] - 1
            for a, z in f.split_args_bars(*it.body):
                while t[a].s == "#": a = t[a+1].m + 1
                if t[a].s == "pub":
                    a += 1
                    if t[a].s == "(": a = t[a].m + 1
                o.w(" pub " + f.text(a, z) + ",")
            o.w(" " + f.text(it.body[1], it.hi) + "\n")
            self.note("vis")
        at = " ".join(f.norm(*a) for a in it.attrs)
        m = re.search(r"derive \( ([^)]*)\)", at)
        if m and "Copy" in m.group(1):
            # expanded derive: generics as in the declaration
            g, ga = self.generics(f, it)
            o.w("impl%s Copy for %s%s {}\n" % (g, it.name, ga))
            if "Clone" in m.group(1):
                o.w("impl%s Clone for %s%s { fn clone(&self) -> (ret: Self) ensures ret == *self { *self } }\n" % (g, it.name, ga))

    def generics(self, f, it):
        j = it.kw + 2; t = f.t
        if t[j].s != "<": return "", ""
        e = f.skip_generics(j)
        names, cur, d = [], [], 0
        for x in range(j, e):
            if t[x].s == "<":
                d += 1
                if d == 1: continue
            if t[x].s == ">": d -= 1
            if d == 1 and t[x].s == ",": names.append(cur); cur = []
            elif d >= 1: cur.append(t[x].s)
        if cur: names.append(cur)
        ns = [n[0] for n in names]
        return "<" + ", ".join(ns) + ">", "<" + ", ".join(ns) + ">"

    def copyclone(self, f, it):
        # copy_and_clone!(['id, P] Index<'id, P>)
        t = f.t; b = it.body[0] + 1
        params = f.src[t[b].b:t[t[b].m].a]
        ty = f.src[t[t[b].m].b:t[it.body[1]].a].strip()
        self.out.w("impl<%s> Copy for %s {}\nimpl<%s> Clone for %s { fn clone(&self) -> (ret: Self) ensures ret == *self { *self } }\n" % (params, ty, params, ty))
        self.note("attrs")

    def inherent(self, h):
        """emitted as inherent methods: the impls listed, and those of the iterator traits for a type whose Iterator impl is"""
        l = [b[1] for b in self.blocks if b[0] == "asinherent"]
        if h in l: return True
        tr, _, ty = h.partition(" for ")
        return tr.split("::")[-1] in ("DoubleEndedIterator", "ExactSizeIterator") and "Iterator for " + ty in l

    def impl(self, f, it, mod):
        t, o = f.t, self.out
        h = fn_key(f, it, None)
        head = h.split(" for ")[0].split("<")[0].split("::")[-1]
        if " for " in h and head in DROP_TRAITS and not self.block("keep", h):
            self.note("drop"); self.dropped.append("impl " + h); return
        if self.block("dropimpl", h) or [b for b in self.blocks if b[0] == "dropimpl" and b[1] == h]:
            self.note("drop"); self.dropped.append("impl " + h); return
        tr, _, ty = h.partition(" for ")
        if ty and re.split(r"[<\s]", tr)[0].split("::")[-1] in STORAGE_TRAITS and not any(k.startswith("Trustworthy for %s::" % ty) for k in self.cs):
            self.note("drop"); self.dropped.append("impl " + h)
            self.lostset[h] = "storage without a contract"; return
        pre = self.block("beforeimpl", h)
        if pre: o.w(pre)
        inh = self.inherent(h)
        hdr = f.src[t[it.start if it.kind == "impl" else (it.kw - 1 if t[it.kw-1].s == "unsafe" else it.kw)].a:t[it.header[1]].b]
        if inh:
            j = it.kw + 1
            if t[j].s == "<": j = f.skip_generics(j)
            k = j
            while t[k].s != "for": k += 1
            hdr = f.src[t[it.kw].a:t[j].a] + " " + f.src[t[k].b:t[it.header[1]].b]
            self.note("asinherent")
        o.w(("pub " if it.kind == "trait" else "") + hdr + self.block("bounds", h).rstrip("\n") + " {\n")
        o.w(self.block("in", h))
        inst = [b[1] for b in self.blocks if b[0] == "instdefaults"]
        if it.kind == "trait" and it.name in inst:
            self.defaults[it.name] = (f, it)
        if it.kind == "impl" and " for " in h and re.split(r"[<\s]", h)[0] in self.defaults:
            df, dit = self.defaults[re.split(r"[<\s]", h)[0]]
            have = [m.name for m in it.members if m.kind == "fn"]
            for m in dit.members:
                if m.kind == "fn" and m.body is not None and m.name not in have:
                    self.fn(df, dit, m, False, key=h + "::" + m.name); self.note("defaults")
        pub = it.kind == "impl" and (" for " not in h or bool(inh))
        for m in it.members:
            if m.kind == "fn": self.fn(f, it, m, pub)
            elif m.kind == "type" and inh: pass
            elif m.kind == "type" and it.kind == "trait":
                o.w("    type %s;\n" % m.name)      # bounds of associated types dropped
            elif m.kind == "type":
                o.w("    " + f.text(m.kw, m.hi) + "\n")
            elif m.kind == "const":
                o.w("    " + f.text(m.kw, m.hi) + "\n")
        o.w("}\n")
        o.w(self.block("afterimpl", h))

    # -- functions
    def fn(self, f, impl, it, pub=None, key=None):
        t, o = f.t, self.out
        if pub is None: pub = impl is None
        dup = key is not None
        key = key or fn_key(f, impl, it)
        if impl is None and key in self.seen: key = f.name + "::" + key
        at = " ".join(f.norm(*a) for a in it.attrs)
        if "cfg ( test" in at or "# [ test ]" in at: return
        c = self.cs.get(key)
        if c is None and impl is None and (f.name + "::" + key) in self.cs:
            key = f.name + "::" + key; c = self.cs[key]
        if c is not None and c.opts.get("drop"):
            self.seen[key] = "drop"; self.dropped.append("fn " + key); return
        self.seen[key] = f.name
        if c is None:
            self.nocontract.append(key); c = Contract(key)
            if self.leafnc or os.environ.get("LEAFNC"): c.opts["leaf"] = True
        first = o.line
        try:
            txt = FnX(self, f, impl, it, key, c, pub).render()
        except (Lost, IndexError, ParseError, TypeError) as e:
            self.lostset[key] = str(e)
            try:
                txt = FnX(self, f, impl, it, key, c, pub, leaf=True).render()
            except Exception as e2:
                txt = ""
                self.lostset[key] = "cannot extract: %s" % e2
        if key in self.omit: txt = ""; self.lostset.setdefault(key, "the verifier does not accept it")
        if impl is not None and impl.kind == "impl" and self.inherent(fn_key(f, impl, None)):
            for m in impl.members:
                if m.kind == "type":
                    ty = re.match(r"type\s+\w+\s*=\s*(.*?)\s*;?\s*$", f.text(m.kw, m.hi).strip(), re.S)
                    if ty: txt = re.sub(r"\bSelf\s*::\s*%s\b" % m.name, lambda _: ty.group(1), txt)
        o.w(txt)
        o.map.append((first, o.line - 1, key, f.name, t[it.start].a))

class FnX:
    def __init__(self, ex, f, impl, it, key, c, pub, leaf=False):
        self.ex, self.f, self.impl, self.it, self.key, self.c, self.pub = ex, f, impl, it, key, c, pub
        self.leaf = leaf or key in ex.demote or bool(c.opts.get("leaf"))
        self.ed = []   # (a, b, text) edits on source offsets

    def edit(self, a, b, s): self.ed.append((a, b, s))
    def lost(self, m): raise Lost(self.key, m)

    def one(self, name, arg=""):
        l = [x for x in self.c.sec if x[0] == name and x[1] == arg]
        return "".join("".join(x[2]) for x in l)

    def render(self):
        f, it, t = self.f, self.it, self.f.t
        a0 = t[it.start].a
        # visibility
        q = it.vis[1] + 1 if it.vis else it.start
        head = ""
        for k in ("rlimit", "spinoff_prover", "loop_isolation"):
            if k in self.c.opts:
                v = self.c.opts[k]
                head += "#[verifier::%s%s]\n" % (k, "" if v is True else "(%s)" % v)
        if "exec_allows_no_decreases_clause" in self.c.opts or "nodecreases" in self.c.opts:
            head += "#[verifier::exec_allows_no_decreases_clause]\n"
        if self.leaf and it.body is not None: head += "#[verifier::external_body]\n"
        head += "pub " if self.pub else ""
        # generics rename / signature
        sig_end = (it.where or it.ret or it.params)[1]
        if self.c.opts.get("fnbound"):
            for k in range(it.start, sig_end + 1):
                if t[k].s == "FnMut": self.edit(t[k].a, t[k].b, "Fn"); self.ex.note("fnbound")
            # mut closure params
        for k in range(*it.params):
            if t[k].s == "_" and t[k+1].s == ":" and t[k-1].s in ("(", ","):
                self.edit(t[k].a, t[k].b, "vx_arg")
        if it.ret:
            self.edit(t[it.ret[0]].a, t[it.ret[0]].a, "(ret: ")
            self.edit(t[it.ret[1]].b, t[it.ret[1]].b, ")")
            self.ex.note("ret")
        for x in self.c.get("sigrewrite"):
            src, _, dst = x[1].partition("=>")
            try: a, b = self.find(src.strip(), it.start, sig_end)
            except Lost: continue     # the signature already has another form; rustc will tell
            self.edit(t[a].a, t[b].b, dst.strip())
            self.ex.note("rewrite: %s => %s" % (src.strip(), dst.strip()))
        wh = self.one("where").strip()
        spec = self.one("spec")
        self.ex.specs[self.key] = spec
        if wh:
            if it.where: self.edit(t[it.where[1]].b, t[it.where[1]].b, (", " if t[it.where[1]].s != "," else " ") + wh)
            else:
                e = (it.ret or it.params)[1]
                self.edit(t[e].b, t[e].b, "\n where " + wh)
        e = t[sig_end].b
        if spec.strip():
            lead = "" if not it.where or t[it.where[1]].s == "," or wh else ","
            self.edit(e, e, lead + "\n" + spec.rstrip("\n") + "\n")
        self.ed_sig = len(self.ed)
        if it.body is None:
            self.ex.status[self.key] = "decl"
            return head + self.apply(t[q].a, t[it.hi].b) + "\n"
        if self.impl is not None and self.impl.kind == "trait" and self.impl.name in self.ex.defaults and self.key.startswith("trait "):
            self.ex.status[self.key] = "decl"
            return re.sub(r"^#\[verifier::external_body\]\n", "", head) + self.apply(t[q].a, t[it.body[0]].a).rstrip() + ";\n"
        if self.leaf:
            sig = self.apply(t[q].a, t[it.body[0]].a)
            self.ex.texts[self.key] = sig
            self.ex.status[self.key] = "leaf"
            return head + sig + "{ unimplemented!() }\n"
        self.body()
        self.ex.status[self.key] = "body"
        r = head + self.apply(t[q].a, t[it.body[1]].b) + "\n"
        return r

    def apply(self, a, b):
        src = self.f.src
        eds = sorted([e for e in self.ed if a <= e[0] and e[1] <= b], key=lambda e: (e[0], e[1]))
        # stable order for equal offsets: insertion order; pure insertions first
        out, pos = [], a
        for x, (s, e, txt) in enumerate(eds):
            if s < pos:
                raise Lost(self.key, "overlapping edits at %d %r" % (s, txt[:40]))
            out.append(self.strip(src[pos:s])); out.append(txt); pos = e
        out.append(self.strip(src[pos:b]))
        return "".join(out)

    @staticmethod
    def strip(s):
        # comments are removed so that doc comments can not confuse the verifier
        s = re.sub(r"//[^\n]*", "", s)
        return s

    def find(self, anchor, lo, hi):
        """token sequence search; anchor may end with #n (occurrence)"""
        return self.find_all(anchor, lo, hi)[0][:2]

    def find_all(self, anchor, lo, hi):
        """as find; with #* all occurrences; $1, $2, .. stand for any identifier, $* for everything up to the bracket that closes"""
        m = re.match(r"^(.*?)\s*#(\d+|\*)$", anchor)
        n = "1"
        if m: anchor, n = m.group(1), m.group(2)
        anchor = re.sub(r"\$(\d)", r"vx_any_\1", anchor).replace("$*", "vx_rest")
        at = [x.s for x in lex_loose(anchor)]
        t, hits = self.f.t, []
        for i in range(lo, hi + 1):
            cap, p, good = {}, i, True
            for q, a in enumerate(at):
                if p > hi: good = False; break
                if a == "vx_rest":      # the token in front is an opening bracket
                    if t[p-1].m is None: good = False; break
                    p = t[p-1].m; continue
                if a.startswith("vx_any_"):
                    if t[p].k != "id" or cap.setdefault(a[7:], t[p].s) != t[p].s: good = False; break
                elif t[p].s != a: good = False; break
                p += 1
            if good: hits.append((i, p - 1, cap))
        if len(hits) < (1 if n == "*" else int(n)): self.lost("anchor %r not found" % anchor)
        return hits if n == "*" else [hits[int(n)-1]]

    def body(self):
        f, it, t, c, ex = self.f, self.it, self.f.t, self.c, self.ex
        lo, hi = it.body
        ex.named.update(t[i].s for i in range(lo + 1, hi) if t[i].k == "id" and t[i-1].s in (".", ":"))
        handled = set()
        # locals of the contract that have another name now
        ren = {}
        for x in c.get("local"):
            nm, _, pat = x[1].partition(" ")
            try: h = self.find_all(pat + " #*", lo, hi)
            except Lost:
                if nm in [t[k].s for k in range(*it.params)]: raise
                continue
            if not [1 for y in h if y[2]["1"] == nm]: ren[nm] = h[0][2]["1"]
        if ren:
            sub = lambda s: re.sub(r"(?<![\w.])(%s)\b(?!\s*:[^:])" % "|".join(ren), lambda m: ren[m.group(1)], s)
            c = self.c = copy.copy(c)
            c.sec = [x if x[0] in ("spec", "body", "local", "sigrewrite", "where") else [x[0], sub(x[1]), [sub(y) for y in x[2]]] for x in c.sec]
            ex.note("locals renamed in the contract")
        # debug_assert
        for i in range(lo, hi):
            if t[i].k == "id" and t[i].s in ("debug_assert", "assert") and t[i+1].s == "!" and t[i+2].s == "(":
                args = f.split_args(i + 2, t[i+2].m)
                self.edit(t[i].a, t[i+2].b, "vx_debug_assert("); ex.note("dbg")
                if len(args) > 1:   # drop the message
                    self.edit(t[args[0][1]].b, t[t[i+2].m].a, "")
        # scope beta reduction
        if not c.opts.get("noscope"):
            sc = f.calls(lo, hi, "scope")
            tails = []
            for (i, o, cl) in sc:
                args = f.split_args(o, cl)
                if len(args) != 2: self.lost("scope call shape")
                (a1, a2), (b1, b2) = args
                if t[b1].s == "move": b1 += 1
                if t[b1].s != "|": self.lost("scope closure shape")
                e = b1 + 1
                while t[e].s != "|": e += 1
                if t[e+1].s != "{" or t[e+1].m != b2: self.lost("scope closure body shape")
                pat = f.text(b1 + 1, e - 1)
                self.edit(t[i].a, t[o].b, "{ let %s = crate::container::vx_scope(" % pat)
                self.edit(t[a2].b, t[e+1].b, "); ")
                self.edit(t[cl-1].b if False else t[b2].a, t[cl].b, "}")
                if t[cl-1].s == "," : pass
                ex.note("scope")
                tails.append((i, b1, b2, cl))
            # returns inside
            cls = f.closures(lo, hi)
            for k in range(lo, hi):
                if t[k].k == "id" and t[k].s == "return":
                    inner = [s for s in tails if s[1] <= k <= s[2]]
                    if not inner: continue
                    # any non-scope closure in between?
                    for cc in cls:
                        if cc["body"][0] <= k <= cc["body"][1] and not any(cc["bar"] == s[1] for s in inner):
                            self.lost("return inside a closure")
                    # what happens after the innermost scope call ... the outermost one
                    val = None
                    for s in sorted(inner, key=lambda s: -s[0]):
                        # tokens after the call up to the end of the enclosing block
                        e = s[3] + 1
                        outer = [z for z in inner if z[1] <= s[0] and z[3] > s[3]]
                        end = min([z[2] for z in outer] + [hi])
                        rest = f.norm(e, end - 1) if e <= end - 1 else ""
                        if rest in ("", ";"):
                            continue
                        m = re.match(r"^; Ok \( \( \) \)$", rest)
                        if m and not outer: val = "Ok(())"; continue
                        self.lost("return inside scope with a continuation %r" % rest)
                    if val:
                        if t[k+1].s in (";", ",", "}"):
                            self.edit(t[k].b, t[k].b, " " + val)
                        else: self.lost("return value inside scope")
        # Option::map with a closure literal, written out
        if c.opts.get("mapdesugar"):
            for i in range(lo, hi):
                if not (t[i].s == "map" and t[i-1].s == "." and t[i+1].s == "("): continue
                o, cl = i + 1, t[i+1].m
                args = f.split_args(o, cl)
                if len(args) != 1: continue
                b1, b2 = args[0]
                if t[b1].s == "move": b1 += 1
                if t[b1].s != "|": continue
                e = b1 + 1
                while t[e].s != "|": e += 1
                if any(t[x].k == "id" and t[x].s in ("return", "break", "continue") for x in range(e, b2)): self.lost("jump inside a map closure")
                k = self.expr_start(i - 1)
                self.edit(t[k].a, t[k].a, "(match ")
                self.edit(t[i-1].a, t[e].b, " { Some(%s) => Some({ " % f.text(b1 + 1, e - 1))
                self.edit(t[b2].b, t[cl].b, " }), None => None })")
                handled.add(b1); ex.note("mapdesugar")
        # reads through a raw pointer variable
        if c.opts.get("rawref"):
            sto = str(c.opts.get("rawmem", "self.arr"))
            for k in range(lo, hi):
                if t[k].s == "*" and t[k+1].k == "id" and t[k+1].s in str(c.opts.get("rawref")).split(",") and t[k-1].s != "&":
                    self.edit(t[k].a, t[k].b, "(*crate::container::vx_ref("); self.edit(t[k+1].b, t[k+1].b, ", &%s))" % sto); ex.note("rawmem")
        if c.opts.get("rawdrf"):
            for k in range(lo, hi):
                if t[k].s == "&" and t[k].k == "p" and not (t[k-1].k in ("id", "lit") and t[k-1].s != "return" or t[k-1].s in (")", "]")):
                    m = t[k+1].s == "mut"
                    if t[k+1+m].s != "*": continue
                    e = self.unary_end(k + 1 + m) if t[k+2+m].s == "(" else self.unary_end(k + 2 + m)
                    self.edit(t[k].a, t[k+1+m].b, "crate::pointer::vx_deref%s(" % ("_mut" if m else "")); self.edit(t[e].b, t[e].b, ")"); ex.note("rawdrf")
        # raw slices: pass the storage along
        if not c.opts.get("noslices"):
            for nm, new, extra in (("from_raw_parts", "crate::container::vx_from_raw_parts(", "&self.arr"), ("from_raw_parts_mut", "crate::container::vx_from_raw_parts_mut(", "&mut self.arr")):
                for (i, o, cl) in f.calls(lo, hi, nm):
                    st = i
                    while t[st-1].s == ":" and t[st-2].s == ":": st -= 3 if t[st-3].k == "id" else 2
                    self.edit(t[st].a, t[o].b, new)
                    e = cl - 1 if t[cl-1].s == "," else cl
                    self.edit(t[e].a, t[cl].a, ", " + str(c.opts.get("storage", extra)))
                    ex.note("rawslice")
        if c.opts.get("rawpair"):
            ps = [i for i in range(lo, hi) if t[i].s == "from_raw_parts_mut" and t[i-1].s == "=" and t[i-3].s == "let"]
            if len(ps) == 2 and t[t[ps[0]+1].m + 1].s == ";" and t[t[ps[0]+1].m + 2].a == t[ps[1]-3].a:
                i, j = ps
                self.edit(t[i-2].a, t[i].b, "(%s, %s) = crate::container::vx_two_raw_parts_mut" % (t[i-2].s, t[j-2].s))
                self.edit(t[t[i+1].m].a, t[j+1].b, ", ")
                self.edit(t[t[j+1].m].a, t[t[j+1].m].a, ", &mut self.arr"); ex.note("rawpair")
            else: self.lost("no pair of from_raw_parts_mut")
        # values read out of the storage have to be given back (forget) or moved into it (write)
        debt = self.debt = bool(c.opts.get("rawmem")) and any(t[i].s in ("read", "forget") and t[i+1].s == "(" and t[i-1].s == ":" and t[i-3].s in ("ptr", "mem") for i in range(lo, hi)) \
            and not any(t[i].s in ("ManuallyDrop", "MaybeUninit") for i in range(lo, hi))
        if debt:
            for k in range(lo + 1, hi):
                if t[k].s == "return" and t[k-1].s in ("{", "}", ";"): self.edit(t[k].a, t[k].a, "proof { assert(vx_debt == 0); } ")
            ex.note("debt")
        # raw memory operations on the storage
        if c.opts.get("rawmem"):
            sto = str(c.opts["rawmem"]) if c.opts["rawmem"] is not True else "self.arr"
            rd, wr = "&" + sto, "&mut " + sto
            cc = "crate::container::"
            alias = set()
            for k in range(lo, hi):
                # let X = self as *mut Self;
                if t[k].s == "let" and [x.s for x in t[k+2:k+9]] == ["=", "self", "as", "*", "mut", "Self", ";"]:
                    alias.add(t[k+1].s); self.edit(t[k].a, t[k+8].b, ""); ex.note("rawmem")
            for k in range(lo, hi):
                # &[mut] self[E] as *const X   /   : *mut _ = &mut (*X)[E];
                if t[k].s == "&" and t[k].k == "p":
                    m = k + 1; mut = t[m].s == "mut"
                    if mut: m += 1
                    if t[m].s == "self": b = m + 1
                    elif t[m].s == "(" and t[m+1].s == "*" and t[m+2].s in alias and t[m].m == m + 3: b = m + 4
                    else: continue
                    if t[b].s != "[": continue
                    e = t[b].m
                    if t[e+1].s == "as" and t[e+2].s == "*":
                        z = e + 4
                        while t[z+1].s == ":" or t[z+1].k == "id" and t[z].s == ":": z += 1
                    elif t[k-1].s == "=" and t[k-2].s == "_" and t[k-4].s == "*" and t[k-5].s == ":" and t[e+1].s == ";":
                        self.edit(t[k-5].a, t[k-2].b, ""); z = e
                    else: continue
                    self.edit(t[k].a, t[b].b, cc + ("vx_elt_ptr_mut(&mut *self, " if mut else "vx_elt_ptr(&*self, "))
                    self.edit(t[e].a, t[z].b, ")"); ex.note("rawmem")
            for nm, w in (("read", 0), ("write", 1), ("copy", 1), ("copy_nonoverlapping", 1), ("swap", 1)):
                for i in range(lo, hi):
                    if not (t[i].s == nm and t[i+1].s == "(" and t[i-1].s == ":" and t[i-2].s == ":" and t[i-3].s == "ptr"): continue
                    cl = t[i+1].m; st = i - 3
                    while t[st-1].s == ":" and t[st-2].s == ":": st -= 3 if t[st-3].k == "id" else 2
                    args = f.split_args(i + 1, cl)
                    new = nm
                    if nm.startswith("copy") and t[args[0][0]].s == "&":
                        if t[args[0][0]+1].s == "*":      # &*p
                            self.edit(t[args[0][0]].a, t[args[0][0]+1].b, "")
                        else: new = "copy_ref"
                    owe = debt and nm in ("read", "write")
                    self.edit(t[st].a, t[i+1].b, ("{ proof { vx_debt = vx_debt %s 1; } " % "-+"[nm == "read"] if owe else "") + cc + "vx_ptr_%s(" % new)
                    if owe: self.edit(t[cl].b, t[cl].b, " }")
                    e = cl - 1 if t[cl-1].s == "," else cl
                    self.edit(t[e].a, t[cl].a, ", " + (wr if w else rd)); ex.note("rawmem")
            for i in range(lo, hi):
                if t[i].s == "forget" and t[i+1].s == "(" and t[i-1].s == ":" and t[i-3].s == "mem":
                    st = i - 3
                    while t[st-1].s == ":" and t[st-2].s == ":": st -= 3 if t[st-3].k == "id" else 2
                    self.edit(t[st].a, t[i].b, ("{ proof { vx_debt = vx_debt - 1; } " if debt else "") + cc + "vx_forget"); ex.note("rawmem")
                    if debt: self.edit(t[t[i+1].m].b, t[t[i+1].m].b, " }")
            for k in range(lo, hi):
                # &*E  ->  vx_ref(E, &storage)
                if t[k].s == "&" and t[k].k == "p" and t[k+1].s == "*" and t[k+1].a == t[k].b and t[k-1].s in ("(", "{", ",", "=", ";", "return"):
                    if t[k-1].s == "(" and t[k-2].s.startswith("copy"): continue
                    e = self.unary_end(k + 2)
                    self.edit(t[k].a, t[k+1].b, cc + "vx_ref("); self.edit(t[e].b, t[e].b, ", " + rd + ")"); ex.note("rawmem")
            for k in range(lo, hi):
                # (&mut (*X)[A], &mut (*X)[B])
                if t[k].s != "(" or t[k].k != "p": continue
                args = f.split_args(k, t[k].m)
                if len(args) != 2: continue
                ii = []
                for a, b in args:
                    if t[a].s == "&" and t[a+1].s == "mut" and t[a+2].s == "(" and t[a+3].s == "*" and t[a+4].s in alias and t[a+2].m == a + 5 and t[a+6].s == "[" and t[a+6].m == b: ii.append((a, b))
                if len(ii) == 2:
                    self.edit(t[k].a, t[k].b, cc + "vx_index_two(&mut *self, ")
                    for a, b in ii: self.edit(t[a].a, t[a+6].b, ""); self.edit(t[b].a, t[b].b, "")
                    ex.note("rawmem")
            for k in range(lo, hi):
                # f(S.xget_unchecked_mut(A), S.xget_unchecked_mut(B)) with f taking raw pointers
                if t[k].s == "xget_unchecked_mut" and t[k-1].s == "." and c.opts.get("rawmem") and c.opts.get("rawcoerce"):
                    e0 = self.expr_start(k - 1)
                    self.edit(t[e0].a, t[k+1].b, cc + "vx_get_ptr(&mut %s, " % f.text(e0, k - 2)); ex.note("rawmem")
        # calls of a function argument recorded in a ghost trace
        if c.opts.get("trace"):
            fv = str(c.opts["trace"])
            for k in range(lo, hi):
                if t[k].s == fv and t[k].k == "id" and t[k+1].s == "(" and t[k-1].s not in (".", ":"):
                    args = f.split_args(k + 1, t[k+1].m); cl = t[k+1].m
                    if len(args) == 1:
                        self.edit(t[k+1].b, t[k+1].b, "crate::vx_rec(&mut vx_tr, "); self.edit(t[cl].a, t[cl].a, ")")
                    else:
                        self.edit(t[k].a, t[k+1].b, "{ let vx_a = ")
                        self.edit(t[args[0][1]].b, t[args[1][0]].a, "; let vx_b = ")
                        self.edit(t[cl-1].a if t[cl-1].s == "," else t[cl].a, t[cl].b, "; crate::vx_rec2(&mut vx_tr, Ghost((vx_a, vx_b))); %s(vx_a, vx_b) }" % fv)
                    ex.note("trace")
                if t[k].s == "return": self.lost("return in a traced function")
        # loops
        loops = f.loops(lo, hi)
        want = [int(x[1].split()[0]) for x in c.sec if x[0] in ("loop", "loopbody", "loopend", "forvar", "looptop", "loopstart", "loopdesugar")]
        if want and max(want) > len(loops): self.lost("expected at least %d loops, found %d" % (max(want), len(loops)))
        if loops and not want: ex.bare[c.key] = len(loops)
        nl = c.opts.get("loops")
        if nl is not None and int(nl) != len(loops): self.lost("expected %s loops, found %d" % (nl, len(loops)))
        if nl is None and c.get("loop") and len(c.get("loop")) != len(loops): self.lost("expected %d loops, found %d" % (len(c.get("loop")), len(loops)))
        for n, L in enumerate(loops, 1):
            kind = [x[1].split()[1:] for x in c.sec if x[0] == "loop" and x[1].split()[0] == str(n)]
            anyk = bool(kind and kind[0] and kind[0][0] == "any" and L["kind"] in ("loop", "while"))
            if kind and kind[0] and kind[0][0] != L["kind"] and not anyk: self.lost("loop %d is a %s" % (n, L["kind"]))
            inv = "".join("".join(x[2]) for x in c.sec if x[0] == "loop" and x[1].split()[0] == str(n))
            if debt: inv = inv.replace("invariant ", "invariant vx_debt == 0, ", 1)
            if L["kind"] == "for" and c.get("loopdesugar") and [x for x in c.sec if x[0] == "loopdesugar" and x[1].split()[0] == str(n)]:
                x = [x for x in c.sec if x[0] == "loopdesugar" and x[1].split()[0] == str(n)][0]
                itn = x[1].split()[1]; conv = x[1].split()[2] if len(x[1].split()) > 2 else None
                # for PAT in EXPR { B }  =>  { let mut it = conv(EXPR); loop INV { let PAT = match it.next() { Some(x) => x, None => break }; B } }
                pat = f.text(L["kw"] + 1, L["in"] - 1)
                lab = L["label"]
                st = t[lab].a if lab is not None else t[L["kw"]].a
                nx = conv.split(",")[1] if conv and "," in conv else "next"
                cv = conv.split(",")[0] if conv else ""
                self.edit(st, t[L["in"]].b, "{ let mut %s = %s(" % (itn, cv))
                self.edit(t[L["open"]].a, t[L["open"]].b, "); %s loop\n%s\n{ %s let %s = match %s.%s() { Some(vx_x) => vx_x, None => break };" % (
                    "" if lab is None else t[lab].s + ":", inv, self.one("loopstart", str(n)), pat, itn, nx) + self.one("loopbody", str(n)))
                self.edit(t[L["close"]].b, t[L["close"]].b, " }")
                ex.note("fordesugar")
            else:
                if L["kind"] == "for":
                    fv = [x for x in c.sec if x[0] == "forvar" and x[1].split()[0] == str(n)]
                    if fv: self.edit(t[L["in"]].b, t[L["in"]].b, " %s:" % fv[0][1].split()[1])
                b = self.one("loopbody", str(n))
                if anyk and L["kind"] == "while":
                    let = t[L["kw"] + 1].s == "let"
                    self.edit(t[L["kw"]].a, t[L["kw"]].b, "loop\n" + inv.rstrip("\n") + "\n{ " + self.one("looptop", str(n)) + " if " + ("" if let else "!("))
                    self.edit(t[L["open"]].a, t[L["open"]].b, ("{\n" if let else ") { break; }\n") + b); b = ""
                    if let: self.edit(t[L["close"]].b, t[L["close"]].b, " else { break; } }")
                    ex.note("whiledesugar")
                elif inv.strip(): self.edit(t[L["open"]].a, t[L["open"]].a, "\n" + inv.rstrip("\n") + "\n")
                if L["kind"] == "loop": b = self.one("looptop", str(n)) + b
                if b: self.edit(t[L["open"]].b, t[L["open"]].b, "\n" + b)
            b = self.one("loopend", str(n))
            if b: self.edit(t[L["close"]].a, t[L["close"]].a, "\n" + b)
        # match guards
        for m in f.guards(lo, hi):
            last = m["arms"][-1]
            simple = all(x.k != "p" or x.s in "(),:." for x in t[last["body"][0]:last["body"][1]+1]) and not any(x.s in ("return", "break", "continue", "match", "if") for x in t[last["body"][0]:last["body"][1]+1])
            g = [a for a in m["arms"] if a["guard"]]
            if len(g) == 1 and len(m["arms"]) > 1 and g[0] is m["arms"][-2] and f.norm(*last["pat"]).strip() == "_" and simple:
                g = g[0]
                self.edit(t[g["guard"][0]].a, t[g["guard"][0]].a, "=> ")
                self.edit(t[g["arrow"]].a, t[g["arrow"]+1].b, "{")
                self.edit(t[g["body"][1]].b, t[g["body"][1]].b, " } else { %s }%s" % (f.text(*last["body"]), "" if t[g["body"][1]+1].s == "," else ","))
                ex.note("guarddesugar")
            else: ex.bare[c.key] = 1
        # what is promised at every comparison
        cmps = []
        if c.get("atcmp"):
            fv = str(c.opts.get("cmpfn", ""))
            for k in range(lo, hi):
                if t[k].k == "id" and t[k].s == fv and t[k+1].s == "(" and t[k-1].s not in (".", ":", "fn"): cmps.append((k, t[k+1].m))
                if not fv and t[k].k == "id" and t[k+1].s == "[" and t[k-1].s not in (".", ":"):
                    e = t[k+1].m; o = e + 1
                    if t[o].s in ("<", ">", "=", "!") and t[o].k == "p":
                        q = o + 1
                        if t[q].s == "=" and t[q].a == t[o].b: q += 1
                        elif t[o].s in ("=", "!"): continue
                        if t[q].k == "id" and t[q+1].s == "[": cmps.append((k, t[q+1].m))
            for a, b in cmps: self.edit(t[b].b, t[b].b, " })")
        # closures
        cls = [x for x in f.closures(lo, hi) if x["bar"] not in handled and not any(x["bar"] == s[1] for s in (tails if not c.opts.get("noscope") else []))]
        if len(cls) > len(c.get("closure")): ex.bare[c.key] = len(cls) - len(c.get("closure"))
        for x in c.get("closure"):
            n = int(x[1].split()[0])
            if n > len(cls): self.lost("closure %d not found" % n)
            k = cls[n-1]
            params = [f.norm(a, b) for a, b in f.split_args_bars(k["bar"], k["bar2"])]
            txt = "".join(x[2])
            tys, rest = txt.split("\n", 1)
            pl = [z.strip() for z in tys.split(";")]
            rt = pl.pop()
            if len(pl) != len(params): self.lost("closure %d arity" % n)
            ps, pre = [], ""
            for p, ty in zip(params, pl):
                p = p.replace("& ", "&")
                m = re.match(r"&(\w+)$", p)
                if m:
                    # |&x|  =>  |p| { let x = *p; .. }
                    pre += "let %s = *vx_p%d; " % (m.group(1), len(ps)); p = "vx_p%d" % len(ps)
                    rest = rest.replace("$%d" % (len(ps) + 1), "(*%s)" % p)
                if ":" in p: ps.append(p)
                else: ps.append("%s: %s" % (p, ty))
                rest = rest.replace("$%d" % (len(ps)), p.replace("&", "").strip())
            self.edit(t[k["bar"]].a, t[k["bar2"]].b, "|%s| -> (%s)\n%s" % (", ".join(ps), rt, rest.rstrip("\n") + "\n"))
            if not k["block"] or pre:
                self.edit(t[k["body"][0]].a, t[k["body"][0]].a, "{ " + pre)
                self.edit(t[k["body"][1]].b, t[k["body"][1]].b, " }")
            ex.note("closure")
            cp = self.one("closureproof", str(n))
            if cp:
                # the closure literal is given a name, so that the proof can speak about it
                self.edit(t[k["bar"]].a, t[k["bar"]].a, "{ let vx_f = ")
                self.edit(t[k["body"][1]].b, t[k["body"][1]].b, "; " + cp + " vx_f }")
        for a, b in cmps:
            self.edit(t[a].a, t[a].a, "({ proof { %s%s } " % (self.one("atcmp").strip(), " assert(vx_debt == 0);" if debt else "")); ex.note("atcmp")
        # anchors
        for x in c.sec:
            if x[0] in ("before", "after"):
                for a, b, cap in self.find_all(x[1], lo, hi):
                    txt = "".join(x[2])
                    for q, w in cap.items(): txt = txt.replace("$" + q, w)
                    if x[0] == "before": self.edit(t[a].a, t[a].a, txt)
                    else: self.edit(t[b].b, t[b].b, "\n" + txt)
            elif x[0] == "rewrite":
                # optional: every occurrence (or the one given by #n)
                src, _, dst = x[1].partition("=>")
                src = src.strip()
                for n in range(1, 9):
                    try: a, b = self.find(src if "#" in src else "%s #%d" % (src, n), lo, hi)
                    except Lost: break
                    self.edit(t[a].a, t[b].b, dst.strip())
                    ex.note("rewrite: %s => %s" % (src, dst.strip()))
                    if "#" in src: break
        b = self.one("tail")
        if b: self.edit(t[hi].a, t[hi].a, b)
        b = self.one("body")
        if debt: b = " let ghost mut vx_debt: int = 0; " + b
        if self.ex.canary == "exit" or debt:
            if not (c.opts.get("trace") and c.get("exit")):
                self.edit(t[hi].a, t[hi].a, " }; proof { %s%s} vx_ret " % ("assert(vx_debt == 0); " if debt else "", "assert(false); " if self.ex.canary == "exit" else ""))
                b = b + " let vx_ret = { "
        if self.ex.canary and self.ex.canary != "exit": b = " proof { assert(false); } " + b
        pre = ""
        if c.opts.get("trace"):
            pre = " let mut vx_tr: Ghost<Seq<%s>> = Ghost(Seq::empty()); " % c.opts.get("trty", "_")
            if c.get("exit"):
                self.edit(t[hi].a, t[hi].a, " }; proof {\n" + self.one("exit") + (" assert(false); " if self.ex.canary == "exit" else "") + "} vx_ret ")
                b = b + " let vx_ret = { "
        if b or pre: self.edit(t[lo].b, t[lo].b, "\n" + pre + b)

    def expr_start(self, k):
        """first token of the postfix expression that ends before the `.` at k"""
        t = self.f.t
        while True:
            if t[k-1].s in (")", "]"):
                k = t[k-1].m
                if t[k-1].k == "id": k -= 1
            else: k -= 1
            while t[k-1].s == ":" and t[k-2].s == ":": k -= 3
            if t[k-1].s == ".": k -= 1
            else: return k

    def unary_end(self, k):
        """last token of the postfix expression starting at k"""
        t = self.f.t
        while True:
            n = t[k+1]
            if n.s == ":" and t[k+2].s == ":": k += 3
            elif n.s == ".": k += 2
            elif n.k == "p" and n.s in "([" : k = n.m
            elif n.s == "?": k += 1
            else: return k

def lex_loose(s):
    """tokens of a fragment (may be unbalanced)"""
    import rsparse
    out = []
    class _T: pass
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace(): i += 1; continue
        for rx, k in ((rsparse.IDENT, "id"), (rsparse.NUM, "lit")):
            m = rx.match(s, i)
            if m: out.append(rsparse.Tok(k, m.group(), i, m.end())); i = m.end(); break
        else:
            if c == '"':
                j = s.index('"', i + 1); out.append(rsparse.Tok("lit", s[i:j+1], i, j+1)); i = j + 1
            elif c == "'" :
                m = rsparse.IDENT.match(s, i + 1)
                out.append(rsparse.Tok("life", s[i:m.end()], i, m.end())); i = m.end()
            else:
                out.append(rsparse.Tok("p", c, i, i+1)); i += 1
    return out

def split_args_bars(self, a, b):
    t, out, s, i, d = self.t, [], a + 1, a + 1, 0
    while i < b:
        if t[i].k == "p":
            if t[i].s in "([{": i = t[i].m
            elif t[i].s == "<": d += 1
            elif t[i].s == ">" and t[i-1].s != "-": d -= 1
            elif t[i].s == "," and d == 0: out.append((s, i - 1)); s = i + 1
        i += 1
    if s < b: out.append((s, b - 1))
    return out
File.split_args_bars = split_args_bars

if __name__ == "__main__":
    import glob
    here = os.path.dirname(os.path.abspath(__file__))
    cs, bl = load_contracts(sorted(glob.glob(os.path.join(here, "*.vx"))))
    dem = sys.argv[3].split("|") if len(sys.argv) > 3 else []
    ex = Extractor(sys.argv[1], cs, bl, demote=dem, canary=os.environ.get("CANARY", False))
    if os.environ.get("SKIPMODS"): ex.skipmods = set(os.environ["SKIPMODS"].split(","))
    s = ex.run()
    open(sys.argv[2], "w").write(s)
    print("lost:", ex.lostset)
    if os.environ.get("V"): print("nocontract:", ex.nocontract)
    print("applied:", ex.applied)
