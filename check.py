#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property of /repo's current tree.

1. Verus: the sources are extracted mechanically (vx/extract.py), the contracts
   (vx/*.vx) are attached, and every obligation is discharged for all inputs.
2. A native search (hunt/) runs the real crate over small exhaustive and large
   boundary inputs; it supplies failing inputs, and is the bounded stand-in for
   functions without a contract.
3. Witness programs (hunt/witness.txt): clients that the crate's types must reject.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check could not run."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vx"))
import extract as X
REPO = os.environ.get("VX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
FEAT = ["--cfg", 'feature="use_std"', "--cfg", 'feature="experimental_pointer_ranges"']

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, r = p.communicate()
        return "timeout", o.decode("utf8", "replace"), r.decode("utf8", "replace")

def glob_re(p): return re.compile("^" + ".*".join(re.escape(x) for x in p.split("*")) + "$")

def props_map():
    m = {}
    for l in open(os.path.join(HERE, "vx", "props.txt")):
        l = l.strip()
        if not l or l[0] == "#": continue
        k, _, v = l.partition(":")
        m.setdefault(k.strip(), []).extend(v.split("|"))
    return {k: [x.strip() for x in v if x.strip()] for k, v in m.items()}

# ---------------------------------------------------------------- Verus
class Verus:
    """one verification of the extracted crate"""
    def __init__(self, tmp, name, canary=False, extra=()):
        self.tmp, self.name, self.canary, self.extra = tmp, name, canary, list(extra)
        self.demoted, self.note, self.omit = {}, [], set()
        self.failed, self.undecided = {}, {}     # key -> [messages]
        self.ok, self.total, self.smt_ms, self.verified = False, None, 0, 0
        self.output = ""

    def extract(self):
        cs, bl = X.load_contracts(sorted(glob.glob(os.path.join(HERE, "vx", "*.vx"))))
        ex = X.Extractor(SRC, cs, bl, demote=set(self.demoted), canary=self.canary, leafnc=True, omit=self.omit)
        txt = ex.run()
        p = os.path.join(self.tmp, self.name + ".rs")
        open(p, "w").write(txt)
        self.ex, self.path, self.lines, self.contracts = ex, p, txt.split("\n"), cs
        return p

    def key_at(self, line):
        for a, b, k, mod, off in self.ex.out.map:
            if a <= line <= b: return k
        l = line
        while l > 0:
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:open |closed )?(?:proof|spec|unsafe|axiom|exec)?\s*(?:unsafe )?fn (\w+)", self.lines[l-1])
            if m: return "ghost:" + m.group(1)
            l -= 1
        return None

    def diag_key(self, d):
        sp = [s for s in d.get("spans", []) if s["file_name"].endswith(self.name + ".rs")]
        good = [s for s in sp if "failed" not in (s.get("label") or "")]
        order = [s for s in good if s["is_primary"]] + [s for s in good if not s["is_primary"]] + [s for s in sp if s not in good]
        ks = [self.key_at(s["line_start"]) for s in order]
        for k in ks:
            if k and not k.startswith("trait "): return k
        return ks[0] if ks else None

    def run(self, timeout=600):
        try:
            return self.run_(timeout)
        except Exception as e:
            import traceback
            self.note.append("extraction failed: %s" % traceback.format_exc()[-600:])

    def run_(self, timeout):
        t_end = time.time() + timeout
        for attempt in range(12):
            self.extract()
            cmd = ["verus", "--edition=2018", "--output-json", "--time-expanded", "--rlimit", "40", "--multiple-errors", "0" if self.canary else "3"] + self.extra + [self.path, "--", "--error-format=json"]
            self.cmd = "verus --edition=2018 <extracted from %s by vx/extract.py>" % SRC
            rc, out, err = sh(cmd, timeout=max(10, t_end - time.time()), cwd=self.tmp)
            if rc == "timeout":
                self.note.append("verifier timed out"); return
            diags = []
            for l in err.split("\n"):
                if l.startswith("{"):
                    try: d = json.loads(l)
                    except ValueError: continue
                    if d.get("level") == "error": diags.append(d)
            try: js = json.loads(out)
            except ValueError: js = {}
            vr = js.get("verification-results", {})
            stage2 = "verified" in vr and not vr.get("encountered-vir-error") and vr.get("verified", 0) + vr.get("errors", 0) > 0
            if not stage2:
                # code or contracts that the verifier does not accept: give up the functions concerned
                new = {}
                for d in diags:
                    k = self.diag_key(d)
                    if k and not k.startswith("ghost:") and k not in self.demoted: new[k] = (d.get("rendered") or d.get("message", ""))[:600]
                self.output = err[-4000:]
                again = set(filter(None, map(self.diag_key, diags))) & set(self.demoted) - self.omit
                if not new and again:
                    self.omit |= again; continue       # not even its signature is accepted
                if not new:
                    self.note.append("the verifier rejects the extracted text: %s" % ("; ".join(d.get("message", "")[:200] for d in diags[:3]) or err[-500:])); return
                self.demoted.update(new); continue
            self.ok = True
            self.total, self.verified = vr["verified"] + vr["errors"], vr["verified"]
            self.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0)
            self.version = js.get("verus", {}).get("version")
            for d in diags:
                if d["message"].startswith("aborting due"): continue
                k = self.diag_key(d) or "?"
                m = d.get("rendered") or d["message"]
                if re.search(r"rlimit|resource limit|timed? ?out|could not (be )?(finish|complet)", d["message"], re.I):
                    self.undecided.setdefault(k, []).append(m)
                else: self.failed.setdefault(k, []).append(m)
            return

    def scan_trusted(self):
        txt = "\n".join(self.lines)
        r = []
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*?>)?\s*\[([^;]*?)\]\s*\(", txt): r.append("assumed specification of " + " ".join(m.group(1).split()))
        for m in re.finditer(r"axiom fn (\w+)", txt): r.append("axiom " + m.group(1))
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(?:unsafe )?(?:proof )?fn (vx_\w+)", txt): r.append("trusted stub " + m.group(1))
        if re.search(r"\b(assume|admit)\s*\(", txt): r.append("assume/admit in the contracts")
        return sorted(set(r))

# ---------------------------------------------------------------- native search
class Hunt:
    def __init__(self, tmp, prop, name, asan):
        self.tmp, self.prop, self.name, self.asan = tmp, prop, name, asan
        self.err = None; self.fail = None; self.stats = None; self.note = []
    def build(self):
        lib = os.path.join(self.tmp, "lib%s.rlib" % self.name); exe = os.path.join(self.tmp, self.name)
        tc = ["rustc"] + (["+nightly", "-Zsanitizer=address"] if self.asan else [])
        da = "off" if self.asan else "on"
        rc, o, e = sh(tc + ["--edition", "2018", "--cap-lints", "allow", "--crate-type", "rlib", "--crate-name", "indexing"] + FEAT +
                      ["-C", "debug-assertions=" + da, "-C", "overflow-checks=" + da, "-C", "opt-level=1", "-o", lib, os.path.join(SRC, "lib.rs")], timeout=300)
        if rc != 0: self.err = "the crate does not build: " + e[-1500:]; return False
        for only in ([], ["particles", "storage", "pointers", "algos"], ["particles", "storage", "pointers"], ["particles"]):
            cfg = ["--cfg", "p_" + self.prop] + ([] if not only else ["--cfg", "only"] + [y for m in only for y in ("--cfg", "m_" + m)])
            rc, o, e = sh(tc + ["--edition", "2021", "-A", "warnings", "-C", "opt-level=1", "-C", "debug-assertions=" + da] + cfg + ["--extern", "indexing=" + lib, os.path.join(HERE, "hunt", "src", "main.rs"), "-o", exe], timeout=300)
            if rc == 0:
                if only: self.note.append("native search limited to " + ", ".join(only))
                return True
            first = e
        self.note.append("the native search does not build against the crate's interface: " + first[-800:])
        return False
    def run(self, tier, seed, timeout):
        exe = os.path.join(self.tmp, self.name); rf = os.path.join(self.tmp, self.name + ".replay")
        env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "RUST_BACKTRACE": "0", "HUNT_HANG": "90"}
        rc, o, e = sh([exe, self.prop, tier, str(seed), rf], timeout=timeout, env=env)
        if rc == 0:
            m = re.search(r"STATS (\{.*\})", o)
            if m: self.stats = json.loads(m.group(1))
            return
        if rc == "timeout": self.note.append("native search stopped after %d s" % timeout); return
        if rc == 2: self.note.append("no native search for this property"); return
        if rc == 1 and os.path.exists(rf):
            self.fail = open(rf).read()
        elif rc == 1 and "AddressSanitizer" not in e: self.note.append("native search ended oddly: " + (o + e)[-400:]); return
        else:
            # crashed: find out in which case
            env["HUNT_TRACE"] = "1"
            rc2, o2, e2 = sh([exe, self.prop, tier, str(seed), rf], timeout=timeout * 3, env=env)
            if rc2 == 0: self.note.append("crash (%s) not reproduced" % rc); return
            t = rf + ".trace"
            c = open(t, errors="replace").read().split("\0")[0].strip() if os.path.exists(t) else "unknown"
            if os.path.exists(rf): self.fail = open(rf).read()
            else:
                m = re.search(r"ERROR: AddressSanitizer:[^\n]*", e2)
                self.fail = "case: %s\nfailure: %s\n%s" % (c, m.group(0) if m else "the program crashed with exit status %s" % rc2, e2[-2500:])
        self.fail += "build: %s\n" % ("release assertions off, AddressSanitizer" if self.asan else "debug assertions on")
        self.fail += "rerun: python3 /verif/check.py %s (search seed %s, depth %s)\n" % (self.prop, seed, tier)

# ---------------------------------------------------------------- witnesses
class Witness:
    def __init__(self, tmp, prop):
        self.tmp, self.prop = tmp, prop
        self.items, self.fail, self.note, self.n = [], None, [], 0
        cur = None
        for l in open(os.path.join(HERE, "hunt", "witness.txt")):
            m = re.match(r"== (\S+) (\S+): (.*)", l)
            if m: cur = {"props": m.group(1).split(","), "name": m.group(2), "what": m.group(3)}; self.items.append(cur)
            elif l.startswith("good:"): cur["good"] = l[5:].strip()
            elif l.startswith("bad:"): cur["bad"] = l[4:].strip()
        self.items = [i for i in self.items if prop in i["props"]]
    def run(self):
        if not self.items: return
        d = os.path.join(self.tmp, "wit"); os.makedirs(d)
        lib = os.path.join(d, "libindexing.rmeta")
        rc, o, e = sh(["rustc", "--edition", "2018", "--cap-lints", "allow", "--crate-type", "rlib", "--emit=metadata", "--crate-name", "indexing"] + FEAT + ["-o", lib, os.path.join(SRC, "lib.rs")], timeout=200)
        if rc != 0: self.note.append("the crate does not build"); return
        def comp(nm, body):
            p = os.path.join(d, nm + ".rs")
            open(p, "w").write("use indexing::*; use indexing::indexing::*; use indexing::pointer::*;\nfn main() { %s; }\n" % body if False else
                "#[allow(unused_imports)] use indexing::{scope, Index, Range, NonEmpty, Unknown};\n#[allow(unused_imports)] use indexing::pointer::{PIndex, PRange, PSlice};\nfn main() { %s; }\n" % body)
            return sh(["rustc", "--edition", "2021", "-A", "warnings", "--emit=metadata", "--extern", "indexing=" + lib, "-o", p + ".rmeta", p], timeout=100), p
        def one(i):
            (rc, o, e), p = comp(i["name"].replace("-", "_") + "_good", i["good"])
            if rc != 0: self.note.append("witness %s: control is rejected: %s" % (i["name"], e[:200])); return
            (rc, o, e), p = comp(i["name"].replace("-", "_") + "_bad", i["bad"])
            self.n += 1
            if rc == 0 and self.fail is None:
                self.fail = "case: this program is accepted by the compiler, and shows %s\n%s\n" % (i["what"], open(p).read())
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex: list(ex.map(one, self.items))

# ---------------------------------------------------------------- the trusted base
class Trust:
    """the assumed specifications and raw-memory primitives, compared with the real operations by Kani (thorough tier; does not depend on /repo)"""
    def __init__(self, tmp): self.tmp, self.ok, self.bad, self.note = tmp, [], [], []
    def run(self):
        d = os.path.join(self.tmp, "trust"); os.makedirs(d)
        shutil.copy(os.path.join(HERE, "trust", "trust.rs"), d)
        rc, o, e = sh(["kani", "trust.rs", "--output-format", "terse"], timeout=1800, cwd=d)
        h = None
        for l in o.split("\n"):
            m = re.search(r"Checking harness (\w+)", l)
            if m: h = m.group(1)
            elif "VERIFICATION:- SUCCESSFUL" in l and h: self.ok.append(h)
            elif "VERIFICATION:- FAILED" in l and h: self.bad.append(h)
        if not self.ok: self.note.append("Kani gave no answer about the trusted base: " + (o + e)[-300:])
        if self.bad: self.note.append("the trusted base is contradicted by Kani: " + ", ".join(self.bad))

# ---------------------------------------------------------------- known findings
def known(prop):
    p, r = os.path.join(HERE, "KNOWN_FINDINGS.txt"), []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

# ---------------------------------------------------------------- main
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deep = tier == "thorough"
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    level = man.get(prop, {}).get("level", "proof")
    pats = [glob_re(p) for p in props_map().get(prop, [])]
    mine = lambda k: any(p.match(k) for p in pats)
    tmp = tempfile.mkdtemp(prefix="vxcheck.")
    try:
        V, C = Verus(tmp, "v"), Verus(tmp, "c", canary="exit" if deep else True)
        hs = [Hunt(tmp, prop, "hdbg", False), Hunt(tmp, prop, "hrel", True)]
        W, T = Witness(tmp, prop), Trust(tmp)
        depth = "deep" if deep else "thorough"
        def hunt(h, depth=depth):
            if h.build():
                h.built = True
                h.run(depth, seed, 3600 if deep else 400)
                if deep and not h.fail:
                    for s in range(2, 6):
                        if h.fail: break
                        h.run(depth, seed * 1000 + s, 3600)
            else: h.built = False
        ths = [threading.Thread(target=f, args=a) for f, a in ((V.run, (500,)), (C.run, (500,)), (hunt, (hs[0],)), (hunt, (hs[1],)), (W.run, ())) + (((T.run, ()),) if deep else ())]
        for t in ths: t.start()
        for t in ths: t.join()
        broken = [h.err for h in hs if h.err]
        if len(broken) == 2:
            print("check error: " + broken[0]); return 2
        fails = [h.fail for h in hs if h.fail] + ([W.fail] if W.fail else [])

        # obligations of this property
        st = V.ex.status if V.ok else {}
        body = [k for k in st if mine(k) and st[k] == "body"]
        leafs = [k for k in st if mine(k) and st[k] == "leaf"]
        lost = {k: v for k, v in (V.ex.lostset if hasattr(V, "ex") else {}).items() if mine(k)}
        lost.update({k: v for k, v in V.demoted.items() if mine(k)})
        ghosts = [k for k in V.failed if k.startswith("ghost:") and mine(k)]
        bad = {k: v for k, v in V.failed.items() if (k in body or k in ghosts)}
        und = {k: v for k, v in V.undecided.items() if k in body}
        # a failure in a function that now calls a helper which has no contract decides nothing
        known_nc = set(open(os.path.join(HERE, "vx", "nocontract.txt")).read().split("\n")) if V.ok else set()
        helpers = [k.split("::")[-1] for k in V.ex.nocontract if k not in known_nc] if V.ok else []
        for k in list(bad):
            txt = fn_text(V, k)
            h = [x for x in helpers if re.search(r"\b%s\b" % re.escape(x), txt)]
            if h: und[k] = ["calls %s, which has no contract\n" % ", ".join(h)] + bad.pop(k)
            elif V.ex.bare.get(k): und[k] = ["has a closure, a loop or a match guard that no contract describes\n"] + bad.pop(k)
        vac = [k for k in body if C.ok and k not in C.failed and k not in C.undecided]
        okk = [k for k in body if k not in bad and k not in und and k not in vac]

        # failures in functions these ones call: not this property's obligations, but what it rests on
        deps = sorted(k for k in V.failed if not mine(k) and not k.startswith("ghost:") and k in calls(V, [k for k in st if mine(k)])) if V.ok and V.failed else []
        escal = False
        if (bad or und or lost or deps) and not fails:
            # obligations failed or undecided: look harder for a failing input
            escal = True
            def more(h):
                if getattr(h, "built", False):
                    for s in range(3 if bad else 1):
                        if time.time() - t0 > (550 if not deep else 7200) or h.fail: return
                        h.run("deep", seed + 7 * s, 200)
            ths = [threading.Thread(target=more, args=(h,)) for h in hs]
            for t in ths: t.start()
            for t in ths: t.join()
            fails = [h.fail for h in hs if h.fail]

        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        ev = sum((h.stats or {}).get("evaluations", 0) for h in hs)
        dn = max([(h.stats or {}).get("distinct_nontrivial", 0) for h in hs] + [0])
        samples = [x for h in hs for x in (h.stats or {}).get("samples", [])][:10]
        complete = V.ok and body and len(okk) == len(body) and not lost
        cov = {
            "obligations": len(body) + len([k for k in lost if k not in body]), "discharged": len(okk),
            "checker_cmd": getattr(V, "cmd", "verus"), "trusted_base": V.scan_trusted() if V.ok else [],
            "functions_under_contract": sorted(body), "functions_not_under_contract_bounded_search_only": sorted(leafs),
            "undischarged": {k: "".join(v)[:400] for k, v in list(bad.items()) + list(und.items())},
            "failed_in_callees": deps, "lost_contracts": {k: str(v)[:300] for k, v in lost.items()}, "vacuous": vac,
            "whole_file_verified": V.verified, "whole_file_units": V.total or 0, "solver_ms": V.smt_ms, "back_end": "Verus %s / Z3" % getattr(V, "version", "?"),
            "extraction": {k: n for k, n in (V.ex.applied if hasattr(V, "ex") else {}).items()}, "extraction_drops": sorted(set(V.ex.dropped)) if hasattr(V, "ex") else [],
            "evaluations": ev, "distinct_nontrivial": dn, "rule": "native search of the real crate (bounded): every case of the exhaustive small domains and the seeded larger ones, in a build with debug assertions and in one with AddressSanitizer and assertions off; non-trivial: container of at least two elements",
            "samples": samples, "witness_programs": W.n,
            "canaries": "each function under contract was also verified with assert(false) at its %s: %d of %d failed as they must" % ("end" if deep else "start", len(body) - len(vac), len(body)) if C.ok else "canary run unavailable",
            "trusted_base_checked": {"back_end": "Kani/CBMC, trust/trust.rs", "all values": sorted(h for h in T.ok if h.startswith("full_")), "bounded (storage of at most 3 elements; 10-bit division)": sorted(h for h in T.ok if h.startswith("mem_")), "failed": T.bad} if deep else "thorough tier only (trust/trust.rs)",
            "notes": V.note + W.note + T.note + [n for h in hs for n in h.note],
        }
        if not samples: cov["samples"] = samples or ["none"]
        evid = {"property": prop, "tier": "thorough" if deep else "quick", "seed": seed, "level": level if (complete or level != "proof") else "exploration", "coverage": cov,
                "assumptions": ["every container is at most isize::MAX elements long", "usize is 32 or 64 bits wide", "branding (which container an index belongs to) is checked by rustc, not here",
                    "functions listed under functions_not_under_contract_bounded_search_only are covered by bounded search only", "calls into functions listed under extraction_drops are not modelled"],
                "wall_s": round(time.time() - t0, 2), "violations": 1 if (fails or bad) else 0}
        if not complete and level == "proof": cov["explanation"] = "on this tree not every obligation was discharged; the remaining functions were covered by bounded search only"
        json.dump(evid, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for case, what in known(prop):
            # still failing? (the listed input is run; nothing else is excused)
            h = [h for h in hs if getattr(h, "built", False)]
            if h:
                rc, o, e = sh([os.path.join(tmp, h[0].name), case, "quick", "1"], timeout=100)
                if rc != 0: print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("%s: %d of %d functions under contract proved, %d bounded only; %d native cases; %d witness programs; %.1f s" % (prop, len(okk), cov["obligations"], len(leafs), ev, W.n, time.time() - t0))
        for n in cov["notes"]: print("note: " + n[:300].replace("\n", " "))
        for k in und: print("undecided: %s" % k)
        for k in deps: print("called from here and not proved: %s" % k)
        for k in lost: print("contract not attached: %s: %s" % (k, str(lost[k])[:160].replace("\n", " ")))
        if not fails and not bad: return 0
        rp = os.path.join(HERE, "replays", prop + ".txt")
        with open(rp, "w") as f:
            f.write("property: %s\n" % prop)
            for x in fails: f.write("\n== failing input\n" + x)
            for k, v in bad.items(): f.write("\n== failed obligation in %s\n%s" % (k, "\n".join(v)))
        if fails: print(fails[0][:1500])
        for k, v in bad.items(): print("failed obligation in %s: %s" % (k, v[0].split("\n")[0]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def calls(V, roots):
    """the functions of the crate that may be called from these, by name"""
    by = {}
    txt = {}
    for a, b, k, mod, off in V.ex.out.map:
        if k: txt[k] = txt.get(k, "") + "\n".join(V.lines[a-1:b]); by.setdefault(k.split("::")[-1], set()).add(k)
    seen, todo = set(roots), list(roots)
    while todo:
        for w in set(re.findall(r"[A-Za-z_]\w*", txt.get(todo.pop(), ""))):
            new = by.get(w, set()) - seen
            seen |= new; todo += new
    return seen

def fn_text(V, key):
    for a, b, k, mod, off in V.ex.out.map:
        if k == key: return "\n".join(V.lines[a-1:b])
    return ""

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
