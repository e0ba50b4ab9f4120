"""Histories for generated builders, and the offline checker of the logs they leave.

The checker is a small reference model of what the documentation promises.  Every operation is judged
on its own from the snapshot logged before it, so one deviation does not cascade."""
import re
from spec import *
import tys

ID = re.compile(r"#\d+")
IDN = re.compile(r"#(\d+)")


def strip(t):
    return ID.sub("", t)


# ------------------------------------------------------------------------------------------ histories
def gen_history(r, s, A, nops=None, focus=None, weights=None):
    """A random sequence of (k, f, v, s, d, p) that respects which slots are alive."""
    by = {k: [x for x in A if x[0] == k] for k in (1, 2, 3, 8)}
    W = {"new": 1.2, "set": 6, "try": 2.5, "each": 4, "clone": 1, "build": 3, "drop": .5, "dropp": .5, "raw": 1, "flag": 1}
    W.update(weights or {})
    live, prod, ops = set(), set(), []
    ctors = ([0] if not s.so.get("custom_constructor") else []) + [1] + ([2] if "Default" in s.so.get("derive", []) else [])
    flags = [f.idx for f in s.fields if f.default in ("dfr", "dfrb", "dfp")] + [f.idx for f in s.fields if f.bform in ("fall", "bonlyfall")]
    if s.validate: flags += [VFLAG] * 2
    if s.sdform == "fall": flags += [61]
    slots = [0, 1, 2, 3]

    def pay():
        c = r.random()
        if c < .2: return r.randint(1, 12)
        return r.randint(1, 9999)

    def new(d=None):
        d = r.choice(slots) if d is None else d
        ops.append((0, 0, r.choice(ctors), 0, d, 0))
        live.add(d)

    def setter(k, key, src):
        f = s.fields[key[1]]
        p = pay()
        if f.pattern == "mutable": d = src
        else: d = src if r.random() < .6 else r.choice(slots)
        fails = k == 2 and A[key][2] is not None and A[key][2](p) is not None
        ops.append((k, key[1], key[2], src, d, p))
        if f.pattern == "owned":
            live.discard(src)
            if not fails: live.add(d)
        elif f.pattern == "immutable":
            if not fails: live.add(d)
        return d if not fails else (src if src in live else None)

    def build(src):
        d = r.choice(slots)
        ops.append((5, 0, 0, src, d, 0))
        if s.pattern == "owned": live.discard(src)
        prod.add(d)
    n = nops or r.choice([6, 10, 14, 20, 30])
    # an initial phase that gets builders close to complete
    if r.random() < .75:
        src = r.choice(slots)
        new(src)
        fl = [f for f in s.fields if any(k[1] == f.idx for k in A)]
        r.shuffle(fl)
        req = [f for f in fl if f.required]
        omit = set()
        if req and r.random() < .45:
            omit = {f.idx for f in r.sample(req, min(len(req), r.choice([1, 1, 2, 3])))}
        optp = r.choice([0, .3, .5, .8, 1])
        for f in fl:
            if f.idx in omit or (not f.required and r.random() > optp): continue
            ks = [k for k in A if k[1] == f.idx and k[0] in ((1, 2, 3) if r.random() < .9 else (8,))] or [k for k in A if k[1] == f.idx]
            for _ in range(r.choice([1, 1, 1, 2])):
                k = r.choice(ks)
                if src is None or src not in live: break
                if k[0] == 8: ops.append((8, k[1], k[2], src, src, pay()))
                else:
                    res = setter(k[0], k, src)
                    if res is None: break
                    src = res
            if src is None or src not in live: break
        if src is not None and src in live and not s.bfskip: build(src)
    while len(ops) < n:
        cand = [("new", W["new"])]
        if live:
            if by[1]: cand.append(("set", W["set"]))
            if by[2]: cand.append(("try", W["try"]))
            if by[3]: cand.append(("each", W["each"]))
            if by[8]: cand.append(("raw", W["raw"]))
            if s.has_clone: cand.append(("clone", W["clone"]))
            if not s.bfskip: cand.append(("build", W["build"]))
            cand.append(("drop", W["drop"]))
        if prod: cand.append(("dropp", W["dropp"]))
        if flags: cand.append(("flag", W["flag"]))
        c = r.choices([x for x, _ in cand], [w for _, w in cand])[0]
        if c == "new": new()
        elif c in ("set", "try", "each"):
            k = {"set": 1, "try": 2, "each": 3}[c]
            setter(k, r.choice(by[k]), r.choice(sorted(live)))
        elif c == "raw":
            k = r.choice(by[8])
            src = r.choice(sorted(live))
            ops.append((8, k[1], k[2], src, src, pay()))
        elif c == "clone":
            src, d = r.choice(sorted(live)), r.choice(slots)
            ops.append((4, 0, 0, src, d, 0))
            live.add(d)
        elif c == "build": build(r.choice(sorted(live)))
        elif c == "drop":
            src = r.choice(sorted(live))
            ops.append((6, 0, 0, src, 0, 0))
            live.discard(src)
        elif c == "dropp": ops.append((7, 0, 0, r.choice(sorted(prod)), 0, 0))
        elif c == "flag": ops.append((9, r.choice(flags), r.choice([0, 1]), 0, 0, 0))
    return ops


def write_histories(path, hs):
    """hs: [(sid, hid, ops)]"""
    with open(path, "w") as f:
        for sid, hid, ops in hs:
            f.write("H %d %d\n" % (sid, hid))
            for o in ops: f.write("O %d %d %d %d %d %d\n" % o)


# ------------------------------------------------------------------------------------------ log parsing
class Rec:
    __slots__ = ("op", "pre", "call", "post", "R", "B", "P", "phase")

    def __init__(self, op):
        self.op, self.pre, self.call, self.post, self.R, self.B, self.P, self.phase = op, [], [], [], None, {}, {}, 0


def parse_log(path):
    """yields (sid, hid, [Rec], tail events, status)"""
    cur = None
    recs, tail, fin = [], [], False
    for l in open(path, errors="replace"):
        l = l.rstrip("\n")
        w = l.split(" ", 1)
        k = w[0]
        if k == "H":
            a, b = w[1].split()
            cur, recs, tail, fin = (int(a), int(b)), [], [], False
        elif k in ("E", "X", "ABSENT"):
            yield cur[0], cur[1], recs, tail, k
            cur = None
        elif cur is None: continue
        elif k == "FIN": fin = True
        elif fin: tail.append(l)
        elif k == "O": recs.append(Rec(tuple(int(x) for x in w[1].split())))
        elif not recs: tail.append(l)
        else:
            r = recs[-1]
            if k == "A": r.phase = 1
            elif k == "Z": r.phase = 2
            elif k == "R": r.R = w[1]
            elif k == "B":
                i, t = w[1].split(" ", 1)
                r.B[int(i)] = t.split("|") if t else []
            elif k == "P":
                i, t = w[1].split(" ", 1)
                r.P[int(i)] = t.split("|") if t else []
            else: (r.pre, r.call, r.post)[r.phase].append(l)
    if cur is not None:
        yield cur[0], cur[1], recs, tail, "TRUNCATED"


# ------------------------------------------------------------------------------------------ the oracle
def unwrap(t):
    assert t.startswith("S("), t
    return t[2:-1]


class Judge:
    """Judges one history.  report(kind, field or None, op index, message); seen(kind, key)."""

    def __init__(self, s, A, report, seen):
        self.s, self.A, self.report, self.seen = s, A, report, seen

    # signature of a field's configuration, for counting distinct situations
    def fsig(self, f):
        return (tys.rust(f.ty), f.into, f.strip, f.pattern, f.enabled, f.setter, bool(f.each), f.default, f.bform, f.usesd, raw(f.name) in [raw(h) for h in HOSTILE])

    def run(self, recs, tail, status):
        s = self.s
        B, P = {}, {}
        flags = {}
        live = {}
        dead = set()

        def events(evs, n, where):
            for l in evs:
                w = l.split(" ")
                if w[0] == "N": live[w[1]] = 1
                elif w[0] == "C":
                    if w[1] not in live: self.report("own.uaf", None, n, "value #%s is cloned after it was dropped (%s)" % (w[1], where))
                    live[w[2]] = 1
                elif w[0] == "D":
                    if w[1] not in live: self.report("own.double", None, n, "value #%s is dropped twice (%s)" % (w[1], where))
                    live.pop(w[1], None)
                    dead.add(w[1])
        for n, rec in enumerate(recs):
            last = n == len(recs) - 1
            if status in ("X", "TRUNCATED") and last:
                self.report("crash", None, n, "the driver stopped in operation %s: %s" % (rec.op, [l for l in rec.pre + rec.call + rec.post if l.startswith("PANIC")]))
                return
            for evs, wh in ((rec.pre, "argument"), (rec.call, "call"), (rec.post, "after")): events(evs, n, wh)
            for tab in (rec.B, rec.P):
                for slot, fs in tab.items():
                    for i in IDN.findall("".join(fs)):
                        if i not in live: self.report("own.uaf", None, n, "value #%s is visible after it was dropped" % i)
            try:
                self.step(n, rec, B, P, flags)
            except (AssertionError, IndexError, KeyError) as e:
                raise
            B, P = rec.B, rec.P
        events(tail, len(recs), "end")
        self.seen("own", (s.pattern, len(recs) // 4, len(dead) // 8))
        if status == "E" and live:
            self.report("own.leak", None, len(recs), "values never dropped: %s" % sorted(live)[:10])
        if status in ("X", "TRUNCATED") and not recs:
            self.report("crash", None, 0, "the driver stopped at the start")

    # -------------------------------------------------------------------------------- one operation
    def others(self, n, rec, B, P, touched_b=(), touched_p=(), kind="other"):
        """Slots an operation has no business with are bit for bit as before."""
        for i in set(B) | set(rec.B):
            if i in touched_b: continue
            if B.get(i) != rec.B.get(i): self.report(kind + ".slot", None, n, "unrelated builder %d changed: %s -> %s" % (i, B.get(i), rec.B.get(i)))
        for i in set(P) | set(rec.P):
            if i in touched_p: continue
            if P.get(i) != rec.P.get(i): self.report(kind + ".slot", None, n, "unrelated built object %d changed: %s -> %s" % (i, P.get(i), rec.P.get(i)))
        self.seen(kind + ".slot", (len(B), len(P)))

    def step(self, n, rec, B, P, flags):
        k, fi, v, src, d, p = rec.op
        s = self.s
        if k == 9:
            flags[fi] = v
            return
        if k == 0:
            got = rec.B.get(d)
            exp = ["-" if not f.enabled else ("N" if f.cty is None else dflt(f.cbt)) for f in s.fields]
            for f, e, g in zip(s.fields, exp, got):
                self.seen("new", (tys.rust(f.ty), f.enabled, f.cty is not None, v))
                if strip(g) != e: self.report("new.custom" if f.cty is not None else "new", f, n, "field %s of a new builder is %s, expected %s" % (f.name, g, e))
            self.others(n, rec, B, P, touched_b=(d,), kind="new")
            return
        if k in (6, 7):
            return
        pre = B[src]
        if k == 4:
            got = rec.B.get(d)
            self.seen("clone", tuple(x[:1] for x in pre))
            if [strip(x) for x in got] != [strip(x) for x in pre]: self.report("clone", None, n, "clone is %s, original %s" % (got, pre))
            if d != src and rec.B.get(src) != pre: self.report("clone", None, n, "cloning changed the original")
            if d != src and set(IDN.findall("".join(got))) & set(IDN.findall("".join(pre))): self.report("clone", None, n, "clone shares values with the original")
            self.others(n, rec, B, P, touched_b=(d,), kind="clone")
            return
        if k == 5:
            return self.build(n, rec, B, P, flags)
        f = s.fields[fi]
        op = {1: "set", 2: "try", 3: "each", 8: "raw"}[k]
        arm = self.A[(k, fi, v)]
        pat = "mutable" if k == 8 else f.pattern
        fsg = self.fsig(f)
        # what should be stored
        fails = False
        if k == 3:
            cur = strip(pre[fi])
            wraps = 0
            if f.cty is None:
                cur = None if cur == "N" else unwrap(cur)
                wraps += 1
            if f.stripped:
                cur = None if cur in (None, "N") else unwrap(cur)
                wraps += 1
            if cur is None: cur = dflt(inst(f.pt, s.env))
            new = arm[1](cur, p)
            new = "S(" * wraps + new + ")" * wraps
        elif k == 8:
            new = arm[1](p)
        else:
            if k == 2 and arm[2] is not None and arm[2](p) is not None: fails = True
            if not fails:
                new = arm[1](p)
                if f.stripped: new = "S(%s)" % new
                if f.cty is None: new = "S(%s)" % new
        lab = arm[3] if k == 2 else arm[2]
        self.seen(op + (".fail" if fails else ".value"), (fsg, lab, pre[fi][:2]))
        # conversions happen once
        if lab in ("Si", "Ti"):
            c = sum(1 for l in rec.call if l.split(" ")[0] in ("V", "W"))
            self.seen(op + ".conv", (fsg, lab))
            if c != 1: self.report(op + ".conv", f, n, "argument of %s converted %d times" % (f.name, c))
        # owned and mutable setters do not clone
        if pat != "immutable" and k != 8:
            c = [l for l in rec.call if l.startswith("C ")]
            self.seen("noclone", (fsg, op))
            if c: self.report("noclone", f, n, "%s setter of %s cloned values: %s" % (pat, f.name, c))
        if fails:
            exp = "err " + arm[2](p)
            if rec.R != exp: self.report("try.err", f, n, "failing conversion for %s gave `%s`, expected `%s`" % (f.name, rec.R, exp))
            if pat == "owned":
                self.others(n, rec, B, P, touched_b=(src,), kind="try")
            else:
                if rec.B.get(src) != pre: self.report("try.unchanged", f, n, "failed try_ setter of %s changed the builder: %s -> %s" % (f.name, pre, rec.B.get(src)))
                self.others(n, rec, B, P, touched_b=(src,), kind="try")
            return
        if k == 2 and not (rec.R or "").startswith("ok"):
            self.report("try.err", f, n, "conversion for %s should succeed but gave `%s`" % (f.name, rec.R))
            return
        if pat == "mutable" and k != 8:
            self.seen(op + ".recv", (fsg,))
            if not (rec.R or "").endswith("same=1"): self.report(op + ".recv", f, n, "setter of %s did not return the builder it was called on: %s" % (f.name, rec.R))
        res = rec.B.get(src if pat == "mutable" else d)
        if res is None:
            self.report(op + ".value", f, n, "no builder after the call")
            return
        if strip(res[fi]) != new: self.report(op + ".value", f, n, "%s(%s) stored %s, expected %s" % (f.sname_would, lab, res[fi], new))
        for g in s.fields:
            if g.idx == fi: continue
            self.seen(op + ".otherfield", (g.idx, fi, len(s.fields)))
            a, b = pre[g.idx], res[g.idx]
            if pat == "immutable": a, b = strip(a), strip(b)
            if a != b: self.report(op + ".otherfield", g, n, "calling the setter of %s changed field %s: %s -> %s" % (f.name, g.name, pre[g.idx], res[g.idx]))
        if pat == "immutable" and d != src:
            self.seen(op + ".recv", (fsg,))
            if rec.B.get(src) != pre: self.report(op + ".recv", f, n, "immutable setter of %s changed its receiver: %s -> %s" % (f.name, pre, rec.B.get(src)))
            if set(IDN.findall("".join(res))) & set(IDN.findall("".join(pre))): self.report(op + ".recv", f, n, "copy shares values with its receiver")
        if pat == "owned" and d != src and src in rec.B: self.report("crash", f, n, "owned receiver still there")
        self.others(n, rec, B, P, touched_b=(src, d) if pat != "mutable" else (src,), kind=op)

    # -------------------------------------------------------------------------------- build
    def build(self, n, rec, B, P, flags):
        s = self.s
        k, _, _, src, d, _ = rec.op
        pre = B[src]
        owned = s.pattern == "owned"
        ev = [l.split(" ", 2) for l in rec.call if l.split(" ")[0] in ("VAL", "SD", "DF", "BL")]
        kinds = [e[0] for e in ev]
        R = rec.R or ""
        shape = tuple("-" if not f.enabled else ("u" if pre[f.idx] == "N" else "s") for f in s.fields)
        missing = [f for f in s.fields if f.required and pre[f.idx] == "N"]
        fallible = {}    # what the build may fail with, besides a missing field
        # --- receiver
        if not owned:
            self.seen("build.recv", shape)
            if rec.B.get(src) != pre: self.report("build.recv", None, n, "build changed the builder: %s -> %s" % (pre, rec.B.get(src)))
        ok = R == "ok"
        self.others(n, rec, B, P, touched_b=(src,), touched_p=(d,) if ok else (), kind="build")
        # --- validation
        if s.validate:
            self.seen("val", (shape, flags.get(VFLAG, 0), s.validate, s.errty, s.pattern))
            if kinds.count("VAL") != 1: self.report("val.once", None, n, "validation ran %d times" % kinds.count("VAL"))
            if kinds[:1] != ["VAL"]: self.report("val.first", None, n, "validation is not the first thing build does: %s" % kinds)
            for e in ev:
                if e[0] == "VAL" and len(e) > 1:
                    seen = " ".join(e[1:])
                    if seen != "?" and seen != "|".join(pre): self.report("val.state", None, n, "validation saw %s, the builder is %s" % (seen, "|".join(pre)))
            if flags.get(VFLAG):
                if len(ev) > 1 and "VAL" in kinds: self.report("val.abort", None, n, "after failed validation build evaluated %s" % kinds[1:])
                m = s.vmsg.replace("\n", "\\n")
                body = {"custom": {"String": "S(%s)", "VErr": "VE(%s)", "own": "S(%s)"}[getattr(s, "vret", "String")] % m}.get(s.err, "VE(%s) | %s | " % (m, m))
                if not R.startswith("err "): self.report("val.result", None, n, "validation failed but build gave `%s`" % R)
                elif not R[4:].startswith(body): self.report("val.error", None, n, "validation error came out as `%s`, expected `%s`" % (R, body))
                if owned and src in rec.B: self.report("build.recv", None, n, "receiver still there")
                return
        elif "VAL" in kinds: self.report("val.once", None, n, "validation ran although none is configured")
        # --- what each field should become
        need_sd = any(f.usesd and (not f.enabled or pre[f.idx] == "N") and f.bform is None for f in s.fields)
        exp = []
        for f in s.fields:
            t = f.ct
            if f.bform:
                if f.bform == "move": e = ("custom", pre[f.idx])
                elif f.bform == "unwrap": e = ("custom", unwrap(pre[f.idx])) if pre[f.idx] != "N" else ("custom", mk(t, DF_BASE + f.idx))
                elif f.bform == "convint": e = ("custom", mk(t, int(pre[f.idx][1:])))
                else: e = ("custom", mk(t, BL_BASE + f.idx))
                if f.bform in ("fall", "bonlyfall") and flags.get(f.idx): fallible["bfail%d" % f.idx] = f
            elif f.enabled and pre[f.idx] != "N": e = ("set", unwrap(pre[f.idx]))
            elif f.default is not None:
                e = ("default", default_value(s, f))
                if f.default in ("dfr", "dfrb") and flags.get(f.idx): fallible["dfail%d" % f.idx] = f
                if f.default == "dfp" and flags.get(f.idx): fallible["panic"] = f
            elif f.usesd: e = ("sd", mk(t, SD_BASE + f.idx) if t[0] != "phc" else "P")
            elif not f.enabled: e = ("typedefault", dflt(t))
            else: e = ("missing", None)
            exp.append(e)
        sdfail = s.sdform == "fall" and flags.get(61)
        if sdfail and ("SD" in kinds or need_sd): fallible["sdfail"] = None
        # --- outcome
        self.seen("build.outcome", (shape, bool(missing), len(fallible), s.err))
        want_ok = not missing and not fallible
        if R == "panic":
            if "panic" not in fallible: self.report("crash", fallible.get("panic"), n, "build panicked: %s" % [l for l in rec.call if l.startswith("PANIC")])
            self.seen("build.panic", shape)
        elif ok:
            if missing: self.report("build.missing", missing[0], n, "build succeeded although %s is unset" % missing[0].name)
            elif fallible: self.report("build.fallible", None, n, "build succeeded although %s should fail" % sorted(fallible))
        elif R.startswith("err "):
            e = R[4:]
            m = re.match(r"UF\((.*?)\) \| ", e)
            if m:
                nm = m.group(1)
                if not missing: self.report("build.spurious", None, n, "build reports `%s` as missing but nothing is: %s" % (nm, "|".join(pre)))
                else:
                    self.seen("build.first", (shape, missing[0].idx))
                    if raw(nm) != raw(missing[0].name): self.report("build.first", missing[0], n, "build names `%s`, the first missing field is `%s`" % (nm, missing[0].name))
                    msg = e[m.end():]
                    self.seen("errtext", (raw(nm), s.err, s.errty))
                    if s.err == "custom":
                        okm = msg.startswith("Field not initialized: %s" % nm) and len(msg) == len("Field not initialized: " + nm)
                    else:
                        disp, _, dbg = msg.partition(" | ")
                        okm = disp == "`%s` must be initialized" % nm and "UninitializedField" in dbg
                    if not okm: self.report("errtext", missing[0], n, "error text is `%s`" % msg)
            else:
                hit = [x for x in fallible if x in e]
                if not hit: self.report("build.spurious", None, n, "unexpected error `%s`" % e)
                else:
                    x = hit[0]
                    body = "S(%s)" % x if s.err == "custom" else "VE(%s) | %s | " % (x, x)
                    self.seen("errtext", (x[:4], s.err, s.errty))
                    if not e.startswith(body): self.report("errtext", None, n, "error `%s` should be `%s`" % (e, body))
        else:
            self.report("crash", None, n, "no result")
        # --- evaluation of defaults and conversions
        done = {}
        for e in ev:
            if e[0] in ("DF", "BL"): done.setdefault((e[0], int(e[1])), []).append(e[2] if len(e) > 2 else None)
        for f, (kind, val) in zip(s.fields, exp):
            df, bl = done.pop(("DF", f.idx), []), done.pop(("BL", f.idx), [])
            logs_df = kind == "default" and f.default not in ("word", "lit", "litnone", "litvec")
            if f.bform == "unwrap": logs_df = pre[f.idx] == "N"
            if f.bform in ("move", None): logs_bl = False
            else: logs_bl = True
            self.seen("build.eval", (self.fsig(f), kind, s.sdform))
            if len(df) > 1 or (df and not logs_df): self.report("build.eval", f, n, "default of %s evaluated %d times (field is %s)" % (f.name, len(df), kind))
            if ok and logs_df and not df: self.report("build.eval", f, n, "default of %s was not evaluated" % f.name)
            if len(bl) > 1 or (bl and not logs_bl): self.report("build.bl", f, n, "build expression of %s evaluated %d times" % (f.name, len(bl)))
            if ok and logs_bl and not bl: self.report("build.bl", f, n, "build expression of %s was not evaluated" % f.name)
            if logs_bl: self.seen("build.bl", (self.fsig(f), pre[f.idx][:2]))
            for x in bl:
                if x is not None and x != pre[f.idx]: self.report("build.bl", f, n, "build expression of %s saw %s instead of %s" % (f.name, x, pre[f.idx]))
            if df and df[0] is not None and f.default in ("dfs", "selfhelper"):
                if df[0] != "|".join(pre): self.report("build.eval", f, n, "default of %s saw the builder as %s instead of %s" % (f.name, df[0], "|".join(pre)))
            if df and df[0] is not None and f.default == "dflater":
                g = [g for g in s.fields if g.idx > f.idx and g.enabled][0]
                if df[0] != pre[g.idx]: self.report("build.eval", f, n, "default of %s saw %s instead of %s" % (f.name, df[0], pre[g.idx]))
        if done: self.report("build.eval", None, n, "evaluations of unknown expressions %s" % done)
        nsd = kinds.count("SD")
        if s.sdform:
            self.seen("build.sd", (s.sdform, shape, need_sd))
            if nsd > 1 or (ok and need_sd and nsd != 1): self.report("build.sd", None, n, "struct default evaluated %d times" % nsd)
        elif nsd: self.report("build.sd", None, n, "struct default evaluated although none is configured")
        # --- values
        if ok:
            got = rec.P.get(d)
            if got is None or len(got) != len(exp):
                self.report("crash", None, n, "no built object in the log")
                return
            for f, (kind, val), g in zip(s.fields, exp, got):
                self.seen("value." + kind, (self.fsig(f), shape[f.idx], len(s.fields)))
                if kind == "missing": continue
                if strip(g) != strip(val): self.report("value." + kind, f, n, "field %s of the built object is %s, expected %s (%s)" % (f.name, g, strip(val), kind))
                elif owned and kind == "set" or owned and f.bform in ("move", "unwrap") and "#" in val:
                    self.seen("moved", (self.fsig(f),))
                    if g != val: self.report("moved", f, n, "field %s was not moved into the object: %s -> %s" % (f.name, val, g))
            if not owned:
                shared = set(IDN.findall("".join(got))) & set(IDN.findall("".join(pre)))
                if shared: self.report("own.shared", None, n, "built object shares values %s with the builder" % sorted(shared))
            if owned and any(l.startswith("C ") for l in rec.call):
                self.report("noclone", None, n, "owned build cloned values")
            self.seen("noclone", ("build", s.pattern))
