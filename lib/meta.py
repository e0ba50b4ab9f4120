"""P16: the same meaning, written differently. Pairs of definitions are expanded, and where the expansions differ (and for a
sample anyway) both are compiled, run through the same histories and probed for their surface."""
import os, random, shutil
import common, engine, macrocheck, spec, surface, trace
from spec import raw

KEYS = ("enabled", "setter", "sname", "into", "strip", "tname", "each", "pattern", "cty", "bform", "default", "usesd", "required")
SKEYS = ("pattern", "builder", "buildname", "bfskip", "validate", "errty", "cempty", "sdform", "has_clone")


def fset(f):
    x = f.fo.get("setter", {})
    return {"skip": False} if x == "word" else dict(x)


def settle(s, s2, f, x):
    """Give field f the setter options x without changing whether it has a setter."""
    o = [g for g in s.fields if g.idx == f.idx][0]
    if not o.enabled: x["skip"] = True
    if x: f.fo["setter"] = x


def pushed(r, s):
    """What the struct says, said by every field."""
    s2 = s.clone()
    so, o = s2.so, s.so
    what = [k for k in ("into", "strip_option", "prefix", "skip") if k in o.get("setter", {})] + [k for k in ("try_setter", "vis", "field") if k in o] + ["pattern"]
    sel = {k for k in what if r.random() < .8}
    sset = o.get("setter", {})
    for f, g in zip(s2.fields, s.fields):
        x = fset(f)
        y = dict(x)
        for k in ("into", "strip_option", "prefix"):
            if k in sel and k not in y: y[k] = sset[k]
        if "skip" in sel and "skip" not in y: y["skip"] = not g.enabled
        if y != x: settle(s, s2, f, y)
        if "try_setter" in sel: f.fo["try_setter"] = True
        if "vis" in sel and "vis" not in f.fo: f.fo["vis"] = so["vis"]
        if "field" in sel and g.enabled and "vis" not in f.fo.get("field", {}): f.fo["field"] = dict(f.fo.get("field", {}), vis=so["field"])
        if "pattern" in sel and "pattern" not in f.fo: f.fo["pattern"] = s.pattern
    for k in sel & {"into", "strip_option", "prefix", "skip"}:
        so["setter"] = {a: b for a, b in so["setter"].items() if a != k}
    if so.get("setter") == {}: del so["setter"]
    if "try_setter" in sel: so.pop("try_setter")
    if "field" in sel: so.pop("field")
    return s2


def lifted(r, s):
    """What every field says, said by the struct (with the fields that do not say it saying the opposite)."""
    s2 = s.clone()
    so = s2.so
    for k, attr in (("into", "into"), ("strip_option", "strip")):
        if r.random() < .7:
            v = r.random() < .5
            so["setter"] = dict(so.get("setter", {}), **{k: v})
            for f, g in zip(s2.fields, s.fields):
                x = fset(f)
                if getattr(g, attr) == v: x.pop(k, None)
                else: x[k] = getattr(g, attr)
                settle2(s, s2, f, g, x)
    if r.random() < .7 and "field" not in so:
        so["field"] = r.choice(["public", "pub(crate)", "private", "pub(super)"])
        for f in s2.fields:
            if "vis" not in f.fo.get("field", {}): f.fo["field"] = dict(f.fo.get("field", {}), vis="private")
    if r.random() < .5 and not so.get("setter", {}).get("skip"):
        so["setter"] = dict(so.get("setter", {}), skip=True)
        for f, g in zip(s2.fields, s.fields):
            if f.fo.get("setter") == "word": continue
            x = fset(f)
            x["skip"] = not g.enabled
            f.fo["setter"] = x
    return s2


def settle2(s, s2, f, g, x):
    """As settle, when options may also have been taken away: say explicitly what they implied."""
    if f.fo.get("setter") == "word" and x == {"skip": False}: return
    if "skip" not in x: x["skip"] = not g.enabled
    f.fo["setter"] = x


def explicit(r, s):
    """Documented defaults written out."""
    s2 = s.clone()
    so = s2.so
    y = lambda p=.5: r.random() < p
    if "pattern" not in so and y(): so["pattern"] = "mutable"
    if "name" not in so and y(): so["name"] = raw(s.name) + "Builder"
    if "create_empty" not in so and y(): so["create_empty"] = "create_empty"
    if "crate" not in so and y(): so["crate"] = "::derive_builder"
    x = dict(so.get("setter", {}))
    for k in ("into", "strip_option", "skip"):
        if k not in x and y(.4): x[k] = False
    if x: so["setter"] = x
    b = dict(so.get("build_fn", {}))
    bvis = so.get("vis", s.vis)
    if "name" not in b and y(): b["name"] = "build"
    if "skip" not in b and y(): b["skip"] = False
    if "vis" not in b and y(): b["vis"] = bvis
    if "error" not in b and y(.4): b["error"] = ("val", True)
    if b: so["build_fn"] = b
    if "field" not in so and y(): so["field"] = "private"
    if "vis" not in so and y(.3):
        so["vis"] = s.vis
        for f in s2.fields: f.fo.setdefault("vis", "public")
    for f, g in zip(s2.fields, s.fields):
        if f.fo.get("setter") != "word":
            x = fset(f)
            if "into" not in x and y(.4): x["into"] = g.into
            if "strip_option" not in x and y(.4): x["strip_option"] = g.strip
            if "custom" not in x and y(.3) and g.enabled: x["custom"] = False
            if "name" not in x and y(.2) and g.enabled and g.setter: x["name"] = g.sname
            if x and ("skip" in x or not g.enabled or y(.3) or x != fset(f)): x["skip"] = not g.enabled
            if x: f.fo["setter"] = x
        if "pattern" not in f.fo and y(.4): f.fo["pattern"] = s.pattern
        if "vis" not in f.fo and y(.3): f.fo["vis"] = so.get("vis", "public")
        ff = f.fo.get("field", {})
        if "vis" not in ff and y(.3): f.fo["field"] = dict(ff, vis=so.get("field", "private") if g.enabled else "private")
    return s2


def respell(r, s):
    return s.clone()


KINDS = [("respelled", respell), ("respelled", respell), ("pushed down", pushed), ("lifted", lifted), ("explicit defaults", explicit)]


def pair(r, i, prof):
    a = spec.gen_spec(r, i, prof)
    a.id, a.spseed, a.sp = 2 * i, a.seed, r.choice([0, 0, 1, .5])
    names = []
    b = a
    for name, fn in r.sample(KINDS, r.choice([1, 1, 2, 3])):
        b = fn(r, b)
        names.append(name)
        spec.resolve(b)
    b.id, b.spseed, b.sp = 2 * i + 1, r.randrange(1 << 30), r.choice([0, .4, .8, 1]) if "respelled" not in names else r.choice([.6, 1])
    b.macro = a.macro
    for f, g in zip(a.fields, b.fields):
        for k in KEYS:
            if getattr(f, k) != getattr(g, k): raise common.HarnessError("variant %s changes the meaning: field %s %s %r -> %r" % (names, f.name, k, getattr(f, k), getattr(g, k)))
    for k in SKEYS:
        if getattr(a, k) != getattr(b, k): raise common.HarnessError("variant %s changes the meaning: %s" % (names, k))
    return a, b, "+".join(sorted(set(names)))


def sp_of(s):
    return spec.Sp(s.spseed, s.sp)


def raw_log(path):
    """{(sid, hid): text}"""
    out, cur = {}, None
    for l in open(path, errors="replace"):
        if l.startswith("H "):
            cur = tuple(int(x) for x in l.split()[1:3])
            out[cur] = []
        elif cur is not None: out[cur].append(l.split()[0] + "\n" if l[:2] in ("E ", "X ") else l)
    return {k: "".join(v) for k, v in out.items()}


PROF = dict(s_into=.25, f_into=.25, s_strip=.25, f_strip=.25, s_skip=.12, f_skip=.15, f_custom=.08, s_prefix=.2, f_prefix=.15, f_name=.15, s_try=.2, f_try=.2, f_each=.25, vis=.3, opt_bias=.25, f_default=.4, sd=.2,
            setter_word=.15, off=.5, p_fpat=.15, f_cty=.15, f_build=.15, validate=.25, nf=[1, 2, 3, 4, 5])


def unword(t):
    """Expansions without the difference between the word `default` and the expression it stands for, and of one visibility's spellings."""
    t = t.replace("pub (self) ", "").replace("pub (in crate)", "pub (crate)").replace("pub (in super)", "pub (super)")
    return t.replace("{ :: core :: default :: Default :: default () }", ":: derive_builder :: export :: core :: default :: Default :: default ()")


def p16(res, tier, seed, workdir):
    macrocheck.mac(); common.base(); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per, nrun, nsurf, nhist, cap = (16, 700, 20, 10, 25, 24) if tier == "quick" else (128, 1600, 30, 15, 50, 40)

    def one(c):
        r = random.Random("p16/%d/%d" % (seed, c))
        P = [pair(r, i, PROF) for i in range(per)]
        cs = []
        for a, b, k in P:
            for s in (a, b): cs.append(("s%d" % s.id, "", macrocheck.item_text(s, sp_of(s))))
        p = os.path.join(workdir, "t%d" % c)
        macrocheck.write_cases(p, cs)
        T, _ = macrocheck.texts(p)
        counts, keys, viol = {}, set(), []
        diff, same, word = [], [], []
        for a, b, k in P:
            ta, tb = T["s%d" % a.id], T["s%d" % b.id]
            if "input" in (ta, tb): return "not an item: %s" % cs[2 * (a.id // 2)][2], {}, set(), [], None
            counts["pairs: " + k] = counts.get("pairs: " + k, 0) + 1
            keys.add((k, len(a.fields), a.pattern, tuple(sorted(a.so)), tuple(sorted(b.so))))
            (same if ta == tb else word if unword(ta) == unword(tb) else diff).append((a, b, k))
        counts["identical expansions"] = len(same)
        counts["different expansions"] = len(diff) + len(word)
        r.shuffle(diff); r.shuffle(same); r.shuffle(word)
        # expansions may differ for the same behaviour (an expression in a block): behaviour decides
        by = {}
        for x in diff: by.setdefault(x[2], []).append(x)
        pick = []
        while by and len(pick) < cap:
            for k in sorted(by):
                if len(pick) < cap: pick.append(by[k].pop())
            by = {k: v for k, v in by.items() if v}
        pick += word[:max(6, cap - len(pick))]
        counts["different expansions not run"] = len(diff) + len(word) - len(pick)
        run = pick + same[:nrun]
        S = [x for a, b, k in run for x in (a, b)]
        kind = {x.id: k for a, b, k in run for x in (a, b)}
        hist = {}
        for a, b, k in run:
            A = spec.arms(a)
            hist[a.id] = hist[b.id] = [trace.gen_history(r, a, A) for _ in range(nhist)]
        ch = engine.Chunk("c%d" % c, S, hist, r.choice(["2018", "2021", "2024"]))
        try: binp, bad, log = engine.run_chunk(workdir, ch, render=lambda s: spec.render(s, sp_of(s)))
        except common.HarnessError as e: return str(e), {}, set(), [], None
        L = raw_log(log) if log else {}
        for a, b, k in run:
            files = lambda: {"a.rs": ch.prelude + ch.texts[a.id] + spec.main_fn([a]), "b.rs": ch.prelude + ch.texts[b.id] + spec.main_fn([b])}
            items = "\n%s\nis meant to equal\n%s" % (macrocheck.item_text(a, sp_of(a)), macrocheck.item_text(b, sp_of(b)))
            if (a.id in bad) != (b.id in bad):
                viol.append(("compiles:" + k, "one of two equivalent definitions (%s) does not compile:\n%s%s" % (k, "\n".join(bad.get(a.id) or bad.get(b.id))[:1500], items), files()))
                continue
            if a.id in bad:
                counts["neither compiles"] = counts.get("neither compiles", 0) + 1
                continue
            for h in range(nhist):
                x, y = L.get((a.id, h)), L.get((b.id, h))
                if x is None or y is None: return "a history was not run (%s)" % getattr(ch, "died", ""), {}, set(), [], None
                counts["histories compared"] = counts.get("histories compared", 0) + 1
                if x != y:
                    i = next((i for i, (p, q) in enumerate(zip(x.splitlines(), y.splitlines())) if p != q), 0)
                    viol.append(("behaviour:" + k, "equivalent definitions (%s) behave differently in the same history: first difference\n  %s\n  %s\nhistory %s%s" % (k, x.splitlines()[i:i + 1], y.splitlines()[i:i + 1], hist[a.id][h][:20], items),
                                 dict(files(), **{"history.txt": "".join("H %d 0\n" % s.id + "".join("O %d %d %d %d %d %d\n" % o for o in hist[a.id][h]) for s in (a, b))})))
                    break
        # what exists and who can reach it
        sub = [x for x in run if x[0].id not in bad and x[1].id not in bad]
        sub = sub[:nsurf // 2] + sub[-(nsurf - nsurf // 2):] if len(sub) > nsurf else sub
        S = [x for a, b, k in sub for x in (a, b)]
        old = surface.spec.render
        try:
            spec.render, orig = (lambda s, sp=None, **kw: orig_render(s, sp or sp_of(s), **kw)), spec.render
            bad2, lines, texts, exps = surface.run_chunk(workdir, "z%d" % c, S, "2021")
        except common.HarnessError as e: return str(e), {}, set(), [], None
        finally: spec.render = orig_render
        for a, b, k in sub:
            if a.id not in lines or b.id not in lines: continue
            x = [l.replace("m%d" % a.id, "m_").replace("p%d" % a.id, "p_").replace("x%d" % a.id, "x_") for l in lines[a.id]]
            y = [l.replace("m%d" % b.id, "m_").replace("p%d" % b.id, "p_").replace("x%d" % b.id, "x_") for l in lines[b.id]]
            # both are asked about what they share
            kx, ky = ({tuple(l.split()[:3]) if l.split()[0] in "MFT" else tuple(l.split()[:2]): l for l in z} for z in (x, y))
            d = [q for q in kx if q in ky and kx[q] != ky[q]]
            counts["surfaces compared"] = counts.get("surfaces compared", 0) + 1
            counts["probes compared"] = counts.get("probes compared", 0) + len([q for q in kx if q in ky])
            if d: viol.append(("surface:" + k, "equivalent definitions (%s) differ in what exists or is reachable:\n%s\n%s\n%s\nis meant to equal\n%s" % (k, kx[d[0]], ky[d[0]], macrocheck.item_text(a, sp_of(a)), macrocheck.item_text(b, sp_of(b))), {"a.rs": texts[a.id], "b.rs": texts[b.id]}))
        return None, counts, keys, viol, "%s\nsame as (%s)\n%s" % (macrocheck.item_text(P[0][0], sp_of(P[0][0])), P[0][2], macrocheck.item_text(P[0][1], sp_of(P[0][1])))
    errs = []
    for err, counts, keys, viol, sample in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items(): res.count(k, v)
        res.evaluations += counts.get("identical expansions", 0) + counts.get("histories compared", 0) + counts.get("surfaces compared", 0)
        res.distinct |= keys
        res.sample(sample, 3)
        for sig, msg, files in viol: res.violate(sig, msg, files)
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


orig_render = spec.render
