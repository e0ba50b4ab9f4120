"""P10 and P11 on the macro's output itself: every generated item, field and method with its visibility.

What no probe can reach (methods of types that cannot be named there) and what nobody thought of probing shows here."""
import os, random, re, shutil
import common, macrocheck, spec, surface
from spec import raw


def reach(vis):
    """Where an item with this written visibility can be named."""
    v = re.sub(r"\s+", "", vis)
    v = {"pub(inself)": "pub(self)", "crate": "pub(crate)"}.get(v, v)
    try: return frozenset(surface.scope(v))
    except KeyError: return v


def want(s):
    """{(kind, name): reach} of everything that has to be there, and what a field's builder field has to be reachable from."""
    M, absent, fields, types = surface.surface(s)
    return ({raw(n): frozenset(x[0]) for n, x in M.items()}, {raw(n): (frozenset(x[0])) for n, x in fields.items()}, {n: frozenset(x) for n, x in types.items()}, {raw(n) for n in absent})


def judge(s, d, report, seen):
    M, F, T, absent = want(s)
    seen_m, seen_t = {}, {}
    so = s.so
    sig = lambda f: (so.get("vis"), s.vis, so.get("field"), str(so.get("build_fn", {}).get("vis")), f and (f.fo.get("vis"), str(f.fo.get("field")), f.enabled, bool(f.tname), bool(f.each)))
    byname = {}
    for f in s.fields:
        for n in (f.name, f.sname, f.tname, f.each[0] if f.each else None):
            if n: byname[raw(n)] = f
    for it in d["items"]:
        if it["k"] in ("struct", "enum"):
            n = raw(it["name"])
            seen_t[n] = reach(it["vis"])
            if it["k"] == "struct" and n == raw(s.builder):
                got = {raw(f["name"]): reach(f["vis"]) for f in it["fields"]}
                for n, w in F.items():
                    seen("vis.field", (n in got and sorted(got[n])), sig(byname.get(n)))
                    if n not in got: report("presence.field", n, "the builder has no field `%s`" % n)
                    elif got[n] != w: report("vis.field", n, "builder field `%s` is reachable from %s, expected %s" % (n, sorted(got[n]), sorted(w)))
                for n in set(got) - set(F): report("presence.field", n, "the builder has a field `%s` of no field of the struct" % n)
        elif it["k"] == "impl" and it["trait"] is None and re.match(r"%s\b" % re.escape(s.builder), it["name"]):
            for f in it["fns"]: seen_m[raw(f["name"])] = reach(f["vis"])
    for n, w in M.items():
        seen("vis.method", (sorted(w)), sig(byname.get(n)))
        if n not in seen_m: report("presence.method", n, "no method `%s` is generated" % n)
        elif seen_m[n] != w: report("vis.method", n, "method `%s` is reachable from %s, expected %s" % (n, seen_m[n] if isinstance(seen_m[n], str) else sorted(seen_m[n]), sorted(w)))
    for n, v in seen_m.items():
        seen("presence.method", (n in M, v), sig(byname.get(n)))
        # a private helper is nobody's business
        if n not in M and (n in absent or v != reach("")): report("presence.extra", n, "a method `%s` is generated that nothing asks for" % n)
    for n, w in T.items():
        n = raw(n)
        seen("vis.type", (sorted(w)), sig(None))
        if n not in seen_t: report("presence.type", n, "no type `%s` is generated" % n)
        elif seen_t[n] != w: report("vis.type", n, "type `%s` is reachable from %s, expected %s" % (n, sorted(seen_t[n]), sorted(w)))
    for n, v in seen_t.items():
        seen("presence.type", n in T, sig(None))
        if n not in {raw(x) for x in T} and v != reach("") and not (s.bfskip and n == raw(s.errty)): report("presence.extra", n, "a type `%s` is generated that nothing asks for" % n)


def explore(res, tier, seed, accept, profile):
    workdir = os.path.join(common.BUILD, "t-" + res.prop)
    macrocheck.mac()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per = (8, 500) if tier == "quick" else (80, 1500)

    def one(c):
        r = random.Random("tokens/%s/%d/%d" % (res.prop, seed, c))
        S = [spec.gen_spec(r, i, profile) for i in range(per)]
        cs = [("k%d" % s.id, r.choice(["", "g"]), macrocheck.item_text(s)) for s in S]
        try: f = macrocheck.facts(workdir, "c%d" % c, cs)
        except common.HarnessError as e: return str(e), {}, set(), []
        counts, keys, viol = {}, set(), []
        for s, (i, fl, t) in zip(S, cs):
            d = f[i]
            if "items" not in d or d.get("errors"): continue   # rejected: not this property's business

            def seen(k, a, b):
                counts[k] = counts.get(k, 0) + 1
                keys.add(hash((k, str(a), b)))
            judge(s, d, lambda k, n, m, t=t: viol.append((k, n, m, t)), seen)
        return None, counts, keys, viol
    errs = []
    for err, counts, keys, viol in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        res.count("expanded_definitions", per)
        for k, v in counts.items():
            if accept(k):
                res.evaluations += v
                res.count("tokens:" + k, v)
        res.distinct |= keys
        for k, nm, m, t in viol:
            if accept(k): res.violate("tokens.%s:%s" % (k, nm), "%s\n\ninput:\n%s" % (m, t[:3000]), {"input.rs": t})
    shutil.rmtree(workdir, ignore_errors=True)
    return errs
