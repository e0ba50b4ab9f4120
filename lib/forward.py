"""P20: which attributes of the user's definition appear on which generated item."""
import os, random, re, shutil
import common, macrocheck, spec
from spec import raw

MARK = re.compile(r"mk\d+|Documentation ?of ?the ?field\.|A ?documented ?struct\.")
NEXT = [0]

# {0}: a fresh marker. Everything here is a legal attribute somewhere; the macro alone is run, so cfg is never evaluated.
META = ['allow({0})', 'allow({0}, unused)', 'cfg({0})', 'cfg(all(unix, not({0}), feature = "x"))', 'doc = "{0}"', 'doc = " {0} \\"quoted\\" \\n line"', 'doc = concat!("a", "{0}")', 'doc(alias = "{0}")', 'doc(hidden, {0})', 'serde(rename = "{0}")',
        'serde(default, skip_serializing_if = "Option::is_none", with = "{0}")', '{0}', '{0}::attr', '::{0}::a::b(x = [1, 2], "s", |y| y)', 'deprecated(note = "{0}")', 'must_use = "{0}"', 'derive({0}, Other)', 'cfg_attr({0}, allow(x))', 'warn({0})', 'expect({0})', 'r#type({0})', '{0}{{ a: 1 }}',
        '{0}[1]', 'inline({0})', 'größe({0})', '{0} = 3', '{0} = -1.5', 'doc = r#"{0} "# ', 'allow(clippy::{0})', 'allow({0}, reason = "because")', '{0}(#[inner] x)', '{0}(builder(default))', 'doc = include_str!("{0}")', 'builder_field_attr({0})', 'builder_impl_attr(doc = "{0}")']
DIRECT = ['#[%s]' % m for m in META if not m.startswith("builder_")] + ['/// {0}', '/// {0} with a longer text, `code` and "quotes"', '/** block {0} */', '/**\n * lines\n * {0}\n */', '/// {0}\n    /// next {0}', '#[doc = " {0}"]', '/// {0}', '#[allow({0})]', '#[cfg({0})]', '#[allow({0})]', '#[cfg(not({0}))]']
BARE = ['#[must_use]', '#[inline]', '#[non_exhaustive]', '#[deprecated]', '#[repr(C)]', '#[serde(flatten)]', '#[builder_nothing(x)]', '#[my::attr]', '#[warn(unused)]', '#[deny(dead_code)]']
FIELD, STRUCT = ("builder_field_attr", "builder_setter_attr"), ("builder_struct_attr", "builder_impl_attr")


def lines(r, level):
    """Further attributes for one place."""
    out = []
    own, other = (FIELD, STRUCT) if level == "field" else (STRUCT, FIELD)
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        NEXT[0] += 1
        m = "mk%d" % NEXT[0]
        k = r.random()
        if k < .55:
            l = "#[%s%s]" % (r.choice(own), r.choice(["({})", "({})", "({})", "({})", "[{}]", "{{{}}}"]).format(r.choice(META).replace("{0}", m).replace("{{", "{").replace("}}", "}")))
        elif k < .9: l = r.choice(DIRECT).replace("{0}", m).replace("{{", "{").replace("}}", "}")
        elif k < .94: l = "#[%s(%s)]" % (r.choice(other), r.choice(META).replace("{0}", m).replace("{{", "{").replace("}}", "}"))
        else: l = r.choice(BARE)
        out.append(l)
        if r.random() < .1: out.append(l)
    return out


def squash(x):
    return re.sub(r"\s+", "", x)


def want(given, keep, pass_):
    """The ordered list a destination must carry."""
    out = []
    for path, full, inner in given:
        if path in keep: out.append(squash(full))
        elif path == pass_: out.append(squash(inner))
    return out


def split(attrs):
    """(marked, others) of a generated item's attributes."""
    return [squash(a) for a in attrs if MARK.search(a)], [squash(a) for a in attrs if not MARK.search(a)]


def places(s, d):
    """Every place of an expansion that can carry attributes: [(kind, key, attrs)]"""
    b = s.builder
    setter = {}
    for f in s.fields:
        for n in (f.sname, f.tname, f.each[0] if f.each else None):
            if n: setter[raw(n)] = f.idx
    out = []
    for it in d["items"]:
        if it["k"] == "struct" and it["name"] == b:
            out.append(("struct", None, it["attrs"]))
            idx = {raw(f.name): f.idx for f in s.fields}
            for f in it["fields"]: out.append(("field", idx.get(raw(f["name"])), f["attrs"]))
            continue
        inherent = it["k"] == "impl" and it["trait"] is None and re.match(r"%s\b" % re.escape(b), it["name"])
        k = "impl" if inherent and any(raw(f["name"]) in setter for f in it["fns"]) else "impl?" if inherent else "other"
        out.append((k, None, it.get("attrs", [])))
        for f in it.get("fns", []) + it.get("fields", []):
            if inherent and raw(f["name"]) in setter: out.append(("setter", (setter[raw(f["name"])], raw(f["name"])), f["attrs"]))
            else: out.append(("other", None, f["attrs"]))
        if it["k"] == "other": out.append(("other", None, [it["text"]]))
    inh = [j for j, x in enumerate(out) if x[0] in ("impl", "impl?")]
    if len(inh) == 1: out[inh[0]] = ("impl", None, out[inh[0]][2])
    return out, setter


def p20(res, tier, seed, workdir):
    macrocheck.mac()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per = (16, 450) if tier == "quick" else (160, 1500)
    prof = dict(f_each=.3, s_try=.3, f_try=.3, f_skip=.12, s_skip=.12, f_custom=.12, s_prefix=.15, f_name=.15, derives=.5, docs=.3, vis=.2, bfskip=.1, cctor=.15, p_fpat=.15, f_cty=.15, f_build=.1, p_generic=.2, nf=[1, 2, 3, 4, 5], spell=.5)

    def one(c):
        r = random.Random("p20/%d/%d" % (seed, c))
        S, cs = {}, []
        for i in range(per):
            s = spec.gen_spec(r, i, prof)
            fx = {f.idx: lines(r, "field") for f in s.fields}
            sx = lines(r, "struct")
            S[i] = s
            cs.append(("b%d" % i, "a", macrocheck.item_text(s)))
            t = spec.render_item(s, spec.Sp(s.seed, s.sp), fextra=fx, sextra=sx)
            cs.append(("x%d" % i, r.choice(["a", "ag"]), t))
        try: f = macrocheck.facts(workdir, "c%d" % c, cs)
        except common.HarnessError as e: return str(e), {}, set(), [], []
        counts, keys, viol = {}, set(), []
        for i, s in S.items():
            b, x, t = f["b%d" % i], f["x%d" % i], cs[2 * i + 1][2]
            if "input" in b or "input" in x: return "the generator wrote something that is not an item: %s\n%s" % (x.get("input"), t), {}, set(), [], []

            def bad(rule, msg): viol.append((rule, msg, t))
            if "items" not in b or b.get("errors"): continue   # not this property's business
            if "items" not in x or x.get("errors"):
                bad("rejected", "legal attributes make the derive fail: %s" % (x.get("errors") or x.get("bad") or x.get("panic") or x.get("died")))
                continue
            g = x["given"]
            pb, _ = places(s, b)
            px, setter = places(s, x)
            W = {"struct": want(g["attrs"], ("allow", "cfg"), "builder_struct_attr"), "impl": want(g["attrs"], ("allow", "cfg"), "builder_impl_attr")}
            WF = {f_.idx: want(g["fields"][f_.idx], ("doc", "allow", "cfg"), "builder_field_attr") for f_ in s.fields}
            WS = {f_.idx: want(g["fields"][f_.idx], ("doc", "allow", "cfg"), "builder_setter_attr") for f_ in s.fields}
            # attributes without a marker that the user gave may legally be passed through too
            seen = set()
            for j, (k, key, at) in enumerate(px):
                m, rest = split(at)
                if k in ("struct", "impl"): exp = W[k]
                elif k == "field": exp = WF.get(key)
                elif k == "setter": exp = WS[key[0]]
                else: exp = []
                seen.add((k, key))
                counts[k] = counts.get(k, 0) + 1
                full = [a for a in exp if MARK.search(a)]
                if full or k == "other": keys.add((k, len(exp), hash(tuple(re.sub(r"\d+", "", a) for a in exp))))
                if exp is None: continue
                if k == "impl?" and not full: continue
                if k == "impl?":
                    if m and m != [a for a in W["impl"] if MARK.search(a)]: bad("forward.impl", "a second inherent impl carries %s" % m)
                    continue
                what = {"struct": "the builder struct", "impl": "the inherent impl", "field": "the builder field of `%s`" % (s.fields[key].name if k == "field" and key is not None else ""), "setter": "the setter `%s` of field `%s`" % (key[1], s.fields[key[0]].name) if k == "setter" else "", "other": "another generated item"}[k]
                if m != full: bad("forward." + k, "%s carries %s\nexpected exactly   %s" % (what, m, full))
                elif k == "struct":
                    der = [q for q, a in enumerate(at) if squash(a).startswith("derive(") and not MARK.search(a)]
                    first = [q for q, a in enumerate(at) if MARK.search(a) and any(squash(a) == w for w in want([y for y in g["attrs"] if y[0] == "builder_struct_attr"], (), "builder_struct_attr"))]
                    if der and first and min(first) < max(der): bad("forward.order", "attributes of the builder struct come before its derives: %s" % at)
                # what the user gave without a marker must not change the rest
                if len(px) == len(pb):
                    k2, key2, at2 = pb[j]
                    un = [a for a in exp if not MARK.search(a)]
                    base = split(at2)[1]
                    if (k2, key2) == (k, key) and sorted(rest) != sorted(base + un): bad("forward.extra", "%s carries further attributes %s\nwithout the user's attributes: %s, given: %s" % (what, rest, base, un))
            for f_ in s.fields:
                if ("field", f_.idx) not in seen and any("item" in a for a in ()): pass
                for nm in (f_.sname, f_.tname, f_.each[0] if f_.each else None):
                    if nm and ("setter", (f_.idx, raw(nm))) not in seen: bad("forward.missing", "no setter `%s` found" % nm)
                if ("field", f_.idx) not in seen: bad("forward.missing", "no builder field `%s` found" % f_.name)
            if ("struct", None) not in seen: bad("forward.missing", "no builder struct found")
            if ("impl", None) not in seen and setter: bad("forward.missing", "no inherent impl found")
        return None, counts, keys, viol, [cs[1][2]]
    errs = []
    for err, counts, keys, viol, samples in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        res.count("definitions", per)
        for k, v in counts.items():
            res.evaluations += v
            res.count("destinations:" + k, v)
        res.distinct |= keys
        for x in samples: res.sample(x[:1500], 3)
        for sig, msg, t in viol: res.violate(sig, "%s\n\ninput:\n%s" % (msg, t[:4000]), {"input.rs": t, "case.txt": "@@ 0 at\n" + t})
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:2000])
