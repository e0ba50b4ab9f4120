"""Engine B: what of the generated API exists and is reachable, read at run time from five vantage points.

Probes never fail to compile because something is absent or private: a same-named fallback (blanket trait
method, Deref target field, outer glob import) takes over and the probe prints which of the two it reached."""
import os, random, shutil
import common, build, spec, tys
from spec import raw, generics
from tys import crust, rust, inst
from common import HarnessError

AMBIG = {"clone", "default", "into", "from", "try_from", "try_into", "to_string", "to_owned", "eq", "ne", "fmt", "hash", "cmp", "extend", "borrow",
         "borrow_mut", "type_id", "as_ref", "clone_from", "clone_into", "partial_cmp", "lt", "le", "gt", "ge", "deref", "drop", "mk", "obs", "max", "min", "clamp", "check"}
V = ["same", "child", "parent", "sibling", "root", "crate"]


def scope(vis):
    """Vantage points at which an item of this visibility, declared in par::mN, is reachable."""
    v = {"public": "pub", "private": "", None: ""}.get(vis, vis).replace(" ", "")
    if v == "pub": return set(V)
    if v in ("pub(crate)", "pub(incrate)"): return {"same", "child", "parent", "sibling", "root"}
    if v in ("pub(super)", "pub(incrate::par)", "pub(insuper)"): return {"same", "child", "parent", "sibling"}
    if v in ("", "pub(self)"): return {"same", "child"}
    raise KeyError(vis)


def item_type(t):
    """An item type for an each-setter on t."""
    k = t[0]
    if k in ("vec", "deq", "coll"): return crust(t[1])
    if k == "map": return "(i64, %s)" % crust(t[1])
    if k == "str": return "String"


def surface(s):
    """Expected surface: methods {name: (scope, turbofish, what)}, fields {name: (scope, type or None)}, types."""
    so = s.so
    bvis = so.get("vis", s.vis)
    M, absent = {}, set()
    sset = so.get("setter", {})
    for f in s.fields:
        fset = f.fo.get("setter", {}) if isinstance(f.fo.get("setter", {}), dict) else {}
        vis = f.fo.get("vis", so.get("vis", "pub"))
        cand = {f.name, raw(f.name)} if not f.name.startswith("r#") else {f.name}
        for p in (sset.get("prefix"), fset.get("prefix")):
            if p: cand.add("%s_%s" % (raw(p), raw(f.name)))
        if fset.get("name"): cand.add(fset["name"])
        if sset.get("prefix") and fset.get("name"): cand.add("%s_%s" % (raw(sset["prefix"]), raw(fset["name"])))
        absent |= cand | {"try_" + raw(c) for c in cand} | {"set_" + raw(f.name), "with_" + raw(f.name), "add_" + raw(f.name), "push_" + raw(f.name)}
        if fset.get("each"): absent.add(fset["each"][0])
        if f.setter:
            if tys_known(f): turbo = "::<%s>" % crust(f.cpt) if f.into else ""
            else: turbo = None
            M[f.sname] = (scope(vis), turbo, "setter of %s" % f.name)
            if f.tname: M[f.tname] = (scope(vis), "::<%s>" % crust(f.cpt), "fallible setter of %s" % f.name)
            if f.each:
                it = item_type(inst(f.pt, s.env))
                M[f.each[0]] = (scope(vis), "::<%s>" % it if not f.each[1] else "::<%s, %s>" % (it, it), "each-setter of %s" % f.name)
    bf = so.get("build_fn", {})
    absent |= {"build", "create_empty", "try_build", "new", "builder", "validate"}
    if not s.bfskip: M[s.buildname] = (scope(bf.get("vis", bvis)), "", "build method")
    else: absent.add(s.buildname)
    M[s.cempty] = (scope("private"), "", "empty constructor")
    absent -= set(M)
    absent = {a for a in absent if raw(a) not in {raw(m) for m in M}}
    fields = {}
    for f in s.fields:
        ff = f.fo.get("field", {})
        vis = ff.get("vis", "private" if not f.enabled else so.get("field", "private"))
        fields[f.name] = (scope(vis), crust(f.cbt) if f.enabled else None)
    types = {s.builder: scope(bvis)}
    if s.err != "custom" and not s.bfskip: types[s.errty] = scope(bvis)
    return M, absent, fields, types


def hidden(s, n, at):
    """The build method's return type names the target struct, which may be less visible than the builder."""
    return n == s.buildname and not s.bfskip and at not in scope(s.vis)


def tys_known(f):
    return True


def probe_body(s, at, path, M, absent, fields, types, tonly=False):
    """Statements printing one line per probe; `path` leads from the vantage point to par::mN.

    Where the builder type itself is not reachable no value of it can be handled: only names are probed."""
    tonly = tonly or at not in types[s.builder]
    gd, ga, gw, gc, gdn = generics(s)
    o = []
    B = path + "::Al"
    # methods
    fb = []
    for n in sorted(M) if not tonly else ():
        if raw(n) in AMBIG or hidden(s, n, at): continue
        turbo = M[n][1]
        vis = at in M[n][0]
        k = turbo.count(",") + 1 if (turbo and vis) else 0
        if vis and turbo:
            # number of top-level type arguments
            k = len(tys.split_top(turbo[3:-1].replace("<", "(").replace(">", ")").replace("->", "-")))
        fb.append("fn %s%s() {}" % (n, "<%s>" % ", ".join("X%d" % i for i in range(k)) if k else ""))
        o.append('println!("M %s %s {}", ::rt::tnr(&<%s>::%s%s));' % (at, n, B, n, turbo if vis else ""))
    for n in sorted(absent) if not tonly else ():
        if raw(n) in AMBIG or n == "_": continue
        fb.append("fn %s() {}" % n)
        o.append('println!("M %s %s {}", ::rt::tnr(&<%s>::%s));' % (at, n, B, n))
    pre = "trait Fb: Sized { %s } impl<T> Fb for T {}\n" % " ".join(fb)
    # fields
    if not tonly: o.append("let b = %s::mk_al();" % path)
    for n in fields if not tonly else ():
        o.append('println!("F %s %s {}", ::rt::tnr(&b.%s));' % (at, n, n))
    # types
    tp = []
    for n in sorted(types):
        has = bool(gc) and n == s.builder
        o.append('{ use fbt::*; { use %s::*; println!("T %s %s {}", ::std::any::type_name::<%s>()); } }' % (path, at, n, n + (gc if has else "")))
        if has:
            ph = []
            for p in s.params:
                if p.startswith("'"): ph.append("&%s ()" % p)
                elif p in ("T", "U"): ph.append(p)
            pd = ", ".join("::std::marker::PhantomData<%s>" % x for x in ph)
            g2 = "<%s>" % ", ".join([p for p in s.params if p.startswith("'")] + [p for p in s.params if p in ("T", "U")] + ["const K: usize" for p in s.params if p == "K"])
            tp.append("pub struct %s%s(%s);" % (n, g2, pd))
        else: tp.append("pub struct %s;" % n)
    pre += "mod fbt { %s }\n" % " ".join(tp)
    return pre, o


def render(s, tonly=False):
    M, absent, fields, types = surface(s)
    gd, ga, gw, gc, gdn = generics(s)
    fb = " ".join("pub %s: ::rt::Absent," % f.name for f in s.fields)
    ini = " ".join("%s: ::rt::Absent," % f.name for f in s.fields)
    implg = "impl%s ::std::ops::Deref for %s%s%s { type Target = FbF; fn deref(&self) -> &FbF { static X: FbF = FbF { %s }; &X } }" % (gdn, s.builder, ga, gw, ini)
    ex = "    pub struct FbF { %s }\n    %s\n    pub type Al = %s;\n    pub fn mk_al() -> Al { Al::%s() }\n" % (fb, implg, s.builder + gc, s.cempty)

    def fn(at, path, where=""):
        pre, o = probe_body(s, at, path, M, absent, fields, types, tonly)
        return "pub fn pr_%s() {\nuse ::rt::*;\n%s%s\n}\n" % (at, pre, "\n".join(o))
    # trait probes, in the same module
    tr = []
    for t in ("Clone", "::std::default::Default", "::std::fmt::Debug", "PartialEq", "Eq", "::std::hash::Hash", "PartialOrd", "Copy", "::std::fmt::Display", "Iterator"):
        tr.append('println!("I %s {}", ::rt::impls!(Al: %s));' % (t.split(":")[-1], t))
    if s.err != "custom" and not s.bfskip:
        e = s.errty
        for lab, t in (("Error", "::std::error::Error"), ("Debug", "::std::fmt::Debug"), ("Display", "::std::fmt::Display"), ("FromString", "From<String>"),
                       ("FromUFE", "From<::derive_builder::UninitializedFieldError>"), ("SendSync", "Send + Sync + 'static"), ("IntoBoxError", "Into<Box<dyn ::std::error::Error + Send + Sync>>")):
            tr.append('println!("X %s {}", ::rt::impls!(%s: %s));' % (lab, e, t))
    ex += "    pub fn traits() {\n        %s\n    }\n" % "\n        ".join(tr)
    ex += fn("same", "self") + "pub mod child { use super::*;\n" + fn("child", "super") + "}\n"
    mod = spec.render(s, driver=False, extra=ex)
    m = "m%d" % s.id
    inner = "pub mod p%d { pub mod par {\n%s\npub mod sib {\n%s}\n%s}\npub mod rootmod {\n%s}\npub fn all() { par::%s::pr_same(); par::%s::child::pr_child(); par::pr_parent(); par::sib::pr_sibling(); rootmod::pr_root(); par::%s::traits(); }\n}\n" % (
        s.id, mod, fn("sibling", "super::" + m), fn("parent", m), fn("root", "super::par::" + m), m, m, m)
    # pub(crate)/pub(super) are relative to the real crate and module tree: par is mN's parent
    ext = "pub mod x%d {\n%s}\n" % (s.id, fn("crate", "::%%LIB%%::p%d::par::%s" % (s.id, m)))
    return inner, ext, (M, absent, fields, types)


def expected(s, exp, tonly=False):
    """{(kind, vantage, name): predicate description}"""
    M, absent, fields, types = exp
    r = {}
    for at in V:
        if tonly or at not in types[s.builder]:
            for n, sc in types.items():
                r[("T", at, n)] = ("real" if at in sc else "fallback", "type")
            continue
        for n, (sc, turbo, what) in M.items():
            if raw(n) not in AMBIG and not hidden(s, n, at): r[("M", at, n)] = ("real" if at in sc else "fallback", what)
        for n in absent:
            if raw(n) not in AMBIG and n != "_": r[("M", at, n)] = ("fallback", "absent method")
        for n, (sc, t) in fields.items():
            r[("F", at, n)] = ("real" if at in sc else "fallback", "builder field")
        for n, sc in types.items():
            r[("T", at, n)] = ("real" if at in sc else "fallback", "type")
    return r


def run_chunk(workdir, name, specs, edition, tonly=False):
    """Returns ({sid: compile errors}, {sid: [probe lines]}, {sid: text})."""
    texts, exts, exps, bad = {}, {}, {}, {}
    for s in specs: texts[s.id], exts[s.id], exps[s.id] = render(s, tonly)
    cur = list(specs)
    lib = os.path.join(workdir, "lib%s.rlib" % name)
    for _ in range(6):
        src = os.path.join(workdir, name + ".rs")
        ranges = build.write_chunk(src, spec.PRELUDE, [(s.id, texts[s.id]) for s in cur], "")
        r = common.run(build.rustc_cmd(src, lib, edition, crate_type="rlib", extra=("--cap-lints", "allow", "--crate-name", name)), timeout=500)
        if r.returncode == 0: break
        new = build.errors_by_module(r.stderr, name + ".rs", ranges)
        for k, v in new.items(): bad.setdefault(k, []).extend(v)
        cur = [s for s in cur if s.id not in new]
        if not cur: return bad, {}, texts, exps
    else: raise HarnessError("surface chunk does not settle")
    out = os.path.join(workdir, name + ".bin")
    for _ in range(6):
        if not cur: return bad, {}, texts, exps
        main = "fn main() { %s }\n" % " ".join('println!("S %d"); %s::p%d::all(); x%d::pr_crate();' % (s.id, name, s.id, s.id) for s in cur)
        src = os.path.join(workdir, name + "x.rs")
        ranges = build.write_chunk(src, "#![allow(warnings)]\n#[macro_use] extern crate rt;\nextern crate %s;\nuse rt::*;\n" % name,
                                   [(s.id, exts[s.id].replace("pub mod x%d {\n" % s.id, "pub mod x%d {\nuse rt::*;\n" % s.id).replace("%LIB%", name)) for s in cur], main)
        r = common.run(build.rustc_cmd(src, out, edition, extra=("--cap-lints", "allow", "--extern", "%s=%s" % (name, lib))), timeout=500)
        if r.returncode == 0: break
        new = build.errors_by_module(r.stderr, name + "x.rs", ranges)
        for k, v in new.items(): bad.setdefault(k, []).extend(v)
        cur = [s for s in cur if s.id not in new]
    else: raise HarnessError("surface chunk does not settle")
    r = common.run([out], timeout=120)
    lines, sid = {}, None
    for l in r.stdout.splitlines():
        if l.startswith("S "):
            sid = int(l[2:])
            lines[sid] = []
        elif sid is not None: lines[sid].append(l)
    for p in (out, lib):
        if os.path.exists(p): os.remove(p)
    return bad, lines, texts, exps


def judge(s, lines, exp, report, seen, tonly=False):
    want = expected(s, exp, tonly)
    got = {}
    M, absent, fields, types = exp
    for l in lines:
        w = l.split(" ", 3)
        if w[0] in ("M", "F", "T"): got[(w[0], w[1], w[2])] = w[3]
        elif w[0] in ("I", "X"): got[(w[0], w[1])] = w[2] == "true"
    for key, (exp_, what) in want.items():
        if key not in got:
            report("surface.nolog", None, "no probe output for %s" % (key,))
            continue
        t = got[key]
        k, at, n = key
        if k == "M": real = "Fb" not in t.split("::") and " as " not in t
        elif k == "F": real = t != "rt::Absent"
        else: real = "::fbt::" not in t
        kind = ("vis." if n in M or k != "M" else "presence.") + {"M": "method", "F": "field", "T": "type"}[k]
        if k == "M" and n in M and at == "same": kind = "presence.method"
        if k == "T" and at == "same": kind = "presence.type"
        seen(kind, (at, exp_, what.split(" of ")[0], key_sig(s, n, k)))
        if real != (exp_ == "real"):
            report(kind, n, "%s %s seen from %s: expected %s, reached `%s`" % (what, n, at, "reachable" if exp_ == "real" else "not reachable", t))
    so = s.so
    der = set(so.get("derive", []))
    wantI = {"Clone": s.has_clone, "Default": not so.get("custom_constructor") or "Default" in der, "Debug": "Debug" in der, "PartialEq": "PartialEq" in der,
             "Eq": False, "Hash": False, "PartialOrd": False, "Copy": False, "Display": False, "Iterator": False}
    for k, v in wantI.items():
        g = got.get(("I", k))
        seen("trait.builder", (k, v, s.pattern, tuple(sorted(der)), bool(s.params)))
        if g != v: report("trait.builder", k, "builder %s %s, expected %s" % (k, g, v))
    if s.err != "custom" and not s.bfskip:
        wantX = {"Error": not so.get("no_std"), "Debug": True, "Display": True, "FromString": s.err != "noval", "FromUFE": True, "SendSync": True, "IntoBoxError": not so.get("no_std")}
        for k, v in wantX.items():
            g = got.get(("X", k))
            seen("trait.error", (k, v, s.err))
            if g != v: report("trait.error", k, "error type %s %s, expected %s" % (k, g, v))


def key_sig(s, n, k):
    f = [f for f in s.fields if n in (f.name, f.sname, f.tname)]
    f = f[0] if f else None
    so = s.so
    if f is None: return (so.get("vis"), s.vis, str(so.get("build_fn")))
    return (so.get("vis"), s.vis, f.fo.get("vis"), str(f.fo.get("field")), so.get("field"), str(f.fo.get("setter")), str(so.get("setter")), f.enabled, f.setter, bool(f.tname))


def explore(res, workdir, prof, nchunks, per_chunk, accept, seed, relevant=None):
    common.base(); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)

    def one(c):
        r = random.Random("surface/%s/%d/%d" % (res.prop, seed, c))
        specs = [spec.gen_spec(r, c * 1000 + i, prof) for i in range(per_chunk)]
        ed = r.choice(["2018", "2021", "2024"])
        out, counts, keys = [], {}, {}
        try:
            bad, lines, texts, exps = run_chunk(workdir, "sc%d" % c, specs, ed)
        except HarnessError as e:
            return [], {}, {}, {}, str(e), []

        def seen(kind, key):
            counts[kind] = counts.get(kind, 0) + 1
            keys.setdefault(kind, set()).add(hash((kind, key)))
        # what does not compile may be a type out of reach: ask for the names alone
        again = [s for s in specs if s.id in bad]
        if again:
            try:
                bad2, lines2, texts2, exps2 = run_chunk(workdir, "sr%d" % c, again, ed, True)
            except HarnessError as e:
                return [], {}, {}, {}, str(e), []
            for s in again:
                if s.id in lines2: judge(s, lines2[s.id], exps2[s.id], lambda k, n, m, s=s: out.append((k, s.id, n, m, texts2[s.id])), seen, True)
        for s in specs:
            if s.id in bad:
                out.append(("compile", s.id, "", "does not compile (edition %s):\n%s" % (ed, "\n".join(bad[s.id])[:3000]), texts[s.id]))
            elif s.id in lines:
                judge(s, lines[s.id], exps[s.id], lambda k, n, m, s=s: out.append((k, s.id, n, m, texts[s.id])), seen)
            else: out.append(("crash", s.id, "", "probe process died", texts[s.id]))
        return out, counts, keys, texts, None, [s.id for s in specs]
    errs = []
    for out, counts, keys, texts, err, ids in common.fork_map(one, range(nchunks)):
        if err:
            errs.append(err)
            continue
        res.count("probed_definitions", len(ids))
        for k, v in counts.items():
            if accept(k, ""):
                res.evaluations += v
                res.count("probes:" + k, v)
        for k, v in keys.items():
            if accept(k, ""): res.distinct |= v
        if ids and len(res.samples) < 2: res.sample({"probed": spec_head(texts[ids[0]])})
        for kind, sid, n, msg, text in out:
            if not accept(kind, msg): 
                res.count("other_deviations")
                continue
            res.violate("%s:%s" % (kind, n or ""), "%s\n(spec %d)" % (msg, sid), {"module.rs": spec.PRELUDE + text})
    return errs


def spec_head(t):
    i = t.find("#[derive(::derive_builder")
    return t[i:i + 1200]
