"""P21 and P22: the same definition in different surroundings, editions and feature sets.

P21 runs every definition twice, plainly and in a hostile environment (crate renamed or reached through a facade, no_std, inside a
function, shadowed names, user methods and traits in the way, ...) through the same histories: the logs must agree, and what compiles
plainly must compile there.  P22 compiles definitions with all lints denied in every edition and feature set and compares the logs."""
import json, os, random, re, shutil
import build, common, engine, meta, spec, trace
from common import HarnessError

# ------------------------------------------------------------------------------------------ text of a module in its environment
FULL = [(r"Option(?=\s*<|::)", "::core::option::Option"), (r"Result(?=\s*<|::)", "::core::result::Result"), (r"Vec(?=\s*<|::)", "::rt::s::vec::Vec"),
        (r"Box(?=\s*<|::)", "::rt::s::boxed::Box"), (r"String\b(?!\()", "::rt::s::string::String"), (r"From(?=\s*<|::)", "::core::convert::From"),
        (r"Into(?=\s*<|::)", "::core::convert::Into"), (r"Clone(?=>::clone)", "::core::clone::Clone")]
FULL = [(re.compile(r"(?<![\w:$#'])" + a), b) for a, b in FULL]


def absolute(t):
    """Spell prelude and std names in our own text by full paths that no user item can shadow and that work without std."""
    t = re.sub(r"(?<![\w:$])(std|core)::option::Option", "::core::option::Option", t)
    for a, b in FULL: t = a.sub(b, t)
    t = t.replace("::std::", "::rt::s::").replace("::rt::s::option::Option", "::core::option::Option")
    t = re.sub(r"(?<![\w:])(format|vec)!", r"::rt::s::\1!", t)
    return t


SHADOW = ["Option", "Result", "String", "Vec", "Box", "Into", "From", "TryInto", "TryFrom", "Default", "Clone", "Extend", "Iterator", "IntoIterator", "Debug", "Display", "Error", "Formatter", "Send", "Sync",
          "Copy", "Drop", "Fn", "FnMut", "FnOnce", "PartialEq", "Eq", "Ord", "AsRef", "AsMut", "PhantomData", "UninitializedFieldError", "Builder", "Sized", "ToOwned", "Hash", "Target", "Item", "Output", "Setter"]
MODS = ["core", "alloc", "export", "derive_builder", "option", "result", "convert", "clone", "string", "default", "marker", "fmt", "builder", "proc_macro"]
FNS = ["drop", "from", "into", "try_into", "clone", "default", "extend", "build", "create_empty", "field_name", "get_or_insert_with", "fmt", "unwrap"]
BLANKET = ["extend", "get_or_insert_with", "get_or_insert", "clone", "default", "field_name", "fmt", "as_ref", "as_mut", "take", "insert", "unwrap", "unwrap_or_else", "ok_or", "map", "build", "create_empty", "replace", "expect", "iter", "push", "to_owned", "cloned", "new", "validate"]


def shadows(r, s, taken):
    out = []
    for n in r.sample(SHADOW, r.choice([3, 8, 20, len(SHADOW)])):
        if n in taken: continue
        k = r.choice(["struct %s;", "struct %s<T>(T);", "trait %s {}", "type %s = ();", "enum %s { A }", "mod %s {}", "trait %s<T> { fn wrong(&self) {} }", "struct %s { x: u8 }"])
        out.append("    #[allow(dead_code)] pub " + k % n)
    for n in r.sample(MODS, r.choice([0, 2, len(MODS)])):
        if n not in taken: out.append("    #[allow(dead_code)] pub mod %s { pub struct Wrong; pub mod core { pub mod option {} } }" % n)
    for n in r.sample(FNS, r.choice([0, 2, 6])):
        out.append("    #[allow(dead_code)] pub fn %s() { ::core::panic!(\"the user's function %s was called\") }" % (n, n))
    return out


def blanket(r, taken):
    ms = [m for m in r.sample(BLANKET, r.choice([2, 6, len(BLANKET)])) if m not in taken]
    recv = r.choice(["self", "&self", "&mut self"])
    # the generated error type calls `s.field_name()` (a known finding, see FIXED)
    if recv == "self": ms = [m for m in ms if m != "field_name"]
    sized = " where Self: ::core::marker::Sized" if recv == "self" else ""
    ms = "".join("        fn %s(%s)%s { ::core::panic!(\"the user's trait method %s was called\") }\n" % (m, recv, sized, m) for m in ms)
    return ["    #[allow(dead_code)] pub trait Intruder {\n%s    }\n    impl<T: ?::core::marker::Sized> Intruder for T {}" % ms]


def inherent(r, s, taken):
    """Inherent methods of the user on the builder and on the struct."""
    gd, ga, gw, gc, gdn = spec.generics(s)
    bs = [m for m in r.sample(["into", "try_into", "extend", "from", "take", "unwrap", "as_ref", "fmt", "eq", "to_owned", "borrow", "get", "value", "new", "default", "create", "clone", "clone_from"], 8) if m not in taken]
    ps = r.sample(["clone", "default", "from", "into", "build", "builder", "new", "create_empty"], 5)
    f = lambda m: "        #[allow(dead_code)] fn %s(&self, _: i8) { ::core::panic!(\"the user's method %s was called\") }\n" % (m, m)
    gdn, gw = absolute(gdn), absolute(gw)
    return ["    impl%s %s%s%s {\n%s    }" % (gdn, s.builder, ga, gw, "".join(map(f, bs))), "    impl%s %s%s%s {\n%s    }" % (gdn, s.name, ga, gw, "".join(map(f, ps)))]


# user functions used in default and build expressions, named like the locals the expansion might have
LOCALS = ["value", "new", "item", "converted", "error", "e", "s", "f", "field", "result", "builder", "fields", "target", "some", "inner", "opt", "this", "out", "ret", "val", "current", "name", "default_value", "init", "default", "validate", "uninitialized", "k", "v", "it", "built", "inner_value", "tmp", "this_", "obj"]
RTFNS = ["df", "dfr", "dfs", "dfp", "bl", "blr", "bls", "ob"]
MACROS = ["vec", "format", "panic", "matches", "assert", "unreachable", "todo", "unimplemented", "concat", "stringify", "println", "debug_assert", "cfg", "compile_error", "assert_eq", "env", "include", "line", "format_args", "writeln", "print", "eprintln",
          "assert_ne", "option_env", "module_path", "thread_local", "dbg", "setter", "default", "build", "builder", "Builder", "Option", "Default"]


def locals_(r, t, body):
    """The body with its definition's expressions calling functions through other names, and the imports they need."""
    names = [n for n in LOCALS if n not in re.findall(r"(?:fn|struct|const|static|use|as) (?:r#)?(\w+)", t) and n not in FNS]
    uses, out = [], []
    ren = {}
    for l in body.split("\n"):
        if "#[builder(" in l:
            for f in RTFNS:
                if not re.search(r"(?<![\w:.])%s\(" % f, l): continue
                if f not in ren:
                    loc = set(re.findall(r"let (\w+)|\|(\w+)\||(?:Ok|Err)\((\w+)\) =>", body)) 
                    loc = {x for y in loc for x in y}
                    ren[f] = r.choice([n for n in names if n not in ren.values() and n not in loc])
                    uses.append("    use ::rt::%s as %s;" % (f, ren[f]))
                l = re.sub(r"(?<![\w:.])%s\(" % f, ren[f] + "(", l)
        out.append(l)
    return "\n".join(out), uses


FACADE = """pub extern crate derive_builder as db;
pub use db::Builder as DeriveBuilder;
#[macro_export] macro_rules! derived { ($($t:tt)*) => { #[derive($crate::db::Builder)] #[builder(crate = $crate::db)] $($t)* } }
#[macro_export] macro_rules! derived_last { ($(#[$m:meta])* $v:vis struct $($t:tt)*) => { $(#[$m])* #[builder(crate = $crate::db)] #[derive($crate::DeriveBuilder)] $v struct $($t)* } }
#[macro_export] macro_rules! derived_twice { ($($t:tt)*) => { $crate::derived! { $($t)* } } }
"""


def wrapped(r, t, how, derive):
    """The rendered text with the derived struct passing through a macro, so that its tokens come from different places."""
    m = re.search(r"    #\[derive\(@@\)\]\n((?:[^\n]*\n)*?)(    [^\n]*?\bstruct \w.*?\n    \}\n)", "\n" + t, re.S)
    if not m: raise HarnessError("struct not found in\n" + t)
    t = "\n" + t
    attrs, item = m.group(1), m.group(2)
    if attrs.strip() == "": attrs = ""
    if how == "derive in a macro": new = "    macro_rules! wrap { ($($t:tt)*) => { #[derive(%s)] $($t)* } }\n    wrap! {\n%s%s    }\n" % (derive, attrs, item)
    elif how == "derive and attributes in a macro": new = "    macro_rules! wrap { ($($t:tt)*) => { #[derive(%s)]\n%s $($t)* } }\n    wrap! {\n%s    }\n" % (derive, attrs, item)
    elif how == "all but the derive in a macro": new = "    macro_rules! wrap { ($d:path) => { #[derive($d)]\n%s%s } }\n    wrap!(%s);\n" % (attrs, item, derive)
    elif how == "fragments and derive in a macro":
        new = "    macro_rules! wrap { ($(#[$sm:meta])* $v:vis struct $n:ident { $( $(#[$m:meta])* $fv:vis $f:ident : $t:ty, )* }) => { #[derive(%s)] $(#[$sm])* $v struct $n { $( $(#[$m])* $fv $f : $t, )* } } }\n    wrap! {\n%s%s    }\n" % (derive, attrs, item)
    else: new = "    ::facade::%s! {\n%s%s    }\n" % (r.choice(["derived", "derived_last", "derived_twice"]), attrs, item)
    return (t[:m.start()] + new + t[m.end():])[1:]


GNAMES = ["E", "Option", "String", "Self_", "Result", "Value", "Item", "Default", "Clone", "Builder", "F", "Into", "VALUES", "Fields", "__T", "t"]


def identifiers(text):
    return set(re.findall(r"[A-Za-z_]\w*", text))


CRATE = ["plain", "plain", "renamed", "facade", "nostd-std", "nostd-alloc", "nostd-none"]


class Env:
    """What surrounds the modules of one chunk (crate) and each of them (mods)."""

    def __init__(self, r, crate):
        self.crate = crate
        self.nostd = crate.startswith("nostd")
        self.cfg = {"nostd-alloc": "alloc", "nostd-none": "none"}.get(crate, "std")
        self.root = {"renamed": "::dbx", "facade": "::facade::db"}.get(crate, "::derive_builder")

    def adapt(self, r, s):
        """The definition as it has to be written here, or None."""
        s2 = s.clone()
        if self.nostd:
            s2.so["no_std"] = True
        if self.crate == "nostd-none" and s2.err in ("gen", "genval"): return None
        if self.root != "::derive_builder": s2.so["crate"] = r.choice([self.root, self.root, "crate::reexp", "crate::reexp::deep"])
        spec.resolve(s2)
        return s2

    def module(self, r, s, want):
        """(text, list of what is special)"""
        derive = self.root + "::Builder"
        if self.crate == "facade": derive = r.choice(["::facade::db::Builder", "::facade::DeriveBuilder", "crate::reexp::Builder"])
        elif r.random() < .3: derive = r.choice(["crate::reexp::Builder", "crate::reexp::deep::Builder"])
        wrap = None
        if "wrap" in want:
            wrap = r.choice(["derive in a macro", "derive and attributes in a macro", "all but the derive in a macro"] + ([] if s.params else ["fragments and derive in a macro"]) + ([] if self.nostd else ["derive in another crate's macro"] * 3))
            s = s.clone()
            s.macro = None
            if wrap.endswith("crate's macro"): s.so.pop("crate", None)
            spec.resolve(s)
        sp = spec.Sp(s.seed, s.sp)
        sp.plain = True
        t = spec.render(s, sp, derive_path="@@" if wrap else derive)
        if wrap: t = wrapped(r, t, wrap, derive)
        t = t.replace("::derive_builder::", self.root + "::").replace('"::derive_builder"', '"%s"' % self.root)
        t = absolute(t)
        what = [self.crate] + ([wrap] if wrap else [])
        head, _, body = t.partition("\n")
        use, _, body = body.partition("\n")
        assert use.strip() == "use ::rt::*;", use
        taken = identifiers(t) | {"Tr", "Mv", "Mk", "Obs", "ErrObs"}
        methods = set(re.findall(r"fn (\w+)", t)) | {f.sname for f in s.fields} | {f.tname for f in s.fields} | {f.each[0] for f in s.fields if f.each} | {s.buildname, s.cempty} | {f.name for f in s.fields}
        used = set(re.findall(r"\.(\w+)\(", t))
        pre = []
        if "generic" in want and any(p in ("T", "U") for p in s.params):
            for p in ("T", "U"):
                if p in s.params:
                    n = r.choice([g for g in GNAMES if g not in taken])
                    taken.add(n)
                    body = re.sub(r"(?<![\w:$'#])%s\b(?!\()" % p, n, body)
            what.append("generic names")
        if "shadow" in want:
            pre += shadows(r, s, taken)
            what.append("shadowed names")
        if "blanket" in want:
            pre += blanket(r, used | {"to_string", "obs", "eo", "into", "try_into", "from", "push_str", "push"} & used)
            what.append("trait methods in scope")
        if "inherent" in want:
            pre += inherent(r, s, methods | used)
            what.append("inherent methods")
        if "locals" in want:
            body, uses = locals_(r, t, body)
            if uses: what.append("functions named like locals")
            pre += uses
        if "macros" in want:
            mine = set(re.findall(r"(\w+)!", body + "".join(pre)))
            ms = [m for m in r.sample(MACROS, r.choice([3, 10, len(MACROS)])) if m not in mine]
            pre[:0] = ["    macro_rules! %s { ($($t:tt)*) => { ::core::compile_error! { \"the user's macro %s was used\" } }; }" % (m, m) for m in ms]
            what.append("user macros")
        extra_use = "    use ::rt::s::string::ToString as _;\n"
        inner = extra_use + "".join(x + "\n" for x in pre)
        if "fn" in want and "self::" not in t and "super" not in t and s.macro is None:
            i = body.rindex("}")
            return head + "\n" + "pub fn run(ops: &[::rt::Op]) {\n" + use + "\n" + inner + body[:i] + "    run(ops)\n}\n}\n", what + ["function body"]
        if "nest" in want and "super" not in t:
            i = body.rindex("}")
            return head + "\npub mod deep { pub mod deeper {\n" + use + "\n" + inner + body[:i] + "} }\npub use self::deep::deeper::run;\n}\n", what + ["nested modules"]
        return head + "\n" + use + "\n" + inner + body, what

    def prelude(self):
        p = spec.PRELUDE
        if self.crate == "facade": p = p.replace("extern crate derive_builder;\n", "extern crate facade;\n")
        if self.crate == "renamed": p = p.replace("extern crate derive_builder;\n", "extern crate dbx;\n")
        p = p.replace("::derive_builder::", self.root + "::")
        p = absolute(p).replace("pub mod shared {", "pub mod shared {\n    use ::rt::s::string::ToString as _;")
        if self.nostd: p = "#![no_std]\n" + p
        return p


def facade(workdir, edition):
    rlib, dep = common.base()
    os.makedirs(os.path.join(workdir, edition))
    p = os.path.join(workdir, edition, "facade.rs")
    with open(p, "w") as f: f.write(FACADE)
    out = os.path.join(workdir, edition, "libfacade.rlib")
    common.run([common.RUSTC, "--edition", edition, "--crate-type", "rlib", "--crate-name", "facade", p, "-o", out, "--extern", "derive_builder=" + rlib, "-L", "dependency=" + dep], check=True)
    return out


def compile_env(workdir, name, env, mods, tail_fn, edition, fac):
    """Like build.compile_chunk in the environment's crate."""
    bad = {}
    rlib, dep = common.base(env.cfg)
    rt, rtd = common.rt()
    for _ in range(6):
        if not mods: return None, bad
        src, out = os.path.join(workdir, name + ".rs"), os.path.join(workdir, name + ".bin")
        ranges = build.write_chunk(src, env.prelude(), mods, tail_fn([k for k, _ in mods]))
        cmd = [common.RUSTC, "--edition", edition, src, "-o", out, "--error-format=json", "-C", "debuginfo=0", "--cap-lints", "allow", "-L", "dependency=" + dep, "-L", "dependency=" + rtd, "--extern", "rt=" + rt]
        if not env.nostd: cmd += ["--extern", "facade=" + fac]
        if env.crate != "facade": cmd += ["--extern", "%s=%s" % ("dbx" if env.crate == "renamed" else "derive_builder", rlib)]
        r = common.run(cmd, timeout=500)
        new = build.errors_by_module(r.stderr, name + ".rs", ranges, None, ok=r.returncode == 0)
        if r.returncode == 0: return out, bad
        for k, v in new.items(): bad.setdefault(k, []).extend(v)
        mods = [(k, t) for k, t in mods if k not in new]
    raise HarnessError("chunk %s does not settle" % name)


PROF21 = dict(p_generic=.35, p_gx=.15, gen_unbound=.2, f_each=.3, p_each_into=.4, s_try=.3, f_into=.3, s_strip=.2, f_strip=.25, opt_bias=.2, f_default=.35, sd=.2, f_skip=.15, validate=.25, f_cty=.15, f_build=.1, hostile=.5, crate=.3, macro=.15,
              nf=[1, 2, 3, 4, 5], vis=.05, no_std=0, derives=.3, p_hm=.15)


def p21(res, tier, seed, workdir):
    common.base(); common.base("alloc"); common.base("none"); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    facs = [facade(workdir, e) for e in ("2015", "2018", "2021", "2024")]
    n, per, nhist = (24, 36, 15) if tier == "quick" else (160, 40, 30)

    def one(c):
        r = random.Random("p21/%d/%d" % (seed, c))
        env = Env(r, CRATE[c % len(CRATE)])
        prof = dict(PROF21)
        if env.crate == "nostd-none": prof.update(err={"noval": .5, "custom": .5})
        edition = r.choice(["2018", "2021", "2024"])
        fac = r.choice(facs)
        S, texts, what = [], {}, {}
        i = 0
        while len(S) < per and i < 4 * per:
            s = spec.gen_spec(r, c * 1000 + i, prof)
            i += 1
            s2 = env.adapt(r, s)
            if s2 is None: continue
            want = [w for w, p in (("generic", .5), ("shadow", .5), ("blanket", .35), ("inherent", .35), ("fn", .2), ("nest", .2), ("locals", .35), ("macros", .35), ("wrap", .35)) if r.random() < p]
            texts[s.id], what[s.id] = env.module(r, s2, want)
            S.append(s)
        hist = {s.id: [trace.gen_history(r, s, spec.arms(s)) for _ in range(nhist)] for s in S}
        byid = {s.id: s for s in S}
        ch = engine.Chunk("p%d" % c, S, hist, edition)
        try:
            _, badp, logp = engine.run_chunk(workdir, ch)
            tail = lambda ks: spec.main_fn([byid[k] for k in ks])
            binp, bade = compile_env(workdir, "e%d" % c, env, [(s.id, texts[s.id]) for s in S], tail, edition, fac)
            loge = os.path.join(workdir, "e%d.log" % c)
            if binp:
                rr = engine.run_binary(binp, os.path.join(workdir, ch.name + ".hist"), loge)
        except HarnessError as e: return str(e), {}, set(), [], None
        Lp, Le = meta.raw_log(logp) if logp else {}, meta.raw_log(loge) if binp else {}
        counts, keys, viol = {}, set(), []

        def count(k, m=1): counts[k] = counts.get(k, 0) + m
        for s in S:
            files = {"env.rs": env.prelude() + texts[s.id] + spec.main_fn([s]), "plain.rs": ch.prelude + ch.texts[s.id] + spec.main_fn([s]), "edition.txt": edition}
            if s.id in badp:
                count("not compiled even plainly")
                continue
            w = "+".join(what[s.id])
            for x in what[s.id]: count("definitions: " + x)
            if s.id in bade:
                e = re.search(r"error(\[E\d+\])?", bade[s.id][0])
                viol.append(("compile:%s:%s" % (env.crate, e.group(0) if e else ""), "works plainly but does not compile with: %s (edition %s)\n%s" % (w, edition, "\n".join(bade[s.id])[:2500]), files))
                continue
            keys.add((w, s.pattern, bool(s.params), len(s.fields)))
            for h in range(nhist):
                x, y = Lp.get((s.id, h)), Le.get((s.id, h))
                if x is None: continue
                if y is None:
                    viol.append(("died:" + env.crate, "the process died with: %s\n%s" % (w, rr.stderr[-500:]), files))
                    break
                count("histories compared")
                if x != y:
                    k = next((k for k, (p, q) in enumerate(zip(x.splitlines(), y.splitlines())) if p != q), 0)
                    viol.append(("behaviour:" + env.crate, "behaves differently with: %s\nplainly:  %s\nhere:     %s\nhistory %s" % (w, x.splitlines()[k:k + 1], y.splitlines()[k:k + 1], hist[s.id][h][:20]),
                                 dict(files, **{"history.txt": "H %d 0\n" % s.id + "".join("O %d %d %d %d %d %d\n" % o for o in hist[s.id][h])})))
                    break
        for p in ("p%d.bin" % c, "e%d.bin" % c):
            p = os.path.join(workdir, p)
            if os.path.exists(p): os.remove(p)
        return None, counts, keys, viol, texts[S[0].id][:1500]
    errs = []
    for err, counts, keys, viol, sample in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items(): res.count(k, v)
        res.evaluations += counts.get("histories compared", 0)
        res.distinct |= keys
        res.sample(sample, 3)
        for sig, msg, files in viol: res.violate(sig, msg, files)
    fixed21(res, workdir)
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise HarnessError("; ".join(errs)[:3000])


# small definitions whose failure is a known finding: name -> (module text, what has to be printed)
FIXED = {
    "user module named std": ("    mod std {}\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().ok().unwrap().a }\n", "3"),
    "user items named Some, None, Ok, Err": ("    struct None; struct Some; struct Ok; struct Err;\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "trait method field_name taking self": ("    pub trait Intruder { fn field_name(self) -> u32 where Self: Sized { 0 } }\n    impl<T> Intruder for T {}\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "trait method from": ("    pub trait Intruder { fn from(x: &'static str) -> u8 { 0 } }\n    impl<T> Intruder for T {}\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "type parameter named FROM_VALUE with each into": ("    #[derive(::derive_builder::Builder)]\n    pub struct Foo<FROM_VALUE: Clone> { #[builder(setter(each(name = \"item\", into)))] a: Vec<FROM_VALUE> }\n    pub fn run() -> u8 { FooBuilder::<u8>::create_empty().item(3u8).build().unwrap().a[0] }\n", "3"),
    "type parameter named VALUE with into": ("    #[derive(::derive_builder::Builder)]\n    #[builder(setter(into))]\n    pub struct Foo<VALUE> { a: VALUE }\n    pub fn run() -> u8 { FooBuilder::<u8>::create_empty().a(3u8).build().unwrap().a }\n", "3"),
    "type parameter named VALUE with each": ("    #[derive(::derive_builder::Builder)]\n    pub struct Foo<VALUE: Clone> { #[builder(setter(each = \"item\"))] a: Vec<VALUE> }\n    pub fn run() -> u8 { FooBuilder::<u8>::create_empty().item(3u8).build().unwrap().a[0] }\n", "3"),
    "constant named value": ("    #[allow(dead_code)] const value: u8 = 7;\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "unit struct named new": ("    struct new;\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "unit struct named item": ("    struct item;\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { #[builder(setter(each = \"one\"))] a: Vec<u8> }\n    pub fn run() -> u8 { FooBuilder::create_empty().one(3).build().unwrap().a[0] }\n", "3"),
    "user macro named write": ("    macro_rules! write { ($($t:tt)*) => { compile_error!(\"the user's macro\") } }\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "trait method into": ("    pub trait Intruder: Sized { fn into(self) -> u32 { 0 } }\n    impl<T> Intruder for T {}\n    #[derive(::derive_builder::Builder)]\n    #[builder(setter(into))]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().unwrap().a }\n", "3"),
    "trait method try_into": ("    pub trait Intruder: Sized { fn try_into(self) -> u32 { 0 } }\n    impl<T> Intruder for T {}\n    #[derive(::derive_builder::Builder)]\n    #[builder(try_setter)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().try_a(3).unwrap().build().unwrap().a }\n", "3"),
    "no implicit prelude": ("    #![no_implicit_prelude]\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { a: u8 }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(3).build().ok().unwrap().a }\n", "3"),
    "field type named VALUE with into": ("    #[derive(Clone)] pub struct VALUE(u8);\n    #[derive(::derive_builder::Builder)]\n    #[builder(setter(into))]\n    pub struct Foo { a: VALUE }\n    pub fn run() -> u8 { FooBuilder::create_empty().a(VALUE(3)).build().unwrap().a.0 }\n", "3"),
}


def fixed21(res, workdir):
    for i, (name, (body, want)) in enumerate(sorted(FIXED.items())):
        p = os.path.join(workdir, "fixed%d" % i)
        with open(p + ".rs", "w") as f: f.write("#![allow(warnings)]\nextern crate derive_builder;\nmod m {\n%s}\nfn main() { println!(\"{}\", m::run()); }\n" % body)
        r = common.run(build.rustc_cmd(p + ".rs", p + ".bin", rt=False, extra=("--cap-lints", "allow")), timeout=200)
        res.evaluations += 1
        if r.returncode:
            ms = [json.loads(l).get("rendered", "") for l in r.stderr.splitlines() if l.startswith("{")]
            res.violate("fixed:" + name, "%s: does not compile\n%s" % (name, "\n".join(ms)[:2000]), {"m.rs": open(p + ".rs").read()})
            continue
        o = common.run([p + ".bin"], timeout=60).stdout.strip()
        if o != want: res.violate("fixed:%s:result" % name, "%s: result is %s" % (name, o), {"m.rs": open(p + ".rs").read()})


# ------------------------------------------------------------------------------------------ P22
LINTS = "#![warn(missing_docs)]\n#![forbid(unsafe_code)]\n#![allow(nonstandard_style, uncommon_codepoints, confusable_idents, mixed_script_confusables, unknown_lints)]\n"
CONFIGS = [("std", "2021"), ("std", "2015"), ("std", "2018"), ("std", "2024"), ("alloc", "2021"), ("clippy", "2018"), ("none", "2024"), ("alloc", "2015"), ("none", "2018"), ("clippy", "2024")]
PROF22 = dict(p_generic=.3, p_gx=.15, gen_unbound=.25, f_each=.25, s_try=.25, f_try=.2, f_skip=.15, s_skip=.1, s_strip=.2, f_strip=.2, f_default=.35, sd=.2, validate=.25, f_cty=.15, f_build=.12, p_fpat=.15, cctor=.12, cempty=.15, derives=.3, macro=.1, crate=.08)


# unusual but accepted definitions, each in a module of its own; none may warn
UNUSUAL = {
    "must_use struct": "    /// Documented.\n    #[must_use]\n    #[derive(::derive_builder::Builder)]\n    #[builder(pattern = \"owned\")]\n    pub struct Foo { /** d */ #[builder(setter(each = \"item\"))] pub a: Vec<u8> }\n",
    "must_use struct, borrowed": "    /// Documented.\n    #[must_use = \"why\"]\n    #[derive(::derive_builder::Builder, Clone)]\n    #[builder(try_setter, setter(into))]\n    pub struct Foo { /** d */ pub a: u8, /** d */ #[builder(setter(each = \"item\"))] pub b: Vec<u8> }\n",
    "non_exhaustive": "    /// Documented.\n    #[non_exhaustive]\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ pub a: u8 }\n",
    "deprecated type under allow": "    /// Documented.\n    #[deprecated]\n    #[derive(Clone, Default)]\n    pub struct Old;\n    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ #[allow(deprecated)] #[builder(setter(into), try_setter)] pub a: Old, /** d */ #[allow(deprecated)] #[builder(default, setter(strip_option))] pub b: Option<Old>, /** d */ #[allow(deprecated)] #[builder(setter(each = \"one\"))] pub c: Vec<Old>, /** d */ #[allow(deprecated)] #[builder(setter(skip))] pub d: Option<Old> }\n",
    "deprecated field": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ #[deprecated] pub a: u8, /** d */ #[deprecated] #[builder(default, setter(strip_option, into))] pub b: Option<String>, /** d */ #[deprecated] #[builder(setter(skip))] pub c: u8, /** d */ #[deprecated] #[builder(default, setter(each = \"one\"))] pub d: Vec<u8> }\n",
    "deprecated struct under allow": "    /// Documented.\n    #[deprecated]\n    #[allow(deprecated)]\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ pub a: u8 }\n",
    "repr": "    /// Documented.\n    #[repr(C)]\n    #[derive(::derive_builder::Builder, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]\n    #[builder(derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord))]\n    pub struct Foo { /** d */ pub a: u8, /** d */ pub b: [u8; 3] }\n",
    "private struct with everything unused": "    #[allow(dead_code)]\n    #[derive(::derive_builder::Builder)]\n    #[builder(setter(into), try_setter, build_fn(private))]\n    struct Foo { a: u8, #[builder(default)] b: Option<String>, #[builder(setter(each = \"item\"))] c: Vec<u8>, #[builder(setter(skip))] d: u8 }\n",
    "field docs kept off a hidden field": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { #[doc(hidden)] pub a: u8, /** d */ pub b: u8 }\n",
    "undocumented under allow": "    #[allow(missing_docs)]\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { #[builder(field(public))] pub a: u8, pub b: Option<u8> }\n",
    "documented public fields": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    #[builder(field(public), try_setter)]\n    pub struct Foo { /** d */ #[builder(setter(skip))] pub a: u8, /** d */ pub b: Option<u8>, /** d */ #[builder(setter(name = \"cc\", each = \"c1\"))] pub c: Vec<u8> }\n",
    "lifetimes and dyn": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo<'a, T: ?Sized + 'a, const N: usize> where T: ::core::fmt::Debug { /** d */ pub a: &'a T, /** d */ pub b: [&'a dyn (::core::fmt::Debug); N], /** d */ pub c: for<'b> fn(&'b u8) -> &'b u8, /** d */ #[builder(setter(skip), default = \"None\")] pub d: Option<&'a str> }\n",
    "no fields": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo {}\n    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    #[builder(pattern = \"owned\", setter(into), try_setter)]\n    pub struct Bar {}\n    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    #[builder(build_fn(skip))]\n    pub struct Baz {}\n",
    "only skipped fields": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    #[builder(setter(skip))]\n    pub struct Foo<'a, T: Default> { /** d */ pub a: T, /** d */ pub b: Option<&'a u8> }\n",
    "everything off": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    #[builder(setter(skip), build_fn(skip), custom_constructor, create_empty = \"fresh\")]\n    pub struct Foo { /** d */ pub a: u8 }\n    impl FooBuilder { /** d */ pub fn new() -> Self { Self::fresh() } }\n",
    "expressions that cannot fail or return": "    /// Documented.\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ #[builder(default = \"return Err(FooBuilderError::from(String::from(\\\"no\\\")))\")] pub a: u8, /** d */ #[builder(default = \"Err(FooBuilderError::UninitializedField(\\\"b\\\"))?\")] pub b: u8, /** d */ #[builder(default = \"unimplemented!()\")] pub c: u8 }\n",
    "field types under allow": "    /// Documented.\n    #[derive(::derive_builder::Builder, Clone)]\n    #[builder(setter(strip_option))]\n    pub struct Foo { /** d */ #[allow(unused_parens)] pub a: (u8), /** d */ #[allow(unused_parens)] #[builder(default)] pub b: Option<(u8)>, /** d */ #[allow(unused_parens)] #[builder(pattern = \"owned\", setter(each = \"one\"))] pub c: Vec<(u8)> }\n",
    # known findings
    "deprecated struct": "    /// Documented.\n    #[deprecated]\n    #[derive(::derive_builder::Builder)]\n    pub struct Foo { /** d */ pub a: u8 }\n",
    "field of an uninhabited type": "    /// Documented.\n    #[derive(::derive_builder::Builder, Clone)]\n    pub struct Foo { /** d */ pub a: ::core::convert::Infallible, /** d */ pub b: u8 }\n",
    "struct with a lower case name under allow": "    /// Documented.\n    #[allow(non_camel_case_types)]\n    #[derive(::derive_builder::Builder)]\n    pub struct foo { /** d */ pub a: u8 }\n",
}


def unusual22(res, workdir):
    """Each unusual definition alone, as a library, with default lints and missing_docs on."""
    def one(job):
        i, name, cfg, ed = job
        p = os.path.join(workdir, "unusual%d_%s_%s" % (i, cfg, ed))
        text = "#![warn(missing_docs)]\n//! d\n#[allow(unused_extern_crates)] extern crate derive_builder;\n/// d\npub mod m {\n%s}\n" % UNUSUAL[name]
        if ed == "2015": text = old(text)
        with open(p + ".rs", "w") as f: f.write(text)
        r = common.run(build.rustc_cmd(p + ".rs", p + ".rmeta", ed, cfg, rt=False, crate_type="lib", extra=("--emit", "metadata")), timeout=200)
        ms = [json.loads(l) for l in r.stderr.splitlines() if l.startswith("{")]
        return name, cfg, ed, r.returncode, [m["rendered"] for m in ms if m.get("level") in ("warning", "error") and m.get("spans")], text
    jobs = [(i, n, cfg, ed) for i, n in enumerate(sorted(UNUSUAL)) for cfg, ed in CONFIGS[:1] + CONFIGS[3:5]]
    for name, cfg, ed, rc, ms, text in common.fork_map(one, jobs):
        res.evaluations += 1
        res.count("unusual definitions linted")
        res.distinct.add(("unusual", name, cfg, ed))
        if rc or ms: res.violate("unusual:" + name, "%s (%s %s): %s\n%s" % (name, cfg, ed, "does not compile" if rc else "the expansion warns", "\n".join(ms)[:2500]), {"m.rs": text})


def region(text):
    """Lines of the definition in a module's text, relative to its first line."""
    ls = text.splitlines()
    a = next(i for i, l in enumerate(ls) if l.strip().startswith("#[derive(::derive_builder::Builder"))
    return a, next(i for i, l in enumerate(ls) if i > a and l.rstrip() == "    }")


def old(text):
    """Paths of our own text as the 2015 edition spells them."""
    return re.sub(r"(?<![\w:$])(std|core)::option::Option", "::std::option::Option", text).replace("::core::", "::std::")


def lint(workdir, name, specs, edition, cfg, public):
    """({id: warnings about the expansion}, {id: errors}, {id: text}) of one library compiled without a lint cap."""
    texts, regs = {}, {}
    for s in specs:
        for f in s.fields: f.docs = True
        sp = spec.Sp(s.seed, s.sp)
        sp.plain = edition == "2015"     # old() replaces paths in the text
        t = spec.render(s, sp, extra_struct_attrs="/** Documented. */")
        if edition == "2015": t = old(t)
        texts[s.id], regs[s.id] = t, region(t)
    cur, bad, out = list(specs), {}, {s.id: [] for s in specs}
    src, lib = os.path.join(workdir, name + ".rs"), os.path.join(workdir, name + ".rmeta")
    prelude = LINTS + ("" if public else "#![allow(dead_code)]\n") + spec.PRELUDE.replace("#![allow(warnings)]\n", "//! Documented.\n").replace("pub mod ", "#[allow(warnings)] pub mod ")
    for _ in range(6):
        if not cur: break
        ranges = build.write_chunk(src, prelude, [(s.id, texts[s.id]) for s in cur], "")
        r = common.run(build.rustc_cmd(src, lib, edition, cfg, crate_type="lib", extra=("--emit", "metadata")), timeout=500)
        new = build.errors_by_module(r.stderr, name + ".rs", ranges, {}, ok=r.returncode == 0)
        if r.returncode == 0: break
        for k, v in new.items(): bad.setdefault(k, []).extend(v)
        cur = [s for s in cur if s.id not in new]
    else: raise HarnessError("lint chunk does not settle")
    if not cur: return out, bad, texts
    start = {k: a for a, b, k in ranges}
    for l in r.stderr.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("level") != "warning": continue
        at = [ln for prim, ln, fn in build.spans_of(dict(m, children=[])) if prim]
        for s in cur:
            a, b = regs[s.id]
            if any(start[s.id] + a <= ln <= start[s.id] + b for ln in at): out[s.id].append((((m.get("code") or {}).get("code")), m["rendered"]))
    return out, bad, texts


def p22(res, tier, seed, workdir):
    for c in ("std", "alloc", "none", "clippy"): common.base(c)
    common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per, nhist, nconf = (12, 28, 12, 4) if tier == "quick" else (120, 36, 24, 10)

    def one(c):
        r = random.Random("p22/%d/%d" % (seed, c))
        S = [spec.gen_spec(r, c * 1000 + i, PROF22) for i in range(per)]
        byid = {s.id: s for s in S}
        hist = {s.id: [trace.gen_history(r, s, spec.arms(s)) for _ in range(nhist)] for s in S}
        counts, keys, viol = {}, set(), []

        def count(k, m=1): counts[k] = counts.get(k, 0) + m
        ref, logs = None, {}
        confs = CONFIGS[:1] + [CONFIGS[1:][(c * 3 + k) % 9] for k in range(nconf - 1)] if nconf < 10 else CONFIGS
        try:
            for cfg, ed in confs:
                part = [s for s in S if cfg != "none" or s.err not in ("gen", "genval")]
                ch = engine.Chunk("v%d_%s_%s" % (c, cfg, ed), part, hist, ed, cfg)
                ren = (lambda s: old(spec.render(s))) if ed == "2015" else spec.render
                if ed == "2015": ch.prelude = old(ch.prelude)
                binp, bad, log = engine.run_chunk(workdir, ch, render=ren)
                L = meta.raw_log(log) if log else {}
                if ref is None:
                    ref, refbad, refname = L, bad, (cfg, ed)
                    continue
                for s in part:
                    files = {"module.rs": ch.prelude + ch.texts[s.id] + spec.main_fn([s]), "edition.txt": "%s %s\n" % (cfg, ed)}
                    if (s.id in bad) != (s.id in refbad):
                        viol.append(("compile:%s:%s" % ((cfg, ed) if s.id in bad else refname), "compiles in %s but not in %s:\n%s" % ((refname, (cfg, ed), "\n".join(bad[s.id])[:2500]) if s.id in bad else ((cfg, ed), refname, "\n".join(refbad[s.id])[:2500])), files))
                        continue
                    if s.id in bad: continue
                    for h in range(nhist):
                        x, y = ref.get((s.id, h)), L.get((s.id, h))
                        if x is None and y is None: continue
                        count("histories compared: %s %s" % (cfg, ed))
                        if x != y:
                            xs, ys = (x or "(died)").splitlines(), (y or "(died)").splitlines()
                            k = next((k for k, (p, q) in enumerate(zip(xs, ys)) if p != q), 0)
                            viol.append(("behaviour:%s:%s" % (cfg, ed), "behaves differently in %s and %s\n%s\n%s\nhistory %s" % (refname, (cfg, ed), xs[k:k + 1], ys[k:k + 1], hist[s.id][h][:20]), files))
                            break
                    keys.add(("log", cfg, ed, s.pattern, bool(s.params), len(s.fields), tuple(sorted(s.so))))
                if binp and os.path.exists(binp): os.remove(binp)
            # warnings
            for k, (cfg, ed) in enumerate(confs):
                public = (c + k) % 2 == 0
                prof = dict(PROF22, vis=0 if public else .4, bfskip=0 if public else .1)
                W = []
                while len(W) < per:
                    s = spec.gen_spec(r, c * 1000 + 500 + k * per + len(W), prof)
                    if cfg == "none" and s.err in ("gen", "genval"): continue
                    if public: s.vis = "pub"
                    W.append(s)
                warns, bad, texts = lint(workdir, "w%d_%d" % (c, k), W, ed, cfg, public)
                for s in W:
                    if s.id in bad: count("did not compile")
                    if s.id in bad: continue
                    count("definitions linted: %s %s" % (cfg, ed))
                    keys.add(("lint", cfg, ed, s.pattern, bool(s.params), len(s.fields), tuple(sorted(s.so)), public))
                    asked = "vis" in s.so or "field" in s.so or "vis" in s.so.get("build_fn", {}) or any("vis" in x for f in s.fields for x in (f.fo, f.fo.get("field", {})))
                    for code, t in warns[s.id]:
                        if asked and code in ("private_interfaces", "private_bounds"): continue  # the visibility was the user's own choice
                        viol.append(("warning:%s" % code, "the expansion warns (%s %s):\n%s" % (cfg, ed, t[:2000]), {"module.rs": LINTS + spec.PRELUDE.replace("#![allow(warnings)]\n", "") + texts[s.id], "edition.txt": "%s %s\n" % (cfg, ed)}))
                sample = texts[W[0].id][:1200]
        except HarnessError as e: return str(e), {}, set(), [], None
        return None, counts, keys, viol, sample
    errs = []
    for err, counts, keys, viol, sample in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items():
            res.count(k, v)
            res.evaluations += v
        res.distinct |= keys
        res.sample(sample, 3)
        for sig, msg, files in viol: res.violate(sig, msg, files)
    unusual22(res, workdir)
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise HarnessError("; ".join(errs)[:3000])
