"""Engine C: run the real macro implementation on generated, mutated and faulty inputs and judge what comes out."""
import json, os, random, re, shutil, subprocess
import common, spec
from spec import raw
from common import HarnessError

MACDIR = os.path.join(common.VERIF, "harness/mac")
_mac = None


def mac():
    global _mac
    if _mac is None:
        arts = common.cargo_build(MACDIR)
        _mac = [f for f in arts["mac"] if os.access(f, os.X_OK) and not f.endswith((".rlib", ".rmeta", ".d"))][0]
    return _mac


def write_cases(path, cases):
    """cases: [(id, flags, text)]"""
    with open(path, "w") as f:
        for i, fl, t in cases:
            f.write("@@ %s %s\n%s" % (i, fl, t if t.endswith("\n") else t + "\n"))


def facts(workdir, name, cases, timeout=300):
    """{id: facts}; a case that kills the process has {"died": ...}."""
    os.makedirs(workdir, exist_ok=True)
    out, todo = {}, list(cases)
    while todo:
        p = os.path.join(workdir, name + ".cases")
        write_cases(p, todo)
        try:
            r = subprocess.run([mac(), "facts", p], capture_output=True, text=True, timeout=timeout, env=common.env())
        except subprocess.TimeoutExpired as e:
            # find the case that hangs
            last = None
            for l in (e.stdout or b"").decode(errors="replace").splitlines():
                if l.startswith('{"start"'): last = json.loads(l)["start"]
            raise HarnessError("expansion did not finish in %ds, at case %s" % (timeout, last))
        last = None
        for l in r.stdout.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if "start" in d: last = d["start"]
            else:
                out[d["id"]] = d
                last = None
        os.remove(p)
        if r.returncode == 0: break
        if last is None: raise HarnessError("mac failed: %s" % r.stderr[-500:])
        out[last] = {"id": last, "died": "exit %d: %s" % (r.returncode, r.stderr[-300:])}
        k = [c[0] for c in todo].index(last)
        todo = todo[k + 1:]
    return out


def item_text(s, sp=None):
    """Just the annotated struct of a spec (what the derive sees), without macro wrappers."""
    t = spec.render_item(s, sp or spec.Sp(s.seed, s.sp))
    return "\n".join(l[4:] if l.startswith("    ") else l for l in t.splitlines()) + "\n"


# ------------------------------------------------------------------------------------------ hostile inputs
IDENTS = ["a", "b", "r#type", "r#fn", "r#match", "_x", "__", "größe", "变量", "value", "new", "Self_", "T", "default", "union", "auto", "raw", "r#struct", "r#async", "r#try", "r#dyn", "VALUE", "FROM_VALUE", "item", "ñ", "ᚠ", "éa",
          "macro_rules", "yield_", "gen", "safe", "r#gen", "r#yield", "r#become", "x" * 120]
LITS = ['""', '"a"', '"r#type"', '"r#self"', '"self"', '"Self"', '"crate"', '"super"', '"_"', '"1"', '"a b"', '"a::b"', '"::a::b"', '"fn"', '"r#"', '"r#r#a"', '"\\u{0}"', '"\\n"', '"größe"', '"变"', '"😀"', '"pub"', '"pub(crate)"', '"pub(in a::b)"',
        '"Vec<u8>"', '"Option<T>"', '"{"', '"}"', '"("', '"\'a"', '"\'"', '"\\""', '"//"', '"/*"', '"*/"', '"#"', '"$x"', '"a!()"', '"|x| x"', '"owned"', '"mutable"', '"immutable"', '"true"', '"false"', '"let x = 1; x"', '"return 1"', '"?"', '"x?"', '"_x_"',
        "1", "1u8", "1.5", "-1", "true", "false", "'a'", "b'a'", 'b"x"', 'r"x"', 'r#"x"#', 'c"x"', "0xff", "1e5", "1_000", '"a"suffix', "1abc", "'\\u{1F600}'", 'concat!("a", "b")', 'include_str!("x")', "None", "x + 1", "{ 1 }", "|x| x", "a::b", "a()", "!x", "[1, 2]", "(1, 2)",
        "if a { b } else { c }", "loop {}", "async { 1 }", "const { 1 }", "return", "return x", "a?", "Self::f()", "self.x", "..", "a..b", "_", "&mut x", "unsafe { x }", "Foo { a: 1 }", "match x { _ => 1 }", "let", "x as u8", "a = b", "break", "'l: loop { break 'l }", "r#fn", "r#type::x", "<T as A>::b", "$x",
        '"' + "x" * 400 + '"', '"' + "(" * 50 + ")" * 50 + '"', "((((((((((1))))))))))", '"r#crate"', '"r#super"', '"r#_"', '"r#Self"', '"union"', '"async"', '"try"', '"gen"', '"dyn"', '"abstract"', '"macro"', '"static"', '"\'static"', '"#[x]"', '"a // b"', '"/* a */ b"', '"a;"', '";"', '"a,b"', '"<"', '">"', '"a<b>::c"', '"dyn A + B"', '"impl A"', '"fn() -> u8"', '"!"', '"&\'a str"', '"[u8; 3]"', '"(u8,)"', '"_::_"', '"<T as U>::V"', '"m!{}"']
NAMES = ["pattern", "setter", "default", "try_setter", "field", "vis", "public", "private", "name", "build_fn", "derive", "custom_constructor", "create_empty", "no_std", "crate", "into", "strip_option", "skip", "prefix", "each", "custom", "ty", "build", "validate", "error", "validation_error",
         "foo", "r#type", "r#crate", "r#default", "self", "Self", "super", "a::b", "::a", "_", "größe", "union", "r#try", "async", "true", "pattern::x"]
TYPES = ["u8", "String", "Option<u8>", "Option<Option<u8>>", "std::option::Option<u8>", "::std::option::Option<u8>", "core::option::Option<T>", "Option", "Option<>", "Option<'a>", "Option<'a, T>", "Option<u8, u8>", "Option<X = u8>", "Option<{ 3 }>", "Option::<u8>", "option::Option<u8>", "Option(u8)", "Option(u8) -> u8",
         "Vec<u8>", "&'a str", "&'static mut [u8]", "[u8; 3]", "[u8]", "(u8, u8)", "()", "(u8)", "!", "_", "fn()", "fn(u8) -> u8", "unsafe extern \"C\" fn(u8, ...) -> u8", "for<'a> fn(&'a u8)", "dyn Fn(u8) -> u8", "Box<dyn Fn(&u8) -> u8 + Send + 'static>", "impl Iterator<Item = u8>", "*const u8", "*mut T",
         "<T as Iterator>::Item", "<Option<u8> as A>::B", "T::Item", "m!()", "m![u8]", "m!{ a }", "typeof(1)", "Self", "Self::X", "self::X", "crate::X", "super::X", "r#type", "r#fn<r#match>", "größe", "dyn A", "dyn for<'a> A<'a>", "PhantomData<T>", "[T; N]", "[T; { N + 1 }]", "[u8; const { 3 }]", "(Option<u8>)", "((((u8))))",
         "&u8", "&&u8", "a::b::<c>::d", "Foo<'a, T, 3>", "Foo<-1>", "Foo<\"x\">", "Foo<true>", "Foo<T: Clone>", "Foo<Item: Clone>", "A<B<C<D<E<F<G<H>>>>>>>", "dyn A + 'a", "dyn 'a + A", "fn(a: u8, _: u16)", "extern fn()", "impl Fn() + 'static", "std::option::Option", "core::option::Option<>", "Option<_>", "Option<!>", "Option<dyn A>", "Option<m!()>"]
GENERICS = ["", "", "", "<T>", "<'a>", "<'a, T>", "<T, U: Clone + ?Sized>", "<const N: usize>", "<T = u8>", "<'a, T: 'a + Iterator<Item = u8>, const N: usize = 3>", "<>", "<T,>", "<VALUE>", "<FROM_VALUE, VALUE>", "<r#type>", "<T: for<'b> Fn(&'b u8)>", "<#[cfg(x)] T>", "<'größe>",
            "<T: ~const A>", "<T: ?Sized>", "<const N: bool = { true }>", "<'a: 'static, 'b: 'a>", "<T: 'static>", "<T: A<B = C>>", "<T: A<B: C>>"]
WHERES = ["", "", "", "where T: Clone", "where", "where T: Clone,", "where for<'x> T: Fn(&'x u8)", "where u8: Copy, [u8; 3]: Sized", "where <T as A>::B: C", "where 'a: 'a", "where Self: Sized", "where T:"]
VISES = ["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::a) ", "pub(self) ", "crate "]
OTHER = ["#[doc = \"x\"]", "/// hi", "//! hi", "#[allow(x)]", "#[cfg(x)]", "#[cfg_attr(a, b)]", "#[serde(x)]", "#[doc(hidden)]", "#[doc = include_str!(\"x\")]", "#[allow]", "#[allow = 3]", "#[cfg]", "#[r#type]", "#[a::b]", "#[unsafe(no_mangle)]", "#[non_exhaustive]", "#[repr(C)]", "/** x */", "#[builder_field_attr(x)]", "#[builder_setter_attr(x)]",
         "#[builder_struct_attr(x)]", "#[builder_impl_attr(x)]", "#[builder_field_attr(doc = \"x\")]", "#[builder_field_attr]", "#[builder_setter_attr = 3]", "#[builder_struct_attr()]", "#[builder_impl_attr{x}]", "#[builder_field_attr[x]]", "#[builder_setter_attr(a(b(c)))]", "#[builder_struct_attr(])]", "#[builder_field_attr(])]", "#[builder_impl_attr(x)] #[x]", "#[builder_setter_attr(x] #[y)]",
         "#[builder_field_attr(unsafe(x))]", "#[builder_struct_attr(\"x\")]", "#[builder_impl_attr(self)]", "#[builder_field_attr(a::)]", "#[builder_setter_attr(= 3)]", "#[builder_field_attr(!x)]", "#[builder_setter_attr(x = )]", "#[builder_struct_attr(derive(A, B))]", "#[builder_field_attr(x, y)]", "#[builder_field_attr( #[x] )]"]


def hostile_meta(r, d=0):
    n = r.choice(NAMES)
    k = r.random()
    if k < .25: return n
    if k < .6 or d > 3: return "%s = %s" % (n, r.choice(LITS))
    if k < .93: return "%s(%s)" % (n, ", ".join(hostile_meta(r, d + 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))) + r.choice(["", "", ","]))
    if k < .96: return r.choice(LITS)
    return r.choice(["%s[%s]", "%s{%s}"]) % (n, hostile_meta(r, d + 1))


# well-nested shapes with arbitrary leaves reach further than arbitrary nesting
SHAPES = {
    "field": ["default", "default = @", "setter", "setter(into)", "setter(into = @)", "setter(strip_option)", "setter(strip_option, into)", "setter(skip)", "setter(skip = @)", "setter(custom = @)", "setter(name = @)", "setter(prefix = @)", "setter(each = @)", "setter(each(name = @))", "setter(each(name = @, into))",
              "setter(each(name = @, into = @))", "try_setter", "pattern = @", "public", "private", "vis = @", "field(private)", "field(public)", "field(vis = @)", "field(ty = @)", "field(build = @)", "field(ty = @, build = @)", "setter(skip = @, custom = @)", "setter(name = @, prefix = @)", "setter(skip, custom = @)", "setter(skip = false, name = @)", "setter(custom, each = @)", "setter(skip, each = @)",
              "setter(skip, into, strip_option)", "setter(custom = false, skip)", "setter(custom, skip = false)"],
    "struct": ["name = @", "pattern = @", "pattern = \"owned\"", "pattern = \"immutable\"", "setter(into)", "setter(strip_option)", "setter(into, strip_option)", "setter(skip)", "setter(prefix = @)", "setter(skip = @)", "try_setter", "default", "default = @", "build_fn(skip)", "build_fn(name = @)", "build_fn(validate = @)", "build_fn(error = @)",
               "build_fn(error(validation_error = @))", "build_fn(private)", "build_fn(vis = @)", "build_fn(skip = @, name = @)", "derive(A, B)", "derive(@)", "derive()", "custom_constructor", "create_empty = @", "no_std", "crate = @", "public", "private", "vis = @", "field(private)", "field(public)", "field(vis = @)"],
}


def hostile_item(r):
    """An arbitrary item with builder attributes, mostly syntactically valid Rust."""
    def meta(level):
        if r.random() < .6:
            s = r.choice(SHAPES[level])
            while "@" in s: s = s.replace("@", r.choice(LITS), 1)
            return s
        return hostile_meta(r)

    def attrs(level):
        o = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            if r.random() < .3: o.append(r.choice(OTHER))
            else: o.append("#[builder%s]" % r.choice(["(%s)"] * 12 + ["[%s]", "{%s}"]) % ", ".join(meta(level) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4]))))
        return "\n".join(o) + "\n"
    name = r.choice(["Foo", "r#type", "größe", "_X", "r#Box", "Option", "VALUE", "A"])
    g, w = r.choice(GENERICS), r.choice(WHERES)
    fs = "".join("%s%s%s: %s,\n" % (attrs("field"), r.choice(VISES), r.choice(IDENTS) if r.random() < .5 else "f%d" % i, r.choice(TYPES)) for i in range(r.choice([0, 1, 1, 2, 3, 5])))
    k = r.random()
    if k < .88: body = "struct %s%s %s {\n%s}" % (name, g, w, fs)
    elif k < .92: body = "enum %s%s %s { A, B { %s } }" % (name, g, w, fs)
    elif k < .94: body = "union %s%s { %s }" % (name, g, fs)
    elif k < .97: body = "struct %s%s(%s) %s;" % (name, g, ", ".join(attrs("field") + r.choice(TYPES) for _ in range(r.choice([0, 1, 2]))), w)
    else: body = "struct %s%s;" % (name, g)
    return attrs("struct") + r.choice(VISES) + body + "\n"


TOK = re.compile(r'"(?:\\.|[^"\\])*"|r#\w+|\'\w+(?!\')|\w+|[^\s\w]|\s+')


def mutate(r, text):
    """Token-level mutation of a definition."""
    t = TOK.findall(text)
    pool = [x for x in t if not x.isspace()]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        idx = [i for i, x in enumerate(t) if not x.isspace()]
        if not idx: break
        i = r.choice(idx)
        k = r.randrange(9)
        if t[i].startswith('"') and r.random() < .8: t[i] = r.choice(LITS)
        elif k == 0: del t[i]
        elif k == 1: t.insert(i, t[i])
        elif k == 2: t[i] = r.choice(pool)
        elif k == 3: t[i] = r.choice(LITS)
        elif k == 4: t[i] = r.choice(NAMES)
        elif k == 5: t.insert(i, r.choice([",", "(", ")", "=", "::", "#", "!", "{", "}", "<", ">", "_", "'a"]))
        elif k == 6: t[i] = r.choice(TYPES)
        elif k == 7: t[i] = r.choice(IDENTS)
        else:
            j = r.choice(idx)
            t[i], t[j] = t[j], t[i]
    return "".join(t)


# ------------------------------------------------------------------------------------------ P17
def chunks(n, k):
    return [(i * n // k, (i + 1) * n // k) for i in range(k)]


def kind_of(d):
    if "died" in d: return "died"
    if "panic" in d: return "panic"
    if "input" in d: return "not-an-item"
    if d["errors"]: return "rejected+items" if d["rest"] else "rejected"
    if "bad" in d: return "bad"
    return "expanded"


def corpus(r, n, prof=None):
    """Texts of random valid definitions."""
    return [item_text(spec.gen_spec(r, i, prof or dict(vis=.3, bfskip=.1, f_skip=.2, s_skip=.1, f_each=.25))) for i in range(n)]


def parses(text, path):
    """Does the compiler's own parser accept this item?"""
    with open(path + ".rs", "w") as f: f.write("fn main() {}\n#[cfg(any())]\nmod m {\n%s}\n" % text)
    r = common.run([common.RUSTC, "--edition", "2021", "--emit=metadata", "--cap-lints", "allow", path + ".rs", "-o", path + ".rmeta"], timeout=120)
    return r.returncode == 0


def p17(res, tier, seed, workdir):
    """Panic monitor over hostile inputs, in the library and in the compiler."""
    mac(); common.base()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n = 16 if tier == "quick" else 120
    per = 9000 if tier == "quick" else 30000
    nrustc = 40 if tier == "quick" else 250

    def one(c):
        r = random.Random("p17/%d/%d" % (seed, c))
        T = corpus(r, 60)
        cs = [("v%d" % i, r.choice(["", "g"]), t) for i, t in enumerate(T)]
        for i in range(per):
            if i % 2: cs.append(("h%d" % i, r.choice(["", "", "g"]), hostile_item(r)))
            else: cs.append(("m%d" % i, r.choice(["", "", "g"]), mutate(r, r.choice(T))))
        cs = [x for x in cs if "\n@@ " not in "\n" + x[2]]
        try: f = facts(workdir, "c%d" % c, cs)
        except HarnessError as e: return str(e), {}, set(), [], []
        counts, keys, viol = {}, set(), []
        rej = []
        for i, fl, t in cs:
            d = f.get(i)
            if d is None: return "no answer for a case", {}, set(), [], []
            k = kind_of(d)
            counts[k] = counts.get(k, 0) + 1
            if k == "not-an-item": continue
            keys.add((k, i[0]) + tuple(sorted(re.sub(r"`[^`]*`|\d+", "_", e["msg"])[:50] for e in d.get("errors", []))[:3]) if d.get("errors") else (k, i[0], len(d.get("items", [])), sum(len(x.get("fns", [])) for x in d.get("items", []) if isinstance(x, dict))))
            if k == "panic": viol.append(("panic:" + re.sub(r"\d+", "N", d["panic"].split("\n", 1)[-1])[:80], "the derive panicked: %s" % d["panic"], t, fl))
            elif k == "died": viol.append(("died", "the process died during expansion: %s" % d["died"], t, fl))
            elif k == "bad" and (i[0] == "v" or not d["bad_located"]): viol.append(("invalid-output", "the expansion is not a sequence of Rust items (%s):\n%s" % (d["bad"], d["text"][:1500]), t, fl))
            elif k.startswith("rejected") and i[0] == "v": viol.append(("rejected-valid", "a definition with documented options was rejected: %s" % d["errors"], t, fl))
            elif k.startswith("rejected"):
                if not all(e["msg"].strip() for e in d["errors"]): viol.append(("empty-error", "a compile error without a message: %s" % d["errors"], t, fl))
                rej.append((i, t, [e["msg"] for e in d["errors"]]))
        # syn parses some texts that the compiler never hands to a derive
        viol = [v for k, v in enumerate(viol) if k >= 20 or parses(v[2], os.path.join(workdir, "p%d" % c))]
        # the same inputs through the compiler: no panic reaches the user, and the errors point into the source
        real = {}
        for i, t, msgs in r.sample(rej, min(len(rej), nrustc)):
            if "derive(" not in t.split("struct")[0]: t = "#[derive(::derive_builder::Builder)]\n" + t
            src = os.path.join(workdir, "r%d.rs" % c)
            with open(src, "w") as fh: fh.write("extern crate derive_builder;\nmod m {\n%s}\nfn main() {}\n" % t)
            import build
            rr = common.run(build.rustc_cmd(src, os.path.join(workdir, "r%d.rmeta" % c), "2021", rt=False, extra=("--emit=metadata", "--cap-lints", "allow")), timeout=120)
            ms = []
            for l in rr.stderr.splitlines():
                if l.startswith("{"):
                    m = json.loads(l)
                    if m.get("level", "").startswith("error"): ms.append(m)
            if any("panicked" in m["message"] for m in ms): viol.append(("rustc-panic", "the compiler reports: %s" % [m["message"] for m in ms if "panicked" in m["message"]][0], t, ""))
            reached = [m for m in ms if any(x and (m["message"] == x or m["message"].startswith(x)) for x in msgs)]
            k = "reported" if reached else "other-errors"
            real[k] = real.get(k, 0) + 1
            if rr.returncode == 0 and "cfg" not in t: viol.append(("not-rejected", "rustc accepted what the derive rejects (%s)" % msgs, t, ""))
            for m in reached:
                if not any(s["is_primary"] and s["file_name"].endswith("r%d.rs" % c) and 2 <= s["line_start"] for s in m["spans"]):
                    viol.append(("unlocated", "no location in the user's source: %s" % m["rendered"], t, ""))
        return None, counts, keys, viol, [real, cs[70][2], cs[71][2]]
    errs = []
    for err, counts, keys, viol, more in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items():
            res.count("inputs:" + k, v)
            if k != "not-an-item": res.evaluations += v
        for k, v in more[0].items():
            res.count("through rustc:" + k, v)
            res.evaluations += v
        res.distinct |= keys
        for x in more[1:]: res.sample(x[:600])
        for sig, msg, t, fl in viol:
            res.violate(sig, "%s\n\ninput:\n%s" % (msg, t[:4000]), {"input.rs": t, "case.txt": "@@ 0 %s\n%s" % (fl, t)})
    if errs and not res.violations: raise HarnessError("; ".join(errs)[:2000])


# ------------------------------------------------------------------------------------------ P18
def place_mistakes(r, s, k):
    """k mistakes at distinct places of spec s: [(place, class, lines)]"""
    import mistakes
    places = [f.idx for f in s.fields]
    r.shuffle(places)
    out = []
    # what is wrong with the struct's own options may hide the fields'
    if k == 1 and r.random() < .5: return [("struct", *r.choice(mistakes.STRUCT))]
    for p in places:
        if len(out) >= k: break
        out.append((p, *r.choice(mistakes.FIELD)))
    return out


def with_mistakes(s, ms, seed):
    fx, sx = {}, []
    for p, c, ls in ms:
        if p == "struct": sx += list(ls)
        else: fx.setdefault(p, []).extend(ls)
    s2 = s.clone()
    s2.seed = seed
    return item_text(s2, spec.Sp(s.seed, s.sp)) if not ms else "\n".join(l[4:] if l.startswith("    ") else l for l in spec.render_item(s2, spec.Sp(s.seed, s.sp), fextra=fx, sextra=sx).splitlines()) + "\n"


def soup(r):
    """A definition using documented options in allowed combinations, whatever they mean together (it need not type-check)."""
    OK = {"id": ['"abc"', '"r#type"', '"größe"', '"_x"', '"Abc"'], "expr": ['"x()"', '"1"', "3", "{ y }", "x()", '"let a = 1; a"', "self.q", "None", "|a| a", '"/* c */ 1 // d"'], "path": ['"a"', '"a::b"', '"Self::c"', '"::d::e"', '"crate::f<u8>::g"'], "vis": ['"pub"', '"pub(crate)"', '"pub(super)"', '"pub(in crate::a)"', '""'],
          "flag": ["", " = true", " = false", ' = "true"', ' = "false"'], "ty": ['"u8"', '"Option<Vec<T>>"', '"&\'a str"', '"[u8; 3]"', '"dyn A + \'static"', '"(u8, T)"']}
    o = lambda p, f: [f()] if r.random() < p else []
    fl = lambda n: n + r.choice(OK["flag"])
    idn = lambda n: "%s = %s" % (n, r.choice(OK["id"]))
    vis = lambda: r.choice(["public", "private", "vis = " + r.choice(OK["vis"])])
    lst = lambda n, xs: "%s(%s)" % (n, ", ".join(r.sample(xs, len(xs)))) if xs or r.random() < .2 else None

    def attr(xs):
        xs = [x for x in xs if x]
        r.shuffle(xs)
        t, i = "", 0
        while i < len(xs):
            j = r.randint(i + 1, len(xs))
            t += "#[builder(%s%s)]\n" % (", ".join(xs[i:j]), r.choice(["", "", ","]))
            i = j
        return t
    nf = r.choice([0, 1, 2, 3, 5])
    fs = ""
    for i in range(nf):
        xs = []
        cust = r.random() < .3
        if cust: xs.append(lst("field", o(.6, lambda: "ty = " + r.choice(OK["ty"])) + o(.6, lambda: "build = " + r.choice([x for x in OK["expr"] if x != "3"])) + o(.3, vis)))
        else:
            xs += o(.4, lambda: r.choice(["default", "default = " + r.choice(OK["expr"])]))
            if r.random() < .2: xs.append(lst("field", o(.8, vis)))
        if r.random() < .15: xs.append("setter")
        elif r.random() < .6:
            xs.append(lst("setter", o(.3, lambda: fl("into")) + o(.3, lambda: fl("strip_option")) + o(.2, lambda: fl("skip")) + o(.2, lambda: fl("custom")) + o(.2, lambda: idn("prefix")) + o(.2, lambda: idn("name"))
                          + o(.25, lambda: r.choice([idn("each"), lst("each", [idn("name")] + o(.5, lambda: fl("into")))]))))
        xs += o(.2, lambda: "try_setter") + o(.25, vis) + o(.3, lambda: "pattern = \"%s\"" % r.choice(["owned", "mutable", "immutable"]))
        fs += attr(xs) + (r.choice(["/// d", "#[cfg(a)]", "#[allow(b)]", "#[serde(c)]", "#[builder_field_attr(d)]", "#[builder_setter_attr(e(f))]"]) if r.random() < .2 else "") + "\n" + "%s%s: %s,\n" % (r.choice(VISES[:6]), r.choice(["f%d", "_%d", "größe%d"]) % i, r.choice(["u8", "Option<T>", "Vec<u8>", "&'a str", "[T; N]", "fn(u8) -> u8", "Box<dyn Fn()>", "<T as A>::B", "m!()"]))
    xs = o(.3, lambda: "pattern = \"%s\"" % r.choice(["owned", "mutable", "immutable"])) + o(.2, lambda: idn("name")) + o(.2, lambda: "crate = " + r.choice(OK["path"][:4])) + o(.2, vis) + o(.15, lambda: "no_std") + o(.2, lambda: "custom_constructor") + o(.2, lambda: idn("create_empty")) + o(.2, lambda: "try_setter")
    xs += o(.25, lambda: r.choice(["default", "default = " + r.choice(OK["expr"])])) + o(.25, lambda: "derive(%s)" % ", ".join(r.sample(["Debug", "PartialEq", "a::B", "::c::D"], r.randint(0, 3)))) + o(.2, lambda: lst("field", o(.8, vis)))
    xs += o(.4, lambda: lst("setter", o(.4, lambda: fl("into")) + o(.4, lambda: fl("strip_option")) + o(.3, lambda: fl("skip")) + o(.3, lambda: idn("prefix"))))
    noval = r.random() < .3
    bf = o(.3, lambda: fl("skip")) + o(.3, lambda: idn("name")) + o(.3, vis)
    if noval: bf.append("error(validation_error%s)" % r.choice([" = false", ' = "false"']))
    else: bf += o(.4, lambda: "validate = " + r.choice(OK["path"][:4])) + o(.4, lambda: r.choice(["error = " + r.choice(OK["path"]), "error(validation_error = true)"]))
    xs += o(.5, lambda: lst("build_fn", bf))
    g = r.choice([("", ""), ("", ""), ("<T>", ""), ("<'a, T: Clone, const N: usize>", ""), ("<T>", "where T: A"), ("<'a: 'a, T = u8>", "where T: for<'b> B<'b>,")])
    return attr(xs) + "%sstruct Foo%s %s {\n%s}\n" % (r.choice(VISES[:6]), g[0], g[1], fs)


def p18(res, tier, seed, workdir):
    mac()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    import mistakes
    n, nbase, nsoup, npad = (16, 600, 1500, 12) if tier == "quick" else (160, 1000, 4000, 150)

    def one(c):
        r = random.Random("p18/%d/%d" % (seed, c))
        cs, meta, pads = [], {}, {}
        for b in range(nbase):
            s = spec.gen_spec(r, b, dict(vis=.25, bfskip=.1, f_skip=.15, s_skip=.1, f_each=.2, nf=[1, 2, 3, 4, 5]))
            sd = r.randrange(1 << 20)
            cs.append(("ok%d" % b, "", item_text(s)))
            ms = place_mistakes(r, s, r.choice([1, 1, 2, 2, 3, 4]))
            alone = []
            for j, m in enumerate(ms):
                cs.append(("one%d.%d" % (b, j), "", with_mistakes(s, [m], sd)))
            if len(ms) > 1: cs.append(("all%d" % b, "", with_mistakes(s, ms, sd)))
            meta[b] = ms
        # every documented mistake, on an otherwise plain definition, in every run
        for j, (cl, ls) in enumerate(mistakes.FIELD):
            if j % n == c: cs.append(("fx%d" % j, "", "struct Foo {\n a: u8,\n%s\n b: u8,\n c: u8 }\n" % "\n".join(ls)))
        for j, (cl, ls) in enumerate(mistakes.STRUCT):
            if j % n == c: cs.append(("sx%d" % j, "", "%s\nstruct Foo { a: u8, b: u8 }\n" % "\n".join(ls)))
        # and in the company of valid options
        for v in range(npad):
            for j, (cl, ls) in enumerate(mistakes.FIELD):
                if j % n == c:
                    ls = mistakes.padded(r, "field", ls)
                    at = r.choice(["", "#[builder(setter(skip))]\n", "#[builder(try_setter, setter(into))]\n", "#[builder(pattern = \"owned\", default)]\n", "#[builder(build_fn(skip))]\n", "#[builder(no_std)]\n"])
                    pads["px%d.%d" % (v, j)] = ("field", cl, ls)
                    cs.append(("px%d.%d" % (v, j), "", at + "struct Foo {\n a: u8,\n%s\n b: %s,\n c: u8 }\n" % ("\n".join(ls), r.choice(["u8", "Option<u8>", "Vec<u8>", "Option<Vec<u8>>", "&'static str"]))))
            for j, (cl, ls) in enumerate(mistakes.STRUCT):
                if j % n == c:
                    ls = mistakes.padded(r, "struct", ls)
                    pads["py%d.%d" % (v, j)] = ("struct", cl, ls)
                    cs.append(("py%d.%d" % (v, j), "", "%s\nstruct Foo { %s }\n" % ("\n".join(ls), r.choice(["a: u8, b: u8", "", "#[builder(default)] a: u8", "#[builder(setter(skip))] a: u8, b: Option<u8>"]))))
        for j, x in enumerate(mistakes.ITEMS):
            for k, pre in enumerate(["", "#[builder(pattern = \"owned\")]\n", "#[builder(setter(into), default, build_fn(skip))]\npub ", "#[builder(foo)]\n", "#[builder_struct_attr(x)]\n"]):
                if (j + k) % n == c: cs.append(("it%d.%d" % (j, k), "", pre + x % "Foo"))
        for j in range(nsoup): cs.append(("soup%d" % j, r.choice(["", "g"]), soup(r)))
        try: f = facts(workdir, "c%d" % c, cs)
        except HarnessError as e: return str(e), {}, set(), [], []
        txt = {i: t for i, fl, t in cs}
        counts, keys, viol = {}, set(), []

        def seen(k, key):
            counts[k] = counts.get(k, 0) + 1
            keys.add((k, key))
        for i, fl, t in cs:
            d = f[i]
            k = kind_of(d)
            if k == "not-an-item":
                if i.startswith(("ok", "soup")): return "the generator wrote something that is not an item: %s\n%s" % (d, t), {}, set(), [], []
                counts["not an item"] = counts.get("not an item", 0) + 1
                continue
            if i.startswith(("ok", "soup")):
                seen("valid", (len(t) // 40, len(d.get("items", []))))
                if k != "expanded": viol.append(("valid-rejected:" + re.sub(r"`[^`]*`|\d+", "_", d["errors"][0]["msg"] if d.get("errors") else k)[:60], "documented options in an allowed combination are rejected: %s" % (d.get("errors") or d.get("panic") or d.get("bad")), t))
            elif i.startswith("all"):
                ms = meta[int(i[3:])]
                want = {}
                for j in range(len(ms)):
                    dj = f["one%s.%d" % (i[3:], j)]
                    for e in dj.get("errors", []): want.setdefault(e["msg"], 0)
                    one_ = {}
                    for e in dj.get("errors", []): one_[e["msg"]] = one_.get(e["msg"], 0) + 1
                    for m_, q in one_.items(): want[m_] += q
                got = {}
                for e in d.get("errors", []): got[e["msg"]] = got.get(e["msg"], 0) + 1
                seen("reported together", tuple(sorted(m[1] for m in ms)))
                miss = [m_ for m_, q in want.items() if got.get(m_, 0) < q]
                if any(kind_of(f["one%s.%d" % (i[3:], j)]) == "not-an-item" for j in range(len(ms))): continue
                if miss or k != "rejected": viol.append(("not-together:" + "/".join(sorted(m[1] for m in ms))[:80], "of %d independent mistakes not all are reported; missing: %s; got: %s" % (len(ms), miss, sorted(got)), t))
            else:
                if i.startswith("one"):
                    b, j = i[3:].split(".")
                    m = meta[int(b)][int(j)]
                elif i.startswith("fx"): m = ("field",) + mistakes.FIELD[int(i[2:])]
                elif i.startswith("p"): m = pads[i]
                elif i.startswith("sx"): m = ("struct",) + mistakes.STRUCT[int(i[2:])]
                else: m = ("item", "unsupported item", (t,))
                seen("rejected", (m[0] if isinstance(m[0], str) else "field", m[1], m[2]))
                if k != "rejected":
                    viol.append(("accepted:%s:%s" % (m[1], " ".join(m[2])[:80]), "a definition with a mistake (%s: %s) is %s" % (m[1], " ".join(m[2]), k if k != "panic" else "a panic: " + d["panic"]), t))
        return None, counts, keys, viol, [txt["one0.0"], txt["soup0"]]
    errs = []
    for err, counts, keys, viol, more in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items():
            res.count("checks:" + k, v)
            res.evaluations += v
        res.distinct |= keys
        for x in more: res.sample(x[:700])
        for sig, msg, t in viol: res.violate(sig, "%s\n\ninput:\n%s" % (msg, t[:4000]), {"input.rs": t, "case.txt": "@@ 0\n" + t})
    if errs and not res.violations: raise HarnessError("; ".join(errs)[:2000])


# ------------------------------------------------------------------------------------------ P19
def shim():
    """The interposed libc, built next to the macro."""
    out = os.path.join(common.target_dir(), "shim.so")
    src = os.path.join(MACDIR, "shim.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = "%s.%d" % (out, os.getpid())
        common.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def texts(path, env=None, cwd=None, timeout=300):
    """{id: expansion text} of one process, and what it wrote to stderr."""
    r = subprocess.run([mac(), "text", path], capture_output=True, text=True, timeout=timeout, env=env or common.env(), cwd=cwd)
    if r.returncode != 0: raise HarnessError("mac text failed: %s" % r.stderr[-500:])
    out, cur = {}, None
    for l in r.stdout.split("\n"):
        if l.startswith("@@ "):
            cur = l[3:]
            out[cur] = ""
        elif cur is not None: out[cur] += l + "\n"
    return {k: v.rstrip("\n") for k, v in out.items()}, r.stderr


def fnv(s):
    h = 0xcbf29ce484222325
    for b in s.encode(): h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    return "%016x" % h


def relatives(r, text):
    """Definitions that share names with this one and differ in a detail."""
    out = []
    ls = text.splitlines(True)
    at = [i for i, l in enumerate(ls) if l.strip().startswith("#[builder")]
    if at:
        i = r.choice(at)
        out.append("".join(ls[:i] + ls[i + 1:]))
        j = r.choice(at)
        out.append("".join(ls[:j] + ["    #[builder(setter(into))]\n"] + ls[j:]))
    out.append(mutate(r, text))
    # the same last segment behind another path, the same name on another struct, the same attributes on other types
    for a, b in r.sample([(r"(?<![\w:])Option<", "my::Option<"), (r"(?<![\w:])(Vec|String|Box)\b", r"crate::\1"), (r"::rt::my::Option<", "Option<"), (r"(?<![\w:])Option<", "::std::option::Option<"), (r"\bstruct (\w+)", r"struct \1x"), (r"\bpub ", "pub(crate) ")], 2):
        t = re.sub(a, b, text)
        if t != text: out.append(t)
    out.append(re.sub(r"\b(u8|i64|bool|String|Tr|Int)\b", lambda m: r.choice(["u8", "i64", "Option<u8>", m.group(1)]), text, count=4))
    return out


def p19(res, tier, seed, workdir):
    """The same definition expanded again and again, under everything that may differ between two expansions."""
    import build
    mac(); so = shim(); common.base(); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per, reps, nrustc, rper = (8, 90, 4, 8, 12) if tier == "quick" else (64, 120, 12, 64, 14)

    def one(c):
        r = random.Random("p19/%d/%d" % (seed, c))
        viol, counts, keys = [], {}, set()
        T = []
        for t in corpus(r, per - per // 3) + corpus(r, per // 3, dict(p_look=.4, opt_bias=.4, s_strip=.4, f_strip=.4, f_each=.2, s_try=.3)):
            T.append(t)
            T += relatives(r, t)
        T += [hostile_item(r) for _ in range(per)]
        T = [t for t in T if "\n@@ " not in "\n" + t]
        cs = [("k%d" % i, r.choice(["", "", "g"]), t) for i, t in enumerate(T)]
        src = {i: t for i, fl, t in cs}
        # reference: every definition alone in a process of its own
        ref = {}
        one_p = os.path.join(workdir, "one%d" % c)
        for x in cs:
            write_cases(one_p, [x])
            ref.update(texts(one_p)[0])
        live = {i for i in ref if ref[i] != "input"}
        href = {i: fnv(ref[i]) for i in ref}

        def cmp(what, i, ok, got=None):
            if i not in live: return
            counts[what] = counts.get(what, 0) + 1
            keys.add((what, href[i]))
            if not ok and len(viol) < 30:
                viol.append(("impure:" + what, "the expansion of the same definition differs (%s)\nalone in a fresh process:\n%s\n\nhere:\n%s" % (what, ref[i][:1500], (got or "")[:1500]), src[i]))
        p = os.path.join(workdir, "all%d" % c)
        # together in one process, in shuffled orders, with perturbed environments
        for k in range(9):
            sh = list(cs)
            r.shuffle(sh)
            write_cases(p, sh)
            e, cwd, what = common.env(), None, "other order"
            if k:
                e.update(LD_PRELOAD=so, SHIM_MODE=str(k % 6))
                what = "interposed environment, time, randomness and files"
            if k >= 6:
                what = "other environment and directory"
                cwd = os.path.join(workdir, "cwd%d.%d" % (c, k))
                os.makedirs(cwd, exist_ok=True)
                e = {"PATH": e["PATH"], "HOME": cwd, "LANG": r.choice(["C", "de_DE.UTF-8", "tr_TR.UTF-8"]), "TZ": "Pacific/Apia", "CARGO_PKG_NAME": "derive_builder", "CARGO_CRATE_NAME": r.choice(["std", "core", "x"]), "CARGO_MANIFEST_DIR": cwd, "PROFILE": "release",
                     "OUT_DIR": cwd, "DEBUG": "1", "NO_STD": "1", "CARGO_CFG_NO_STD": "1", "RUSTFLAGS": "--cfg x", "DERIVE_BUILDER": "1", "CARGO_PKG_VERSION": "9.9.9", "CARGO_MANIFEST_PATH": cwd + "/Cargo.toml", "CARGO_FEATURE_ALLOC": "1", "TERM": "dumb", "LD_PRELOAD": so, "SHIM_MODE": "0"}
            got, err = texts(p, e, cwd)
            for i, t in got.items(): cmp(what, i, t == ref[i], t)
            m = re.search(r"SHIM mode=\d+ calls=(\d+)", err)
            if k and not m: return "the interposed libc was not loaded: %s" % err[-300:], {}, set(), [], 0
            if m: counts["interposed calls seen"] = counts.get("interposed calls seen", 0) + int(m.group(1))
        # many threads at once, each in its own order, many times
        for th in (1, 8):
            write_cases(p, cs)
            rr = common.run([mac(), "hash", p, str(seed * 100 + c + 1), str(th), str(reps)], timeout=600)
            if rr.returncode != 0: return "mac hash failed: %s" % rr.stderr[-300:], {}, set(), [], 0
            for l in rr.stdout.splitlines():
                i, h = l.split()
                cmp("repeated in %s" % ("one thread" if th == 1 else "8 threads"), i, h == href[i])
        return None, counts, keys, viol, len(live)

    def through(c):
        """The compiler's own expansions of the same modules, in another order, company, crate name and environment."""
        r = random.Random("p19r/%d/%d" % (seed, c))
        specs = [spec.gen_spec(r, i, dict(vis=.2)) for i in range(rper)]
        mods = {s.id: spec.render(s, driver=False) for s in specs}
        counts, keys, viol = {}, set(), []

        def expand(ids, tag, env, extra=()):
            src = os.path.join(workdir, "x%d_%s.rs" % (c, tag))
            with open(src, "w") as f:
                f.write(spec.PRELUDE)
                for i in ids: f.write("mod begin_%d {}\n%smod end_%d {}\n" % (i, mods[i], i))
                f.write("fn main() {}\n")
            e = dict(common.env(), RUSTC_BOOTSTRAP="1", **env)
            rr = common.run(build.rustc_cmd(src, src + ".out", "2021", extra=("-Zunpretty=expanded", "--cap-lints", "allow", *extra)), env=e, timeout=300)
            t = open(src + ".out").read() if os.path.exists(src + ".out") else rr.stdout
            out = {}
            for i in ids:
                m = re.search(r"mod begin_%d \{ ?\}(.*?)mod end_%d \{" % (i, i), t, re.S)
                if m: out[i] = m.group(1)
            return out, rr
        ids = list(mods)
        a, rr = expand(ids, "a", {})
        if not a: return "no expansion from rustc: %s" % rr.stderr[-600:], {}, set(), [], 0
        sh = ids[:]
        r.shuffle(sh)
        b, _ = expand(sh, "b", {"CARGO_PKG_NAME": "other", "CARGO_CRATE_NAME": "derive_builder", "CARGO_MANIFEST_DIR": "/"}, ("--crate-name", "other"))
        d, _ = expand(ids + sh[:0], "c", {"SOURCE_DATE_EPOCH": "1"}, ("-C", "opt-level=3", "--test"))
        runs = [("rustc, other order", b), ("rustc, other settings", d)]
        for i in r.sample(ids, min(3, len(ids))): runs.append(("rustc, alone", expand([i], "s%d" % i, {})[0]))
        for what, got in runs:
            for i, t in got.items():
                if i not in a: continue
                counts[what] = counts.get(what, 0) + 1
                keys.add((what, c, i))
                if t != a[i]: viol.append(("impure:" + what, "the compiler's expansion of the same definition differs (%s)" % what, mods[i]))
        return None, counts, keys, viol, 0
    errs = []
    for err, counts, keys, viol, live in common.fork_map(lambda k: one(k) if k < n else through(k - n), range(n + nrustc)):
        if err:
            errs.append(err)
            continue
        res.count("definitions", live)
        for k, v in counts.items():
            res.count(k, v)
            if k != "interposed calls seen": res.evaluations += v
        res.distinct |= keys
        for sig, msg, t in viol: res.violate(sig, "%s\n\ninput:\n%s" % (msg, t[:3000]), {"input.rs": t})
    res.sample(corpus(random.Random(seed), 1)[0])
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise HarnessError("; ".join(errs)[:2000])
