"""Random struct definitions: explicit options, their documented meaning (resolve) and Rust text (render).

A Spec keeps what the user *writes* (struct options `so`, field options `fo`); `resolve` computes what
the documentation says this means, and nothing in here looks at the implementation.
"""
import copy, random
from tys import *
import tys

SD_BASE, BL_BASE = 800_000, 600_000
VFLAG = 60
# what failed validations say: the text has to arrive as it is
VMSGS = ["vfail", "vfail", "", " vfail ", "vfail\n", "two\nlines", "{}", "{braces} {{0}}", "\"quoted\" \\ back", "na\u00efve \u2713", "`field` must be initialized", "%s 100%", "\tTab"]


def rust_str(t):
    return '"%s"' % t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")



PLAIN = ["a", "b", "c1", "foo", "bar", "baz_qux", "x", "y2", "some_longer_name", "id", "count", "kind_of", "q", "w_w", "name2",
         "left", "right", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "el", "tw", "th"]
HOSTILE = ["value", "new", "item", "converted", "into", "clone", "default", "error", "result", "option", "ok", "err", "some", "none",
           "__default", "_under", "_x_", "__", "r#type", "r#fn", "r#match", "r#where", "r#loop", "größe", "变量", "XUpper", "f", "s",
           "try_x", "with_x", "set", "get", "builder", "field", "field_name", "to_string", "from", "extend", "core", "std", "export",
           "alloc", "string", "derive_builder", "crate_", "main", "i64_", "len", "t", "u", "v", "vec", "_0", "a0_1", "self_", "this",
           "other", "inner", "target", "name", "ident", "pub_", "skip", "setter", "each", "prefix", "pattern", "validate", "r#try", "r#dyn", "r#async",
           "a__b", "x_", "trail__", "ABC", "camelCase", "union", "auto", "macro_rules", "with", "r#mod", "_9"]
STRUCTS = ["Foo", "Thing", "Widget", "Lorem", "A", "Conf", "HTTPRequest", "lower", "With_Under", "Größe", "Request2", "Data", "Node"]
RESERVED = {"build", "create_empty"}


class F:
    pass


class Spec:
    def clone(self):
        return copy.deepcopy(self)


def raw(n):
    return n[2:] if n.startswith("r#") else n


DEFAULT_PROFILE = dict(
    nf=[0] + 4 * [1, 2, 3, 3, 4, 4, 5, 6, 8], p_generic=.25, gen_unbound=.3,
    pattern={"": .45, "mutable": .1, "owned": .25, "immutable": .2}, p_fpat=.08,
    s_into=.15, f_into=.2, s_strip=.15, f_strip=.2, s_try=.15, f_try=.15, f_each=.18, p_each_into=.4,
    f_default=.3, sd=.15, f_skip=.07, s_skip=.05, f_custom=.05, f_cty=.1, f_build=.06,
    validate=.2, err={"gen": .6, "genval": .05, "noval": .1, "custom": .25}, s_prefix=.12, f_prefix=.1, f_name=.12, hostile=.35,
    vis=.2, derives=.2, cctor=.07, cempty=.12, bname=.15, bfname=.12, no_std=.05, crate=.08, macro=.12, docs=.2, off=.2,
    types=None, opt_bias=.0, mv=.25, spell=.5, p_self=0, p_look=.07, p_oddcty=.4, p_gx=.08, p_hm=.03, setter_word=.1, big=.04, bfskip=.0, unset_types=False, fallible=.2, panics=.08, sub=.3,
)


def base_types(r, prof, clone_ok_only, generic, no_default=False):
    """One random field type."""
    leaf = [TR] * 6 + [INT, INT, STR, STR, BOOL, UNIT, FN, CH]
    if not clone_ok_only and r.random() < prof["mv"]:
        leaf += [MV] * 8
    if "'a" in generic: leaf += [REF] * 4
    if "T" in generic: leaf += [gen("T")] * 8
    if "U" in generic: leaf += [gen("U")] * 6
    if "K" in generic: leaf += [carr(TR)] * 4
    if "out" in generic: leaf += [out("T")] * 4
    if r.random() < prof["p_hm"]: leaf += [HM] * 12
    if r.random() < prof["p_self"]: leaf = [SLF, SOUT]

    def look(x):
        """Option, or something that is not spelled Option but is one, or the reverse."""
        if r.random() >= prof["p_look"]: return opt(x) if r.random() > .06 else opt(x, r.choice(["::std::option::Option", "::core::option::Option", "std::option::Option", "core::option::Option"]))
        if r.random() < .5: return opt(x, r.choice(["Maybe", "::rt::Maybe"]))
        return mopt(x, r.choice(["::rt::my::Option", "my::Option", "::rt::my::option::Option", "::rt::my::opts::Option", "my::Option_"]))

    def t(d):
        k = r.random()
        if k < prof["opt_bias"]: return look(t(d + 1) if d < 2 else r.choice(leaf))
        k = r.random()
        if d >= 2 or k < .55: return r.choice(leaf)
        c = r.choice(["opt", "opt", "opt", "vec", "vec", "deq", "map", "box", "tup", "arr"])
        if c == "opt": return look(t(d + 1))
        if c == "tup": return tup(t(d + 1), r.choice(leaf))
        if c == "arr": return arr(r.choice([TR, INT]), r.choice([2, 3]))
        if c in ("vec", "deq") and r.random() < 4 * prof["p_hm"]: return coll(t(d + 1))
        if c == "map": return mp(r.choice([TR, INT, STR]))
        x = t(d + 1)
        return {"vec": vec, "deq": deq, "box": bx}[c](x)
    return t(0)


def wchoice(r, d):
    ks = list(d)
    return r.choices(ks, [d[k] for k in ks])[0]


def gen_spec(r, sid, prof):
    """A random valid definition."""
    for _ in range(200):
        s = _gen(r, sid, prof)
        if s is not None:
            return s
    raise RuntimeError("generator stuck")


def _gen(r, sid, prof):
    P = dict(DEFAULT_PROFILE)
    P.update(prof)
    s = Spec()
    s.id = sid
    s.name = r.choice(STRUCTS) if r.random() < P["hostile"] + .2 else "Foo"
    s.so, s.fields = {}, []
    so = s.so
    ch = lambda k: r.random() < P[k]
    # ---------------- generics
    s.params, s.gbound = [], None
    if ch("p_generic"):
        s.params = list(r.choice([("T",), ("T",), ("T", "U"), ("'a",), ("'a", "T"), ("K",), ("T", "K"), ("'a", "T", "U", "K"), ("T", "out"), ("'a", "'b"), ("T", "U")]))
        s.gbound = r.choices(["none", "inline", "where"], [P["gen_unbound"], .35, .35])[0]
        s.pdefault = r.random() < .15
        s.gx = set(x for x in GX if r.random() < P["p_gx"])
    has_ty = any(p in ("T", "U") for p in s.params)
    # ---------------- struct options
    pat = wchoice(r, P["pattern"])
    if pat: so["pattern"] = pat
    spat = pat or "mutable"
    nf = r.choice(P["nf"]) if not ch("big") else r.randint(12, 30)
    fpats = [r.choice(["owned", "mutable", "immutable"]) if ch("p_fpat") else None for _ in range(nf)]
    s.must_clone = spat != "owned" or any(f in ("mutable", "immutable") for f in fpats)
    if "out" in s.params and s.gbound == "none": s.gbound = "where"
    # setter group
    st = {}
    if ch("s_into"): st["into"] = True
    elif ch("off") and r.random() < .3: st["into"] = False
    if ch("s_strip"): st["strip_option"] = True
    elif ch("off") and r.random() < .3: st["strip_option"] = False
    if ch("s_prefix"): st["prefix"] = r.choice(["with", "set", "r#use", "p", "a_b", "_u", "präfix", "with_", "p__", "v2", "a_"])
    if ch("s_skip"): st["skip"] = True
    elif ch("off") and r.random() < .15: st["skip"] = False
    if st: so["setter"] = st
    if ch("s_try"): so["try_setter"] = True
    if ch("bname"): so["name"] = r.choice(["MyBuilder", "Bld", "b_lower", "XBuilderX", "Maker", "_Bld", "Bld_", "MakerError", "Größer"])
    if ch("vis"): so["vis"] = r.choice(["public", "private", "pub(crate)", "pub(super)", "pub", ""])
    if ch("vis"): so["field"] = r.choice(["public", "private", "pub(crate)", "pub(super)", ""])
    s.vis = r.choice(["pub", "pub", "pub", "", "pub(crate)", "pub(super)"])
    if ch("cctor"): so["custom_constructor"] = True
    if ch("cempty"): so["create_empty"] = r.choice(["empty", "mk_empty", "init", "_mk", "mk2_", "r#yield", "new", "new", "default", "default", "builder", "create", "from"])
    if ch("no_std"): so["no_std"] = True
    if ch("crate"): so["crate"] = r.choice(["crate::reexp", "::derive_builder", "crate::reexp::deep"])
    # ---------------- build_fn
    bf = {}
    if ch("bfname"): bf["name"] = r.choice(["finish", "create", "done", "r#try", "build_it", "fallible_build", "_go", "build_", "try_build", "clone", "into", "new", "default"])
    if ch("vis"): bf["vis"] = r.choice(["public", "private", "pub(crate)", "", "pub"])
    s.err = wchoice(r, P["err"])
    if ch("validate") and s.err != "noval":
        bf["validate"] = r.choice(["assoc", "assoc", "free", "path"])
        s.vret = r.choice(["String", "VErr", "own"]) if s.err == "custom" else "String"
        s.vmsg = r.choice(VMSGS)
    s.nouf = False
    if ch("bfskip"): bf["skip"] = True
    if s.err == "genval": bf["error"] = ("val", True)
    if s.err == "noval": bf["error"] = ("val", False)
    if s.err == "custom": bf["error"] = ("path", r.choice(["MyErr", "self::MyErr", "GErr<i64>", "crate::shared::SErr"]))
    if "error" in bf and bf["error"][1] == "crate::shared::SErr" and bf.get("validate"): s.vret = r.choice(["String", "own"])
    so["build_fn"] = bf
    if not bf: del so["build_fn"]
    # ---------------- struct default
    s.sdform = None
    if ch("sd"):
        s.sdform = r.choice(["word", "fn", "expr", "selfdep", "fall"])
        if s.sdform == "fall" and (s.err == "noval"): s.sdform = "fn"
        if s.gbound == "none": s.sdform = None
        if s.sdform == "selfdep" and (has_ty or s.params): s.sdform = "fn"
    if s.sdform: so["default"] = s.sdform
    # ---------------- derives
    s.derives = []
    if ch("derives"):
        cand = ["Debug", "PartialEq"]
        if not s.must_clone: cand.append("Clone")
        if so.get("custom_constructor"): cand.append("Default")
        s.derives = [d for d in cand if r.random() < .6]
        if s.params: s.derives = [d for d in s.derives if d in ("Debug", "Clone")]
        if "out" in s.params: s.derives = []
    if s.derives: so["derive"] = list(s.derives)
    s.has_clone = s.must_clone or "Clone" in s.derives
    # ---------------- instantiation
    env = {}
    tyc = [TR, TR, STR, INT] if s.has_clone else [TR, MV, MV, STR]
    env["T"], env["U"] = r.choice(tyc), r.choice(tyc)
    if "out" in s.params: env["T"] = r.choice([TR, STR] if s.has_clone else [TR, MV])
    env["K"] = r.choice([2, 3])
    s.env = env
    # ---------------- fields
    names, used = [], set()
    pool = list(PLAIN)
    r.shuffle(pool)
    hp = list(HOSTILE)
    r.shuffle(hp)
    for i in range(nf):
        n = hp.pop() if ch("hostile") else (pool.pop() if pool else "fld%d" % i)
        if raw(n) in names: n = "g%d" % i
        names.append(raw(n))
        f = F()
        f.idx, f.name, f.fo = i, n, {}
        s.fields.append(f)
    bfname = bf.get("name", "build")
    cename = so.get("create_empty", "create_empty")
    if raw(bfname) == raw(cename): return None
    methods = {raw(bfname), raw(cename), "check", "helper", "clone_from"}
    for f in s.fields:
        fo, i = f.fo, f.idx
        if fpats[i]: fo["pattern"] = fpats[i]
        f.ty = None
        generic = set(s.params)
        for _ in range(30):
            t = base_types(r, P, s.has_clone, generic) if not P["types"] else r.choice(P["types"])
            f.ty = t
            break
        fs = {}
        is_opt = f.ty[0] == "opt"
        if ch("f_skip"): fs["skip"] = True
        elif ch("off") and r.random() < .15: fs["skip"] = False
        if ch("f_into"): fs["into"] = r.random() < .85
        if ch("f_strip"): fs["strip_option"] = r.random() < .85
        if ch("f_prefix"): fs["prefix"] = r.choice(["fp", "set", "r#use", "with", "r#type", "with_", "z9_", "_q"])
        if ch("f_name"): fs["name"] = r.choice(["nm%d", "set_n%d", "with_%d", "_n%d", "N%d", "ñ%d", "nm%d_", "__n%d", "try_n%d", "n__%d"]) % i if r.random() < .85 else r.choice([g.name for g in s.fields])
        if ch("f_custom"): fs["custom"] = r.random() < .8
        sskip = st.get("skip", False)
        if r.random() < P["setter_word"] and not fs: fs = "word"
        if fs: fo["setter"] = fs
        if ch("f_try"): fo["try_setter"] = True
        if ch("vis"): fo["vis"] = r.choice(["public", "private", "pub(crate)", "pub(super)", ""])
        ff = {}
        if ch("vis"): ff["vis"] = r.choice(["public", "private", "pub(crate)", "", "pub"])
        if ff: fo["field"] = ff
        f.docs = ch("docs")
    resolve(s)
    order = list(s.fields)
    # second pass: options that depend on the resolved ones
    for f in s.fields:
        fo = f.fo
        t = f.ty
        gdep = any(x[0] in ("gen", "out", "carr") for x in walk(t))
        unb = gdep and s.gbound == "none"
        ct = inst(t, env)
        if f.enabled and ch("f_cty") or f.enabled and ch("f_build"):
            form = None
            owned = s.pattern == "owned"
            choices = []
            if owned or copyable(t): choices += ["move"] * 2
            if not unb:
                choices += ["const", "constopt", "fall", "expr2", "bonly", "bonlyfall"]
                choices += ["unwrap", "convint"]
                if not s.has_clone or tys.cloneable(ct): choices += ["unwrap"]
            if s.err == "noval": choices = [c for c in choices if "fall" not in c]
            if choices:
                form = r.choice(choices)
                ff = fo.setdefault("field", {})
                if form == "move": ff["ty"] = t
                elif form in ("const", "fall"): ff["ty"] = r.choice([TR, INT, STR, vec(TR), opt(TR), mp(TR), opt(opt(TR)), UNIT] + ([mopt(TR, r.choice(["::rt::my::Option", "my::Option", "::rt::my::option::Option", "my::Option_"])), coll(TR), HM, tup(TR, opt(TR)), ("box", TR)] if ch("p_oddcty") else []))
                elif form in ("constopt", "expr2"): ff["ty"] = opt(r.choice([TR, INT, vec(TR)]))
                elif form == "unwrap": ff["ty"] = opt(t)
                elif form == "convint": ff["ty"] = INT
                if form != "move": ff["build"] = form
                f.bform = form
                if form == "move" and not (tys.has_default(t) and tys.has_default(ct)): ff.pop("ty"); f.bform = None
                if form == "move" and unb: ff.pop("ty", None); f.bform = None
                if not ff: fo.pop("field", None)
                if form == "unwrap" and unb: return None
                if form in ("unwrap",) and s.pattern != "owned" and not tys.cloneable(ct): return None
        resolve_field(s, f)
        if f.enabled and ch("f_each") and isinstance(fo.get("setter", {}), dict):
            base = f.base
            pt = base[1] if f.stripped else base
            into = r.random() < P["p_each_into"]
            if eachable(inst(pt, env), into):
                fs = fo.setdefault("setter", {})
                fs["each"] = ("each%d" % f.idx if r.random() < .6 else r.choice(["push_%d", "add%d", "_e%d", "é%d"]) % f.idx, into)
                if r.random() < .15 and raw(f.name) != raw(f.sname or f.name): fs["each"] = (f.name, into)
        if not f.bform:
            hd = has_default(ct) and has_default(t)
            need = (not f.enabled) and not (s.sdform) and not hd
            if ch("f_default") or need:
                forms = ["df", "df", "dfb", "multi"]
                if hd and not unb: forms += ["word", "word"]
                if s.err != "noval" and ch("fallible"): forms = ["dfr", "dfrb"]
                if ch("panics"): forms += ["dfp"]
                if s.pattern != "owned": forms += ["dfs"] + ([] if s.params else ["helper", "selfhelper"])
                elif any(g.idx > f.idx and g.enabled for g in s.fields): forms += ["dflater"]
                if t == INT: forms += ["lit"]
                if t == STR: forms += ["lit"]
                if t[0] == "opt": forms += ["lit"]
                if unb: forms = ["litnone"] if t[0] == "opt" else (["litvec"] if t[0] == "vec" else [])
                if s.gbound == "none": forms = [x for x in forms if x != "dfs"]
                if forms: fo["default"] = r.choice(forms)
            if not f.enabled and unb and "default" not in fo and not s.sdform: return None
    resolve(s)
    for f in s.fields:
        if not f.enabled and not f.default and not s.sdform and not (has_default(f.ct) and has_default(f.ty)): return None
        if f.each:
            pt = f.pt
            if not eachable(inst(pt, env), f.each[1]): return None
        if f.enabled and f.base[0] != "opt" and f.cty is None: pass
        for m in (f.sname, f.tname, f.each and f.each[0]):
            if m:
                if raw(m) in methods: return None
                methods.add(raw(m))
    # every type parameter must be used
    txt = " ".join(rust(f.ty) for f in s.fields if f.cty is None)
    extra = []
    for p in s.params:
        if p == "out": continue
        import re
        pat_ = {"'a": r"'a\b", "'b": r"'b\b", "K": r"\bK\b"}.get(p, r"\b%s\b" % p)
        if not re.search(pat_, txt): extra.append(p)
    for p in extra:
        if p == "K": continue    # unused const parameters are fine
        f = F()
        f.idx, f.name, f.fo, f.docs = len(s.fields), "ph_%s" % raw(p).strip("'"), {"setter": {"skip": True}}, False
        f.ty = ph(p) if not p.startswith("'") else ("raw", "::std::marker::PhantomData<&%s ()>" % p)
        s.fields.append(f)
    # required fields exist? then a custom error must convert from UninitializedFieldError
    resolve(s)
    if s.err == "custom" and not any(f.required for f in s.fields) and bf["error"][1] == "MyErr" and r.random() < .5: s.nouf = True
    s.macro = r.choice(["tt", "body", "frag"]) if ch("macro") else None
    if s.macro == "frag" and s.params: s.macro = "tt"
    s.sp = r.random() if ch("spell") else 0
    s.sdshape = r.choice(SHAPES)
    for f in s.fields: f.shape = r.choice(SHAPES)
    s.seed = r.randrange(1 << 30)
    if s.err == "gen" and False: pass
    return s


def srust(s, t):
    """The type as it is written where `Self` is not the struct."""
    return rust(t).replace("Self", s.name + generics(s)[1])


def phc(t):
    return t[0] == "ph" or t[0] == "raw"


def resolve(s):
    so = s.so
    s.pattern = so.get("pattern", "mutable")
    s.builder = so.get("name") or raw(s.name) + "Builder"
    bf = so.get("build_fn", {})
    s.buildname = bf.get("name", "build")
    s.bfskip = bf.get("skip", False)
    s.validate = bf.get("validate")
    s.errty = bf["error"][1] if bf.get("error", ("",))[0] == "path" else s.builder + "Error"
    s.cempty = so.get("create_empty", "create_empty")
    s.sdform = so.get("default")
    for f in s.fields:
        resolve_field(s, f)
    s.must_clone = s.pattern != "owned" or any(f.fo.get("pattern") in ("mutable", "immutable") for f in s.fields)
    s.has_clone = s.must_clone or "Clone" in s.so.get("derive", [])


def resolve_field(s, f):
    so, fo = s.so, f.fo
    sset = so.get("setter", {})
    fset = fo.get("setter", {})
    word = fset == "word"
    if word: fset = {"skip": False}
    # presence
    if "skip" in fset: en = not fset["skip"]
    elif any(k in fset for k in ("prefix", "name", "into", "strip_option", "each")): en = True
    else: en = not sset.get("skip", False)
    f.enabled = en
    f.setter = en and not fset.get("custom", False)
    pre = fset.get("prefix", sset.get("prefix"))
    f.sname = fset.get("name") or ("%s_%s" % (raw(pre), raw(f.name)) if pre else f.name)
    if not f.setter: f.sname_would, f.sname = f.sname, None
    else: f.sname_would = f.sname
    f.into = fset.get("into", sset.get("into", False))
    f.strip = fset.get("strip_option", sset.get("strip_option", False))
    f.try_ = fo.get("try_setter", False) or so.get("try_setter", False)
    f.tname = "try_" + raw(f.sname) if f.setter and f.try_ else None
    f.each = fset.get("each") if f.setter else None
    f.pattern = fo.get("pattern", s.pattern)
    ff = fo.get("field", {})
    f.cty = ff.get("ty") if f.enabled else None
    f.build = ff.get("build")
    f.bform = (f.build or ("move" if ff.get("ty") is not None else None)) if f.enabled else None
    f.base = f.cty or f.ty
    f.stripped = f.strip and f.base[0] == "opt" and f.base[2].split("::")[-1] == "Option"
    f.pt = f.base[1] if f.stripped else f.base
    f.default = fo.get("default")
    f.usesd = f.default is None and s.sdform is not None
    f.required = f.enabled and f.bform is None and f.default is None and not f.usesd
    if phc(f.ty):
        f.ct = ("phc", f.ty) if f.ty[0] == "raw" else inst(f.ty, s.env)
    else:
        f.ct = inst(f.ty, s.env)
    f.bt = (f.cty if f.cty is not None else opt(f.ty)) if f.enabled else None
    if f.enabled and not phc(f.ty):
        f.cbt, f.cpt = inst(f.bt, s.env), inst(f.pt, s.env)
    elif f.enabled:
        f.cbt = f.cpt = None


# ------------------------------------------------------------------------------------------- rendering
def q(x):
    return '"%s"' % x.replace("\\", "\\\\").replace('"', '\\"')


# ways to write an expression as another one of the same value
SHAPES = 8 * ["%s"] + ["'lab: { break 'lab %s }", "'lab: { if true { break 'lab %s; } loop {} }", "match () { () => %s }", "loop { break %s; }", "if true { %s } else { loop {} }", "{ let y = %s; y }", "{ fn inner() {} inner(); %s }"]


def shaped(o, text, name="shape"):
    if ";" in text and not text.startswith("{"): return text
    x = getattr(o, name, "%s")
    if "break" in x and text.startswith("{"): x = "match () { () => %s }"
    return x.replace("%s", text)


def strlit(sp, x):
    """A string literal of that value, in one of Rust's spellings."""
    k = sp.alt("q", "q", "q", "raw", "raw", "esc", "space", "cont")
    if not x or sp.plain and k in ("esc", "cont"): k = "q"
    if k == "raw" and "\r" not in x and '"##' not in x: return ('r"%s"' if '"' not in x and sp.r.random() < .5 else 'r##"%s"##') % x
    i = sp.r.randrange(len(x)) if x else 0
    if k == "esc" and x[i] not in '"\\': return q(x[:i]) [:-1] + sp.r.choice(["\\u{%x}", "\\u{00%x}"]) % ord(x[i]) + q(x[i + 1:])[1:]
    if k == "space": return q(x).replace(" ", "\\x20")
    if k == "cont" and not x[i].isspace(): return q(x[:i])[:-1] + "\\\n            " + q(x[i:])[1:]
    return q(x)


def trivia(sp, text):
    """The expression with comments and line breaks between its tokens."""
    k = sp.r.randrange(4)
    if k == 0: return " /* x */ %s // note" % text
    if k == 1: return "// first\n %s\n" % text
    out, ins = "", False
    for c in text:
        if c == '"': ins = not ins
        out += c
        if not ins and c in "({,;" and sp.r.random() < (.5 if k == 2 else .25): out += sp.r.choice([" // \"note\n ", "\n", " /* /* { */ */ ", " //\n\t"])
    return out


class Sp:
    """Random spelling choices; level 0 always takes the canonical spelling."""

    def __init__(self, seed, level):
        self.r, self.level, self.plain = random.Random(seed), level, False

    def alt(self, canon, *others):
        if self.level and self.r.random() < self.level: return self.r.choice(others)
        return canon

    def attrs(self, items, indent, trailing=True):
        """Split items over one or more #[builder(..)] attributes, maybe reordered."""
        items = list(items)
        if not items: return ""
        if self.level: self.r.shuffle(items)
        groups = [[]]
        for it in items:
            if groups[-1] and self.level and self.r.random() < .4 * self.level: groups.append([])
            groups[-1].append(it)
        return "".join("%s#[builder(%s%s)]\n" % (indent, ", ".join(g), "," if self.level and self.r.random() < .2 else "") for g in groups)


def vis_item(sp, v):
    g = {"public": ("public", 'vis = "pub"'), "pub": ('vis = "pub"', "public"), "private": ("private", 'vis = ""', 'vis = ""', 'vis = "pub(self)"'), "": ('vis = ""', "private"),
         "pub(crate)": ('vis = "pub(crate)"', 'vis = "pub( crate )"', 'vis = "pub(in crate)"'), "pub(super)": ('vis = "pub(super)"', 'vis = "pub(super )"', 'vis = "pub(in super)"')}.get(v)
    return sp.alt(*g) if g else "vis = %s" % q(v)


def flag_item(sp, name, val):
    if val is True: return sp.alt(name, name + " = true", name + ' = "true"')
    return name + " = false"


def tyq(sp, t):
    return q(t)


def default_text(s, f, owned):
    """(expression text, allowed bare?) of a field's default."""
    tag, t, form = f.idx, f.ty, f.default
    if form == "df": return "df(%d)" % tag, True
    if form == "dfb": return "{ let x = df(%d); x }" % tag, True
    if form == "multi": return "let x = df(%d); let y = x; y" % tag, False
    if form == "dfr": return "dfr(%d)?" % tag, True
    if form == "dfrb": return "match dfr(%d) { Ok(v) => v, Err(e) => return Err(e.into()) }" % tag, True
    if form == "dfp": return "dfp(%d)" % tag, True
    if form == "dfs": return "dfs(%d, snap(self))" % tag, True
    if form == "dflater":
        g = [g for g in s.fields if g.idx > f.idx and g.enabled][0]
        if g.bt is None or phc(g.ty) or (s.gbound == "none" and s.params): return "df(%d)" % tag, True
        return "dfs(%d, ob(&self.%s))" % (tag, g.name), True
    if form == "helper": return "Self::helper%d()" % tag, True
    if form == "selfhelper": return "self.shelper%d()" % tag, True
    if form == "litnone": return "None", True
    if form == "litvec": return "Vec::new()", True
    if form == "lit":
        if t == INT: return "77", True
        if t == STR: return '"lit".to_string()', True
        return "None", True
    raise KeyError(form)


def default_value(s, f):
    """Canonical text of the value an evaluated default expression has."""
    form, t = f.default, f.ct
    if form == "word": return dflt(t)
    if form == "lit": return {"int": "i77", "str": "'lit'", "opt": "N"}[t[0]]
    if form == "litnone": return "N"
    if form == "litvec": return "[]"
    return mk(t, DF_BASE + f.idx)


def build_text(s, f):
    tag, form, n = f.idx, f.build, f.name
    owned = s.pattern == "owned"
    if form in ("const", "constopt", "bonly"): return "bl(%d, ob(&self.%s), %d)" % (tag, n, BL_BASE + tag), True
    if form in ("fall", "bonlyfall"): return "blr(%d, ob(&self.%s), %d)?" % (tag, n, BL_BASE + tag), True
    if form == "expr2": return "let seen = ob(&self.%s); let v = bl(%d, seen, %d); v" % (n, tag, BL_BASE + tag), False
    if form == "unwrap":
        if owned: return "{ bls(%d, ob(&self.%s)); self.%s.unwrap_or_else(|| df(%d)) }" % (tag, n, n, tag), True
        return "{ bls(%d, ob(&self.%s)); self.%s.clone().unwrap_or_else(|| df(%d)) }" % (tag, n, n, tag), True
    if form == "convint": return "bl(%d, ob(&self.%s), self.%s)" % (tag, n, n), True
    raise KeyError(form)


def struct_default_text(s):
    if s.sdform == "word": return None
    if s.sdform == "fn": return "sdflt()"
    if s.sdform == "expr": return "{ let d = sdflt(); d }"
    if s.sdform == "selfdep": return "Self::sdassoc()"
    if s.sdform == "fall": return "sdfall()?"


def expr_item(sp, key, text, bare_ok):
    a = "%s = %s" % (key, strlit(sp, text))
    c = "%s = %s" % (key, strlit(sp, trivia(sp, text)) if sp.level else q(text))
    if bare_ok: return sp.alt(a, "%s = %s" % (key, text), "%s = %s" % (key, text), c)
    return sp.alt(a, a, c)


# decorations of the generics that change nothing: outlives bounds, higher-ranked and trivial predicates, trailing commas, ...
GX = ["outlives", "static", "hrtb", "fnptr", "concrete", "vecsized", "trail", "wtrail", "paren", "modsized", "empty where"]


def generics(s):
    d, a, w, c, dn = generics_(s)
    gx = getattr(s, "gx", None)
    if not gx or not d: return d, a, w, c, dn
    tp, lt = [p for p in s.params if p in ("T", "U")], [p for p in s.params if p.startswith("'")]
    p, w = [], w
    if "outlives" in gx and "'b" in lt: p.append("'b: 'a")
    if "outlives" in gx and lt and tp: p.append("%s: %s" % (tp[0], lt[0]))
    if "static" in gx and tp: p.append("%s: 'static" % tp[-1])
    if "hrtb" in gx and tp: p.append("for<'x> &'x %s: ::std::marker::Sized + ::std::marker::Copy" % tp[0])
    if "fnptr" in gx and tp: p.append("for<'x> fn(&'x %s) -> &'x %s: ::std::marker::Copy" % (tp[-1], tp[-1]))
    if "concrete" in gx: p.append("::std::vec::Vec<i64>: ::std::clone::Clone")
    if "vecsized" in gx and tp: p.append("(::std::vec::Vec<%s>, ()): ::std::marker::Sized" % tp[0])
    if "paren" in gx and tp: p.append("%s: (::std::marker::Sized) + ::std::marker::Sized" % tp[0])
    if "modsized" in gx and "K" in s.params: p.append("[(); K]: ::std::marker::Sized")
    if p: w = (w + ", " if w else " where ") + ", ".join(p)
    elif not w and "empty where" in gx: w = " where"
    if "wtrail" in gx and w and w != " where": w += ","
    if "trail" in gx: d, dn = d[:-1] + ",>", dn[:-1] + ",>"
    return d, a, w, c, dn


def generics_(s):
    """(decl with bounds and defaults, args, where clause, driver args, decl without defaults)"""
    if not s.params: return "", "", "", "", ""
    d, a, w, c, dn = [], [], [], [], []
    bound = "::rt::All" + (" + Clone" if s.has_clone and s.sdform and False else "")
    for p in s.params:
        if p == "out": continue
        if p.startswith("'"):
            d.append(p); dn.append(p); a.append(p); c.append("'static")
    for p in s.params:
        if p in ("T", "U"):
            b = bound if s.gbound == "inline" else ""
            if p == "T" and "out" in s.params and s.gbound == "inline": b += " + ::rt::HasOut"
            dn.append(p + (": " + b if b else ""))
            x = dn[-1]
            if getattr(s, "pdefault", False) and p == [y for y in s.params if y in ("T", "U")][-1] and "K" not in s.params:
                x += " = " + crust(s.env[p])
            d.append(x)
            a.append(p); c.append(crust(s.env[p]))
            if s.gbound == "where": w.append("%s: %s" % (p, bound) + (" + ::rt::HasOut" if p == "T" and "out" in s.params else ""))
    for p in s.params:
        if p == "K":
            d.append("const K: usize" + (" = %s" % s.env["K"] if getattr(s, "pdefault", False) else "")); dn.append("const K: usize"); a.append("K"); c.append(str(s.env["K"]))
    if "out" in s.params:
        w.append("<T as ::rt::HasOut>::Out: ::rt::All" + (" + Clone" if s.has_clone else ""))
    if "K" in s.params and s.gbound == "where": pass
    return "<%s>" % ", ".join(d), "<%s>" % ", ".join(a), (" where " + ", ".join(w)) if w else "", "<%s>" % ", ".join(c), "<%s>" % ", ".join(dn)


def builder_attrs(s, sp, indent="    "):
    so = s.so
    it = []
    if "name" in so: it.append("name = %s" % strlit(sp, so["name"]))
    if "pattern" in so: it.append("pattern = %s" % strlit(sp, so["pattern"]))
    if "setter" in so:
        x = so["setter"]
        ss = []
        for k in ("into", "strip_option", "skip"):
            if k in x: ss.append(flag_item(sp, k, x[k]))
        if "prefix" in x: ss.append("prefix = %s" % strlit(sp, x["prefix"]))
        if sp.level: sp.r.shuffle(ss)
        it.append("setter(%s)" % ", ".join(ss))
    if so.get("try_setter"): it.append("try_setter")
    if "vis" in so: it.append(vis_item(sp, so["vis"]))
    if "field" in so: it.append("field(%s)" % vis_item(sp, so["field"]))
    if "derive" in so: it.append("derive(%s)" % ", ".join(so["derive"]))
    if so.get("custom_constructor"): it.append("custom_constructor")
    if "create_empty" in so: it.append("create_empty = %s" % strlit(sp, so["create_empty"]))
    if so.get("no_std"): it.append("no_std")
    if "crate" in so: it.append("crate = %s" % q(so["crate"]))
    if "default" in so:
        t = struct_default_text(s)
        it.append(sp.alt("default", 'default = "::core::default::Default::default()"', "default") if t is None else expr_item(sp, "default", shaped(s, t, "sdshape"), True))
    if "build_fn" in so:
        b = so["build_fn"]
        bs = []
        if "name" in b: bs.append("name = %s" % strlit(sp, b["name"]))
        if "skip" in b: bs.append(flag_item(sp, "skip", b["skip"]))
        if "vis" in b: bs.append(vis_item(sp, b["vis"]))
        if "validate" in b: bs.append("validate = %s" % strlit(sp, {"assoc": "Self::check", "free": "vcheck", "path": "self::vm::vcheck"}[b["validate"]]))
        if "error" in b:
            k, v = b["error"]
            bs.append("error = %s" % strlit(sp, v) if k == "path" else "error(validation_error = %s)" % str(v).lower())
        if sp.level: sp.r.shuffle(bs)
        it.append("build_fn(%s)" % ", ".join(bs))
    return sp.attrs(it, indent)


def field_attrs(s, f, sp, indent="        "):
    fo = f.fo
    it = []
    if "pattern" in fo: it.append("pattern = %s" % strlit(sp, fo["pattern"]))
    if "setter" in fo:
        x = fo["setter"]
        if x == "word": it.append(sp.alt("setter", "setter(skip = false)"))
        else:
            ss = []
            for k in ("into", "strip_option", "skip", "custom"):
                if k in x: ss.append(flag_item(sp, k, x[k]))
            for k in ("prefix", "name"):
                if k in x: ss.append("%s = %s" % (k, strlit(sp, x[k])))
            if "each" in x:
                n, into = x["each"]
                if into: ss.append("each(name = %s, into)" % strlit(sp, n) if sp.alt(0, 1) == 0 else "each(into = true, name = %s)" % strlit(sp, n))
                else: ss.append(sp.alt("each = %s" % strlit(sp, n), "each(name = %s)" % strlit(sp, n), "each(name = %s, into = false)" % strlit(sp, n)))
            if sp.level: sp.r.shuffle(ss)
            it.append("setter(%s)" % ", ".join(ss))
    if fo.get("try_setter"): it.append("try_setter")
    if "vis" in fo: it.append(vis_item(sp, fo["vis"]))
    if "field" in fo:
        x = fo["field"]
        ss = []
        if "vis" in x: ss.append(vis_item(sp, x["vis"]))
        if "ty" in x: ss.append("ty = %s" % strlit(sp, srust(s, x["ty"])))
        if "build" in x and f.build:
            t, bare = build_text(s, f)
            ss.append(expr_item(sp, "build", shaped(f, t), bare))
        if sp.level: sp.r.shuffle(ss)
        if ss: it.append("field(%s)" % ", ".join(ss))
    if f.default is not None:
        if f.default == "word": it.append(sp.alt("default", "default = ::core::default::Default::default()", 'default = "::core::default::Default::default()"', "default"))
        else:
            t, bare = default_text(s, f, s.pattern == "owned")
            it.append(expr_item(sp, "default", shaped(f, t), bare))
    return sp.attrs(it, indent)


def arms(s):
    """Driver arms: {(k, f, v): (expr, meta)} described for both the Rust driver and the model."""
    a = {}
    for f in s.fields:
        if not f.enabled or phc(f.ty): continue
        if f.setter:
            # without `into` the argument type is left to inference: it must be the parameter's exact type
            vs = intos(f.cpt) if f.into else [("mkinf(p)", arg_self(f.cpt)[1], "id")]
            for v, (e, fn, lab) in enumerate(vs):
                a[(1, f.idx, v)] = (e, fn, lab)
        if f.tname:
            for v, x in enumerate(tries(f.cpt)):
                a[(2, f.idx, v)] = x
        if f.each:
            for v, x in enumerate(eachs(inst(f.pt, s.env), f.each[1])):
                a[(3, f.idx, v)] = x
        a[(8, f.idx, 0)] = ("<%s as Mk>::mk(p)" % crust(f.cbt), (lambda t: lambda p: mk(t, p))(f.cbt), "raw")
        if f.cty is None:
            # the states no setter (or only some other setter) brings about: unset again, and set to `None`
            a[(8, f.idx, 1)] = ("::core::option::Option::None", lambda p: "N", "rawnone")
            if f.ct[0] == "opt": a[(8, f.idx, 2)] = ("::core::option::Option::Some(::core::option::Option::None)", lambda p: "S(N)", "rawsome")
    return a


def render_item(s, sp, derive_path="::derive_builder::Builder", extra_struct_attrs="", fextra={}, sextra=()):
    """The annotated struct alone; `fextra` {field index: [lines]} and `sextra` are further attributes."""
    r = random.Random(s.seed ^ 77)
    gd, ga, gw, gc, gdn = generics(s)
    fl = []
    for f in s.fields:
        if f.docs: fl.append("        /// Documentation of the field.\n")
        a = field_attrs(s, f, sp)
        x = "".join("        %s\n" % l for l in fextra.get(f.idx, ()))
        fl.append(x + a if (s.seed >> 3) % 2 else a + x)
        fl.append("        %s%s: %s,\n" % (r.choice(["pub ", "", "pub(crate) "]), f.name, rust(f.ty)))
    head = ""
    if r.random() < .3: head += "    /// A documented struct.\n"
    a, x = builder_attrs(s, sp), "".join("    %s\n" % l for l in sextra)
    return head + "    #[derive(%s)]\n%s%s    %s struct %s%s%s {\n%s    }\n" % (
        derive_path, x + a if (s.seed >> 2) % 2 else a + x, extra_struct_attrs, s.vis, s.name, gd, gw, "".join(fl))


def render(s, sp=None, derive_path="::derive_builder::Builder", extra_struct_attrs="", driver=True, extra="", head_use="    use ::rt::*;\n"):
    """The Rust module for a spec."""
    if sp is None: sp = Sp(s.seed, s.sp)
    gd, ga, gw, gc, gdn = generics(s)
    lines = []
    body = render_item(s, sp, derive_path, extra_struct_attrs)
    if s.macro == "tt":
        body = "    macro_rules! wrap { ($($t:tt)*) => { $($t)* } }\n    wrap! {\n%s    }\n" % body
    elif s.macro == "body":
        body = "    macro_rules! wrap { () => {\n%s    } }\n    wrap!();\n" % body
    elif s.macro == "frag":
        pl = ["$(#[$sm:meta])* $v:vis struct $n:ident { $( $(#[$m:meta])* $fv:vis $f:ident : $t:ty, )* }",
              "$(#[$sm])* $v struct $n { $( $(#[$m])* $fv $f : $t, )* }"]
        body = "    macro_rules! wrap { (%s) => { %s } }\n    wrap! {\n%s    }\n" % (pl[0], pl[1], body)
    lines.append(body)
    BTc, Pc = s.builder + gc, s.name + gc
    # observers
    conc = s.gbound == "none" or not s.params
    bp = "&" + s.builder + ga if not conc else "&" + BTc
    gsn = gdn if not conc else ""
    wsn = gw if not conc else ""
    parts = []
    for f in s.fields:
        parts.append('        o.push_str("-");\n' if not f.enabled else "        b.%s.obs(&mut o);\n" % f.name)
    lines.append("    pub fn snap%s(b: %s) -> String%s {\n        let mut o = String::new();\n%s        o\n    }\n" % (
        gsn, bp, wsn, '        o.push(\'|\');\n'.join(parts)))
    parts = ["        b.%s.obs(&mut o);\n" % f.name for f in s.fields]
    lines.append("    pub fn snapp(b: &%s) -> String {\n        let mut o = String::new();\n%s        o\n    }\n" % (
        Pc, '        o.push(\'|\');\n'.join(parts)))
    if any(x == SOUT for f in s.fields for x in walk(f.ty)):
        lines.append("    impl%s ::rt::HasOut for %s%s%s { type Out = Tr; }\n" % (gdn, s.name, ga, gw))
    if "= " in gd:
        # the builder has the parameter's default, too
        short = [x.strip() for x in gc[1:-1].split(",")] if "," not in "".join(crust(s.env[p]) for p in s.params if p in ("T", "U")) else None
        if short:
            short = "<%s>" % ", ".join(short[:-1]) if short[1:] else ""
            lines.append("    #[allow(dead_code)] fn short(b: %s%s, p: %s%s) -> (%s, %s) { (b, p) }\n" % (s.builder, short, s.name, short, BTc, Pc))
    # struct default
    if s.sdform:
        mkf = "".join("%s: <%s as Mk>::mk(%d), " % (f.name, srust(s, f.ty).replace("&'a str", "&'static str"), SD_BASE + f.idx) for f in s.fields)
        gfd = gdn
        if "'a" in s.params or "'b" in s.params:
            pass
        ret = s.name + ga
        lit = "%s { %s }" % (s.name, mkf)
        if s.sdform == "word":
            lines.append("    impl%s ::std::default::Default for %s%s {\n        fn default() -> Self { ::rt::sd(); %s }\n    }\n" % (gdn, ret, gw, lit))
        elif s.sdform in ("fn", "expr"):
            lines.append("    pub fn sdflt%s() -> %s%s { ::rt::sd(); %s }\n" % (gdn, ret, gw, lit))
        elif s.sdform == "fall":
            lines.append("    pub fn sdfall%s() -> Result<%s, String>%s { ::rt::sd(); if ::rt::flag(61) { return Err(\"sdfail\".to_string()); } Ok(%s) }\n" % (gdn, ret, gw, lit))
        elif s.sdform == "selfdep":
            lines.append("    impl %s { fn sdassoc() -> %s { ::rt::sd(); %s } }\n" % (s.builder, s.name, lit))
    # helpers
    for f in s.fields:
        if f.default == "helper": lines.append("    impl %s { fn helper%d() -> %s { df(%d) } }\n" % (s.builder, f.idx, srust(s, f.ty), f.idx))
        if f.default == "selfhelper": lines.append("    impl %s { fn shelper%d(&self) -> %s { dfs(%d, snap(self)) } }\n" % (s.builder, f.idx, srust(s, f.ty), f.idx))
    # errors
    has_s = s.err != "noval"
    if s.err == "custom":
        e = s.errty
        base = e.replace("self::", "").split("<")[0]
        if not e.startswith("crate::"):
            g = "<G>" if "<" in e else ""
            ga_ = "<i64>" if g else ""
            lines.append("    pub enum %s%s { U(String, String), S(String), V(VErr)%s }\n" % (base, g, ", X(G)" if g else ""))
            lines.append("    pub struct VErr(pub String);\n")
            if not s.nouf:
                lines.append("    impl From<::derive_builder::UninitializedFieldError> for %s%s { fn from(e: ::derive_builder::UninitializedFieldError) -> Self { %s::U(e.field_name().to_string(), e.to_string()) } }\n" % (base, ga_, base))
            lines.append("    impl From<String> for %s%s { fn from(e: String) -> Self { %s::S(e) } }\n" % (base, ga_, base))
            lines.append("    impl From<VErr> for %s%s { fn from(e: VErr) -> Self { %s::V(e) } }\n" % (base, ga_, base))
            lines.append("    pub fn ecan(e: &%s%s) -> String { match e { %s::U(n, d) => format!(\"UF({}) | {}\", n, d), %s::S(m) => format!(\"S({})\", m), %s::V(v) => format!(\"VE({})\", v.0), %s } }\n" % (
                base, ga_, base, base, base, "_ => String::new()" if g else ""))
        else:
            lines.append("    pub fn ecan(e: &crate::shared::SErr) -> String { e.can() }\n")
    else:
        n = s.errty
        ve = "%s::ValidationError(m) => format!(\"VE({}) | {} | {:?}\", m, e, e)," % n if s.err in ("gen", "genval") else ""
        lines.append("    pub fn ecan(e: &%s) -> String { match e { %s::UninitializedField(n) => format!(\"UF({}) | {} | {:?}\", n, e, e), %s _ => \"OTHER\".to_string() } }\n" % (n, n, ve))
    # validation
    if s.validate:
        vret = {"String": "String", "VErr": "VErr", "own": s.errty}[getattr(s, "vret", "String")]
        lit = rust_str(s.vmsg) + ".to_string()"
        mkerr = {"String": lit, "VErr": "VErr(%s)" % lit, "own": "::std::convert::From::from(%s)" % lit}[getattr(s, "vret", "String")]
        seen = "snap(b)" if not (conc and s.params) else '"?".to_string()'
        fnb = "{ ev!(\"VAL {}\", %s); if ::rt::flag(%d) { Err(%s) } else { Ok(()) } }" % (seen, VFLAG, mkerr)
        sig = "vcheck%s(b: &%s) -> Result<(), %s>%s" % (gdn, s.builder + ga, vret, gw)
        if s.validate == "assoc":
            lines.append("    impl%s %s%s { fn check(&self) -> Result<(), %s> { let b = self; %s } }\n" % (gdn, s.builder + ga, gw, vret, fnb))
        elif s.validate == "free":
            lines.append("    fn %s %s\n" % (sig, fnb))
        else:
            lines.append("    mod vm { use super::*; pub fn %s %s }\n" % (sig, fnb))
    if not driver:
        lines = [l for l in lines if not l.startswith("    pub fn ecan")]
        return "pub mod m%d {\n%s%s%s}\n" % (s.id, head_use, "".join(lines), extra)
    # driver
    o = []
    A = arms(s)
    ce = s.cempty
    if not s.so.get("custom_constructor"):
        o.append("(0, _, 0) => { let b = <B as ::std::default::Default>::default(); st.put(op.d, b); }")
    o.append("(0, _, 1) => { let b = B::%s(); st.put(op.d, b); }" % ce)
    if "Default" in s.so.get("derive", []):
        o.append("(0, _, 2) => { let b = <B as ::std::default::Default>::default(); st.put(op.d, b); }")

    def call(pat, meth, e):
        if pat == "owned": return '{ let a = %s; ev!("A"); let b: B = st.take(op.s).%s(a); ev!("Z"); st.put(op.d, b); }' % (e, meth)
        if pat == "immutable": return '{ let a = %s; ev!("A"); let b: B = st.get(op.s).%s(a); ev!("Z"); st.put(op.d, b); }' % (e, meth)
        return '{ let a = %s; ev!("A"); let same = { let bp = st.getm(op.s); let at = bp as *const B as usize; let r: &mut B = bp.%s(a); r as *const B as usize == at }; ev!("Z"); ev!("R same={}", same as u8); }' % (e, meth)

    def tcall(pat, meth, e):
        if pat == "owned": return '{ let a = %s; ev!("A"); let r: Result<B, _> = st.take(op.s).%s(a); ev!("Z"); match r { Ok(b) => { ev!("R ok"); st.put(op.d, b); } Err(e) => ev!("R err {}", e.eo()) } }' % (e, meth)
        if pat == "immutable": return '{ let a = %s; ev!("A"); let r: Result<B, _> = st.get(op.s).%s(a); ev!("Z"); match r { Ok(b) => { ev!("R ok"); st.put(op.d, b); } Err(e) => ev!("R err {}", e.eo()) } }' % (e, meth)
        return '{ let a = %s; ev!("A"); let m = { let bp = st.getm(op.s); let at = bp as *const B as usize; let r: Result<&mut B, _> = bp.%s(a); match r { Ok(r) => { let same = r as *const B as usize == at; format!("R ok same={}", same as u8) } Err(e) => format!("R err {}", e.eo()) } }; ev!("Z"); ev!("{}", m); }' % (e, meth)
    for (k, i, v), x in A.items():
        f = s.fields[i]
        if k == 1: o.append("(1, %d, %d) => %s" % (i, v, call(f.pattern, f.sname, x[0])))
        if k == 2: o.append("(2, %d, %d) => %s" % (i, v, tcall(f.pattern, f.tname, x[0])))
        if k == 3: o.append("(3, %d, %d) => %s" % (i, v, call(f.pattern, f.each[0], x[0])))
        if k == 8: o.append("(8, %d, %d) => { let a: %s = %s; ev!(\"A\"); st.getm(op.s).%s = a; ev!(\"Z\"); }" % (i, v, crust(f.cbt), x[0], f.name))
    if s.has_clone:
        o.append('(4, _, _) => { ev!("A"); let b = <B as Clone>::clone(st.get(op.s)); ev!("Z"); st.put(op.d, b); }')
    if not s.bfskip:
        recv = "{ let b = st.take(op.s); move || b.%s() }" % s.buildname if s.pattern == "owned" else "(|| st.get(op.s).%s())" % s.buildname
        o.append('(5, _, _) => { let call = %s; ev!("A"); let r: ::std::thread::Result<Result<P, %s>> = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(call)); ev!("Z"); match r { Ok(Ok(x)) => { ev!("R ok"); st.putp(op.d, x); } Ok(Err(e)) => ev!("R err {}", ecan(&e).replace("\\n", "\\\\n")), Err(_) => ev!("R panic") } }' % (recv, s.errty))
    o.append("(6, _, _) => { st.b[op.s] = None; }")
    o.append("(7, _, _) => { st.p[op.s] = None; }")
    o.append("(9, _, _) => { ::rt::set_flag(op.f as u32, op.v == 1); }")
    lines.append("""    type B = %s;
    type P = %s;
    pub fn run(ops: &[::rt::Op]) {
        let mut st: ::rt::St<B, P> = ::rt::St::new();
        for op in ops {
            let p = op.p;
            ev!("O {} {} {} {} {} {}", op.k, op.f, op.v, op.s, op.d, op.p);
            match (op.k, op.f, op.v) {
                %s
                _ => panic!("harness: no such op"),
            }
            st.snap(&|b| snap(b));
            st.snapp(&|b| snapp(b));
        }
        ev!("FIN");
    }
""" % (BTc, Pc, "\n                ".join(o)))
    return "pub mod m%d {\n%s%s%s}\n" % (s.id, head_use, "".join(lines), extra)


PRELUDE = """#![allow(warnings)]
#[macro_use] extern crate rt;
extern crate derive_builder;
pub mod reexp { pub use ::derive_builder::*; pub mod deep { pub use ::derive_builder::*; } }
pub mod shared {
    pub enum SErr { U(String, String), S(String) }
    impl SErr { pub fn can(&self) -> String { match self { SErr::U(n, d) => format!("UF({}) | {}", n, d), SErr::S(m) => format!("S({})", m) } } }
    impl From<::derive_builder::UninitializedFieldError> for SErr { fn from(e: ::derive_builder::UninitializedFieldError) -> Self { SErr::U(e.field_name().to_string(), e.to_string()) } }
    impl From<String> for SErr { fn from(e: String) -> Self { SErr::S(e) } }
}
"""


def main_fn(specs):
    return "fn main() { ::rt::main_loop(&|s, ops| { match s { %s _ => return false } true }) }\n" % (
        " ".join("%d => m%d::run(ops)," % (s.id, s.id) for s in specs))
