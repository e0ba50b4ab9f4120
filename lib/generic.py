"""P12: definitions with kinds of generics the other generators do not write (unsized, higher-ranked, iterator and closure parameters,
const parameters of other types, bounds between parameters), each run under several instantiations against a struct literal, and
mentioned with instantiations that satisfy the bounds or do not."""
import json, os, random, re, shutil
import build, common
from common import HarnessError

PRELUDE = '''#![allow(warnings)]
extern crate derive_builder;
pub mod lib {
    #[derive(Debug, PartialEq, Default)] pub struct Nc(pub i64);
    #[derive(Clone, Debug, PartialEq)] pub struct Flag<const B: bool>(pub i64);
    #[derive(Clone, Debug, PartialEq)] pub struct Chr<const C: char>;
    pub trait Ob { fn ob(&self) -> String; }
    pub trait Conv<X> { fn conv(x: X) -> Self; }
    impl Conv<i32> for i64 { fn conv(x: i32) -> i64 { x as i64 } }
    impl Conv<&'static str> for String { fn conv(x: &'static str) -> String { x.to_string() } }
    impl Conv<Nc> for Nc { fn conv(x: Nc) -> Nc { x } }
    impl Ob for i64 { fn ob(&self) -> String { self.to_string() } }
    impl Ob for i32 { fn ob(&self) -> String { self.to_string() } }
    impl Ob for str { fn ob(&self) -> String { format!("{:?}", self) } }
    impl Ob for String { fn ob(&self) -> String { format!("{:?}", self) } }
    impl Ob for Nc { fn ob(&self) -> String { format!("{:?}", self) } }
    impl<const B: bool> Ob for Flag<B> { fn ob(&self) -> String { format!("{}{:?}", B, self) } }
    impl<const C: char> Ob for Chr<C> { fn ob(&self) -> String { C.to_string() } }
    impl Ob for fn(i64) -> i64 { fn ob(&self) -> String { self(3).to_string() } }
    impl Ob for fn(&str) -> &str { fn ob(&self) -> String { self(" x ").to_string() } }
    impl Ob for Box<dyn Fn(i64) -> i64> { fn ob(&self) -> String { self(3).to_string() } }
    impl Ob for Box<dyn Ob> { fn ob(&self) -> String { (**self).ob() } }
    impl<T: Ob + ?Sized> Ob for &T { fn ob(&self) -> String { format!("&{}", (**self).ob()) } }
    impl<T: Ob> Ob for Vec<T> { fn ob(&self) -> String { self.iter().map(|x| x.ob() + ",").collect() } }
    impl<T: Ob> Ob for [T] { fn ob(&self) -> String { self.iter().map(|x| x.ob() + ",").collect() } }
    impl<T: Ob, const N: usize> Ob for [T; N] { fn ob(&self) -> String { self.iter().map(|x| x.ob() + ",").collect() } }
    impl<T: Ob> Ob for Option<T> { fn ob(&self) -> String { match self { Some(x) => format!("Some({})", x.ob()), None => "None".to_string() } } }
    impl<T: Ob, E: Ob> Ob for Result<T, E> { fn ob(&self) -> String { match self { Ok(x) => format!("Ok({})", x.ob()), Err(x) => format!("Err({})", x.ob()) } } }
    impl<T: Ob, U: Ob> Ob for (T, U) { fn ob(&self) -> String { format!("({},{})", self.0.ob(), self.1.ob()) } }
    impl<T: Ob + ?Sized> Ob for std::rc::Rc<T> { fn ob(&self) -> String { format!("rc {}", (**self).ob()) } }
    impl<T: ?Sized> Ob for std::marker::PhantomData<T> { fn ob(&self) -> String { "P".to_string() } }
    impl<T: Ob> Ob for std::vec::IntoIter<T> { fn ob(&self) -> String { self.as_slice().ob() } }
    impl Ob for std::ops::Range<i64> { fn ob(&self) -> String { format!("{:?}", self) } }
    impl<'a> Ob for std::borrow::Cow<'a, str> { fn ob(&self) -> String { format!("{:?}", self) } }
    /// Traits with the names of the standard library's, which promise nothing.
    pub mod look { use super::Ob;
        pub trait Copy {} impl<T: Ob> Copy for T {}
        pub trait Clone {} impl<T: Ob> Clone for T {}
        pub trait Default {} impl<T: Ob> Default for T {}
        pub trait Sized {} impl<T: Ob> Sized for T {}
    }
    pub fn same<T>(_: &T, _: &T) {}
    pub fn twice(x: i64) -> i64 { 2 * x }
}
'''
WRAP = [("%s", lambda e: e(0)), ("Vec<%s>", lambda e: "vec![%s, %s]" % (e(0), e(1))), ("Option<%s>", lambda e: "Some(%s)" % e(0)), ("(%s, i64)", lambda e: "(%s, 7i64)" % e(0)),
        ("[%s; 2]", lambda e: "[%s, %s]" % (e(0), e(1))), ("Result<i64, %s>", lambda e: "Err(%s)" % e(0)), ("Option<Option<%s>>", lambda e: "Some(Some(%s))" % e(0)), ("Vec<(%s, i64)>", lambda e: "vec![(%s, 1)]" % e(0))]
PLAIN = [("i64", lambda i: "%di64" % (i + 40), 1), ("String", lambda i: '"s%d".to_string()' % i, 1), ("Nc", lambda i: "Nc(%d)" % i, 0), ("fn(i64) -> i64", lambda i: "twice as fn(i64) -> i64", 1), ("Vec<Nc>", lambda i: "vec![Nc(%d)]" % i, 0),
         ("::std::rc::Rc<Nc>", lambda i: "::std::rc::Rc::new(Nc(%d))" % i, 1), ("&'static str", lambda i: '"r%d"' % i, 1)]

LOOK = ["look::Copy", "look::Clone", "look::Copy + Ob", "look::Default + look::Sized"]


class K:
    """One group of parameters: their declarations, bounds, fields and instantiations."""

    def __init__(self):
        self.params = []     # (name, kind)  kind: 'l', 't', 'c:type'
        self.bounds = []     # (subject, bound text, may be inline)
        self.fields = []     # (type text, {inst index: expression}, observer or None, needs_set)
        self.insts = []      # ([type text or None per param], clone)
        self.bad = []        # [type text per param]
        self.name = ""


def plain(r, n):
    k = K()
    k.name = "plain"
    k.params = [(n, "t")]
    b = r.choice([None, None, "Ob", "Ob + 'static", "::std::marker::Sized", "::std::fmt::Debug"] + LOOK)
    ts = r.sample(PLAIN, 4)
    if b in LOOK: k.bad.append(["::std::cell::Cell<u8>"])
    if b and "Debug" in b: ts = [t for t in ts if t[0] not in ("zz",)]
    if b: k.bounds.append((n, b, True))
    if b and "Ob" in b: k.bad.append(["()"])
    k.insts = [([t[0]], bool(t[2])) for t in ts]
    for w, f in r.sample(WRAP, r.choice([1, 1, 2])):
        k.fields.append((w % n, {i: f(t[1]) for i, t in enumerate(ts)}, None))
    return k


def unsized(r, n):
    k = K()
    k.name = "unsized"
    k.params = [(n, "t")]
    k.bounds = [(n, "?Sized", True), (n, "'static", True)] + ([(n, "Ob", False)] if r.random() < .4 else [])
    k.insts = [(["str"], False), (["[i64]"], False), (["i64"], True), (["dyn Ob"], False), (["String"], True)]
    box = {0: 'Box::from("bx")', 1: "Box::from([1i64, 2])", 2: "Box::new(5i64)", 3: "Box::new(6i64) as Box<dyn Ob>", 4: 'Box::new("q".to_string())'}
    rc = {0: '::std::rc::Rc::from("bx")', 1: "::std::rc::Rc::from([1i64, 2])", 2: "::std::rc::Rc::new(5i64)", 3: "::std::rc::Rc::new(6i64) as ::std::rc::Rc<dyn Ob>", 4: '::std::rc::Rc::new("q".to_string())'}
    ref = {0: '"bx"', 1: "&[1i64, 2]", 2: "&5i64", 3: "&6i64 as &'static dyn Ob", 4: 'Box::leak(Box::new("q".to_string()))'}
    c = r.choice(["box", "rc", "ref", "ph"])
    if c == "box": k.fields = [("Box<%s>" % n, box, "(*{}).ob()")]
    if c == "rc": k.fields = [("::std::rc::Rc<%s>" % n, rc, None)]
    if c == "ref": k.fields = [("&'static %s" % n, {i: "(%s) as &'static %s" % (e, k.insts[i][0][0]) for i, e in ref.items()}, "(*{}).ob()")]
    if c == "ph": k.fields = [("::std::marker::PhantomData<%s>" % n, {i: "::std::marker::PhantomData::<%s>" % k.insts[i][0][0] for i in range(5)}, None)]
    return k


def func(r, n):
    k = K()
    k.name = "closure"
    k.params = [(n, "t")]
    k.bounds = [(n, "Fn(i64) -> i64", True)]
    k.insts = [([None], True), (["fn(i64) -> i64"], True), (["Box<dyn Fn(i64) -> i64>"], False), ([None], False)]
    e = {0: "move |x: i64| x + cap", 1: "twice as fn(i64) -> i64", 2: "Box::new(|x: i64| x - 1) as Box<dyn Fn(i64) -> i64>", 3: "{ let nc = Nc(9); move |x: i64| x + nc.0 }"}
    if r.random() < .5: k.fields = [(n, e, "({})(3).ob()")]
    else: k.fields = [("Option<%s>" % n, {i: "Some(%s)" % x for i, x in e.items()}, "{}.as_ref().map(|g| g(3)).ob()")]
    k.unique = True
    k.bad = [["i64"], ["fn(i64)"]]
    return k


def hrtb(r, n):
    k = K()
    k.name = "higher-ranked"
    k.params = [(n, "t")]
    k.bounds = [(n, "for<'x> Fn(&'x str) -> &'x str", True)]
    k.insts = [([None], True), (["fn(&str) -> &str"], True)]
    k.fields = [(n, {0: "str::trim", 1: "str::trim as fn(&str) -> &str"}, '({})(" x ").ob()')]
    k.bad = [["fn(&'static str) -> &'static str"], ["i64"]]
    return k


def iters(r, n):
    k = K()
    k.name = "iterator"
    k.params = [(n, "t")]
    k.bounds = [(n, "Iterator", True), ("%s::Item" % n, "Clone", False)]
    k.insts = [(["::std::vec::IntoIter<i64>"], True), (["::std::ops::Range<i64>"], True)]
    it = {0: "vec![1i64, 2].into_iter()", 1: "3i64..6"}
    item = {0: "8i64", 1: "9i64"}
    fs = [(n, it, None), ("%s::Item" % n, item, None), ("<%s as Iterator>::Item" % n, item, None), ("Option<%s::Item>" % n, {i: "Some(%s)" % e for i, e in item.items()}, None), ("Vec<<%s as ::std::iter::Iterator>::Item>" % n, {i: "vec![%s]" % e for i, e in item.items()}, None)]
    k.fields = [fs[0]] + r.sample(fs[1:], r.choice([0, 1, 2])) if r.random() < .7 else r.sample(fs[1:], r.choice([1, 2]))
    k.bad = [["i64"], ["::std::vec::IntoIter<Nc>"]]
    return k


def cross(r, n):
    m = n + "2"
    k = K()
    k.name = "bound between parameters"
    k.params = [(n, "t"), (m, "t")]
    k.bounds = [(n, "Conv<%s>" % m, True), (m, "Ob", True)]
    k.insts = [(["i64", "i32"], True), (["String", "&'static str"], True), (["Nc", "Nc"], False)]
    k.fields = [(n, {0: "4i64", 1: '"a".to_string()', 2: "Nc(1)"}, None), (m, {0: "5i32", 1: '"b"', 2: "Nc(2)"}, None)]
    if r.random() < .4: k.fields[1] = ("(%s, %s)" % (m, n), {0: "(5i32, 6i64)", 1: '("b", "c".to_string())', 2: "(Nc(2), Nc(3))"}, None)
    k.bad = [["i64", "String"], ["Nc", "i64"]]
    return k


def eqitem(r, n):
    m = n + "It"
    k = K()
    k.name = "associated type equality"
    k.params = [(n, "t"), (m, "t")]
    k.bounds = [(m, "Iterator<Item = %s>" % n, True)]
    k.insts = [(["i64", "::std::vec::IntoIter<i64>"], True), (["i64", "::std::ops::Range<i64>"], True), (["Nc", "::std::vec::IntoIter<Nc>"], False)]
    k.fields = [(n, {0: "4i64", 1: "3i64", 2: "Nc(1)"}, None), (m, {0: "vec![1i64].into_iter()", 1: "3i64..5", 2: "vec![Nc(5)].into_iter()"}, None)]
    k.bad = [["String", "::std::vec::IntoIter<i64>"]]
    return k


def consts(r, n):
    k = K()
    c = r.choice(["usize", "bool", "char"])
    k.name = "const " + c
    k.params = [(n, "c:" + c)]
    if c == "usize":
        k.insts = [(["0"], True), (["2"], True), (["{ 1 + 2 }"], True)]
        k.fields = [("[i64; %s]" % n, {0: "[]", 1: "[4, 5]", 2: "[1, 2, 3]"}, None)]
        if r.random() < .4: k.bounds = [("[i64; %s]" % n, "::std::fmt::Debug", False)]
    elif c == "bool":
        k.insts = [(["true"], True), (["false"], True)]
        k.fields = [("Flag<%s>" % n, {0: "Flag::<true>(2)", 1: "Flag::<false>(3)"}, None)]
    else:
        k.insts = [(["'x'"], True), (["'\\u{e9}'"], True)]
        k.fields = [("Chr<%s>" % n, {0: "Chr::<'x'>", 1: "Chr::<'\\u{e9}'>"}, None)]
    return k


def life(r, n):
    k = K()
    k.name = "lifetime"
    a, b = "'" + n.lower(), "'" + n.lower() + "2"
    two = r.random() < .5
    k.params = [(a, "l")] + ([(b, "l")] if two else [])
    if two and r.random() < .5: k.bounds = [(b, a, True)]
    k.insts = [([], True)]
    fs = lambda l: r.choice([("&%s str" % l, {0: "&local[..]"}, None), ("::std::borrow::Cow<%s, str>" % l, {0: "::std::borrow::Cow::Borrowed(&local[..])"}, None), ("&%s [i64]" % l, {0: "&arr[..]"}, None), ("Option<&%s String>" % l, {0: "Some(&local)"}, None), ("&%s dyn Ob" % l, {0: "&arr as &dyn Ob"}, "(*{}).ob()")])
    k.fields = [fs(a)] + ([fs(b)] if two else [])
    return k


def skiponly(r, n):
    k = K()
    k.name = "skipped only"
    k.params = [(n, "t")]
    k.insts = [(["i64"], True), (["Nc"], False), (["Vec<Nc>"], False)]
    k.fields = [("::std::marker::PhantomData<%s>" % n, {i: "::std::marker::PhantomData::<%s>" % t[0][0] for i, t in enumerate(k.insts)}, None)]
    if r.random() < .3: k.fields = [("Option<%s>" % n, {i: "None::<%s>" % t[0][0] for i, t in enumerate(k.insts)}, None)]
    k.skip = True
    return k


def dyns(r, n):
    k = K()
    k.name = "dyn"
    k.params = [("'" + n.lower() + "d", "l")]
    l = k.params[0][0]
    k.insts = [([], False)]
    k.fields = [("Box<dyn Fn(i64) -> i64 + %s>" % l, {0: "Box::new(|x: i64| x + arr[0]) as Box<dyn Fn(i64) -> i64 + '_>"}, "({})(3).ob()")]
    return k


KINDS = [plain, plain, plain, unsized, unsized, func, hrtb, iters, cross, eqitem, consts, consts, life, life, skiponly, dyns]
NAMES = ["T", "U", "V", "Item", "F", "Builder", "E", "Error", "W", "Key", "A", "Output", "S", "R", "Tt", "Inner"]


def make(r, idx):
    """(module text, run calls, [(line text, must fail)], key) of one random definition."""
    pat = r.choice(["owned", "owned", "mutable", "immutable", ""])
    owned = pat == "owned"
    mixed = r.random() < .35     # some fields have a pattern of their own, which makes the builder derive Clone
    ks = []
    names = r.sample(NAMES, 4)
    for i in range(r.choice([1, 1, 2, 2, 3])):
        k = r.choice(KINDS)(r, names[i])
        if k.name == "dyn" and (mixed or not owned): continue
        ks.append(k)
    if not ks: return make(r, idx)
    into, tr = r.random() < .2, r.random() < .2
    for k in ks:
        if k.name == "iterator" and owned and not mixed and r.random() < .5:
            k.bounds = k.bounds[:1]
            k.bad = k.bad[:1]
    where, inline = [], {}
    for k in ks:
        for s, b, may in k.bounds:
            if may and r.random() < .55: inline.setdefault(s, []).append(b)
            else: where.append("%s: %s" % (s, b))
    r.shuffle(where)
    ps = [(p, kd, k) for k in ks for p, kd in k.params]
    lf, rest = [p for p in ps if p[1] == "l"], [p for p in ps if p[1] != "l"]
    r.shuffle(rest)
    ps = lf + rest

    def decl(p, kd):
        if kd[0] == "c": return "const %s: %s" % (p, kd[2:])
        return p + (": " + " + ".join(inline[p]) if p in inline else "")
    params = ", ".join(decl(p, kd) for p, kd, _ in ps)
    fields = []
    for k in ks:
        for t, e, o in k.fields: fields.append([k, t, e, o, getattr(k, "skip", False)])
    r.shuffle(fields)
    opts = (["pattern = \"%s\"" % pat] if pat else []) + (["setter(into)"] if into else []) + (["try_setter"] if tr else [])
    # the struct itself may well be an owned one and its builder Clone all the same
    if r.random() < .3 and not (mixed or not owned) and all(k.name not in ("dyn", "closure", "iterator") for k in ks): opts.append("derive(Clone)")
    body, names_ = "", []
    for i, (k, t, e, o, skip) in enumerate(fields):
        n = r.choice(["a%d", "f%d", "value_%d", "item%d"]) % i
        names_.append(n)
        fo = []
        dflt = t.startswith("Option<") and not skip and r.random() < .3
        if skip: fo.append(r.choice(["setter(skip)", "setter(skip), default"]) if "Option" in t or "Phantom" in t else "setter(skip)")
        if dflt: fo.append("default")
        fpat = r.choice(["owned", "mutable", "mutable", "immutable"]) if mixed and r.random() < .5 else ""
        if fpat: fo.append("pattern = \"%s\"" % fpat)
        body += ("        #[builder(%s)]\n" % ", ".join(fo) if fo else "") + "        pub %s: %s,\n" % (n, t)
        fields[i] += [dflt, fpat or pat or "mutable"]
    st = "    use crate::lib::*;\n    #[derive(::derive_builder::Builder)]\n%s    pub struct Foo<%s>%s {\n%s    }\n" % (
        "    #[builder(%s)]\n" % ", ".join(opts) if opts else "", params, " where " + ", ".join(where) + r.choice(["", ","]) if where else "", body)
    # instantiations
    text, calls, combos = st, [], set()
    tries = 0
    while len(combos) < 3 and tries < 25:
        tries += 1
        ch = {id(k): r.randrange(len(k.insts)) for k in ks}
        cl = all(k.insts[ch[id(k)]][1] for k in ks)
        if not cl and (not owned or any(f[6] == "immutable" and not f[4] for f in fields)): continue
        key = tuple(sorted((ks.index(k), ch[id(k)]) for k in ks))
        if key in combos: continue
        tys = {}
        for k in ks:
            ts = iter(k.insts[ch[id(k)]][0])
            for p, kd in k.params:
                if kd != "l": tys[p] = next(ts)
        args = [tys[p] for p, kd, _ in ps if kd != "l"]
        nameable = None not in args
        if (into or tr) and not nameable: continue
        combos.add(key)
        bare = not into and not tr and all(k.name in ("plain", "closure", "higher-ranked", "bound between parameters") or k.name.startswith("const") for k in ks) and not any(f[5] for f in fields)
        path = "FooBuilder" if not args or bare and r.random() < .5 else "FooBuilder::<%s>" % ", ".join(x or "_" for x in args)
        for mode in ("full", "missing"):
            fn = "run%d_%s" % (len(combos), mode)
            req = [n for n, f in zip(names_, fields) if not f[4] and not f[5]]
            if mode == "missing" and (not req or not nameable or not args): continue
            miss = r.choice(req) if mode == "missing" else None
            q = path if mode == "full" else "FooBuilder::<%s>" % ", ".join(args)
            L = ["        let local = \"loc\".to_string(); let arr = [7i64, 8]; let cap = 11i64;", "        let mut b = %s::create_empty();" % q]
            want = []
            for n, (k, t, e, o, skip, dflt, fpat) in zip(names_, fields):
                ex = e[ch[id(k)]]
                unset = dflt and r.random() < .4 or n == miss
                if dflt and unset and t.startswith("Option<") and (not nameable or k.name == "closure"): unset = False
                if not skip and not unset:
                    call = "try_%s(%s).ok().unwrap()" % (n, ex) if tr and r.random() < .5 else "%s(%s)" % (n, ex)
                    L.append("        %sb.%s;" % ("" if fpat == "mutable" else "let mut b = ", call))
                want.append("%s: %s" % (n, "None" if dflt and unset else ex))
            if mode == "missing":
                L.append("        let e = b.build().err().map(|e| e.to_string()); if e.as_deref() != Some(\"`%s` must be initialized\") { return format!(\"missing %s but the error is {:?}\", e); }" % (miss, miss))
            else:
                L.append("        let want%s = Foo { %s };" % ("" if not args else ": Foo<%s>" % ", ".join(["'_"] * len(lf) + [x or "_" for x in args]), ", ".join(want)))
                rounds = ["b"] if owned else ["b", "b", "b.clone()"]
                if getattr(ks[0], "unique", False) or any(None in i for k in ks for i, _ in [k.insts[ch[id(k)]]]):
                    unify = ""
                else: unify = "        same(&x, &want);\n"
                for src in rounds:
                    L.append("        let x = match %s.build() { Ok(x) => x, Err(e) => return e.to_string() };" % src)
                    if unify: L.append(unify.rstrip())
                    for n, (k, t, e, o, skip, dflt, fpat) in zip(names_, fields):
                        g = (lambda v: o.replace("{}", v)) if o and not (dflt and t.startswith("Option<") and "g(3)" not in o) else (lambda v: "Ob::ob(&%s)" % v)
                        L.append("        if %s != %s { return format!(\"field %s is {} instead of {}\", %s, %s); }" % (g("x." + n), g("want." + n), n, g("x." + n), g("want." + n)))
            text += "    pub fn %s() -> String {\n%s\n        String::new()\n    }\n" % (fn, "\n".join(L))
            calls.append(fn)
    # mentions
    neg, pos = [], []
    good = {}
    for k in ks:
        c = [i for i in k.insts if None not in i[0]]
        good[id(k)] = c
    if all(good.values()):
        def args_of(sel):
            tys = {}
            for k in ks:
                ts = iter(sel[id(k)])
                for p, kd in k.params:
                    if kd != "l": tys[p] = next(ts)
            return ", ".join(["'static"] * len(lf) + [tys[p] for p, kd, _ in ps if kd != "l"])
        for _ in range(2):
            sel = {id(k): r.choice(good[id(k)])[0] for k in ks}
            a = args_of(sel)
            if a: pos.append("FooBuilder<%s>" % a)
        for k in ks:
            for b in k.bad:
                sel = {id(x): r.choice(good[id(x)])[0] for x in ks}
                sel[id(k)] = b
                neg.append("FooBuilder<%s>" % args_of(sel))
    key = (tuple(sorted(k.name for k in ks)), pat, into, tr, bool(where), bool(inline))
    return text, calls, pos, neg, key


def explore(res, tier, seed, workdir):
    n, per = (8, 45) if tier == "quick" else (96, 60)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    common.base()

    def one(c):
        r = random.Random("generic/%d/%d" % (seed, c))
        D = {}
        for i in range(per):
            t, calls, pos, neg, key = make(r, i)
            D["m%d" % (c * 1000 + i)] = ("mod m%d {\n%s}\n" % (c * 1000 + i, t), calls, pos, neg, key)
        counts, keys, viol = {}, set(), []

        def count(k, m=1): counts[k] = counts.get(k, 0) + m
        main = lambda ks: "fn main() {\n%s}\n" % "".join("    println!(\"%s %s {}\", %s::%s());\n" % (k, f, k, f) for k in ks for f in D[k][1])
        edition = ["2021", "2018", "2024"][c % 3]
        try:
            binp, bad, _ = build.compile_chunk(workdir, "g%d" % c, PRELUDE, [(k, D[k][0]) for k in D], main, edition)
            out = common.run([binp], timeout=120).stdout if binp else ""
            got = {tuple(l.split(" ", 2)[:2]): l.split(" ", 2)[2] for l in out.splitlines() if l.count(" ") >= 2}
            for k, (t, calls, pos, neg, key) in D.items():
                files = {"m.rs": PRELUDE + t + main([k]), "edition.txt": edition}
                if k in bad:
                    viol.append(("compile:" + "+".join(key[0]), "generics %s, pattern %s: does not compile (edition %s)\n%s" % (key[0], key[1], edition, "\n".join(bad[k])[:2500]), files))
                    continue
                for f in calls:
                    count("instantiations run")
                    keys.add(("generic", "run", f) + key)
                    if got.get((k, f)) != "": viol.append(("behaviour:" + "+".join(key[0]), "generics %s, pattern %s, %s: %s" % (key[0], key[1], f, got.get((k, f), "no result")), files))
            # mentions of the builder's type, well-formed or not
            lines, what = [PRELUDE], {}
            ln = PRELUDE.count("\n") + 1
            for k, (t, calls, pos, neg, key) in D.items():
                if k in bad: continue
                t = t.replace("mod m", "pub mod m", 1)[:-2]
                ln += t.count("\n")
                for j, (x, f) in enumerate([(x, False) for x in pos] + [(x, True) for x in neg]):
                    t += "    pub fn mention%d(_: &%s) {}\n" % (j, x)
                    what[ln] = (k, x, f)
                    ln += 1
                t += "}\n"
                ln += 1
                lines.append(t)
            src = os.path.join(workdir, "n%d.rs" % c)
            with open(src, "w") as f: f.write("".join(lines))
            rr = common.run(build.rustc_cmd(src, os.path.join(workdir, "n%d.rmeta" % c), edition, rt=False, crate_type="lib", extra=("--emit", "metadata", "--cap-lints", "allow")), timeout=300)
            hit = {}
            for l in rr.stderr.splitlines():
                if not l.startswith("{"): continue
                m = json.loads(l)
                if not m.get("level", "").startswith("error"): continue
                for s in m["spans"]:
                    if s["is_primary"] and s["line_start"] in what: hit.setdefault(s["line_start"], []).append(m["rendered"])
                if m["spans"] and not any(s["line_start"] in what for s in m["spans"]): raise HarnessError("mention chunk: " + m["rendered"][:1500])
            for l, (k, x, f) in what.items():
                key = D[k][4]
                count("mentions of builder types " + ("that violate a bound" if f else "that satisfy the bounds"))
                keys.add(("generic", "mention", f) + key)
                if f and l not in hit: viol.append(("bound:" + "+".join(key[0]), "generics %s, pattern %s: the builder's type accepts %s although the struct does not" % (key[0], key[1], x), {"m.rs": PRELUDE + D[k][0]}))
                if not f and l in hit: viol.append(("extra bound:" + "+".join(key[0]), "generics %s, pattern %s: %s is rejected\n%s" % (key[0], key[1], x, "\n".join(hit[l])[:1500]), {"m.rs": PRELUDE + D[k][0]}))
            sample = D[next(iter(D))][0][:1000]
        except HarnessError as e: return str(e), {}, set(), [], None
        for p in ("g%d.bin" % c, "n%d.rmeta" % c):
            p = os.path.join(workdir, p)
            if os.path.exists(p): os.remove(p)
        return None, counts, keys, viol, sample
    errs = []
    for err, counts, keys, viol, sample in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items():
            res.count(k, v)
            res.evaluations += v
        res.distinct |= keys
        res.sample(sample, 8)
        for sig, msg, files in viol: res.violate(sig, msg, files)
    if not res.violations: shutil.rmtree(workdir, ignore_errors=True)
    return errs
