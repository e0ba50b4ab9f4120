"""P01, P07, P09, P15: fields of every syntactic kind of type, with plain, converting, stripping, fallible, each and custom setters, written out or
through user macros; what comes out must be what went in."""
import os, random, shutil
import build, common, spec

PRELUDE = '''#![allow(warnings)]
extern crate derive_builder;
macro_rules! ty { ($t:ty) => { $t }; }
macro_rules! pair { ($a:ty) => { ($a, $a) }; }
pub mod lib {
    pub use std::collections::BTreeMap;
    pub use std::fmt::Debug;
    pub use std::rc::Rc;
    #[derive(Debug, Clone, PartialEq)] pub struct W<T>(pub T);
    #[derive(Debug, Clone, PartialEq)] pub struct C<const N: i64>;
    #[derive(Debug, Clone, PartialEq)] pub struct Nc<'a>(pub &'a str);
    pub trait Tr { type Out; type Gen<'a>; const N: usize; }
    impl Tr for u8 { type Out = String; type Gen<'a> = &'a u8; const N: usize = 2; }
    pub trait Sh { fn sh(&self) -> String; }
    impl Sh for i64 { fn sh(&self) -> String { format!("sh{}", self) } }
    pub trait Assoc { type Item; fn it(&self) -> Self::Item; }
    impl Assoc for i64 { type Item = String; fn it(&self) -> String { format!("it{}", self) } }
    pub mod deep { pub mod er { #[derive(Debug, Clone, PartialEq)] pub struct Option<T>(pub T); #[derive(Debug, Clone, PartialEq)] pub struct Vec_; } }
    pub type Alias<T = u8> = ::std::option::Option<T>;
    pub const N: usize = 3;
    #[derive(Debug, Clone, PartialEq)] pub struct Bag<T>(pub Vec<T>);
    impl<T> Default for Bag<T> { fn default() -> Self { Bag(Vec::new()) } }
    impl<T> Extend<T> for Bag<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for x in i { self.0.push(x); } } }
    pub fn st<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
    pub fn sm<T>(t: T) -> &'static mut T { Box::leak(Box::new(t)) }
    pub fn pick(s: &str) -> &str { s }
    pub fn plus(x: i64) -> i64 { x + 1 }
    pub unsafe extern "C" fn ext(x: i32) -> i32 { x + 2 }
    pub fn never(_: u8) -> ! { panic!() }
}
'''

# (type, values, observer, cloneable); an observer of None is Debug
TYPES = [("u8", ["1", "2"], None, 1), ("()", ["()"], None, 1), ("(u8,)", ["(1,)", "(2,)"], None, 1), ("(u8, (char, [u8; 2]))", ["(1, ('a', [1, 2]))"], None, 1), ("[u8; 3]", ["[1, 2, 3]"], None, 1), ("[u8; N]", ["[1, 2, 3]"], None, 1), ("[u8; { N + 1 }]", ["[1, 2, 3, 4]"], None, 1), ("[u8; N * 2]", ["[0; 6]"], None, 1), ("[u8; <u8 as Tr>::N]", ["[1, 2]"], None, 1), ("[[u8; 2]; 2]", ["[[1, 2], [3, 4]]"], None, 1),
         ("&'static str", ['"a"', '"b"'], None, 1), ("&'static [u8]", ["&[1, 2]"], None, 1), ("&'static &'static u8", ["st(st(1))"], None, 1), ("&'static mut u8", ["sm(1)", "sm(2)"], None, 0), ("&'static dyn Sh", ["st(3i64)"], "{}.sh()", 1), ("&'static (dyn Sh + 'static)", ["st(4i64)"], "{}.sh()", 1), ("Box<dyn Sh>", ["Box::new(5i64)"], "{}.sh()", 0), ("Box<dyn Debug + Send + Sync + 'static>", ["Box::new(6i64)"], None, 0),
         ("Box<dyn Assoc<Item = String>>", ["Box::new(7i64)"], "{}.it()", 0), ("Rc<dyn Fn(i64) -> i64>", ["Rc::new(|x| x + 1)"], "{}(3)", 1), ("Box<dyn Fn(&str) -> &str>", ["Box::new(pick)"], '{}("q")', 0), ("Box<dyn for<'a> Fn(&'a str) -> &'a str + 'static>", ["Box::new(pick)"], '{}("q")', 0),
         ("fn(i64) -> i64", ["plus"], "{}(1)", 1), ("fn()", ["|| ()"], "{}()", 1), ("fn(x: i64) -> i64", ["plus"], "{}(2)", 1), ("fn(u8) -> !", ["never"], "({} as usize != 0)", 1), ("for<'a> fn(&'a str) -> &'a str", ["pick"], '{}("z")', 1), ("fn(&str) -> &str", ["pick"], '{}("z")', 1), ('unsafe extern "C" fn(i32) -> i32', ["ext"], "unsafe { {}(1) }", 1), ("fn(fn(i64) -> i64, i64) -> i64", ["|f, x| f(x)"], "{}(plus, 1)", 1), ("[fn(i64) -> i64; 1]", ["[plus]"], "{}[0](1)", 1),
         ("*const u8", ["::std::ptr::null()"], None, 1), ("*mut u8", ["::std::ptr::null_mut()"], None, 1), ("*const [u8; 2]", ["::std::ptr::null()"], None, 1), ("W<u8>", ["W(1)"], None, 1), ("W<W<u8>>", ["W(W(1))"], None, 1), ("C<3>", ["C"], None, 1), ("C<{ 1 + 2 }>", ["C"], None, 1), ("C<-4>", ["C"], None, 1), ("Nc<'static>", ['Nc("x")'], None, 1), ("W<[C<{ 2 * 2 }>; 2]>", ["W([C, C])"], None, 1),
         ("<u8 as Tr>::Out", ['"o".to_string()'], None, 1), ("<u8 as crate::lib::Tr>::Gen<'static>", ["st(1)"], None, 1), ("<[u8; 2] as ::std::ops::Index<usize>>::Output", ["9"], None, 1), ("<Vec<u8> as IntoIterator>::Item", ["8"], None, 1), ("<Option<u8> as IntoIterator>::IntoIter", ["Some(1).into_iter()"], None, 1), ("::std::string::String", ['"s".to_string()'], None, 1), ("crate::lib::W<u8>", ["W(3)"], None, 1), ("self::W<u8>", ["W(4)"], None, 1), ("super::lib::W<u8>", ["W(5)"], None, 1), ("r#W<u8>", ["W(6)"], None, 1),
         ("Option<u8>", ["Some(1)", "None"], None, 1), ("::std::option::Option<u8>", ["Some(2)", "None"], None, 1), ("core::option::Option<u8>", ["Some(3)", "None"], None, 1), ("Option<Option<u8>>", ["Some(None)", "None", "Some(Some(1))"], None, 1), ("Option<Box<dyn Sh>>", ["Some(Box::new(1i64))"], "{}.as_ref().map(|x| x.sh())", 0), ("Option<fn(i64) -> Option<i64>>", ["Some(|x| Some(x))"], "{}.map(|f| f(1))", 1), ("Option<&'static mut Option<u8>>", ["Some(sm(Some(1)))"], None, 0), ("Option<()>", ["Some(())", "None"], None, 1), ("Option<Result<(), Option<u8>>>", ["Some(Err(None))", "Some(Ok(()))"], None, 1), ("Option<[Option<u8>; 2]>", ["Some([None, Some(1)])"], None, 1), ("Option<<u8 as Tr>::Out>", ["None"], None, 1), ("Option<C<{ 1 + 2 }>>", ["Some(C)"], None, 1),
         ("deep::er::Option<u8>", ["deep::er::Option(1)"], None, 1), ("crate::lib::deep::er::Option<Option<u8>>", ["deep::er::Option(None)"], None, 1), ("Alias", ["Some(1)"], None, 1), ("Alias<i8>", ["Some(-1)"], None, 1), ("Result<u8, Option<u8>>", ["Err(None)", "Ok(1)"], None, 1), ("Vec<Option<u8>>", ["vec![None, Some(1)]"], None, 1), ("BTreeMap<&'static str, Vec<Option<u8>>>", ['BTreeMap::from([("a", vec![None])])'], None, 1), ("Box<Option<u8>>", ["Box::new(Some(1))"], None, 1), ("&'static Option<u8>", ["st(Some(1))"], None, 1), ("(Option<u8>,)", ["(None,)"], None, 1),
         ("(u8)", ["7"], None, 1), ("&'static (u8)", ["st(8)"], None, 1), ("ty!(u8)", ["9"], None, 1), ("pair!(u8)", ["(1, 2)"], None, 1), ("ty!(Option<u8>)", ["Some(10)"], None, 1), ("Vec<ty![u8]>", ["vec![11]"], None, 1), ("::std::borrow::Cow<'static, [u8]>", ["::std::borrow::Cow::Borrowed(&[1])"], None, 1), ("::std::marker::PhantomData<dyn Sh>", ["::std::marker::PhantomData"], None, 1), ("::std::marker::PhantomData<fn(&u8) -> &u8>", ["::std::marker::PhantomData"], None, 1), ("::std::cell::Cell<u8>", ["::std::cell::Cell::new(1)"], None, 1), ("Option<::std::convert::Infallible>", ["None"], None, 1), ("::std::num::Wrapping<u8>", ["::std::num::Wrapping(1)"], None, 1), ("Box<str>", ['"b".into()'], None, 1), ("Box<[Option<u8>]>", ["Box::new([None])"], None, 1), ("Rc<::std::cell::RefCell<Vec<u8>>>", ["Rc::new(::std::cell::RefCell::new(vec![1]))"], None, 1)]


def strippable(t):
    """The type inside a recognised Option, or None."""
    for p in ("Option<", "std::option::Option<", "::std::option::Option<", "core::option::Option<", "::core::option::Option<"):
        if t.startswith(p) and t.endswith(">"): return t[len(p):-1]


def module(r, T, pat, only):
    t, vals, ob, _ = T
    see = lambda x: 'format!("{:?}", %s)' % (ob or "{}").replace("{}", "(%s)" % x)
    v = lambda: r.choice(vals)
    frag = r.random() < .35 and "!(" not in t and "![" not in t
    tt = "$t" if frag else t
    OPT = r.choice(["Option", "Option", "::std::option::Option", "core::option::Option"])
    fs, sets, checks = "", [], []
    mut = pat == "mutable"

    def add(n, ft, opts, calls, want):
        nonlocal fs
        fs += "        #[builder(%s)] pub %s: %s,\n" % (opts, n, ft) if opts else "        pub %s: %s,\n" % (n, ft)
        for c in calls: sets.append("%s%s;" % ("b." if mut else "b = b.", c))
        checks.append((n, want))
    x = [v() for _ in range(8)]
    # an argument of exactly the documented type
    arg = lambda e, ty=t: "{ let v: %s = %s; v }" % (ty, e)
    add("a", tt, "", ["a(%s)" % arg(x[0])], see("{ let v: %s = %s; v }" % (t, x[0])))
    if "b" in only: add("b", tt, "setter(into), try_setter", [r.choice(["b(%s)", "try_b(%s).ok().unwrap()"]) % arg(x[1])], see("{ let v: %s = %s; v }" % (t, x[1])))
    o = lambda e: "match x.%%s { Some(y) => %s, None => \"none\".to_string() }" % e
    inner = see("y")
    want_of = lambda e: see(arg(e))
    opt = []
    for n, opts, calls, w in () if "c" not in only else (("c", "setter(strip_option)", ["c(%s)" % arg(x[2])], x[2]), ("d", "setter(strip_option, into), default, try_setter", r.choice([["d(%s)" % arg(x[3])], ["try_d(%s).ok().unwrap()" % arg(x[3])], []]), x[3])):
        fs += "        #[builder(%s)] pub %s: %s<%s>,\n" % (opts, n, OPT, tt)
        for c in calls: sets.append("%s%s;" % ("b." if mut else "b = b.", c))
        opt.append((n, want_of(w) if calls else '"none".to_string()'))
    k = r.randint(0, 3)
    items = [v() for _ in range(k)]
    into = r.random() < .4
    if "e" in only: fs += "        #[builder(default, setter(each%s))] pub e: Bag<%s>,\n" % ("(name = \"e1\", into)" if into else " = \"e1\"", tt)
    for i in items if "e" in only else (): sets.append("%se1(%s);" % ("b." if mut else "b = b.", arg(i)))
    if "g" in only: fs += "        #[builder(setter(skip))] pub g: %s<%s>,\n" % (OPT, tt)
    h = pat == "owned" and "h" in only
    if h:
        # a type in a string cannot hold a macro fragment
        if not frag:
            fs += "        #[builder(field(ty = %s, build = \"self.h.unwrap()\"))] pub h: %s,\n" % (spec.q("Option<%s>" % t), t)
            sets.append("b = b.h(Some(%s));" % arg(x[4]))
        else: h = False
    inn = strippable(t)
    s = False
    if inn is not None and "c" in only:
        s = True
        fs += "        #[builder(default, setter(strip_option))] pub s: %s,\n" % tt
        sets_s = [e for e in vals if e.startswith("Some(")]
        if sets_s:
            e = r.choice(sets_s)
            sets.append("%ss({ let v: %s = %s; v });" % ("b." if mut else "b = b.", inn, e[5:-1]))
            swant = e
        else: swant = "None"
    item = "    #[derive(::derive_builder::Builder)]\n    #[builder(pattern = \"%s\")]\n    pub struct A {\n%s    }\n" % (pat, fs)
    if frag: item = "    macro_rules! def { ($t:ty) => {\n%s    } }\n    def! { %s }\n" % (item, t)
    body = "        let mut b = ABuilder::default();\n" + "".join("        %s\n" % l for l in sets) + "        let x = b.build().ok().unwrap();\n"
    for n, want in checks: body += "        log.push((\"%s\", { let want = %s; %s == want }));\n" % (n, want, see("x." + n))
    for n, want in opt: body += "        log.push((\"%s\", { let want: String = %s; let got: String = %s; got == want }));\n" % (n, want, o(inner) % n)
    if "g" in only: body += "        log.push((\"g\", x.g.is_none()));\n"
    if h: body += "        log.push((\"h\", { let want = %s; %s == want }));\n" % (see(arg(x[4])), see("x.h"))
    if s: body += "        log.push((\"s\", { let want = %s; %s == want }));\n" % (see("{ let v: %s = %s; v }" % (t, swant)), see("x.s"))
    if "e" in only: body += "        let want: Vec<String> = vec![%s]; let got: Vec<String> = x.e.0.into_iter().map(|y| %s).collect(); log.push((\"e\", got == want));\n" % (", ".join(want_of(i) for i in items), inner)
    txt = "    use crate::lib::*; use crate::lib;\n" + item + "    pub fn go(log: &mut Vec<(&'static str, bool)>) {\n%s    }\n" % body
    return txt, (pat, frag, OPT, into, k)


def explore(res, tier, seed, workdir, only):
    """`only`: the fields a property is about, of (a) plain, b into and fallible, c stripped, e each, g skipped, h custom."""
    common.base()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    rounds, reps = (2, 1) if tier == "quick" else (24, 2)

    def one(c):
        r = random.Random("kinds/%d/%d" % (seed, c))
        D, k = {}, 0
        for T in TYPES * reps:
            pat = r.choice(["owned", "owned", "mutable", "immutable"]) if T[3] and only != "h" else "owned"
            txt, how = module(r, T, pat, only)
            D[k] = (txt, how, T[0])
            k += 1
        main = lambda keys: "fn main() {\n" + "".join("    { let mut l = vec![]; m%d::go(&mut l); for (n, x) in l { println!(\"%d {} {}\", n, x); } }\n" % (k, k) for k in keys) + "}\n"
        edition = r.choice(["2018", "2021", "2021", "2024"])
        viol, counts, keys = [], {}, set()
        try:
            binp, bad, _ = build.compile_chunk(workdir, "k%d" % c, PRELUDE, [(k, "pub mod m%d {\n%s}\n" % (k, D[k][0])) for k in D], main, edition)
            for k in bad:
                txt, how, t = D[k]
                viol.append(("type:%s" % t, "the type %s (%s) does not compile, edition %s:\n%s" % (t, how, edition, "\n".join(bad[k])[:2000]), {"m.rs": PRELUDE + "pub mod m%d {\n%s}\n" % (k, txt) + main([k]), "edition.txt": edition}))
            out = common.run([binp], timeout=120) if binp else None
            if out is None or out.returncode: return "types do not run: %s" % (out and out.stderr[-800:]), {}, set(), viol
            got = {}
            for l in out.stdout.splitlines():
                k, n, ok = l.split()
                got.setdefault(int(k), []).append((n, ok == "true"))
            for k, (txt, how, t) in D.items():
                if k in bad: continue
                if not got.get(k): return "type %s: nothing logged" % t, {}, set(), viol
                counts["fields of tabled types compared"] = counts.get("fields of tabled types compared", 0) + len(got[k])
                keys.add(("kinds", t) + how[:2])
                wrong = [n for n, ok in got[k] if not ok]
                if wrong: viol.append(("type value:%s" % t, "a field of type %s (%s) does not get what was set: %s, edition %s" % (t, how, wrong, edition), {"m.rs": PRELUDE + "pub mod m%d {\n%s}\n" % (k, txt) + main([k]), "edition.txt": edition}))
        except common.HarnessError as x: return str(x), {}, set(), viol
        return None, counts, keys, viol
    errs = []
    for err, counts, keys, viol in common.fork_map(one, range(rounds)):
        if err: errs.append(err)
        for k, v in counts.items():
            res.count(k, v)
            res.evaluations += v
        res.distinct |= keys
        for sig, msg, files in viol: res.violate(sig, msg, files)
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])
