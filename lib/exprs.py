"""P16: expressions of every syntactic kind, unquoted, quoted, in braces and through user macros, as a field's default, a skipped
field's default, a custom build expression and inside the struct default.  The built object must have the value which the expression
has when it is written as plain code next to the definition."""
import os, random, re, shutil
import build, common, spec

PRELUDE = '''#![allow(warnings)]
extern crate derive_builder;
macro_rules! same { ($e:expr) => { $e }; }
macro_rules! block { ($($t:tt)*) => { { $($t)* } }; }
pub mod lib {
    pub use std::collections::BTreeMap;
    #[derive(Debug, Clone, PartialEq, Default)] pub struct P { pub a: i64, pub b: String }
    #[derive(Debug, Clone, PartialEq)] pub enum E { U, T(i64), S { x: i64 } }
    #[derive(Debug, Clone, PartialEq)] pub struct W<T>(pub T);
    #[derive(Debug, Clone, PartialEq)] pub struct C<const N: i64>;
    impl<const N: i64> C<N> { pub fn n(&self) -> i64 { N } }
    impl P { pub const K: i64 = 19; pub fn new(a: i64) -> Self { P { a: a, b: String::new() } } pub fn with(mut self, b: &str) -> Self { self.b = b.to_string(); self } }
    pub fn id<T>(t: T) -> T { t }
    pub static mut ST: i64 = 31;
    pub const TEN: i64 = 10;
}
'''

# (type, expression); the bare literals, then one of every kind of expression
LITS = [("&'static [u8; 2]", 'b"ab"'), ("&'static [u8; 3]", 'br"a\\b"'), ("&'static [u8; 3]", 'br#"a"b"#'), ("char", "'c'"), ("char", "'\\u{e9}'"), ("char", "'\\''"), ("char", "'\"'"), ("u8", "b'c'"), ("u8", "b'\\''"), ("f64", "1.5"), ("f32", "1e3f32"),
        ("f64", "2e-3"), ("f64", "1."), ("bool", "true"), ("bool", "false"), ("u64", "0xff_u64"), ("u8", "0b1010_1010"), ("u16", "0o17u16"), ("u128", "340282366920938463463374607431768211455"), ("i64", "7"), ("usize", "1_000usize"), ("f64", "3f64")]
EXPRS = [("i8", "-5"), ("i64", "-9223372036854775808"), ("f64", "-1.5e-3"), ("bool", "!true"), ("u8", "!0"), ("&'static i64", "&5"), ("&'static &'static str", '&"x"'), ("i64", "*&5"), ("i64", "- -5"), ("i64", "5 as i64"), ("u8", "300i32 as u8"), ("u8", "'a' as u8"),
         ("(i64, char)", "(1, 'x')"), ("()", "()"), ("(i64,)", "(1,)"), ("[i64; 3]", "[1, 2, 3]"), ("[i64; 4]", "[9; 4]"), ("[u8; 0]", "[]"), ("i64", "[4, 5, 6][1]"), ("i64", "(1, 2).1"), ("i64", "((1, 2), 3).0.1"), ("::std::ops::Range<i64>", "0..3"), ("::std::ops::RangeInclusive<i64>", "0..=3"), ("::std::ops::RangeFrom<i64>", "4.."), ("::std::ops::RangeTo<i64>", "..4"), ("::std::ops::RangeFull", ".."), ("::std::ops::RangeToInclusive<i64>", "..=4"),
         ("P", "P { a: 1, b: String::new() }"), ("P", "P { a: 2, ..P::default() }"), ("P", "P { a: 3, ..Default::default() }"), ("P", 'P::new(4).with("q")'), ("i64", "P::K"), ("i64", "<P>::K"), ("i64", "TEN"), ("i64", "::std::primitive::i64::MAX"), ("i64", "i64::MAX"), ("E", "E::U"), ("E", "E::T(3)"), ("E", "E::S { x: 4 }"), ("W<Vec<u8>>", "W(vec![1])"), ("W<Vec<u8>>", "W::<Vec<u8>>(Vec::new())"), ("Vec<u8>", "Vec::<u8>::with_capacity(3)"), ("Vec<Vec<u8>>", "Vec::<Vec<u8>>::new()"),
         ("C<3>", "C::<3>"), ("i64", "C::<{ 1 + 2 }>.n()"), ("i64", "C::<-4>.n()"), ("String", 'format!("{}-{:?}", 1, "a")'), ("String", 'String::from("a\\"b\\\\c\\n\\t")'), ("String", 'r"a\\b".to_string()'), ("String", 'r#"a"b"#.to_string()'), ("&'static str", 'concat!("a", 1, \'c\')'), ("&'static str", 'stringify!(a + b)'), ("Vec<i64>", "vec![1; 2]"), ("Vec<i64>", "vec! { 1, 2 }"), ("Vec<i64>", "vec!(3)"), ("i64", "same!(1 + 2) * 3"), ("i64", "block! { let q = 4; q + 1 }"), ("bool", "matches!(Some(3), Some(x) if x > 2)"), ("bool", "cfg!(any())"),
         ("i64", "if true { 1 } else { 2 }"), ("i64", "if let Some(x) = Some(3) { x } else { 4 }"), ("i64", "if false { 1 } else if true { 2 } else { 3 }"), ("i64", "match 3 { 0 => 1, 1..=2 => 2, x @ 3 => x * 2, _ => 4 }"), ("i64", "match (1, \"a\") { (1, \"a\") => { 5 } _ => 6 }"), ("i64", "loop { break 7 }"), ("i64", "'l: loop { loop { break 'l 8 } }"), ("i64", "'b: { if true { break 'b 9 } 10 }"), ("()", "while false {}"), ("()", "for _ in 0..2 {}"), ("i64", "unsafe { ST }"), ("i64", "unsafe { *::std::ptr::addr_of!(ST) + 1 }"), ("i64", "{ 11 }"), ("i64", "{ let a = 1; let b = 2; a + b }"), ("i64", "{ fn f() -> i64 { 12 } f() }"), ("i64", "{ use ::std::convert::identity as idt; idt(13) }"), ("i64", "{ const Q: i64 = 14; Q }"), ("i64", "{ struct L(i64); impl L { fn g(self) -> i64 { self.0 } } L(15).g() }"), ("i64", "{ macro_rules! n { () => { 16 } } n!() }"), ("i64", "{ let mut v = 0; v += 17; v }"), ("i64", "{ { { 18 } } }"), ("()", "{ }"), ("()", "{ let _ = 1; }"),
         ("fn(i64) -> i64", "|x| x + 1"), ("fn(i64) -> i64", "|x: i64| -> i64 { x + 2 }"), ("fn() -> i64", "|| 3"), ("fn(i64) -> i64", "id::<i64>"), ("Box<dyn Fn(i64) -> i64>", "Box::new(move |x| x * 2)"), ("i64", "(|| 19)()"), ("i64", "(|a: i64, b: i64| a - b)(5, 3)"), ("Option<i64>", "Some(1).map(|x| x + 1).filter(|&x| x > 1)"), ("Option<i64>", "None"), ("Option<Option<i64>>", "Some(None)"), ("Result<i64, String>", "Ok(1)"), ("Result<i64, String>", "\"5\".parse::<i64>().map_err(|e| e.to_string())"), ("i64", "(1..=4).rev().map(|x| x * x).sum::<i64>()"), ("i64", "1 + 2 * 3 - 4 / 2 % 3 << 1 | 8 & 12 ^ 1"), ("bool", "1 < 2 && 3 > 2 || !(4 <= 3)"), ("bool", "(1 as i64) < 2"), ("bool", "id::<i64>(1) == 1"), ("bool", "1 != 2"), ("i64", "<i64 as ::std::str::FromStr>::from_str(\"20\").unwrap()"), ("i64", "i64::from(3u8)"), ("i64", "<i64>::from(3u8)"), ("Box<[i64]>", "Box::new([1i64, 2]) as Box<[i64]>"), ("BTreeMap<&'static str, Vec<i64>>", "BTreeMap::from([(\"a\", vec![1, 2]), (\"b\", vec![])])"), ("i64", "(((21)))"), ("i64", "{ return_me() }"), ("i64", "('x'.len_utf8() as i64) << 2"), ("&'static str", "if let \"a\" = \"a\" { \"yes\" } else { \"no\" }"), ("i64", "{ #[allow(unused)] let z = 23; z }"), ("i64", "{ let (a, b) = (1, 2); a * 10 + b }"), ("i64", "{ let Some(a) = Some(24) else { panic!() }; a }"), ("i64", "match 1 { _ if false => 0, 0 | 1 => 25, _ => 2 }"), ("String", "{ let s = \"}\"; s.repeat(2) }"), ("String", "\"// not a comment\".to_string()"), ("String", "\"/* nor this\".to_string()"), ("char", "{ '}' }"), ("char", "'{'"), ("u8", "b'}'"), ("String", "\"\\u{7d}{\".to_owned()")]

WRAPS = ["({})", "{{ {} }}", "if true {{ {} }} else {{ 0 }}", "match {} {{ x => x }}", "(|| {})()", "(|z: i64| z + 0)({})", "'b: {{ break 'b {}; }}", "'l: loop {{ break 'l {}; }}", "{{ let q = {}; q }}", "-(-({}))", "[{}][0]", "({}, 1).0", "*&({})", "({}) as i64",
         "Some({}).unwrap()", "id::<i64>({})", "vec![{}].pop().unwrap()", "unsafe {{ {} }}", "if let Some(w) = Some({}) {{ w }} else {{ 0 }}", "P {{ a: {}, ..P::default() }}.a", "({}).clone()", "*(({})..=9).start()", "<i64 as From<i64>>::from({})", "same!({})", "block! {{ {} }}", "i64::max({}, -99999)", "{{ fn f(x: i64) -> i64 {{ x }} f({}) }}",
         "match 0 {{ 0 => {}, _ => 1 }}", "{{ let mut t = 0; for i in 0..1 {{ t += {}; }} t }}", "W({}).0", "(0 + {})", "{{ ; {} }}", "{{ let c = move || {}; c() }}", "\"a\".len() as i64 + {}"]


def composed(r):
    e = r.choice(["1", "-3", "TEN", "P::K", "7 % 4", "i64::from(b'a')", "\"abc\".len() as i64", "'}' as i64", "\"}{\".len() as i64", "unsafe { ST }"])
    for _ in range(r.randint(1, 4)): e = r.choice(WRAPS).format(e)
    return "i64", e


def forms(r, t, e, bare):
    """(builder option value, description) of ways to write e."""
    sp = spec.Sp(r.random(), 3)
    out = [(spec.q(e), "quoted")]
    if not e.startswith('"') or not (bare or e == '"'): out.append((e, "unquoted"))
    out.append(("{ %s }" % e, "braces"))
    out.append((spec.strlit(sp, spec.trivia(sp, e) if '"' not in e and "'" not in e and "//" not in e else e), "spelled"))
    out.append((spec.q("{ %s }" % e), "quoted braces"))
    out.append((spec.q("let unused = 0; %s" % e if not e.startswith(("#",)) else e), "quoted statements"))
    out.append(("({})".format(e) if not e.startswith("#") else e, "parentheses"))
    return out


def module(k, r, t, e, bare, pat, how):
    """One definition with the expression in every position, spelled in one way, possibly through a macro."""
    fs = forms(r, t, e, bare)
    fo = lambda: how if isinstance(how, tuple) else r.choice(fs)
    a, b, c, d = fo(), fo(), fo(), fo()
    # a build expression does not take an unquoted literal other than a string
    while bare and c[1] == "unquoted": c = r.choice(fs)
    owned = pat == "owned"
    frag = r.random() < .3 and not e.startswith("#")
    via = None
    if frag:
        via = r.choice(["expr", "expr", "tt", "block"])
        if via == "block": val = "$x"
        else: val = "$x" if via == "expr" else "$($x)*"
        a = b = (val, "macro " + via)
        if not bare: c = a
    txt = """    #[derive(::derive_builder::Builder)]
    #[builder(pattern = "%s")]
    pub struct A {
        #[builder(default = %s)] pub a: %s,
        #[builder(setter(skip), default = %s)] pub b: %s,
        #[builder(field(ty = "()", build = %s))] pub c: %s,
    }
""" % (pat, a[0], t, b[0], t, c[0], t)
    if frag:
        m = {"expr": "$x:expr", "tt": "$($x:tt)*", "block": "$x:block"}[via]
        txt = "    macro_rules! def { (%s) => {\n%s    } }\n    def! { %s }\n" % (m, txt, "{ %s }" % e if via == "block" else e)
    dv = "D { x: %s, y: 1 }" % e
    dd = r.choice([dv, "{ %s }" % dv, spec.q(dv), spec.q("{ let d = %s; d }" % dv)])
    txt += """    #[derive(::derive_builder::Builder)]
    #[builder(pattern = "%s", default = %s)]
    pub struct D { pub x: %s, pub y: i64 }
""" % (pat, dd, t)
    sh = (lambda v: "(%s)(4)" % v) if t.startswith(("fn(i64)", "Box<dyn Fn(i64)")) else (lambda v: "(%s)()" % v) if t.startswith("fn()") else (lambda v: v)
    txt += """    fn return_me() -> i64 { 77 }
    pub fn go(log: &mut Vec<String>) {
        let want: %s = %s;
        let w = format!("{:?}", %s);
        let x = ABuilder::default().build().ok().unwrap();
        log.push(format!("a {}", format!("{:?}", %s) == w));
        log.push(format!("b {}", format!("{:?}", %s) == w));
        log.push(format!("c {}", format!("{:?}", %s) == w));
        let d = DBuilder::default().y(5).build().ok().unwrap();
        log.push(format!("d {}", format!("{:?}", %s) == w && d.y == 5));
    }
""" % (t, e, sh("want"), sh("x.a"), sh("x.b"), sh("x.c"), sh("d.x"))
    return "    use crate::lib::*;\n" + txt, (a[1], b[1], c[1])


def explore(res, tier, seed, workdir):
    common.base()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    rounds, extra = (2, 60) if tier == "quick" else (16, 500)

    def one(c):
        r = random.Random("exprs/%d/%d" % (seed, c))
        D = {}
        table = [(t, e, True) for t, e in LITS] + [(t, e, re.match(r"-?[\d.][\w.]*(e-\d+)?$|b?'.'$", e) is not None) for t, e in EXPRS] + [(lambda t, e: (t, e, re.match(r"-?\d+$", e) is not None))(*composed(r)) for _ in range(extra)]
        for i, (t, e, bare) in enumerate(table):
            pat = r.choice(["owned", "mutable", "immutable"])
            if t.startswith(("Box<dyn", "&mut")): pat = "owned"
            txt, how = module(i, r, t, e, bare, pat, None)
            D[i] = (txt, how, t, e)
        main = lambda keys: "fn main() {\n" + "".join("    { let mut l = vec![]; m%d::go(&mut l); for x in l { println!(\"%d {}\", x); } }\n" % (k, k) for k in keys) + "}\n"
        edition = r.choice(["2018", "2021", "2021", "2024"])
        viol, counts, keys = [], {}, set()
        try:
            binp, bad, _ = build.compile_chunk(workdir, "e%d" % c, PRELUDE, [(k, "pub mod m%d {\n%s}\n" % (k, D[k][0])) for k in D], main, edition)
            for k in bad:
                t, how, ty, e = D[k]
                # is it the expression itself?
                plain = "    use crate::lib::*;\n    fn return_me() -> i64 { 77 }\n    pub fn go(log: &mut Vec<String>) { let want: %s = %s; }\n" % (ty, e)
                b2, bad2, _ = build.compile_chunk(workdir, "p%d_%d" % (c, k), PRELUDE, [(k, "pub mod m%d {\n%s}\n" % (k, plain))], main, edition)
                if bad2 and k >= len(LITS) + len(EXPRS):     # a composition that is not Rust
                    counts["compositions dropped"] = counts.get("compositions dropped", 0) + 1
                    continue
                if bad2: return "expression %s: %s" % (e, bad2[k][0][:600]), {}, set(), []
                viol.append(("expression:%s" % e, "the expression %s (%s) is not accepted, edition %s:\n%s" % (e, how, edition, "\n".join(bad[k])[:2000]), {"m.rs": PRELUDE + "pub mod m%d {\n%s}\n" % (k, t) + main([k]), "edition.txt": edition}))
            out = common.run([binp], timeout=120) if binp else None
            if out is None or out.returncode: return "expressions do not run: %s" % (out and out.stderr[-800:]), {}, set(), []
            got = {}
            for l in out.stdout.splitlines():
                k, w, ok = l.split()
                got.setdefault(int(k), []).append((w, ok == "true"))
            for k, (t, how, ty, e) in D.items():
                if k in bad: continue
                if len(got.get(k, [])) != 4: return "expression %s: incomplete" % e, {}, set(), []
                counts["expressions compared"] = counts.get("expressions compared", 0) + 4
                for h in how: keys.add(("expression", h, ty if len(ty) < 12 else ty[:12], edition))
                wrong = [w for w, ok in got[k] if not ok]
                if wrong: viol.append(("expression value:%s" % e, "the expression %s (%s) gives another value as %s, edition %s" % (e, how, wrong, edition), {"m.rs": PRELUDE + "pub mod m%d {\n%s}\n" % (k, t) + main([k]), "edition.txt": edition}))
        except common.HarnessError as x: return str(x), {}, set(), []
        return None, counts, keys, viol
    errs = []
    for err, counts, keys, viol in common.fork_map(one, range(rounds)):
        if err: errs.append(err)
        for k, v in counts.items():
            res.count(k, v)
            if "compared" in k: res.evaluations += v
        res.distinct |= keys
        for sig, msg, files in viol: res.violate(sig, msg, files)
    shutil.rmtree(workdir, ignore_errors=True)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])
