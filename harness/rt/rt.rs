//! Runtime support for the generated workloads: instrumented value types whose every
//! creation, clone, conversion and drop is an event, plus the event log itself.
//! Nothing here knows anything about derive_builder.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::convert::TryFrom;
use std::fmt::Write as _;

thread_local! {
    static LOG: RefCell<String> = RefCell::new(String::new());
    static NEXT: Cell<u64> = Cell::new(1);
    static FLAGS: Cell<u64> = Cell::new(0);
}

pub fn line(s: &str) {
    let _ = LOG.try_with(|l| {
        let mut l = l.borrow_mut();
        l.push_str(s);
        l.push('\n');
    });
}
#[macro_export]
macro_rules! ev { ($($t:tt)*) => { $crate::line(&$crate::s::format!($($t)*)) } }
/// The standard library under a name nobody shadows.
pub mod s { pub use ::std::*; }

pub fn take_log() -> String {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn next_id() -> u64 {
    NEXT.try_with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
    .unwrap_or(0)
}
pub fn reset_ids() {
    NEXT.with(|n| n.set(1));
    FLAGS.with(|f| f.set(0));
}
pub fn flag(i: u32) -> bool {
    FLAGS.with(|f| f.get() >> i & 1 == 1)
}
pub fn set_flag(i: u32, v: bool) {
    FLAGS.with(|f| f.set(if v { f.get() | 1 << i } else { f.get() & !(1 << i) }))
}

// ---------------------------------------------------------------- value types
/// Clonable tracked value.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tr {
    pub p: i64,
    id: Id,
}
/// Tracked value that implements neither Clone nor Copy.
#[derive(Debug, PartialEq)]
pub struct Mv {
    pub p: i64,
    id: Id,
}
#[derive(Debug)]
struct Id(u64);
impl PartialEq for Id { fn eq(&self, _: &Id) -> bool { true } }
impl Eq for Id {}
impl PartialOrd for Id { fn partial_cmp(&self, _: &Id) -> Option<std::cmp::Ordering> { Some(std::cmp::Ordering::Equal) } }
impl Ord for Id { fn cmp(&self, _: &Id) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
impl std::hash::Hash for Id { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
impl Tr {
    pub fn new(p: i64) -> Tr {
        let id = next_id();
        ev!("N {} {}", id, p);
        Tr { p, id: Id(id) }
    }
}
impl Mv {
    pub fn new(p: i64) -> Mv {
        let id = next_id();
        ev!("N {} {}", id, p);
        Mv { p, id: Id(id) }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        let id = next_id();
        ev!("C {} {}", self.id.0, id);
        Tr { p: self.p, id: Id(id) }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        ev!("D {}", self.id.0);
        self.p = -777;
    }
}
impl Drop for Mv {
    fn drop(&mut self) {
        ev!("D {}", self.id.0);
        self.p = -777;
    }
}
impl Default for Tr {
    fn default() -> Tr {
        ev!("TD");
        Tr::new(-1)
    }
}
impl Default for Mv {
    fn default() -> Mv {
        ev!("TD");
        Mv::new(-1)
    }
}

/// Tracked value whose type mentions the struct it is a field of.
pub struct Slf<S: ?Sized>(pub Tr, std::marker::PhantomData<fn(&S)>);
impl<S: ?Sized> Clone for Slf<S> { fn clone(&self) -> Self { Slf(self.0.clone(), std::marker::PhantomData) } }
impl<S: ?Sized> Default for Slf<S> { fn default() -> Self { Slf(Tr::default(), std::marker::PhantomData) } }
impl<S: ?Sized> PartialEq for Slf<S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<S: ?Sized> std::fmt::Debug for Slf<S> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<S: ?Sized> Mk for Slf<S> { fn mk(p: i64) -> Self { Slf(Tr::new(p), std::marker::PhantomData) } }
impl<S: ?Sized> Obs for Slf<S> { fn obs(&self, o: &mut String) { self.0.obs(o) } }

pub type Maybe<T> = Option<T>;
/// A type that is called Option without being one.
pub mod my {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Option<T> { Nothing, Just(T) }
    pub use self::Option as Option_;
    pub mod option { pub use super::Option; }
    pub mod opts { pub use super::Option; }
    impl<T> Default for Option<T> { fn default() -> Self { Option::Nothing } }
    impl<T> From<T> for Option<T> { fn from(t: T) -> Self { Option::Just(t) } }
}
impl<T: Mk> Mk for my::Option<T> { fn mk(p: i64) -> Self { if p % 5 == 0 { my::Option::Nothing } else { my::Option::Just(T::mk(p)) } } }
impl<T: Obs> Obs for my::Option<T> {
    fn obs(&self, o: &mut String) {
        match self {
            my::Option::Nothing => o.push('n'),
            my::Option::Just(x) => { o.push_str("J("); x.obs(o); o.push(')') }
        }
    }
}

macro_rules! intruders { ($($n:ident)*) => { $(pub fn $n(&self) { panic!("the inherent method {} of the user's type was called", stringify!($n)) })* } }
/// Tracked value with inherent methods named like those of the traits.
pub struct Hm(pub Tr);
impl Hm {
    intruders!(clone into try_into extend to_owned borrow as_ref clone_from unwrap take map insert replace get_or_insert_with unwrap_or_default iter into_iter deref cloned ok_or ok expect fmt eq drop build field_name);
    pub fn default() { panic!("the inherent function default of the user's type was called") }
    pub fn from(_: i32) { panic!("the inherent function from of the user's type was called") }
    pub fn try_from(_: i32) { panic!("the inherent function try_from of the user's type was called") }
    pub fn new() { panic!("the inherent function new of the user's type was called") }
    pub fn extend_one(_: i32) {}
}
impl Clone for Hm { fn clone(&self) -> Self { Hm(Clone::clone(&self.0)) } }
impl Default for Hm { fn default() -> Self { Hm(Tr::default()) } }
impl PartialEq for Hm { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl std::fmt::Debug for Hm { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) } }
impl Mk for Hm { fn mk(p: i64) -> Self { Hm(Tr::new(p)) } }
impl Obs for Hm { fn obs(&self, o: &mut String) { self.0.obs(o) } }
impl From<Si> for Hm { fn from(s: Si) -> Hm { Hm(Tr::from(s)) } }
/// A collection with inherent methods named like those of the traits.
pub struct Coll<T>(Vec<T>);
impl<T> Coll<T> {
    intruders!(clone into try_into to_owned borrow as_ref take map replace get_or_insert_with unwrap_or_default iter into_iter cloned ok_or ok expect fmt eq drop);
    pub fn extend(&self, _: i32) { panic!("the inherent method extend of the user's type was called") }
    pub fn insert(&self, _: i32) { panic!("the inherent method insert of the user's type was called") }
    pub fn push(&self, _: i32) { panic!("the inherent method push of the user's type was called") }
    pub fn default() { panic!("the inherent function default of the user's type was called") }
    pub fn from(_: i32) { panic!("the inherent function from of the user's type was called") }
    pub fn new() { panic!("the inherent function new of the user's type was called") }
}
impl<T: Clone> Clone for Coll<T> { fn clone(&self) -> Self { Coll(Clone::clone(&self.0)) } }
impl<T> Default for Coll<T> { fn default() -> Self { Coll(vec![]) } }
impl<T> Extend<T> for Coll<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for x in i { self.0.push(x) } } }
impl<T: PartialEq> PartialEq for Coll<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: std::fmt::Debug> std::fmt::Debug for Coll<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) } }
impl<T: Mk> Mk for Coll<T> { fn mk(p: i64) -> Self { Coll(Mk::mk(p)) } }
impl<T: Obs> Obs for Coll<T> { fn obs(&self, o: &mut String) { self.0.obs(o) } }

/// Source of `Into<Tr>` / `Into<Mv>`.
#[derive(Debug)]
pub struct Si(pub i64);
/// Source of fallible conversions.
#[derive(Debug)]
pub struct Ti(pub i64);
#[derive(Debug, Clone, PartialEq)]
pub struct ConvErr(pub i64);

pub const INTO_SHIFT: i64 = 7_000_000;
pub const TRY_SHIFT: i64 = 9_000_000;

impl From<Si> for Tr {
    fn from(s: Si) -> Tr {
        ev!("V {}", s.0);
        Tr::new(s.0 + INTO_SHIFT)
    }
}
impl From<Si> for Mv {
    fn from(s: Si) -> Mv {
        ev!("V {}", s.0);
        Mv::new(s.0 + INTO_SHIFT)
    }
}
macro_rules! tryfrom { ($($t:ty),*) => {$(
impl TryFrom<Ti> for $t {
    type Error = ConvErr;
    fn try_from(s: Ti) -> Result<$t, ConvErr> {
        ev!("W {}", s.0);
        if s.0 % 3 == 0 { Err(ConvErr(s.0)) } else { Ok(<$t as Mk>::mk(s.0 + TRY_SHIFT)) }
    }
})*}}
tryfrom!(Tr, Mv, Hm, Option<Hm>, Option<Tr>, Vec<Tr>, Option<Mv>, Box<Tr>, Option<Vec<Tr>>, (Tr, i64), Option<Option<Tr>>);

// ---------------------------------------------------------------- making values
pub trait Mk {
    fn mk(p: i64) -> Self;
}
impl Mk for Tr { fn mk(p: i64) -> Self { Tr::new(p) } }
impl Mk for Mv { fn mk(p: i64) -> Self { Mv::new(p) } }
impl Mk for Si { fn mk(p: i64) -> Self { Si(p) } }
impl Mk for Ti { fn mk(p: i64) -> Self { Ti(p) } }
impl Mk for i64 { fn mk(p: i64) -> Self { p } }
impl Mk for i32 { fn mk(p: i64) -> Self { p as i32 } }
impl Mk for u32 { fn mk(p: i64) -> Self { p as u32 } }
impl Mk for i128 { fn mk(p: i64) -> Self { if p % 3 == 0 { i128::MAX } else { p as i128 } } }
impl Mk for bool { fn mk(p: i64) -> Self { p % 2 == 1 } }
impl Mk for char { fn mk(p: i64) -> Self { (b'a' + (p % 26) as u8) as char } }
impl Mk for String { fn mk(p: i64) -> Self { format!("s{}", p) } }
/// Leaked on purpose and kept reachable, so that a leak checker does not take them for the generated code's.
static INTERNED: std::sync::Mutex<BTreeMap<i64, &'static str>> = std::sync::Mutex::new(BTreeMap::new());
impl Mk for &'static str { fn mk(p: i64) -> Self { INTERNED.lock().unwrap().entry(p).or_insert_with(|| Box::leak(format!("r{}", p).into_boxed_str())) } }
impl Mk for () { fn mk(_: i64) -> Self {} }
impl<T> Mk for std::marker::PhantomData<T> { fn mk(_: i64) -> Self { std::marker::PhantomData } }
impl<T: Mk> Mk for Option<T> { fn mk(p: i64) -> Self { if p % 5 == 0 { None } else { Some(T::mk(p)) } } }
impl<T: Mk> Mk for Vec<T> { fn mk(p: i64) -> Self { (0..p % 4).map(|i| T::mk(p * 10 + i)).collect() } }
impl<T: Mk> Mk for VecDeque<T> { fn mk(p: i64) -> Self { (0..p % 4).map(|i| T::mk(p * 10 + i)).collect() } }
impl<T: Mk> Mk for BTreeMap<i64, T> { fn mk(p: i64) -> Self { (0..p % 3).map(|i| (p * 10 + i, T::mk(p * 10 + i))).collect() } }
impl<T: Mk> Mk for Box<T> { fn mk(p: i64) -> Self { Box::new(T::mk(p)) } }
impl<T: Mk, U: Mk> Mk for (T, U) { fn mk(p: i64) -> Self { (T::mk(p), U::mk(p + 1)) } }
impl<T: Mk, const N: usize> Mk for [T; N] { fn mk(p: i64) -> Self { std::array::from_fn(|i| T::mk(p + i as i64)) } }
pub fn idfn(x: i64) -> i64 { x }
impl Mk for fn(i64) -> i64 { fn mk(_: i64) -> Self { idfn } }

/// An argument whose type is whatever the callee's parameter says it is.
pub fn mkinf<T: Mk>(p: i64) -> T { T::mk(p) }

// ---------------------------------------------------------------- observing values
pub trait Obs {
    fn obs(&self, o: &mut String);
}
pub fn ob<T: Obs>(t: &T) -> String {
    let mut s = String::new();
    t.obs(&mut s);
    s
}
impl Obs for Tr { fn obs(&self, o: &mut String) { let _ = write!(o, "T{}#{}", self.p, self.id.0); } }
impl Obs for Mv { fn obs(&self, o: &mut String) { let _ = write!(o, "T{}#{}", self.p, self.id.0); } }
impl Obs for i64 { fn obs(&self, o: &mut String) { let _ = write!(o, "i{}", self); } }
impl Obs for u32 { fn obs(&self, o: &mut String) { let _ = write!(o, "i{}", self); } }
impl Obs for i32 { fn obs(&self, o: &mut String) { let _ = write!(o, "i{}", self); } }
impl Obs for bool { fn obs(&self, o: &mut String) { o.push_str(if *self { "b1" } else { "b0" }); } }
impl Obs for char { fn obs(&self, o: &mut String) { let _ = write!(o, "c{}", self); } }
impl Obs for String { fn obs(&self, o: &mut String) { let _ = write!(o, "'{}'", self); } }
impl Obs for &str { fn obs(&self, o: &mut String) { let _ = write!(o, "'{}'", self); } }
impl Obs for () { fn obs(&self, o: &mut String) { o.push('u'); } }
impl<T> Obs for std::marker::PhantomData<T> { fn obs(&self, o: &mut String) { o.push('P'); } }
impl<T: Obs> Obs for Option<T> {
    fn obs(&self, o: &mut String) {
        match self {
            None => o.push('N'),
            Some(x) => { o.push_str("S("); x.obs(o); o.push(')') }
        }
    }
}
fn seq<'a, T: Obs + 'a>(it: impl Iterator<Item = &'a T>, o: &mut String) {
    o.push('[');
    for (i, x) in it.enumerate() {
        if i > 0 { o.push(','); }
        x.obs(o);
    }
    o.push(']');
}
impl<T: Obs> Obs for Vec<T> { fn obs(&self, o: &mut String) { seq(self.iter(), o) } }
impl<T: Obs> Obs for VecDeque<T> { fn obs(&self, o: &mut String) { seq(self.iter(), o) } }
impl<T: Obs, const N: usize> Obs for [T; N] { fn obs(&self, o: &mut String) { seq(self.iter(), o) } }
impl<T: Obs> Obs for BTreeMap<i64, T> {
    fn obs(&self, o: &mut String) {
        o.push('{');
        for (i, (k, v)) in self.iter().enumerate() {
            if i > 0 { o.push(','); }
            let _ = write!(o, "{}:", k);
            v.obs(o);
        }
        o.push('}');
    }
}
impl<T: Obs> Obs for Box<T> { fn obs(&self, o: &mut String) { (**self).obs(o) } }
impl<T: Obs, U: Obs> Obs for (T, U) {
    fn obs(&self, o: &mut String) { o.push('('); self.0.obs(o); o.push(','); self.1.obs(o); o.push(')') }
}
impl Obs for fn(i64) -> i64 { fn obs(&self, o: &mut String) { let _ = write!(o, "f{}", self(41)); } }

/// Canonical text of a conversion error.
pub trait ErrObs { fn eo(&self) -> String; }
impl ErrObs for ConvErr { fn eo(&self) -> String { format!("CE({})", self.0) } }
impl ErrObs for std::convert::Infallible { fn eo(&self) -> String { "INF".into() } }
impl ErrObs for std::num::TryFromIntError { fn eo(&self) -> String { "TFI".into() } }

/// User trait with an associated type, for fields of type `<T as HasOut>::Out`.
pub trait HasOut { type Out; }
impl HasOut for Tr { type Out = Tr; }
impl HasOut for Mv { type Out = Mv; }
impl HasOut for String { type Out = String; }
/// What a bounded type parameter of a generated struct can do.
pub trait All: Mk + Obs + Default {}
impl All for Tr {}
impl All for Mv {}
impl All for String {}
impl All for i64 {}
pub trait Marker {}
impl Marker for Tr {}
impl Marker for Mv {}
impl Marker for String {}
impl Marker for i64 {}

// ---------------------------------------------------------------- default / build expressions
/// A default expression: an event, then a value derived from the tag.
pub fn df<T: Mk>(tag: i64) -> T {
    ev!("DF {}", tag);
    T::mk(DF_BASE + tag)
}
pub const DF_BASE: i64 = 500_000;
/// A default expression that looks at the builder.
pub fn dfs<T: Mk>(tag: i64, seen: String) -> T {
    ev!("DF {} {}", tag, seen);
    T::mk(DF_BASE + tag)
}
/// A fallible default expression, `?` is applied to it.
pub fn dfr<T: Mk>(tag: i64) -> Result<T, String> {
    ev!("DF {}", tag);
    if flag(tag as u32) { Err(format!("dfail{}", tag)) } else { Ok(T::mk(DF_BASE + tag)) }
}
/// A `field(build = ..)` expression: an event with the builder field as seen, then a value.
pub fn bl<T: Mk>(tag: i64, seen: String, p: i64) -> T {
    ev!("BL {} {}", tag, seen);
    T::mk(p)
}
pub fn blr<T: Mk>(tag: i64, seen: String, p: i64) -> Result<T, String> {
    ev!("BL {} {}", tag, seen);
    if flag(tag as u32) { Err(format!("bfail{}", tag)) } else { Ok(T::mk(p)) }
}
/// Marks a build expression without producing the value.
pub fn bls(tag: i64, seen: String) {
    ev!("BL {} {}", tag, seen);
}
/// A default expression that panics while its flag is up.
pub fn dfp<T: Mk>(tag: i64) -> T {
    ev!("DF {}", tag);
    if flag(tag as u32) { panic!("dpanic{}", tag) }
    T::mk(DF_BASE + tag)
}
/// Struct-level default expression marker.
pub fn sd() { ev!("SD"); }

// ---------------------------------------------------------------- driver plumbing
#[derive(Clone, Copy, Debug, Default)]
pub struct Op { pub k: u32, pub f: usize, pub v: u32, pub s: usize, pub d: usize, pub p: i64 }

/// Runs every history of `path` with `run(spec, ops)` and writes the log to `out`.
/// File format: `H spec hist` starts a history, `O k f v s d p` is one operation.
pub fn main_loop(run: &dyn Fn(u32, &[Op]) -> bool) {
    use std::io::Write;
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        ev!("PANIC {}", m);
    }));
    let mut cur: Option<(u32, u32)> = None;
    let mut ops: Vec<Op> = vec![];
    let mut flush = |cur: Option<(u32, u32)>, ops: &mut Vec<Op>| {
        if let Some((sp, h)) = cur {
            reset_ids();
            ev!("H {} {}", sp, h);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(sp, ops)));
            match r {
                Ok(true) => ev!("E {} {}", sp, h),
                Ok(false) => ev!("ABSENT {} {}", sp, h),
                Err(_) => ev!("X {} {}", sp, h),
            }
            ops.clear();
            out.write_all(take_log().as_bytes()).unwrap();
        }
    };
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w[0] == "H" {
            flush(cur, &mut ops);
            cur = Some((w[1].parse().unwrap(), w[2].parse().unwrap()));
        } else {
            ops.push(Op { k: w[1].parse().unwrap(), f: w[2].parse().unwrap(), v: w[3].parse().unwrap(), s: w[4].parse().unwrap(), d: w[5].parse().unwrap(), p: w[6].parse().unwrap() });
        }
    }
    flush(cur, &mut ops);
    out.flush().unwrap();
    std::io::stdout().flush().unwrap();
}

/// Slots holding builders and built values during one history.
pub struct St<B, F> { pub b: Vec<Option<B>>, pub p: Vec<Option<F>> }
impl<B, F> St<B, F> {
    pub fn new() -> Self { St { b: (0..6).map(|_| None).collect(), p: (0..6).map(|_| None).collect() } }
    pub fn take(&mut self, i: usize) -> B { self.b[i].take().expect("harness: empty slot") }
    pub fn get(&self, i: usize) -> &B { self.b[i].as_ref().expect("harness: empty slot") }
    pub fn getm(&mut self, i: usize) -> &mut B { self.b[i].as_mut().expect("harness: empty slot") }
    pub fn put(&mut self, i: usize, b: B) { self.b[i] = Some(b); }
    pub fn putp(&mut self, i: usize, b: F) { self.p[i] = Some(b); }
    pub fn snap(&self, f: &dyn Fn(&B) -> String) {
        for (i, b) in self.b.iter().enumerate() {
            if let Some(b) = b { ev!("B {} {}", i, f(b)); }
        }
    }
    pub fn snapp(&self, f: &dyn Fn(&F) -> String) {
        for (i, b) in self.p.iter().enumerate() {
            if let Some(b) = b { ev!("P {} {}", i, f(b)); }
        }
    }
}

// ---------------------------------------------------------------- surface probes
/// What a probe sees when the real method, field or type is not reachable.
#[derive(Debug, Clone, Copy, Default)]
pub struct Absent;
pub fn tn<T>(_: T) -> &'static str { std::any::type_name::<T>() }
pub fn tnr<T: ?Sized>(_: &T) -> &'static str { std::any::type_name::<T>() }
#[macro_export]
macro_rules! impls {
    ($t:ty : $($b:tt)+) => {{
        struct W<T: ?Sized>(::std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
