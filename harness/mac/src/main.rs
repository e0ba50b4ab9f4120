//! mac facts FILE      one JSON line per case: panic, compile errors with locations, generated items
//! mac hash FILE SEED THREADS REPEATS   one line per expansion: case id and output text hash
//! FILE: cases separated by lines `@@ <id> <flags>`; flag `g` wraps every field type in an invisible group.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use syn::spanned::Spanned;
use syn::visit::Visit;

static MSG: Mutex<String> = Mutex::new(String::new());

extern "C" {
    fn getenv(n: *const i8) -> *const i8;
}
/// Marks the expansion for an interposed libc (see shim.c); harmless without one.
fn mark(on: bool) {
    unsafe { getenv(if on { b"MAC_SHIM_ON\0".as_ptr() } else { b"MAC_SHIM_OFF\0".as_ptr() } as *const i8); }
}

fn cases(path: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(path).unwrap();
    let mut r: Vec<(String, String, String)> = vec![];
    for l in t.split_inclusive('\n') {
        if let Some(h) = l.strip_prefix("@@ ") {
            let mut w = h.trim_end().splitn(2, ' ');
            r.push((w.next().unwrap().into(), w.next().unwrap_or("").into(), String::new()));
        } else {
            r.last_mut().unwrap().2.push_str(l);
        }
    }
    r
}

fn ungroup(mut d: syn::DeriveInput) -> syn::DeriveInput {
    let wrap = |t: &syn::Type| syn::Type::Group(syn::TypeGroup { group_token: syn::token::Group { span: t.span() }, elem: Box::new(t.clone()) });
    if let syn::Data::Struct(s) = &mut d.data {
        for f in s.fields.iter_mut() { f.ty = wrap(&f.ty); }
    }
    // through tokens, as a compiler would deliver it
    syn::parse2(d.to_token_stream()).expect("regrouped input parses")
}

fn expand(src: &str, flags: &str) -> Result<Result<TokenStream, String>, String> {
    let d: syn::DeriveInput = match syn::parse_str(src) { Ok(d) => d, Err(e) => return Err(e.to_string()) };
    let d = if flags.contains('g') { ungroup(d) } else { d };
    mark(true);
    let r = catch_unwind(AssertUnwindSafe(|| derive_builder_core::builder_for_struct(d)));
    mark(false);
    Ok(r.map_err(|_| MSG.lock().unwrap_or_else(|e| e.into_inner()).clone()))
}

/// compile_error!{..} invocations of the output: message and location in the input.
fn errors(ts: TokenStream, out: &mut Vec<Value>, rest: &mut bool) {
    let tt: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < tt.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&tt[i], tt.get(i + 1), tt.get(i + 2)) {
            if id == "compile_error" && p.as_char() == '!' {
                let msg = syn::parse2::<syn::LitStr>(g.stream()).map(|l| l.value()).unwrap_or_default();
                let (s, e) = (id.span(), g.span());
                let located = !s.byte_range().is_empty() && !e.byte_range().is_empty();
                out.push(json!({"msg": msg, "line": s.start().line, "col": s.start().column, "end": e.end().line, "located": located}));
                i += 3;
                continue;
            }
        }
        match &tt[i] {
            TokenTree::Group(g) => { if g.delimiter() != Delimiter::None { *rest = true; } errors(g.stream(), out, rest) }
            TokenTree::Ident(id) if matches!(id.to_string().as_str(), "core" | "std") => {}
            TokenTree::Punct(p) if matches!(p.as_char(), ':' | ';') => {}
            _ => *rest = true,
        }
        i += 1;
    }
}

struct Unsafe(bool);
impl<'a> Visit<'a> for Unsafe {
    fn visit_expr_unsafe(&mut self, _: &'a syn::ExprUnsafe) { self.0 = true; }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) { if i.unsafety.is_some() { self.0 = true } syn::visit::visit_item_impl(self, i) }
    fn visit_signature(&mut self, s: &'a syn::Signature) { if s.unsafety.is_some() { self.0 = true } syn::visit::visit_signature(self, s) }
}

fn attrs(a: &[syn::Attribute]) -> Value { a.iter().map(|x| x.meta.to_token_stream().to_string()).collect::<Vec<_>>().into() }
fn vis(v: &syn::Visibility) -> String { v.to_token_stream().to_string() }

fn items(f: &syn::File) -> Vec<Value> {
    f.items.iter().map(|i| match i {
        syn::Item::Struct(s) => json!({"k": "struct", "name": s.ident.to_string(), "vis": vis(&s.vis), "attrs": attrs(&s.attrs),
            "fields": s.fields.iter().map(|f| json!({"name": f.ident.as_ref().map(|i| i.to_string()), "vis": vis(&f.vis), "ty": f.ty.to_token_stream().to_string(), "attrs": attrs(&f.attrs)})).collect::<Vec<_>>()}),
        syn::Item::Enum(s) => json!({"k": "enum", "name": s.ident.to_string(), "vis": vis(&s.vis), "attrs": attrs(&s.attrs),
            "fields": s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "attrs": attrs(&v.attrs)})).collect::<Vec<_>>()}),
        syn::Item::Impl(s) => json!({"k": "impl", "trait": s.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()), "name": s.self_ty.to_token_stream().to_string(), "attrs": attrs(&s.attrs),
            "fns": s.items.iter().filter_map(|m| if let syn::ImplItem::Fn(m) = m { Some(json!({"name": m.sig.ident.to_string(), "vis": vis(&m.vis), "attrs": attrs(&m.attrs), "sig": m.sig.to_token_stream().to_string()})) } else { None }).collect::<Vec<_>>()}),
        other => json!({"k": "other", "name": "", "text": other.to_token_stream().to_string()}),
    }).collect()
}

/// Syntactically valid Rust items, reparsed from the text (a compiler sees tokens; text keeps only what they say).
fn given(a: &[syn::Attribute]) -> Value {
    a.iter().map(|x| match &x.meta {
        syn::Meta::List(l) => json!([x.path().to_token_stream().to_string(), x.meta.to_token_stream().to_string(), l.tokens.to_string()]),
        m => json!([x.path().to_token_stream().to_string(), m.to_token_stream().to_string(), null]),
    }).collect()
}

/// The attributes of the input, in the same textual form as those of the output.
fn input(src: &str) -> Value {
    let Ok(d) = syn::parse_str::<syn::DeriveInput>(src) else { return Value::Null };
    let mut f = vec![];
    if let syn::Data::Struct(s) = &d.data { for x in &s.fields { f.push(given(&x.attrs)); } }
    json!({"attrs": given(&d.attrs), "fields": f})
}

fn facts(id: &str, flags: &str, src: &str) -> Value {
    let mut v = facts0(id, flags, src);
    if flags.contains('a') { v["given"] = input(src); }
    v
}

fn facts0(id: &str, flags: &str, src: &str) -> Value {
    match expand(src, flags) {
        Err(e) => json!({"id": id, "input": e}),
        Ok(Err(p)) => json!({"id": id, "panic": p}),
        Ok(Ok(ts)) => {
            let mut e = vec![];
            let mut rest = false;
            errors(ts.clone(), &mut e, &mut rest);
            let file = syn::parse2::<syn::File>(ts.clone());
            let txt = ts.to_string();
            let mut v = json!({"id": id, "errors": e, "rest": rest, "len": txt.len()});
            match file {
                Ok(f) => {
                    let mut u = Unsafe(false);
                    u.visit_file(&f);
                    v["unsafe"] = (u.0).into();
                    v["items"] = items(&f).into();
                    if flags.contains('t') { v["text"] = txt.clone().into(); }
                }
                // an invalid token may be the user's own (a keyword given as a name): then it is located
                Err(err) => { v["bad_located"] = (!err.span().byte_range().is_empty()).into(); v["bad"] = err.to_string().into(); v["text"] = txt.into(); }
            }
            v
        }
    }
}

fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

fn outtext(src: &str, flags: &str) -> String {
    match expand(src, flags) {
        Err(_) => "input".into(),
        Ok(Err(p)) => format!("panic {p}"),
        Ok(Ok(ts)) => {
            // texts and, for errors, where they point
            let mut e = vec![];
            let mut r = false;
            errors(ts.clone(), &mut e, &mut r);
            let e: Vec<String> = e.iter().map(|x| x["msg"].to_string()).collect();
            format!("{} {:?}", ts, e)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { *MSG.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string(); }));
    let a: Vec<String> = std::env::args().collect();
    let cs = cases(&a[2]);
    match a[1].as_str() {
        "facts" => {
            use std::io::Write;
            let o = std::io::stdout();
            let mut o = std::io::BufWriter::new(o.lock());
            for (id, fl, src) in &cs {
                // a case that kills the process must be identifiable
                writeln!(o, "{}", json!({"start": id})).unwrap();
                o.flush().unwrap();
                writeln!(o, "{}", facts(id, fl, src)).unwrap();
            }
        }
        "text" => for (id, fl, src) in &cs { println!("@@ {}\n{}", id, outtext(src, fl)); },
        "hash" => {
            let (seed, threads, reps): (u64, usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let out = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (cs, out) = (&cs, &out);
                    sc.spawn(move || {
                        let mut x = seed.wrapping_mul(6364136223846793005).wrapping_add(t as u64 * 7919 + 1) | 1;
                        for _ in 0..reps {
                            let mut order: Vec<usize> = (0..cs.len()).collect();
                            if seed != 0 { for i in (1..order.len()).rev() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; order.swap(i, (x % (i as u64 + 1)) as usize); } }
                            for i in order {
                                let h = hash(&outtext(&cs[i].2, &cs[i].1));
                                out.lock().unwrap().push((i, h));
                            }
                        }
                    });
                }
            });
            for (i, h) in out.into_inner().unwrap() { println!("{} {:016x}", cs[i].0, h); }
        }
        _ => panic!("usage"),
    }
    let _ = Group::new(Delimiter::None, TokenStream::new());
}
