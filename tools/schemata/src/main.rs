// Development aid (no check uses it): rewrites the library so that every single-token mutant is
// present at once and selected at run time by the environment variable MUT.
// usage: schemata SRC_DIR DST_DIR SKIP_FILE > mutants.tsv
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::{parse_quote, spanned::Spanned, visit_mut::{self, VisitMut}, *};
struct V { id: u32, file: String, skip: HashSet<String>, noid: bool }
impl V {
    fn m(&mut self, sp: Span, what: String) -> Option<u32> {
        let key = format!("{}:{}:{}", self.file, sp.start().line, sp.start().column);
        if self.noid || self.skip.contains(&key) || self.skip.contains(&format!("{}:{}", self.file, sp.start().line)) { return None; }
        self.id += 1;
        println!("{}\t{}\t{}\t{}", self.id, key, what.replace(['\t', '\n'], " "), "");
        Some(self.id)
    }
}
fn short(x: &impl ToTokens) -> String { let s = x.to_token_stream().to_string(); if s.len() > 100 { s.chars().take(100).collect() } else { s } }
impl VisitMut for V {
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) { self.visit_expr_mut(&mut e.expr); }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) { if m.attrs.is_empty() { visit_mut::visit_item_mod_mut(self, m) } }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Ident(p) = &l.pat { if p.ident == "HUES" { return; } }
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            let del = match s {
                Stmt::Expr(Expr::Assign(a), Some(_)) => matches!(&*a.left, Expr::Index(_) | Expr::Field(_)) || matches!(&*a.left, Expr::Path(_)),
                Stmt::Expr(Expr::Binary(x), Some(_)) => matches!(x.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)),
                Stmt::Expr(Expr::MethodCall(_), Some(_)) => true,
                Stmt::Expr(Expr::Break(x), Some(_)) => x.expr.is_none(),
                Stmt::Expr(Expr::Continue(_), Some(_)) => true,
                _ => false,
            };
            let what = short(s);
            let sp = s.span();
            visit_mut::visit_stmt_mut(self, s);
            if del {
                if let Some(id) = self.m(sp, format!("delete {}", what)) {
                    let k = s.clone();
                    *s = parse_quote!(if !crate::__m(#id) { #k });
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let sp = e.span();
        let what = short(e);
        // do not descend into method receivers of literal floats etc.; generic descent first
        if let Expr::If(x) = e {
            let islet = matches!(&*x.cond, Expr::Let(_));
            visit_mut::visit_expr_if_mut(self, x);
            if !islet {
                let c = x.cond.clone();
                if let Some(a) = self.m(sp, format!("if-true {}", what)) {
                    let b = self.m(sp, format!("if-false {}", what)).unwrap();
                    x.cond = Box::new(parse_quote!(crate::__mb(#a, #b, #c)));
                }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(ExprLit { lit, .. }) => match lit {
                Lit::Float(f) => {
                    let v: f64 = f.base10_parse().unwrap();
                    let mut cands = vec![];
                    if v == v.trunc() { cands.push(v + 1.0); } else { cands.push(v * 1.02); }
                    if v != 0.0 { cands.push(v * 0.999); }
                    for n in cands {
                        if let Some(id) = self.m(sp, format!("{} -> {}", v, n)) {
                            let k = e.clone();
                            *e = parse_quote!((if crate::__m(#id) { #n } else { #k }));
                        }
                    }
                }
                Lit::Int(f) => {
                    let v: u64 = f.base10_parse().unwrap();
                    let mut cands = vec![v + 1];
                    if v > 0 { cands.push(v - 1) }
                    for n in cands {
                        if let Some(id) = self.m(sp, format!("{} -> {}", v, n)) {
                            let k = e.clone();
                            let nl = LitInt::new(&n.to_string(), Span::call_site());
                            *e = parse_quote!((if crate::__m(#id) { #nl } else { #k }));
                        }
                    }
                }
                Lit::Bool(b) => {
                    let n = !b.value;
                    if let Some(id) = self.m(sp, format!("-> {}", n)) {
                        let k = e.clone();
                        *e = parse_quote!((if crate::__m(#id) { #n } else { #k }));
                    }
                }
                _ => {}
            },
            Expr::Binary(x) => {
                let (l, r) = (&x.left, &x.right);
                let opsp = x.op.span();
                let f = match x.op {
                    BinOp::Add(_) => "add", BinOp::Sub(_) => "sub", BinOp::Mul(_) => "mul", BinOp::Div(_) => "div", BinOp::Rem(_) => "rem",
                    BinOp::Lt(_) => "lt", BinOp::Le(_) => "le", BinOp::Gt(_) => "gt", BinOp::Ge(_) => "ge", BinOp::Eq(_) => "eq", BinOp::Ne(_) => "ne",
                    BinOp::And(_) => "and", BinOp::Or(_) => "or", BinOp::Shr(_) => "shr", BinOp::Shl(_) => "shl", BinOp::BitAnd(_) => "band", BinOp::BitOr(_) => "bor",
                    _ => return,
                };
                let Some(id) = self.m(opsp, format!("{} in {}", f, what)) else { return };
                let id2 = if matches!(f, "lt" | "le" | "gt" | "ge") { self.m(opsp, format!("{}-flip in {}", f, what)).unwrap() } else { 0 };
                let fun = Ident::new(&format!("__m_{}", f), Span::call_site());
                *e = match f {
                    "and" => parse_quote!((if crate::__m(#id) { #l || #r } else { #l && #r })),
                    "or" => parse_quote!((if crate::__m(#id) { #l && #r } else { #l || #r })),
                    "lt" | "le" | "gt" | "ge" => parse_quote!(crate::#fun(#id, #id2, &(#l), &(#r))),
                    "eq" | "ne" => parse_quote!((if crate::__m(#id) { #l != #r } else { #l == #r })),
                    _ => parse_quote!(crate::#fun(#id, #l, #r)),
                };
                if f == "ne" { if let Expr::Paren(_) = e {} ; let k = e.clone(); *e = parse_quote!((!#k)); }
            }
            Expr::Unary(x) => {
                let k = &x.expr;
                match x.op {
                    UnOp::Not(_) => if let Some(id) = self.m(sp, format!("not {}", what)) { *e = parse_quote!((if crate::__m(#id) { #k } else { !#k })); },
                    UnOp::Neg(_) => if let Some(id) = self.m(sp, format!("neg {}", what)) { *e = parse_quote!((if crate::__m(#id) { #k } else { -#k })); },
                    _ => {}
                }
            }
            Expr::MethodCall(x) => {
                let n = x.method.to_string();
                let alts: &[&str] = match (n.as_str(), x.args.len()) {
                    ("min", 1) => &["max"], ("max", 1) => &["min"], ("round", 0) => &["floor", "ceil"], ("floor", 0) => &["ceil", "round"], ("ceil", 0) => &["floor"],
                    ("first", 0) => &["last"], ("last", 0) => &["first"], _ => &[],
                };
                let msp = x.method.span();
                if n == "abs" && x.args.is_empty() {
                    let r = x.receiver.clone();
                    if let Some(id) = self.m(msp, format!("abs dropped in {}", what)) { let k = e.clone(); *e = parse_quote!((if crate::__m(#id) { #r } else { #k })); }
                    return;
                }
                for a in alts {
                    if let Some(id) = self.m(msp, format!("{} -> {} in {}", n, a, what)) {
                        let mut y = if let Expr::MethodCall(y) = e.clone() { y } else { match e.clone() { Expr::Paren(p) => match *p.expr { Expr::If(i) => match &i.else_branch { Some((_, b)) => match &**b { Expr::Block(bb) => match &bb.block.stmts[0] { Stmt::Expr(Expr::MethodCall(y), None) => y.clone(), _ => return }, _ => return }, _ => return }, _ => return }, _ => return } };
                        y.method = Ident::new(a, Span::call_site());
                        let k = e.clone();
                        *e = parse_quote!((if crate::__m(#id) { #y } else { #k }));
                    }
                }
            }
            _ => {}
        }
    }
}
const HELP: &str = r#"
pub static __MUT: std::sync::LazyLock<u32> = std::sync::LazyLock::new(|| std::env::var("MUT").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
#[inline] pub fn __m(id: u32) -> bool { *__MUT == id }
#[inline] pub fn __mb(a: u32, b: u32, c: bool) -> bool { let m = *__MUT; if m == a { true } else if m == b { false } else { c } }
use std::ops::*;
#[inline] pub fn __m_add<T: Add<Output = T> + Sub<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a - b } else { a + b } }
#[inline] pub fn __m_sub<T: Add<Output = T> + Sub<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a + b } else { a - b } }
#[inline] pub fn __m_mul<T: Mul<Output = T> + Div<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a / b } else { a * b } }
#[inline] pub fn __m_div<T: Mul<Output = T> + Div<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a * b } else { a / b } }
#[inline] pub fn __m_rem<T: Rem<Output = T> + Div<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a / b } else { a % b } }
#[inline] pub fn __m_shr<T: Shl<Output = T> + Shr<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a << b } else { a >> b } }
#[inline] pub fn __m_shl<T: Shl<Output = T> + Shr<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a >> b } else { a << b } }
#[inline] pub fn __m_band<T: BitAnd<Output = T> + BitOr<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a | b } else { a & b } }
#[inline] pub fn __m_bor<T: BitXor<Output = T> + BitOr<Output = T>>(i: u32, a: T, b: T) -> T { if __m(i) { a ^ b } else { a | b } }
#[inline] pub fn __m_lt<T: PartialOrd>(i: u32, j: u32, a: &T, b: &T) -> bool { let m = *__MUT; if m == i { a <= b } else if m == j { a > b } else { a < b } }
#[inline] pub fn __m_le<T: PartialOrd>(i: u32, j: u32, a: &T, b: &T) -> bool { let m = *__MUT; if m == i { a < b } else if m == j { a > b } else { a <= b } }
#[inline] pub fn __m_gt<T: PartialOrd>(i: u32, j: u32, a: &T, b: &T) -> bool { let m = *__MUT; if m == i { a >= b } else if m == j { a < b } else { a > b } }
#[inline] pub fn __m_ge<T: PartialOrd>(i: u32, j: u32, a: &T, b: &T) -> bool { let m = *__MUT; if m == i { a > b } else if m == j { a < b } else { a >= b } }
"#;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip: HashSet<String> = std::fs::read_to_string(&a[3]).unwrap_or_default().lines().map(|s| s.trim().to_string()).collect();
    let mut v = V { id: 0, file: String::new(), skip, noid: false };
    let mut stack = vec![std::path::PathBuf::from(&a[1])];
    let mut files = vec![];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { if p.file_name().unwrap() != "tests" { stack.push(p) } } else if p.extension().map_or(false, |x| x == "rs") { files.push(p) }
        }
    }
    files.sort();
    for f in files {
        let rel = f.strip_prefix(&a[1]).unwrap().to_string_lossy().to_string();
        let src = std::fs::read_to_string(&f).unwrap();
        let out = std::path::Path::new(&a[2]).join(&rel);
        if rel == "lib.rs" { std::fs::write(out, format!("{}\n{}", src, HELP)).unwrap(); continue; }
        if rel.ends_with("mod.rs") { continue; }
        let mut t = parse_file(&src).unwrap();
        v.file = rel;
        v.visit_file_mut(&mut t);
        let s = quote!(#t).to_string();
        std::fs::write(&out, s).unwrap();
        std::process::Command::new("rustfmt").args(["--edition", "2021"]).arg(&out).status().unwrap();
    }
}
