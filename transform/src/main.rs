//! Source-to-source translator: rewrites a Rust source tree so that every
//! `f64` computation is carried out on symbolic terms (`symrt::Sym`).
//!
//! The rewriting is purely type driven and does not look at *what* the code
//! computes:
//!   * the name `f64` is shadowed in every module by `symrt::Sym`;
//!   * float literals become `symrt::lit(<literal>)`;
//!   * `e as T` becomes `symrt::cast_to::<T, _>(e)` for numeric `T`;
//!   * `std::collections::{HashMap,HashSet}` become deterministic twins;
//!   * `std::time` becomes a clock that the harness controls;
//!   * `std::f64::…` paths become `symrt::f64mod::…`.
//! Everything else - control flow, iterators, traits, generics - is compiled
//! by rustc exactly as written in the repository.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Lit};

#[derive(Default)]
struct X {
    fconsts: HashSet<String>,
    in_const: usize,
    lits: usize,
    file: String,
    imp: String,
    fns: usize,
    casts: usize,
}

const INTS: &[&str] = &[
    "usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "f64",
];

fn float_lit(l: &Lit) -> Option<String> {
    match l {
        Lit::Float(f) if f.suffix() != "f32" => Some(f.base10_digits().to_string()),
        Lit::Int(i) if i.suffix() == "f64" => Some(i.base10_digits().to_string()),
        _ => None,
    }
}

fn lit_tokens(d: &str) -> TokenStream {
    let s = if d.contains('.') || d.contains('e') || d.contains('E') {
        d.trim_end_matches('.').to_string()
    } else {
        d.to_string()
    };
    let s = format!("{s}f64");
    let l: proc_macro2::TokenStream = s.parse().unwrap();
    quote!(::symrt::lit(#l))
}

impl X {
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        // last resort rewriting inside macro bodies that are no expressions
        let mut out = TokenStream::new();
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let inner = self.tokens(g.stream());
                    let mut ng = Group::new(g.delimiter(), inner);
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                TokenTree::Literal(l) => {
                    let lit: Lit = syn::parse_str(&l.to_string()).unwrap_or(Lit::Verbatim(l.clone()));
                    if let Some(d) = float_lit(&lit) {
                        self.lits += 1;
                        out.extend(lit_tokens(&d));
                    } else {
                        out.extend([TokenTree::Literal(l)]);
                    }
                }
                t => out.extend([t]),
            }
        }
        out
    }

    fn macro_body(&mut self, ts: TokenStream) -> TokenStream {
        use syn::parse::Parser;
        use syn::punctuated::Punctuated;
        // expr, expr, ...   (allow `name = expr`, which parses as assignment)
        let p = Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        if let Ok(mut es) = p.parse2(ts.clone()) {
            for e in es.iter_mut() {
                // `name = value` format arguments: only rewrite the value
                if let Expr::Assign(a) = e {
                    self.visit_expr_mut(&mut a.right);
                } else {
                    self.visit_expr_mut(e);
                }
            }
            return es.to_token_stream();
        }
        // expr ; expr  (vec![x; n])
        let p = |input: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> {
            let a: Expr = input.parse()?;
            let _: syn::Token![;] = input.parse()?;
            let b: Expr = input.parse()?;
            Ok((a, b))
        };
        if let Ok((mut a, mut b)) = p.parse2(ts.clone()) {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            return quote!(#a ; #b);
        }
        // expr, pat (matches!) or anything else
        let p = |input: syn::parse::ParseStream| -> syn::Result<(Expr, TokenStream)> {
            let a: Expr = input.parse()?;
            let _: syn::Token![,] = input.parse()?;
            let b: TokenStream = input.parse()?;
            Ok((a, b))
        };
        if let Ok((mut a, b)) = p.parse2(ts.clone()) {
            self.visit_expr_mut(&mut a);
            let b = self.tokens(b);
            return quote!(#a , #b);
        }
        self.tokens(ts)
    }
}

fn is_f64_ty(t: &syn::Type) -> bool {
    matches!(t, syn::Type::Path(p) if p.qself.is_none() && p.path.is_ident("f64"))
}

fn is_collections(p: &syn::Path) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    s.len() >= 2 && s[0] == "std" && s[1] == "collections"
}

impl X {
    fn enter(&mut self, name: &str, b: &mut syn::Block) {
        let n = if self.imp.is_empty() {
            format!("{}::{}", self.file, name)
        } else {
            format!("{}::{}::{}", self.file, self.imp, name)
        };
        self.fns += 1;
        b.stmts.insert(0, parse_quote!(::symrt::enter(#n);));
    }
}

impl VisitMut for X {
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        if f.sig.constness.is_none() {
            let n = f.sig.ident.to_string();
            self.enter(&n, &mut f.block);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        if f.sig.constness.is_none() {
            let n = f.sig.ident.to_string();
            self.enter(&n, &mut f.block);
        }
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut syn::TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        let n = f.sig.ident.to_string();
        if let Some(mut b) = f.default.take() {
            self.enter(&n, &mut b);
            f.default = Some(b);
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        let t = i.self_ty.to_token_stream().to_string().replace(' ', "");
        let t = t.split('<').next().unwrap_or("").to_string();
        let old = std::mem::replace(&mut self.imp, t);
        visit_mut::visit_item_impl_mut(self, i);
        self.imp = old;
    }
    fn visit_item_trait_mut(&mut self, i: &mut syn::ItemTrait) {
        let t = i.ident.to_string();
        let old = std::mem::replace(&mut self.imp, t);
        visit_mut::visit_item_trait_mut(self, i);
        self.imp = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(l) => {
                if let Some(d) = float_lit(&l.lit) {
                    self.lits += 1;
                    let t = lit_tokens(&d);
                    *e = syn::parse2(t).unwrap();
                }
                return;
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Lit(l) = &*r.expr {
                    if let Some(d) = float_lit(&l.lit) {
                        // keeps the promotion of `&0.0` to a static
                        self.lits += 1;
                        let t = lit_tokens(&d);
                        *e = syn::parse2(quote!(&const { #t })).unwrap();
                        return;
                    }
                }
            }
            // also where no operator trait may be called: constants
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => {
                if let Expr::Lit(l) = &*u.expr {
                    if let Some(d) = float_lit(&l.lit) {
                        self.lits += 1;
                        *e = syn::parse2(lit_tokens(&format!("-{d}"))).unwrap();
                        return;
                    }
                }
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                if self.in_const > 0 {
                    return;
                }
                if let syn::Type::Path(p) = &*c.ty {
                    if let Some(i) = p.path.get_ident() {
                        if INTS.contains(&i.to_string().as_str()) {
                            let inner = &c.expr;
                            let ty = &c.ty;
                            self.casts += 1;
                            *e = parse_quote!(::symrt::cast_to::<#ty, _>(#inner));
                        }
                    }
                }
                return;
            }
            Expr::Match(m) => {
                // float literal patterns become guards
                for arm in m.arms.iter_mut() {
                    if let syn::Pat::Lit(l) = &arm.pat {
                        if let Some(d) = float_lit(&l.lit) {
                            let t = lit_tokens(&d);
                            arm.pat = parse_quote!(__v);
                            let g: Expr = match &arm.guard {
                                None => parse_quote!(__v == #t),
                                Some((_, g)) => parse_quote!(__v == #t && (#g)),
                            };
                            arm.guard = Some((Default::default(), Box::new(g)));
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let ts = std::mem::take(&mut m.tokens);
        m.tokens = self.macro_body(ts);
    }

    fn visit_attribute_mut(&mut self, _a: &mut syn::Attribute) {}

    fn visit_item_const_mut(&mut self, c: &mut syn::ItemConst) {
        if is_f64_ty(&c.ty) {
            c.expr = Box::new(self.const_expr(&c.expr));
            return;
        }
        self.in_const += 1;
        visit_mut::visit_item_const_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_item_static_mut(&mut self, c: &mut syn::ItemStatic) {
        if is_f64_ty(&c.ty) {
            c.expr = Box::new(self.const_expr(&c.expr));
            return;
        }
        self.in_const += 1;
        visit_mut::visit_item_static_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut syn::ImplItemConst) {
        if is_f64_ty(&c.ty) {
            c.expr = self.const_expr(&c.expr);
            return;
        }
        self.in_const += 1;
        visit_mut::visit_impl_item_const_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_type_array_mut(&mut self, t: &mut syn::TypeArray) {
        self.visit_type_mut(&mut t.elem);
        self.in_const += 1;
        self.visit_expr_mut(&mut t.len);
        self.in_const -= 1;
    }
    fn visit_expr_repeat_mut(&mut self, t: &mut syn::ExprRepeat) {
        self.visit_expr_mut(&mut t.expr);
        self.in_const += 1;
        self.visit_expr_mut(&mut t.len);
        self.in_const -= 1;
    }
    fn visit_variant_mut(&mut self, v: &mut syn::Variant) {
        visit_mut::visit_fields_mut(self, &mut v.fields);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() >= 3 && (s[0] == "std" || s[0] == "core") && s[1] == "f64" {
            let rest = p.segments.iter().skip(2);
            *p = parse_quote!(::symrt::f64mod::#(#rest)::*);
            return;
        }
        if is_collections(p) && s.len() >= 3 && (s[2] == "HashMap" || s[2] == "HashSet") {
            let rest = p.segments.iter().skip(2);
            *p = parse_quote!(::symrt::collections::#(#rest)::*);
        }
        if s.len() >= 3 && (s[0] == "std" || s[0] == "core") && s[1] == "time" {
            let rest = p.segments.iter().skip(2);
            *p = parse_quote!(::symrt::time::#(#rest)::*);
            return;
        }
        if s.len() >= 3 && s[0] == "std" && s[1] == "primitive" && s[2] == "f64" {
            *p = parse_quote!(::symrt::Sym);
        }
    }

    fn visit_item_use_mut(&mut self, u: &mut syn::ItemUse) {
        // std::collections -> symrt::collections (re-exports the rest)
        // std::f64 -> symrt::f64mod
        if let syn::UseTree::Path(p) = &mut u.tree {
            if p.ident == "std" || p.ident == "core" {
                match &mut *p.tree {
                    syn::UseTree::Path(q) if q.ident == "collections" => {
                        let t = &q.tree;
                        let l = if u.leading_colon.is_some() { quote!() } else { quote!(::) };
                        u.tree = syn::parse2(quote!(symrt::collections::#t)).unwrap();
                        let _ = l;
                        u.leading_colon = Some(Default::default());
                        return;
                    }
                    syn::UseTree::Path(q) if q.ident == "f64" => {
                        let t = &q.tree;
                        u.tree = syn::parse2(quote!(symrt::f64mod::#t)).unwrap();
                        u.leading_colon = Some(Default::default());
                        return;
                    }
                    syn::UseTree::Path(q) if q.ident == "time" => {
                        let t = &q.tree;
                        u.tree = syn::parse2(quote!(symrt::time::#t)).unwrap();
                        u.leading_colon = Some(Default::default());
                        return;
                    }
                    syn::UseTree::Name(n) if n.ident == "time" => {
                        u.tree = syn::parse2(quote!(symrt::time)).unwrap();
                        u.leading_colon = Some(Default::default());
                        return;
                    }
                    syn::UseTree::Name(n) if n.ident == "f64" => {
                        u.tree = syn::parse2(quote!(symrt::f64mod as __f64mod)).unwrap();
                        u.leading_colon = Some(Default::default());
                        return;
                    }
                    syn::UseTree::Group(g) => {
                        // use std::{collections::X, ...}: split out collections
                        let mut extra: Vec<syn::UseTree> = vec![];
                        let items: Vec<syn::UseTree> = g.items.iter().cloned().collect();
                        let mut keep = syn::punctuated::Punctuated::new();
                        for it in items {
                            match &it {
                                syn::UseTree::Path(q) if q.ident == "collections" => {
                                    let t = &q.tree;
                                    extra.push(syn::parse2(quote!(symrt::collections::#t)).unwrap());
                                }
                                syn::UseTree::Path(q) if q.ident == "f64" => {
                                    let t = &q.tree;
                                    extra.push(syn::parse2(quote!(symrt::f64mod::#t)).unwrap());
                                }
                                syn::UseTree::Path(q) if q.ident == "time" => {
                                    let t = &q.tree;
                                    extra.push(syn::parse2(quote!(symrt::time::#t)).unwrap());
                                }
                                syn::UseTree::Name(q) if q.ident == "time" => {
                                    extra.push(syn::parse2(quote!(symrt::time)).unwrap());
                                }
                                _ => keep.push(it),
                            }
                        }
                        if !extra.is_empty() {
                            g.items = keep;
                            let inner = p.to_token_stream();
                            let t = quote!({ #inner, #(::#extra),* });
                            u.tree = syn::parse2(t).unwrap();
                            u.leading_colon = None;
                        }
                        return;
                    }
                    _ => {}
                }
            }
        }
    }

    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        visit_mut::visit_item_mod_mut(self, m);
        if let Some((_, items)) = &mut m.content {
            items.insert(0, parse_quote!(#[allow(unused_imports)] use ::symrt::f64;));
        }
    }
}

impl X {
    /// `const X: f64 = …` cannot call trait methods: fold the original
    /// expression natively and wrap the result.
    fn const_expr(&mut self, e: &Expr) -> Expr {
        struct Raw<'a>(&'a HashSet<String>);
        impl VisitMut for Raw<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(i) = p.path.segments.last() {
                        if self.0.contains(&i.ident.to_string()) {
                            let pp = p.clone();
                            *e = parse_quote!(#pp.raw());
                            return;
                        }
                    }
                    let n = p.path.segments.len();
                    if n == 2 && p.path.segments[0].ident == "f64" {
                        let s = &p.path.segments[1];
                        *e = parse_quote!(::core::primitive::f64::#s);
                        return;
                    }
                }
                if let Expr::Cast(c) = e {
                    self.visit_expr_mut(&mut c.expr);
                    if is_f64_ty(&c.ty) {
                        c.ty = parse_quote!(::core::primitive::f64);
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut e = e.clone();
        Raw(&self.fconsts).visit_expr_mut(&mut e);
        parse_quote!(::symrt::lit(#e))
    }
}

fn collect_consts(f: &syn::File, out: &mut HashSet<String>) {
    fn items(its: &[syn::Item], out: &mut HashSet<String>) {
        for i in its {
            match i {
                syn::Item::Const(c) if is_f64_ty(&c.ty) => {
                    out.insert(c.ident.to_string());
                }
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        items(its, out)
                    }
                }
                syn::Item::Impl(im) => {
                    for it in &im.items {
                        if let syn::ImplItem::Const(c) = it {
                            if is_f64_ty(&c.ty) {
                                out.insert(c.ident.to_string());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    items(&f.items, out);
}

/// plain enumerations may be cast to integers
fn enum_casts(items: &mut Vec<syn::Item>) {
    let mut new = vec![];
    for i in items.iter_mut() {
        match i {
            syn::Item::Enum(e)
                if !e.variants.is_empty()
                    && e.generics.params.is_empty()
                    && e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) =>
            {
                let n = &e.ident;
                let cfgs: Vec<_> = e.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
                new.push(parse_quote!(#(#cfgs)* ::symrt::enum_casts!(#n);));
            }
            syn::Item::Mod(m) => {
                if let Some((_, its)) = &mut m.content {
                    enum_casts(its)
                }
            }
            _ => {}
        }
    }
    items.extend(new);
}

fn rs_files(d: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]));
    let mut files = vec![];
    rs_files(&src, &mut files);
    let mut x = X::default();
    let mut parsed = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&text) {
            Ok(ast) => {
                collect_consts(&ast, &mut x.fconsts);
                parsed.push((f.clone(), ast));
            }
            Err(e) => {
                // modules which are commented out of the build may not parse
                eprintln!("symxform: {}: does not parse ({e}); copied verbatim", f.display());
                let o = dst.join(f.strip_prefix(&src).unwrap());
                std::fs::create_dir_all(o.parent().unwrap()).unwrap();
                std::fs::write(o, text).unwrap();
            }
        }
    }
    let mut written = HashSet::new();
    for (f, mut ast) in parsed {
        x.file = f.strip_prefix(&src).unwrap().with_extension("").display().to_string();
        x.visit_file_mut(&mut ast);
        enum_casts(&mut ast.items);
        let root = f == src.join("lib.rs") || f == src.join("main.rs");
        ast.items.insert(0, parse_quote!(#[allow(unused_imports)] use ::symrt::f64;));
        if root {
            // crate attributes that would get in the way of generated code
            ast.attrs.retain(|a| {
                let s = a.path().to_token_stream().to_string();
                s != "warn" && s != "deny" && s != "forbid"
            });
            ast.attrs.push(parse_quote!(#![allow(warnings)]));
        }
        let o = dst.join(f.strip_prefix(&src).unwrap());
        let t = ast.to_token_stream().to_string();
        written.insert(o.clone());
        std::fs::create_dir_all(o.parent().unwrap()).unwrap();
        if std::fs::read_to_string(&o).map(|old| old == t).unwrap_or(false) {
            continue;
        }
        std::fs::write(o, t).unwrap();
    }
    println!("files {} functions {} literals {} casts {}", files.len(), x.fns, x.lits, x.casts);
}
