//! Takes the interpreter's sources from /repo, and makes the integers of its values symbolic.
//!
//! The parsers, lowering, optimiser and explanation transform, which never look at a row, are copied
//! as they are. In the files that evaluate rows, `i64` becomes the engine's symbolic integer,
//! except where it is the type of multiplicities, with conversions where values are made from or
//! cast to machine integers. The server, which is only a driver, is left out.
use quote::ToTokens;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};

struct Symbolic;
impl VisitMut for Symbolic {
    fn visit_item_type_mut(&mut self, i: &mut syn::ItemType) { if i.ident != "Diff" { visit_mut::visit_item_type_mut(self, i) } }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if p.path.is_ident("i64") { *t = syn::parse_quote!(::ddverif::Sym); return; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        let typed = matches!(&l.pat, syn::Pat::Type(t) if t.ty.to_token_stream().to_string().replace(' ', "") == "::ddverif::Sym");
        if let (true, Some(init)) = (typed, l.init.as_mut()) { let e = &init.expr; *init.expr = syn::parse_quote!(crate::bridge::to_sym(#e)); }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        use syn::{parse::Parser, punctuated::Punctuated, Expr, Token};
        let parser = Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut args) = parser.parse2(m.tokens.clone()) {
            for a in args.iter_mut() { self.visit_expr_mut(a) }
            m.tokens = args.to_token_stream();
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::Cast(c) => {
                let inner = &c.expr;
                let to = c.ty.to_token_stream().to_string().replace(' ', "");
                if to == "::ddverif::Sym" { *e = syn::parse_quote!(crate::bridge::to_sym(#inner)); }
                else if to == "u64" || to == "u32" || to == "usize" { let ty = &c.ty; *e = syn::parse_quote!((crate::bridge::Word::word(#inner) as #ty)); }
            }
            syn::Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "timely::execute_directly" || f == "execute_directly" { *c.func = syn::parse_quote!(crate::bridge::execute_directly); }
                if (f == "Value::Int" || f == "Self::Int") && c.args.len() == 1 {
                    let (f, a) = (&c.func, &c.args[0]);
                    *e = syn::parse_quote!(#f(crate::bridge::to_sym(#a)));
                }
            }
            // Literals of declared types.
            syn::Expr::Let(_) => { }
            // Used as a function.
            syn::Expr::MethodCall(m) => for a in m.args.iter_mut() {
                if a.to_token_stream().to_string().replace(' ', "") == "Value::Int" { *a = syn::parse_quote!(|x| Value::Int(crate::bridge::to_sym(x))); }
            },
            _ => { }
        }
    }
}

fn rust_files(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() { rust_files(&p, out) } else if p.extension().is_some_and(|e| e == "rs") { out.push(p) }
    }
}

fn main() {
    let from = Path::new("/repo/interactive/src");
    println!("cargo:rerun-if-changed={}", from.display());
    println!("cargo:rerun-if-changed=build.rs");
    let to = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("interactive");
    let _ = std::fs::remove_dir_all(&to);
    let mut files = vec![];
    rust_files(from, &mut files);
    for f in files {
        let name = f.strip_prefix(from).unwrap().to_str().unwrap().to_string();
        if name == "server.rs" { continue }
        println!("cargo:rerun-if-changed={}", f.display());
        let text = std::fs::read_to_string(&f).unwrap();
        // Sources that neither build nor take apart a row's integers stay as they are.
        let rows = name == "ir.rs" || name == "lib.rs" || name.starts_with("backend/");
        let mut file = syn::parse_file(&text).unwrap();
        file.items.retain(|i| match i {
            syn::Item::Mod(m) => m.ident != "server" && !m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")),
            _ => true,
        });
        // Inner attributes and documentation may not be included.
        if name == "lib.rs" { file.attrs.clear() }
        if rows { Symbolic.visit_file_mut(&mut file) }
        let path = to.join(&name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, file.to_token_stream().to_string()).unwrap();
    }
}
