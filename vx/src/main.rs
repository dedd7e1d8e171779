//! vx: extracts functions of /repo/src mechanically, weaves in the contracts of /verif/contracts and
//! prints one Verus crate for one unit. Run on every check; nothing it prints is kept between runs.
mod contracts;
mod inline;
mod print;
mod rewrite;

use contracts::*;
use print::Printer;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use rewrite::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    key: String,
    file: String,
    line: usize,
    self_ty: Option<Type>,
    trait_: Option<Path>,
    impl_generics: Generics,
    assoc: Vec<ImplItemType>,
    in_trait: Option<String>,
    sig: Signature,
    block: Option<Block>,
}

#[derive(Default)]
struct Repo {
    modules: BTreeSet<String>,
    fns: BTreeMap<String, FnItem>,
    types: BTreeMap<String, Item>,
    traits: BTreeMap<String, ItemTrait>,
    consts: BTreeMap<String, Item>,
    type_alias: BTreeMap<String, ItemType>,
    statics: BTreeMap<String, ItemStatic>,
    derives: BTreeMap<String, Vec<String>>,
    dup: Vec<String>,
    impl_order: BTreeMap<String, Vec<String>>,
    dyns: BTreeSet<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("#[test]")
    })
}

struct Statics<'a>(&'a mut BTreeMap<String, ItemStatic>);
impl<'ast> syn::visit::Visit<'ast> for Statics<'_> {
    fn visit_item_static(&mut self, s: &'ast ItemStatic) { self.0.insert(s.ident.to_string(), s.clone()); }
}
/// `NAME` for a static becomes `vx_static_NAME()`, and a static declared in the function goes to the top level
struct UseStatics<'a>(&'a BTreeMap<String, ItemStatic>);
impl VisitMut for UseStatics<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() { if self.0.contains_key(&i.to_string()) { let f = quote::format_ident!("vx_static_{}", i); *e = parse_quote!(#f()); } }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Static(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

pub struct StripLt;
impl VisitMut for StripLt {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        a.args = a.args.iter().filter(|g| !matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
}

fn show_type(t: &Type) -> String {
    let mut t = t.clone();
    StripLt.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "").replace("<>", "")
}
fn show_path(p: &Path) -> String {
    let t: Type = Type::Path(TypePath { qself: None, path: p.clone() });
    show_type(&t)
}

impl Repo {
    fn load(&mut self, src: &std::path::Path, file: &std::path::Path, dir: &std::path::Path) {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        let ast = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        dyn_traits(ast.to_token_stream(), &mut self.dyns);
        let rel = file.strip_prefix(src).unwrap_or(file).display().to_string();
        self.items(src, &ast.items, dir, &rel);
    }

    fn items(&mut self, src: &std::path::Path, items: &[Item], dir: &std::path::Path, rel: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_test(&m.attrs) { continue; }
                    let name = m.ident.to_string();
                    self.modules.insert(name.clone());
                    let sub = dir.join(&name);
                    match &m.content {
                        Some((_, items)) => self.items(src, items, &sub, rel),
                        None => {
                            let f1 = dir.join(format!("{name}.rs"));
                            let f2 = sub.join("mod.rs");
                            let f = if f1.exists() { f1 } else { f2 };
                            self.load(src, &f, &sub);
                        }
                    }
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    let key = f.sig.ident.to_string();
                    self.add(FnItem { key, file: rel.into(), line: f.sig.ident.span().start().line, self_ty: None, trait_: None, impl_generics: Generics::default(), assoc: vec![], in_trait: None, sig: f.sig.clone(), block: Some((*f.block).clone()) });
                }
                Item::Struct(s) => { if !is_test(&s.attrs) { self.derive(&s.ident.to_string(), &s.attrs); self.ty(s.ident.to_string(), it.clone()); } }
                Item::Enum(s) => { if !is_test(&s.attrs) { self.derive(&s.ident.to_string(), &s.attrs); self.ty(s.ident.to_string(), it.clone()); } }
                Item::Type(t) => { self.type_alias.insert(t.ident.to_string(), t.clone()); }
                Item::Static(c) => { if !is_test(&c.attrs) { self.statics.insert(c.ident.to_string(), c.clone()); } }
                Item::Const(c) => { if !is_test(&c.attrs) { self.consts.insert(c.ident.to_string(), it.clone()); } }
                Item::Trait(t) => {
                    if is_test(&t.attrs) { continue; }
                    let tn = t.ident.to_string();
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            let key = format!("{tn}::{}", f.sig.ident);
                            self.add(FnItem { key, file: rel.into(), line: f.sig.ident.span().start().line, self_ty: None, trait_: None, impl_generics: Generics::default(), assoc: vec![], in_trait: Some(tn.clone()), sig: f.sig.clone(), block: f.default.clone() });
                        }
                    }
                    self.traits.insert(tn, t.clone());
                }
                Item::Impl(i) => {
                    if is_test(&i.attrs) { continue; }
                    let mut st = (*i.self_ty).clone();
                    let empty = BTreeMap::new();
                    let mods = self.modules.clone();
                    Norm { modules: &mods, renames: &empty }.visit_type_mut(&mut st);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| { let mut p = p.clone(); Norm { modules: &mods, renames: &empty }.visit_path_mut(&mut p); p });
                    let head = match &tr { Some(t) => format!("<{} as {}>", show_type(&st), show_path(t)), None => {
                        let mut s = show_type(&st); if let Some(p) = s.find('<') { s.truncate(p); } s } };
                    let assoc: Vec<ImplItemType> = i.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some(t.clone()) } else { None }).collect();
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) { continue; }
                            let key = format!("{head}::{}", f.sig.ident);
                            self.impl_order.entry(head.clone()).or_default().push(key.clone());
                            self.add(FnItem { key, file: rel.into(), line: f.sig.ident.span().start().line, self_ty: Some(st.clone()), trait_: tr.clone(), impl_generics: i.generics.clone(), assoc: assoc.clone(), in_trait: None, sig: f.sig.clone(), block: Some(f.block.clone()) });
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn derive(&mut self, name: &str, attrs: &[Attribute]) {
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
            }
        }
        self.derives.insert(name.into(), v);
    }
    fn ty(&mut self, n: String, it: Item) { if self.types.insert(n.clone(), it).is_some() { self.dup.push(n); } }
    fn add(&mut self, f: FnItem) {
        if let Some(b) = &f.block { syn::visit::Visit::visit_block(&mut Statics(&mut self.statics), b); }
 let k = f.key.clone(); if self.fns.insert(k.clone(), f).is_some() { self.dup.push(k); } }
}

pub fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} }
    }
}
/// the traits used as trait objects: `dyn a::b::Trait`
fn dyn_traits(ts: TokenStream, out: &mut BTreeSet<String>) {
    let mut name: Option<String> = None;
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == "dyn" => { name = Some(String::new()); }
            TokenTree::Ident(i) => { if let Some(n) = &mut name { *n = i.to_string(); } }
            TokenTree::Punct(p) if p.as_char() == ':' => {}
            TokenTree::Group(g) => { if let Some(n) = name.take() { out.insert(n); } dyn_traits(g.stream(), out); }
            _ => { if let Some(n) = name.take() { out.insert(n); } }
        }
    }
    if let Some(n) = name { out.insert(n); }
}
fn text_idents(s: &str, out: &mut BTreeSet<String>) {
    let mut w = String::new();
    for c in s.chars() { if c.is_alphanumeric() || c == '_' { w.push(c); } else if !w.is_empty() { out.insert(std::mem::take(&mut w)); } }
    if !w.is_empty() { out.insert(w); }
}

#[derive(Default, Clone)]
struct FnInfo { key: String, file: String, line: usize, mode: String, start: usize, end: usize, loops: usize, closures: usize, notes: Vec<String> }

struct Gen<'a> {
    repo: &'a Repo,
    con: &'a Contracts,
    renames: BTreeMap<String, String>,
    out: String,
    infos: Vec<FnInfo>,
    bcast: Vec<String>,
    wfns: WorldFns,
    demote: BTreeSet<String>,
    probe: Option<String>,
    want: BTreeMap<String, String>,
    reveal: Option<BTreeSet<String>>,
    lost: Vec<(String, String)>,
}

fn fix_sig_types(sig: &mut Signature) {
    // trait bound Iterator<Item=X> on a generic parameter -> VxIterator<Item=X>; FromIterator -> VxFromIter etc. is done by renames
    sig.unsafety = None;
}

impl<'a> Gen<'a> {
    fn norm_sig(&self, sig: &Signature) -> Signature {
        let mut s = sig.clone();
        Norm { modules: &self.repo.modules, renames: &self.renames }.visit_signature_mut(&mut s);
        if s.ident == "main" { s.ident = quote::format_ident!("vx_main"); }
        for a in s.inputs.iter_mut() { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
        fix_sig_types(&mut s);
        if s.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))) {
            if let Some(n) = method_rename(&s.ident.to_string()).filter(|n| *n != "vx_deref") { s.ident = quote::format_ident!("{}", n); }
        }
        s
    }

    /// text of `fn name<..>(..) -> (r: T) where ..`, and statements to prepend (for `mut` parameters)
    fn sig_text(&self, sig: &Signature, c: Option<&FnContract>, default_ret: &str) -> (String, Vec<Stmt>) {
        let mut s = sig.clone();
        let mut pre: Vec<Stmt> = vec![];
        for a in s.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        pre.push(parse_quote!(let mut vx_self = self;));
                    }
                    if c.map(|c| c.mutself).unwrap_or(false) && r.reference.is_some() { *a = parse_quote!(&mut self); }
                }
                FnArg::Typed(t) => {
                    if let Pat::Ident(p) = &mut *t.pat { if p.mutability.is_some() { p.mutability = None; let id = p.ident.clone(); pre.push(parse_quote!(let mut #id = #id;)); } }
                    else if let Pat::Wild(_) = &*t.pat { let id = quote::format_ident!("vx_p{}", pre.len()); *t.pat = parse_quote!(#id); }
                }
            }
        }
        if c.map(|c| c.world).unwrap_or(false) { s.inputs.push(parse_quote!(Tracked(vx_w): Tracked<&mut VxW>)); }
        let ret = match &s.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
        let wh = s.generics.where_clause.take();
        s.output = ReturnType::Default;
        let mut t = Printer::print(s.to_token_stream(), &[], 0);
        if let Some(r) = ret {
            let name = c.map(|c| c.ret.clone()).filter(|s| !s.is_empty()).unwrap_or(default_ret.to_string());
            t.push_str(&format!(" -> ({name}: {})", Printer::print(r.to_token_stream(), &[], 0)));
        }
        if let Some(w) = wh { t.push_str(&format!(" {}", Printer::print(w.to_token_stream(), &[], 0))); if !t.trim_end().ends_with(',') { t.push(','); } }
        (t, pre)
    }

    fn emit(&mut self, s: &str) { self.out.push_str(s); if !s.ends_with('\n') { self.out.push('\n'); } }
    fn line(&self) -> usize { self.out.matches('\n').count() + 1 }

    /// Emits one function (without the surrounding impl).
    fn emit_fn(&mut self, f: &FnItem, mode: &str, public: bool) {
        let c = self.con.fns.get(&f.key);
        let mut info = FnInfo { key: f.key.clone(), file: f.file.clone(), line: f.line, mode: mode.into(), ..Default::default() };
        let sig = self.norm_sig(&f.sig);
        let (st, pre) = self.sig_text(&sig, c, "vx_r");
        info.start = self.line();
        let vis = if public { "pub " } else { "" };
        let mut rename = BTreeMap::new();
        if let (Some(c), Some(b)) = (c, &f.block) {
            // contracts name the locals of the function as it was when the contract was written; follow renames
            if !c.locals.is_empty() {
                let now = bound_names(&f.sig, b);
                if now != c.locals {
                    rename = follow_renames(&c.locals, &now);
                    if now.len() != c.locals.len() { info.notes.push("locals-changed".into()); }
                }
            }
        }
        let sigc = c.map(|c| subst(&c.sig, &rename)).unwrap_or_default();
        let attrs = c.map(|c| c.attrs.clone()).unwrap_or_default();
        match (mode, &f.block) {
            ("decl", _) => { let t = format!("{st}\n{sigc};\n"); self.emit(&t); }
            ("verify", Some(b)) => {
                let mut b = b.clone();
                Norm { modules: &self.repo.modules, renames: &self.renames }.visit_block_mut(&mut b);
                UseStatics(&self.repo.statics).visit_block_mut(&mut b);
                let wf = self.wfns.clone();
                let self_ty = f.self_ty.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                let fnp = fn_params(&f.sig);
                let mut rw = Rw { fn_params: fnp, lets: BTreeMap::new(), depth: 0, world: if c.map(|c| c.world).unwrap_or(false) { Some(&wf) } else { None }, self_ty, reveal: self.reveal.is_some(), marks: vec![], contract: c, loops: 0, closures: 0, tmp: 0, notes: vec![], rename, iter_aliases: BTreeMap::new(), loop_names: BTreeMap::new() };
                rw.visit_block_mut(&mut b);
                trailing_drops(&mut b);
                let mut stmts: Vec<Stmt> = pre;
                if let Some(l) = &self.reveal {
                    let mut l = l.clone();
                    str_lits(b.to_token_stream(), &mut l);
                    let t: String = l.iter().filter(|s| s.len() > 2).map(|s| format!("reveal_strlit({s}); ")).collect();
                    rw.marks.push(format!("proof {{ {t}}}")); let n = proc_macro2::Literal::usize_unsuffixed(rw.marks.len() - 1); stmts.push(parse_quote!(vx_mark!(#n);));
                }
                if let Some(c) = c { if let Some(t) = c.at.get(&("body_start".to_string(), 0)) { let t = rw.text(t); rw.marks.push(t); let n = proc_macro2::Literal::usize_unsuffixed(rw.marks.len() - 1); stmts.push(parse_quote!(vx_mark!(#n);)); } }
                if self.probe.as_deref() == Some("start") { rw.marks.push("proof { assert(false); }".into()); let n = proc_macro2::Literal::usize_unsuffixed(rw.marks.len() - 1); stmts.push(parse_quote!(vx_mark!(#n);)); }
                let mut end: Vec<Stmt> = vec![];
                if let Some(c) = c { if let Some(t) = c.at.get(&("body_end".to_string(), 0)) {
                    let t = rw.text(t); rw.marks.push(t); let n = proc_macro2::Literal::usize_unsuffixed(rw.marks.len() - 1); end.push(parse_quote!(vx_mark!(#n);)); } }
                if self.probe.as_deref() == Some("end") { rw.marks.push("proof { assert(false); }".into()); let n = proc_macro2::Literal::usize_unsuffixed(rw.marks.len() - 1); end.push(parse_quote!(vx_mark!(#n);)); }
                if !stmts.is_empty() && stmts.iter().any(|s| s.to_token_stream().to_string().contains("vx_self")) { replace_self(&mut b); }
                let mut body_stmts = b.stmts.clone();
                let rty: Type = match &sig.output { ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => (**t).clone(), ReturnType::Default => parse_quote!(()), _ => parse_quote!(_) };
                if !end.is_empty() {
                    if let Some(Stmt::Expr(Expr::Return(r), _)) = body_stmts.last().cloned() {
                        body_stmts.pop();
                        let e = r.expr.clone().unwrap_or_else(|| parse_quote!(()));
                        body_stmts.push(parse_quote!(let vx_res: #rty = #e;));
                        body_stmts.extend(end);
                        body_stmts.push(parse_quote!(return vx_res;));
                    } else if let Some(Stmt::Expr(e, None)) = body_stmts.last().cloned() {
                        body_stmts.pop();
                        body_stmts.push(parse_quote!(let vx_res: #rty = #e;));
                        body_stmts.extend(end);
                        body_stmts.push(Stmt::Expr(parse_quote!(vx_res), None));
                    } else { body_stmts.extend(end); }
                }
                stmts.extend(body_stmts);
                let nb: Block = Block { brace_token: Default::default(), stmts };
                let body = Printer::print(nb.to_token_stream(), &rw.marks, 0);
                info.loops = rw.loops;
                info.closures = rw.closures;
                if let Some(c) = c {
                    let want = c.nloops.unwrap_or_else(|| c.loops.keys().max().map(|m| m + 1).unwrap_or(0));
                    if rw.loops != want { info.notes.push(format!("loops: contract has {want}, code has {}", rw.loops)); }
                    let wc = c.closures.keys().max().map(|m| m + 1).unwrap_or(0);
                    if rw.closures < wc { info.notes.push(format!("closures: contract has {wc}, code has {}", rw.closures)); }
                } else if rw.loops > 0 { info.notes.push(format!("loops: contract has 0, code has {}", rw.loops)); }
                let t = format!("{attrs}{vis}{st}\n{sigc}{body}\n");
                self.emit(&t);
            }
            (_, Some(_)) => {
                let attrs: String = attrs.lines().filter(|l| !l.contains("loop_isolation") && !l.contains("rlimit") && !l.contains("spinoff")).map(|l| format!("{l}\n")).collect();
                let t = format!("#[verifier::external_body]\n{attrs}{vis}{st}\n{sigc}{{ unimplemented!() }}\n");
                self.emit(&t);
            }
            (_, None) => { let t = format!("{st}\n{sigc};\n"); self.emit(&t); }
        }
        info.end = self.line() - 1;
        self.infos.push(info);
    }

    fn generics_text(&self, g: &Generics) -> (String, String) {
        let mut g = g.clone();
        Norm { modules: &self.repo.modules, renames: &self.renames }.visit_generics_mut(&mut g);
        let w = g.where_clause.take();
        (Printer::print(g.to_token_stream(), &[], 0), w.map(|w| Printer::print(w.to_token_stream(), &[], 0)).unwrap_or_default())
    }

    fn emit_type(&mut self, name: &str) {
        let it = self.repo.types[name].clone();
        let derives = self.repo.derives.get(name).cloned().unwrap_or_default();
        if let Some(t) = self.con.opaque.get(name) { let t = t.clone(); self.emit(&t); return; }
        if derives.iter().any(|d| d == "Copy") && !derives.iter().any(|d| d == "Clone") && self.repo.fns.contains_key(&format!("<{name} as Clone>::clone")) {
            self.lost.push((format!("<{name} as Clone>::clone"), "is written by hand for a type that is Copy, and the extraction takes it for the derived one".to_string()));
        }
        let mut ds: Vec<&str> = vec![];
        match it {
            Item::Struct(mut s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                Norm { modules: &self.repo.modules, renames: &self.renames }.visit_item_struct_mut(&mut s);
                if derives.iter().any(|d| d == "Copy") { ds.extend(["Clone", "Copy"]); }
                if !ds.is_empty() { let t = format!("#[derive({})]", ds.join(", ")); self.emit(&t); }
                let t = Printer::print(s.to_token_stream(), &[], 0);
                self.emit(&t);
                self.float_fields(name, &s);
                self.derived(name, &derives, &s);
            }
            Item::Enum(mut s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                Norm { modules: &self.repo.modules, renames: &self.renames }.visit_item_enum_mut(&mut s);
                if derives.iter().any(|d| d == "Copy") { ds.extend(["Clone", "Copy"]); }
                if derives.iter().any(|d| d == "PartialEq") { ds.extend(["PartialEq", "Eq", "Structural"]); }
                if !ds.is_empty() { let t = format!("#[derive({})]", ds.join(", ")); self.emit(&t); }
                let t = Printer::print(s.to_token_stream(), &[], 0);
                self.emit(&t);
                self.derived_enum_clone(name, &derives, &s);
            }
            _ => {}
        }
    }

    /// Verus drops the typing invariant of float fields; these (proved) lemmas give it back.
    fn float_fields(&mut self, name: &str, s: &ItemStruct) {
        if !s.generics.params.is_empty() { return; }
        let (mut t, mut names) = (String::new(), vec![]);
        for (i, f) in s.fields.iter().enumerate() {
            let ty = f.ty.to_token_stream().to_string();
            if ty != "f64" && ty != "f32" { continue; }
            let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
            t.push_str(&format!("pub open spec fn vx_ty_{name}_{n}(p: {name}) -> {ty} {{ p.{n} }}\npub broadcast proof fn vx_tyl_{name}_{n}(p: {name}) ensures #[trigger] p.{n} == vx_ty_{name}_{n}(p) {{ }}\n"));
            names.push(format!("vx_tyl_{name}_{n}"));
        }
        if names.is_empty() { return; }
        self.bcast.extend(names);
        self.emit(&format!("pub mod vx_typed_{name} {{\nuse super::{name};\nuse vstd::prelude::*;\n{t}}}\npub use vx_typed_{name}::*;\n"));
    }

    /// A derived Clone of an enum, expanded the way rustc does (variant by variant), with the contract given for it.
    fn derived_enum_clone(&mut self, name: &str, derives: &[String], s: &ItemEnum) {
        let key = format!("<{name} as Clone>::clone");
        if !derives.iter().any(|d| d == "Clone") || derives.iter().any(|d| d == "Copy") || !self.want.contains_key(&key) || !s.generics.params.is_empty() { return; }
        let Some(c) = self.con.fns.get(&key).cloned() else { return };
        let arms: Vec<String> = s.variants.iter().map(|v| {
            let n = &v.ident;
            let vars: Vec<String> = v.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("vx_{i}"))).collect();
            let clones: Vec<String> = vars.iter().zip(v.fields.iter()).map(|(x, f)| if f.ident.is_some() { format!("{x}: {x}.clone()") } else { format!("{x}.clone()") }).collect();
            match &v.fields {
                Fields::Unit => format!("{name}::{n} => {name}::{n},"),
                Fields::Unnamed(_) => format!("{name}::{n}({}) => {name}::{n}({}),", vars.join(", "), clones.join(", ")),
                Fields::Named(_) => format!("{name}::{n} {{ {} }} => {name}::{n} {{ {} }},", vars.join(", "), clones.join(", ")),
            }
        }).collect();
        let trust = c.attrs.contains("external_body") || self.demote.contains(&key) || self.want[&key] == "trust";
        let mut info = FnInfo { key: key.clone(), file: "derive".into(), line: 0, mode: if trust { "trust".into() } else { "verify".into() }, ..Default::default() };
        let raw = self.con.impls.get(&format!("<{name} as Clone>")).cloned().unwrap_or_default();
        let (before, inside) = raw.split_once("---\n").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((raw.clone(), String::new()));
        info.start = self.line();
        let t = format!("{before}impl Clone for {name} {{\n{inside}{}{}fn clone(&self) -> ({}: Self)\n{}{{\n{}\n}}\n}}\n", c.attrs, if trust { "#[verifier::external_body]\n" } else { "" },
            if c.ret.is_empty() { "vx_r" } else { &c.ret }, c.sig, if trust { "unimplemented!()".to_string() } else { format!("match self {{\n{}\n}}", arms.join("\n")) });
        self.emit(&t);
        info.end = self.line() - 1;
        self.infos.push(info);
    }

    /// Derived impls of structs, expanded the way rustc does (field by field), with the contract given for them.
    fn derived(&mut self, name: &str, derives: &[String], s: &ItemStruct) {
        let (g, w) = self.generics_text(&s.generics);
        let gargs = if s.generics.params.is_empty() { String::new() } else {
            let a: Vec<String> = s.generics.params.iter().map(|p| match p { GenericParam::Type(t) => t.ident.to_string(), GenericParam::Lifetime(l) => l.lifetime.to_string(), GenericParam::Const(c) => c.ident.to_string() }).collect();
            format!("<{}>", a.join(", ")) };
        let fields: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())).collect();
        let tuple = s.fields.iter().next().map(|f| f.ident.is_none()).unwrap_or(false);
        let copy = derives.iter().any(|d| d == "Copy");
        for d in derives {
            let (tr, m) = match d.as_str() { "Clone" if !copy => ("Clone", "clone"), "PartialEq" => ("PartialEq", "eq"), "Default" => ("Default", "default"), "Hash" => ("Hash", "hash"), _ => continue };
            let key = format!("<{name} as {tr}>::{m}");
            if !self.want.contains_key(&key) { continue; }
            let Some(c) = self.con.fns.get(&key).cloned() else { continue };
            let (params, ret) = match m { "hash" => ("&self, state: &mut H", "()"), "clone" => ("&self", "Self"), "eq" => ("&self, other: &Self", "bool"), _ => ("", "Self") };
            let body = match m {
                "hash" => fields.iter().map(|f| format!("self.{f}.vx_hash(state);")).collect::<Vec<_>>().join("\n"),
                "eq" => if fields.is_empty() { "true".to_string() } else { fields.iter().map(|f| format!("self.{f} == other.{f}")).collect::<Vec<_>>().join(" && ") },
                _ => {
                    let val = |f: &String| if m == "clone" { format!("self.{f}.clone()") } else { "Default::default()".to_string() };
                    if tuple { format!("{name}({})", fields.iter().map(val).collect::<Vec<_>>().join(", ")) }
                    else { format!("{name} {{ {} }}", fields.iter().map(|f| format!("{f}: {}", val(f))).collect::<Vec<_>>().join(", ")) }
                }
            };
            let mut info = FnInfo { key: key.clone(), file: "derive".into(), line: 0, mode: "derived".into(), ..Default::default() };
            let trust = c.attrs.contains("external_body") || self.demote.contains(&key) || self.want[&key] == "trust";
            let b = if trust { "unimplemented!()".to_string() } else { body };
            let at = c.at.get(&("body_start".to_string(), 0)).cloned().unwrap_or_default();
            info.mode = if trust { "trust".into() } else { "verify".into() };
            let raw = self.con.impls.get(&format!("<{name} as {tr}>")).cloned().unwrap_or_default();
            info.start = self.line();
            let extra = if trust && !c.attrs.contains("external_body") { "#[verifier::external_body]\n" } else { "" };
            let (before, inside) = raw.split_once("---\n").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((raw.clone(), String::new()));
            let (tr, m) = if m == "hash" { ("VxHash", "vx_hash<H: VxHasher>") } else { (tr, m) };
            let t = format!("{before}impl{g} {tr} for {name}{gargs} {w} {{\n{inside}{}{extra}fn {m}({params}) -> ({}: {ret})\n{}{{\n{at}{b}\n}}\n}}\n",
                c.attrs, if c.ret.is_empty() { "vx_r" } else { &c.ret }, c.sig);
            self.emit(&t);
            info.end = self.line() - 1;
            self.infos.push(info);
            if m == "eq" && derives.iter().any(|d| d == "Eq") { let t = format!("impl{g} Eq for {name}{gargs} {w} {{ }}\n"); self.emit(&t); }
        }
    }
}

fn subst(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() { return t.to_string(); }
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' { w.push(c); } else {
            if !w.is_empty() { out.push_str(m.get(&w).unwrap_or(&w)); w.clear(); }
            out.push(c);
        }
    }
    out.push_str(m.get(&w).unwrap_or(&w));
    out
}

fn replace_self(b: &mut Block) {
    struct S;
    impl VisitMut for S { fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(vx_self); } } }
    S.visit_block_mut(b);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let repo_dir = get("--repo").unwrap_or("/repo".into());
    let mut con = Contracts::load(&get("--contracts").unwrap_or("/verif/contracts".into()));
    let mut repo = Repo::default();
    let src = std::path::Path::new(&repo_dir).join("src");
    repo.load(&src, &src.join("lib.rs"), &src);
    let tool = src.join("bin").join("lsystem");
    if tool.join("main.rs").exists() { repo.load(&src, &tool.join("main.rs"), &tool); }
    // module names are only complete after the first pass
    let mods = repo.modules.clone();
    repo = Repo { modules: mods, ..Default::default() };
    repo.load(&src, &src.join("lib.rs"), &src);
    let tool = src.join("bin").join("lsystem");
    if tool.join("main.rs").exists() { repo.load(&src, &tool.join("main.rs"), &tool); }
    if args.iter().any(|a| a == "--list") {
        for (k, f) in &repo.fns {
            let names = f.block.as_ref().map(|b| bound_names(&f.sig, b).join(" ")).unwrap_or_default();
            println!("{k}\t{}:{}\t{names}\t{}", f.file, f.line, f.block.as_ref().map(shape).unwrap_or_default());
        }
        return;
    }
    let unit_name = get("--unit").expect("--unit");
    let unit = con.units.get(&unit_name).unwrap_or_else(|| panic!("no unit {unit_name}")).clone();
    for k in &unit.alts {
        // another text for an impl, or another contract of a function
        if let Some(t) = con.impls.get(&format!("alt {k}")).cloned() { con.impls.insert(k.clone(), t); continue; }
        let mut c = con.fns.get(&format!("alt {k}")).unwrap_or_else(|| panic!("no alt contract for {k}")).clone();
        c.path = k.clone();
        con.fns.insert(k.clone(), c);
    }
    for k in &unit.clear { con.opaque.remove(k); }
    let con = con;
    let plain = Repo { fns: repo.fns.clone(), ..Default::default() };
    // calls of functions that the unit does not name: their bodies
    let mut skip: BTreeSet<String> = unit.verify.iter().chain(unit.trust.iter()).cloned().collect();
    // nor those that an opaque type of the contracts declares
    for k in plain.fns.keys() {
        if let Some((t, n)) = k.rsplit_once("::") { if con.opaque.get(t).map(|o| o.contains(&format!("fn {n}<")) || o.contains(&format!("fn {n}("))).unwrap_or(false) { skip.insert(k.clone()); } }
    }
    for k in &unit.verify {
        let Some(f) = plain.fns.get(k) else { continue };
        let Some(mut b) = f.block.clone() else { continue };
        let mut i = inline::Inliner { fns: &plain.fns, skip: &skip, modules: &repo.modules, types: &repo.types, vars: Default::default(), self_ty: f.self_ty.clone(), output: f.sig.output.clone(), stack: vec![k.clone()], done: 0, result: None };
        i.run(&f.sig, &mut b);
        if i.done > 0 {
            if args.iter().any(|a| a == "--show-inlined") { eprintln!("{k}: {} calls replaced by bodies", i.done); }
            repo.fns.get_mut(k).unwrap().block = Some(b);
        }
    }
    let demote: BTreeSet<String> = get("--demote").map(|d| d.split(" | ").map(String::from).filter(|s| !s.is_empty()).collect()).unwrap_or_default();
    let renames: BTreeMap<String, String> = [("Iterator", "VxIterator"), ("IntoIterator", "VxIntoIter"), ("FromIterator", "VxFromIter"), ("Display", "VxDisplay"), ("Formatter", "VxFormatter"), ("ToString", "VxToString"), ("RwLock", "VxLock"), ("RefCell", "VxCell"), ("HashMap", "VxMap"), ("HashSet", "VxSet"), ("Hash", "VxHash"), ("Hasher", "VxHasher"), ("TryInto", "VxTryInto"), ("TryFrom", "VxTryFrom"), ("AsRef", "VxAsRef"), ("AtomicU32", "VxAtomic"), ("OnceLock", "VxOnce"), ("Arc", "VxArc"), ("ExitCode", "VxExitCode"), ("File", "VxFile"), ("OsStr", "VxOsStr"), ("OsString", "VxOsStr"), ("PoisonError", "VxPoisonError"), ("ParseIntError", "VxParseIntError"), ("ParseFloatError", "VxParseFloatError"), ("Infallible", "VxNever"), ("PathBuf", "VxFsPath")]
        .iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut g = Gen { repo: &repo, con: &con, renames, out: String::new(), infos: vec![], bcast: vec![], wfns: WorldFns::default(), demote, probe: get("--probe"), want: BTreeMap::new(), lost: vec![], reveal: None };

    if !unit.reveal.is_empty() {
        let mut lits = BTreeSet::new();
        for n in &unit.reveal { let t: String = con.specs.get(n).unwrap_or_else(|| panic!("no spec {n}")).lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
            let t: TokenStream = t.parse().expect("spec text"); str_lits(t, &mut lits); }
        g.reveal = Some(lits);
    }
    g.emit("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, unreachable_code, unreachable_patterns, non_snake_case, unused_must_use)]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nuse core::cmp::Ordering;\nuse core::ops::{Add, Sub, Neg, Div, Mul, Index, Deref};\nuse std::rc::Rc;\nverus! {\n");
    for s in std::iter::once(&"prelude".to_string()).chain(unit.specs.iter()) {
        let t = con.specs.get(s).unwrap_or_else(|| panic!("no spec {s}")).clone();
        // Verus allows one module-level `broadcast use`
        let mut kept = String::new();
        for l in t.lines() {
            if let Some(b) = l.strip_prefix("broadcast use ") { g.bcast.push(b.trim_end_matches(';').to_string()); } else { kept.push_str(l); kept.push('\n'); }
        }
        let m = format!("spec_{}", s);
        g.emit(&format!("// ---- spec {s}\npub mod {m} {{\nuse super::*;\nuse vstd::prelude::*;\n{kept}\n}}\npub use {m}::*;\n"));
    }
    // functions
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for k in &unit.trust { want.insert(k.clone(), "trust".into()); }
    for k in &unit.verify { want.insert(k.clone(), if g.demote.contains(k) { "trust".into() } else { "verify".into() }); }
    g.want = want.clone();
    for (k, c) in &con.fns {
        if !c.world { continue; }
        let Some(f) = repo.fns.get(k) else { continue };
        if !want.contains_key(k) && f.in_trait.is_none() { continue; }
        if f.sig.receiver().is_some() { g.wfns.methods.insert(f.sig.ident.to_string()); }
        else {
            g.wfns.fns.insert(k.split("::").collect::<Vec<_>>()[..].join("::"));
            // T::f of a trait's f without a receiver
            if let Some(t) = &f.in_trait {
                for j in want.keys() { if let Some((ty, _)) = j.strip_prefix('<').and_then(|r| r.split_once(&format!(" as {t}>::"))) { g.wfns.fns.insert(format!("{ty}::{}", f.sig.ident)); } }
            }
        }
    }
    for m in &unit.world { if m.contains("::") || m.starts_with("vx_") { g.wfns.fns.insert(m.clone()); } if !m.contains("::") { g.wfns.methods.insert(m.clone()); } }
    for k in want.keys() {
        if !repo.fns.contains_key(k) {
            let derived = k.starts_with('<') && con.fns.contains_key(k) && {
                let ty = k[1..].split(" as ").next().unwrap_or("");
                let tr = k.split(" as ").nth(1).and_then(|r| r.split(">::").next()).unwrap_or("");
                repo.types.contains_key(ty) && repo.derives.get(ty).map(|d| d.iter().any(|d| d == tr)).unwrap_or(false)
            };
            if !derived { g.lost.push((k.clone(), "function not found".into())); }
        }
        if !con.fns.contains_key(k) && !k.starts_with('<') { eprintln!("warning: no contract for {k}"); }
    }
    // group: free fns, impls by head, traits
    let mut heads: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut free: Vec<String> = vec![];
    let mut tr: BTreeSet<String> = BTreeSet::new();
    for k in want.keys() {
        let Some(f) = repo.fns.get(k) else { continue };
        if let Some(t) = &f.in_trait { tr.insert(t.clone()); }
        else if f.self_ty.is_some() {
            let head = k.rsplit_once("::").unwrap().0.to_string();
            heads.entry(head).or_default().push(k.clone());
        } else { free.push(k.clone()); }
    }
    for k in &free { let f = repo.fns[k].clone(); let m = want[k].clone(); g.emit_fn(&f, &m, true); }
    for (head, keys) in &heads {
        let f0 = repo.fns[&keys[0]].clone();
        let st = Printer::print({ let mut t = f0.self_ty.clone().unwrap(); Norm { modules: &repo.modules, renames: &g.renames }.visit_type_mut(&mut t); t.to_token_stream() }, &[], 0);
        if let Some(t) = &f0.trait_ {
            let (gt, w) = g.generics_text(&f0.impl_generics);
            let mut tp = t.clone();
            Norm { modules: &repo.modules, renames: &g.renames }.visit_path_mut(&mut tp);
            let tname = Printer::print(tp.to_token_stream(), &[], 0);
            let raw = con.impls.get(head).cloned().unwrap_or_default();
            // raw text before a line "---" goes in front of the impl, the rest inside
            let (before, inside) = raw.split_once("---\n").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((raw.clone(), String::new()));
            g.emit(&before);
            g.emit(&format!("impl{gt} {tname} for {st} {w} {{"));
            for a in &f0.assoc {
                if a.ident == "IntoIter" { continue; }
                let mut a = a.clone();
                a.attrs.clear();
                Norm { modules: &repo.modules, renames: &g.renames }.visit_type_mut(&mut a.ty);
                g.emit(&Printer::print(a.to_token_stream(), &[], 0));
            }
            g.emit(&inside);
            for k in repo.impl_order.get(head).cloned().unwrap_or_default() {
                let mut f = repo.fns[&k].clone();
                // a method of a trait of the code that the trait's contract leaves out
                if let Some(n) = f0.trait_.as_ref().map(|t| t.segments.last().unwrap().ident.to_string()) {
                    if repo.traits.contains_key(&n) && !con.opaque.contains_key(&n) && !con.fns.contains_key(&format!("{n}::{}", f.sig.ident)) && !want.contains_key(&k) { continue; }
                }
                let m = want.get(&k).cloned().unwrap_or("trust".into());
                if tname.starts_with("VxIntoIter") && f.sig.ident == "into_iter" { f.sig.ident = quote::format_ident!("vx_into_iter"); if let ReturnType::Type(_, t) = &mut f.sig.output { **t = parse_quote!(VxIt<Self::Item>); } }
                if tname.starts_with("VxTryFrom") && f.sig.ident == "try_from" { f.sig.ident = quote::format_ident!("vx_try_from"); }
                if tname.starts_with("VxFromIter") && f.sig.ident == "from_iter" { f.sig.ident = quote::format_ident!("vx_from_iter"); }
                g.emit_fn(&f, &m, false);
            }
            g.emit("}\n");
        } else {
            for k in keys {
                let f = repo.fns[k].clone();
                let (gt, w) = g.generics_text(&f.impl_generics);
                let st = Printer::print({ let mut t = f.self_ty.clone().unwrap(); Norm { modules: &repo.modules, renames: &g.renames }.visit_type_mut(&mut t); t.to_token_stream() }, &[], 0);
                g.emit(&format!("impl{gt} {st} {w} {{"));
                let m = want[k].clone();
                g.emit_fn(&f, &m, true);
                g.emit("}\n");
            }
        }
    }
    // types, traits, consts reachable by name
    let mut done: BTreeSet<String> = BTreeSet::new();
    for t in &unit.types { tr.insert(t.clone()); }
    loop {
        let mut ids = BTreeSet::new();
        text_idents(&g.out, &mut ids);
        for t in &tr { ids.insert(t.clone()); }
        let st: Vec<String> = repo.statics.keys().filter(|n| !done.contains(&format!("vx_static_{n}")) && (ids.contains(&format!("vx_static_{n}")) || ids.contains(&format!("vx_s_{n}")))).cloned().collect();
        for n in &st {
            done.insert(format!("vx_static_{n}"));
            let mut t = (*repo.statics[n].ty).clone();
            Norm { modules: &repo.modules, renames: &g.renames }.visit_type_mut(&mut t);
            let t = Printer::print(t.to_token_stream(), &[], 0);
            g.emit(&format!("pub uninterp spec fn vx_s_{n}() -> {t};\n#[verifier::external_body]\npub fn vx_static_{n}() -> (r: &'static {t}) ensures *r == vx_s_{n}() {{ unimplemented!() }}\n"));
        }
        if !st.is_empty() { continue; }
        let todo: Vec<String> = ids.into_iter().filter(|i| !done.contains(i) && (repo.types.contains_key(i) || repo.traits.contains_key(i) || repo.consts.contains_key(i) || repo.type_alias.contains_key(i))).collect();
        if todo.is_empty() { break; }
        for n in todo {
            done.insert(n.clone());
            if repo.types.contains_key(&n) { g.emit_type(&n); }
            else if repo.traits.contains_key(&n) {
                if let Some(t) = con.opaque.get(&n) { let t = t.clone(); g.emit(&t); continue; }
                let t = &repo.traits[&n];
                let (gt, w) = g.generics_text(&t.generics);
                let raw = con.impls.get(&format!("trait {n}")).cloned().unwrap_or_default();
                let (before, inside) = raw.split_once("---\n").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((raw.clone(), String::new()));
                g.emit(&before);
                let dflt = if t.supertraits.iter().any(|b| b.to_token_stream().to_string().ends_with("Default")) { " + Default" } else { "" };
                let sized = if repo.dyns.contains(&n) { "" } else { ": Sized" };
                g.emit(&format!("pub trait {n}{gt}{sized}{dflt} {w} {{"));
                for i in &t.items { if let TraitItem::Type(a) = i { let mut a = a.clone(); a.attrs.clear(); g.emit(&Printer::print(a.to_token_stream(), &[], 0)); } }
                g.emit(&inside);
                for i in &t.items { if let TraitItem::Fn(f) = i {
                    let k = format!("{n}::{}", f.sig.ident);
                    let fi = repo.fns[&k].clone();
                    if !con.fns.contains_key(&k) { continue; }
                    let m = if fi.block.is_none() { "decl".to_string() } else { want.get(&k).cloned().unwrap_or("trust".into()) };
                    g.emit_fn(&fi, &m, false);
                } }
                g.emit("}\n");
            } else if repo.consts.contains_key(&n) {
                if let Item::Const(c) = &repo.consts[&n] { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); g.emit(&Printer::print(c.to_token_stream(), &[], 0)); }
            } else if let Some(a) = repo.type_alias.get(&n) {
                if n == "Result" { continue; }
                let mut a = a.clone(); a.attrs.clear(); a.vis = parse_quote!(pub);
                Norm { modules: &repo.modules, renames: &g.renames }.visit_item_type_mut(&mut a);
                g.emit(&Printer::print(a.to_token_stream(), &[], 0));
            }
        }
    }
    if !g.bcast.is_empty() { let t = format!("broadcast use {{ {} }};\n", g.bcast.join(", ")); g.emit(&t); }
    g.emit("\n} // verus!\nfn main() {}\n");
    let out = get("--out").expect("--out");
    std::fs::write(&out, &g.out).unwrap();
    let fns: Vec<serde_json::Value> = g.infos.iter().map(|i| serde_json::json!({"key": i.key, "file": i.file, "line": i.line, "mode": i.mode, "start": i.start, "end": i.end, "shape": repo.fns.get(&i.key).and_then(|f| f.block.as_ref()).map(shape).unwrap_or_default(), "names": repo.fns.get(&i.key).and_then(|f| f.block.as_ref().map(|b| bound_names(&f.sig, b))).unwrap_or_default(), "anchors": con.fns.get(&i.key).map(|c| { let mut s = String::new(); for t in c.loops.values().chain(c.closures.values()).chain(c.at.values()) { s.push_str(t); s.push('\n'); } s }).unwrap_or_default(), "loops": i.loops, "closures": i.closures, "notes": i.notes})).collect();
    let mut touch: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, f) in &plain.fns {
        let Some(b) = &f.block else { continue };
        let mut ids = BTreeSet::new();
        idents(b.to_token_stream(), &mut ids);
        for (n, _) in repo.statics.iter().map(|(n, _)| (n.clone(), 0)).chain(con.guarded.iter().map(|(n, _)| (n.clone(), 1))) { if ids.contains(&n) { touch.entry(n).or_default().push(k.clone()); } }
    }
    let guard: Vec<serde_json::Value> = unit.guard.iter().map(|n| { let allowed = con.guarded.get(n).cloned().unwrap_or_default(); let t = touch.get(n).cloned().unwrap_or_default(); serde_json::json!({"name": n, "allowed": allowed, "extra": t.iter().filter(|k| !allowed.contains(k) && repo.fns[*k].sig.ident != n.as_str()).collect::<Vec<_>>()}) }).collect();
    let all: Vec<&String> = repo.fns.keys().collect();
    let map = serde_json::json!({"unit": unit_name, "fns": fns, "lost": g.lost, "guard": guard, "dup": repo.dup, "repo_fns": all, "contracts": con.fns.keys().collect::<Vec<_>>()});
    std::fs::write(get("--map").expect("--map"), serde_json::to_string_pretty(&map).unwrap()).unwrap();
}

/// Which local of the function as it was when the contract was written is which local now: a name that is still there
/// is itself; between two names that are still there, the vanished names are the new ones, in order.
fn follow_renames(was: &[String], now: &[String]) -> BTreeMap<String, String> {
    let gaps = |xs: &[String], ys: &[String]| {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut after = String::new();
        for x in xs {
            if ys.contains(x) { after = x.clone(); } else { let v = m.entry(after.clone()).or_default(); if !v.contains(x) { v.push(x.clone()); } }
        }
        m
    };
    let (a, b) = (gaps(was, now), gaps(now, was));
    let mut r = BTreeMap::new();
    let (mut left, mut right): (Vec<String>, Vec<String>) = (Vec::new(), Vec::new());
    for (k, v) in &a {
        let none = Vec::new();
        let w = b.get(k).unwrap_or(&none);
        for (i, x) in v.iter().enumerate() { match w.get(i) { Some(y) => { r.entry(x.clone()).or_insert(y.clone()); } None => left.push(x.clone()) } }
    }
    for (k, w) in &b { let n = a.get(k).map(|v| v.len()).unwrap_or(0); for y in w.iter().skip(n) { right.push(y.clone()); } }
    // names that moved elsewhere
    if left.len() == right.len() { for (x, y) in left.into_iter().zip(right) { r.entry(x).or_insert(y); } }
    r
}
