//! A call of a function of the code that the unit has no contract for is replaced by the function's body, when that is
//! possible without changing what the code does: parameters are bound (or are the places passed), early returns of the callee
//! become its value. What cannot be replaced stays a call; the unit then has no contract for it and the caller is not proved.
use crate::FnItem;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// method names that std types have too: a call of one is only resolved when the receiver is `self`
const STD: &[&str] = &["push", "pop", "get", "get_mut", "first", "last", "len", "is_empty", "iter", "iter_mut", "into_iter", "new", "clone", "eq", "ne", "cmp", "partial_cmp", "hash", "default", "from", "into", "try_from", "try_into", "parse", "find", "rfind", "contains", "contains_key", "starts_with", "ends_with", "split", "splitn", "split_once", "split_at", "split_off", "trim", "trim_start", "trim_end", "lines", "chars", "bytes", "char_indices", "to_string", "to_vec", "to_owned", "as_str", "as_ref", "as_mut", "as_bytes", "as_path", "as_deref", "deref", "borrow", "borrow_mut", "read", "write", "lock", "insert", "remove", "clear", "entry", "or_insert", "or_insert_with", "keys", "values", "extend", "extend_from_slice", "append", "drain", "retain", "truncate", "reverse", "sort", "dedup", "swap", "concat", "join", "map", "map_err", "map_or", "map_or_else", "and_then", "and", "or", "or_else", "ok_or", "ok_or_else", "ok", "err", "unwrap", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "unwrap_err", "expect", "expect_err", "is_some", "is_none", "is_ok", "is_err", "is_some_and", "take", "replace", "cloned", "copied", "next", "peek", "skip", "step_by", "chain", "zip", "rev", "enumerate", "filter", "filter_map", "flat_map", "flatten", "fold", "for_each", "all", "any", "position", "count", "sum", "product", "min", "max", "collect", "fuse", "peekable", "take_while", "skip_while", "abs", "sqrt", "powi", "sin", "cos", "sin_cos", "to_radians", "to_degrees", "is_nan", "is_finite", "is_infinite", "floor", "ceil", "round", "min_by", "max_by", "neg", "add", "sub", "mul", "div", "rem", "index", "fmt", "write_str", "write_char", "push_str", "get_or_init", "fetch_add", "load", "store", "kind", "build", "name", "width", "height", "center", "bounds", "body", "matches", "merge", "run", "exec", "is_whitespace", "len_utf8", "next_back", "last_mut", "split_first", "split_last", "swap_remove", "windows", "chunks", "with_capacity", "capacity", "reserve", "to_ascii_lowercase", "to_lowercase", "extension", "with_extension", "to_path_buf", "display", "source", "describe", "set", "update", "with", "from_iter", "copy", "norm", "is_char_boundary"];

pub struct Inliner<'a> {
    pub fns: &'a BTreeMap<String, FnItem>,
    /// functions that the unit has a contract for
    pub skip: &'a BTreeSet<String>,
    pub modules: &'a BTreeSet<String>,
    pub types: &'a BTreeMap<String, Item>,
    pub self_ty: Option<Type>,
    pub output: ReturnType,
    pub stack: Vec<String>,
    /// types of parameters and locals, as far as they are written down
    pub vars: BTreeMap<String, Option<Type>>,
    pub done: usize,
    /// the type of the expression just replaced, when that is a single expression
    pub result: Option<Type>,
}

struct Locals<'a, 'b>(&'a mut Inliner<'b>);
impl<'ast> syn::visit::Visit<'ast> for Locals<'_, '_> {
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_local(&mut self, l: &'ast Local) {
        syn::visit::visit_local(self, l);
        let (id, ty) = match &l.pat {
            Pat::Ident(i) => (i.ident.to_string(), l.init.as_ref().and_then(|i| self.0.infer(&i.expr))),
            Pat::Type(t) => match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), Some((*t.ty).clone())), _ => return },
            _ => return,
        };
        self.0.declare(id, ty);
    }
}
fn strip(t: &Type) -> &Type { match t { Type::Reference(r) => strip(&r.elem), Type::Paren(p) => strip(&p.elem), t => t } }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, Try, Tail }

fn ty_name(t: &Type) -> Option<String> { if let Type::Path(p) = t { p.path.segments.last().map(|s| s.ident.to_string()) } else { None } }
fn squash(e: impl ToTokens) -> String { e.to_token_stream().to_string().replace(' ', "") }

/// returns and question marks outside of closures; loops and macros that contain something called return count as returns
struct Exits { returns: Vec<Expr>, tries: usize, breaks: bool }
impl<'ast> syn::visit::Visit<'ast> for Exits {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) { self.returns.push(r.expr.as_ref().map(|e| (**e).clone()).unwrap_or_else(|| parse_quote!(()))); syn::visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) { self.tries += 1; syn::visit::visit_expr_try(self, t); }
    fn visit_macro(&mut self, m: &'ast Macro) { if m.tokens.to_string().contains("return") || m.tokens.to_string().contains('?') { self.tries += 1; self.breaks = true; } }
}
fn exits(b: &Block) -> Exits { let mut x = Exits { returns: vec![], tries: 0, breaks: false }; syn::visit::Visit::visit_block(&mut x, b); x }
fn stmt_exits(s: &Stmt) -> Exits { let mut x = Exits { returns: vec![], tries: 0, breaks: false }; syn::visit::Visit::visit_stmt(&mut x, s); x }
fn is_failure(e: &Expr) -> bool { let s = squash(e); s.starts_with("Err(") || s == "None" }
fn bad(s: &Stmt, allow_err: bool) -> bool { stmt_exits(s).returns.iter().any(|e| !(allow_err && is_failure(e))) }

fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_expr(&a.body)),
        Expr::Block(b) => diverges(&b.block),
        _ => false,
    }
}
fn diverges(b: &Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(e, _)) => diverges_expr(e), _ => false } }
fn as_block(e: &Expr) -> Block { match e { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => { let e = e.clone(); Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] } } } }
fn then(mut b: Block, rest: &[Stmt]) -> Block {
    if rest.is_empty() { return b; }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() { b.stmts.pop(); b.stmts.push(Stmt::Expr(e, Some(Default::default()))); }
    b.stmts.extend(rest.iter().cloned());
    b
}
/// the block with its early returns turned into its value
fn tailify(b: &Block, allow_err: bool) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        if !bad(s, allow_err) { out.push(s.clone()); continue; }
        let rest = &b.stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr { Some(e) => { if bad(&Stmt::Expr((**e).clone(), None), allow_err) { return None; } out.push(Stmt::Expr((**e).clone(), None)); } None => {} }
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::If(f), _) => {
                let mut f = f.clone();
                if bad(&Stmt::Expr((*f.cond).clone(), None), allow_err) { return None; }
                let d1 = diverges(&f.then_branch);
                let d2 = f.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false);
                if !d1 && !d2 && !rest.is_empty() { return None; }
                let els = f.else_branch.as_ref().map(|(_, e)| as_block(e)).unwrap_or(Block { brace_token: Default::default(), stmts: vec![] });
                f.then_branch = tailify(&if d1 { f.then_branch.clone() } else { then(f.then_branch.clone(), rest) }, allow_err)?;
                let els = tailify(&if d2 { els } else { then(els, rest) }, allow_err)?;
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: els }))));
                out.push(Stmt::Expr(Expr::If(f), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::Match(m), _) => { out.push(Stmt::Expr(arms(m, rest, None, allow_err)?, None)); return Some(Block { brace_token: Default::default(), stmts: out }); }
            Stmt::Expr(Expr::Block(x), _) if x.label.is_none() => {
                let blk = tailify(&if diverges(&x.block) { x.block.clone() } else { then(x.block.clone(), rest) }, allow_err)?;
                out.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let e: Expr = if let Some((_, d)) = &init.diverge {
                    // let PAT = E else { leave };
                    let (p, e) = (&l.pat, &init.expr);
                    if matches!(p, Pat::Type(_)) || bad(&Stmt::Expr((**e).clone(), None), allow_err) { return None; }
                    let (yes, no) = (tailify(&Block { brace_token: Default::default(), stmts: rest.to_vec() }, allow_err)?, tailify(&as_block(d), allow_err)?);
                    parse_quote!(match #e { #p => #yes, _ => #no })
                } else {
                    match &*init.expr {
                        Expr::Match(m) => arms(m, rest, Some(l), allow_err)?,
                        Expr::If(f) => {
                            let mut f = f.clone();
                            let (_, e) = f.else_branch.clone()?;
                            let (d1, d2) = (diverges(&f.then_branch), diverges_expr(&e));
                            if d1 == d2 || bad(&Stmt::Expr((*f.cond).clone(), None), allow_err) { return None; }
                            let bind = |b: Block| -> Block { let mut l = l.clone(); let e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }); l.init.as_mut().unwrap().expr = Box::new(e); let mut stmts = vec![Stmt::Local(l)]; stmts.extend(rest.iter().cloned()); Block { brace_token: Default::default(), stmts } };
                            let t = if d1 { f.then_branch.clone() } else { bind(f.then_branch.clone()) };
                            let e = if d2 { as_block(&e) } else { bind(as_block(&e)) };
                            f.then_branch = tailify(&t, allow_err)?;
                            let e = tailify(&e, allow_err)?;
                            f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
                            Expr::If(f)
                        }
                        _ => return None,
                    }
                };
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
fn arms(m: &ExprMatch, rest: &[Stmt], bind: Option<&Local>, allow_err: bool) -> Option<Expr> {
    let mut m = m.clone();
    if bad(&Stmt::Expr((*m.expr).clone(), None), allow_err) { return None; }
    if (!rest.is_empty() || bind.is_some()) && m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() > 1 { return None; }
    for a in m.arms.iter_mut() {
        if a.guard.is_some() && bad(&Stmt::Expr((*a.guard.as_ref().unwrap().1).clone(), None), allow_err) { return None; }
        let b = if diverges_expr(&a.body) { as_block(&a.body) } else if let Some(l) = bind {
            let mut l = l.clone();
            l.init.as_mut().unwrap().expr = a.body.clone();
            let mut stmts = vec![Stmt::Local(l)];
            stmts.extend(rest.iter().cloned());
            Block { brace_token: Default::default(), stmts }
        } else { then(as_block(&a.body), rest) };
        let b = tailify(&b, allow_err)?;
        a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
        a.comma = Some(Default::default());
    }
    Some(Expr::Match(m))
}

/// the parameter `name` is the place `place`, passed as `&place`, `&mut place` or by value
struct Place<'a> { name: &'a str, place: &'a Expr, by: u8, err: bool }
impl Place<'_> {
    fn is(&self, e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) }
}
impl VisitMut for Place<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = self.place;
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) && self.by > 0 => { *e = p.clone(); return; }
            Expr::MethodCall(m) if self.is(&m.receiver) => { m.receiver = Box::new(p.clone()); for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            Expr::Field(f) if self.is(&f.base) => { f.base = Box::new(p.clone()); return; }
            Expr::Index(i) if self.is(&i.expr) => { i.expr = Box::new(p.clone()); self.visit_expr_mut(&mut i.index); return; }
            Expr::Assign(a) if self.is(&a.left) => { self.err = true; }
            _ => {}
        }
        if self.is(e) { *e = match self.by { 0 => p.clone(), 1 => parse_quote!((&#p)), _ => parse_quote!((&mut #p)) }; return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && self.is(&f.expr) { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // in the arguments of a macro (format and the like) a place by any reference reads the same
        let mut ids = BTreeSet::new();
        crate::idents(m.tokens.clone(), &mut ids);
        let inline = m.tokens.to_string().contains(&format!("{{{}", self.name));
        if ids.contains(self.name) || inline {
            let simple = matches!(self.place, Expr::Path(_) | Expr::Field(_) | Expr::Lit(_));
            if inline || !simple || self.by == 2 { self.err = true; return; }
            m.tokens = replace_ident(m.tokens.clone(), self.name, self.place);
        }
    }
}
fn replace_ident(ts: proc_macro2::TokenStream, name: &str, by: &Expr) -> proc_macro2::TokenStream {
    ts.into_iter().flat_map(|t| -> Vec<proc_macro2::TokenTree> { match t {
        proc_macro2::TokenTree::Ident(ref i) if i == name => by.to_token_stream().into_iter().collect(),
        proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), name, by)); n.set_span(g.span()); vec![proc_macro2::TokenTree::Group(n)] }
        t => vec![t],
    } }).collect()
}
fn place(e: &Expr) -> bool { match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false } }
fn root(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root(&f.base), Expr::Paren(p) => root(&p.expr), _ => None } }

struct SelfTy(Type);
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
            if let Some(n) = ty_name(&self.0) { let id = format_ident!("{}", n); p.segments[0].ident = id; }
        }
    }
}

impl<'a> Inliner<'a> {
    /// Replaces the calls in a function's body.
    pub fn run(&mut self, sig: &Signature, b: &mut Block) {
        for a in &sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { self.declare(i.ident.to_string(), Some((*t.ty).clone())); } } }
        syn::visit::Visit::visit_block(&mut Locals(self), b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail(e); }
        self.visit_block_mut(b);
    }
    fn declare(&mut self, id: String, ty: Option<Type>) {
        let same = match (self.vars.get(&id), &ty) { (Some(Some(a)), Some(b)) => squash(strip(a)) == squash(strip(b)), (Some(None), _) => false, (Some(_), None) => false, (None, _) => true };
        self.vars.insert(id, if same { ty } else { None });
    }
    /// The type of an expression, where the text tells.
    fn infer(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => self.self_ty.clone(),
            Expr::Path(p) => self.vars.get(&p.path.get_ident()?.to_string())?.clone(),
            Expr::Paren(p) => self.infer(&p.expr),
            Expr::Reference(r) => self.infer(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.infer(&u.expr),
            Expr::Field(f) => {
                let t = self.infer(&f.base)?;
                let Some(Item::Struct(s)) = self.types.get(&ty_name(strip(&t))?) else { return None };
                s.fields.iter().enumerate().find(|(i, d)| match &f.member { Member::Named(n) => d.ident.as_ref() == Some(n), Member::Unnamed(u) => u.index as usize == *i }).map(|(_, d)| d.ty.clone())
            }
            Expr::Index(i) => {
                let t = self.infer(&i.expr)?;
                match strip(&t) { Type::Slice(s) => Some((*s.elem).clone()), Type::Array(a) => Some((*a.elem).clone()), t if ty_name(t)? == "Vec" => self.arg(t), _ => None }
            }
            Expr::Struct(s) => { let p = &s.path; if p.is_ident("Self") { self.self_ty.clone() } else { Some(parse_quote!(#p)) } }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() < 2 { return self.out(&segs[0], None); }
                let t = if segs[segs.len() - 2] == "Self" { ty_name(self.self_ty.as_ref()?)? } else { segs[segs.len() - 2].clone() };
                let id = format_ident!("{}", t);
                let n = segs.last()?;
                if self.fns.contains_key(&format!("{t}::{n}")) { return self.out(&format!("{t}::{n}"), Some(parse_quote!(#id))); }
                if self.types.contains_key(&t) && ["default", "from"].contains(&n.as_str()) { Some(parse_quote!(#id)) } else { None }
            }
            Expr::MethodCall(m) => {
                let t = self.infer(&m.receiver)?;
                let n = m.method.to_string();
                if n == "clone" { return Some(strip(&t).clone()); }
                self.out(&format!("{}::{n}", ty_name(strip(&t))?), Some(strip(&t).clone()))
            }
            Expr::Try(t) => { let t = self.infer(&t.expr)?; if ["Result", "Option"].contains(&ty_name(&t)?.as_str()) { self.arg(&t) } else { None } }
            _ => None,
        }
    }
    fn arg(&self, t: &Type) -> Option<Type> { let Type::Path(p) = t else { return None }; let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments else { return None }; a.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }) }
    fn out(&self, key: &str, own: Option<Type>) -> Option<Type> {
        let f = self.fns.get(key)?;
        let ReturnType::Type(_, t) = &f.sig.output else { return None };
        if squash(strip(t)) == "Self" { return own; }
        Some((**t).clone())
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => { if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() { self.tail(e); } if let Some((_, e)) = &mut i.else_branch { self.tail(e); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail(&mut a.body); },
            Expr::Block(b) => if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() { self.tail(e); },
            Expr::Call(_) | Expr::MethodCall(_) => { visit_mut::visit_expr_mut(self, e); if let Some(n) = self.inline(e, Mode::Tail) { *e = n; } }
            _ => {}
        }
    }
    fn resolve(&self, e: &Expr) -> Option<(FnItem, Vec<Expr>)> {
        let (key, args): (String, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last()?.clone();
                let key = if segs.len() == 1 { n } else {
                    let q = &segs[segs.len() - 2];
                    if q == "Self" { format!("{}::{n}", ty_name(self.self_ty.as_ref()?)?) } else if q.chars().next()?.is_uppercase() { format!("{q}::{n}") } else if self.modules.contains(q) || q == "crate" || q == "super" || q == "self" { n } else { return None }
                };
                (key, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let known = self.infer(&m.receiver).and_then(|t| ty_name(strip(&t)));
                let own = known.as_ref().map(|t| format!("{t}::{n}")).filter(|k| self.fns.get(k).map(|f| f.sig.receiver().is_some()).unwrap_or(false));
                let key = match own { Some(k) => k, None => {
                    if STD.contains(&n.as_str()) { return None; }
                    let all: Vec<&String> = self.fns.iter().filter(|(_, f)| f.sig.ident == n && f.sig.receiver().is_some()).map(|(k, _)| k).collect();
                    if all.len() != 1 { return None; }
                    all[0].clone()
                } };
                (key, std::iter::once((*m.receiver).clone()).chain(m.args.iter().cloned()).collect())
            }
            _ => return None,
        };
        let f = self.fns.get(&key)?;
        if self.skip.contains(&key) || self.stack.contains(&key) || self.stack.len() > 6 || f.in_trait.is_some() || f.trait_.is_some() || f.block.is_none() || f.sig.asyncness.is_some() || f.sig.unsafety.is_some() || f.sig.inputs.len() != args.len() { return None; }
        if f.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) { return None; }
        Some((f.clone(), args))
    }
    fn inline(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        let (f, args) = self.resolve(e)?;
        self.result = None;
        let mut body = f.block.clone().unwrap();
        let same_self = match (&f.self_ty, &self.self_ty) { (Some(a), Some(b)) => squash(a) == squash(b), (None, _) => true, _ => false };
        // the callee's own calls first
        let mut inner = Inliner { fns: self.fns, skip: self.skip, modules: self.modules, types: self.types, vars: Default::default(), self_ty: f.self_ty.clone(), output: f.sig.output.clone(), stack: { let mut s = self.stack.clone(); s.push(f.key.clone()); s }, done: 0, result: None };
        inner.run(&f.sig, &mut body);
        if !same_self { if let Some(t) = &f.self_ty { if let Type::Path(p) = t { if !p.path.segments.last()?.arguments.is_none() && squash(&body).contains("Self") { return None; } } SelfTy(t.clone()).visit_block_mut(&mut body); } }
        let x = exits(&body);
        let through = x.tries == 0 && x.returns.is_empty() || { let head = |o: &ReturnType| -> Option<String> { if let ReturnType::Type(_, t) = o { if let Type::Path(p) = &**t { let s = p.path.segments.last()?; let k = if let PathArguments::AngleBracketed(a) = &s.arguments { a.args.iter().skip(1).map(|g| squash(g)).collect::<Vec<_>>().join(",") } else { String::new() }; return Some(format!("{} {k} {}", s.ident, p.path.segments.iter().any(|s| s.ident == "io"))); } } None }; mode != Mode::Plain && head(&f.sig.output).is_some() && head(&f.sig.output) == head(&self.output) };
        if x.breaks { return None; }
        match mode {
            Mode::Plain => { if x.tries > 0 { return None; } if !x.returns.is_empty() { body = tailify(&body, false)?; } }
            Mode::Try => { if through { body = tailify(&body, true)?; } else { if x.tries > 0 { return None; } body = tailify(&body, false)?; } }
            Mode::Tail => { if !x.returns.is_empty() { match tailify(&body, false) { Some(b) if x.tries == 0 || through => body = b, _ if squash(&f.sig.output) == squash(&self.output) || through => {} _ => return None } } else if x.tries > 0 && !through { return None; } }
        }
        // parameters
        let mut lets: Vec<Stmt> = vec![];
        let bound: BTreeSet<String> = crate::rewrite::bound_names(&f.sig, &body).into_iter().collect();
        let params: Vec<String> = f.sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => "self".into(), FnArg::Typed(t) => squash(&t.pat).trim_start_matches("mut").to_string() }).collect();
        let clash = |e: &Expr, but: &str| -> bool { let mut ids = BTreeSet::new(); crate::idents(e.to_token_stream(), &mut ids); ids.iter().any(|i| i != but && (bound.contains(i) || (params.contains(i) && i != "self"))) };
        let mut late: Vec<(String, Expr, u8)> = vec![];
        for (a, arg) in f.sig.inputs.iter().zip(&args) {
            let (name, ty, mutable): (String, Option<Type>, bool) = match a {
                FnArg::Receiver(r) => {
                    if squash(arg) == "self" && same_self { continue; }
                    let t = f.self_ty.clone()?;
                    ("self".into(), Some(match (&r.reference, &r.mutability) { (Some(_), Some(_)) => parse_quote!(&mut #t), (Some(_), None) => parse_quote!(&#t), _ => t }), r.reference.is_none() && r.mutability.is_some())
                }
                FnArg::Typed(t) => {
                    let Pat::Ident(p) = &*t.pat else { return None };
                    (p.ident.to_string(), Some((*t.ty).clone()), p.mutability.is_some())
                }
            };
            // an argument that is a place, or a literal, stands for the parameter
            let by_ref = matches!(&ty, Some(Type::Reference(_)));
            let by_mut = matches!(&ty, Some(Type::Reference(r)) if r.mutability.is_some());
            let recv = name == "self";
            let (pl, by): (Option<Expr>, u8) = match arg {
                Expr::Reference(r) if place(&r.expr) && by_ref && !mutable => (Some((*r.expr).clone()), if r.mutability.is_some() { 2 } else { 1 }),
                Expr::Lit(_) if !mutable => (Some(arg.clone()), 0),
                e if place(e) && recv && by_ref => (Some(e.clone()), if by_mut { 2 } else { 1 }),
                e if place(e) && !mutable && matches!(e, Expr::Path(_)) && !recv => (Some(e.clone()), 0),
                _ => (None, 0),
            };
            if let Some(p) = pl {
                let r = root(&p);
                let shadowed = r.as_ref().map(|r| bound.contains(r) && !(params.contains(r)) || params.iter().any(|q| q == r && *q != name && *q != "self")).unwrap_or(false);
                if !shadowed {
                    if squash(&p) == name && by == 0 { continue; }
                    let mut t = body.clone();
                    let tmp = format!("vx_arg_{name}");
                    let id = format_ident!("{}", tmp);
                    let hole: Expr = parse_quote!(#id);
                    // two steps, so that a place that mentions another parameter's name is left alone
                    let mut v = Place { name: &name, place: &hole, by: 0, err: false };
                    v.visit_block_mut(&mut t);
                    let shadow_inside = crate::rewrite::bound_names(&parse_quote!(fn f()), &body).contains(&name);
                    if !v.err && !shadow_inside { body = t; late.push((tmp, p, by)); continue; }
                }
            }
            if clash(arg, &name) { return None; }
            let id: Pat = if recv { parse_quote!(vx_this) } else { let i = format_ident!("{}", name); if mutable { parse_quote!(mut #i) } else { parse_quote!(#i) } };
            let mut t = ty.clone();
            if let Some(t) = &mut t { crate::StripLt.visit_type_mut(t); }
            let generic = t.as_ref().map(|t| { let s = t.to_token_stream().to_string(); s.contains("impl ") || s.contains("dyn ") || f.sig.generics.params.iter().chain(f.impl_generics.params.iter()).any(|p| if let GenericParam::Type(p) = p { let mut ids = BTreeSet::new(); crate::idents(t.to_token_stream(), &mut ids); ids.contains(&p.ident.to_string()) } else { false }) }).unwrap_or(true);
            let arg: Expr = if recv && by_ref { if by_mut { parse_quote!(&mut #arg) } else { parse_quote!(&#arg) } } else { arg.clone() };
            lets.push(if generic { parse_quote!(let #id = #arg;) } else { parse_quote!(let #id: #t = #arg;) });
            if recv {
                if squash(&body).contains("vx_this") { return None; }
                struct S; impl VisitMut for S { fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(vx_this); } } fn visit_macro_mut(&mut self, m: &mut Macro) { let e: Expr = parse_quote!(vx_this); m.tokens = replace_ident(m.tokens.clone(), "self", &e); } }
                S.visit_block_mut(&mut body);
            }
        }
        for (tmp, p, by) in &late {
            let mut v = Place { name: tmp, place: p, by: *by, err: false };
            v.visit_block_mut(&mut body);
            if v.err { return None; }
        }
        // the result has the type that the callee declares
        if let ReturnType::Type(_, t) = &f.sig.output {
            let mut t = (**t).clone();
            if let Some(s) = &f.self_ty { if squash(&t) == "Self" { t = s.clone(); } else { SelfTy(s.clone()).visit_type_mut(&mut t); } }
            crate::StripLt.visit_type_mut(&mut t);
            let s = t.to_token_stream().to_string();
            let mut ids = BTreeSet::new();
            crate::idents(t.to_token_stream(), &mut ids);
            let generic = s.contains("impl ") || s.contains("dyn ") || s.contains("Self") || f.sig.generics.params.iter().chain(f.impl_generics.params.iter()).any(|p| if let GenericParam::Type(p) = p { ids.contains(&p.ident.to_string()) } else { false });
            if !generic {
                if mode == Mode::Plain && lets.is_empty() && body.stmts.len() == 1 { self.result = Some(t); }
                else {
                    let e: Expr = if body.stmts.len() == 1 && matches!(body.stmts[0], Stmt::Expr(_, None)) { let Stmt::Expr(e, _) = &body.stmts[0] else { unreachable!() }; e.clone() } else { Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() }) };
                    body.stmts = vec![parse_quote!(let vx_out: #t = #e;), Stmt::Expr(parse_quote!(vx_out), None)];
                }
            }
        }
        lets.extend(body.stmts);
        self.done += 1;
        if lets.len() == 1 { if let Stmt::Expr(e, None) = &lets[0] { return Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) })); } }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: lets } }))
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let call = l.init.as_ref().map(|i| i.diverge.is_none() && matches!(*i.expr, Expr::Call(_) | Expr::MethodCall(_))).unwrap_or(false);
        self.result = None;
        visit_mut::visit_local_mut(self, l);
        if call && matches!(l.pat, Pat::Ident(_)) && matches!(*l.init.as_ref().unwrap().expr, Expr::Paren(_)) {
            if let Some(t) = self.result.take() { let p = l.pat.clone(); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) }); }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    if matches!(**x, Expr::Call(_) | Expr::MethodCall(_)) {
                        visit_mut::visit_expr_mut(self, x);
                        if let Some(n) = self.inline(x, Mode::Tail) { **x = n; }
                        return;
                    }
                }
            }
            Expr::Try(t) => {
                if matches!(*t.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                    visit_mut::visit_expr_mut(self, &mut t.expr);
                    if let Some(n) = self.inline(&t.expr, Mode::Try) { *t.expr = n; }
                    return;
                }
            }
            Expr::Closure(c) => {
                let out = std::mem::replace(&mut self.output, ReturnType::Default);
                visit_mut::visit_expr_closure_mut(self, c);
                self.output = out;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) { if let Some(n) = self.inline(e, Mode::Plain) { *e = n; } }
    }
}
