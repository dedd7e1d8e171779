//! Rewrites the body and the types of one function of /repo into the subset of Rust that Verus accepts.
//! Every rule is listed in DESIGN.md ("What the extraction changes"); no rule looks at a particular function.
use crate::contracts::FnContract;
use proc_macro2::{Literal, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Strips module prefixes, lifetimes, and maps iterator types to the sequence iterator `VxIt`.
pub struct Norm<'a> { pub modules: &'a BTreeSet<String>, pub renames: &'a BTreeMap<String, String> }

fn is_module_seg(s: &str, modules: &BTreeSet<String>) -> bool {
    matches!(s, "crate" | "super" | "self" | "std" | "core" | "alloc") || modules.contains(s)
        || matches!(s, "iter" | "fmt" | "collections" | "result" | "option" | "string" | "vec" | "slice" | "fs" | "path" | "rc" | "sync" | "io" | "num" | "cell" | "ops" | "prelude" | "time" | "thread" | "cmp" | "mem" | "str" | "rand" | "atomic" | "hash" | "borrow" | "convert" | "distributions")
}

pub fn iter_item(ty: &Type) -> Option<Type> {
    // the item type, if `ty` is (after stripping) a std iterator type
    match ty {
        Type::ImplTrait(t) => { for b in &t.bounds { if let Some(i) = bound_item(b) { return Some(i); } } None }
        Type::TraitObject(t) => { for b in &t.bounds { if let Some(i) = bound_item(b) { return Some(i); } } None }
        Type::Path(p) => {
            let seg = p.path.segments.last()?;
            let args: Vec<Type> = match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect(), _ => vec![] };
            match seg.ident.to_string().as_str() {
                "Iter" if args.len() == 1 => { let a = &args[0]; Some(parse_quote!(&#a)) }
                "IntoIter" if args.len() == 1 => Some(args[0].clone()),
                "Cloned" | "Copied" if args.len() == 1 => { let i = iter_item(&args[0])?; if let Type::Reference(r) = i { Some((*r.elem).clone()) } else { Some(i) } }
                "Box" if args.len() == 1 => iter_item(&args[0]),
                "Rev" | "Peekable" | "Fuse" if args.len() == 1 => iter_item(&args[0]),
                _ => None
            }
        }
        Type::Paren(p) => iter_item(&p.elem),
        _ => None
    }
}

fn bound_item(b: &TypeParamBound) -> Option<Type> {
    if let TypeParamBound::Trait(t) = b {
        let seg = t.path.segments.last()?;
        if seg.ident == "Iterator" || seg.ident == "DoubleEndedIterator" || seg.ident == "ExactSizeIterator" {
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                for g in &a.args { if let GenericArgument::AssocType(x) = g { if x.ident == "Item" { return Some(x.ty.clone()); } } }
            }
        }
    }
    None
}

impl VisitMut for Norm<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // std::iter::empty / once
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names.len() >= 2 && names[names.len() - 2] == "iter" && (names.last().unwrap() == "empty" || names.last().unwrap() == "once") {
            let id = format_ident!("vx_iter_{}", names.last().unwrap());
            *p = parse_quote!(#id);
            return;
        }
        if names.len() >= 2 && names[names.len() - 2] == "fmt" && names.last().unwrap() == "Result" {
            *p = parse_quote!(VxFmtResult);
            return;
        }
        if names.len() >= 2 && names[names.len() - 2] == "io" && names.last().unwrap() == "Result" {
            if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments { let t = a.args[0].clone(); *p = parse_quote!(Result<#t, VxIoError>); }
            return;
        }
        if names.len() >= 2 && names[names.len() - 2] == "io" && names.last().unwrap() == "Error" { *p = parse_quote!(VxIoError); return; }
        if names.len() == 3 && names[0] == "std" && names[1] == "error" && names[2] == "Error" { *p = parse_quote!(VxCause); return; }
        if names.len() >= 3 && names[0] == "std" && names[names.len() - 2] == "path" && matches!(names.last().unwrap().as_str(), "Path" | "PathBuf") { *p = parse_quote!(VxFsPath); return; }
        let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        while segs.len() > 1 && matches!(segs[0].arguments, PathArguments::None) && is_module_seg(&segs[0].ident.to_string(), self.modules) {
            segs.remove(0);
        }
        p.leading_colon = None;
        if segs.len() == 1 && segs[0].ident == "AsRef" && !self.renames.is_empty() {
            let path = segs[0].arguments.to_token_stream().to_string().contains("Path");
            segs[0] = if path { parse_quote!(VxAsPath) } else { parse_quote!(VxAsRef) };
        }
        if let Some(last) = segs.last_mut() {
            if last.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                    if a.args.len() == 1 { a.args.push(parse_quote!(Error)); }
                }
            }
            if let Some(n) = self.renames.get(&last.ident.to_string()) { if segs.len() == 1 { segs[0].ident = format_ident!("{}", n); } }
        }
        // Type::function: rename the type
        if segs.len() == 2 && segs[0].ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
            if let Some(n) = self.renames.get(&segs[0].ident.to_string()) { segs[0].ident = format_ident!("{}", n); }
        }
        p.segments = segs.into_iter().collect();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(mut item) = iter_item(t) {
            self.visit_type_mut(&mut item);
            *t = parse_quote!(VxIt<#item>);
            return;
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::TraitObject(o) = t { for b in o.bounds.iter_mut() { if let TypeParamBound::Trait(b) = b { if b.path.is_ident("VxCause") { b.path = parse_quote!(VxText); } } } }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // strip attributes inside is not needed; only the path
        visit_mut::visit_macro_mut(self, m);
    }
}

/// The functions that have the ghost parameter for the history of lock events.
#[derive(Default, Clone)]
pub struct WorldFns { pub fns: BTreeSet<String>, pub methods: BTreeSet<String> }

/// Parameters that are functions (of a generic type bound by FnOnce, Fn or FnMut).
pub fn fn_params(sig: &Signature) -> BTreeSet<String> {
    let is_fn = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map(|s| s.ident.to_string().starts_with("Fn")).unwrap_or(false));
    let mut tys = BTreeSet::new();
    for p in &sig.generics.params { if let GenericParam::Type(t) = p { if t.bounds.iter().any(is_fn) { tys.insert(t.ident.to_string()); } } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if t.bounds.iter().any(is_fn) { tys.insert(t.bounded_ty.to_token_stream().to_string()); } } } }
    let mut out = BTreeSet::new();
    for a in &sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat {
        let f = match &*t.ty { Type::ImplTrait(i) => i.bounds.iter().any(is_fn), ty => tys.contains(&ty.to_token_stream().to_string()) };
        if f { out.insert(p.ident.to_string()); }
    } } }
    out
}

pub struct Rw<'a> {
    pub fn_params: BTreeSet<String>,
    pub lets: BTreeMap<String, usize>,
    pub depth: usize,
    pub world: Option<&'a WorldFns>,
    pub self_ty: String,
    pub marks: Vec<String>,
    pub reveal: bool,
    pub contract: Option<&'a FnContract>,
    pub loops: usize,
    pub closures: usize,
    pub tmp: usize,
    pub notes: Vec<String>,
    pub rename: BTreeMap<String, String>,
    pub iter_aliases: BTreeMap<usize, (String, String)>,
    pub loop_names: BTreeMap<String, Vec<String>>, // names bound by the pattern of loop n: $p0
}

fn subst_word(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() { return text.to_string(); }
    let mut out = String::new();
    let mut word = String::new();
    let mut prev = ' ';
    let flush = |w: &mut String, out: &mut String, prev: char| {
        if !w.is_empty() { if prev != '.' { if let Some(n) = map.get(w.as_str()) { out.push_str(n); w.clear(); return; } } out.push_str(w); w.clear(); }
    };
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' { word.push(c); } else { flush(&mut word, &mut out, prev); prev = c; out.push(c); }
    }
    flush(&mut word, &mut out, prev);
    out
}

/// the string literals of a text, and the literal parts of formats
pub fn str_lits(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if !s.starts_with('"') { continue; }
                if let Ok(v) = parse_str::<LitStr>(&s) {
                    let v = v.value();
                    let mut cur = String::new();
                    let mut depth = 0;
                    for c in v.chars() { match c { '{' => { depth += 1; if !cur.is_empty() { out.insert(format!("{:?}", std::mem::take(&mut cur))); } } '}' => depth -= 1, c if depth == 0 => cur.push(c), _ => {} } }
                    if !cur.is_empty() { out.insert(format!("{cur:?}")); }
                }
            }
            TokenTree::Group(g) => str_lits(g.stream(), out),
            _ => {}
        }
    }
}

impl<'a> Rw<'a> {
    pub fn text(&self, t: &str) -> String {
        let mut s = subst_word(t, &self.rename);
        for n in (0..self.loops).rev() {
            if let Some((it, all)) = self.iter_aliases.get(&n) {
                s = s.replace(&format!("$it{n}"), it).replace(&format!("$all{n}"), all)
                    .replace(&format!("$k{n}"), &format!("({all}.len() - {it}@.len())"));
            }
        }
        s
    }
    fn mark(&mut self, t: &str) -> Stmt {
        let n = Literal::usize_unsuffixed(self.marks.len());
        let s = self.text(t);
        self.marks.push(s);
        parse_quote!(vx_mark!(#n);)
    }
    fn clause(&mut self, t: &str) -> Stmt {
        let n = Literal::usize_unsuffixed(self.marks.len());
        let s = self.text(t);
        self.marks.push(s);
        parse_quote!(vx_clause!(#n);)
    }
    fn at(&self, place: &str, n: usize) -> Option<String> {
        self.contract.and_then(|c| c.at.get(&(place.to_string(), n)).cloned())
    }
    fn push_at(&mut self, v: &mut Vec<Stmt>, place: &str, n: usize) {
        if let Some(t) = self.at(place, n) { let s = self.mark(&t); v.push(s); }
    }
    fn loop_text(&self, n: usize) -> Option<String> { self.contract.and_then(|c| c.loops.get(&n).cloned()) }

    fn for_loop(&mut self, pat: Pat, expr: Expr, body: Block, label: Option<Label>) -> Expr {
        let n = self.loops;
        self.loops += 1;
        let it = format_ident!("vx_it{}", n);
        let all = format_ident!("vx_all{}", n);
        self.iter_aliases.insert(n, (it.to_string(), all.to_string()));
        let mut expr = expr;
        self.visit_expr_mut(&mut expr);
        let mut body = body;
        let mut pre: Vec<Stmt> = vec![];
        let g = self.mark(&format!("let ghost {all} = {it}@;"));
        self.push_at(&mut pre, "loop_before", n);
        // clauses
        let extra = self.loop_text(n).unwrap_or_default();
        let extra = extra.trim_start().strip_prefix("invariant").map(String::from).unwrap_or(extra.clone());
        let auto = format!("    invariant {it}@.len() <= {all}.len(), {it}@ == {all}.skip({all}.len() - {it}@.len()),\n{}    decreases {it}@.len()\n", extra);
        let cl = self.clause(&auto);
        let mut start: Vec<Stmt> = vec![];
        let gh = self.mark(&format!("let ghost vx_k{n} = {all}.len() - {it}@.len();"));
        start.push(gh);
        let pop: Stmt = parse_quote!(let #pat = #it.vx_pop(););
        start.push(pop);
        let ass = self.mark(&format!("proof {{ assert({it}@ =~= {all}.skip(vx_k{n} + 1)); }}"));
        start.push(ass);
        if self.reveal {
            let mut lits = BTreeSet::new();
            str_lits(body.to_token_stream(), &mut lits);
            let t: String = lits.iter().filter(|s| s.len() > 2).map(|s| format!("reveal_strlit({s}); ")).collect();
            let r = self.mark(&format!("proof {{ reveal_strlit(\" \"); {t}}}"));
            start.push(r);
        }
        self.push_at(&mut start, "loop_start", n);
        self.visit_block_mut(&mut body);
        let mut stmts = start;
        stmts.extend(body.stmts);
        if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() { *semi = Some(Default::default()); }
        self.push_at(&mut stmts, "loop_end", n);
        let mut post: Vec<Stmt> = vec![];
        self.push_at(&mut post, "loop_after", n);
        let ts = quote!({
            let mut #it = vx_into_iter(#expr);
            #g
            #(#pre)*
            #label while #it.vx_has() { #cl #(#stmts)* }
            #(#post)*
        });
        parse2(ts).expect("for loop")
    }

    fn fmt_pieces(&mut self, lit: &LitStr, args: &[Expr]) -> Option<Vec<std::result::Result<String, Expr>>> {
        let s = lit.value();
        let mut pieces: Vec<std::result::Result<String, Expr>> = vec![];
        let mut cur = String::new();
        let mut chars = s.chars().peekable();
        let mut next = 0;
        while let Some(c) = chars.next() {
            match c {
                '{' => {
                    if chars.peek() == Some(&'{') { chars.next(); cur.push('{'); continue; }
                    let mut name = String::new();
                    for c in chars.by_ref() { if c == '}' { break; } name.push(c); }
                    if name.contains(':') { return None; }
                    if !cur.is_empty() { pieces.push(Ok(std::mem::take(&mut cur))); }
                    if name.is_empty() { pieces.push(Err(args.get(next)?.clone())); next += 1; }
                    else if let Ok(i) = name.parse::<usize>() { pieces.push(Err(args.get(i)?.clone())); }
                    else { let id = format_ident!("{}", name); pieces.push(Err(parse_quote!(#id))); }
                }
                '}' => { chars.next(); cur.push('}'); }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() { pieces.push(Ok(cur)); }
        Some(pieces)
    }

    fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        syn::parse::Parser::parse2(p, m.tokens.clone()).ok().map(|x| x.into_iter().collect())
    }

    fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "format" | "write" | "writeln" => {
                let mut args = Self::macro_args(m)?;
                let dest = if name == "format" { None } else { Some(args.remove(0)) };
                if args.is_empty() { return None; }
                let first = args.remove(0);
                let lit = if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = first { l } else { return None };
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                let n = self.tmp; self.tmp += 1;
                let sv = format_ident!("vx_s{}", n);
                match self.fmt_pieces(&lit, &args) {
                    // the arguments are still evaluated
                    None => Some(parse_quote!({ #( let _ = &(#args); )* vx_format_opaque() })),
                    Some(pieces) => {
                        let mut stmts: Vec<Stmt> = vec![];
                        for p in pieces {
                            match p {
                                Ok(t) => {
                                    stmts.push(parse_quote!(vx_push_lit(&mut #sv, #t);));
                                }
                                Err(e) => stmts.push(parse_quote!(vx_push_show(&mut #sv, &(#e));)),
                            }
                        }
                        match dest {
                            None => Some(parse_quote!({ let mut #sv = String::new(); #(#stmts)* #sv })),
                            Some(d) => Some(parse_quote!({ let mut #sv = String::new(); #(#stmts)* (#d).write_str(#sv.as_str()) })),
                        }
                    }
                }
            }
            "assert" => {
                let mut args = Self::macro_args(m)?;
                let mut c = args.remove(0);
                self.visit_expr_mut(&mut c);
                Some(parse_quote!(vx_assert(#c)))
            }
            "println" | "print" | "eprintln" | "eprint" => {
                let mut args = Self::macro_args(m)?;
                if args.is_empty() { args.push(parse_quote!("")); }
                if name.ends_with("ln") {
                    let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &args[0] else { return None };
                    let l = LitStr::new(&format!("{}\n", l.value()), l.span());
                    args[0] = parse_quote!(#l);
                }
                let to = if name.starts_with('e') { format_ident!("vx_eprint") } else { format_ident!("vx_print") };
                if self.world.map(|w| w.fns.contains("vx_eprint")).unwrap_or(false) {
                    let mut f: Expr = parse_quote!(format!(#(#args),*));
                    self.visit_expr_mut(&mut f);
                    return Some(parse_quote!(#to(#f, Tracked(&mut *vx_w))));
                }
                args.remove(0);
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                Some(parse_quote!({ #( let _ = &(#args); )* }))
            }
            "debug_assert" | "debug_assert_eq" => Some(parse_quote!(())),
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "matches" => {
                let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let pos = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = toks[..pos].iter().cloned().collect();
                let mut rest: Vec<TokenTree> = toks[pos + 1..].to_vec();
                if let Some(TokenTree::Punct(p)) = rest.last() { if p.as_char() == ',' { rest.pop(); } }
                let ps: TokenStream = rest.into_iter().collect();
                let mut ex: Expr = parse2(quote!(match #e { #ps => true, _ => false })).ok()?;
                self.visit_expr_mut(&mut ex);
                Some(ex)
            }
            "vec" => {
                let mut args = Self::macro_args(m)?;
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if args.is_empty() { return Some(parse_quote!(Vec::new())); }
                // the elements are arguments, so that the expected type of the elements reaches them
                if args.len() <= 6 { let f = format_ident!("vx_vec{}", args.len()); return Some(parse_quote!(#f(#(#args),*))); }
                let n = self.tmp; self.tmp += 1;
                let v = format_ident!("vx_v{}", n);
                Some(parse_quote!({ let mut #v = Vec::new(); #( #v.push(#args); )* #v }))
            }
            _ => None,
        }
    }

    fn closure_rewrite(&mut self, c: &mut ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        // patterns -> plain parameter + let
        let mut lets: Vec<Stmt> = vec![];
        let mut speclets = String::new();
        let mut k = 0usize;
        let multi = c.inputs.len() > 1;
        for p in c.inputs.iter_mut() {
            let (pat, ty) = match &*p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), q => (q.clone(), None) };
            let simple = matches!(&pat, Pat::Ident(i) if i.subpat.is_none());
            if !simple {
                let id = if multi { format_ident!("vx_c{}_{}", n, k) } else { format_ident!("vx_c{}", n) };
                if let Pat::Reference(r) = &pat {
                    let inner = &r.pat;
                    lets.push(parse_quote!(let #inner = *#id;));
                    speclets.push_str(&format!("let {} = *{id}; ", inner.to_token_stream()));
                } else if !matches!(pat, Pat::Wild(_)) {
                    lets.push(parse_quote!(let #pat = #id;));
                    speclets.push_str(&format!("let {} = {id}; ", pat.to_token_stream()));
                }
                *p = match ty { Some(t) => Pat::Type(parse_quote!(#id: #t)), None => parse_quote!(#id) };
            }
            k += 1;
        }
        let orig = (*c.body).clone();
        let text = match self.contract.and_then(|f| f.closures.get(&n).cloned()) { Some(t) => Some(t), None => self.auto_closure(c, &orig, &speclets) };
        let mut body = orig;
        self.visit_expr_mut(&mut body);
        let mut stmts: Vec<Stmt> = vec![];
        if let Some(t) = text {
            // first line may override parameters: "|x: T| -> (r: U) ensures .."
            let t = t.replace("$lets", &speclets);
            let t = t.trim().to_string();
            if let Some(rest) = t.strip_prefix('|') {
                let (ps, rest) = rest.split_once('|').expect("closure params");
                let parsed: ExprClosure = parse_str(&format!("|{ps}| ()")).expect("closure params");
                // keep names of the code, take the types
                for (have, want) in c.inputs.iter_mut().zip(parsed.inputs.iter()) {
                    if let (Pat::Ident(h), Pat::Type(w)) = (&*have, want) { let (h, ty) = (h.ident.clone(), &w.ty); *have = Pat::Type(parse_quote!(#h: #ty)); }
                }
                let names: Vec<(String, String)> = parsed.inputs.iter().zip(c.inputs.iter()).filter_map(|(w, h)| {
                    let f = |p: &Pat| match p { Pat::Type(t) => t.pat.to_token_stream().to_string(), q => q.to_token_stream().to_string() };
                    Some((f(w), f(h)))
                }).filter(|(a, b)| a != b).collect();
                let m: BTreeMap<String, String> = names.into_iter().collect();
                let cl = self.clause(&subst_word(rest, &m));
                stmts.push(cl);
            } else {
                let cl = self.clause(&t);
                stmts.push(cl);
            }
        }
        stmts.extend(lets);
        if stmts.is_empty() { *c.body = body; return; }
        *c.body = parse_quote!({ #(#stmts)* #body });
    }

    /// `|x| e` gets `ensures r == e` when `e` is built from constants, variables and fields only.
    fn auto_closure(&self, _c: &ExprClosure, _body: &Expr, _lets: &str) -> Option<String> { None }

    fn expr_stmts(b: Expr) -> Block { if let Expr::Block(b) = b { b.block } else { parse_quote!({ #b; }) } }
}

impl VisitMut for Rw<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let (pat, expr, body, label) = ((*f.pat).clone(), (*f.expr).clone(), f.body.clone(), f.label.clone());
                *e = self.for_loop(pat, expr, body, label);
                return;
            }
            Expr::While(w) => {
                if let Some((pat, x)) = next_loop(w) {
                    let (body, label) = (w.body.clone(), w.label.clone());
                    *e = self.for_loop(pat, x, body, label);
                    return;
                }
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex, body, label) = (l.pat.clone(), l.expr.clone(), w.body.clone(), w.label.clone());
                    let mut lp: Expr = parse_quote!(#label loop { match #ex { #pat => #body, _ => break, } });
                    self.visit_expr_mut(&mut lp);
                    *e = lp;
                    return;
                }
                let n = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                let mut stmts: Vec<Stmt> = vec![];
                if let Some(t) = self.loop_text(n) { let c = self.clause(&t); stmts.push(c); }
                self.push_at(&mut stmts, "loop_start", n);
                self.visit_block_mut(&mut w.body);
                stmts.extend(w.body.stmts.clone());
                self.push_at(&mut stmts, "loop_end", n);
                w.body.stmts = stmts;
                let mut pre: Vec<Stmt> = vec![];
                self.push_at(&mut pre, "loop_before", n);
                let mut post: Vec<Stmt> = vec![];
                self.push_at(&mut post, "loop_after", n);
                if !pre.is_empty() || !post.is_empty() { let w = w.clone(); *e = parse_quote!({ #(#pre)* #w #(#post)* }); }
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                let mut stmts: Vec<Stmt> = vec![];
                if let Some(t) = self.loop_text(n) { let c = self.clause(&t); stmts.push(c); }
                self.push_at(&mut stmts, "loop_start", n);
                self.visit_block_mut(&mut w.body);
                stmts.extend(w.body.stmts.clone());
                self.push_at(&mut stmts, "loop_end", n);
                w.body.stmts = stmts;
                return;
            }
            Expr::Macro(m) => {
                if let Some(n) = self.rewrite_macro(&m.mac) { *e = n; }
                return;
            }
            // match e { "a" | "b" => x, _ => y }  ->  if vx_str_eq(e, "a") || vx_str_eq(e, "b") { x } else { y }
            Expr::Match(m) if m.arms.iter().any(|a| str_pats(&a.pat).map(|v| !v.is_empty()).unwrap_or(false)) => {
                let mut scrut = (*m.expr).clone();
                self.visit_expr_mut(&mut scrut);
                let n = self.tmp; self.tmp += 1;
                let v = format_ident!("vx_m{}", n);
                let mut chain: Expr = parse_quote!(vx_panic());
                for a in m.arms.iter_mut().rev() {
                    let mut body = (*a.body).clone();
                    if let Some((_, g)) = &a.guard { let g = g.clone(); let c = chain.clone(); body = parse_quote!(if #g { #body } else { #c }); }
                    match str_pats(&a.pat) {
                        Some(ls) if !ls.is_empty() => { chain = parse_quote!(if #(vx_str_eq(#v, #ls))||* { #body } else { #chain }); }
                        _ => { let p = &a.pat; chain = if let Pat::Wild(_) = p { parse_quote!({ #body }) } else { parse_quote!({ let #p = #v; #body }) }; }
                    }
                }
                visit_mut::visit_expr_mut(self, &mut chain);
                *e = parse_quote!({ let #v = #scrut; #chain });
                return;
            }
            Expr::Closure(c) => {
                c.attrs.clear();
                let mut c2 = c.clone();
                self.closure_rewrite(&mut c2);
                *e = Expr::Closure(c2);
                return;
            }
            Expr::Cast(c) => {
                if let Type::Path(p) = &*c.ty {
                    let id = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if id == "f64" || id == "f32" {
                        let mut inner = (*c.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        let m = format_ident!("vx_as_{}", id);
                        *e = parse_quote!((#inner).#m());
                        return;
                    }
                    if p.path.segments.last().map(|s| s.ident == "Rc" || s.ident == "Arc").unwrap_or(false) {
                        // unsizing cast to a trait object: done by the type of a let
                        let mut inner = (*c.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        let ty = &c.ty;
                        *e = parse_quote!({ let vx_cast: #ty = #inner; vx_cast });
                        return;
                    }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) => {
                // -e -> (e).neg(): the verifier has no float negation operator
                let mut inner = (*u.expr).clone();
                self.visit_expr_mut(&mut inner);
                *e = match inner { Expr::Lit(ref l) if matches!(l.lit, Lit::Float(_)) => parse_quote!(vx_f64_id(#l).neg()), _ => parse_quote!((#inner).neg()) };
                return;
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(#l = #l #op (#r));
                    return;
                }
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                // (a, b) = e  ->  { let (x, y) = e; a = x; b = y; }
                let Expr::Tuple(t) = (*a.left).clone() else { return };
                let mut right = (*a.right).clone();
                self.visit_expr_mut(&mut right);
                let n = self.tmp; self.tmp += 1;
                let names: Vec<Ident> = (0..t.elems.len()).map(|i| format_ident!("vx_t{}_{}", n, i)).collect();
                let sets: Vec<Stmt> = t.elems.iter().zip(&names).filter(|(l, _)| !matches!(l, Expr::Infer(_))).map(|(l, n)| -> Stmt { let mut l = l.clone(); self.visit_expr_mut(&mut l); parse_quote!(#l = #n;) }).collect();
                *e = parse_quote!({ let (#(#names),*) = #right; #(#sets)* });
                return;
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(r) if r.start.is_some() || r.end.is_some()) => {
                // e[a..b] -> (*e.vx_slice(a..b))
                let (mut b, mut i) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut i);
                *e = parse_quote!((*#b.vx_slice(#i)));
                return;
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                    let (mut a, mut b) = ((**a).clone(), (**b).clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    *e = parse_quote!(vx_range_incl(#a, #b));
                    return;
                }
            }
            Expr::Try(t) => {
                // e.map_err(Into::into)?
                if let Expr::MethodCall(m) = &*t.expr {
                    if m.method == "map_err" && m.args.len() == 1 && m.args[0].to_token_stream().to_string().ends_with("into") {
                        let mut inner = (*m.receiver).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = parse_quote!((match #inner { Ok(vx_ok) => vx_ok, Err(vx_e) => return Err(vx_into_error(vx_e)) }));
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                // .map(T::clone)  ->  .cloned()
                if m.method == "map" && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        if p.path.segments.len() >= 2 && p.path.segments.last().unwrap().ident == "clone" { m.method = format_ident!("cloned"); m.args.clear(); }
                    }
                }
                // .map(T::try_into)  ->  .map(|vx_p| vx_p.try_into())
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        if p.path.segments.len() >= 2 {
                            let last = p.path.segments.last().unwrap().ident.clone();
                            if matches!(last.to_string().as_str(), "try_into" | "into" | "to_string" | "clone" | "as_str" | "trim" | "is_empty" | "is_ok" | "is_err" | "as_ref") { *a = parse_quote!(|vx_p| vx_p.#last()); }
                        }
                    }
                }
                // x.iter_mut().find(c)  ->  x.vx_find_mut(c)
                if m.method == "find" {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if r.method == "iter_mut" && r.args.is_empty() {
                            let recv = r.receiver.clone();
                            let args = m.args.clone();
                            let mut ne: Expr = parse_quote!(#recv.vx_find_mut(#args));
                            visit_mut::visit_expr_mut(self, &mut ne);
                            *e = ne;
                            return;
                        }
                    }
                }
                if m.method == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            let body = Self::expr_stmts((*c.body).clone());
                            let recv = (*m.receiver).clone();
                            *e = self.for_loop(pat, recv, body, None);
                            return;
                        }
                    }
                }
                let new = method_rename(&m.method.to_string());
                if let Some(n) = new { m.method = format_ident!("{}", n); }
            }
            Expr::Call(c) => {
                // the text of an error message is dropped: Error::xxx(.., format!(..)) -> Error::xxx(.., String::new())
                let fs = c.func.to_token_stream().to_string().replace(' ', "");
                if fs.rsplit("::").nth(1) == Some("Error") {
                    for a in c.args.iter_mut() {
                        if let Expr::Macro(m) = a { if m.mac.path.is_ident("format") { *a = parse_quote!(String::new()); } }
                        // "text" + x, String::from("text") + x
                        else if is_text_sum(a) { *a = parse_quote!(String::new()); }
                    }
                }
                if fs == "String::from" && c.args.len() == 1 { c.func = Box::new(parse_quote!(vx_string_from)); }
                // Box::new(e) -> e ; drop(e) is kept
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s == "Box::new" && c.args.len() == 1 {
                        let mut inner = c.args[0].clone();
                        self.visit_expr_mut(&mut inner);
                        *e = inner;
                        return;
                    }
                }
            }
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if let Some(o) = s.strip_prefix("Ordering::") {
                    if matches!(o, "SeqCst" | "Relaxed" | "AcqRel" | "Acquire" | "Release") { let id = format_ident!("{}", o); *e = parse_quote!(VxOrdering::#id); return; }
                }
                let n = match s.as_str() {
                    "f64::INFINITY" => Some("vx_f64_inf"),
                    "f64::NEG_INFINITY" => Some("vx_f64_neg_inf"),
                    "f32::EPSILON" => Some("vx_f32_epsilon"),
                    "f64::MAX" => Some("vx_f64_c_max_value"),
                    "f64::MIN" => Some("vx_f64_c_min_value"),
                    "f64::MIN_POSITIVE" => Some("vx_f64_c_min_positive"),
                    "f64::EPSILON" => Some("vx_f64_c_machine_epsilon"),
                    "f64::NAN" => Some("vx_f64_c_nan"),
                    _ => None,
                };
                if let Some(n) = n { let id = format_ident!("{}", n); *e = parse_quote!(#id()); return; }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(w) = self.world {
            match e {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if matches!(n.as_str(), "vx_write" | "vx_read" | "vx_try_write" | "vx_try_read" | "vx_borrow" | "vx_borrow_mut" | "fetch_add") || w.methods.contains(&n) { m.args.push(parse_quote!(Tracked(&mut *vx_w))); }
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let mut n = segs[segs.len().saturating_sub(2)..].join("::");
                        if let Some(r) = n.strip_prefix("Self::") { n = format!("{}::{r}", self.self_ty); }
                        if c.args.is_empty() && self.fn_params.contains(&n) { let f = format_ident!("{}", n); *e = parse_quote!(vx_call_once(#f, Tracked(&mut *vx_w))); return; }
                        if n == "drop" { c.func = Box::new(parse_quote!(vx_drop)); }
                        if n == "drop" || w.fns.contains(&n) { c.args.push(parse_quote!(Tracked(&mut *vx_w))); }
                    }
                }
                _ => {}
            }
        }
    }

    /// A guard bound in an inner block is released at the end of the block: vx_drop(guard).
    fn visit_block_mut(&mut self, b: &mut Block) {
        let depth = self.depth;
        self.depth += 1;
        let mut guards: Vec<Ident> = vec![];
        if self.world.is_some() && depth > 0 {
            for s in &b.stmts {
                if let Stmt::Local(l) = s {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) { if is_guard(&init.expr) { guards.push(p.ident.clone()); } }
                }
            }
            // moved out or dropped by hand
            guards.retain(|g| !b.stmts.iter().any(|s| { let t = s.to_token_stream().to_string(); t.contains(&format!("drop ({g})")) || t.ends_with(&format!("({g})")) }));
        }
        let anchored: Vec<Option<Ident>> = b.stmts.iter().map(|s| if let Stmt::Local(Local { pat, .. }) = s { match pat { Pat::Ident(p) => Some(p.ident.clone()), Pat::Type(t) => if let Pat::Ident(p) = &*t.pat { Some(p.ident.clone()) } else { None }, _ => None } } else { None }).collect();
        if self.contract.map(|c| c.at.keys().any(|k| k.0.starts_with("let:"))).unwrap_or(false) && anchored.iter().any(|a| a.is_some()) {
            // annotations after the binding of a name
            let old = std::mem::take(&mut b.stmts);
            for (mut s, a) in old.into_iter().zip(anchored) {
                self.visit_stmt_mut(&mut s);
                b.stmts.push(s);
                if let Some(a) = a {
                    let a = a.to_string();
                    let name = self.rename.iter().find(|(_, v)| **v == a).map(|(k, _)| k.clone()).unwrap_or(a);
                    let n = *self.lets.get(&name).unwrap_or(&0);
                    self.lets.insert(name.clone(), n + 1);
                    if let Some(t) = self.at(&format!("let:{name}"), n) { let m = self.mark(&t); b.stmts.push(m); }
                }
            }
        } else { visit_mut::visit_block_mut(self, b); }
        if !guards.is_empty() {
            let drops: Vec<Stmt> = guards.iter().rev().map(|g| -> Stmt { parse_quote!(vx_drop(#g, Tracked(&mut *vx_w));) }).collect();
            if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                b.stmts.push(parse_quote!(let vx_block = #e;));
                b.stmts.extend(drops);
                b.stmts.push(Stmt::Expr(parse_quote!(vx_block), None));
            } else { b.stmts.extend(drops); }
        }
        self.depth = depth;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            // the verifier crashes on a thread-local in a function; an unknown name keeps the failure to the function
            if m.mac.path.segments.last().map(|s| s.ident == "thread_local").unwrap_or(false) {
                *s = parse_quote!(vx_thread_locals_are_out_of_reach(););
                return;
            }
            if let Some(n) = self.rewrite_macro(&m.mac) {
                *s = Stmt::Expr(n, m.semi_token);
                return;
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
}

/// A guard given up after the last event of a function is given up where the function would do it anyway:
/// that is no event of its own. Answers whether nothing in the block is an event.
pub fn trailing_drops(b: &mut Block) -> bool {
    for s in b.stmts.iter_mut().rev() {
        let quiet = match s {
            Stmt::Expr(e, _) => trailing_expr(e),
            Stmt::Local(l) if l.init.as_ref().map(|i| i.diverge.is_none()).unwrap_or(false) => trailing_expr(&mut l.init.as_mut().unwrap().expr),
            s => !s.to_token_stream().to_string().contains("vx_w"),
        };
        if !quiet { return false; }
    }
    true
}

fn trailing_expr(e: &mut Expr) -> bool {
    match e {
        Expr::Call(c) if c.func.to_token_stream().to_string() == "vx_drop" && c.args.len() == 2 && matches!(c.args[0], Expr::Path(_)) => {
            let g = &c.args[0];
            *e = parse_quote!(vx_drop_last(#g));
            true
        }
        Expr::Block(b) if b.label.is_none() => trailing_drops(&mut b.block),
        Expr::If(i) => {
            let mut quiet = trailing_drops(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch { quiet &= trailing_expr(x); }
            quiet && !i.cond.to_token_stream().to_string().contains("vx_w")
        }
        Expr::Match(m) => {
            let mut quiet = !m.expr.to_token_stream().to_string().contains("vx_w");
            for a in m.arms.iter_mut() { quiet &= trailing_expr(&mut a.body) && a.guard.as_ref().map(|g| !g.1.to_token_stream().to_string().contains("vx_w")).unwrap_or(true); }
            quiet
        }
        e => !e.to_token_stream().to_string().contains("vx_w"),
    }
}

/// A sum of strings that starts with a literal or String::from(literal), of variables and fields only: it has no effect but its value.
fn is_text_sum(e: &Expr) -> bool {
    fn leaf(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => leaf(&f.base),
            Expr::Reference(r) => leaf(&r.expr),
            Expr::Paren(p) => leaf(&p.expr),
            Expr::MethodCall(m) => m.args.is_empty() && matches!(m.method.to_string().as_str(), "to_string" | "as_str" | "clone" | "to_owned") && leaf(&m.receiver),
            _ => false,
        }
    }
    fn start(e: &Expr) -> bool {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
            Expr::MethodCall(m) => m.args.is_empty() && start(&m.receiver),
            Expr::Call(c) => { let f = c.func.to_token_stream().to_string().replace(' ', ""); f == "String::from" && c.args.len() == 1 && matches!(&c.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) }
            _ => false,
        }
    }
    if let Expr::Binary(b) = e { if let BinOp::Add(_) = b.op { return (start(&b.left) || is_text_sum(&b.left)) && leaf(&b.right); } }
    false
}

/// `while let Some(p) = x.next() { .. }` is `for p in x { .. }`, if the body does not mention x (a later use of x fails: it was moved).
pub fn next_loop(w: &ExprWhile) -> Option<(Pat, Expr)> {
    let Expr::Let(l) = &*w.cond else { return None };
    let Pat::TupleStruct(t) = &*l.pat else { return None };
    if !t.path.is_ident("Some") || t.elems.len() != 1 { return None; }
    fn plain(p: &Pat) -> bool { match p { Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(), Pat::Wild(_) => true, Pat::Tuple(t) => t.elems.iter().all(plain), Pat::Reference(r) => plain(&r.pat), _ => false } }
    if !plain(&t.elems[0]) { return None; }
    let Expr::MethodCall(m) = &*l.expr else { return None };
    if m.method != "next" || !m.args.is_empty() { return None; }
    let Expr::Path(x) = &*m.receiver else { return None };
    let x = x.path.get_ident()?.clone();
    if x == "self" { return None; }
    struct V(Ident, bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_ident(&mut self, i: &'ast Ident) { if *i == self.0 { self.1 = true; } }
        fn visit_macro(&mut self, m: &'ast Macro) { if m.tokens.to_string().contains(&self.0.to_string()) { self.1 = true; } }
    }
    let mut v = V(x.clone(), false);
    syn::visit::Visit::visit_block(&mut v, &w.body);
    if v.1 { return None; }
    Some((t.elems[0].clone(), parse_quote!(#x)))
}

fn str_pats(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(vec![s.clone()]) } else { None },
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(str_pats(c)?); } Some(v) }
        Pat::Paren(p) => str_pats(&p.pat),
        _ => None,
    }
}

/// `x.write()?`, `x.read().unwrap()`, `x.borrow_mut()` ...
fn is_guard(e: &Expr) -> bool {
    match e {
        Expr::Try(t) => is_guard(&t.expr),
        Expr::Paren(p) => is_guard(&p.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "unwrap" | "expect" | "map_err" | "ok" | "unwrap_or_else" => is_guard(&m.receiver),
            "write" | "read" | "try_write" | "try_read" | "borrow_mut" | "borrow" | "lock" => m.args.is_empty(),
            _ => false,
        },
        _ => false,
    }
}

pub fn method_rename(n: &str) -> Option<&'static str> {
    match n {
                    "iter" => Some("vx_iter"),
                    "into_iter" => Some("vx_into_iter"),
                    "trim" => Some("vx_trim"),
                    "lines" => Some("vx_lines"),
                    "split_ascii_whitespace" => Some("vx_split_ascii_whitespace"),
                    "splitn" => Some("vx_splitn"),
                    "split" => Some("vx_split"),
        "deref" => Some("vx_deref"),
                    "parse" => Some("vx_parse"),
                    "find" => Some("vx_find"),
                    "contains" => Some("vx_contains"),
                    "starts_with" => Some("vx_starts_with"),
                    "ends_with" => Some("vx_ends_with"),
                    "extend" => Some("vx_extend"),
                    "to_string" => Some("vx_to_string"),
                    "to_vec" => Some("vx_to_vec"),
                    "values" => Some("vx_values"),
                    "write" => Some("vx_write"),
                    "read" => Some("vx_read"),
                    "try_write" => Some("vx_try_write"),
                    "try_read" => Some("vx_try_read"),
                    "borrow_mut" => Some("vx_borrow_mut"),
                    "borrow" => Some("vx_borrow"),
                    "take_while" => Some("vx_take_while"),
                    "join" => Some("vx_join"),
                    "hash" => Some("vx_hash"),
                    "len" => Some("vx_len"),
                    "is_empty" => Some("vx_is_empty"),
                    "is_whitespace" => Some("vx_is_whitespace"),
                    "char_indices" => Some("vx_char_indices"),
                    "chars" => Some("vx_chars"),
                    "strip_prefix" => Some("vx_strip_prefix"),
                    "strip_suffix" => Some("vx_strip_suffix"),
                    "trim_start" => Some("vx_trim_start"),
                    "trim_end" => Some("vx_trim_end"),
                    "is_char_boundary" => Some("vx_is_char_boundary"),
                    "split_once" => Some("vx_split_once"),
                    "len_utf8" => Some("vx_len_utf8"),
                    "as_ref" => Some("vx_as_ref"),
                    "as_deref" => Some("vx_as_deref"),
                    "as_bytes" => Some("vx_as_bytes"),
                    "unwrap_or_default" => Some("vx_unwrap_or_default"),
                    "try_into" => Some("vx_try_into"),
                    _ => None,
                    }
}

/// Names bound by `let`, `for`, `match` and parameters, in order of appearance.
pub fn bound_names(sig: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && s != "self" { self.0.push(s); }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_signature(&mut v, sig);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Loop kinds and closures of a body, in order: what the numbered annotations of a contract are attached to.
pub fn shape(b: &Block) -> String {
    struct V(Vec<&'static str>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_for_loop(&mut self, p: &'ast ExprForLoop) { self.0.push("for"); syn::visit::visit_expr_for_loop(self, p); }
        fn visit_expr_while(&mut self, p: &'ast ExprWhile) { self.0.push(if next_loop(p).is_some() { "for" } else if matches!(&*p.cond, Expr::Let(_)) { "while-let" } else { "while" }); syn::visit::visit_expr_while(self, p); }
        fn visit_expr_loop(&mut self, p: &'ast ExprLoop) { self.0.push("loop"); syn::visit::visit_expr_loop(self, p); }
        fn visit_expr_closure(&mut self, p: &'ast ExprClosure) { self.0.push("closure"); syn::visit::visit_expr_closure(self, p); }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            for a in &m.args { if let Expr::Path(p) = a { if p.path.segments.len() >= 2 && p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_lowercase() && !(m.method == "map" && p.path.segments.last().unwrap().ident == "clone") { self.0.push("closure"); } } }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.join(" ")
}
