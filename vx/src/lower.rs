use std::collections::{BTreeSet, HashMap, HashSet};
use quote::{ToTokens, format_ident};
use serde_json::{json, Value as J};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::index::*;

type R<T> = std::result::Result<T, String>;

fn js<'a>(v: &'a J, k: &str) -> Option<&'a str> { v.get(k).and_then(|x| x.as_str()) }

fn jset(v: &J, k: &str) -> HashSet<String> {
    v.get(k).and_then(|x| x.as_array())
        .map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect())
        .unwrap_or_default()
}

fn jmap(v: &J, k: &str) -> HashMap<String, String> {
    v.get(k).and_then(|x| x.as_object())
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect())
        .unwrap_or_default()
}

fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

// ---------------------------------------------------------------- paths/types

struct Paths<'a> {
    ix: &'a Ix,
    alias: HashMap<String, Vec<String>>,
    type_map: Vec<(String, String)>,
    path_map: HashMap<String, String>,
    subst: HashMap<String, String>,
    consts: HashSet<String>,
    keep_self: bool,
    self_name: String,
    err: Option<String>,
}

fn is_upper(s: &str) -> bool { s.trim_start_matches('_').chars().next().map_or(false, |c| c.is_uppercase()) }

impl<'a> Paths<'a> {
    fn fix_path(&mut self, p: &mut Path) {
        // resolve a leading alias
        if p.leading_colon.is_none() && !p.segments.is_empty() {
            let first = p.segments[0].ident.to_string();
            if let Some(full) = self.alias.get(&first).cloned() {
                if full.last().map(String::as_str) != Some(first.as_str()) || full.len() > 1 {
                    let mut segs: Vec<PathSegment> = vec![];
                    for s in &full {
                        if s == "crate" || s == "self" || s == "super" { continue; }
                        segs.push(PathSegment::from(format_ident!("{}", s)));
                    }
                    if let Some(l) = segs.last_mut() { l.arguments = p.segments[0].arguments.clone(); }
                    let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                    segs.extend(rest);
                    p.segments = segs.into_iter().collect();
                }
            }
        }
        p.leading_colon = None;
        // strip module prefixes: keep from the last-but-one segment if it is a
        // type-like name, otherwise only the last segment.
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let n = segs.len();
        let start = if n >= 2 && is_upper(&segs[n - 2].ident.to_string()) { n - 2 }
            else if n >= 2 && matches!(segs[n - 2].ident.to_string().as_str(), "u8"|"u16"|"u32"|"u64"|"u128"|"usize"|"i8"|"i16"|"i32"|"i64"|"i128"|"isize"|"f32"|"f64"|"char"|"str") { n - 2 }
            else if n >= 1 { n - 1 } else { 0 };
        p.segments = segs[start..].iter().cloned().collect();
        let joined = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(to) = self.path_map.get(&joined) {
            match parse_str::<Path>(to) {
                Ok(mut np) => {
                    if let (Some(l), Some(ol)) = (np.segments.last_mut(), p.segments.last()) {
                        if l.arguments.is_empty() { l.arguments = ol.arguments.clone(); }
                    }
                    *p = np;
                }
                Err(e) => self.err = Some(format!("bad path_map target {}: {}", to, e)),
            }
        }
        if let Some(f) = p.segments.first_mut() {
            if f.arguments.is_empty() {
                if let Some(to) = self.subst.get(&f.ident.to_string()) {
                    if let Ok(np) = parse_str::<Path>(to) {
                        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                        let mut segs: Vec<PathSegment> = np.segments.iter().cloned().collect();
                        segs.extend(rest);
                        p.segments = segs.into_iter().collect();
                    }
                }
            }
        }
    }
}

impl<'a> Paths<'a> {
    fn const_of(&self, p: &Path) -> Option<Expr> {
        let mut name = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(r) = name.strip_prefix("Self::") { name = format!("{}::{}", self.self_name, r); }
        if self.consts.contains(&name) { return None; }
        self.ix.consts.get(&name).map(|(_, c, _)| c.clone())
    }
}

impl<'a> VisitMut for Paths<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        // strip first (without mapping nested ones yet)
        let mut stripped = t.clone();
        struct Strip;
        impl VisitMut for Strip {
            fn visit_path_mut(&mut self, p: &mut Path) {
                visit_mut::visit_path_mut(self, p);
                let n = p.segments.len();
                if n >= 2 {
                    let a = p.segments[n - 2].ident.to_string();
                    let keep = if is_upper(&a) { 2 } else { 1 };
                    p.segments = p.segments.iter().skip(n - keep).cloned().collect();
                }
                p.leading_colon = None;
            }
            fn visit_lifetime_mut(&mut self, _: &mut Lifetime) {}
        }
        Strip.visit_type_mut(&mut stripped);
        let s = norm(&stripped);
        for (from, to) in &self.type_map {
            if *from == s {
                match parse_str::<Type>(to) {
                    Ok(nt) => { *t = nt; }
                    Err(e) => self.err = Some(format!("bad type_map target {}: {}", to, e)),
                }
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(pi) = p {
            let n = pi.ident.to_string();
            if is_upper(&n) && pi.subpat.is_none() && pi.by_ref.is_none() {
                if self.alias.contains_key(&n) {
                    let mut path: Path = pi.ident.clone().into();
                    self.fix_path(&mut path);
                    *p = Pat::Path(ExprPath { attrs: vec![], qself: None, path });
                    return;
                }
            }
        }
        // a literal constant in a pattern is that literal
        if let Pat::Path(pp) = p {
            if let Some(Expr::Lit(l)) = self.const_of(&pp.path).as_ref().map(|c| strip_group(c)) {
                *p = Pat::Lit(l.clone());
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        // `<T as Trait>::item`: the prefix in the brackets is what the path kept of the trait
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position = p.path.segments.len().saturating_sub(1); } }
    }

    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        visit_mut::visit_type_path_mut(self, p);
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position = p.path.segments.len().saturating_sub(1); } }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = array_element(e) { *e = x; return; }
        // inline unknown module-level constants
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let mut name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(r) = name.strip_prefix("Self::") { name = format!("{}::{}", self.self_name, r); }
                if !self.consts.contains(&name) {
                    if let Some((_, c, ty)) = self.ix.consts.get(&name) {
                        let mut c = c.clone();
                        self.visit_expr_mut(&mut c);
                        let t = norm(ty);
                        *e = if matches!(t.as_str(), "u8"|"u16"|"u32"|"u64"|"u128"|"usize"|"i8"|"i16"|"i32"|"i64"|"i128"|"isize") {
                            parse_quote!({ let __c: #ty = #c; __c })
                        } else { parse_quote!((#c)) };
                    }
                }
            }
        }
    }

    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, e);
    }
}

/// an element of an array literal, `(&["a", "b"])[1]`
fn array_element(e: &Expr) -> Option<Expr> {
    if let Expr::Index(i) = e {
        let mut b = strip_group(&i.expr);
        if let Expr::Reference(r) = b { b = strip_group(&r.expr); }
        if let (Expr::Array(a), Expr::Lit(ExprLit { lit: Lit::Int(n), .. })) = (b, strip_group(&i.index)) {
            return a.elems.iter().nth(n.base10_parse::<usize>().ok()?).cloned();
        }
    }
    None
}

/// `x == "text"` becomes a call (the verifier has no specification of str's PartialEq impls)
struct StrEq;
impl VisitMut for StrEq {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let is_text = |e: &Expr| matches!(strip_group(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
        if let Expr::Binary(b) = e {
            let (x, l) = if is_text(&b.right) { (&b.left, &b.right) } else if is_text(&b.left) { (&b.right, &b.left) } else { return };
            *e = match b.op { BinOp::Eq(_) => parse_quote!(v_eq_text(&(#x), #l)), BinOp::Ne(_) => parse_quote!(!v_eq_text(&(#x), #l)), _ => return };
        }
    }
}

/// `text[a..b]` becomes a call (slicing by byte positions, which must be character boundaries)
struct StrSlice;
impl StrSlice {
    fn slice(e: &Expr) -> Option<Expr> {
        if let Expr::Index(i) = strip_group(e) {
            if let Expr::Range(r) = strip_group(&i.index) {
                if !matches!(r.limits, RangeLimits::HalfOpen(_)) { return None; }
                let s = &i.expr;
                return Some(match (&r.start, &r.end) {
                    (None, Some(b)) => parse_quote!((#s).v_slice_to(#b)),
                    (Some(a), None) => parse_quote!((#s).v_slice_from(#a)),
                    (Some(a), Some(b)) => parse_quote!((#s).v_slice(#a, #b)),
                    (None, None) => parse_quote!((#s).v_slice_from(0)),
                });
            }
        }
        None
    }
}
impl VisitMut for StrSlice {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Reference(r) = e { if let Expr::MethodCall(c) = strip_group(&r.expr) { if c.method.to_string().starts_with("v_slice") { *e = (*r.expr).clone(); return; } } }
        if let Some(x) = Self::slice(e) { *e = x; }
    }
}

// ---------------------------------------------------------------- helpers

/// `return X` becomes `{ let __r = X; __vret!(); return __r }` (a place for a proof hint)
struct RetHooks;
/// `let &x = e` becomes `let x = *(e)`; a closure parameter `&x` becomes a named parameter and such a `let`
struct Deref;
impl VisitMut for Deref {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let mut pre: Vec<Stmt> = vec![];
        for (k, p) in c.inputs.iter_mut().enumerate() {
            let id = format_ident!("__p{}", k);
            let inner = match p { Pat::Type(t) => &mut *t.pat, x => x };
            if let Pat::Reference(r) = inner { if r.mutability.is_none() {
                let x = (*r.pat).clone();
                pre.push(parse_quote!(let #x = *#id;));
                *inner = parse_quote!(#id);
            } }
        }
        if !pre.is_empty() {
            let b = &c.body;
            // a closure's marker stays first
            let nb: Expr = match &**b {
                Expr::Block(bl) => { let (h, t) = bl.block.stmts.split_at(bl.block.stmts.iter().take_while(|s| norm(*s).starts_with("__vclosure!")).count()); parse_quote!({ #(#h)* #(#pre)* #(#t)* }) }
                e => parse_quote!({ #(#pre)* #e }),
            };
            *c.body = nb;
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (pat, ty) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
        if let Pat::Reference(r) = &pat { if r.mutability.is_none() && matches!(&*r.pat, Pat::Ident(_)) {
            let x = &r.pat;
            match ty { Some(Type::Reference(t)) => { let t = &t.elem; l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new((**x).clone()), colon_token: Default::default(), ty: t.clone() }); }
                Some(_) => return,
                None => { l.pat = (**x).clone(); } }
            if let Some(i) = l.init.as_mut() { let e = &i.expr; let n: Expr = parse_quote!(*(#e)); *i.expr = n; }
        } }
    }
}
impl VisitMut for RetHooks {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e { if let Some(x) = &r.expr { *e = parse_quote!({ let __r = #x; __vret!(); return __r; }); } }
    }
}

struct HasTry(bool);
impl<'a> Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_try(e: &impl ToTokensVisit) -> bool { let mut h = HasTry(false); e.go(&mut h); h.0 }
trait ToTokensVisit { fn go(&self, v: &mut HasTry); }
impl ToTokensVisit for Expr { fn go(&self, v: &mut HasTry) { v.visit_expr(self) } }
impl ToTokensVisit for Block { fn go(&self, v: &mut HasTry) { v.visit_block(self) } }
impl ToTokensVisit for Stmt { fn go(&self, v: &mut HasTry) { v.visit_stmt(self) } }

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return_b(b: &Block) -> bool { let mut h = HasReturn(false); h.visit_block(b); h.0 }

struct HasJump(bool);
impl<'a> Visit<'a> for HasJump {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// `(|p| b)(a)` becomes `{ let p = a; b }`
struct BetaCall;
impl VisitMut for BetaCall {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = match strip_group(&c.func) { Expr::Paren(p) => (*p.expr).clone(), x => x.clone() };
            if let Some((ps, b)) = closure_of(&f) {
                if ps.len() == c.args.len() && !has_try(&b) && !(ps.len() > 1) {
                    let st: Vec<Stmt> = ps.iter().zip(&c.args).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                    *e = parse_quote!({ #(#st)* #b });
                }
            }
        }
    }
}

struct CountIdent { name: String, n: usize }
impl<'a> Visit<'a> for CountIdent {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.name) { self.n += 1; }
    }
}

struct SubstIdent { name: String, with: Expr }
impl VisitMut for SubstIdent {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) { *e = self.with.clone(); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn strip_group(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_group(&p.expr),
        Expr::Group(p) => strip_group(&p.expr),
        e => e,
    }
}

fn block_of(e: &Expr) -> Block {
    match strip_group(e) {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}

fn closure_of(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match strip_group(e) {
        Expr::Closure(c) => {
            let body = if has_return(&c.body) { deret(&c.body)? } else { (*c.body).clone() };
            Some((c.inputs.iter().map(|p| match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            }).collect(), body))
        }
        _ => None,
    }
}

fn has_return(e: &Expr) -> bool { let mut h = HasReturn(false); h.visit_expr(e); h.0 }

/// `A | B if g => e` as two arms
struct SplitOr;
impl VisitMut for SplitOr {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let mut arms = vec![];
        for a in m.arms.drain(..) {
            match (&a.pat, &a.guard) {
                (Pat::Or(o), Some(_)) => for p in &o.cases { let mut b = a.clone(); b.pat = p.clone(); if b.comma.is_none() { b.comma = Some(Default::default()); } arms.push(b); },
                _ => arms.push(a),
            }
        }
        m.arms = arms;
    }
}

/// a body with `return`s in tail positions as an expression without them
fn deret(e: &Expr) -> Option<Expr> {
    match strip_group(e) {
        Expr::Return(r) => { let x = r.expr.as_deref()?; if has_return(x) { None } else { Some(x.clone()) } }
        e if !has_return(e) => Some(e.clone()),
        Expr::Block(b) if b.label.is_none() => { let b = deret_stmts(&b.block.stmts)?; Some(parse_quote!(#b)) }
        Expr::If(i) => {
            if has_return(&i.cond) { return None; }
            let (c, t) = (&i.cond, deret_stmts(&i.then_branch.stmts)?);
            let el = deret(&i.else_branch.as_ref()?.1)?;
            let el = block_of(&el);
            Some(parse_quote!(if #c #t else #el))
        }
        Expr::Match(m) => {
            if has_return(&m.expr) { return None; }
            let mut m = m.clone();
            for a in m.arms.iter_mut() { let b = deret(&a.body)?; *a.body = b; }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}
fn deret_stmts(st: &[Stmt]) -> Option<Block> {
    for (k, s) in st.iter().enumerate() {
        let mut h = HasReturn(false);
        h.visit_stmt(s);
        if !h.0 { continue; }
        let pre = &st[..k];
        let rest = &st[k + 1..];
        let x = match s { Stmt::Expr(x, _) => strip_group(x), _ => return None };
        if rest.is_empty() || matches!(x, Expr::Return(_)) { let t = deret(x)?; return Some(parse_quote!({ #(#pre)* #t })); }
        // an early return: `if C { ...; return X; } REST`
        if let Expr::If(i) = x {
            if i.else_branch.is_some() || has_return(&i.cond) { return None; }
            if !matches!(i.then_branch.stmts.last()?, Stmt::Expr(y, _) if matches!(strip_group(y), Expr::Return(_))) { return None; }
            let (c, t, r) = (&i.cond, deret_stmts(&i.then_branch.stmts)?, deret_stmts(rest)?);
            return Some(parse_quote!({ #(#pre)* if #c #t else #r }));
        }
        return None;
    }
    Some(parse_quote!({ #(#st)* }))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Opt, Res, Iter, Bool, Unk }

struct Lower<'a> {
    f: &'a J,
    kinds: HashMap<String, String>,
    opt_methods: HashSet<String>,
    res_methods: HashSet<String>,
    iter_methods: HashSet<String>,
    iter_vars: HashSet<String>,
    collect: Vec<String>,
    ncollect: usize,
    nloop: usize,
    ntmp: usize,
    nclosure: usize,
    notes: Vec<String>,
    keep_combinators: bool,
    keep_maps: HashSet<String>,
    fields: HashMap<String, String>,
}

impl<'a> Lower<'a> {
    fn tmp(&mut self, p: &str) -> Ident {
        let i = format_ident!("__{}{}", p, self.ntmp);
        self.ntmp += 1;
        i
    }

    fn kind(&self, e: &Expr) -> Kind {
        let e = strip_group(e);
        let k = norm(e);
        if let Some(k) = self.kinds.get(&k) {
            return match k.as_str() { "opt" => Kind::Opt, "res" => Kind::Res, "iter" => Kind::Iter, "bool" => Kind::Bool, _ => Kind::Unk };
        }
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(k) = self.kinds.get(&format!(".{}", n)) {
                    return match k.as_str() { "opt" => Kind::Opt, "res" => Kind::Res, "iter" => Kind::Iter, "bool" => Kind::Bool, _ => Kind::Unk };
                }
                match n.as_str() {
                    // `and_then` is of the kind of its closure's result
                    "and_then" => match self.kind(&m.receiver) {
                        Kind::Unk => closure_of(&m.args[0]).map_or(Kind::Unk, |(_, b)| self.kind(&b)),
                        k => k,
                    },
                    "map" | "filter" | "clone" | "as_ref" | "as_mut" | "cloned" | "copied" | "or_else" | "by_ref" | "flatten" => self.kind(&m.receiver),
                    "map_err" | "ok_or" | "ok_or_else" => Kind::Res,
                    "then" | "ok" | "err" => Kind::Opt,
                    "take" if m.args.len() == 1 => Kind::Iter,
                    "enumerate" | "zip" | "rev" | "filter_map" | "flat_map" | "take_while" | "skip_while" | "peekable" | "skip" => Kind::Iter,
                    n if self.iter_methods.contains(n) => Kind::Iter,
                    n if self.opt_methods.contains(n) => Kind::Opt,
                    n if self.res_methods.contains(n) => Kind::Res,
                    _ => Kind::Unk,
                }
            }
            Expr::Call(c) => {
                let n = norm(&c.func);
                match n.as_str() {
                    "Some" => Kind::Opt,
                    "Ok" | "Err" => Kind::Res,
                    _ => {
                        let last = n.split("::<").next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
                        if self.res_methods.contains(&last) { Kind::Res }
                        else if self.opt_methods.contains(&last) { Kind::Opt }
                        else if last == "repeat" || self.iter_methods.contains(&last) { Kind::Iter }
                        else { Kind::Unk }
                    }
                }
            }
            Expr::Range(_) => Kind::Iter,
            Expr::Path(p) => if p.path.get_ident().map_or(false, |i| self.iter_vars.contains(&i.to_string())) { Kind::Iter }
                else if p.path.is_ident("None") { Kind::Opt } else { Kind::Unk },
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind(&a.body);
                    if k != Kind::Unk { return k; }
                }
                Kind::Unk
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last() { self.kind(e) } else { Kind::Unk }
            }
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() { self.kind(e) } else { Kind::Unk }
            }
            Expr::Field(fx) => match &fx.member {
                Member::Named(i) => match self.fields.get(&i.to_string()).map(|s| s.as_str()) { Some("opt") => Kind::Opt, Some("res") => Kind::Res, _ => Kind::Unk },
                _ => Kind::Unk,
            },
            Expr::Try(_) => Kind::Unk,
            _ => Kind::Unk,
        }
    }

    fn loop_marker(&mut self) -> Stmt {
        let k = proc_macro2::Literal::usize_unsuffixed(self.nloop);
        self.nloop += 1;
        parse_quote!(__vloop!(#k);)
    }

    fn end_marker(&mut self, m: &Stmt) -> Stmt {
        let s = m.to_token_stream().to_string().replace("__vloop", "__vloopend");
        parse_str(&s).unwrap()
    }
    fn after_marker(&mut self, m: &Stmt) -> Stmt {
        let s = m.to_token_stream().to_string().replace("__vloop", "__vloopafter");
        parse_str(&s).unwrap()
    }
    fn before_marker(&mut self, m: &Stmt) -> Stmt {
        let s = m.to_token_stream().to_string().replace("__vloop", "__vloopbefore");
        parse_str(&s).unwrap()
    }
    fn body_marker(&mut self, m: &Stmt) -> Stmt {
        let s = m.to_token_stream().to_string().replace("__vloop", "__vloopbody");
        parse_str(&s).unwrap()
    }

    /// `?` -> early `None`/`Err` for the body of a closure (continuation style).
    fn try_cps(&mut self, b: &Block, kind: Kind) -> R<Expr> {
        if !has_try(b) {
            return Ok(parse_quote!(#b));
        }
        if has_return_b(b) { return Err("closure with return and ?".into()); }
        self.cps_stmts(&b.stmts, kind)
    }

    fn cps_stmts(&mut self, stmts: &[Stmt], kind: Kind) -> R<Expr> {
        if stmts.is_empty() { return Err("cps: empty tail".into()); }
        let (first, rest) = (&stmts[0], &stmts[1..]);
        if !has_try(first) {
            if rest.is_empty() {
                return match first {
                    Stmt::Expr(e, None) => Ok(e.clone()),
                    _ => Err("cps: statement tail".into()),
                };
            }
            let r = self.cps_stmts(rest, kind)?;
            return Ok(parse_quote!({ #first #r }));
        }
        let mut hoisted: Vec<(Ident, Expr)> = vec![];
        let inner: Expr = match first {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("cps: let without init")?;
                if init.diverge.is_some() { return Err("cps: let else".into()); }
                let e = self.hoist(&init.expr, &mut hoisted, kind)?;
                let pat = &l.pat;
                let r = self.cps_stmts(rest, kind)?;
                parse_quote!({ let #pat = #e; #r })
            }
            Stmt::Expr(e, None) if rest.is_empty() && matches!(strip_group(e), Expr::Match(_) | Expr::If(_) | Expr::Block(_)) => self.cps_tail(e, kind, &mut hoisted)?,
            Stmt::Expr(e, semi) => {
                let e2 = self.hoist(e, &mut hoisted, kind)?;
                if rest.is_empty() && semi.is_none() { e2 }
                else if rest.is_empty() { return Err("cps: stmt tail".into()) }
                else { let r = self.cps_stmts(rest, kind)?; parse_quote!({ #e2; #r }) }
            }
            _ => return Err("cps: unsupported statement".into()),
        };
        let mut out = inner;
        for (id, e) in hoisted.into_iter().rev() {
            out = match kind {
                Kind::Res => parse_quote!(match #e { Ok(#id) => #out, Err(__e) => Err(__e) }),
                _ => parse_quote!(match #e { Some(#id) => #out, None => None }),
            };
        }
        Ok(out)
    }

    /// an expression of the closure's own type, with `?` in its branches
    fn cps_tail(&mut self, e: &Expr, kind: Kind, out: &mut Vec<(Ident, Expr)>) -> R<Expr> {
        if !has_try(e) { return Ok(e.clone()); }
        Ok(match strip_group(e) {
            Expr::Block(b) if b.label.is_none() => self.cps_stmts(&b.block.stmts, kind)?,
            Expr::Match(m) => {
                let mut m = m.clone();
                *m.expr = self.hoist(&m.expr, out, kind)?;
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |g| has_try(&*g.1)) { return Err("cps: `?` in a guard".into()); }
                    let b = block_of(&a.body);
                    *a.body = self.cps_stmts(&b.stmts, kind)?;
                }
                Expr::Match(m)
            }
            Expr::If(i) => {
                let c = match &*i.cond { Expr::Let(l) => { let (p, x) = (&l.pat, self.hoist(&l.expr, out, kind)?); parse_quote!(let #p = #x) } c if !matches!(c, Expr::Binary(_)) || !has_try(c) => self.hoist(c, out, kind)?, _ => return Err("cps: `?` in a condition".into()) };
                let t = self.cps_stmts(&i.then_branch.stmts, kind)?;
                let el = &i.else_branch.as_ref().ok_or("cps: if without else")?.1;
                let el = self.cps_stmts(&block_of(el).stmts, kind)?;
                let (t, el) = (block_of(&t), block_of(&el));
                parse_quote!(if #c #t else #el)
            }
            _ => return Err("cps: tail".into()),
        })
    }
    /// the branches' values in `Some` or `Ok`
    fn cps_wrap(e: &Expr, kind: Kind) -> R<Expr> {
        let some = |x: &Expr| -> Expr { if kind == Kind::Res { parse_quote!(Ok(#x)) } else { parse_quote!(Some(#x)) } };
        fn blk(b: &Block, kind: Kind) -> R<Block> {
            let mut b = b.clone();
            match b.stmts.pop() {
                Some(Stmt::Expr(x, None)) => { let x = Lower::cps_wrap(&x, kind)?; b.stmts.push(Stmt::Expr(x, None)); }
                o => { b.stmts.extend(o); let u: Expr = parse_quote!(()); b.stmts.push(Stmt::Expr(if kind == Kind::Res { parse_quote!(Ok(#u)) } else { parse_quote!(Some(#u)) }, None)); }
            }
            Ok(b)
        }
        Ok(match strip_group(e) {
            Expr::Block(b) if b.label.is_none() => { let b = blk(&b.block, kind)?; parse_quote!(#b) }
            Expr::Match(m) => { let mut m = m.clone(); for a in m.arms.iter_mut() { *a.body = Lower::cps_wrap(&a.body, kind)?; } Expr::Match(m) }
            Expr::If(i) => {
                let (c, t) = (&i.cond, blk(&i.then_branch, kind)?);
                let el = match &i.else_branch { Some((_, x)) => block_of(&Lower::cps_wrap(x, kind)?), None => { let u: Expr = parse_quote!(()); let x = some(&u); parse_quote!({ #x }) } };
                parse_quote!(if #c #t else #el)
            }
            Expr::Break(_) | Expr::Continue(_) | Expr::Return(_) => e.clone(),
            x => some(x),
        })
    }

    fn hoist(&mut self, e: &Expr, out: &mut Vec<(Ident, Expr)>, kind: Kind) -> R<Expr> {
        if !has_try(e) { return Ok(e.clone()); }
        Ok(match strip_group(e) {
            Expr::Try(t) => {
                let inner = self.hoist(&t.expr, out, kind)?;
                let id = self.tmp("q");
                out.push((id.clone(), inner));
                parse_quote!(#id)
            }
            Expr::MethodCall(m) => {
                let mut m = m.clone();
                *m.receiver = self.hoist(&m.receiver, out, kind)?;
                for a in m.args.iter_mut() { *a = self.hoist(a, out, kind)?; }
                Expr::MethodCall(m)
            }
            Expr::Call(c) => {
                let mut c = c.clone();
                for a in c.args.iter_mut() { *a = self.hoist(a, out, kind)?; }
                Expr::Call(c)
            }
            Expr::Tuple(t) => {
                let mut t = t.clone();
                for a in t.elems.iter_mut() { *a = self.hoist(a, out, kind)?; }
                Expr::Tuple(t)
            }
            Expr::Reference(r) => {
                let mut r = r.clone();
                *r.expr = self.hoist(&r.expr, out, kind)?;
                Expr::Reference(r)
            }
            Expr::Match(_) | Expr::If(_) | Expr::Block(_) => {
                let w = Lower::cps_wrap(e, kind)?;
                let w = self.cps_tail(&w, kind, out)?;
                let id = self.tmp("q");
                out.push((id.clone(), w));
                parse_quote!(#id)
            }
            Expr::Unary(u) => { let mut u = u.clone(); *u.expr = self.hoist(&u.expr, out, kind)?; Expr::Unary(u) }
            Expr::Paren(p) => self.hoist(&p.expr, out, kind)?,
            Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                let mut b = b.clone();
                *b.left = self.hoist(&b.left, out, kind)?;
                *b.right = self.hoist(&b.right, out, kind)?;
                Expr::Binary(b)
            }
            Expr::Field(f) => {
                let mut f = f.clone();
                *f.base = self.hoist(&f.base, out, kind)?;
                Expr::Field(f)
            }
            _ => return Err(format!("cps: `?` in unsupported position: {}", norm(e))),
        })
    }

    fn apply1(&mut self, f: &Expr, arg: Expr) -> R<(Pat, Expr)> {
        // returns (pattern, body)
        if let Some((ps, body)) = closure_of(f) {
            if ps.len() != 1 { return Err("closure arity".into()); }
            let _ = arg;
            return Ok((ps[0].clone(), body));
        }
        let v = self.tmp("v");
        let p: Pat = parse_quote!(#v);
        Ok((p, parse_quote!(#f(#v))))
    }

    /// for PAT in ITER { BODY }
    fn lower_for(&mut self, pat: Pat, iter: &Expr, body: Block) -> R<Expr> {
        let iter = strip_group(iter).clone();
        if let Expr::MethodCall(m) = &iter {
            let n = m.method.to_string();
            let recv = &*m.receiver;
            let is_iter = self.kind(recv) == Kind::Iter;
            match n.as_str() {
                "map" if is_iter => {
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    return self.lower_for(p, recv, parse_quote!({ let #pat = #b; #body }));
                }
                "filter" if is_iter => {
                    let x = self.tmp("x");
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    return self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        let __c = { let #p = &#x; #b };
                        if __c { let #pat = #x; #body }
                    }));
                }
                "filter_map" => {
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    let c = self.try_cps(&block_of(&b), Kind::Opt)?;
                    return self.lower_for(p, recv, parse_quote!({
                        match #c { Some(#pat) => #body, None => { } }
                    }));
                }
                "flat_map" => {
                    let mut h = HasJump(false);
                    h.visit_block(&body);
                    if h.0 { return Err("flat_map with break".into()); }
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    // the inner for is lowered when the outer body is visited
                    let inner: Expr = parse_quote!(for #pat in #b #body);
                    return self.lower_for(p, recv, parse_quote!({ #inner }));
                }
                "skip" if is_iter => {
                    let (c, k, x) = (self.tmp("c"), self.tmp("skip"), self.tmp("x"));
                    let a = &m.args[0];
                    let inner = self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        if #c < #k { #c = #c + 1; } else { let #pat = #x; #body }
                    }))?;
                    return Ok(parse_quote!({ let #k: usize = #a; let mut #c: usize = 0; #inner }));
                }
                "take" if is_iter && !norm(recv).contains("by_ref") => {
                    let (c, k, x) = (self.tmp("c"), self.tmp("take"), self.tmp("x"));
                    let a = &m.args[0];
                    let inner = self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        if #c >= #k { break; } #c = #c + 1; let #pat = #x; #body
                    }))?;
                    return Ok(parse_quote!({ let #k: usize = #a; let mut #c: usize = 0; #inner }));
                }
                "skip_while" if is_iter => {
                    let (c, x) = (self.tmp("c"), self.tmp("x"));
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    let inner = self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        if #c { #c = { let #p = &#x; #b }; }
                        if !#c { let #pat = #x; #body }
                    }))?;
                    return Ok(parse_quote!({ let mut #c = true; #inner }));
                }
                "inspect" if is_iter => {
                    let x = self.tmp("x");
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    return self.lower_for(parse_quote!(#x), recv, parse_quote!({ { let #p = &#x; #b }; let #pat = #x; #body }));
                }
                "enumerate" => {
                    let (c, x) = (self.tmp("n"), self.tmp("x"));
                    let inner = self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        let #pat = (#c, #x); #c = #c + 1; #body
                    }))?;
                    return Ok(parse_quote!({ let mut #c: usize = 0; #inner }));
                }
                "take_while" if is_iter => {
                    let x = self.tmp("x");
                    let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                    return self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        let __c = { let #p = &#x; #b };
                        if !__c { break; }
                        let #pat = #x; #body
                    }));
                }
                "zip" => {
                    if let Expr::Call(c) = strip_group(recv) {
                        if norm(&c.func) == "repeat" {
                            let (r, v) = (self.tmp("r"), self.tmp("x"));
                            let a = &c.args[0];
                            let inner = self.lower_for(parse_quote!(#v), &m.args[0], parse_quote!({
                                let #pat = (#r, #v); #body
                            }))?;
                            return Ok(parse_quote!({ let #r = #a; #inner }));
                        }
                    }
                    let (a, b, x) = (self.tmp("a"), self.tmp("b"), self.tmp("x"));
                    let bi = self.into_iter_expr(&m.args[0]);
                    let inner = self.lower_for(parse_quote!(#x), recv, parse_quote!({
                        match #b.next() { Some(#a) => { let #pat = (#x, #a); #body } None => break }
                    }))?;
                    return Ok(parse_quote!({ let mut #b = #bi; #inner }));
                }
                "by_ref" => return self.lower_for(pat, recv, body),
                "into_iter" if is_iter => return self.lower_for(pat, recv, body),
                "iter_mut" | "values_mut" => return self.lower_for_mut(pat, recv, body, n == "iter_mut"),
                "copied" | "cloned" if is_iter => {
                    let x = self.tmp("x");
                    return self.lower_for(parse_quote!(#x), recv, parse_quote!({ let #pat = #x.v_clone(); #body }));
                }
                _ => {}
            }
        }
        if let Expr::Reference(r) = &iter {
            if r.mutability.is_some() {
                return self.lower_for_mut(pat, &r.expr, body, true);
            }
        }
        if let Expr::Range(r) = &iter {
            let (s, e) = (r.start.as_ref().ok_or("range")?, r.end.as_ref().ok_or("range")?);
            let (i, en) = (self.tmp("i"), self.tmp("end"));
            let m = self.loop_marker();
            let (me, ma, mb, md) = (self.end_marker(&m), self.after_marker(&m), self.before_marker(&m), self.body_marker(&m));
            let cmp: Expr = match r.limits {
                RangeLimits::HalfOpen(_) => parse_quote!(#i < #en),
                RangeLimits::Closed(_) => parse_quote!(#i <= #en),
            };
            let mut body = body;
            self.visit_block_mut(&mut body);
            let stmts = &body.stmts;
            return Ok(parse_quote!({
                let mut #i = #s; let #en = #e;
                #mb
                loop { #m if !(#cmp) { break; } let #pat = #i; #i = #i + 1; #md #(#stmts)*; #me }
                #ma
            }));
        }
        let it = self.tmp("it");
        let src = self.into_iter_expr(&iter);
        let m = self.loop_marker();
        let (me, ma, mb, md) = (self.end_marker(&m), self.after_marker(&m), self.before_marker(&m), self.body_marker(&m));
        let mut body = body;
        self.visit_block_mut(&mut body);
        let mut src = src;
        self.visit_expr_mut(&mut src);
        let stmts = &body.stmts;
        let semi = semi_for(stmts);
        Ok(parse_quote!({
            let mut #it = #src;
            #mb
            loop {
                #m
                match #it.next() {
                    Some(#pat) => { #md #(#stmts)* #semi #me }
                    None => break,
                }
            }
            #ma
        }))
    }

    fn into_iter_expr(&mut self, e: &Expr) -> Expr {
        let e = strip_group(e);
        if self.kind(e) == Kind::Iter { return e.clone(); }
        if let Expr::Reference(r) = e {
            let x = &r.expr;
            if r.mutability.is_none() { return parse_quote!(#x.iter()); }
        }
        parse_quote!(#e.into_iter())
    }

    /// in-place mutation of every element: drain, mutate, reinsert
    fn lower_for_mut(&mut self, pat: Pat, coll: &Expr, body: Block, pairs: bool) -> R<Expr> {
        let mut h = HasJump(false);
        h.visit_block(&body);
        if h.0 || has_return_b(&body) || has_try(&body) { return Err("jump out of in-place iteration".into()); }
        let (it, k, v) = (self.tmp("it"), self.tmp("k"), self.tmp("v"));
        let m = self.loop_marker();
        let (me, ma, mb, md) = (self.end_marker(&m), self.after_marker(&m), self.before_marker(&m), self.body_marker(&m));
        let mut body = body;
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let semi = semi_for(stmts);
        let bind: Stmt = match (&pat, pairs) {
            (Pat::Tuple(t), true) if t.elems.len() == 2 => {
                let (a, b) = (&t.elems[0], &t.elems[1]);
                let sa: Option<Stmt> = if matches!(a, Pat::Wild(_)) { None } else { Some(parse_quote!(let #a = &#k;)) };
                let sb: Stmt = parse_quote!(let #b = &mut #v;);
                let blk: Block = parse_quote!({ #sa #sb #md #(#stmts)* #semi });
                return Ok(parse_quote!({
                    let mut #it = #coll.v_drain();
                    #mb
                    loop {
                        #m
                        match #it.next() {
                            Some((#k, mut #v)) => { #blk; #coll.v_put_back(#k, #v); #me }
                            None => break,
                        }
                    }
                    #ma
                }));
            }
            (p, _) => parse_quote!(let #p = &mut #v;),
        };
        let blk: Block = parse_quote!({ #bind #md #(#stmts)* #semi });
        if pairs {
            // element iteration of a Vec
            Ok(parse_quote!({
                let mut #it = #coll.v_drain();
                #mb
                loop {
                    #m
                    match #it.next() {
                        Some(mut #v) => { #blk; #coll.v_put_back(#v); #me }
                        None => break,
                    }
                }
                #ma
            }))
        } else {
            Ok(parse_quote!({
                let mut #it = #coll.v_drain();
                #mb
                loop {
                    #m
                    match #it.next() {
                        Some((#k, mut #v)) => { #blk; #coll.v_put_back(#k, #v); #me }
                        None => break,
                    }
                }
                #ma
            }))
        }
    }

    /// an iterator that is not used again afterwards
    fn is_adapter_or_plain(&self, e: &Expr) -> bool {
        match strip_group(e) { Expr::Path(_) | Expr::Reference(_) | Expr::Field(_) => false, e => self.kind(e) == Kind::Iter }
    }

    fn is_adapter_chain(&self, e: &Expr) -> bool {
        match strip_group(e) {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(),
                "map" | "filter" | "filter_map" | "flat_map" | "take_while" | "enumerate" | "zip" | "skip" | "take" | "skip_while" | "inspect")
                && self.kind(e) == Kind::Iter,
            _ => false,
        }
    }

    fn lower_expr(&mut self, e: &mut Expr) -> R<()> {
        match e {
            Expr::ForLoop(f) => {
                let (p, i, b) = ((*f.pat).clone(), (*f.expr).clone(), f.body.clone());
                *e = self.lower_for(p, &i, b)?;
                return Ok(());
            }
            Expr::While(w) => {
                let m = self.loop_marker();
                let (me, ma, mb, md) = (self.end_marker(&m), self.after_marker(&m), self.before_marker(&m), self.body_marker(&m));
                let label = &w.label;
                let mut cond = (*w.cond).clone();
                let mut body = w.body.clone();
                if let Expr::Let(l) = &mut cond {
                    let pat = (*l.pat).clone();
                    let mut x = (*l.expr).clone();
                    self.visit_expr_mut(&mut x);
                    self.visit_block_mut(&mut body);
                    let stmts = &body.stmts;
                    let semi = semi_for(stmts);
                    *e = parse_quote!({ #mb #label loop { #m match #x { #pat => { #md #(#stmts)* #semi #me } _ => break } } #ma });
                } else {
                    self.visit_expr_mut(&mut cond);
                    self.visit_block_mut(&mut body);
                    let stmts = &body.stmts;
                    let semi = semi_for(stmts);
                    *e = parse_quote!({ #mb #label loop { #m if !(#cond) { break; } #md #(#stmts)* #semi #me } #ma });
                }
                return Ok(());
            }
            Expr::Loop(l) => {
                let m = self.loop_marker();
                let (me, ma, mb, md) = (self.end_marker(&m), self.after_marker(&m), self.before_marker(&m), self.body_marker(&m));
                let label = &l.label;
                let mut body = l.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = &body.stmts;
                let _ = me; let _ = ma;
                *e = parse_quote!({ #mb #label loop { #m #md #(#stmts)* } });
                return Ok(());
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // a serializer that takes an iterator is given what the iterator yields
                if matches!(n.as_str(), "collect_map" | "collect_seq") && m.args.len() == 1 && self.kind(&m.args[0]) == Kind::Iter {
                    let a = m.args[0].clone();
                    m.args[0] = parse_quote!(#a.collect());
                }
                let k = match self.kind(&m.receiver) { Kind::Unk if n == "and_then" => self.kind(&Expr::MethodCall(m.clone())), k => k };
                if k == Kind::Iter || matches!(n.as_str(), "for_each") || n == "collect" && m.args.is_empty() {
                    let recv = (*m.receiver).clone();
                    match n.as_str() {
                        "for_each" => {
                            let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                            let blk: Block = parse_quote!({ #b; });
                            *e = self.lower_for(p, &recv, blk)?;
                            return Ok(());
                        }
                        "collect" => {
                            let ty: String = match &m.turbofish {
                                Some(t) if self.collect.len() <= self.ncollect => {
                                    let a = t.args.first().ok_or("collect turbofish")?;
                                    a.to_token_stream().to_string()
                                }
                                _ => self.collect.get(self.ncollect).cloned().ok_or("collect target unknown")?,
                            };
                            self.ncollect += 1;
                            let ty: Type = parse_str(&ty).map_err(|e| e.to_string())?;
                            let (acc, x) = (format_ident!("__acc{}", self.ncollect - 1), self.tmp("x"));
                            let l = self.lower_for(parse_quote!(#x), &recv, parse_quote!({ #acc.v_push_item(#x); }))?;
                            *e = parse_quote!({ let mut #acc = <#ty>::new(); #l #acc });
                            return Ok(());
                        }
                        "sum" => {
                            let (acc, x) = (self.tmp("sum"), self.tmp("x"));
                            let l = self.lower_for(parse_quote!(#x), &recv, parse_quote!({ #acc = #acc + #x; }))?;
                            *e = parse_quote!({ let mut #acc: usize = 0; #l #acc });
                            return Ok(());
                        }
                        "count" => {
                            let acc = self.tmp("cnt");
                            let l = self.lower_for(parse_quote!(_), &recv, parse_quote!({ #acc = #acc + 1; }))?;
                            *e = parse_quote!({ let mut #acc: usize = 0; #l #acc });
                            return Ok(());
                        }
                        "any" | "all" => {
                            let acc = self.tmp("any");
                            let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                            if n == "any" {
                                let l = self.lower_for(p, &recv, parse_quote!({ if #b { #acc = true; break; } }))?;
                                *e = parse_quote!({ let mut #acc = false; #l #acc });
                            } else {
                                // `all` is `any` of the negation, so that both spellings meet the same invariant
                                let nb: Expr = match strip_group(&b) { Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(), _ => parse_quote!(!(#b)) };
                                let l = self.lower_for(p, &recv, parse_quote!({ if #nb { #acc = true; break; } }))?;
                                *e = parse_quote!({ let mut #acc = false; #l !#acc });
                            }
                            return Ok(());
                        }
                        "find" | "find_map" | "position" if m.args.len() == 1 && self.is_adapter_or_plain(&recv) => {
                            let (acc, x) = (self.tmp("found"), self.tmp("x"));
                            let (p, b) = self.apply1(&m.args[0], parse_quote!(()))?;
                            let l = match n.as_str() {
                                "find" => self.lower_for(parse_quote!(#x), &recv, parse_quote!({ if { let #p = &#x; #b } { #acc = Some(#x); break; } }))?,
                                "find_map" => { let c = self.try_cps(&block_of(&b), Kind::Opt)?; self.lower_for(p, &recv, parse_quote!({ match #c { Some(#x) => { #acc = Some(#x); break; } None => {} } }))? }
                                _ => { let c = self.tmp("n"); let l = self.lower_for(p, &recv, parse_quote!({ if #b { #acc = Some(#c); break; } #c = #c + 1; }))?; parse_quote!({ let mut #c: usize = 0; #l }) }
                            };
                            *e = parse_quote!({ let mut #acc = None; #l #acc });
                            return Ok(());
                        }
                        "last" if m.args.is_empty() && self.is_adapter_chain(&recv) => {
                            let (acc, x) = (self.tmp("last"), self.tmp("x"));
                            let l = self.lower_for(parse_quote!(#x), &recv, parse_quote!({ #acc = Some(#x); }))?;
                            *e = parse_quote!({ let mut #acc = None; #l #acc });
                            return Ok(());
                        }
                        "next" if m.args.is_empty() && self.is_adapter_chain(&recv) => {
                            let (acc, x) = (self.tmp("found"), self.tmp("x"));
                            let l = self.lower_for(parse_quote!(#x), &recv, parse_quote!({ #acc = Some(#x); break; }))?;
                            *e = parse_quote!({ let mut #acc = None; #l #acc });
                            return Ok(());
                        }
                        "fold" => {
                            let (ps, b) = closure_of(&m.args[1]).ok_or("fold closure")?;
                            let acc = self.tmp("fold");
                            let (a, x) = (&ps[0], &ps[1]);
                            let init = &m.args[0];
                            let l = self.lower_for(x.clone(), &recv, parse_quote!({ #acc = { let #a = #acc; #b }; }))?;
                            *e = parse_quote!({ let mut #acc = #init; #l #acc });
                            return Ok(());
                        }
                        _ => {}
                    }
                }
                if n == "extend" && m.args.len() == 1 && (self.is_adapter_chain(&m.args[0]) || self.kinds.get(".extend").map(String::as_str) == Some("loop")) {
                    let (recv, arg) = ((*m.receiver).clone(), m.args[0].clone());
                    let x = self.tmp("x");
                    *e = self.lower_for(parse_quote!(#x), &arg, parse_quote!({ #recv.v_push_item(#x); }))?;
                    return Ok(());
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.combinator(m)? { *e = n; }
        }
        if let Expr::Closure(_) = e {
            let k = proc_macro2::Literal::usize_unsuffixed(self.nclosure);
            self.nclosure += 1;
            if let Expr::Closure(c) = e {
                let b = &c.body;
                let nb: Expr = parse_quote!({ __vclosure!(#k); #b });
                *c.body = nb;
            }
        }
        Ok(())
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> R<Option<Expr>> {
        let n = m.method.to_string();
        if self.keep_combinators || self.keep_maps.contains(&n) { return Ok(None); }
        let recv = &*m.receiver;
        let k = match self.kind(recv) { Kind::Unk if n == "and_then" => self.kind(&Expr::MethodCall(m.clone())), k => k };
        let arg = m.args.first();
        let body1 = |s: &mut Self| -> R<(Pat, Expr)> {
            let (p, b) = s.apply1(arg.ok_or("arg")?, parse_quote!(()))?;
            Ok((p, b))
        };
        let nullary = |e: &Expr| -> Expr { match closure_of(e) { Some((_, b)) => b, None => parse_quote!(#e()) } };
        Ok(Some(match (n.as_str(), k) {
            ("map_err", _) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })
            }
            ("ok_or_else", _) => {
                let b = nullary(arg.unwrap());
                parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) })
            }
            ("ok_or", _) => {
                let a = arg.unwrap();
                parse_quote!({ let __e = #a; match #recv { Some(__v) => Ok(__v), None => Err(__e) } })
            }
            ("then", _) if arg.and_then(closure_of).map_or(false, |(p, _)| p.is_empty()) => {
                let b = nullary(arg.unwrap());
                parse_quote!(if #recv { Some(#b) } else { None })
            }
            ("map", Kind::Opt) => {
                let (p, b) = body1(self)?;
                let b = self.try_cps_expr(&b, Kind::Unk)?;
                parse_quote!(match #recv { Some(#p) => Some(#b), None => None })
            }
            ("map", Kind::Res) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
            }
            ("and_then", Kind::Opt) => {
                let (p, b) = body1(self)?;
                let b = self.try_cps_expr(&b, Kind::Opt)?;
                parse_quote!(match #recv { Some(#p) => #b, None => None })
            }
            ("and_then", Kind::Res) => {
                let (p, b) = body1(self)?;
                let b = self.try_cps_expr(&b, Kind::Res)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e) })
            }
            ("filter", Kind::Opt) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Some(__x) => if { let #p = &__x; #b } { Some(__x) } else { None }, None => None })
            }
            ("or_else", Kind::Opt) => {
                let b = nullary(arg.unwrap());
                parse_quote!(match #recv { Some(__v) => Some(__v), None => #b })
            }
            ("or_else", Kind::Res) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => #b })
            }
            ("unwrap_or_else", Kind::Opt) => {
                let b = nullary(arg.unwrap());
                parse_quote!(match #recv { Some(__v) => __v, None => #b })
            }
            ("unwrap_or_else", Kind::Res) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Ok(__v) => __v, Err(#p) => #b })
            }
            ("unwrap_or", Kind::Opt) => {
                let a = arg.unwrap();
                parse_quote!({ let __d = #a; match #recv { Some(__v) => __v, None => __d } })
            }
            ("map_or", Kind::Opt) => {
                let a = arg.unwrap();
                let (p, b) = self.apply1(&m.args[1], parse_quote!(()))?;
                parse_quote!({ let __d = #a; match #recv { Some(#p) => #b, None => __d } })
            }
            ("map_or", Kind::Res) => {
                let a = arg.unwrap();
                let (p, b) = self.apply1(&m.args[1], parse_quote!(()))?;
                parse_quote!({ let __d = #a; match #recv { Ok(#p) => #b, Err(_) => __d } })
            }
            ("is_some_and", Kind::Opt) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Some(#p) => #b, None => false })
            }
            ("is_ok_and", _) => {
                let (p, b) = body1(self)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })
            }
            ("map_or_else", Kind::Opt) => {
                let d = nullary(arg.unwrap());
                let (p, b) = self.apply1(&m.args[1], parse_quote!(()))?;
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("ok", Kind::Res) => parse_quote!(match #recv { Ok(__v) => Some(__v), Err(_) => None }),
            ("map" | "and_then" | "filter" | "or_else" | "unwrap_or_else" | "map_or", _) if k != Kind::Iter => {
                self.notes.push(format!("unresolved combinator `{}` on `{}`", n, norm(recv)));
                return Ok(None);
            }
            _ => return Ok(None),
        }))
    }

    fn try_cps_expr(&mut self, b: &Expr, kind: Kind) -> R<Expr> {
        if !has_try(b) { return Ok(b.clone()); }
        if kind == Kind::Unk { return Err("? inside map closure".into()); }
        self.try_cps(&block_of(b), kind)
    }
}

fn semi_for(stmts: &[Stmt]) -> Option<Token![;]> {
    match stmts.last() {
        Some(Stmt::Expr(_, None)) => Some(Default::default()),
        _ => None,
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Err(m) = self.lower_expr(e) { self.notes.push(format!("lower: {}", m)); }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // let-bound lazy iterator chains used once: move them to their use
        let mut i = 0;
        while i < b.stmts.len() {
            let mut sub = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && self.is_adapter_chain(&init.expr) {
                        let name = pi.ident.to_string();
                        let mut c = CountIdent { name: name.clone(), n: 0 };
                        for s in &b.stmts[i + 1..] { c.visit_stmt(s); }
                        if c.n == 1 { sub = Some((name, (*init.expr).clone())); }
                    }
                }
            }
            if let Some((name, with)) = sub {
                b.stmts.remove(i);
                let mut s = SubstIdent { name, with };
                for st in b.stmts[i..].iter_mut() { s.visit_stmt_mut(st); }
                continue;
            }
            // track locals that are iterators
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if self.kind(&init.expr) == Kind::Iter { self.iter_vars.insert(pi.ident.to_string()); }
                }
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- renames

struct Rename { methods: HashMap<String, String>, fields: HashMap<String, String> }
impl VisitMut for Rename {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if let Some(n) = self.methods.get(&m.method.to_string()) {
            m.method = format_ident!("{}", n);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // &s[a..b] / s[..n] on strings
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = strip_group(&ix.index) {
                let base = &ix.expr;
                if let Some(name) = self.methods.get("[..]") {
                    let f = format_ident!("{}", name);
                    let (s, en) = (&r.start, &r.end);
                    let ne: Expr = match (s, en) {
                        (None, Some(b)) => { let f = format_ident!("{}_to", f); parse_quote!((*#f(&#base, #b))) }
                        (Some(a), None) => { let f = format_ident!("{}_from", f); parse_quote!((*#f(&#base, #a))) }
                        (Some(a), Some(b)) => parse_quote!((*#f(&#base, #a, #b))),
                        (None, None) => parse_quote!((*#base)),
                    };
                    *e = ne;
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                let inner = strip_group(&r.expr).clone();
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = inner {
                    if let Expr::Call(c) = strip_group(&expr) {
                        if norm(&c.func).starts_with("v_slice") { *e = (*expr).clone(); }
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "format_args" { *e = parse_quote!(v_format_args()); }
        }
    }
}

/// `format_args!("a {0} b {1:?}", x, y)`: the pieces in order, each argument shown by its Display or
/// Debug; any other format specification is left for the verifier to reject
struct FmtArgs;
impl VisitMut for FmtArgs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Macro(m) = e else { return };
        if m.mac.path.segments.last().unwrap().ident != "format_args" { return; }
        let parser = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let Ok(args) = syn::parse::Parser::parse2(parser, m.mac.tokens.clone()) else { return };
        let mut it = args.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(t), .. })) = it.next() else { return };
        let args: Vec<Expr> = it.map(|mut a| { self.visit_expr_mut(&mut a); a }).collect();
        let t: Vec<char> = t.value().chars().collect();
        let mut out: Expr = parse_quote!(v_fmt_args());
        let mut lit = String::new();
        let mut i = 0;
        let mut next = 0;
        while i < t.len() {
            if (t[i] == '{' || t[i] == '}') && i + 1 < t.len() && t[i + 1] == t[i] { lit.push(t[i]); i += 2; continue; }
            if t[i] != '{' { lit.push(t[i]); i += 1; continue; }
            let Some(n) = t[i..].iter().position(|c| *c == '}') else { return };
            let spec: String = t[i + 1..i + n].iter().collect();
            let (ix, how) = match spec.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (spec.clone(), String::new()) };
            let k = if ix.is_empty() { next += 1; next - 1 } else if let Ok(k) = ix.parse::<usize>() { k } else { return };
            let Some(a) = args.get(k) else { return };
            if !lit.is_empty() { out = parse_quote!(#out.v_lit(#lit)); lit.clear(); }
            out = match how.as_str() {
                "" => parse_quote!(#out.v_disp(&#a)),
                "?" => parse_quote!(#out.v_dbg(&#a)),
                _ => return,
            };
            i += n + 1;
        }
        if !lit.is_empty() { out = parse_quote!(#out.v_lit(#lit)); }
        *e = out;
    }
}

/// `unreachable!()` and the like, as the expansion writes them, must be shown never to run
struct Panics;
impl Panics {
    fn is(e: &Expr) -> bool {
        let Expr::Call(c) = strip_group(e) else { return false };
        let n = norm(&c.func);
        n.contains("panicking::panic") || n.contains("panicking::unreachable_display") || n.ends_with("panicking::panic_fmt")
    }
}
impl VisitMut for Panics {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, Some(_)) = s { if Self::is(e) { *e = parse_quote!(unreached::<()>()); return; } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if Self::is(e) { *e = parse_quote!(unreached()); return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `const X: T = e;` inside an inner block is a local binding
struct NestedConsts;
impl VisitMut for NestedConsts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Item(Item::Const(c)) = s {
                let (id, ex, ty) = (&c.ident, &c.expr, &c.ty);
                *s = parse_quote!(let #id: #ty = #ex;);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Group(g) => { let i = (*g.expr).clone(); *e = parse_quote!((#i)); }
            Expr::Unsafe(u) => { let b = &u.block; *e = parse_quote!(#b); }
            _ => {}
        }
    }
}

struct Locals { names: BTreeSet<String>, order: Vec<String> }
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !is_upper(&n) && !n.starts_with("__") && self.names.insert(n.clone()) { self.order.push(n); }
        visit::visit_pat_ident(self, p);
    }
}

struct Calls { out: BTreeSet<String> }
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(_) = &*c.func { self.out.insert(norm(&c.func)); }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.out.insert(format!(".{}", m.method));
        visit::visit_expr_method_call(self, m);
    }
}

// ---------------------------------------------------------------- inlining

struct Inline<'a> {
    ix: &'a Ix,
    module: String,
    self_ty: String,
    self_is_ref: bool,
    known: HashSet<String>,
    baseline: HashSet<String>,
    inline: HashSet<String>,
    nested: HashMap<String, ItemFn>,
    mk: &'a dyn Fn(&str) -> HashMap<String, Vec<String>>,
    inlined: Vec<String>,
    notes: Vec<String>,
    depth: usize,
    n: usize,
    paths: &'a dyn Fn(&mut Block, HashMap<String, Vec<String>>, &str),
}

struct RenameSelf(Ident);
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") { let i = &self.0; p.path = parse_quote!(#i); }
    }
}

fn erase_lifetimes(t: &mut Type) {
    struct E;
    impl VisitMut for E {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
    }
    E.visit_type_mut(t);
}

impl<'a> Inline<'a> {
    /// Only functions that are new relative to the committed inventory (or that
    /// the contract asks to see through) are inlined; every other callee needs
    /// its own contract.
    fn find(&self, e: &Expr) -> Option<(FnLoc, Option<Expr>, Vec<Expr>)> {
        let r = self.find_any(e)?;
        let name = r.0.sig.ident.to_string();
        let key = format!("{}|{}", r.0.self_ty.clone().unwrap_or_default(), name);
        let nested = r.0.self_ty.is_none() && self.nested.contains_key(&name);
        if !nested && self.baseline.contains(&key) && !self.inline.contains(&name) { return None; }
        Some(r)
    }

    fn find_any(&self, e: &Expr) -> Option<(FnLoc, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => p, _ => return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if segs.len() == 1 {
                    if self.known.contains(&segs[0]) || is_upper(&segs[0]) { return None; }
                    if let Some(f) = self.nested.get(&segs[0]) {
                        return Some((FnLoc { module: self.module.clone(), self_ty: None, self_full: None, trait_: None, trait_full: None,
                            generics: Generics::default(), sig: f.sig.clone(), block: Some((*f.block).clone()), caller: false }, None, args));
                    }
                    let cands: Vec<&FnLoc> = self.ix.fns.iter().filter(|f| f.self_ty.is_none() && f.sig.ident == segs[0]).collect();
                    let f = cands.iter().find(|f| f.module == self.module).or(if cands.len() == 1 { cands.first() } else { None })?;
                    return Some(((*f).clone(), None, args));
                }
                if segs.len() == 2 {
                    let t = if segs[0] == "Self" { self.self_ty.clone() } else { segs[0].clone() };
                    if self.known.contains(&format!("{}::{}", t, segs[1])) { return None; }
                    let cands: Vec<&FnLoc> = self.ix.fns.iter().filter(|f| f.self_ty.as_deref() == Some(&t) && f.sig.ident == segs[1] && f.trait_.is_none()).collect();
                    if cands.len() != 1 { return None; }
                    let f = cands[0].clone();
                    if f.sig.receiver().is_some() {
                        let mut a = args;
                        if a.is_empty() { return None; }
                        let r = a.remove(0);
                        return Some((f, Some(r), a));
                    }
                    return Some((f, None, args));
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.known.contains(&format!(".{}", n)) { return None; }
                let cands: Vec<&FnLoc> = self.ix.fns.iter().filter(|f| f.sig.ident == n && f.sig.receiver().is_some()
                    && f.trait_.is_none() && f.self_ty.as_ref().map_or(false, |t| !t.starts_with("trait "))).collect();
                if cands.len() != 1 { return None; }
                Some((cands[0].clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &Expr, allow_try: bool) -> Option<Expr> {
        if self.depth > 4 { return None; }
        let (f, recv, args) = self.find(e)?;
        let name = f.sig.ident.to_string();
        let mut block = f.block.clone()?;
        if !f.caller && norm(&block).contains("Location::caller") { self.notes.push(format!("helper `{}` not inlined: it asks where it is called from", name)); return None; }
        StripAttrs.visit_block_mut(&mut block);
        SplitOr.visit_block_mut(&mut block);
        if has_return_b(&block) { if let Some(b) = deret_stmts(&block.stmts) { block = b; } }
        if has_return_b(&block) { self.notes.push(format!("helper `{}` not inlined: return", name)); return None; }
        if has_try(&block) && !allow_try { self.notes.push(format!("helper `{}` not inlined: `?`", name)); return None; }
        let mut c = CountCalls { name: name.clone(), n: 0 };
        c.visit_block(&block);
        if c.n > 0 { self.notes.push(format!("helper `{}` not inlined: recursive", name)); return None; }
        // the type arguments of the call
        let given: Vec<Type> = match e {
            Expr::Call(c) => match &*c.func { Expr::Path(p) => match p.path.segments.last().map(|s| &s.arguments) { Some(PathArguments::AngleBracketed(a)) => a.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(t.clone()), _ => None }).collect(), _ => vec![] }, _ => vec![] },
            Expr::MethodCall(m) => m.turbofish.as_ref().map(|t| t.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(t.clone()), _ => None }).collect()).unwrap_or_default(),
            _ => vec![],
        };
        let tparams: Vec<String> = f.sig.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
        if given.len() == tparams.len() && !given.is_empty() {
            struct Sub(HashMap<String, Type>);
            impl VisitMut for Sub {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() { if let Some(n) = self.0.get(&i.to_string()) { *t = n.clone(); return; } } }
                    visit_mut::visit_type_mut(self, t);
                }
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.qself.is_none() && p.path.segments.len() > 1 {
                        if let Some(Type::Path(n)) = self.0.get(&p.path.segments[0].ident.to_string()) {
                            let rest: Vec<PathSegment> = p.path.segments.iter().skip(1).cloned().collect();
                            let mut segs: Vec<PathSegment> = n.path.segments.iter().cloned().collect();
                            segs.extend(rest);
                            p.path.segments = segs.into_iter().collect();
                        }
                    }
                    visit_mut::visit_expr_path_mut(self, p);
                }
            }
            Sub(tparams.iter().cloned().zip(given).collect()).visit_block_mut(&mut block);
        }
        let mut al = (self.mk)(&f.module);
        collect_local_uses(self.ix, &mut block, &mut al);
        (self.paths)(&mut block, al, f.self_ty.as_deref().unwrap_or(""));
        let generic = !f.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_)));
        let mut pre: Vec<Stmt> = vec![];
        let k = self.n; self.n += 1;
        if let Some(r) = f.sig.receiver() {
            let recv = recv?;
            let is_self = norm(&recv) == "self";
            if is_self && self.self_is_ref && r.reference.is_some() {
                // reuse self
            } else if is_self && !self.self_is_ref && r.reference.is_none() {
            } else if let (Some(i), true) = (plain_ident(&recv), r.reference.is_some() && only_places(&block)) {
                // `x.helper()` where the helper only uses fields and methods of `self`
                let i = i.clone();
                let mut inner = Locals { names: BTreeSet::new(), order: vec![] };
                inner.visit_block(&block);
                if inner.names.contains(&i.to_string()) || f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if norm(&t.pat).trim_start_matches("mut") == i.to_string())) { return None; }
                RenameSelf(i).visit_block_mut(&mut block);
            } else {
                let id = format_ident!("__self{}", k);
                match (r.reference.is_some(), r.mutability.is_some()) {
                    (true, true) => pre.push(parse_quote!(let #id = &mut #recv;)),
                    (true, false) => pre.push(parse_quote!(let #id = &#recv;)),
                    (false, true) => pre.push(parse_quote!(let mut #id = #recv;)),
                    (false, false) => pre.push(parse_quote!(let #id = #recv;)),
                }
                RenameSelf(id).visit_block_mut(&mut block);
            }
        }
        // arguments are evaluated before any parameter name comes into scope
        let params: Vec<&PatType> = f.sig.inputs.iter().filter_map(|i| match i { FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() { return None; }
        let tmps: Vec<Ident> = (0..args.len()).map(|i| format_ident!("__arg{}_{}", k, i)).collect();
        // a closure (or a nested function) is put in place of the parameter it is bound to
        let mut subst: Vec<bool> = vec![];
        let mut inner = Locals { names: BTreeSet::new(), order: vec![] };
        inner.visit_block(&block);
        for (a, p) in args.iter().zip(&params) {
            let id = match &*p.pat { Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(), _ => { subst.push(false); continue } };
            let f = match strip_group(a) {
                Expr::Closure(c) => {
                    let mut own = Locals { names: BTreeSet::new(), order: vec![] };
                    for i in &c.inputs { own.visit_pat(i); }
                    own.visit_expr(&c.body);
                    struct Free(BTreeSet<String>);
                    impl<'a> Visit<'a> for Free {
                        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
                    }
                    let mut fr = Free(BTreeSet::new());
                    fr.visit_expr(&c.body);
                    if fr.0.iter().any(|n| inner.names.contains(n) && !own.names.contains(n)) { subst.push(false); continue; }
                    a.clone()
                }
                Expr::Path(q) if q.path.get_ident().map_or(false, |i| self.nested.contains_key(&i.to_string())) => parse_quote!(|__v| #a(__v)),
                _ => { subst.push(false); continue }
            };
            let mut cnt = CountIdent { name: id.clone(), n: 0 };
            cnt.visit_block(&block);
            if cnt.n != 1 { subst.push(false); continue; }
            SubstIdent { name: id, with: f }.visit_block_mut(&mut block);
            BetaCall.visit_block_mut(&mut block);
            subst.push(true);
        }
        for ((t, a), s) in tmps.iter().zip(&args).zip(&subst) { if !s { pre.push(parse_quote!(let #t = #a;)); } }
        for ((t, p), s) in tmps.iter().zip(&params).zip(&subst) {
            if *s { continue; }
            let pat = &p.pat;
            let mut ty = (*p.ty).clone();
            erase_lifetimes(&mut ty);
            if generic || norm(&ty).contains("impl") {
                pre.push(parse_quote!(let #pat = #t;));
            } else {
                let mut b: Block = parse_quote!({ let #pat: #ty = #t; });
                (self.paths)(&mut b, (self.mk)(&f.module), f.self_ty.as_deref().unwrap_or(""));
                pre.extend(b.stmts);
            }
        }
        self.inlined.push(name);
        let stmts = &block.stmts;
        let mut out: Expr = parse_quote!({ #(#pre)* #(#stmts)* });
        if let ReturnType::Type(_, t) = &f.sig.output {
            let mut ty = (**t).clone();
            erase_lifetimes(&mut ty);
            let tn = norm(&ty);
            let gens: Vec<String> = f.sig.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
            let words: Vec<&str> = tn.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
            if words.contains(&"Result") && !words.contains(&"Self") && !gens.iter().any(|g| words.contains(&g.as_str())) {
                let mut b: Block = parse_quote!({ let __ret: #ty = #out; });
                (self.paths)(&mut b, (self.mk)(&f.module), f.self_ty.as_deref().unwrap_or(""));
                // only the type is rewritten here: the body was already
                if let Some(Stmt::Local(l)) = b.stmts.first() { if let Pat::Type(t) = &l.pat { let t = &t.ty; out = parse_quote!({ let __ret: #t = #out; __ret }); } }
            }
        }
        self.depth += 1;
        let (m, s) = (std::mem::replace(&mut self.module, f.module.clone()), self.self_ty.clone());
        if let Some(t) = &f.self_ty { self.self_ty = t.clone(); }
        self.visit_expr_mut(&mut out);
        self.module = m; self.self_ty = s;
        self.depth -= 1;
        Some(out)
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => { if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() { self.tail(x); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail(&mut a.body); },
            Expr::If(i) => {
                if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() { self.tail(x); }
                if let Some((_, x)) = &mut i.else_branch { self.tail(x); }
            }
            e => if let Some(n) = self.expand(e, true) { *e = n; },
        }
    }
}

fn plain_ident(e: &Expr) -> Option<&Ident> { match strip_group(e) { Expr::Path(p) => p.path.get_ident(), _ => None } }

/// `self` occurs only as `self.field` or as the receiver `self.method()`
fn only_places(b: &Block) -> bool {
    struct O { all: usize, places: usize }
    impl<'a> Visit<'a> for O {
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if p.path.is_ident("self") { self.all += 1; } }
        fn visit_expr_field(&mut self, f: &'a ExprField) { if plain_ident(&f.base).map_or(false, |i| i == "self") { self.places += 1; } visit::visit_expr_field(self, f); }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if plain_ident(&m.receiver).map_or(false, |i| i == "self") { self.places += 1; } visit::visit_expr_method_call(self, m); }
    }
    let mut o = O { all: 0, places: 0 };
    o.visit_block(b);
    o.all == o.places
}

struct CountCalls { name: String, n: usize }
impl<'a> Visit<'a> for CountCalls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.segments.last().map_or(false, |s| s.ident == self.name) { self.n += 1; } }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == self.name { self.n += 1; }
        visit::visit_expr_method_call(self, m);
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if let Some(n) = self.expand(&t.expr.clone(), true) { *t.expr = n; }
            return;
        }
        if let Some(n) = self.expand(e, false) { *e = n; }
    }
}

// ---------------------------------------------------------------- entry points

fn add_glob(ix: &Ix, al: &mut HashMap<String, Vec<String>>, prefix: &[String]) {
    if let Some(l) = prefix.last() {
        let l = match al.get(l) { Some(p) => p.last().cloned().unwrap_or(l.clone()), None => l.clone() };
        if let Some(vs) = ix.enums.get(&l) {
            for v in vs { al.insert(v.clone(), vec![l.clone(), v.clone()]); }
        } else if l == "Component" {
            for v in ["Prefix", "RootDir", "CurDir", "ParentDir", "Normal"] { al.insert(v.into(), vec![l.clone(), v.into()]); }
        }
    }
}

fn collect_local_uses(ix: &Ix, b: &mut Block, al: &mut HashMap<String, Vec<String>>) {
    let mut keep = vec![];
    for s in b.stmts.drain(..) {
        if let Stmt::Item(Item::Use(u)) = &s {
            let mut out = vec![];
            flatten_use(&u.tree, &mut vec![], &mut out);
            for (k, p) in out {
                if k == "*" { add_glob(ix, al, &p); } else { al.insert(k, p); }
            }
            continue;
        }
        keep.push(s);
    }
    b.stmts = keep;
}

fn module_aliases(ix: &Ix, module: &str) -> HashMap<String, Vec<String>> {
    let mut al: HashMap<String, Vec<String>> = HashMap::new();
    if let Some(u) = ix.uses.get(module) {
        for (k, p) in u {
            if k == "*" { add_glob(ix, &mut al, p); continue; }
            // keep only renames and enum-variant imports; plain imports need no rewriting
            let n = p.len();
            let last = &p[n - 1];
            let variant = n >= 2 && ix.enums.get(&p[n - 2]).map_or(false, |v| v.contains(last));
            if k != last || variant { al.insert(k.clone(), p.clone()); }
        }
    }
    al
}

pub fn lower_type(ix: &Ix, name: &str, job: &J) -> R<String> {
    let mut item = ix.types.get(name).cloned().ok_or_else(|| format!("type {} not found", name))?;
    let mut ps = Paths {
        ix, alias: HashMap::new(), type_map: pairs(job, "type_map"), path_map: HashMap::new(),
        subst: HashMap::new(), consts: HashSet::new(), keep_self: true, self_name: name.into(), err: None,
    };
    StripAttrs.visit_item_mut(&mut item);
    ps.visit_item_mut(&mut item);
    if let Some(e) = ps.err { return Err(e); }
    let vis: Visibility = parse_quote!(pub);
    match &mut item {
        Item::Enum(e) => { e.vis = vis; e.attrs.clear(); }
        Item::Struct(s) => {
            s.vis = vis.clone();
            match &mut s.fields {
                Fields::Named(n) => for f in n.named.iter_mut() { f.vis = vis.clone(); },
                Fields::Unnamed(n) => for f in n.unnamed.iter_mut() { f.vis = vis.clone(); },
                _ => {}
            }
        }
        _ => {}
    }
    Ok(item.to_token_stream().to_string())
}

fn pairs(v: &J, k: &str) -> Vec<(String, String)> {
    v.get(k).and_then(|x| x.as_array()).map(|a| a.iter().map(|p| (
        p[0].as_str().unwrap().replace(' ', ""), p[1].as_str().unwrap().to_string()
    )).collect()).unwrap_or_default()
}

/// parameters and locals whose type or initialiser says Option or Result
fn infer_kinds(lw: &mut Lower, sig: &Signature, b: &Block) {
    fn of_type(t: &Type) -> Option<&'static str> {
        match t {
            Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() { "Option" => Some("opt"), "Result" => Some("res"), _ => None },
            _ => None,
        }
    }
    let mut seen: HashMap<String, Option<&'static str>> = HashMap::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { seen.insert(i.ident.to_string(), of_type(&t.ty)); } }
    }
    let params: HashSet<String> = seen.keys().cloned().collect();
    struct L<'b>(Vec<&'b Local>);
    impl<'b> Visit<'b> for L<'b> {
        fn visit_local(&mut self, l: &'b Local) { self.0.push(l); visit::visit_local(self, l); }
    }
    let mut ls = L(vec![]);
    ls.visit_block(b);
    struct P(Vec<String>);
    impl<'b> Visit<'b> for P { fn visit_pat_ident(&mut self, p: &'b PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    let mut all = P(vec![]);
    all.visit_block(b);
    for l in ls.0 {
        let (n, t) = match &l.pat {
            Pat::Ident(i) => (i.ident.to_string(), None),
            Pat::Type(pt) => match &*pt.pat { Pat::Ident(i) => (i.ident.to_string(), of_type(&pt.ty)), _ => continue },
            _ => continue,
        };
        // only names bound once: anything else may change kind
        if all.0.iter().filter(|x| **x == n).count() != 1 || seen.contains_key(&n) { continue; }
        let k = t.or_else(|| l.init.as_ref().and_then(|i| match lw.kind(&i.expr) { Kind::Opt => Some("opt"), Kind::Res => Some("res"), _ => None }));
        seen.insert(n, k);
    }
    for (n, k) in seen {
        if let Some(k) = k { if all.0.iter().filter(|x| **x == n).count() <= (!params.contains(&n)) as usize { lw.kinds.entry(n).or_insert_with(|| k.to_string()); } }
    }
}

pub fn lower_fn(ix: &Ix, f: &J, job: &J) -> R<J> {
    let name = js(f, "name").ok_or("name")?;
    let module = js(f, "module");
    let outer = js(f, "nested").unwrap_or(name);
    let const_loc = match js(f, "const") {
        Some(c) => {
            let (m, e, t) = ix.consts.get(c).ok_or_else(|| format!("anchor lost: no constant {}", c))?;
            let sig: Signature = parse_str(&format!("fn {}() -> {}", name, t.to_token_stream())).map_err(|e| e.to_string())?;
            let st = if c.contains("::") { Some(c.split("::").next().unwrap().to_string()) } else { None };
            Some(FnLoc { module: m.clone(), self_ty: st, self_full: None, trait_: None, trait_full: None, generics: Generics::default(), sig, block: Some(parse_quote!({ #e })), caller: false })
        }
        None => None,
    };
    let cands: Vec<&FnLoc> = ix.fns.iter().filter(|l| {
        l.sig.ident == outer
            && module.map_or(true, |m| l.module == m)
            && js(f, "self_ty").map(|s| s.to_string()) == l.self_ty
            && (f.get("trait").is_none() || (js(f, "trait") == Some("-") && l.trait_.is_none()) || js(f, "trait").map(|s| s.to_string()) == l.trait_ || js(f, "trait").map(|s| s.to_string()) == l.trait_full)
    }).collect();
    let cands: Vec<&FnLoc> = match &const_loc { Some(c) => vec![c], None => cands };
    if cands.is_empty() { return Err(format!("anchor lost: no function {} in {:?}/{:?}", outer, module, js(f, "self_ty"))); }
    if cands.len() > 1 { return Err(format!("ambiguous anchor {}: {} candidates", outer, cands.len())); }
    let loc = cands[0].clone();
    let mut sig = loc.sig.clone();
    let mut block = loc.block.clone().ok_or("no body")?;
    let mut alias = module_aliases(ix, &loc.module);
    collect_local_uses(ix, &mut block, &mut alias);

    let mut nested: HashMap<String, ItemFn> = HashMap::new();
    let mut split = |block: &mut Block, nested: &mut HashMap<String, ItemFn>| -> R<()> {
        let mut keep = vec![];
        for s in block.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Fn(i)) => { nested.insert(i.sig.ident.to_string(), i); }
                Stmt::Item(Item::Const(c)) => {
                    let (id, ex) = (&c.ident, &c.expr);
                    keep.push(parse_quote!(let #id = #ex;));
                }
                Stmt::Item(_) => return Err("unsupported nested item".into()),
                s => keep.push(s),
            }
        }
        block.stmts = keep;
        Ok(())
    };
    if let Some(_) = js(f, "nested") {
        struct FindFn<'n> { name: &'n str, out: Option<ItemFn> }
        impl<'a, 'n> Visit<'a> for FindFn<'n> {
            fn visit_item_fn(&mut self, i: &'a ItemFn) {
                if i.sig.ident == self.name { self.out = Some(i.clone()); }
                visit::visit_item_fn(self, i);
            }
        }
        let mut ff = FindFn { name, out: None };
        ff.visit_block(&block);
        let i = ff.out.ok_or_else(|| format!("anchor lost: no nested function {} in {}", name, outer))?;
        sig = i.sig.clone();
        block = (*i.block).clone();
        collect_local_uses(ix, &mut block, &mut alias);
    }
    split(&mut block, &mut nested)?;
    // `use` inside an inner block: the same for the whole body, unless two of them disagree
    struct InnerUses<'a> { ix: &'a Ix, al: &'a mut HashMap<String, Vec<String>>, clash: bool }
    impl<'a> VisitMut for InnerUses<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Use(_)))) {
                let mut own = HashMap::new();
                collect_local_uses(self.ix, b, &mut own);
                for (k, p) in own { if self.al.get(&k).map_or(false, |q| *q != p) { self.clash = true; } self.al.insert(k, p); }
            }
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut iu = InnerUses { ix, al: &mut alias, clash: false };
    iu.visit_block_mut(&mut block);
    if iu.clash { return Err("two inner `use` of the same name".into()); }
    NestedConsts.visit_block_mut(&mut block);

    // lift the body of the n-th closure of the function instead of the function itself
    if let Some(k) = f.get("closure").and_then(|x| x.as_u64()) {
        struct FindCl { k: u64, n: u64, out: Option<ExprClosure> }
        impl<'a> Visit<'a> for FindCl {
            fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
                if self.n == self.k && self.out.is_none() { self.out = Some(c.clone()); }
                self.n += 1;
                visit::visit_expr_closure(self, c);
            }
        }
        let mut fc = FindCl { k, n: 0, out: None };
        fc.visit_block(&block);
        let c = fc.out.ok_or("anchor lost: closure")?;
        let s = js(f, "closure_sig").ok_or("closure_sig")?;
        let isig: Signature = parse_str(s).map_err(|e| e.to_string())?;
        // bind the closure's own parameter patterns to the synthetic parameters p0, p1...
        let mut pre: Vec<Stmt> = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let id = format_ident!("p{}", i);
            let p = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            pre.push(parse_quote!(let #p = #id;));
        }
        let body = &c.body;
        block = match strip_group(body) {
            Expr::Block(b) => { let s = &b.block.stmts; parse_quote!({ #(#pre)* #(#s)* }) }
            e => parse_quote!({ #(#pre)* #e }),
        };
        sig = isig;
    }

    let mut type_map = pairs(f, "type_map");
    type_map.extend(pairs(job, "type_map"));
    let mut path_map = jmap(job, "path_map");
    path_map.extend(jmap(f, "path_map"));
    let subst = jmap(f, "subst");
    let consts = jset(job, "known_consts");
    let self_name = js(f, "self_as").or(loc.self_ty.as_deref()).unwrap_or("").to_string();

    let str_eq = job["str_eq"].as_bool() == Some(true);
    let str_slices = job["str_slices"].as_bool() == Some(true);
    let fmt_args = job["fmt_args"].as_bool() == Some(true) || f.get("fmt_args").and_then(|x| x.as_bool()) == Some(true);
    let run_paths = |b: &mut Block, al: HashMap<String, Vec<String>>, sn: &str| -> Option<String> {
        Panics.visit_block_mut(b);
        if fmt_args { FmtArgs.visit_block_mut(b); }
        let mut ps = Paths { ix, alias: al, type_map: type_map.clone(), path_map: path_map.clone(),
            subst: subst.clone(), consts: consts.clone(), keep_self: true, self_name: sn.to_string(), err: None };
        ps.visit_block_mut(b);
        if str_eq { StrEq.visit_block_mut(b); }
        if str_slices { StrSlice.visit_block_mut(b); }
        ps.err
    };

    StripAttrs.visit_block_mut(&mut block);
    SplitOr.visit_block_mut(&mut block);
    if fmt_args { FmtArgs.visit_block_mut(&mut block); }
    // an iterator that is returned is returned as the sequence of its items
    if let Some(t) = js(f, "eager") {
        let t: Type = parse_str(t).map_err(|e| e.to_string())?;
        match block.stmts.last_mut() { Some(Stmt::Expr(x, None)) => { let y = x.clone(); *x = parse_quote!(#y.collect::<#t>()); } _ => return Err("no tail expression".into()) }
    }
    // ... and so is one that is bound to a local
    let el = jmap(f, "eager_lets");
    if !el.is_empty() {
        struct El<'a>(&'a HashMap<String, String>);
        impl<'a> VisitMut for El<'a> {
            fn visit_local_mut(&mut self, l: &mut Local) {
                visit_mut::visit_local_mut(self, l);
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
                    if let Some(t) = self.0.get(&p.ident.to_string()) { if let Ok(t) = parse_str::<Type>(t) { let y = (*i.expr).clone(); *i.expr = parse_quote!(#y.collect::<#t>()); } }
                }
            }
        }
        El(&el).visit_block_mut(&mut block);
    }
    // calls of function values held in variables or fields
    let fnv = { let mut s = jset(job, "fn_values"); s.extend(jset(f, "fn_values")); s };
    if !fnv.is_empty() {
        struct FnV<'a>(&'a HashSet<String>);
        impl<'a> VisitMut for FnV<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e {
                    let func = match strip_group(&c.func) { Expr::Paren(p) => (*p.expr).clone(), x => x.clone() };
                    let n = match &func { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(x) => match &x.member { Member::Named(i) => Some(i.to_string()), _ => None }, _ => None };
                    if n.map_or(false, |n| self.0.contains(&n)) { let a = &c.args; *e = parse_quote!(#func.v_call(#a)); }
                }
            }
        }
        FnV(&fnv).visit_block_mut(&mut block);
    }
    let mut notes: Vec<String> = vec![];
    if let Some(e) = run_paths(&mut block, alias.clone(), &self_name) { return Err(e); }
    {
        let mut ps = Paths { ix, alias: alias.clone(), type_map: type_map.clone(), path_map: path_map.clone(),
            subst: subst.clone(), consts: consts.clone(), keep_self: true, self_name: self_name.clone(), err: None };
        ps.visit_signature_mut(&mut sig);
        if let Some(e) = ps.err { return Err(e); }
    }
    let self_is_ref = sig.receiver().map_or(false, |r| r.reference.is_some());

    // textual method renames that must happen before lowering (they decide kinds)
    let mut known = jset(job, "known");
    known.extend(jset(f, "known"));
    known.insert(outer.to_string());
    known.insert(name.to_string());
    let mk = |m: &str| module_aliases(ix, m);
    let pf = |b: &mut Block, al: HashMap<String, Vec<String>>, sn: &str| { let _ = run_paths(b, al, sn); };
    let mut inl = Inline {
        ix, module: loc.module.clone(), self_ty: loc.self_ty.clone().unwrap_or_default(), self_is_ref,
        known, baseline: jset(job, "baseline"), inline: jset(f, "inline"), nested, mk: &mk, inlined: vec![], notes: vec![], depth: 0, n: 0, paths: &pf,
    };
    inl.visit_block_mut(&mut block);
    if let Some(Stmt::Expr(x, None)) = block.stmts.last_mut() { inl.tail(x); }
    let inlined = inl.inlined.clone();
    notes.extend(inl.notes.clone());

    let mut lw = Lower {
        f,
        kinds: { let mut k = jmap(job, "kinds"); k.extend(jmap(f, "kinds")); k },
        opt_methods: jset(job, "opt_methods"), res_methods: jset(job, "res_methods"), iter_methods: jset(job, "iter_methods"),
        iter_vars: jset(f, "iter_vars"),
        collect: f.get("collect").and_then(|x| x.as_array()).map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        ncollect: 0, nloop: 0, ntmp: 0, nclosure: 0, notes: vec![],
        keep_combinators: f.get("keep_combinators").and_then(|x| x.as_bool()).unwrap_or(false),
        keep_maps: jset(f, "keep"), fields: ix.field_kinds(),
    };
    let _ = &lw.f;
    infer_kinds(&mut lw, &sig, &block);
    lw.visit_block_mut(&mut block);
    let gargs = {
        let mut g = jmap(job, "ghost_args");
        g.extend(jmap(f, "ghost_args"));
        // functions told where they are called from: their caller's own call if that is passed on, else a place inside the crate
        for n in jset(job, "told_callers").into_iter().chain(jset(f, "told_callers")) { g.insert(n, if loc.caller { "Ghost(__here)".into() } else { "Ghost(inside())".into() }); }
        g
    };
    if !gargs.is_empty() {
        struct Gh<'a>(&'a HashMap<String, String>);
        impl<'a> VisitMut for Gh<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e { if let Some(g) = self.0.get(&m.method.to_string()) { let t: proc_macro2::TokenStream = g.parse().unwrap(); m.args.push(Expr::Verbatim(t)); } }
                if let Expr::Call(c) = e { if let Some(g) = self.0.get(&norm(&c.func)) { let t: proc_macro2::TokenStream = g.parse().unwrap(); c.args.push(Expr::Verbatim(t)); } }
            }
        }
        Gh(&gargs).visit_block_mut(&mut block);
    }
    struct VecLit(Option<String>);
    impl VisitMut for VecLit {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Call(c) = &*e else { return };
            if !norm(&c.func).ends_with("box_assume_init_into_vec_unsafe") { return }
            let Some(Expr::Call(w)) = c.args.first() else { return };
            let Some(Expr::Array(a)) = w.args.last() else { return };
            let t: Type = parse_str(self.0.as_deref().unwrap_or("Vec")).unwrap();
            let xs: Vec<Expr> = a.elems.iter().cloned().collect();
            *e = parse_quote!({ let mut __vec = <#t>::new(); #(__vec.push(#xs);)* __vec });
        }
    }
    VecLit(js(f, "vec_type").or(js(job, "vec_type")).map(|s| s.to_string())).visit_block_mut(&mut block);
    Deref.visit_block_mut(&mut block);
    if f.get("ret_hooks").and_then(|x| x.as_bool()).unwrap_or(false) { RetHooks.visit_block_mut(&mut block); }
    notes.extend(lw.notes.clone());
    let (nloop, nclosure) = (lw.nloop, lw.nclosure);

    let mut methods = jmap(job, "methods");
    methods.extend(jmap(f, "methods"));
    methods.retain(|k, v| k != v);
    Rename { methods, fields: HashMap::new() }.visit_block_mut(&mut block);

    if f.get("bind_tail").and_then(|x| x.as_bool()).unwrap_or(false) {
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                block.stmts.push(parse_quote!(let __ret = #e;));
                block.stmts.push(parse_quote!(__vend!();));
                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
        } else { block.stmts.push(parse_quote!(__vend!();)); }
    }
    // `mut self` by value: the body works on a mutable copy of the binding
    let mut_self = sig.receiver().map_or(false, |r| r.reference.is_none() && r.mutability.is_some());
    if mut_self {
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = format_ident!("__self"); } }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        S.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut __self = self;));
    }
    let mut lc = Locals { names: BTreeSet::new(), order: vec![] };
    lc.visit_block(&block);
    let mut calls = Calls { out: BTreeSet::new() };
    calls.visit_block(&block);

    // signature pieces
    let mut params = vec![];
    for (n, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i {
            if matches!(*t.pat, Pat::Wild(_)) { let id = format_ident!("_p{}", n); t.pat = Box::new(parse_quote!(#id)); }
        }
    }
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                let mut r = r.clone();
                if mut_self { r.mutability = None; }
                let declared: HashSet<String> = sig.generics.lifetimes().map(|l| l.lifetime.ident.to_string()).collect();
                if let Some((_, l)) = &mut r.reference {
                    if !l.as_ref().map_or(false, |l| declared.contains(&l.ident.to_string())) { *l = None; }
                }
                // `self: &'a Self` written with an explicit type
                if r.colon_token.is_some() { r.attrs.clear(); }
                params.push(json!({ "name": "self", "text": r.to_token_stream().to_string(), "self": true }));
            }
            FnArg::Typed(t) => {
                let pat = t.pat.to_token_stream().to_string();
                params.push(json!({ "name": pat.trim_start_matches("mut ").to_string(), "text": t.to_token_stream().to_string(), "ty": t.ty.to_token_stream().to_string() }));
            }
        }
    }
    let ret = match &sig.output { ReturnType::Default => J::Null, ReturnType::Type(_, t) => json!(t.to_token_stream().to_string()) };
    let w = sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string());
    Ok(json!({
        "ok": true,
        "generics": sig.generics.to_token_stream().to_string(),
        "where": w,
        "params": params,
        "ret": ret,
        "body": block.to_token_stream().to_string(),
        "locals": lc.order,
        "loops": nloop,
        "closures": nclosure,
        "calls": calls.out.into_iter().collect::<Vec<_>>(),
        "inlined": inlined,
        "notes": notes,
        "hash_src": norm(&loc.block),
    }))
}
