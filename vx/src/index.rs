use std::collections::HashMap;
use quote::ToTokens;
use syn::*;

#[derive(Clone)]
pub struct FnLoc {
    pub module: String,
    pub self_ty: Option<String>,
    pub self_full: Option<Type>,
    pub trait_: Option<String>,
    pub trait_full: Option<String>,
    pub generics: Generics,
    pub sig: Signature,
    pub block: Option<Block>,
    /// #[track_caller]: calls it makes are attributed to its own call
    pub caller: bool,
}

pub struct Ix {
    pub fns: Vec<FnLoc>,
    pub enums: HashMap<String, Vec<String>>,
    pub types: HashMap<String, Item>,
    pub consts: HashMap<String, (String, Expr, Type)>,
    /// module -> (local name -> path segments)
    pub uses: HashMap<String, HashMap<String, Vec<String>>>,
}

fn tracks(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("track_caller")) }

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Group(g) => type_name(&g.elem),
        t => t.to_token_stream().to_string(),
    }
}

pub fn flatten_use(t: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            flatten_use(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let id = n.ident.to_string();
            if id == "self" {
                if let Some(l) = prefix.last() { out.push((l.clone(), prefix.clone())); }
            } else {
                let mut p = prefix.clone();
                p.push(id.clone());
                out.push((id, p));
            }
        }
        UseTree::Rename(r) => {
            let mut p = prefix.clone();
            p.push(r.ident.to_string());
            out.push((r.rename.to_string(), p));
        }
        UseTree::Glob(_) => out.push(("*".into(), prefix.clone())),
        UseTree::Group(g) => for t in &g.items { flatten_use(t, prefix, out) },
    }
}

impl Ix {
    /// fields whose type is Option or Result wherever a field of that name occurs
    pub fn field_kinds(&self) -> HashMap<String, String> {
        let mut out: HashMap<String, String> = HashMap::new();
        for i in self.types.values() {
            if let Item::Struct(s) = i {
                for f in s.fields.iter() {
                    if let Some(id) = &f.ident {
                        let k = match &f.ty {
                            Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() { "Option" => "opt", "Result" => "res", _ => "-" },
                            _ => "-",
                        };
                        let e = out.entry(id.to_string()).or_insert_with(|| k.to_string());
                        if e != k { *e = "-".into(); }
                    }
                }
            }
        }
        out
    }

    pub fn build(file: &File) -> Ix {
        let mut ix = Ix {
            fns: vec![], enums: HashMap::new(), types: HashMap::new(),
            consts: HashMap::new(), uses: HashMap::new(),
        };
        ix.items(&file.items, "");
        ix
    }

    /// items declared in a block: impls and types only, and those in the bodies of the impls' functions
    fn nested(&mut self, b: &Block, module: &str) {
        let items: Vec<Item> = b.stmts.iter().filter_map(|s| match s {
            Stmt::Item(i @ (Item::Impl(_) | Item::Struct(_) | Item::Enum(_))) => Some(i.clone()),
            _ => None,
        }).collect();
        for i in &items {
            match i {
                Item::Impl(im) => {
                    let _ = im;
                    self.items(&[i.clone()], module);
                }
                Item::Enum(e) => { self.types.insert(format!("{}::{}", module, e.ident), i.clone()); self.enums.entry(e.ident.to_string()).or_insert_with(|| e.variants.iter().map(|v| v.ident.to_string()).collect()); }
                Item::Struct(s) => { self.types.insert(format!("{}::{}", module, s.ident), i.clone()); }
                _ => {}
            }
        }
    }

    fn items(&mut self, items: &[Item], module: &str) {
        for i in items {
            match i {
                Item::Mod(m) => if let Some((_, items)) = &m.content {
                    let path = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                    self.items(items, &path);
                },
                Item::Fn(f) => {
                    self.fns.push(FnLoc {
                        module: module.into(), self_ty: None, self_full: None, trait_: None, trait_full: None,
                        generics: Generics::default(), sig: f.sig.clone(), block: Some((*f.block).clone()), caller: tracks(&f.attrs),
                    });
                    self.nested(&f.block, &format!("{}::{}", module, f.sig.ident));
                }
                Item::Impl(im) => {
                    let st = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                    for it in &im.items {
                        match it {
                            ImplItem::Fn(f) => {
                                self.fns.push(FnLoc {
                                    module: module.into(), self_ty: Some(st.clone()), self_full: Some((*im.self_ty).clone()),
                                    trait_: tr.clone(), trait_full: im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")),
                                    generics: im.generics.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), caller: tracks(&f.attrs),
                                });
                                self.nested(&f.block, &format!("{}::{}::{}", module, st, f.sig.ident));
                            }
                            ImplItem::Const(c) => {
                                self.consts.insert(format!("{}::{}", st, c.ident), (module.into(), c.expr.clone(), c.ty.clone()));
                            }
                            _ => {}
                        }
                    }
                }
                Item::Trait(t) => for it in &t.items {
                    if let TraitItem::Fn(f) = it {
                        self.fns.push(FnLoc {
                            module: module.into(), self_ty: Some(format!("trait {}", t.ident)), self_full: None,
                            trait_: None, trait_full: None,
                            generics: t.generics.clone(), sig: f.sig.clone(), block: f.default.clone(), caller: tracks(&f.attrs),
                        });
                    }
                },
                Item::Enum(e) => {
                    let vs = self.enums.entry(e.ident.to_string()).or_default();
                    for v in &e.variants { let v = v.ident.to_string(); if !vs.contains(&v) { vs.push(v); } }
                    self.types.insert(format!("{}::{}", module, e.ident), i.clone());
                    let k = e.ident.to_string();
                    let k = if self.types.contains_key(&k) { format!("{}::{}", module, k) } else { k };
                    self.types.insert(k, i.clone());
                }
                Item::Struct(s) => {
                    self.types.insert(format!("{}::{}", module, s.ident), i.clone());
                    let k = s.ident.to_string();
                    let k = if self.types.contains_key(&k) { format!("{}::{}", module, k) } else { k };
                    self.types.insert(k, i.clone());
                }
                // derived (or hand-expanded) impls live in `const _: () = { .. }`
                Item::Const(c) if c.ident == "_" => if let Expr::Block(b) = &*c.expr { self.nested(&b.block, module) },
                Item::Const(c) => { self.consts.insert(c.ident.to_string(), (module.into(), (*c.expr).clone(), (*c.ty).clone())); }
                Item::Static(c) => { self.consts.insert(format!("static {}", c.ident), (module.into(), (*c.expr).clone(), (*c.ty).clone())); }
                Item::Use(u) => {
                    let mut out = vec![];
                    flatten_use(&u.tree, &mut vec![], &mut out);
                    let m = self.uses.entry(module.into()).or_default();
                    for (k, p) in out { m.insert(k, p); }
                }
                _ => {}
            }
        }
    }
}
