//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs [--roles SPEC] [--canary]
//!
//! The template is Verus text (interfaces, spec functions, lemmas) with `//@` directives that are
//! replaced by code taken from /repo's current source.  See DESIGN.md, "Extraction".
mod print;
mod xform;

use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Default, Clone)]
pub struct FnSec {
    pub clauses: String,
    pub attrs: String,
    pub head: String,
    pub loops: BTreeMap<usize, String>,
    pub nloops: Option<usize>,
}

#[derive(Default)]
struct Block {
    inject: String,
    assoc: String,
    fns: BTreeMap<String, FnSec>,
}

pub struct Ctx {
    repo: PathBuf,
    tdir: PathBuf,
    files: HashMap<String, (String, syn::File)>,
    pub erase: Vec<(String, String)>,
    pub rename: Vec<(String, String)>,
    /// callees that take the ghost memory, the type of that memory
    pub mem_fns: Vec<String>,
    pub mem_type: String,
    pub rawptr: bool,
    pub slicetype: bool,
    pub forloops: bool,
    pub futures: bool,
    /// modules of std of which the overlay has its own
    pub local_mods: Vec<String>,
    /// unions and their fields, which are reached through functions of the overlay
    pub unions: Vec<(String, Vec<String>)>,
    /// std methods called through a trusted wrapper of the overlay
    pub methods: Vec<(String, String, Option<usize>)>,
    pub index: bool,
    /// what `pin_project` makes of a type is written out
    pub pins: bool,
    /// functions with a directive, per file alias
    known: HashMap<String, BTreeSet<String>>,
    out: String,
    pub problems: Vec<String>,
    pub notes: BTreeMap<String, usize>,
    functions: Vec<serde_json::Value>,
    pub roles: HashMap<String, String>,
    pub role_need: BTreeMap<String, Vec<String>>,
    /// where among the names of its function a role's name is
    pub role_at: BTreeMap<String, usize>,
    canary: bool,
    pub inlined: Vec<String>,
    pub suspicious: Vec<String>,
    pub mut_self: bool,
}

impl Ctx {
    /// is `f` a function of the unit that takes the ghost memory?
    fn takes_mem(&self, f: &str) -> bool {
        !self.mem_type.is_empty() && self.mem_fns.iter().any(|m| m == f || m.strip_prefix("Self::") == Some(f))
    }
    fn note(&mut self, s: &str) {
        *self.notes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn problem(&mut self, s: String) {
        self.problems.push(s);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let template = PathBuf::from(&a[1]);
    let mut roles = HashMap::new();
    let mut canary = false;
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--roles" => {
                i += 1;
                for kv in a[i].split(',').filter(|s| !s.is_empty()) {
                    let (k, v) = kv.split_once('=').unwrap();
                    roles.insert(k.to_string(), v.to_string());
                }
            }
            "--canary" => canary = true,
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    let mut cx = Ctx {
        repo: PathBuf::from(&a[2]),
        tdir: template.parent().unwrap().to_path_buf(),
        files: HashMap::new(),
        erase: vec![],
        rename: vec![],
        mem_fns: vec![],
        mem_type: String::new(),
        rawptr: false,
        slicetype: false,
        forloops: false,
        futures: false,
        local_mods: vec![],
        unions: vec![],
        methods: vec![],
        index: false,
        pins: false,
        known: HashMap::new(),
        out: String::new(),
        problems: vec![],
        notes: BTreeMap::new(),
        functions: vec![],
        roles,
        role_need: BTreeMap::new(),
        role_at: BTreeMap::new(),
        canary,
        inlined: vec![],
        suspicious: vec![],
        mut_self: false,
    };
    let lines = load(&template, &cx.tdir.clone());
    prescan(&mut cx, &lines);
    run(&mut cx, &lines);
    std::fs::write(&a[3], &cx.out).unwrap();
    println!(
        "{}",
        json!({
            "problems": cx.problems, "notes": cx.notes, "functions": cx.functions,
            "role_need": cx.role_need, "role_at": cx.role_at, "inlined": cx.inlined, "suspicious": cx.suspicious,
        })
    );
}

fn load(p: &Path, dir: &Path) -> Vec<String> {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            v.extend(load(&dir.join(r.trim()), dir));
        } else {
            v.push(l.to_string());
        }
    }
    v
}

fn prescan(cx: &mut Ctx, lines: &[String]) {
    for l in lines {
        let t = l.trim();
        let w: Vec<&str> = t.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "//@file" => {
                let path = cx.repo.join(w[2]);
                match std::fs::read_to_string(&path) {
                    Ok(s) => match syn::parse_file(&s) {
                        Ok(f) => {
                            cx.files.insert(w[1].into(), (w[2].into(), f));
                        }
                        Err(e) => cx.problem(format!("{}: cannot parse: {e}", w[2])),
                    },
                    Err(e) => cx.problem(format!("{}: {e}", w[2])),
                }
            }
            "//@erase" => {
                let r = t.strip_prefix("//@erase ").unwrap();
                let (k, v) = r.split_once('=').unwrap();
                cx.erase.push((k.trim().into(), v.trim().into()));
            }
            "//@rename" => {
                let r = t.strip_prefix("//@rename ").unwrap();
                let (k, v) = r.split_once('=').unwrap();
                cx.rename.push((k.trim().replace(' ', ""), v.trim().into()));
            }
            "//@method" => {
                // `name/n`: with n arguments only
                let (name, n) = match w[1].split_once('/') {
                    Some((a, n)) => (a, n.parse().ok()),
                    None => (w[1], None),
                };
                cx.methods.push((name.into(), w[2].into(), n));
            }
            "//@index" => cx.index = true,
            "//@mem" => cx.mem_fns.extend(w[1..].iter().map(|x| x.to_string())),
            "//@rawptr" => cx.rawptr = true,
            "//@for" => cx.forloops = true,
            "//@futures" => cx.futures = true,
            "//@pins" => cx.pins = true,
            "//@slicetype" => cx.slicetype = true,
            "//@local" => cx.local_mods.extend(w[1..].iter().map(|x| x.to_string())),
            "//@union" => cx.unions.push((w[1].into(), w[2..].iter().map(|x| x.to_string()).collect())),
            "//@take" if w[2] == "fn" => {
                cx.known.entry(w[1].into()).or_default().insert(w[3].into());
            }
            "//@impl" => {
                // every method of a trait impl is known; of an inherent impl only the listed ones
                let alias = w[1].to_string();
                if let Some(o) = w.iter().find_map(|x| x.strip_prefix("only=")) {
                    for n in o.split(',') {
                        cx.known.entry(alias.clone()).or_default().insert(n.into());
                    }
                }
            }
            "//@known" => {
                for n in &w[2..] {
                    cx.known.entry(w[1].into()).or_default().insert((*n).into());
                }
            }
            _ => {}
        }
    }
}

fn parse_block(lines: &[String], i: &mut usize) -> Block {
    let mut b = Block::default();
    enum S {
        Inject,
        Assoc,
        Clauses(String),
        Attr(String),
        Head(String),
        Loop(String, usize),
    }
    let mut st = S::Inject;
    let mut cur = String::new();
    *i += 1;
    while *i < lines.len() {
        let l = &lines[*i];
        let t = l.trim();
        let w: Vec<&str> = t.split_whitespace().collect();
        if t == "//@end" {
            return b;
        } else if t == "//@inject" {
            st = S::Inject;
        } else if t == "//@assoc" {
            st = S::Assoc;
        } else if t.starts_with("//@fn ") {
            cur = w[1].to_string();
            let e = b.fns.entry(cur.clone()).or_default();
            if let Some(n) = w.iter().find_map(|x| x.strip_prefix("loops=")) {
                e.nloops = Some(n.parse().unwrap());
            }
            st = S::Clauses(cur.clone());
        } else if t == "//@attr" {
            st = S::Attr(cur.clone());
        } else if t == "//@head" {
            st = S::Head(cur.clone());
        } else if t.starts_with("//@loop ") {
            st = S::Loop(cur.clone(), w[1].parse().unwrap());
        } else if t.starts_with("//@") {
            panic!("unexpected directive in block: {t}");
        } else {
            let dst = match &st {
                S::Inject => &mut b.inject,
                S::Assoc => &mut b.assoc,
                S::Clauses(f) => &mut b.fns.get_mut(f).unwrap().clauses,
                S::Attr(f) => &mut b.fns.get_mut(f).unwrap().attrs,
                S::Head(f) => &mut b.fns.get_mut(f).unwrap().head,
                S::Loop(f, n) => b.fns.get_mut(f).unwrap().loops.entry(*n).or_default(),
            };
            dst.push_str(l);
            dst.push('\n');
        }
        *i += 1;
    }
    panic!("missing //@end");
}

fn run(cx: &mut Ctx, lines: &[String]) {
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim().to_string();
        let w: Vec<&str> = t.split_whitespace().collect();
        if !t.starts_with("//@") {
            cx.out.push_str(&l);
            cx.out.push('\n');
            i += 1;
            continue;
        }
        match w[0] {
            "//@file" | "//@erase" | "//@rename" | "//@known" | "//@method" | "//@index" | "//@mem" | "//@rawptr" | "//@slicetype" | "//@for" | "//@futures" | "//@pins" | "//@local" | "//@union" => {}
            "//@memtype" => cx.mem_type = t.strip_prefix("//@memtype").unwrap().trim().to_string(),
            "//@take" => {
                let blk = if w.last() == Some(&"...") {
                    parse_block(lines, &mut i)
                } else {
                    Block::default()
                };
                take(cx, w[1], w[2], w[3], blk);
            }
            "//@impl" => {
                let blk = parse_block(lines, &mut i);
                take_impl(cx, &w[1..], blk);
            }
            "//@trait" => {
                let blk = parse_block(lines, &mut i);
                take_trait(cx, w[1], w[2], w.contains(&"plain"), blk);
            }
            "//@free" => {
                let blk = parse_block(lines, &mut i);
                take_free(cx, w[1], w[2], blk);
            }
            x => panic!("unknown directive {x}"),
        }
        i += 1;
    }
}

fn all_items(f: &syn::File) -> Vec<Item> {
    // top level items without #[cfg(test)] ones
    f.items
        .iter()
        .filter(|i| {
            let attrs: &[Attribute] = match i {
                Item::Mod(m) => &m.attrs,
                Item::Impl(m) => &m.attrs,
                Item::Fn(m) => &m.attrs,
                _ => &[],
            };
            !attrs
                .iter()
                .any(|a| a.path().is_ident("cfg"))
        })
        .cloned()
        .collect()
}

/// what `#[derive(..)]` stands for, as impls (Default, Clone, PartialEq; PartialOrd and Ord of one field)
fn derived(items: &[Item]) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        let (attrs, name, generics) = match it {
            Item::Struct(s) => (&s.attrs, &s.ident, &s.generics),
            Item::Enum(s) => (&s.attrs, &s.ident, &s.generics),
            _ => continue,
        };
        let mut ds: Vec<String> = vec![];
        for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
            let _ = a.parse_nested_meta(|m| {
                ds.push(last_ident(&m.path));
                Ok(())
            });
        }
        let fields: Option<Vec<syn::Member>> = match it {
            Item::Struct(s) => Some(s.fields.members().collect()),
            _ => None,
        };
        let unit: Option<Vec<&syn::Variant>> = match it {
            Item::Enum(s) if s.variants.iter().all(|v| v.fields.is_empty()) => Some(s.variants.iter().collect()),
            _ => None,
        };
        for d in ds {
            let tr = syn::Ident::new(&d, proc_macro2::Span::call_site());
            let body: Option<proc_macro2::TokenStream> = match (d.as_str(), &fields, &unit) {
                ("Default", Some(f), _) => Some(quote::quote!(fn default() -> Self { Self { #(#f: Default::default()),* } })),
                ("Default", _, Some(u)) => u
                    .iter()
                    .find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
                    .map(|v| {
                        let v = &v.ident;
                        quote::quote!(fn default() -> Self { #name::#v })
                    }),
                ("Clone", Some(f), _) => Some(quote::quote!(fn clone(&self) -> Self { Self { #(#f: self.#f.clone()),* } })),
                ("Clone", _, Some(u)) => {
                    let u = u.iter().map(|v| &v.ident);
                    Some(quote::quote!(fn clone(&self) -> Self { match self { #(#name::#u => #name::#u),* } }))
                }
                ("PartialEq", Some(f), _) => Some(quote::quote!(fn eq(&self, other: &Self) -> bool { true #(&& self.#f == other.#f)* })),
                ("PartialEq", _, Some(u)) => {
                    let u = u.iter().map(|v| &v.ident);
                    Some(quote::quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #((#name::#u, #name::#u) => true,)* _ => false } }))
                }
                ("PartialOrd", Some(f), _) if f.len() == 1 => {
                    let f = &f[0];
                    Some(quote::quote!(fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { self.#f.partial_cmp(&other.#f) }))
                }
                ("Ord", Some(f), _) if f.len() == 1 => {
                    let f = &f[0];
                    Some(quote::quote!(fn cmp(&self, other: &Self) -> core::cmp::Ordering { self.#f.cmp(&other.#f) }))
                }
                _ => None,
            };
            let Some(body) = body else { continue };
            let mut g = generics.clone();
            for t in g.type_params_mut() {
                t.default = None;
                t.bounds.push(parse_quote!(#tr));
            }
            let (ig, tg, wc) = g.split_for_impl();
            out.push(parse_quote!(impl #ig #tr for #name #tg #wc { #body }));
        }
    }
    out
}

fn items_of(cx: &mut Ctx, alias: &str) -> Vec<Item> {
    match cx.files.get(alias) {
        Some((_, f)) => {
            let mut v = all_items(f);
            let d = derived(&v);
            v.extend(d);
            v
        }
        None => {
            cx.problem(format!("file {alias} not available"));
            vec![]
        }
    }
}

fn path_of(cx: &Ctx, alias: &str) -> String {
    cx.files.get(alias).map(|f| f.0.clone()).unwrap_or_default()
}

fn take(cx: &mut Ctx, alias: &str, kind: &str, name: &str, blk: Block) {
    let items = items_of(cx, alias);
    for it in items {
        match (kind, it) {
            ("struct", Item::Struct(mut s)) if s.ident == name => {
                let proj = projection(cx, &s.attrs, name);
                s.attrs.clear();
                let tps: Vec<String> = s.generics.type_params().map(|t| t.ident.to_string()).collect();
                for t in &tps {
                    emit(cx, &format!("#[verifier::reject_recursive_types({t})]\n"));
                }
                publish(&mut s.vis);
                for f in s.fields.iter_mut() {
                    publish(&mut f.vis);
                    f.attrs.clear();
                }
                xform::types(cx, |v| syn::visit_mut::VisitMut::visit_item_struct_mut(v, &mut s));
                emit(cx, &blk.inject);
                emit_tokens(cx, s.to_token_stream());
                if let Some(p) = proj {
                    project(cx, &p, &s.ident, &s.generics, None, &s.fields);
                }
                return;
            }
            ("enum", Item::Enum(mut s)) if s.ident == name => {
                let proj = projection(cx, &s.attrs, name);
                s.attrs.clear();
                for t in s.generics.type_params() {
                    emit(cx, &format!("#[verifier::reject_recursive_types({})]\n", t.ident));
                }
                publish(&mut s.vis);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                xform::types(cx, |v| syn::visit_mut::VisitMut::visit_item_enum_mut(v, &mut s));
                emit(cx, &blk.inject);
                emit_tokens(cx, s.to_token_stream());
                if let Some(p) = proj {
                    project(cx, &p, &s.ident, &s.generics, Some(&s), &Fields::Unit);
                }
                return;
            }
            ("type", Item::Type(mut s)) if s.ident == name => {
                s.attrs.clear();
                publish(&mut s.vis);
                xform::types(cx, |v| syn::visit_mut::VisitMut::visit_item_type_mut(v, &mut s));
                emit_tokens(cx, s.to_token_stream());
                return;
            }
            ("fn", Item::Fn(f)) if f.sig.ident == name => {
                let mut f = f;
                f.attrs.clear();
                let mut sec = blk.fns.get(name).cloned().unwrap_or_default();
                sec.attrs.push_str(&blk.inject);
                let id = format!("{}::{}", path_of(cx, alias), name);
                print_fn(cx, alias, &id, "pub ", f.sig, Some(*f.block), sec);
                return;
            }
            _ => {}
        }
    }
    cx.problem(format!("{}: no {kind} {name}", path_of(cx, alias)));
}

/// the name of the projection `pin_project` makes for a type
fn projection(cx: &Ctx, attrs: &[Attribute], name: &str) -> Option<String> {
    if !cx.pins {
        return None;
    }
    let a = attrs.iter().find(|a| a.path().segments.last().is_some_and(|s| s.ident == "pin_project"))?;
    let mut r = format!("{name}Projected");
    let _ = a.parse_nested_meta(|m| {
        if m.path.is_ident("project") {
            let v: syn::Ident = m.value()?.parse()?;
            r = v.to_string();
        }
        Ok(())
    });
    Some(r)
}

/// what `pin_project` makes: a type of references to the fields, and `project`
fn project(cx: &mut Ctx, proj: &str, name: &syn::Ident, generics: &Generics, variants: Option<&ItemEnum>, fields: &Fields) {
    cx.note("the projection of `pin_project` written out; a pinned reference is a `&mut`");
    let mut g = generics.clone();
    g.params.insert(0, parse_quote!('vx_p));
    let (ig, tg, wc) = generics.split_for_impl();
    let (_, ptg, _) = g.split_for_impl();
    let tps: Vec<String> = generics.type_params().map(|t| format!("#[verifier::reject_recursive_types({})]", t.ident)).collect();
    let flat = |t: proc_macro2::TokenStream| print::flat(t);
    let params = flat(g.params.to_token_stream());
    let (ig, tg, ptg, wc) = (flat(ig.to_token_stream()), flat(tg.to_token_stream()), flat(ptg.to_token_stream()), flat(wc.to_token_stream()));
    let mut o = String::new();
    let (mut body, mut ens) = (String::new(), String::new());
    if let Some(e) = variants {
        let mut vs = String::new();
        for v in &e.variants {
            let n = &v.ident;
            match &v.fields {
                Fields::Unit => {
                    vs.push_str(&format!("{n}, "));
                    body.push_str(&format!("{name}::{n} => {proj}::{n}, "));
                    ens.push_str(&format!("*old(self) matches {name}::{n} ==> r matches {proj}::{n} && *final(self) == *old(self),\n"));
                }
                Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                    let t = flat(f.unnamed[0].ty.to_token_stream());
                    vs.push_str(&format!("{n}(&'vx_p mut {t}), "));
                    body.push_str(&format!("{name}::{n}(x) => {proj}::{n}(x), "));
                    ens.push_str(&format!("*old(self) matches {name}::{n}(x) ==> (r matches {proj}::{n}(y) && *y == x && *final(self) == {name}::{n}(*final(y))),\n"));
                }
                _ => {
                    cx.problem(format!("projection of {name}::{n}"));
                    return;
                }
            }
        }
        o.push_str(&format!("{}\npub enum {proj}<{params}> {wc} {{ {vs} }}\n", tps.join(" ")));
        body = format!("match self {{ {body} }}");
    } else {
        let mut fs = String::new();
        for f in fields.iter() {
            let Some(n) = &f.ident else {
                cx.problem(format!("projection of {name}"));
                return;
            };
            fs.push_str(&format!("pub {n}: &'vx_p mut {}, ", flat(f.ty.to_token_stream())));
            body.push_str(&format!("{n}: &mut self.{n}, "));
            ens.push_str(&format!("*r.{n} == old(self).{n}, *final(r.{n}) == final(self).{n},\n"));
        }
        o.push_str(&format!("{}\npub struct {proj}<{params}> {wc} {{ {fs} }}\n", tps.join(" ")));
        body = format!("{proj} {{ {body} }}");
    }
    o.push_str(&format!("impl {ig} {name} {tg} {wc} {{\npub fn project<'vx_p>(&'vx_p mut self) -> (r: {proj} {ptg})\nensures {ens}{{ {body} }}\n}}\n"));
    emit(cx, &o);
}

fn publish(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn last_ident(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last_ident(&p.path),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Slice(s) => format!("[{}]", type_name(&s.elem)),
        Type::Array(s) => format!("[{};N]", type_name(&s.elem)),
        Type::Paren(p) => type_name(&p.elem),
        Type::Group(p) => type_name(&p.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn take_impl(cx: &mut Ctx, w: &[&str], blk: Block) {
    let (alias, tr, ty) = (w[0], w[1], w[2]);
    let only: Option<Vec<&str>> = w
        .iter()
        .find_map(|x| x.strip_prefix("only="))
        .map(|s| s.split(',').collect());
    let skip: Vec<&str> = w
        .iter()
        .find_map(|x| x.strip_prefix("skip="))
        .map(|s| s.split(',').collect())
        .unwrap_or_default();
    let items = items_of(cx, alias);
    let mut found: BTreeSet<String> = BTreeSet::new();
    let mut any = false;
    for it in items {
        let Item::Impl(mut im) = it else { continue };
        let tname = im
            .trait_
            .as_ref()
            .map(|t| last_ident(&t.1))
            .unwrap_or("-".into());
        if tname != tr || type_name(&im.self_ty) != ty {
            continue;
        }
        if let Some(x) = w.iter().find_map(|x| x.strip_prefix("arg=")) {
            // distinguish impls of one trait by a generic argument
            let s = im.trait_.as_ref().unwrap().1.to_token_stream().to_string().replace(' ', "");
            if !s.contains(x) {
                continue;
            }
        }
        if let Some(o) = &only {
            let has = im.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if o.contains(&f.sig.ident.to_string().as_str())));
            if !has {
                continue;
            }
        }
        im.attrs.clear();
        let mut body = std::mem::take(&mut im.items);
        let local = w.iter().find_map(|x| x.strip_prefix("as="));
        let inherent = w.contains(&"inherent") || local.is_some();
        if inherent {
            // an impl of a trait with a generic associated type (unsupported by Verus) becomes an
            // inherent impl; its associated types are written out
            for other in items_of(cx, alias) {
                let Item::Impl(o) = other else { continue };
                if o.trait_.is_some() && type_name(&o.self_ty) == ty {
                    for x in o.items {
                        if let ImplItem::Type(t) = x {
                            let dup = body.iter().any(|b| matches!(b, ImplItem::Type(u) if u.ident == t.ident));
                            if !dup {
                                body.push(ImplItem::Type(t));
                            }
                        }
                    }
                }
            }
            // a method the trait provides and the impl does not override: given=ALIAS:TRAIT:METHOD
            if let Some([al, t, m]) = w.iter().find_map(|x| x.strip_prefix("given=")).and_then(|x| <[&str; 3]>::try_from(x.split(':').collect::<Vec<_>>()).ok()) {
                for other in items_of(cx, al) {
                    let Item::Trait(o) = other else { continue };
                    if o.ident != t {
                        continue;
                    }
                    for x in o.items {
                        let TraitItem::Fn(f) = x else { continue };
                        let Some(d) = f.default else { continue };
                        let own = body.iter().any(|b| matches!(b, ImplItem::Fn(u) if u.sig.ident == f.sig.ident));
                        if !own && f.sig.ident == m {
                            body.push(ImplItem::Fn(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: f.sig, block: d }));
                        }
                    }
                }
            }
            xform::resolve_assoc(&mut body);
            body.retain(|x| matches!(x, ImplItem::Fn(_)));
            if let Some(l) = local {
                // .. or, for a type of another crate, an impl of a trait of the overlay without them
                im.trait_.as_mut().unwrap().1 = syn::parse_str(l).unwrap();
                cx.note("trait impl with a generic associated type extracted as impl of the overlay's trait without it");
            } else {
                im.trait_ = None;
                xform::move_unconstrained(&mut im.generics, &im.self_ty, &mut body);
                cx.note("trait impl with a generic associated type extracted as inherent impl");
            }
        }
        xform::types(cx, |v| syn::visit_mut::VisitMut::visit_item_impl_mut(v, &mut im));
        let (ig, _, wc) = im.generics.split_for_impl();
        let mut head = String::from("impl ");
        head.push_str(&print::flat(ig.to_token_stream()));
        head.push(' ');
        if let Some((_, p, _)) = &im.trait_ {
            head.push_str(&print::flat(p.to_token_stream()));
            head.push_str(" for ");
        }
        head.push_str(&print::flat(im.self_ty.to_token_stream()));
        head.push(' ');
        head.push_str(&print::flat(wc.to_token_stream()));
        head.push_str(" {\n");
        emit(cx, &head);
        if !any {
            emit(cx, &blk.inject);
        }
        any = true;
        for x in body {
            match x {
                ImplItem::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    if let Some(o) = &only {
                        if !o.contains(&n.as_str()) {
                            continue;
                        }
                    }
                    if skip.contains(&n.as_str()) {
                        continue;
                    }
                    // a function that is no part of the unit, its calls inlined
                    if only.is_none() && im.trait_.is_none() && !inherent && n != "new" && !blk.fns.contains_key(&n) && !cx.known.get(alias).is_some_and(|k| k.contains(&n)) {
                        cx.note("function without contract left out");
                        continue;
                    }
                    found.insert(n.clone());
                    let sec = blk.fns.get(&n).cloned().unwrap_or_default();
                    let id = format!("{}::<{} for {}>::{}", path_of(cx, alias), tr, ty, n);
                    let vis = if im.trait_.is_none() { "pub " } else { "" };
                    print_fn(cx, alias, &id, vis, f.sig, Some(f.block), sec);
                }
                ImplItem::Type(mut t) => {
                    t.attrs.clear();
                    let n = t.ident.to_string();
                    if cx.erase.iter().any(|e| e.0 == n) {
                        cx.note(&format!("associated future type `{n}` erased to its output"));
                        continue;
                    }
                    xform::types(cx, |v| syn::visit_mut::VisitMut::visit_impl_item_type_mut(v, &mut t));
                    emit_tokens(cx, t.to_token_stream());
                }
                ImplItem::Const(mut c) => {
                    c.attrs.clear();
                    xform::types(cx, |v| syn::visit_mut::VisitMut::visit_impl_item_const_mut(v, &mut c));
                    emit_tokens(cx, c.to_token_stream());
                }
                _ => cx.problem(format!("unsupported impl item in {tr} for {ty}")),
            }
        }
        emit(cx, "}\n");
    }
    if !any {
        cx.problem(format!("{}: no impl {tr} for {ty}", path_of(cx, alias)));
    }
    for n in blk.fns.keys() {
        if any && !found.contains(n) {
            cx.problem(format!("{}: no method {n} in impl {tr} for {ty}", path_of(cx, alias)));
        }
    }
}

fn take_trait(cx: &mut Ctx, alias: &str, name: &str, plain: bool, blk: Block) {
    let items = items_of(cx, alias);
    for it in items {
        let Item::Trait(mut tr) = it else { continue };
        if tr.ident != name {
            continue;
        }
        tr.attrs.clear();
        if plain {
            // Verus does not accept traits whose bounds refer to each other
            tr.generics.type_params_mut().for_each(|p| p.bounds.clear());
            cx.note(&format!("bounds of the type parameters of `{name}` dropped"));
        }
        let body = std::mem::take(&mut tr.items);
        xform::types(cx, |v| syn::visit_mut::VisitMut::visit_item_trait_mut(v, &mut tr));
        let mut head = format!("pub trait {}", name);
        let (ig, _, wc) = tr.generics.split_for_impl();
        head.push_str(&print::flat(ig.to_token_stream()));
        if !tr.supertraits.is_empty() {
            head.push_str(": ");
            head.push_str(&print::flat(tr.supertraits.to_token_stream()));
        }
        head.push(' ');
        head.push_str(&print::flat(wc.to_token_stream()));
        head.push_str(" {\n");
        emit(cx, &head);
        let mut assoc = blk.assoc.clone();
        for x in body {
            match x {
                TraitItem::Fn(mut f) => {
                    let n = f.sig.ident.to_string();
                    let sec = blk.fns.get(&n).cloned().unwrap_or_default();
                    let id = format!("{}::trait {}::{}", path_of(cx, alias), name, n);
                    f.attrs.clear();
                    let d = f.default.take();
                    if d.is_some() && !blk.fns.contains_key(&n) {
                        // provided method without a contract: not part of the verified interface
                        cx.note(&format!("provided trait method `{name}::{n}` without contract dropped"));
                        continue;
                    }
                    if d.is_some() && sec.head.contains("nodefault") {
                        cx.note(&format!("body of provided trait method `{name}::{n}` not verified"));
                        let mut s2 = sec.clone();
                        s2.head.clear();
                        print_fn(cx, alias, &id, "", f.sig, None, s2);
                        continue;
                    }
                    print_fn(cx, alias, &id, "", f.sig, d, sec);
                }
                TraitItem::Type(mut t) => {
                    t.attrs.clear();
                    let n = t.ident.to_string();
                    if cx.erase.iter().any(|e| e.0 == n) {
                        cx.note(&format!("associated future type `{n}` erased to its output"));
                        continue;
                    }
                    // template may replace the declaration of an associated type (added bounds)
                    let mut keep = String::new();
                    let mut replaced = false;
                    for l in assoc.lines() {
                        let u = l.trim();
                        if u.starts_with(&format!("type {n}:")) || u.starts_with(&format!("type {n}<")) || u.starts_with(&format!("type {n};")) || u.starts_with(&format!("type {n} ")) {
                            emit(cx, &format!("{u}\n"));
                            replaced = true;
                            cx.note(&format!("bounds of associated type `{name}::{n}` replaced by the interface's"));
                        } else {
                            keep.push_str(l);
                            keep.push('\n');
                        }
                    }
                    assoc = keep;
                    if !replaced {
                        xform::types(cx, |v| syn::visit_mut::VisitMut::visit_trait_item_type_mut(v, &mut t));
                        emit_tokens(cx, t.to_token_stream());
                    }
                }
                _ => cx.problem(format!("unsupported trait item in {name}")),
            }
        }
        emit(cx, &assoc);
        emit(cx, &blk.inject);
        emit(cx, "}\n");
        return;
    }
    cx.problem(format!("{}: no trait {name}", path_of(cx, alias)));
}

/// `Self` and `self` of a method that becomes a free function
fn unself(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    t.into_iter()
        .map(|x| match x {
            proc_macro2::TokenTree::Ident(i) if i == "Self" => proc_macro2::Ident::new("VxSelf", i.span()).into(),
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::Ident::new("vx_self", i.span()).into(),
            proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), unself(g.stream())).into(),
            x => x,
        })
        .collect()
}

/// `//@free ALIAS TRAIT`: provided methods as functions over every type with the trait
fn take_free(cx: &mut Ctx, alias: &str, name: &str, blk: Block) {
    for n in blk.fns.keys().cloned().collect::<Vec<_>>() {
        let mut hit = None;
        for it in items_of(cx, alias) {
            let Item::Trait(tr) = it else { continue };
            if tr.ident != name {
                continue;
            }
            for x in tr.items {
                if let TraitItem::Fn(f) = x {
                    if f.sig.ident == n && f.default.is_some() {
                        hit = Some(f);
                    }
                }
            }
        }
        let Some(mut f) = hit else {
            cx.problem(format!("{}: no provided method {n} in trait {name}", path_of(cx, alias)));
            continue;
        };
        f.attrs.clear();
        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first().cloned() {
            let ty = r.ty.clone();
            let m = (r.reference.is_none() && r.mutability.is_some()).then(|| quote::quote!(mut));
            f.sig.inputs[0] = syn::parse_quote!(#m vx_self: #ty);
        }
        let tr: syn::Ident = syn::parse_str(name).unwrap();
        f.sig.generics.params.push(syn::parse_quote!(VxSelf: ?Sized + #tr));
        let sig: Signature = syn::parse2(unself(f.sig.to_token_stream())).unwrap();
        let body: syn::Block = syn::parse2(unself(f.default.unwrap().to_token_stream())).unwrap();
        cx.note(&format!("provided method `{name}::{n}` extracted as a function over every type with the trait"));
        let sec = blk.fns.get(&n).cloned().unwrap_or_default();
        let id = format!("{}::trait {}::{}", path_of(cx, alias), name, n);
        print_fn(cx, alias, &id, "pub ", sig, Some(body), sec);
    }
}

fn emit(cx: &mut Ctx, s: &str) {
    cx.out.push_str(s);
    if !s.is_empty() && !s.ends_with('\n') {
        cx.out.push('\n');
    }
}

fn emit_tokens(cx: &mut Ctx, t: proc_macro2::TokenStream) {
    let s = print::pretty(t, &BTreeMap::new());
    emit(cx, &s);
}

fn print_fn(cx: &mut Ctx, alias: &str, id: &str, vis: &str, mut sig: Signature, block: Option<syn::Block>, sec: FnSec) {
    let src = block
        .as_ref()
        .map(|b| format!("{}{}", sig.to_token_stream(), b.to_token_stream()))
        .unwrap_or_else(|| sig.to_token_stream().to_string());
    let _ = src;
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(p) => Some(match &*p.pat {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Wild(_) => "_".into(),
                _ => "_pat".into(),
            }),
            _ => None,
        })
        .collect();
    // helpers that can be inlined: functions of the same file without a directive
    let mut helpers: HashMap<String, xform::Helper> = HashMap::new();
    let known = cx.known.get(alias).cloned().unwrap_or_default();
    for it in items_of(cx, alias) {
        match it {
            Item::Fn(f) if !known.contains(&f.sig.ident.to_string()) => {
                helpers.insert(f.sig.ident.to_string(), xform::Helper { sig: f.sig.clone(), block: (*f.block).clone(), of: None });
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let of = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    _ => String::new(),
                };
                for x in im.items {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        // (of several with one name, the one of the type at hand)
                        if !known.contains(&n) && n != sig.ident.to_string() && n != "new" && (id.contains(&format!(" for {of}>::")) || !helpers.contains_key(&n)) {
                            helpers.insert(n, xform::Helper { sig: f.sig.clone(), block: f.block.clone(), of: Some(of.clone()) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut block = block;
    let mut pre = String::new();
    cx.mut_self = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none());
    xform::signature(cx, &mut sig, &mut pre);
    let mut loops_found = 0;
    let kinds = block.as_ref().map(xform::loop_kinds).unwrap_or_default();
    if let Some(b) = block.as_mut() {
        xform::body(cx, id, b, &helpers, &mut loops_found, &params);
    }
    if block.is_some() {
        let want = sec.nloops.unwrap_or(sec.loops.len());
        if loops_found != want {
            cx.suspicious.push(format!("{id}: {loops_found} loops, the contract was written for {want}"));
        }
    }
    let scopes = block.as_ref().map(xform::loop_scopes).unwrap_or_default();
    let subst = |cx: &mut Ctx, s: &str, at: Option<usize>| -> String {
        let mut o = String::new();
        let ch: Vec<char> = s.chars().collect();
        let mut k = 0;
        while k < ch.len() {
            if ch[k] == '$' && k + 1 < ch.len() && ch[k + 1].is_ascii_digit() {
                let n = ch[k + 1].to_digit(10).unwrap() as usize;
                o.push_str(params.get(n).map(|s| s.as_str()).unwrap_or("vx_missing_param"));
                k += 2;
            } else if ch[k] == '$' && k + 1 < ch.len() && (ch[k + 1].is_ascii_alphabetic()) {
                let mut e = k + 1;
                while e < ch.len() && (ch[e].is_ascii_alphanumeric() || ch[e] == '_') {
                    e += 1;
                }
                let name: String = ch[k + 1..e].iter().collect();
                let key = format!("{id}#{name}");
                let locals = block.as_ref().map(xform::locals).unwrap_or_default();
                let mut all = params.clone();
                all.extend(locals);
                // (a loop's invariant can only speak of what is in scope there)
                if let Some(sc) = at.and_then(|k| scopes.get(&k)) {
                    let here: Vec<String> = all.iter().filter(|x| params.contains(x) || sc.contains(x)).cloned().collect();
                    if !here.is_empty() {
                        all = here;
                    }
                }
                let v = if let Some(v) = cx.roles.get(&key) {
                    v.clone()
                } else if let Some(n) = all.iter().position(|x| *x == name) {
                    cx.role_at.insert(key, n);
                    name.clone()
                } else {
                    cx.role_need.insert(key, all);
                    name.clone()
                };
                o.push_str(&v);
                k = e;
            } else {
                o.push(ch[k]);
                k += 1;
            }
        }
        o
    };
    let clauses = subst(cx, &sec.clauses, None);
    let mut attrs = subst(cx, &sec.attrs, None);
    let head = subst(cx, &sec.head, None);
    let mut loops = BTreeMap::new();
    for (k, v) in &sec.loops {
        let t = subst(cx, v, Some(*k));
        loops.insert(*k, t);
    }
    if let Some(b) = &block {
        for d in xform::unspoken(b, &mut loops) {
            cx.suspicious.push(format!("{id}: {d}"));
        }
        if loops.values().any(|t| t.contains("invariant_except_break")) && !attrs.contains("allow_complex_invariants") {
            attrs.push_str(" #[verifier::allow_complex_invariants]");
        }
    }
    let line = |cx: &Ctx| cx.out.matches('\n').count() + 1;
    let begin = line(cx);
    emit(cx, &format!("//@@begin {id}\n"));
    emit(cx, &attrs);
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            if matches!(&**t, Type::Never(_)) {
                " -> !".to_string()
            } else {
                format!(" -> (res: {})", print::flat(t.to_token_stream()))
            }
        }
    };
    let (ig, _, wc) = sig.generics.split_for_impl();
    let ig = print::flat(ig.to_token_stream());
    let wc = print::flat(wc.to_token_stream());
    let unsafety = if sig.unsafety.is_some() && cx.mem_type.is_empty() { "unsafe " } else { "" };
    let mut inputs = print::flat(sig.inputs.to_token_stream());
    if cx.takes_mem(&sig.ident.to_string()) {
        let c = if inputs.trim().is_empty() || inputs.trim().ends_with(',') { "" } else { ", " };
        inputs = format!("{inputs}{c}Tracked(vx_mem): Tracked<&mut {}>", cx.mem_type);
        cx.note("ghost memory passed along");
    }
    emit(cx, &format!("{vis}{unsafety}fn {}{ig}({inputs}){ret} {wc}\n", sig.ident));
    emit(cx, &clauses);
    if let Some(b) = &block {
        // where the contract says what calls may be refused, what panics refuses the call
        let refusing = head.contains("let ghost vx_refusal");
        let mut b = b.clone();
        if refusing {
            xform::refuse_unwraps(&mut b);
        }
        let mut body = print::pretty_block(&b, &loops);
        if refusing {
            body = body
                .replace("vx_assert(", "vx_refuse_unless(Ghost(vx_refusal), ")
                .replace("vx_panic()", "vx_refuse(Ghost(vx_refusal))")
                .replace("vx_unreachable()", "vx_refuse(Ghost(vx_refusal))");
        }
        // (a debug assertion refuses nothing in release builds)
        let body = body.replace("vx_debug(", if head.contains("let ghost vx_refusal = true") { "vx_refuse_unless(Ghost(true), " } else { "vx_assert(" });
        emit(cx, "{\n");
        emit(cx, &pre);
        if cx.canary {
            emit(cx, "//@@canary\nassert(false);\n");
        }
        emit(cx, &head);
        emit(cx, &body);
        emit(cx, "}\n");
    } else {
        emit(cx, ";\n");
    }
    let end = line(cx);
    emit(cx, &format!("//@@end {id}\n"));
    cx.functions.push(json!({"id": id, "begin": begin, "end": end, "body": block.is_some(), "loops": loops_found, "kinds": kinds}));
}
