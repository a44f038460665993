//! The transformations applied to extracted code; every one is counted in the report.
use crate::Ctx;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct V<'a> {
    cx: &'a mut Ctx,
}

pub fn types(cx: &mut Ctx, f: impl FnOnce(&mut V)) {
    let mut v = V { cx };
    f(&mut v);
}

fn path_string(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn future_output(b: &Path) -> Option<Type> {
    let l = b.segments.last()?;
    if l.ident != "Future" && l.ident != "IntoFuture" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    a.args.iter().find_map(|x| match x {
        GenericArgument::AssocType(t) if t.ident == "Output" => Some(t.ty.clone()),
        _ => None,
    })
}

impl V<'_> {
    fn erased(&mut self, t: &Type) -> Option<Type> {
        match t {
            Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        if let Some(o) = future_output(&tb.path) {
                            self.cx.note("`impl Future<Output = T>` replaced by T");
                            return Some(o);
                        }
                    }
                }
                None
            }
            Type::Path(p) if p.path.segments.last().map_or(false, |l| l.ident == "PhantomData" && l.arguments.to_token_stream().to_string().starts_with("< fn")) => {
                let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments else { return None };
                let GenericArgument::Type(Type::BareFn(f)) = a.args.first()? else { return None };
                let mut ts: Vec<Type> = f.inputs.iter().map(|i| i.ty.clone()).collect();
                if let ReturnType::Type(_, t) = &f.output {
                    ts.push((**t).clone());
                }
                self.cx.note("`PhantomData` of a function type made one of the types it mentions");
                Some(parse_quote!(PhantomData<(#(#ts,)*)>))
            }
            Type::Slice(p) if self.cx.slicetype => {
                let e = &p.elem;
                self.cx.note("slice type `[T]` replaced by the overlay's `Slice<T>`");
                Some(parse_quote!(Slice<#e>))
            }
            Type::Reference(r) if self.cx.rawptr && r.mutability.is_some() => {
                let Type::Slice(sl) = &*r.elem else { return None };
                let Type::Path(p) = &*sl.elem else { return None };
                let l = p.path.segments.last()?;
                let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
                if l.ident != "MaybeUninit" {
                    return None;
                }
                let e = a.args.first()?;
                self.cx.note("`&mut [MaybeUninit<T>]` replaced by the overlay's `Spare<T>`");
                Some(parse_quote!(Spare<#e>))
            }
            Type::Ptr(p) if self.cx.rawptr => {
                let e = &p.elem;
                self.cx.note("raw pointer type replaced by the overlay's `Ptr`");
                Some(parse_quote!(Ptr<#e>))
            }
            Type::Path(p) => {
                let last = p.path.segments.last().unwrap();
                if last.ident == "Ready" && !self.cx.futures {
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            self.cx.note("`Ready<T>` replaced by T");
                            return Some(t.clone());
                        }
                    }
                }
                let (_, repl) = self.cx.erase.iter().find(|e| last.ident == e.0)?.clone();
                let mut prefix: Option<String> = None;
                if let Some(q) = &p.qself {
                    prefix = Some(q.ty.to_token_stream().to_string());
                } else if p.path.segments.len() == 2 {
                    let a = &p.path.segments[0];
                    if a.ident.to_string().chars().next().unwrap().is_uppercase() {
                        prefix = Some(a.to_token_stream().to_string());
                    }
                }
                let prefix = prefix?;
                let mut args = vec![];
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    for x in &a.args {
                        args.push(x.to_token_stream().to_string().replace("' ", "'"));
                    }
                }
                let mut r = repl;
                for (i, a) in args.iter().enumerate() {
                    r = r.replace(&format!("${i}"), a);
                }
                let mut t: Type = parse_str(&r).unwrap_or_else(|e| panic!("erase replacement {r}: {e}"));
                struct S(Type);
                impl VisitMut for S {
                    fn visit_type_mut(&mut self, t: &mut Type) {
                        if let Type::Path(p) = t {
                            if p.qself.is_none() && p.path.segments.len() >= 1 && p.path.segments[0].ident == "Self" {
                                if p.path.segments.len() == 1 {
                                    *t = self.0.clone();
                                    return;
                                }
                                if let Type::Path(b) = &self.0 {
                                    if b.qself.is_none() {
                                        let mut np = b.path.clone();
                                        for s in p.path.segments.iter().skip(1) {
                                            np.segments.push(s.clone());
                                        }
                                        p.path = np;
                                    }
                                }
                            }
                        }
                        visit_mut::visit_type_mut(self, t);
                    }
                }
                let pre: Type = parse_str(&prefix).unwrap();
                if pre.to_token_stream().to_string() != "Self" {
                    S(pre).visit_type_mut(&mut t);
                }
                self.cx.note(&format!("future type `_::{}` replaced by its output", last.ident));
                Some(t)
            }
            _ => None,
        }
    }
}

impl VisitMut for V<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        while let Some(n) = self.erased(t) {
            *t = n;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // paths into the crates of /repo: everything lives in one file here
        if p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if f == "crate" || f == "super" || f == "self" || f.starts_with("parcom_") {
                let k = p
                    .segments
                    .iter()
                    .position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()))
                    .unwrap_or(p.segments.len() - 1);
                let keep: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
                p.segments = keep.into_iter().collect();
                p.leading_colon = None;
            }
        }
        if p.segments.len() > 2 && (p.segments[0].ident == "std" || p.segments[0].ident == "core") && self.cx.local_mods.iter().any(|m| p.segments[1].ident == m) {
            p.segments = p.segments.iter().skip(1).cloned().collect();
            self.cx.note("path of std taken to the overlay's module");
        }
        let s = path_string(p);
        if let Some((_, to)) = self.cx.rename.iter().find(|e| e.0 == s).cloned() {
            let np: Path = parse_str(&to).unwrap();
            let args = p.segments.last().unwrap().arguments.clone();
            *p = np;
            if p.segments.last().unwrap().arguments.is_none() {
                p.segments.last_mut().unwrap().arguments = args;
            }
        } else if p.segments.len() > 1 {
            // a renamed type used as a path prefix: `From::from`
            let first = p.segments[0].ident.to_string();
            if let Some((_, to)) = self.cx.rename.iter().find(|e| e.0 == first).cloned() {
                if let Ok(np) = parse_str::<Path>(&to) {
                    if np.segments.len() == 1 {
                        p.segments[0].ident = np.segments[0].ident.clone();
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

pub fn signature(cx: &mut Ctx, sig: &mut Signature, pre: &mut String) {
    if sig.asyncness.is_some() {
        sig.asyncness = None;
        cx.note("`async fn` made synchronous");
    }
    let mut k = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Typed(p) => {
                p.attrs.clear();
                match &mut *p.pat {
                    Pat::Ident(i) => {
                        if i.mutability.is_some() {
                            i.mutability = None;
                            pre.push_str(&format!("let mut {} = {};\n", i.ident, i.ident));
                            cx.note("`mut` parameter rebound in the body");
                        }
                    }
                    Pat::Wild(_) => {
                        let id = format_ident!("vx_unused{k}");
                        *p.pat = parse_quote!(#id);
                    }
                    other => {
                        let id = format_ident!("vx_param{k}");
                        let o = other.clone();
                        pre.push_str(&format!("let {} = {};\n", crate::print::flat(o.to_token_stream()), id));
                        *p.pat = parse_quote!(#id);
                        cx.note("pattern parameter destructured in the body");
                    }
                }
                k += 1;
            }
            FnArg::Receiver(r) if cx.futures && r.colon_token.is_some() && r.ty.to_token_stream().to_string().replace(' ', "").ends_with("Pin<&mutSelf>") => {
                cx.note("receiver `self: Pin<&mut Self>` made `&mut self`");
                *a = parse_quote!(&mut self);
            }
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
                    r.mutability = None;
                    pre.push_str("let mut vx_self = self;\n");
                    cx.note("`mut self` rebound in the body");
                }
            }
        }
    }
    let mut v = V { cx };
    v.visit_signature_mut(sig);
}

/// the loops of a body, in source order
pub fn loop_kinds(b: &Block) -> Vec<&'static str> {
    struct K(Vec<&'static str>);
    impl<'a> Visit<'a> for K {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Loop(_) => self.0.push("loop"),
                Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => self.0.push("while let"),
                Expr::While(_) => self.0.push("while"),
                Expr::ForLoop(_) => self.0.push("for"),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut k = K(vec![]);
    k.visit_block(b);
    k.0
}

pub fn locals(b: &Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if !self.0.contains(&n) {
                self.0.push(n);
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut l = L(vec![]);
    l.visit_block(b);
    l.0
}

fn uses_mut_self(b: &Block) -> bool {
    b.to_token_stream().to_string().contains("vx_self")
}

/// a function of the file without a contract
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    /// the type it belongs to
    pub of: Option<String>,
}
impl Helper {
    fn method(&self) -> bool {
        matches!(self.sig.inputs.first(), Some(FnArg::Receiver(_)))
    }
    /// whether `p` is a path to it
    fn named(&self, p: &Path) -> bool {
        let s = &p.segments;
        match &self.of {
            None => s.len() == 1 || s.len() == 2 && (s[0].ident == "self" || s[0].ident == "Self"),
            Some(t) => s.len() == 2 && (s[0].ident == "Self" || s[0].ident == *t),
        }
    }
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return_block(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn has_return_expr(b: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(b);
    h.0
}

struct Body<'a> {
    cx: &'a mut Ctx,
    id: String,
    loops: usize,
    fresh: usize,
    lets: HashMap<String, Expr>,
}

fn closure_body(c: &ExprClosure) -> Expr {
    (*c.body).clone()
}

/// without `.field`
fn unfield(s: &str) -> String {
    let mut out = String::new();
    let mut ch = s.chars().peekable();
    while let Some(c) = ch.next() {
        if c == '.' && ch.peek() != Some(&'.') && !out.ends_with('.') {
            while ch.next_if(|c| c.is_whitespace()).is_some() {}
            while ch.next_if(|c| c.is_alphanumeric() || *c == '_').is_some() {}
            out.push(' ');
        } else {
            out.push(c);
        }
    }
    out
}

/// the local variables that are in scope at each loop
pub fn loop_scopes(b: &Block) -> std::collections::BTreeMap<usize, Vec<String>> {
    #[derive(Default)]
    struct S {
        scope: Vec<String>,
        at: std::collections::BTreeMap<usize, Vec<String>>,
    }
    impl S {
        fn bind(&mut self, p: &Pat) {
            struct P<'b>(&'b mut Vec<String>);
            impl<'a> Visit<'a> for P<'_> {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    self.0.push(p.ident.to_string());
                    visit::visit_pat_ident(self, p);
                }
            }
            P(&mut self.scope).visit_pat(p);
        }
    }
    impl<'a> Visit<'a> for S {
        fn visit_block(&mut self, b: &'a Block) {
            let n = self.scope.len();
            for s in &b.stmts {
                let mac = match s {
                    Stmt::Macro(m) => Some(&m.mac),
                    Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
                    _ => None,
                };
                match (mac, s) {
                    (Some(m), _) if m.path.is_ident("__vx_loop") => {
                        if let Ok(k) = m.tokens.to_string().trim().parse() {
                            self.at.insert(k, self.scope.clone());
                        }
                    }
                    (_, Stmt::Local(l)) => {
                        visit::visit_local(self, l);
                        self.bind(&l.pat);
                    }
                    _ => visit::visit_stmt(self, s),
                }
            }
            self.scope.truncate(n);
        }
        fn visit_arm(&mut self, a: &'a Arm) {
            let n = self.scope.len();
            self.bind(&a.pat);
            visit::visit_arm(self, a);
            self.scope.truncate(n);
        }
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            let n = self.scope.len();
            c.inputs.iter().for_each(|p| self.bind(p));
            visit::visit_expr_closure(self, c);
            self.scope.truncate(n);
        }
        fn visit_expr_let(&mut self, l: &'a ExprLet) {
            visit::visit_expr_let(self, l);
            self.bind(&l.pat);
        }
        fn visit_expr_if(&mut self, i: &'a ExprIf) {
            let n = self.scope.len();
            self.visit_expr(&i.cond);
            self.visit_block(&i.then_branch);
            self.scope.truncate(n);
            if let Some((_, e)) = &i.else_branch {
                self.visit_expr(e);
            }
        }
        fn visit_expr_while(&mut self, w: &'a ExprWhile) {
            let n = self.scope.len();
            visit::visit_expr_while(self, w);
            self.scope.truncate(n);
        }
        fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
            let n = self.scope.len();
            self.visit_expr(&f.expr);
            self.bind(&f.pat);
            self.visit_block(&f.body);
            self.scope.truncate(n);
        }
    }
    let mut s = S::default();
    s.visit_block(b);
    s.at
}

/// variables that loops use and their invariants do not mention; of those that start as `None`, `true` or `false`, it is
/// tried that they stay so until the loop is left
pub fn unspoken(b: &Block, loops: &mut std::collections::BTreeMap<usize, String>) -> Vec<String> {
    struct U<'a> {
        loops: &'a std::collections::BTreeMap<usize, String>,
        scope: Vec<(String, Option<String>)>,
        start: Option<String>,
        tried: Vec<(usize, bool, String)>,
        out: Vec<String>,
    }
    fn breaks(b: &Block) -> bool {
        struct B(bool);
        impl<'a> Visit<'a> for B {
            fn visit_expr_break(&mut self, _: &'a ExprBreak) {
                self.0 = true;
            }
            fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
            fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
            fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut x = B(false);
        x.visit_block(b);
        x.0
    }
    fn named(p: &Pat) -> Option<String> {
        match p {
            Pat::Ident(p) => Some(p.ident.to_string()),
            Pat::Type(p) => named(&p.pat),
            _ => None,
        }
    }
    impl<'a> Visit<'a> for U<'_> {
        fn visit_block(&mut self, b: &'a Block) {
            let n = self.scope.len();
            let mac = match b.stmts.first() {
                Some(Stmt::Macro(m)) => Some(&m.mac),
                Some(Stmt::Expr(Expr::Macro(m), _)) => Some(&m.mac),
                _ => None,
            };
            if let Some(m) = mac {
                if m.path.is_ident("__vx_loop") {
                    let k: usize = m.tokens.to_string().trim().parse().unwrap_or(usize::MAX);
                    let inv = self.loops.get(&k).cloned().unwrap_or_default();
                    let words = |s: &str| -> Vec<String> { s.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect() };
                    let (said, used) = (words(&unfield(&inv)), words(&unfield(&b.to_token_stream().to_string())));
                    // `vx_also n`: n more variables that the invariant needs not mention
                    let also: usize = said.iter().position(|w| w == "vx_also").and_then(|i| said[i + 1..].iter().find_map(|w| w.parse().ok())).unwrap_or(0);
                    let more: Vec<_> = self.scope.iter().filter(|v| used.contains(&v.0) && !said.contains(&v.0)).collect();
                    if more.len() > also {
                        let names: Vec<&String> = more.iter().map(|v| &v.0).collect();
                        self.out.push(format!("loop {k} uses {names:?}, which its invariant does not mention"));
                        self.tried.extend(more.iter().filter_map(|v| Some((k, breaks(b), v.1.clone()?))));
                    }
                }
            }
            visit::visit_block(self, b);
            self.scope.truncate(n);
        }
        fn visit_local(&mut self, l: &'a Local) {
            self.start = match (&l.init, &l.pat) {
                (Some(LocalInit { expr, diverge: None, .. }), p) => match expr.to_token_stream().to_string().as_str() {
                    "None" => named(p).map(|n| format!("{n}.is_none()")),
                    "true" => named(p),
                    "false" => named(p).map(|n| format!("!{n}")),
                    _ => None,
                },
                _ => None,
            };
            visit::visit_pat(self, &l.pat);
            self.start = None;
            if let Some(i) = &l.init {
                visit::visit_local_init(self, i);
            }
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.mutability.is_some() && p.by_ref.is_none() {
                self.scope.push((p.ident.to_string(), self.start.take()));
            }
        }
    }
    let mut u = U { loops, scope: vec![], start: None, tried: vec![], out: vec![] };
    u.visit_block(b);
    let (out, tried) = (u.out, u.tried);
    for (k, left, c) in tried {
        let t = loops.entry(k).or_default();
        let w = if left { "invariant_except_break " } else { "invariant " };
        *t = match t.trim_start().strip_prefix(w) {
            Some(r) => format!("    {w}{c}, {r}"),
            None => format!("    {w}{c},\n{t}"),
        };
    }
    out
}

/// `let f = |x| ..;`: the closure is written where `f` is used
struct Named {
    n: usize,
}
impl Named {
    fn block(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let named = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(PatIdent { ident, by_ref: None, mutability: None, subpat: None, .. }), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                    Expr::Closure(c) if c.capture.is_none() && !has_return_expr(&c.body) => Some((ident.clone(), (**expr).clone())),
                    Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(char::is_uppercase)) => Some((ident.clone(), (**expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, e)) = named {
                // every use hands it over or calls it, and none of its names means another thing there
                struct Uses(Ident, HashSet<String>, usize, usize, bool);
                impl<'a> Visit<'a> for Uses {
                    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                        self.3 += m.args.iter().filter(|a| matches!(a, Expr::Path(p) if p.path.is_ident(&self.0))).count();
                        visit::visit_expr_method_call(self, m);
                    }
                    fn visit_expr_call(&mut self, c: &'a ExprCall) {
                        self.3 += c.args.iter().chain([&*c.func]).filter(|a| matches!(a, Expr::Path(p) if p.path.is_ident(&self.0))).count();
                        visit::visit_expr_call(self, c);
                    }
                    fn visit_ident(&mut self, i: &'a Ident) {
                        self.2 += (*i == self.0) as usize;
                    }
                    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                        self.4 |= p.ident == self.0 || self.1.contains(&p.ident.to_string());
                        visit::visit_pat_ident(self, p);
                    }
                    fn visit_macro(&mut self, m: &'a Macro) {
                        self.4 |= m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.0 == w);
                    }
                }
                let mut free = HashSet::new();
                struct Free<'a>(&'a mut HashSet<String>);
                impl<'a> Visit<'a> for Free<'_> {
                    fn visit_expr_path(&mut self, p: &'a ExprPath) {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
                let mut bound = HashSet::new();
                if let Expr::Closure(c) = &e {
                    Free(&mut free).visit_expr(&c.body);
                    struct Bound<'a>(&'a mut HashSet<String>);
                    impl<'a> Visit<'a> for Bound<'_> {
                        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                            self.0.insert(p.ident.to_string());
                            visit::visit_pat_ident(self, p);
                        }
                    }
                    c.inputs.iter().for_each(|p| Bound(&mut bound).visit_pat(p));
                }
                let free: HashSet<String> = free.difference(&bound).cloned().collect();
                let mut u = Uses(n.clone(), free, 0, 0, false);
                b.stmts[i + 1..].iter().for_each(|s| u.visit_stmt(s));
                if u.2 > 0 && u.2 == u.3 && !u.4 {
                    struct Put(Ident, Expr);
                    impl VisitMut for Put {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            visit_mut::visit_expr_mut(self, e);
                            if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
                                *e = self.1.clone();
                            }
                        }
                    }
                    b.stmts.remove(i);
                    let mut p = Put(n, e);
                    b.stmts[i..].iter_mut().for_each(|s| p.visit_stmt_mut(s));
                    self.n += 1;
                    continue;
                }
            }
            i += 1;
        }
    }
}
impl VisitMut for Named {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b);
        visit_mut::visit_block_mut(self, b);
    }
}

/// parentheses that say nothing
/// patterns over the first item of a slice, and `starts_with` of a character, in terms of what the contracts speak of
/// (for other patterns and other types the text does not typecheck)
struct Ends;
impl Ends {
    fn pat(p: &Pat) -> Option<Pat> {
        match p {
            Pat::Slice(s) => {
                let e: Vec<&Pat> = s.elems.iter().collect();
                match e[..] {
                    [] => Some(parse_quote!(None)),
                    [x, Pat::Rest(_)] if !matches!(x, Pat::Rest(_)) => Some(parse_quote!(Some(#x))),
                    _ => None,
                }
            }
            Pat::Wild(_) => Some(p.clone()),
            _ => None,
        }
    }
    fn first(e: &Expr) -> Expr {
        match e {
            Expr::Reference(ExprReference { mutability: None, expr, .. }) => Self::first(expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Self::first(expr),
            Expr::Paren(p) => Self::first(&p.expr),
            e => parse_quote!(#e.first()),
        }
    }
}
impl VisitMut for Ends {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Let(l) if matches!(&*l.pat, Pat::Slice(_)) => {
                if let Some(p) = Self::pat(&l.pat) {
                    *l.pat = p;
                    *l.expr = Self::first(&l.expr);
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => {
                if let Some(ps) = m.arms.iter().map(|a| Self::pat(&a.pat)).collect::<Option<Vec<_>>>() {
                    m.arms.iter_mut().zip(ps).for_each(|(a, p)| a.pat = p);
                    *m.expr = Self::first(&m.expr);
                }
            }
            Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 && !matches!(m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) | Expr::Closure(_) | Expr::Reference(_)) => {
                let (r, c) = (&m.receiver, &m.args[0]);
                *e = parse_quote!((#r.chars().next() == Some(#c)));
            }
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Slice(_), Some(i)) = (&l.pat, &mut l.init) {
            if let Some(p) = Self::pat(&l.pat) {
                l.pat = p;
                *i.expr = Self::first(&i.expr);
            }
        }
    }
}

/// without the parentheses around it
fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        e => e,
    }
}
struct Parens;
impl Parens {
    fn strip(e: &mut Expr, all: bool) {
        loop {
            let Expr::Paren(p) = e else { return };
            let atom = matches!(&*p.expr, Expr::Paren(_) | Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Lit(_) | Expr::Await(_) | Expr::Macro(_) | Expr::Tuple(_) | Expr::Index(_));
            if !(atom || all && !matches!(&*p.expr, Expr::Closure(_) | Expr::Range(_))) {
                return;
            }
            *e = (*p.expr).clone();
        }
    }
}
impl VisitMut for Parens {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let refs = |e: &Expr| matches!(e, Expr::Paren(p) if matches!(&*p.expr, Expr::Reference(_)));
                let (l, r) = (refs(&b.left), refs(&b.right));
                Self::strip(&mut b.left, l);
                Self::strip(&mut b.right, r);
            }
            Expr::MethodCall(m) => {
                Self::strip(&mut m.receiver, false);
                m.args.iter_mut().for_each(|a| Self::strip(a, true));
            }
            Expr::Call(c) => {
                if let Expr::Paren(p) = &*c.func {
                    if matches!(&*p.expr, Expr::Path(_)) {
                        *c.func = (*p.expr).clone();
                    }
                }
                c.args.iter_mut().for_each(|a| Self::strip(a, true));
            }
            Expr::Match(m) => Self::strip(&mut m.expr, false),
            Expr::If(i) => Self::strip(&mut i.cond, false),
            Expr::Let(l) => Self::strip(&mut l.expr, false),
            Expr::Reference(r) => Self::strip(&mut r.expr, false),
            Expr::Unary(u) => Self::strip(&mut u.expr, false),
            Expr::Try(t) => Self::strip(&mut t.expr, false),
            Expr::Await(t) => Self::strip(&mut t.base, false),
            Expr::Field(f) => Self::strip(&mut f.base, false),
            Expr::Index(i) => {
                Self::strip(&mut i.expr, false);
                Self::strip(&mut i.index, false);
            }
            Expr::Assign(a) => {
                Self::strip(&mut a.left, false);
                Self::strip(&mut a.right, true);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    Self::strip(x, true);
                }
            }
            Expr::Break(r) => {
                if let Some(x) = &mut r.expr {
                    Self::strip(x, true);
                }
            }
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Some(i) = &mut l.init {
            Self::strip(&mut i.expr, i.diverge.is_none());
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, _) = s {
            Self::strip(e, true);
        }
    }
}

/// `for_each` and `fold` are the loops they abbreviate
struct Folds<'a> {
    cx: &'a mut Ctx,
    fresh: usize,
}
impl VisitMut for Folds<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let plain = |p: &Pat| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let x = &m.receiver;
        match (m.method.to_string().as_str(), m.args.len()) {
            ("for_each", 1) => {
                if let Expr::Path(p) = &m.args[0] {
                    m.args[0] = parse_quote!(|vx_item| #p(vx_item));
                }
                let Expr::Closure(c) = &m.args[0] else { return };
                if c.inputs.len() != 1 || has_return_expr(&c.body) {
                    return;
                }
                let (p, body) = (plain(&c.inputs[0]), &c.body);
                self.cx.note("`.for_each(..)` written as the loop it abbreviates");
                *e = parse_quote!({ for #p in #x { #body; } });
            }
            ("fold", 2) => {
                let Expr::Closure(c) = &m.args[1] else { return };
                if c.inputs.len() != 2 || has_return_expr(&c.body) {
                    return;
                }
                let (a, p, body, init) = (plain(&c.inputs[0]), plain(&c.inputs[1]), &c.body, &m.args[0]);
                self.fresh += 1;
                let acc = format_ident!("vx_acc{}", self.fresh);
                self.cx.note("`.fold(..)` written as the loop it abbreviates");
                *e = match &a {
                    // (the accumulator keeps its name)
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        let i = &i.ident;
                        parse_quote!({ let mut #i = #init; for #p in #x { #i = #body; } #i })
                    }
                    _ => parse_quote!({ let mut #acc = #init; for #p in #x { #acc = { let #a = #acc; #body }; } #acc }),
                };
            }
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Opt,
    Res,
    Poll,
}

/// what every name bound by a plain `let` is first bound to
fn lets(b: &Block) -> HashMap<String, Expr> {
    struct L(HashMap<String, Expr>, Vec<String>);
    impl<'a> Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            let mut p = &l.pat;
            if let Pat::Type(t) = p {
                p = &t.pat;
            }
            if let (Pat::Ident(i), Some(e)) = (p, &l.init) {
                let n = i.ident.to_string();
                if self.0.insert(n.clone(), (*e.expr).clone()).is_some() {
                    self.1.push(n);
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut l = L(HashMap::new(), vec![]);
    l.visit_block(b);
    for n in l.1 {
        l.0.remove(&n);
    }
    l.0
}

fn is_result_tuple_pat(p: &Pat) -> bool {
    matches!(p, Pat::Tuple(_))
}

impl Body<'_> {
    fn fresh(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", s, self.fresh)
    }
    /// what the value seems to be; where the guess is wrong the text does not type-check
    fn kind(&self, e: &Expr) -> Kind {
        self.kind_within(e, 16)
    }
    /// a local may be said of itself (`let x = match y { Some(x) => x, .. }`): no more than `n` steps
    fn kind_within(&self, e: &Expr, n: usize) -> Kind {
        if n == 0 {
            return Kind::Opt;
        }
        let n = n - 1;
        match e {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "poll" => Kind::Poll,
                "ok" | "err" | "is_some" => Kind::Opt,
                "ok_or" | "ok_or_else" | "map_err" | "parse" | "parse_once" => Kind::Res,
                "map" | "and_then" | "or_else" | "into_inner" => self.kind_within(&m.receiver, n),
                name if name.contains("parse") => Kind::Res,
                _ => Kind::Opt,
            },
            Expr::Await(a) => self.kind_within(&a.base, n),
            Expr::Paren(a) => self.kind_within(&a.expr, n),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_within(e, n),
                _ => Kind::Opt,
            },
            Expr::Match(m) => match m.arms.first() {
                Some(a) => self.kind_within(&a.body, n),
                None => Kind::Opt,
            },
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "Ok" || f == "Err" || f.contains("parse") || f.contains("from_utf8") {
                    Kind::Res
                } else if f.starts_with("Poll::") || f.ends_with("::poll") {
                    Kind::Poll
                } else {
                    Kind::Opt
                }
            }
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.lets.get(&i.to_string())) {
                Some(e) if !matches!(e, Expr::Path(_)) => self.kind_within(e, n),
                _ => Kind::Opt,
            },
            _ => Kind::Opt,
        }
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        match (name.as_str(), m.args.len()) {
            ("into_inner", 0) => {
                self.cx.note("`.into_inner()` of a ready future removed");
                return Some((**recv).clone());
            }
            _ => {}
        }
        if let Some(e) = self.choice(m, &name) {
            self.cx.note(&format!("`.{name}(..)` of an option or result expanded to its definition"));
            return Some(e);
        }
        if m.args.len() == 1 {
            match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let body = closure_body(c);
                    if has_return_expr(&body) {
                        return None;
                    }
                    let mut pat = c.inputs[0].clone();
                    if let Pat::Type(t) = pat {
                        pat = *t.pat;
                    }
                    let v = self.fresh("v");
                    match name.as_str() {
                        "map_err" => {
                            self.cx.note("`.map_err(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#pat) => Err(#body) }));
                        }
                        "map" if is_result_tuple_pat(&pat) || self.kind(recv) == Kind::Res => {
                            self.cx.note("`Result::map(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Ok(#pat) => Ok(#body), Err(#v) => Err(#v) }));
                        }
                        "map" if self.kind(recv) == Kind::Poll => {
                            self.cx.note("`Poll::map(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Poll::Ready(#pat) => Poll::Ready(#body), Poll::Pending => Poll::Pending }));
                        }
                        "map" => {
                            self.cx.note("`Option::map(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Some(#pat) => Some(#body), None => None }));
                        }
                        "and_then" if is_result_tuple_pat(&pat) || self.kind(recv) == Kind::Res => {
                            self.cx.note("`Result::and_then(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Ok(#pat) => #body, Err(#v) => Err(#v) }));
                        }
                        "and_then" => {
                            self.cx.note("`Option::and_then(closure)` expanded to its definition");
                            return Some(parse_quote!(match #recv { Some(#pat) => #body, None => None }));
                        }
                        _ => {}
                    }
                }
                a => {
                    let f: Option<Expr> = match a {
                        Expr::Reference(r) => Some((*r.expr).clone()),
                        Expr::Path(_) | Expr::Field(_) => Some(a.clone()),
                        _ => None,
                    };
                    if let Some(f) = f {
                        let v = self.fresh("v");
                        match name.as_str() {
                            "map" if self.kind(recv) == Kind::Res => {
                                let w = self.fresh("v");
                                self.cx.note("`Result::map(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Ok(#v) => Ok((#f)(#v)), Err(#w) => Err(#w) }));
                            }
                            "and_then" if self.kind(recv) == Kind::Res => {
                                let w = self.fresh("v");
                                self.cx.note("`Result::and_then(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Ok(#v) => (#f)(#v), Err(#w) => Err(#w) }));
                            }
                            "map" if self.kind(recv) == Kind::Poll => {
                                self.cx.note("`Poll::map(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Poll::Ready(#v) => Poll::Ready((#f)(#v)), Poll::Pending => Poll::Pending }));
                            }
                            "map" => {
                                self.cx.note("`Option::map(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Some(#v) => Some((#f)(#v)), None => None }));
                            }
                            "and_then" => {
                                self.cx.note("`Option::and_then(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Some(#v) => (#f)(#v), None => None }));
                            }
                            "map_err" => {
                                let w = self.fresh("v");
                                self.cx.note("`Result::map_err(f)` expanded to its definition");
                                return Some(parse_quote!(match #recv { Ok(#w) => Ok(#w), Err(#v) => Err((#f)(#v)) }));
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        None
    }

    /// `f(x)` where `f` is a closure written in place or a name
    fn applied(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let body = closure_body(c);
                if has_return_expr(&body) {
                    return None;
                }
                let mut pat = c.inputs[0].clone();
                if let Pat::Type(t) = pat {
                    pat = *t.pat;
                }
                Some((pat, body))
            }
            Expr::Path(_) => {
                let v = self.fresh("v");
                Some((parse_quote!(#v), parse_quote!((#f)(#v))))
            }
            _ => None,
        }
    }
    /// methods of `Option` and `Result` that choose by the variant
    fn choice(&mut self, m: &ExprMethodCall, name: &str) -> Option<Expr> {
        let recv = &m.receiver;
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let result = self.kind(recv) == Kind::Res;
        Some(match (name, a.len()) {
            ("map_or", 2) => {
                let (p, x) = self.applied(&a[1])?;
                let d = &a[0];
                // the default is evaluated first
                if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                    return None;
                }
                if result {
                    parse_quote!(match #recv { Ok(#p) => #x, Err(_) => #d })
                } else {
                    parse_quote!(match #recv { Some(#p) => #x, None => #d })
                }
            }
            ("map_or_else", 2) => {
                let (p, x) = self.applied(&a[1])?;
                match &a[0] {
                    Expr::Closure(c) if c.inputs.is_empty() && !has_return_expr(&c.body) => {
                        let d = &c.body;
                        parse_quote!(match #recv { Some(#p) => #x, None => #d })
                    }
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let (q, d) = self.applied(&a[0])?;
                        parse_quote!(match #recv { Ok(#p) => #x, Err(#q) => #d })
                    }
                    _ => return None,
                }
            }
            ("is_some_and", 1) => {
                let (p, x) = self.applied(&a[0])?;
                parse_quote!(match #recv { Some(#p) => #x, None => false })
            }
            ("is_none_or", 1) => {
                let (p, x) = self.applied(&a[0])?;
                parse_quote!(match #recv { Some(#p) => #x, None => true })
            }
            ("is_ok_and", 1) => {
                let (p, x) = self.applied(&a[0])?;
                parse_quote!(match #recv { Ok(#p) => #x, Err(_) => false })
            }
            ("is_err_and", 1) => {
                let (p, x) = self.applied(&a[0])?;
                parse_quote!(match #recv { Ok(_) => false, Err(#p) => #x })
            }
            ("unwrap_or_else" | "or_else" | "ok_or_else", 1) => {
                let Expr::Closure(c) = &a[0] else { return None };
                let v = self.fresh("v");
                if c.inputs.is_empty() && !has_return_expr(&c.body) {
                    let d = &c.body;
                    match name {
                        "unwrap_or_else" => parse_quote!(match #recv { Some(#v) => #v, None => #d }),
                        "or_else" => parse_quote!(match #recv { Some(#v) => Some(#v), None => #d }),
                        _ => parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) }),
                    }
                } else if c.inputs.len() == 1 && name != "ok_or_else" {
                    let (q, d) = self.applied(&a[0])?;
                    match name {
                        "unwrap_or_else" => parse_quote!(match #recv { Ok(#v) => #v, Err(#q) => #d }),
                        _ => parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#q) => #d }),
                    }
                } else {
                    return None;
                }
            }
            ("flatten", 0) => {
                let v = self.fresh("v");
                parse_quote!(match #recv { Some(#v) => #v, None => None })
            }
            _ => return None,
        })
    }

    /// a macro that ends the call
    fn stop(&mut self, n: &str) -> Expr {
        if n == "panic" {
            self.cx.note("`panic!` made a call of the overlay's `vx_panic`");
            parse_quote!(vx_panic())
        } else {
            self.cx.note(&format!("`{n}!` must be proved unreachable"));
            parse_quote!(vx_unreachable())
        }
    }

    fn break_value(&mut self, target: &Pat, e: &mut ExprLoop) -> bool {
        // `break v` of this loop (not of inner loops or closures) => `{ target = v; break }`
        struct B<'x> {
            t: &'x Ident,
            depth: usize,
            n: usize,
            bad: bool,
        }
        impl VisitMut for B<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Break(b) => {
                        if b.label.is_some() {
                            self.bad = true;
                        }
                        if self.depth == 0 {
                            if let Some(v) = b.expr.take() {
                                let t = self.t;
                                let v = *v;
                                *e = parse_quote!({ #t = #v; break; });
                                self.n += 1;
                            } else {
                                self.bad = true;
                            }
                        }
                        return;
                    }
                    Expr::Closure(_) => return,
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                        return;
                    }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let Pat::Ident(i) = target else { return false };
        let mut b = B { t: &i.ident, depth: 0, n: 0, bad: false };
        b.visit_block_mut(&mut e.body);
        !b.bad && b.n > 0
    }

    fn mark(&mut self, b: &mut syn::Block) {
        let n = self.loops;
        self.loops += 1;
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        let m: Stmt = parse_quote!(__vx_loop!(#lit););
        b.stmts.insert(0, m);
    }
}

impl VisitMut for Body<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // let x = loop { .. break v .. };
        let mut out: Vec<Stmt> = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    let mut done = false;
                    if let Some(init) = &mut l.init {
                        if let Expr::Loop(lp) = &mut *init.expr {
                            let mut pat = l.pat.clone();
                            let mut ty: Option<Type> = None;
                            if let Pat::Type(t) = &pat {
                                ty = Some((*t.ty).clone());
                                pat = (*t.pat).clone();
                            }
                            let simple = matches!(&pat, Pat::Ident(_));
                            let tmp: Pat = if simple {
                                if let Pat::Ident(i) = &mut pat {
                                    i.mutability = None;
                                }
                                pat.clone()
                            } else {
                                let t = self.fresh("brk");
                                parse_quote!(#t)
                            };
                            let mut lp2 = lp.clone();
                            if self.break_value(&tmp, &mut lp2) {
                                self.cx.note("`let x = loop { break v }` written as assignment and break");
                                out.push(match &ty {
                                    Some(t) => parse_quote!(let #tmp: #t;),
                                    None => parse_quote!(let #tmp;),
                                });
                                out.push(Stmt::Expr(Expr::Loop(lp2), None));
                                if !simple {
                                    out.push(parse_quote!(let #pat = #tmp;));
                                }
                                done = true;
                            }
                        }
                    }
                    if !done {
                        out.push(Stmt::Local(l));
                    }
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                            self.cx.note("debug assertion kept as an obligation");
                            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                            out.push(Stmt::Expr(e, Some(Default::default())));
                        }
                        "println" | "eprintln" | "print" | "eprint" | "dbg" => {
                            self.cx.note("printing macro statement dropped");
                        }
                        "unreachable" | "panic" | "todo" | "unimplemented" if m.semi_token.is_some() => {
                            let f = self.stop(&n);
                            out.push(parse_quote!(return #f;));
                        }
                        _ => {
                            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                            out.push(Stmt::Expr(e, m.semi_token));
                        }
                    }
                }
                s => out.push(s),
            }
        }
        // a value-breaking loop in tail position
        if let Some(Stmt::Expr(Expr::Loop(lp), None)) = out.last() {
            let mut lp2 = lp.clone();
            let t = self.fresh("brk");
            let tp: Pat = parse_quote!(#t);
            if self.break_value(&tp, &mut lp2) {
                self.cx.note("`let x = loop { break v }` written as assignment and break");
                out.pop();
                out.push(parse_quote!(let #t;));
                out.push(Stmt::Expr(Expr::Loop(lp2), None));
                out.push(Stmt::Expr(parse_quote!(#t), None));
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a closure called where it is written
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            if let Expr::Closure(k) = f {
                if k.inputs.len() == c.args.len() && !has_return_expr(&k.body) {
                    self.cx.note("closure called where it is written made a block");
                    let body = &k.body;
                    let (ps, xs) = (k.inputs.iter(), c.args.iter());
                    *e = match c.args.len() {
                        1 => parse_quote!({ #(let #ps = #xs;)* #body }),
                        _ => parse_quote!({ let (#(#ps,)*) = (#(#xs,)*); #body }),
                    };
                }
            }
        }
        // loops are numbered in source order, before their bodies are visited
        if let Expr::ForLoop(l) = e {
            if self.cx.forloops {
                // the loop std defines `for` to be, over the overlay's iterators
                let it = format_ident!("vx_it{}", self.loops);
                let (label, pat, x, body) = (&l.label, &l.pat, &l.expr, &l.body.stmts);
                self.cx.note("`for` loop written out over the overlay's iterators");
                *e = parse_quote!({
                    let mut #it = (#x).vx_into_iter();
                    #label loop {
                        let Some(#pat) = #it.vx_next() else { break };
                        #(#body)*
                    }
                });
            }
        }
        if let Expr::While(l) = e {
            if let (Expr::Let(c), true) = (&*l.cond, self.cx.forloops) {
                if matches!(&*c.expr, Expr::MethodCall(m) if m.method == "next" && m.args.is_empty()) {
                    let (label, pat, x, body) = (&l.label, &c.pat, &c.expr, &l.body.stmts);
                    self.cx.note("`while let` loop over an iterator written out");
                    *e = parse_quote!(#label loop {
                        let #pat = #x else { break };
                        #(#body)*
                    });
                }
            }
        }
        match e {
            Expr::Loop(l) => {
                l.attrs.clear();
                if l.label.is_some() {
                    let id = self.id.clone();
                    self.cx.suspicious.push(format!("{id}: labelled loop"));
                }
                self.mark(&mut l.body)
            }
            Expr::While(l) => self.mark(&mut l.body),
            Expr::ForLoop(l) => self.mark(&mut l.body),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Await(a) => {
                self.cx.note("`.await` removed");
                Some((*a.base).clone())
            }
            Expr::Async(a) => {
                self.cx.note("`async` block made a block");
                let b = &a.block;
                Some(parse_quote!(#b))
            }
            Expr::Unsafe(u) => {
                self.cx.note("`unsafe` block made a block");
                let b = &u.block;
                Some(parse_quote!(#b))
            }
            Expr::Call(c) => {
                let f = match &*c.func {
                    Expr::Path(p) => path_string(&p.path),
                    _ => String::new(),
                };
                match f.as_str() {
                    _ if self.cx.futures => None,
                    "Box::pin" | "std::future::ready" | "future::ready" | "ready" | "std::boxed::Box::pin" | "core::future::ready"
                        if c.args.len() == 1 =>
                    {
                        self.cx.note(&format!("`{f}(x)` replaced by x"));
                        Some(c.args[0].clone())
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if self.cx.index && m.method == "copy_from_slice" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Index(_)) => {
                let Expr::Index(i) = &*m.receiver else { unreachable!() };
                let (x, n, a) = (&i.expr, &i.index, &m.args[0]);
                self.cx.note("`x[i].copy_from_slice(y)` taken through the trusted `vx_copy_at`");
                Some(parse_quote!(#x.vx_copy_at(#n, #a)))
            }
            Expr::MethodCall(m) => {
                let to = self.cx.methods.iter().find(|r| m.method == r.0 && r.2.map_or(true, |n| n == m.args.len())).map(|r| r.1.clone());
                if let Some(to) = to {
                    self.cx.note(&format!("`.{}()` called through the trusted `{}`", m.method, to));
                    m.method = format_ident!("{}", to);
                }
                self.method(m)
            }
            Expr::Reference(r) if self.cx.index && r.mutability.is_none() && matches!(&*r.expr, Expr::Index(_)) => {
                let Expr::Index(i) = &*r.expr else { unreachable!() };
                let (x, n) = (&i.expr, &i.index);
                self.cx.note("`&x[i]` taken through the trusted `vx_index`");
                Some(parse_quote!(#x.vx_index(#n)))
            }
            Expr::Reference(r) if self.cx.index && r.mutability.is_some() && matches!(&*r.expr, Expr::Index(_)) => {
                let Expr::Index(i) = &*r.expr else { unreachable!() };
                let (x, n) = (&i.expr, &i.index);
                self.cx.note("`&mut x[i]` taken through the trusted `vx_index_mut`");
                Some(parse_quote!(#x.vx_index_mut(#n)))
            }
            Expr::RawAddr(r) if self.cx.pins && matches!(r.mutability, PointerMutability::Const(_)) => {
                let x = &r.expr;
                self.cx.note("`&raw const x` made `&x`");
                Some(parse_quote!(&#x))
            }
            Expr::Binary(b) if self.cx.pins && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (matches!(bare(&b.left), Expr::Reference(_)) || matches!(bare(&b.right), Expr::Reference(_))) => {
                let deref = |e: &Expr| -> Expr {
                    match bare(e) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => parse_quote!(*#e),
                    }
                };
                let (l, r, op) = (deref(&b.left), deref(&b.right), &b.op);
                self.cx.note("references compared by what they refer to");
                Some(parse_quote!(#l #op #r))
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" if m.mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        Some(self.stop(&n))
                    }
                    "ready" if self.cx.futures => match m.mac.parse_body::<Expr>() {
                        Ok(mut x) => {
                            self.visit_expr_mut(&mut x);
                            self.cx.note("`ready!` expanded to its definition");
                            Some(parse_quote!(match #x { Poll::Ready(vx_t) => vx_t, Poll::Pending => return Poll::Pending }))
                        }
                        Err(_) => None,
                    },
                    "assert" | "debug_assert" => {
                        let a: syn::Result<syn::punctuated::Punctuated<Expr, Token![,]>> =
                            m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated);
                        match a {
                            Ok(a) => {
                                let mut c = a[0].clone();
                                self.visit_expr_mut(&mut c);
                                self.cx.note("`assert!` must be proved to hold");
                                let f = format_ident!("{}", if n.starts_with("debug") { "vx_debug" } else { "vx_assert" });
                                Some(parse_quote!(#f(#c)))
                            }
                            Err(_) => None,
                        }
                    }
                    "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                        let a: syn::Result<syn::punctuated::Punctuated<Expr, Token![,]>> =
                            m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated);
                        match a {
                            Ok(a) if a.len() > 1 => {
                                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                                self.visit_expr_mut(&mut x);
                                self.visit_expr_mut(&mut y);
                                self.cx.note("`assert!` must be proved to hold");
                                let f = format_ident!("{}", if n.starts_with("debug") { "vx_debug" } else { "vx_assert" });
                                Some(if n.ends_with("eq") { parse_quote!(#f(#x == #y)) } else { parse_quote!(#f(#x != #y)) })
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
            Expr::Closure(c) => {
                c.asyncness = None;
                for (k, i) in c.inputs.iter_mut().enumerate() {
                    if matches!(i, Pat::Wild(_)) {
                        let n = format_ident!("vx_unused{k}");
                        *i = parse_quote!(#n);
                    }
                }
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

/// The value of a function body with early returns as one expression without them: what follows a statement that may
/// return moves into its branches. `None` where a return is out of reach (in a loop, deep in an expression).
struct NoReturn {
    /// `?` is on an `Option`
    option: bool,
    size: usize,
}
impl NoReturn {
    fn of(sig: &Signature, b: &syn::Block) -> Option<syn::Block> {
        let out = match &sig.output {
            ReturnType::Type(_, t) => t.to_token_stream().to_string(),
            _ => String::new(),
        };
        let mut n = NoReturn { option: out.starts_with("Option"), size: 0 };
        let stmts = n.stmts(b.stmts.clone())?;
        Some(syn::Block { brace_token: Default::default(), stmts })
    }
    fn diverges(e: &Expr) -> bool {
        match e {
            Expr::Return(_) => true,
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| Self::diverges(&a.body)),
            Expr::If(i) => {
                matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(e, _)) if Self::diverges(e))
                    && i.else_branch.as_ref().is_some_and(|(_, e)| Self::diverges(e))
            }
            _ => false,
        }
    }
    /// a name bound in `b` also appears in what follows
    fn captures(b: &syn::Block, p: Option<&Pat>, rest: &[Stmt]) -> bool {
        let own = p.map(|p| locals(&parse_quote!({ let #p = (); }))).unwrap_or_default();
        let t = quote!(#(#rest)*).to_string();
        let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        locals(b).iter().any(|x| !x.starts_with(char::is_uppercase) && !own.contains(x) && words.iter().any(|w| w == x))
    }
    /// the statements of a function body, from some point on
    fn stmts(&mut self, mut s: Vec<Stmt>) -> Option<Vec<Stmt>> {
        self.size += 1;
        if self.size > 60 {
            return None;
        }
        let Some(i) = s.iter().position(|x| {
            let mut h = HasReturn(false);
            h.visit_stmt(x);
            h.0
        }) else {
            return Some(s);
        };
        let rest = s.split_off(i + 1);
        let e = match s.pop().unwrap() {
            Stmt::Expr(Expr::Return(r), _) => self.value(*r.expr?)?,
            Stmt::Expr(e, None) if rest.is_empty() => self.value(e)?,
            Stmt::Expr(e, _) => self.then(e, None, &rest)?,
            Stmt::Local(l) => {
                let init = l.init?;
                match init.diverge {
                    None => self.then(*init.expr, Some(&l.pat), &rest)?,
                    Some((_, d)) => {
                        if has_return_expr(&init.expr) {
                            return None;
                        }
                        let (p, x) = (&l.pat, &init.expr);
                        let d = self.then(*d, None, &[])?;
                        let k = self.stmts(rest)?;
                        parse_quote!(match #x { #p => { #(#k)* } _ => { #d } })
                    }
                }
            }
            _ => return None,
        };
        s.push(Stmt::Expr(e, None));
        Some(s)
    }
    fn question(&mut self, x: &Expr) -> (Arm, Expr) {
        self.size += 1;
        let v = format_ident!("vx_q{}", self.size);
        if self.option {
            (parse_quote!(None => None,), parse_quote!(#v))
        } else {
            let _ = x;
            (parse_quote!(Err(#v) => Err(From::from(#v)),), parse_quote!(#v))
        }
    }
    /// the value of an expression that is the function's value
    fn value(&mut self, e: Expr) -> Option<Expr> {
        if !has_return_expr(&e) {
            return Some(e);
        }
        match e {
            Expr::Return(r) => self.value(*r.expr?),
            Expr::Paren(p) => self.value(*p.expr),
            Expr::Block(b) if b.label.is_none() => {
                let s = self.stmts(b.block.stmts)?;
                Some(parse_quote!({ #(#s)* }))
            }
            Expr::If(i) if !has_return_expr(&i.cond) => {
                let (c, t) = (&i.cond, self.stmts(i.then_branch.stmts.clone())?);
                let f = self.value(*i.else_branch?.1)?;
                Some(parse_quote!(if #c { #(#t)* } else { #f }))
            }
            Expr::Match(mut m) if !has_return_expr(&m.expr) => {
                for a in &mut m.arms {
                    let b = self.value((*a.body).clone())?;
                    *a.body = parse_quote!({ #b });
                }
                Some(Expr::Match(m))
            }
            e => self.then(e, Some(&parse_quote!(vx_v)), &[parse_quote!(return vx_v;)]),
        }
    }
    /// `let p = e;` (or `e;`) and what follows
    fn then(&mut self, e: Expr, p: Option<&Pat>, rest: &[Stmt]) -> Option<Expr> {
        if !has_return_expr(&e) {
            let mut s = vec![];
            if !Self::diverges(&e) {
                s.push(match p {
                    Some(p) => parse_quote!(let #p = #e;),
                    None => parse_quote!(#e;),
                });
                s.extend(rest.iter().cloned());
                let s = self.stmts(s)?;
                return Some(parse_quote!({ #(#s)* }));
            }
            return Some(e);
        }
        match e {
            Expr::Return(r) => self.value(*r.expr?),
            Expr::Paren(x) => self.then(*x.expr, p, rest),
            Expr::Try(t) if !has_return_expr(&t.expr) => {
                let x = &t.expr;
                let (miss, v) = self.question(x);
                let k = self.then(v.clone(), p, rest)?;
                let ok: Pat = if self.option { parse_quote!(Some(#v)) } else { parse_quote!(Ok(#v)) };
                Some(parse_quote!(match #x { #ok => { #k } #miss }))
            }
            Expr::Block(mut b) if b.label.is_none() => {
                let last = match b.block.stmts.pop()? {
                    Stmt::Expr(x, None) => x,
                    s => {
                        b.block.stmts.push(s);
                        parse_quote!(())
                    }
                };
                if let Some(Stmt::Expr(Expr::Return(_), _)) = b.block.stmts.last() {
                    let s = self.stmts(b.block.stmts)?;
                    return Some(parse_quote!({ #(#s)* }));
                }
                if Self::captures(&b.block, p, rest) {
                    return None;
                }
                let mut s = b.block.stmts;
                s.push(match p {
                    Some(p) => parse_quote!(let #p = #last;),
                    None => Stmt::Expr(last, Some(Default::default())),
                });
                s.extend(rest.iter().cloned());
                let s = self.stmts(s)?;
                Some(parse_quote!({ #(#s)* }))
            }
            Expr::If(i) if !has_return_expr(&i.cond) => {
                let c = &i.cond;
                let t = self.then(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), p, rest)?;
                let f = match i.else_branch {
                    Some((_, f)) => self.then(*f, p, rest)?,
                    None => self.then(parse_quote!(()), p, rest)?,
                };
                Some(parse_quote!(if #c { #t } else { #f }))
            }
            Expr::Match(mut m) if !has_return_expr(&m.expr) => {
                for a in &mut m.arms {
                    let q = &a.pat;
                    if Self::captures(&parse_quote!({ let #q = (); }), p, rest) && !Self::diverges(&a.body) {
                        return None;
                    }
                    let b = self.then((*a.body).clone(), p, rest)?;
                    *a.body = parse_quote!({ #b });
                }
                Some(Expr::Match(m))
            }
            _ => None,
        }
    }
}

/// A helper function handed over as a value becomes the closure that calls it (and can then be inlined).
struct Eta<'a> {
    helpers: &'a HashMap<String, Helper>,
}
impl VisitMut for Eta<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let args = match e {
            Expr::Call(c) => &mut c.args,
            Expr::MethodCall(m) => &mut m.args,
            _ => return,
        };
        for a in args {
            let Expr::Path(p) = &*a else { continue };
            let n = p.path.segments.last().unwrap().ident.to_string();
            let Some(h) = self.helpers.get(&n) else { continue };
            let sig = &h.sig;
            if !h.named(&p.path) || h.method() || sig.inputs.is_empty() {
                continue;
            }
            let x: Vec<Ident> = (0..sig.inputs.len()).map(|i| format_ident!("vx_eta{i}")).collect();
            *a = parse_quote!(|#(#x),*| #p(#(#x),*));
        }
    }
}

/// A parameter that is a reference to a place becomes that place.
struct AsPlace<'a> {
    name: &'a str,
    place: &'a Expr,
    mutable: bool,
    /// `place` is what is referred to (and not itself the reference)
    own: bool,
    bad: bool,
}
impl AsPlace<'_> {
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => Self::root(&f.base),
            _ => None,
        }
    }
    fn words(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => Self::words(g.stream(), out),
                _ => {}
            }
        }
    }
    fn put(name: &str, place: &Expr, mutable: bool, own: bool, others: &[&Expr], b: &mut syn::Block) -> bool {
        let Some(root) = Self::root(place) else { return false };
        let mut used = vec![];
        others.iter().for_each(|x| Self::words(x.to_token_stream(), &mut used));
        let bound = locals(b);
        if used.contains(&root) || bound.contains(&root) || bound.iter().any(|x| x == name) {
            return false;
        }
        // (what only the helper's own `self` is called must not become the caller's)
        let mut inner = vec![];
        Self::words(b.to_token_stream(), &mut inner);
        if name != "self" && root == "self" && inner.contains(&root) {
            return false;
        }
        let mut c = b.clone();
        let mut a = AsPlace { name, place, mutable, own, bad: false };
        a.visit_block_mut(&mut c);
        if a.bad {
            return false;
        }
        *b = c;
        true
    }
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(self.name))
    }
}
impl VisitMut for AsPlace<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = self.place;
        match e {
            Expr::Field(f) if self.is(&f.base) => *f.base = p.clone(),
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = p.clone();
                for a in &mut m.args {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = if self.own { parse_quote!((#p)) } else { parse_quote!((*#p)) };
            }
            e if self.is(e) => {
                *e = match (self.own, self.mutable) {
                    (false, _) => parse_quote!(#p),
                    (true, true) => parse_quote!((&mut #p)),
                    (true, false) => parse_quote!((&#p)),
                }
            }
            Expr::Macro(m) => {
                let mut w = vec![];
                Self::words(m.mac.tokens.clone(), &mut w);
                self.bad |= w.iter().any(|x| x == self.name);
            }
            Expr::Closure(_) if self.mutable => {
                let mut w = vec![];
                Self::words(e.to_token_stream(), &mut w);
                self.bad |= w.iter().any(|x| x == self.name);
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if self.is(&f.expr) {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mut w = vec![];
            Self::words(m.mac.tokens.clone(), &mut w);
            self.bad |= w.iter().any(|x| x == self.name);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// Inline calls of helper functions of the same file that carry no contract.
struct Inline<'a> {
    helpers: &'a HashMap<String, Helper>,
    done: Vec<String>,
    left: Vec<String>,
    depth: usize,
    /// the function at hand
    id: &'a str,
}

/// `p.m(..)` of a helper's parameter `p: &T`, with `T: Trait` its only bound, is `Trait::m(p, ..)`: in the caller the
/// type of what is passed may become known only later
struct ByTrait {
    name: String,
    of: syn::Path,
}

impl ByTrait {
    fn of(sig: &Signature, t: &PatType, b: &mut syn::Block) {
        let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) else { return };
        let Type::Path(ty) = &*r.elem else { return };
        let Some(ty) = ty.path.get_ident() else { return };
        if r.mutability.is_some() || sig.generics.where_clause.is_some() || locals(b).contains(&p.ident.to_string()) {
            return;
        }
        for g in sig.generics.type_params() {
            if g.ident == *ty && g.bounds.len() == 1 {
                if let syn::TypeParamBound::Trait(tb) = &g.bounds[0] {
                    if tb.path.get_ident().is_some() && tb.lifetimes.is_none() {
                        ByTrait { name: p.ident.to_string(), of: tb.path.clone() }.visit_block_mut(b);
                    }
                }
            }
        }
    }
}

impl VisitMut for ByTrait {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.turbofish.is_none() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)) {
                let (of, n, r, a) = (&self.of, &m.method, &m.receiver, &m.args);
                *e = parse_quote!(#of::#n(#r, #a));
            }
        }
    }
}

impl Inline<'_> {
    fn target(&self, e: &Expr) -> Option<(String, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Await(a) => self.target(&a.base),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                let h = self.helpers.get(&n)?;
                if !h.named(&p.path) {
                    return None;
                }
                let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if h.method() && !a.is_empty() { Some(a.remove(0)) } else { None };
                Some((n, recv, a))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let h = self.helpers.get(&n)?;
                // (for another receiver the type is not known: names that other types have too are left alone)
                let common = ["len", "is_empty", "push", "pop", "next", "get", "iter", "clone", "as_ref", "as_mut", "insert", "remove", "take", "send", "lock", "parse", "map", "poll", "wait", "cap", "capacity"];
                if h.method() && (matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) || !common.contains(&n.as_str())) {
                    return Some((n, Some((*m.receiver).clone()), m.args.iter().cloned().collect()));
                }
                None
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let (n, recv, args) = self.target(e)?;
        let Helper { sig, block: mut blk, .. } = Helper { sig: self.helpers[&n].sig.clone(), block: self.helpers[&n].block.clone(), of: None };
        if let Some(of) = self.helpers[&n].of.as_ref().filter(|t| !self.id.contains(&format!(" for {t}>::"))) {
            // `Self` is another type there
            struct Of(Ident);
            impl VisitMut for Of {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    visit_mut::visit_path_mut(self, p);
                    if p.segments[0].ident == "Self" {
                        p.segments[0].ident = self.0.clone();
                    }
                }
            }
            if let Ok(t) = syn::parse_str(of) {
                Of(t).visit_block_mut(&mut blk);
            }
        }
        if has_return_block(&blk) && !tail {
            let Some(b) = NoReturn::of(&sig, &blk) else {
                self.left.push(n);
                return None;
            };
            blk = b;
        }
        let mut first: Vec<Stmt> = vec![];
        if let Some(r) = &recv {
            let r = match r {
                Expr::Reference(r) => &*r.expr,
                r => r,
            };
            let here = matches!(r, Expr::Path(p) if p.path.is_ident("self"));
            match sig.inputs.first() {
                Some(FnArg::Receiver(s)) if s.reference.is_none() && s.colon_token.is_none() => {
                    // a receiver taken by value, into a variable of its own
                    if !here || s.mutability.is_some() {
                        struct Me(Ident);
                        impl VisitMut for Me {
                            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                                if p.path.is_ident("self") {
                                    p.path = self.0.clone().into();
                                }
                            }
                        }
                        let me = if here { format_ident!("vx_self") } else { format_ident!("vx_me{}", self.done.len()) };
                        let (m, r) = (&s.mutability, recv.as_ref().unwrap());
                        Me(me.clone()).visit_block_mut(&mut blk);
                        first.push(parse_quote!(let #m #me = #r;));
                    }
                }
                Some(FnArg::Receiver(s)) if s.reference.is_some() || here => {
                    if !here && !AsPlace::put("self", r, s.mutability.is_some(), true, &args.iter().collect::<Vec<_>>(), &mut blk) {
                        self.left.push(n);
                        return None;
                    }
                }
                _ if here => {}
                _ => {
                    self.left.push(n);
                    return None;
                }
            }
        }
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let types: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if types.len() != args.len() {
            self.left.push(n);
            return None;
        }
        for t in &types {
            ByTrait::of(&sig, t, &mut blk);
        }
        for (i, (t, a)) in types.iter().zip(&args).enumerate() {
            let others: Vec<&Expr> = args.iter().enumerate().filter(|(j, _)| *j != i).map(|x| x.1).chain(recv.iter()).collect();
            // what is passed by reference is used in place
            let done = match (&*t.pat, &*t.ty, a) {
                (Pat::Ident(p), Type::Reference(t), Expr::Reference(r)) if p.subpat.is_none() && p.by_ref.is_none() && p.mutability.is_none() && t.mutability.is_some() == r.mutability.is_some() => {
                    AsPlace::put(&p.ident.to_string(), &r.expr, t.mutability.is_some(), true, &others, &mut blk)
                }
                (Pat::Ident(p), Type::Reference(t), a) if p.subpat.is_none() && p.by_ref.is_none() && p.mutability.is_none() => {
                    AsPlace::put(&p.ident.to_string(), a, t.mutability.is_some(), false, &others, &mut blk)
                }
                _ => false,
            };
            if !done {
                pats.push((*t.pat).clone());
                vals.push(a.clone());
            }
        }
        let args = vals;
        self.done.push(n);
        let stmts = &blk.stmts;
        let mut r: Expr = if pats.is_empty() {
            parse_quote!({ #(#first)* #(#stmts)* })
        } else if pats.len() == 1 {
            let (p, a) = (&pats[0], &args[0]);
            parse_quote!({ #(#first)* let #p = #a; #(#stmts)* })
        } else {
            // simultaneous bindings through fresh names (argument expressions may mention the parameters' names)
            let tmp: Vec<Ident> = (0..pats.len()).map(|i| format_ident!("vx_arg{}_{}", self.done.len(), i)).collect();
            parse_quote!({ #(#first)* #(let #tmp = #args;)* #(let #pats = #tmp;)* #(#stmts)* })
        };
        self.depth += 1;
        self.tailed(&mut r, tail);
        self.depth -= 1;
        Some(r)
    }

    /// visit `e`, knowing whether its value is returned from the function
    fn tailed(&mut self, e: &mut Expr, tail: bool) {
        if let Some(n) = self.expand(e, tail) {
            *e = n;
            return;
        }
        match e {
            Expr::Block(b) => self.block(&mut b.block, tail),
            Expr::Unsafe(b) => self.block(&mut b.block, tail),
            Expr::If(i) => {
                self.tailed(&mut i.cond, false);
                self.block(&mut i.then_branch, tail);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tailed(x, tail);
                }
            }
            Expr::Match(m) => {
                self.tailed(&mut m.expr, false);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.tailed(g, false);
                    }
                    self.tailed(&mut a.body, tail);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tailed(x, true);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn block(&mut self, b: &mut syn::Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => self.tailed(e, tail),
                Stmt::Expr(e, _) => self.tailed(e, false),
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        self.tailed(&mut init.expr, false);
                        if let Some((_, d)) = &mut init.diverge {
                            self.tailed(d, false);
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.tailed(e, false);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.block(b, false);
    }
}

/// `matches!` and assignments to several places, written out
struct Early<'a> {
    cx: &'a mut Ctx,
    fresh: usize,
}
impl Early<'_> {
    fn matches(m: &Macro) -> Option<Expr> {
        if m.path.segments.last()?.ident != "matches" {
            return None;
        }
        m.parse_body_with(|i: parse::ParseStream| {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g: Option<Expr> = if i.parse::<Option<Token![if]>>()?.is_some() { Some(i.parse()?) } else { None };
            i.parse::<Option<Token![,]>>()?;
            let e: Expr = match e {
                Expr::Struct(_) => parse_quote!((#e)),
                e => e,
            };
            Ok(match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            })
        })
        .ok()
    }
    /// the pattern that binds the parts of `places`, and the assignments
    fn places(&mut self, l: &Expr, out: &mut Vec<Stmt>) -> Pat {
        match l {
            Expr::Infer(_) => parse_quote!(_),
            Expr::Tuple(t) => {
                let p: Vec<Pat> = t.elems.iter().map(|x| self.places(x, out)).collect();
                parse_quote!((#(#p,)*))
            }
            Expr::Paren(x) => self.places(&x.expr, out),
            x => {
                self.fresh += 1;
                let v = format_ident!("vx_to{}", self.fresh);
                out.push(parse_quote!(#x = #v;));
                parse_quote!(#v)
            }
        }
    }
}
impl VisitMut for Early<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if m.semi_token.is_none() {
                    if let Some(e) = Self::matches(&m.mac) {
                        *s = Stmt::Expr(e, None);
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new: Option<Expr> = match e {
            Expr::Macro(m) => Self::matches(&m.mac).inspect(|_| self.cx.note("`matches!` expanded to its definition")),
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                let mut to = vec![];
                let p = self.places(&a.left, &mut to);
                let x = &a.right;
                self.cx.note("assignment to several places written out");
                Some(parse_quote!({ let #p = #x; #(#to)* }))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

pub fn body(
    cx: &mut Ctx,
    id: &str,
    b: &mut syn::Block,
    helpers: &HashMap<String, Helper>,
    loops: &mut usize,
    _params: &[String],
) {
    Parens.visit_block_mut(b);
    Ends.visit_block_mut(b);
    let mut named = Named { n: 0 };
    named.visit_block_mut(b);
    if named.n > 0 {
        cx.note("a named closure written where it is used");
    }
    if cx.forloops {
        Folds { cx, fresh: 0 }.visit_block_mut(b);
    }
    weak(cx, id, b, helpers);
    Eta { helpers }.visit_block_mut(b);
    let mut inl = Inline { helpers, done: vec![], left: vec![], depth: 0, id };
    inl.block(b, true);
    if !inl.done.is_empty() {
        // what was brought in is read like the rest
        Parens.visit_block_mut(b);
        Ends.visit_block_mut(b);
        let mut named = Named { n: 0 };
        named.visit_block_mut(b);
        if named.n > 0 {
            cx.note("a named closure written where it is used");
        }
        if cx.forloops {
            Folds { cx, fresh: 100 }.visit_block_mut(b);
        }
    }
    for d in inl.done {
        cx.inlined.push(format!("{id}: {d}"));
    }
    for d in inl.left {
        cx.suspicious.push(format!("{id}: calls `{d}`, which has no contract"));
    }
    Early { cx, fresh: 0 }.visit_block_mut(b);
    if inline_continuation(b) {
        cx.note("code after a `loop` moved to its `break`s");
    }
    if cx.forloops {
        iterators(b);
    }
    let ls = lets(b);
    if !cx.pins {
        // a field of a projection is a reference already
        struct Fields<'a>(&'a HashMap<String, Expr>);
        impl VisitMut for Fields<'_> {
            fn visit_local_mut(&mut self, l: &mut Local) {
                visit_mut::visit_local_mut(self, l);
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
                    let projected = match &*i.expr {
                        Expr::Field(f) => match &*f.base {
                            Expr::Path(b) => b.path.get_ident().and_then(|b| self.0.get(&b.to_string())).is_some_and(|e| matches!(e, Expr::MethodCall(m) if m.method == "project" && m.args.is_empty())),
                            _ => false,
                        },
                        _ => false,
                    };
                    if projected && p.by_ref.is_none() {
                        let e = &i.expr;
                        i.expr = parse_quote!(&mut #e);
                    }
                }
            }
        }
        Fields(&ls).visit_block_mut(b);
    }
    let mut bd = Body { cx, id: id.to_string(), loops: 0, fresh: 0, lets: ls };
    bd.visit_block_mut(b);
    *loops = bd.loops;
    Mem { cx }.visit_block_mut(b);
    let mut v = V { cx };
    v.visit_block_mut(b);
    // (Verus takes a block after a loop's body for the body)
    struct Apart;
    impl VisitMut for Apart {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            for i in 1..b.stmts.len() {
                if matches!(&b.stmts[i], Stmt::Expr(Expr::Block(_) | Expr::Unsafe(_) | Expr::Tuple(_) | Expr::Paren(_), _)) {
                    if let Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), semi) = &mut b.stmts[i - 1] {
                        *semi = Some(Default::default());
                    }
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    Apart.visit_block_mut(b);
    // helper closures left over: their specification is unknown to callers
    struct C(usize);
    impl<'a> Visit<'a> for C {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            // nothing to say about a value nobody looks at
            if !c.body.to_token_stream().to_string().replace(' ', "").ends_with("MaybeUninit::uninit()") {
                self.0 += 1;
            }
            visit::visit_expr_closure(self, c);
        }
    }
    let mut c = C(0);
    c.visit_block(b);
    if c.0 > 0 {
        cx.suspicious.push(format!("{id}: {} closure(s) without contract", c.0));
    }
    // `mut self` receivers
    struct MS;
    impl VisitMut for MS {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.is_ident("self") {
                p.path = parse_quote!(vx_self);
            }
        }
    }
    let _ = (uses_mut_self, &MS, quote!());
    if cx.mut_self {
        MS.visit_block_mut(b);
    }
}

/// the trusted contracts of shared state are those of sequentially consistent accesses
fn weak(cx: &mut Ctx, id: &str, b: &Block, helpers: &HashMap<String, Helper>) {
    struct W(Option<String>);
    impl<'a> Visit<'a> for W {
        fn visit_path(&mut self, p: &'a Path) {
            if let Some(s) = p.segments.last() {
                if ["Relaxed", "Acquire", "Release", "AcqRel"].iter().any(|o| s.ident == o) {
                    self.0 = Some(s.ident.to_string());
                }
            }
            visit::visit_path(self, p);
        }
    }
    let mut w = W(None);
    w.visit_block(b);
    for h in helpers.values() {
        w.visit_block(&h.block);
    }
    if let Some(o) = w.0 {
        cx.problem(format!("{id}: memory ordering `{o}`: the contracts are those of sequentially consistent accesses"));
    }
}

/// the iterator of a `while let Some(..) = it.next()` loop gets the name that of a `for` loop has
fn iterators(b: &mut syn::Block) {
    struct F(Vec<(String, String)>, usize);
    impl<'a> Visit<'a> for F {
        fn visit_expr(&mut self, e: &'a Expr) {
            let n = self.1;
            match e {
                Expr::While(w) => {
                    self.1 += 1;
                    if let Expr::Let(l) = &*w.cond {
                        if let Expr::MethodCall(m) = &*l.expr {
                            if let (Expr::Path(p), true) = (&*m.receiver, m.method == "next") {
                                if let Some(i) = p.path.get_ident().filter(|i| *i != "self") {
                                    self.0.push((i.to_string(), format!("vx_it{n}")));
                                }
                            }
                        }
                    }
                }
                Expr::Loop(l) => {
                    self.1 += 1;
                    // `loop { let Some(x) = it.next() else ..` or `match it.next()`
                    struct Nx(Option<String>);
                    impl<'a> Visit<'a> for Nx {
                        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                            if let (Expr::Path(p), true, true) = (&*m.receiver, m.method == "next" || m.method == "vx_next", m.args.is_empty()) {
                                if let Some(i) = p.path.get_ident().filter(|i| *i != "self") {
                                    self.0.get_or_insert(i.to_string());
                                }
                            }
                            visit::visit_expr_method_call(self, m);
                        }
                        fn visit_block(&mut self, _: &'a Block) {}
                    }
                    let mut x = Nx(None);
                    match l.body.stmts.first() {
                        Some(Stmt::Local(Local { init: Some(i), .. })) => x.visit_expr(&i.expr),
                        Some(Stmt::Expr(e, _)) => x.visit_expr(e),
                        _ => {}
                    }
                    if let Some(v) = x.0 {
                        self.0.push((v, format!("vx_it{n}")));
                    }
                }
                Expr::ForLoop(_) => self.1 += 1,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut f = F(vec![], 0);
    f.visit_block(b);
    struct N(Vec<(String, String)>);
    impl VisitMut for N {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if let Some((_, to)) = self.0.iter().find(|x| p.ident == x.0) {
                p.ident = format_ident!("{to}");
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            f.colon_token = Some(Default::default());
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if let Some((_, to)) = self.0.iter().find(|x| p.path.is_ident(&x.0)) {
                let to = format_ident!("{to}");
                p.path = parse_quote!(#to);
            }
        }
    }
    let bound = locals(b);
    // (a name that is bound once, and by this function)
    f.0.retain(|x| bound.iter().filter(|b| **b == x.0).count() == 1);
    N(f.0).visit_block_mut(b);
}

/// raw memory: casts between raw pointers, fields of unions, the ghost memory
struct Mem<'a> {
    cx: &'a mut Ctx,
}
impl Mem<'_> {
    fn wants(&self, path: &str) -> bool {
        let mut two: Vec<&str> = path.rsplit("::").take(2).collect();
        two.reverse();
        let (last, two) = (*two.last().unwrap(), two.join("::"));
        !self.cx.mem_type.is_empty() && self.cx.mem_fns.iter().any(|m| m == last || *m == two)
    }
    fn union_field(&self, e: &Expr) -> Option<(Expr, String)> {
        if let Expr::Field(f) = e {
            if let Member::Named(n) = &f.member {
                if self.cx.unions.iter().any(|u| u.1.iter().any(|x| n == x)) {
                    return Some(((*f.base).clone(), n.to_string()));
                }
            }
        }
        None
    }
}
impl VisitMut for Mem<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // where the value does not tell its type, what never returns returns nothing
        fn never(e: &mut Expr) {
            if let Expr::Unsafe(u) = e {
                if let Some(Stmt::Expr(e, _)) = u.block.stmts.last_mut() {
                    never(e);
                }
            } else if matches!(e, Expr::Call(c) if c.func.to_token_stream().to_string().ends_with("handle_alloc_error")) {
                *e = parse_quote!(return #e);
            }
        }
        for s in &mut b.stmts {
            match s {
                Stmt::Expr(e, Some(_)) => never(e),
                Stmt::Local(Local { init: Some(LocalInit { diverge: Some((_, d)), .. }), .. }) => {
                    if let Expr::Block(d) = &mut **d {
                        if let Some(Stmt::Expr(e, None)) = d.block.stmts.last_mut() {
                            never(e);
                        }
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let (Expr::MethodCall(m), true) = (&*e, self.cx.rawptr) {
            let (p, a) = (&m.receiver, &m.args);
            match m.method.to_string().as_str() {
                "copy_from_nonoverlapping" if a.len() == 2 => {
                    let (q, n) = (&a[0], &a[1]);
                    *e = parse_quote!(std::ptr::copy_nonoverlapping(#q, #p, #n));
                }
                "copy_to_nonoverlapping" if a.len() == 2 => {
                    let (q, n) = (&a[0], &a[1]);
                    *e = parse_quote!(std::ptr::copy_nonoverlapping(#p, #q, #n));
                }
                _ => {}
            }
        }
        // places of a union, before their parts
        let place: Option<Expr> = match e {
            Expr::Assign(a) => self.union_field(&a.left).map(|(b, n)| {
                let (f, v) = (format_ident!("vx_set_{n}"), &a.right);
                parse_quote!(#b.#f(#v, Tracked(vx_mem)))
            }),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.union_field(&u.expr).map(|(b, n)| {
                let f = format_ident!("vx_{n}");
                parse_quote!(#b.#f())
            }),
            Expr::Field(_) => self.union_field(e).map(|(b, n)| {
                let f = format_ident!("vx_{n}");
                parse_quote!(#b.#f())
            }),
            Expr::Struct(s) if s.fields.len() == 1 && self.cx.unions.iter().any(|u| s.path.is_ident(&u.0)) => {
                let (t, n, v) = (&s.path, s.fields[0].member.to_token_stream().to_string(), &s.fields[0].expr);
                let f = format_ident!("vx_from_{n}");
                Some(parse_quote!(#t::#f(#v, Tracked(vx_mem))))
            }
            Expr::Cast(c) if self.cx.rawptr && matches!(&*c.ty, Type::Ptr(p) if p.elem.to_token_stream().to_string().starts_with("MaybeUninit")) => {
                self.cx.note("cast to a raw pointer to possibly uninitialised items made a call of the overlay's function");
                let x = &c.expr;
                Some(parse_quote!((#x).vx_uninit()))
            }
            Expr::Cast(c) if self.cx.rawptr && matches!(&*c.ty, Type::Ptr(_)) => {
                self.cx.note("cast between raw pointer types dropped");
                Some((*c.expr).clone())
            }
            _ => None,
        };
        if let Some(p) = place {
            if !matches!(e, Expr::Cast(_)) {
                self.cx.note("field of a union reached through the overlay's function");
            }
            *e = p;
            return self.visit_expr_mut(e);
        }
        visit_mut::visit_expr_mut(self, e);
        let t = match e {
            Expr::MethodCall(m) => self.wants(&format!(".::{}", m.method)).then_some(&mut m.args),
            Expr::Call(c) => match &*c.func {
                // (`drop` is the method)
                Expr::Path(p) => (!p.path.is_ident("drop") && self.wants(&path_string(&p.path))).then_some(&mut c.args),
                _ => None,
            },
            _ => None,
        };
        if let Some(args) = t {
            if !args.to_token_stream().to_string().ends_with("Tracked (vx_mem)") {
                args.push(parse_quote!(Tracked(vx_mem)));
                self.cx.note("ghost memory passed along");
            }
        }
    }
}

/// replace `Self::T` / `Self::T<'x>` in the functions of an impl by the impl's definition of `T`
pub fn resolve_assoc(items: &mut [ImplItem]) {
    let defs: Vec<ImplItemType> = items
        .iter()
        .filter_map(|i| if let ImplItem::Type(t) = i { Some(t.clone()) } else { None })
        .collect();
    struct R {
        defs: Vec<ImplItemType>,
    }
    struct Lt(String, Lifetime);
    struct Subst(HashMap<String, Type>);
    impl VisitMut for Subst {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if let Some(n) = p.path.get_ident().filter(|_| p.qself.is_none()) {
                    if let Some(x) = self.0.get(&n.to_string()) {
                        *t = x.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    impl VisitMut for Lt {
        fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
            if l.ident == self.0 {
                *l = self.1.clone();
            }
        }
    }
    impl VisitMut for R {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    let last = &p.path.segments[1];
                    if let Some(d) = self.defs.iter().find(|d| d.ident == last.ident) {
                        let mut ty = d.ty.clone();
                        if let PathArguments::AngleBracketed(a) = &last.arguments {
                            let params: Vec<Lifetime> = d.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
                            for (x, p) in a.args.iter().zip(params) {
                                if let GenericArgument::Lifetime(l) = x {
                                    Lt(p.ident.to_string(), l.clone()).visit_type_mut(&mut ty);
                                }
                            }
                            let params: Vec<String> = d.generics.type_params().map(|t| t.ident.to_string()).collect();
                            let tys = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None });
                            Subst(params.into_iter().zip(tys).collect()).visit_type_mut(&mut ty);
                        }
                        *t = ty;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    let mut r = R { defs };
    for i in items.iter_mut() {
        if let ImplItem::Fn(f) = i {
            r.visit_impl_item_fn_mut(f);
        }
    }
}

/// `let p = loop { .. break v .. }; rest` => `loop { .. { let p = v; rest } .. }` at the top level
/// of a function, when no name bound inside the loop can be captured by `rest`
fn inline_continuation(b: &mut syn::Block) -> bool {
    let n = b.stmts.len();
    for i in (0..n).rev() {
        let (pat, lp): (Option<Pat>, ExprLoop) = match &b.stmts[i] {
            Stmt::Local(l) => match &l.init {
                Some(init) if init.diverge.is_none() => match &*init.expr {
                    Expr::Loop(lp) => (Some(l.pat.clone()), lp.clone()),
                    _ => continue,
                },
                _ => continue,
            },
            Stmt::Expr(Expr::Loop(lp), _) => (None, lp.clone()),
            _ => continue,
        };
        if lp.label.is_some() {
            continue;
        }
        // the tail of the function when it is the loop itself: its value is the break value
        let is_tail = i + 1 == n && matches!(&b.stmts[i], Stmt::Expr(_, None));
        let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
        let mut cont: Vec<Stmt> = rest.clone();
        match cont.pop() {
            Some(Stmt::Expr(e, None)) => {
                let r: Stmt = match e {
                    Expr::Return(_) => parse_quote!(#e;),
                    e => parse_quote!(return #e;),
                };
                cont.push(r);
            }
            Some(s) => {
                let ret = matches!(&s, Stmt::Expr(Expr::Return(_), _));
                cont.push(s);
                if !ret {
                    cont.push(parse_quote!(return;));
                }
            }
            None if !is_tail => cont.push(parse_quote!(return;)),
            None => {}
        }
        // capture check
        let bound = locals(&lp.body);
        let used = {
            struct U(Vec<String>);
            impl<'a> Visit<'a> for U {
                fn visit_ident(&mut self, i: &'a Ident) {
                    self.0.push(i.to_string());
                }
            }
            let mut u = U(vec![]);
            for s in &rest {
                u.visit_stmt(s);
            }
            u.0
        };
        let own = pat
            .as_ref()
            .map(|p| {
                let t: syn::Block = parse_quote!({ let #p = (); });
                locals(&t)
            })
            .unwrap_or_default();
        if bound.iter().any(|x| used.contains(x) && !own.contains(x)) {
            continue;
        }
        struct B {
            depth: usize,
            n: usize,
            bad: bool,
            pat: Option<Pat>,
            cont: Vec<Stmt>,
            is_tail: bool,
        }
        impl VisitMut for B {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Break(b) => {
                        if b.label.is_some() {
                            self.bad = true;
                        } else if self.depth == 0 {
                            self.n += 1;
                            let cont = &self.cont;
                            let v = b.expr.take();
                            *e = match (&self.pat, v) {
                                (Some(p), Some(v)) => parse_quote!({ let #p = #v; #(#cont)* }),
                                (None, Some(v)) if self.is_tail => parse_quote!(return #v),
                                (None, None) if self.is_tail => parse_quote!(return),
                                (None, None) => parse_quote!({ #(#cont)* }),
                                _ => {
                                    self.bad = true;
                                    return;
                                }
                            };
                        }
                        return;
                    }
                    Expr::Continue(c) => {
                        if c.label.is_some() {
                            self.bad = true;
                        }
                        return;
                    }
                    Expr::Closure(_) | Expr::Async(_) => return,
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                        return;
                    }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut lp2 = lp.clone();
        let mut bb = B { depth: 0, n: 0, bad: false, pat, cont, is_tail };
        bb.visit_block_mut(&mut lp2.body);
        if bb.bad || bb.n == 0 || bb.n > 3 {
            continue;
        }
        b.stmts.truncate(i);
        b.stmts.push(Stmt::Expr(Expr::Loop(lp2), None));
        return true;
    }
    false
}

/// type parameters of an inherent impl that its self type does not mention become parameters of its functions
pub fn move_unconstrained(g: &mut Generics, self_ty: &Type, body: &mut [ImplItem]) {
    fn idents(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut st = vec![];
    idents(self_ty.to_token_stream(), &mut st);
    let moved: Vec<String> = g.type_params().map(|p| p.ident.to_string()).filter(|n| !st.contains(n)).collect();
    if moved.is_empty() {
        return;
    }
    let mentions = |t: proc_macro2::TokenStream| {
        let mut v = vec![];
        idents(t, &mut v);
        v.iter().any(|x| moved.contains(x))
    };
    let mut params: Vec<GenericParam> = vec![];
    let mut preds: Vec<WherePredicate> = vec![];
    let mut keep: syn::punctuated::Punctuated<GenericParam, Token![,]> = Default::default();
    for p in std::mem::take(&mut g.params) {
        match p {
            GenericParam::Type(t) if moved.contains(&t.ident.to_string()) => params.push(GenericParam::Type(t)),
            GenericParam::Type(mut t) => {
                let bs = std::mem::take(&mut t.bounds);
                for b in bs {
                    if mentions(b.to_token_stream()) {
                        let id = &t.ident;
                        preds.push(parse_quote!(#id: #b));
                    } else {
                        t.bounds.push(b);
                    }
                }
                keep.push(GenericParam::Type(t));
            }
            p => keep.push(p),
        }
    }
    g.params = keep;
    if let Some(w) = &mut g.where_clause {
        let old = std::mem::take(&mut w.predicates);
        for p in old {
            if mentions(p.to_token_stream()) {
                preds.push(p);
            } else {
                w.predicates.push(p);
            }
        }
    }
    for x in body.iter_mut() {
        if let ImplItem::Fn(f) = x {
            for p in &params {
                f.sig.generics.params.push(p.clone());
            }
            let w = f.sig.generics.make_where_clause();
            for p in &preds {
                w.predicates.push(p.clone());
            }
        }
    }
}

struct Refuse;
impl VisitMut for Refuse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (n == "unwrap" && m.args.is_empty()) || (n == "expect" && m.args.len() == 1) {
                m.method = format_ident!("vx_unwrap");
                m.args.clear();
                m.args.push(parse_quote!(Ghost(vx_refusal)));
            }
        }
    }
}
/// unwrapping what is not there refuses the call
pub fn refuse_unwraps(b: &mut Block) {
    Refuse.visit_block_mut(b);
}
