//! Mechanical lowering of Rust function bodies to the Verus dialect.
use crate::vc::FnSpec;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

/// Everything known about the repository that lowering needs
#[derive(Default)]
pub struct World {
    pub modules: BTreeSet<String>,
    /// functions under contract (last path segment), to tell them from helpers to be inlined
    pub contracted: BTreeSet<String>,
    /// per source file: free functions and inherent methods by name
    pub free: BTreeMap<(String, String), ItemFn>,
    pub methods: BTreeMap<(String, String), ImplItemFn>,
    /// constants by (file, name)
    pub consts: BTreeSet<String>,
    /// (module, function) under contract
    pub modfns: BTreeSet<(String, String)>,
    /// functions that take the output trace
    pub outfns: BTreeSet<String>,
}

pub struct Ctx<'a> {
    pub w: &'a World,
    pub spec: &'a FnSpec,
    pub src: String,
    pub nloop: usize,
    pub used_loops: BTreeSet<usize>,
    pub used_ghosts: BTreeSet<String>,
    pub nsort: usize,
    /// how often a numbered hook has matched
    pub nhook: std::collections::BTreeMap<String, usize>,
    pub mutself: bool,
    pub depth: usize,
    pub tmp: usize,
    pub rules: BTreeMap<&'static str, usize>,
    pub inlined: Vec<String>,
    /// rename of `self` while inlining a method
    pub this: Vec<Option<String>>,
    /// variables bound to a `&mut`
    pub mutrefs: BTreeSet<String>,
    /// local vectors that nothing outside the function can see
    pub owned: BTreeSet<String>,
    /// return type, to annotate the result
    pub ret: Option<String>,
}

const RENAMED: &[&str] = &[
    "clone", "to_owned", "to_string", "into", "borrow", "deref", "cmp", "partial_cmp", "iter",
    "values", "keys", "chars", "into_iter", "push_str", "push", "pop", "append", "extend", "trim",
    "to_lowercase", "starts_with", "ends_with", "contains", "split", "join", "is_whitespace",
    "is_numeric", "as_str", "get", "len", "unwrap", "expect", "unwrap_or", "as_ref", "is_empty",
    "truncate", "matches", "first", "last", "lines", "insert", "remove", "clear", "trim_start",
    "trim_end", "is_alphabetic", "is_ascii_digit", "is_digit", "to_uppercase", "to_vec", "swap",
    "drain", "retain", "contains_key", "get_or_insert_with", "entry", "is_some", "is_none", "is_ok",
    "is_err", "cloned", "copied", "ok", "reverse", "eq", "ne", "inv", "nth", "or_insert", "pow",
];
const BASES: &[&str] = &["iter", "values", "keys", "chars", "into_iter", "split", "matches", "lines"];
const ADAPTORS: &[&str] = &[
    "filter", "map", "enumerate", "rev", "take", "skip", "cloned", "copied", "take_while", "skip_while",
];
const TERMINALS: &[&str] = &[
    "collect", "fold", "count", "any", "all", "next", "last", "for_each", "find", "nth",
];
pub fn vname(n: &str) -> String {
    if RENAMED.contains(&n) {
        format!("v_{}", n)
    } else {
        n.to_string()
    }
}

enum Stage {
    Filter(Expr),
    Map(Expr),
    Clone,
    TakeWhile(Expr),
}
struct Pipe {
    pre: String,
    base: String,
    enumerate: bool,
    stages: Vec<Stage>,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn line(s: Span) -> usize {
    s.start().line
}

pub struct Strip<'a> {
    pub w: &'a World,
}
impl<'a> Strip<'a> {
    fn path(&self, p: &mut Path) {
        let n = p.segments.len();
        if n >= 2 {
            let seg2 = p.segments[n - 2].ident.to_string();
            let upper = seg2.chars().next().unwrap().is_uppercase();
            let keep = if upper {
                2
            } else if let Some(m) = ["t_", "cmd_"].iter().map(|x| format!("{}{}", x, seg2)).find(|m| {
                self.w.modfns.contains(&(m.clone(), p.segments[n - 1].ident.to_string()))
                    && !self.w.modfns.contains(&(seg2.clone(), p.segments[n - 1].ident.to_string()))
            }) {
                // tokenizers::transaction and models::transaction share a name
                let m = Ident::new(&m, Span::call_site());
                let f = p.segments[n - 1].clone();
                *p = parse_quote!(crate::#m::#f);
                return;
            } else if self.w.modules.contains(&seg2)
                && p.segments[n - 1].ident.to_string().chars().next().unwrap().is_lowercase()
            {
                // module function
                let segs: Vec<PathSegment> = p.segments.iter().skip(n - 2).cloned().collect();
                let mut np: Path = parse_quote!(crate);
                for s in segs {
                    np.segments.push(s);
                }
                *p = np;
                return;
            } else {
                1
            };
            let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let Type::Path(tp) = t {
            let last = tp.path.segments.last().unwrap();
            let name = last.ident.to_string();
            let args: Vec<GenericArgument> = match &last.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
                _ => vec![],
            };
            let lt: Vec<Lifetime> = args
                .iter()
                .filter_map(|a| match a {
                    GenericArgument::Lifetime(l) if l.ident != "_" => Some(l.clone()),
                    _ => None,
                })
                .collect();
            let tys: Vec<Type> = args
                .iter()
                .filter_map(|a| match a {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                })
                .collect();
            if name == "Iter" && tys.len() == 2 {
                let (k, v) = (&tys[0], &tys[1]);
                *t = if let Some(l) = lt.first() {
                    parse_quote!(Vec<(&#l #k, &#l #v)>)
                } else {
                    parse_quote!(Vec<(&#k, &#v)>)
                };
            } else if name == "Values" && tys.len() == 2 {
                let v = &tys[1];
                *t = parse_quote!(Vec<&#v>);
            } else if name == "Result" && args.is_empty() {
                *t = parse_quote!(FmtResult);
            } else if name == "HashSet" && tys.len() == 2 {
                let k = &tys[0];
                *t = parse_quote!(HashSet<#k>);
            }
        }
    }
}

pub fn ty_str(w: &World, t: &Type) -> String {
    let mut t = t.clone();
    Strip { w }.visit_type_mut(&mut t);
    t.to_token_stream().to_string()
}
pub fn generics_str(w: &World, g: &Generics) -> (String, String) {
    let mut g = g.clone();
    // bounds on std traits are dropped, the project's own and the shim traits are kept
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let mut bounds = syn::punctuated::Punctuated::new();
            let mut had = false;
            for b in t.bounds.iter() {
                if let TypeParamBound::Trait(tb) = b {
                    let n = tb.path.segments.last().unwrap().ident.to_string();
                    if ["HasName", "HasAliases", "FromDirective"].contains(&n.as_str()) {
                        let id = Ident::new(&n, Span::call_site());
                        let b2: TypeParamBound = parse_quote!(#id);
                        bounds.push(b2);
                        had = true;
                    }
                }
            }
            t.bounds = bounds;
            if !had {
                t.colon_token = None;
            }
        }
    }
    let _ = w;
    let wh = g.where_clause.take();
    (
        g.to_token_stream().to_string(),
        wh.map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
    )
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        // arguments of formatting macros
        if let Ok(args) = m.parse_body_with(
            syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
        ) {
            for a in args {
                let mut h = HasRet(false);
                h.visit_expr(&a);
                self.0 |= h.0;
            }
        }
    }
}
/// break or continue that leaves the loop body
struct Leaves {
    depth: usize,
    found: bool,
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        if self.depth == 0 || b.label.is_some() {
            self.found = true;
        }
    }
    fn visit_expr_continue(&mut self, b: &'a ExprContinue) {
        if self.depth == 0 || b.label.is_some() {
            self.found = true;
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, f: &'a ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, f);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'a ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, f);
        self.depth -= 1;
    }
}
/// `return` or `?` (not inside closures)
struct Exits(bool);
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
/// variables every declaration of which is `let mut x = <a new vector>`
#[derive(Default)]
pub struct OwnedVecs {
    pub yes: BTreeSet<String>,
    pub no: BTreeSet<String>,
}
impl<'a> Visit<'a> for OwnedVecs {
    fn visit_local(&mut self, l: &'a Local) {
        let mut p = &l.pat;
        if let Pat::Type(t) = p {
            p = &t.pat;
        }
        if let (Pat::Ident(id), Some(i)) = (p, &l.init) {
            let fresh = match &*i.expr {
                Expr::Call(c) => c.func.to_token_stream().to_string().replace(' ', "").ends_with("Vec::new"),
                Expr::Macro(m) => m.mac.path.is_ident("vec"),
                _ => false,
            };
            if fresh && id.by_ref.is_none() {
                self.yes.insert(id.ident.to_string());
                return;
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.no.insert(p.ident.to_string());
    }
}
/// a loop variable that is written through: `p` becomes the element taken out
struct Subst {
    from: String,
    to: Ident,
    bad: bool,
}
impl VisitMut for Subst {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from {
            self.bad = true;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let toks = m.tokens.to_string();
        if toks.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.from) {
            self.bad = true;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let to = self.to.clone();
        let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(&self.from));
        match e {
            Expr::Field(f) if is(&f.base) => {
                *f.base = parse_quote!(#to);
                return;
            }
            Expr::MethodCall(m) if is(&m.receiver) => {
                *m.receiver = parse_quote!(#to);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            _ => {}
        }
        if is(e) {
            *e = parse_quote!((&#to));
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
/// does the expression change a cell of variable `v` (`v.f.borrow_mut()...`)?
struct CellWrite {
    var: String,
    found: bool,
}
impl<'a> Visit<'a> for CellWrite {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "borrow_mut" {
            if let Expr::Field(f) = &*m.receiver {
                if matches!(&*f.base, Expr::Path(p) if p.path.is_ident(&self.var)) {
                    self.found = true;
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}
/// after each statement that changes a cell of the element, put the element back
struct PutBack {
    var: String,
    text: String,
}
impl VisitMut for PutBack {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut st in b.stmts.drain(..) {
            let direct = match &st {
                Stmt::Expr(Expr::MethodCall(m), _) => {
                    let mut w = CellWrite { var: self.var.clone(), found: false };
                    w.visit_expr_method_call(m);
                    w.found
                }
                _ => false,
            };
            self.visit_stmt_mut(&mut st);
            out.push(st);
            if direct {
                let t = &self.text;
                out.push(parse_quote!(vraw!(#t);));
            }
        }
        b.stmts = out;
    }
}
struct RefPat {
    refs: usize,
    plain: usize,
}
impl<'a> Visit<'a> for RefPat {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.by_ref.is_some() {
            self.refs += 1;
        } else if p.ident.to_string().chars().next().unwrap().is_lowercase() {
            self.plain += 1;
        }
    }
}
struct DropRef;
impl VisitMut for DropRef {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        p.by_ref = None;
    }
}

/// local names that mean something else to Verus
const RESERVED: &[&str] = &[
    "real", "int", "nat", "spec", "proof", "exec", "ghost", "tracked", "choose", "forall", "exists", "open", "closed",
    "assume", "requires", "ensures", "invariant", "decreases", "is", "has", "by", "recommends", "implies", "opens_invariants",
    "seq", "set", "map", "old", "final", "reveal", "via", "when", "any", "no_unwind", "broadcast", "group", "uninterp",
];
struct Unreserve;
impl VisitMut for Unreserve {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        syn::visit_mut::visit_pat_ident_mut(self, p);
        if RESERVED.iter().any(|r| p.ident == r) {
            p.ident = Ident::new(&format!("{}_v", p.ident), p.ident.span());
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            let id = p.path.segments[0].ident.clone();
            if RESERVED.iter().any(|r| id == r) {
                p.path.segments[0].ident = Ident::new(&format!("{}_v", id), id.span());
            }
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        syn::visit_mut::visit_field_pat_mut(self, f);
        if f.colon_token.is_none() {
            if let (Member::Named(m), Pat::Ident(i)) = (&f.member, &*f.pat) {
                if *m != i.ident {
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // arguments of formatting macros are read as expressions
        if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}
pub fn unreserve_sig(g: &Signature) -> Signature {
    let mut g = g.clone();
    Unreserve.visit_signature_mut(&mut g);
    g
}
pub fn unreserve(b: &Block) -> Block {
    let mut b = b.clone();
    Unreserve.visit_block_mut(&mut b);
    b
}

fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Char(_) | Lit::Bool(_) | Lit::Byte(_)),
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && is_lit(&u.expr),
        Expr::Cast(_) => true,
        _ => false,
    }
}

impl<'a> Ctx<'a> {
    pub fn new(w: &'a World, spec: &'a FnSpec, src: &str) -> Self {
        Ctx {
            w,
            spec,
            src: src.to_string(),
            nloop: 0,
            used_loops: Default::default(),
            used_ghosts: Default::default(),
            nsort: 0,
            nhook: Default::default(),
            mutself: false,
            depth: 0,
            tmp: 0,
            rules: Default::default(),
            inlined: vec![],
            this: vec![None],
            owned: Default::default(),
            mutrefs: Default::default(),
            ret: None,
        }
    }
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_default() += 1;
    }
    fn ghost(&mut self, a: &str) -> String {
        match self.spec.ghosts.get(a) {
            Some(s) => {
                self.used_ghosts.insert(a.to_string());
                format!("\n{}\n", s)
            }
            None => String::new(),
        }
    }
    /// the label of a loop, and whether it is verified apart (`iso=N`)
    fn lab(&self, n: usize, lab: String) -> String {
        if self.spec.has(&format!("iso={}", n)) { format!("#[verifier::loop_isolation(true)] {}", lab) } else { lab }
    }
    fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }
    pub fn body(&mut self, b: &Block) -> Res<String> {
        let b = &unreserve(b);
        let mut s = String::from("{\n");
        s.push_str(&self.ghost("start"));
        if self.mutself {
            s.push_str("let mut self_ = self;\n");
        }
        let n = b.stmts.len();
        let has_tail = self.spec.ghosts.contains_key("tail");
        let mut puts = String::new();
        for (i, st) in b.stmts.iter().enumerate() {
            if self.spec.has("cells") {
                if let Some((name, cell)) = cell_let(st) {
                    let mut h = HasRet(false);
                    for r in &b.stmts[i + 1..] {
                        h.visit_stmt(r);
                    }
                    if h.0 {
                        return Err("return while a cell is borrowed".into());
                    }
                    self.rule("borrow_mut through & -> take/put back under the cell's invariant");
                    let c = self.expr(&cell)?;
                    let owner = match c.rfind('.') {
                        Some(i) if &c[..i] == "self" => "self".to_string(),
                        Some(i) => format!("&({})", &c[..i]),
                        None => return Err("cell without an owner".to_string()),
                    };
                    s.push_str(&format!("let mut {} = {}.v_take_of({});\nlet cret_ = {{\n", name, c, owner));
                    puts.insert_str(0, &format!("}};\n{}.v_put_of({}, {});\ncret_\n", c, owner, name));
                    continue;
                }
            }
            if i + 1 == n {
                if has_tail {
                    if let Stmt::Expr(e, None) = st {
                        let v = self.expr(e)?;
                        let g = self.ghost("tail");
                        let t = self.ret.as_ref().map(|t| format!(": {}", t)).unwrap_or_default();
                        s.push_str(&format!("let ret_{} = {};\n{}\nret_\n", t, v, g));
                        continue;
                    }
                    s.push_str(&self.stmt(st)?);
                    let g = self.ghost("tail");
                    s.push_str(&g);
                    continue;
                }
            }
            s.push_str(&self.stmt(st)?);
        }
        s.push_str(&puts);
        s.push_str("}\n");
        for k in self.spec.ghosts.keys() {
            if !self.used_ghosts.contains(k) {
                return Err(format!("anchor lost: ghost `{}`", k));
            }
        }
        for k in self.spec.loops.keys() {
            if !self.used_loops.contains(k) {
                return Err(format!("anchor lost: loop {}", k));
            }
        }
        if self.nloop != self.spec.loops.len() {
            return Err(format!(
                "loop structure changed: {} loops, {} under contract",
                self.nloop,
                self.spec.loops.len()
            ));
        }
        Ok(s)
    }
    fn block(&mut self, b: &Block) -> Res<String> {
        let mut s = String::from("{\n");
        for st in b.stmts.iter() {
            s.push_str(&self.stmt(st)?);
        }
        s.push_str("}");
        Ok(s)
    }
    fn stmt(&mut self, st: &Stmt) -> Res<String> {
        let raw = norm(&st.to_token_stream().to_string());
        let mut pre = String::new();
        let mut post = String::new();
        let keys: Vec<String> = self.spec.ghosts.keys().cloned().collect();
        for k in keys {
            let (key, nth) = match k.rsplit_once(" @") {
                Some((a, n)) if n.parse::<usize>().is_ok() => (a, n.parse::<usize>().ok()),
                _ => (k.as_str(), None),
            };
            let hit = |p: &str| raw.starts_with(&norm(p));
            let at = match (key.strip_prefix("pre "), key.strip_prefix("post ")) {
                (Some(p), _) if hit(p) => &mut pre,
                (_, Some(p)) if hit(p) => &mut post,
                _ => continue,
            };
            if let Some(n) = nth {
                let c = self.nhook.entry(k.clone()).or_default();
                *c += 1;
                if *c != n + 1 {
                    continue;
                }
            }
            at.push_str(&self.ghost(&k));
        }
        let mark = format!("/*:{}*/ ", line(st.span()));
        let body = match st {
            Stmt::Local(l) => {
                let init = match &l.init {
                    None => None,
                    Some(i) => {
                        if i.diverge.is_some() {
                            return Err("let-else".into());
                        }
                        Some(self.expr(&i.expr)?)
                    }
                };
                let pat = self.pat_ty(&l.pat)?;
                match init {
                    Some(i) => format!("let {} = {};\n", pat, i),
                    None => format!("let {};\n", pat),
                }
            }
            Stmt::Expr(e, semi) => {
                let v = self.expr(e)?;
                if semi.is_some() {
                    format!("{};\n", v)
                } else {
                    format!("{}\n", v)
                }
            }
            Stmt::Macro(m) => {
                if m.mac.path.is_ident("lazy_static") {
                    return Err("lazy_static".into());
                }
                let v = self.mac(&m.mac)?;
                format!("{};\n", v)
            }
            Stmt::Item(Item::Use(_)) => String::new(),
            Stmt::Item(_) => return Err("nested item".into()),
        };
        Ok(format!("{}{}{}{}", pre, mark, body, post))
    }
    fn pat_ty(&mut self, p: &Pat) -> Res<String> {
        match p {
            Pat::Type(t) => {
                let inner = self.pat(&t.pat)?;
                if norm(&t.ty.to_token_stream().to_string()).contains("_>") {
                    // placeholder types confuse nobody, keep them
                }
                Ok(format!("{} : {}", inner, ty_str(self.w, &t.ty)))
            }
            _ => self.pat(p),
        }
    }
    fn pat(&mut self, p: &Pat) -> Res<String> {
        let mut p = p.clone();
        Strip { w: self.w }.visit_pat_mut(&mut p);
        Ok(p.to_token_stream().to_string())
    }
    fn path_str(&mut self, p: &Path) -> String {
        if p.is_ident("self") {
            if let Some(Some(t)) = self.this.last() {
                return t.clone();
            }
        }
        let mut p = p.clone();
        Strip { w: self.w }.visit_path_mut(&mut p);
        p.to_token_stream().to_string()
    }
    pub fn exprs(&mut self, es: &[&Expr]) -> Res<Vec<String>> {
        es.iter().map(|e| self.expr(e)).collect()
    }
    pub fn expr(&mut self, e: &Expr) -> Res<String> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Float(_) => return Err("float".into()),
                x => x.to_token_stream().to_string(),
            },
            Expr::Path(p) => self.path_str(&p.path),
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        self.rule("string slice -> v_slice");
                        let b = self.expr(&ix.expr)?;
                        return self.slice(b, rg);
                    }
                }
                let m = if r.mutability.is_some() { "mut " } else { "" };
                format!("(&{}{})", m, self.expr(&r.expr)?)
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => format!("(*{})", self.expr(&u.expr)?),
                UnOp::Not(_) => format!("(!({}))", self.expr(&u.expr)?),
                UnOp::Neg(_) => {
                    if is_lit(&u.expr) {
                        format!("(-{})", self.expr(&u.expr)?)
                    } else {
                        self.rule("operator -> trait call");
                        format!("VNeg::vneg({})", self.expr(&u.expr)?)
                    }
                }
                _ => return Err("unary operator".into()),
            },
            Expr::Binary(b) => self.binary(b)?,
            Expr::Assign(a) => {
                // `_ = e` never occurs
                let l = self.expr(&a.left)?;
                let r = self.expr(&a.right)?;
                format!("{} = {}", l, r)
            }
            Expr::Field(f) => {
                let b = self.expr(&f.base)?;
                format!("{}.{}", b, f.member.to_token_stream())
            }
            Expr::Index(ix) => {
                if let Expr::Range(rg) = &*ix.index {
                    let b = self.expr(&ix.expr)?;
                    self.rule("string slice -> v_slice");
                    let s = self.slice(b, rg)?;
                    return Ok(s);
                }
                let b = self.expr(&ix.expr)?;
                let i = self.expr(&ix.index)?;
                format!("{}[{}]", b, i)
            }
            Expr::Tuple(t) => {
                let es: Vec<&Expr> = t.elems.iter().collect();
                let v = self.exprs(&es)?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&b.block)?
            }
            Expr::If(i) => self.if_(i)?,
            Expr::Match(m) => self.match_(m)?,
            Expr::Return(r) => match &r.expr {
                Some(e) => {
                    let v = self.expr(e)?;
                    format!("return {}", v)
                }
                None => "return".to_string(),
            },
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return Err("break with value".into());
                }
                match &b.label {
                    Some(l) => format!("break {}", l.to_token_stream()),
                    None => "break".into(),
                }
            }
            Expr::Continue(c) => match &c.label {
                Some(l) => format!("continue {}", l.to_token_stream()),
                None => "continue".into(),
            },
            Expr::Cast(c) => {
                let v = self.expr(&c.expr)?;
                format!("(({}) as {})", v, ty_str(self.w, &c.ty))
            }
            Expr::Struct(s) => {
                let mut out = format!("{} {{ ", self.path_str(&s.path));
                for f in s.fields.iter() {
                    let v = self.expr(&f.expr)?;
                    out.push_str(&format!("{}: {}, ", f.member.to_token_stream(), v));
                }
                if let Some(r) = &s.rest {
                    let v = self.expr(r)?;
                    out.push_str(&format!("..{}", v));
                }
                out.push_str(" }");
                out
            }
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Try(t) => {
                self.rule("? -> match");
                let v = self.expr(&t.expr)?;
                let n = self.fresh();
                format!(
                    "(match {} {{ Ok(q{n}_) => q{n}_, Err(q{n}_) => return Err(VFrom::vfrom(q{n}_)) }})",
                    v
                )
            }
            Expr::While(w) => self.while_(w)?,
            Expr::Loop(l) => {
                let n = self.nloop;
                self.nloop += 1;
                let lab = l.label.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                let lab = self.lab(n, lab);
                let before = self.ghost(&format!("before {}", n));
                let top = self.ghost(&format!("top {}", n));
                let bot = self.ghost(&format!("bot {}", n));
                let after = self.ghost(&format!("after {}", n));
                let inv = self.invs(n, "", "")?;
                let b = self.block_with(&l.body, &top, &bot)?;
                format!("{{ {} {} loop {} {} {} }}", before, lab, inv, b, after)
            }
            Expr::ForLoop(f) => self.for_(f)?,
            Expr::Closure(_) => return Err("closure in value position".into()),
            Expr::Range(_) => return Err("range in value position".into()),
            Expr::Let(_) => return Err("let chain".into()),
            x => return Err(format!("expression kind {}", kind(x))),
        })
    }
    fn block_with(&mut self, b: &Block, top: &str, bot: &str) -> Res<String> {
        let s = self.block(b)?;
        let inner = s[1..s.len() - 1].to_string();
        // a trailing unit expression needs its semicolon before ghost code
        let sep = if bot.is_empty() { "" } else { ";" };
        Ok(format!("{{ {} {} {} {} }}", top, inner, sep, bot))
    }
    fn invs(&mut self, n: usize, auto: &str, auto_dec: &str) -> Res<String> {
        let user = match self.spec.loops.get(&n) {
            Some(s) => {
                self.used_loops.insert(n);
                s.clone()
            }
            None => String::new(),
        };
        let mut inv = String::new();
        let mut tail = String::new();
        let mut exc = String::new();
        let mut sec = 0;
        let mut has_dec = false;
        for l in user.lines() {
            let t = l.trim_start();
            if t.starts_with("invariant_except_break") {
                sec = 1;
            } else if t.starts_with("decreases") || t.starts_with("ensures") {
                sec = 2;
            }
            if t.starts_with("decreases") {
                has_dec = true;
            }
            let d = match sec {
                0 => &mut inv,
                1 => &mut exc,
                _ => &mut tail,
            };
            d.push_str(l);
            d.push('\n');
        }
        let mut s = String::new();
        if !exc.is_empty() {
            s.push_str(&format!("\n{}", exc));
        }
        if !auto.is_empty() || !inv.trim().is_empty() {
            s.push_str("\ninvariant\n");
            s.push_str(auto);
            s.push_str(&inv);
        }
        s.push('\n');
        s.push_str(&tail);
        if !has_dec && !auto_dec.is_empty() {
            s.push_str(&format!("decreases {}\n", auto_dec));
        }
        Ok(s)
    }
    fn while_(&mut self, w: &ExprWhile) -> Res<String> {
        let n = self.nloop;
        self.nloop += 1;
        let lab = w.label.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
        let lab = self.lab(n, lab);
        let before = self.ghost(&format!("before {}", n));
        let top = self.ghost(&format!("top {}", n));
        let bot = self.ghost(&format!("bot {}", n));
        let after = self.ghost(&format!("after {}", n));
        if let Expr::Let(l) = &*w.cond {
            self.rule("while let -> loop/match");
            let inv = self.invs(n, "", "")?;
            let s = self.expr(&l.expr)?;
            let p = self.pat(&l.pat)?;
            let b = self.block_with(&w.body, &top, &bot)?;
            return Ok(format!(
                "{{ {} {} loop {} {{ match {} {{ {} => {}, _ => {{ break; }} }} }} {} }}",
                before, lab, inv, s, p, b, after
            ));
        }
        let inv = self.invs(n, "", "")?;
        let c = self.expr(&w.cond)?;
        let b = self.block_with(&w.body, &top, &bot)?;
        Ok(format!("{{ {} {} while {} {} {} {} }}", before, lab, c, inv, b, after))
    }
    fn for_(&mut self, f: &ExprForLoop) -> Res<String> {
        let lab = f.label.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
        if let Expr::Range(r) = strip_paren(&f.expr) {
            self.rule("for range -> while");
            let n = self.nloop;
            self.nloop += 1;
            let lo = match &r.start {
                Some(s) => self.expr(s)?,
                None => return Err("open range".into()),
            };
            let hi = match &r.end {
                Some(s) => self.expr(s)?,
                None => return Err("open range".into()),
            };
            if let RangeLimits::Closed(_) = r.limits {
                return Err("inclusive range".into());
            }
            let before = self.ghost(&format!("before {}", n));
            let top = self.ghost(&format!("top {}", n));
            let bot = self.ghost(&format!("bot {}", n));
            let after = self.ghost(&format!("after {}", n));
            let inv = self.invs(
                n,
                &format!("lo{n} <= i{n}, i{n} <= hi{n} || i{n} == lo{n},\n"),
                &format!("hi{n} - i{n}"),
            )?;
            let p = self.pat(&f.pat)?;
            let b = self.block_with(&f.body, &top, &bot)?;
            return Ok(format!(
                "{{ let lo{n}: usize = {lo}; let hi{n}: usize = {hi}; let mut i{n}: usize = lo{n}; {before} {lab} while i{n} < hi{n} {inv} {{ let {p} = i{n}; i{n} = i{n} + 1;\n {b} }} {after} }}"
            ));
        }
        if let Expr::MethodCall(m) = strip_paren(&f.expr) {
            if m.method == "iter_mut" && m.args.is_empty() {
                return self.for_mut(f, m, &lab);
            }
        }
        if let (Some(x), Pat::Ident(id)) = (cell_iter(&f.expr), &*f.pat) {
            let mut w = CellWrite { var: id.ident.to_string(), found: false };
            w.visit_block(&f.body);
            if w.found {
                return self.for_cells(f, &x, &id.ident.to_string(), &lab);
            }
        }
        let pipe = self.pipe(&f.expr)?;
        self.rule("for/iterator chain -> indexed while");
        let n = self.nloop;
        self.nloop += 1;
        let before = self.ghost(&format!("before {}", n));
        let top = self.ghost(&format!("top {}", n));
        let bot = self.ghost(&format!("bot {}", n));
        let after = self.ghost(&format!("after {}", n));
        let p = self.pat(&f.pat)?;
        let body = |c: &mut Self, item: String| -> Res<String> {
            let b = c.block(&f.body)?;
            let inner = b[1..b.len() - 1].to_string();
            Ok(format!("let {} = {};\n{}\n{}", p, item, top, inner))
        };
        let lp = self.run_pipe(n, pipe, &lab, body, &bot)?;
        Ok(format!("{{ {} }}", lp.replace("/*BEFORE*/", &before) + &after))
    }
    /// `for p in x.borrow().iter()` with a body that changes cells of `p`: the element is copied out, and put back after every such change
    fn for_cells(&mut self, f: &ExprForLoop, x: &Expr, p: &str, lab: &str) -> Res<String> {
        let n = self.nloop;
        self.nloop += 1;
        let before = self.ghost(&format!("before {}", n));
        let top = self.ghost(&format!("top {}", n));
        let bot = self.ghost(&format!("bot {}", n));
        let after = self.ghost(&format!("after {}", n));
        let v = format!("{}.v", self.expr(x)?);
        let el = format!("el{n}");
        let mut body = f.body.clone();
        let mut su = Subst { from: p.to_string(), to: Ident::new(&el, Span::call_site()), bad: false };
        su.visit_block_mut(&mut body);
        if su.bad {
            return Err("loop variable with written cells is rebound".into());
        }
        PutBack { var: el.clone(), text: format!("{v}.set(i{n} - 1, {el}.v_clone());") }.visit_block_mut(&mut body);
        let mut w = CellWrite { var: el.clone(), found: false };
        struct Others<'b>(&'b mut CellWrite);
        impl<'a, 'b> Visit<'a> for Others<'b> {
            fn visit_block(&mut self, b: &'a Block) {
                for (i, st) in b.stmts.iter().enumerate() {
                    let put = matches!(b.stmts.get(i + 1), Some(Stmt::Macro(m)) if m.mac.path.is_ident("vraw"));
                    if !put {
                        self.visit_stmt(st);
                    }
                }
            }
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                if m.method == "borrow_mut" {
                    self.0.visit_expr_method_call(m);
                }
                syn::visit::visit_expr_method_call(self, m);
            }
        }
        Others(&mut w).visit_block(&body);
        if w.found {
            return Err("cell of a loop variable changed inside a larger expression".into());
        }
        self.rule("for over borrowed cell with inner cells written -> indexed while, element put back after every write");
        let inv = self.invs(n, &format!("i{n} <= {v}.len(), {v}.len() == len{n},\n"), &format!("{v}.len() - i{n}"))?;
        let b = self.block(&body)?;
        let inner = b[1..b.len() - 1].to_string();
        Ok(format!(
            "{{ let mut i{n}: usize = 0; let len{n}: usize = {v}.len(); {before} {lab} while i{n} < {v}.len() {inv} {{ let mut {el} = {v}[i{n}].v_clone(); i{n} = i{n} + 1;\n{top}\n{inner} ; {bot} }} {after} }}"
        ))
    }
    /// `for t in v.iter_mut()`: each element is taken out, changed and put back
    fn for_mut(&mut self, f: &ExprForLoop, m: &ExprMethodCall, lab: &str) -> Res<String> {
        if !matches!(&*m.receiver, Expr::Path(_)) {
            return Err("iter_mut of something else than a variable".into());
        }
        let mut h = Leaves { depth: 0, found: false };
        h.visit_block(&f.body);
        if h.found {
            return Err("iter_mut loop left or continued early".into());
        }
        let v = self.expr(&m.receiver)?;
        let mut x = Exits(false);
        x.visit_block(&f.body);
        if x.0 && !self.owned.contains(&m.receiver.to_token_stream().to_string()) {
            return Err("iter_mut loop returns early, over a vector that outlives the function".into());
        }
        self.rule("for over iter_mut -> indexed while, element taken out and put back");
        let n = self.nloop;
        self.nloop += 1;
        let before = self.ghost(&format!("before {}", n));
        let top = self.ghost(&format!("top {}", n));
        let bot = self.ghost(&format!("bot {}", n));
        let end = self.ghost(&format!("end {}", n));
        let after = self.ghost(&format!("after {}", n));
        let p = self.pat(&f.pat)?;
        let inv = self.invs(n, &format!("i{n} <= {v}.len(), {v}.len() == len{n},\n"), &format!("{v}.len() - i{n}"))?;
        if let Pat::Ident(id) = &*f.pat {
            self.mutrefs.insert(id.ident.to_string());
        }
        let b = self.block(&f.body)?;
        if let Pat::Ident(id) = &*f.pat {
            self.mutrefs.remove(&id.ident.to_string());
        }
        let inner = b[1..b.len() - 1].to_string();
        Ok(format!(
            "{{ let mut i{n}: usize = 0; let len{n}: usize = {v}.len(); {before} {lab} while i{n} < {v}.len() {inv} {{ let mut el{n} = {v}[i{n}].v_clone(); i{n} = i{n} + 1; {{ let {p} = &mut el{n};\n{top}\n{inner} ; {end} }} {v}.set(i{n} - 1, el{n}); {bot} }} {after} }}"
        ))
    }
    /// loop over a pipeline; `body` gets the item expression
    fn run_pipe(
        &mut self,
        n: usize,
        pipe: Pipe,
        lab: &str,
        body: impl FnOnce(&mut Self, String) -> Res<String>,
        bot: &str,
    ) -> Res<String> {
        let lab = &self.lab(n, lab.to_string());
        let inv = self.invs(
            n,
            &format!("i{n} <= it{n}.len(),\n"),
            &format!("it{n}.len() - i{n}"),
        )?;
        let item = if pipe.enumerate {
            format!("(i{n}, vat(&it{n}, i{n}))")
        } else {
            format!("vat(&it{n}, i{n})")
        };
        let mut open = String::new();
        let mut close = String::new();
        let mut cur = format!("x{n}_0");
        open.push_str(&format!("let {cur} = {item};\n i{n} = i{n} + 1;\n"));
        open.push_str(&self.ghost(&format!("head {}", n)));
        let mut k = 0;
        for st in pipe.stages.iter() {
            k += 1;
            match st {
                Stage::Filter(c) => {
                    let v = self.apply(c, &format!("&{}", cur))?;
                    open.push_str(&format!("if {} {{\n", v));
                    close.insert_str(0, "}");
                }
                Stage::TakeWhile(c) => {
                    let v = self.apply(c, &format!("&{}", cur))?;
                    open.push_str(&format!("if !({}) {{ break; }}\n", v));
                }
                Stage::Map(c) => {
                    let v = self.apply(c, &cur)?;
                    let nx = format!("x{n}_{k}");
                    open.push_str(&format!("let {} = {};\n", nx, v));
                    cur = nx;
                }
                Stage::Clone => {
                    let nx = format!("x{n}_{k}");
                    open.push_str(&format!("let {} = {}.v_clone();\n", nx, cur));
                    cur = nx;
                }
            }
        }
        let b = body(self, cur)?;
        let sep = if bot.is_empty() && close.is_empty() { "" } else { ";" };
        Ok(format!(
            "{} let it{n} = {}; let mut i{n}: usize = 0; /*BEFORE*/ {lab} while i{n} < it{n}.len() {inv} {{ {open} {b} {sep} {close} {bot} }}",
            pipe.pre, pipe.base
        ))
    }
    /// apply a closure (inlined) or a function path to an argument
    fn apply(&mut self, f: &Expr, arg: &str) -> Res<String> {
        match f {
            Expr::Closure(c) => {
                let mut h = HasRet(false);
                h.visit_expr(&c.body);
                if h.0 {
                    return Err("return inside closure".into());
                }
                if c.inputs.len() != 1 {
                    return Err("closure arity".into());
                }
                let (p, arg) = self.closure_param(&c.inputs[0], arg)?;
                let b = self.expr(&c.body)?;
                Ok(format!("{{ let {} = {}; {} }}", p, arg, b))
            }
            Expr::Path(p) => {
                let s = self.path_str(&p.path);
                let last = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() > 1 {
                    // Type::method used as a function value: a method call on the argument
                    return Ok(format!("({}).{}()", arg, vname(&last)));
                }
                Ok(format!("{}({})", s, arg))
            }
            _ => Err("function value".into()),
        }
    }
    fn closure_param(&mut self, p: &Pat, arg: &str) -> Res<(String, String)> {
        // `|&x|` dereferences
        match p {
            Pat::Reference(r) => Ok((self.pat(&r.pat)?, format!("*({})", arg))),
            _ => Ok((self.pat_ty(p)?, arg.to_string())),
        }
    }
    fn apply2(&mut self, f: &Expr, a: &str, b: &str) -> Res<String> {
        match f {
            Expr::Closure(c) => {
                let mut h = HasRet(false);
                h.visit_expr(&c.body);
                if h.0 {
                    return Err("return inside closure".into());
                }
                if c.inputs.len() != 2 {
                    return Err("closure arity".into());
                }
                let (p, a) = self.closure_param(&c.inputs[0], a)?;
                let (q, b) = self.closure_param(&c.inputs[1], b)?;
                let body = self.expr(&c.body)?;
                Ok(format!("{{ let {} = {}; let {} = {}; {} }}", p, a, q, b, body))
            }
            Expr::Path(p) => {
                let s = self.path_str(&p.path);
                Ok(format!("{}({}, {})", s, a, b))
            }
            _ => Err("function value".into()),
        }
    }
    fn is_chain(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if BASES.contains(&n.as_str()) {
                    return true;
                }
                if ADAPTORS.contains(&n.as_str()) {
                    return Self::is_chain(&m.receiver);
                }
                false
            }
            Expr::Paren(p) => Self::is_chain(&p.expr),
            _ => false,
        }
    }
    fn pipe(&mut self, e: &Expr) -> Res<Pipe> {
        match e {
            Expr::Paren(p) => self.pipe(&p.expr),
            Expr::MethodCall(m) if Self::is_chain(e) => {
                let n = m.method.to_string();
                if ADAPTORS.contains(&n.as_str()) && Self::is_chain(&m.receiver) {
                    let mut p = self.pipe(&m.receiver)?;
                    match n.as_str() {
                        "filter" => p.stages.push(Stage::Filter(m.args[0].clone())),
                        "map" => p.stages.push(Stage::Map(m.args[0].clone())),
                        "take_while" => p.stages.push(Stage::TakeWhile(m.args[0].clone())),
                        "cloned" | "copied" => p.stages.push(Stage::Clone),
                        "enumerate" => {
                            if !p.stages.is_empty() || p.enumerate {
                                return Err("enumerate after another adaptor".into());
                            }
                            p.enumerate = true;
                        }
                        "rev" | "take" | "skip" => {
                            if p.enumerate
                                || !p.stages.iter().all(|s| matches!(s, Stage::Map(_) | Stage::Clone))
                            {
                                return Err(format!("{} after filter", n));
                            }
                            let arg = match m.args.first() {
                                Some(a) => format!(", {}", self.expr(a)?),
                                None => String::new(),
                            };
                            p.base = format!("v_it_{}({}{})", n, p.base, arg);
                        }
                        _ => return Err(format!("iterator adaptor {}", n)),
                    }
                    return Ok(p);
                }
                // base
                let mut r = self.expr(&m.receiver)?;
                let mut pre = String::new();
                let mut root: &Expr = &m.receiver;
                while let Expr::Paren(p) = root {
                    root = &p.expr;
                }
                let own = matches!(root, Expr::MethodCall(m) if self.w.contracted.contains(&m.method.to_string()) || m.method == "collect");
                if (own || matches!(root, Expr::Unary(ExprUnary { op: UnOp::Neg(_), .. }) | Expr::Binary(_) | Expr::Call(_))) && n == "iter" {
                    let t = format!("tmp{}_", self.nloop);
                    pre = format!("let {} = {};", t, r);
                    r = t;
                }
                let args: Vec<&Expr> = m.args.iter().collect();
                let a = self.exprs(&args)?;
                Ok(Pipe {
                    pre,
                    base: format!("{}.{}({})", r, vname(&n), a.join(", ")),
                    enumerate: false,
                    stages: vec![],
                })
            }
            _ => {
                let r = self.expr(e)?;
                Ok(Pipe {
                    pre: String::new(),
                    base: format!("VIntoIter::v_into_it({})", r),
                    enumerate: false,
                    stages: vec![],
                })
            }
        }
    }
    fn terminal(&mut self, m: &ExprMethodCall) -> Res<String> {
        let name = m.method.to_string();
        let pipe = self.pipe(&m.receiver)?;
        if pipe.stages.is_empty() && !pipe.enumerate && pipe.pre.is_empty() {
            match name.as_str() {
                "count" => return Ok(format!("{}.len()", pipe.base)),
                "next" => return Ok(format!("v_it_next({})", pipe.base)),
                "last" => return Ok(format!("v_it_last({})", pipe.base)),
                "nth" => {
                    let a = self.expr(&m.args[0])?;
                    return Ok(format!("v_it_nth({}, {})", pipe.base, a));
                }
                "collect" => {
                    return Ok(match coll_ty(self.w, m) {
                        Some(t) => format!("<{} as VColl<_>>::v_coll({})", t, pipe.base),
                        None => format!("VColl::v_coll({})", pipe.base),
                    })
                }
                _ => {}
            }
        }
        self.rule("for/iterator chain -> indexed while");
        let n = self.nloop;
        self.nloop += 1;
        let before = self.ghost(&format!("before {}", n));
        let top = self.ghost(&format!("top {}", n));
        let bot = self.ghost(&format!("bot {}", n));
        let after = self.ghost(&format!("after {}", n));
        let nomap = !pipe.enumerate && pipe.stages.iter().all(|s| matches!(s, Stage::Filter(..) | Stage::TakeWhile(..)));
        let accty = self.spec.accty.get(&n).cloned();
        let tya = accty.as_ref().map(|t| format!(": {}", t)).unwrap_or_default();
        let (init, ret): (String, String) = match name.as_str() {
            "collect" => (
                if nomap && accty.is_none() { format!("let mut acc{n} = v_like(&it{n});") } else { format!("let mut acc{n}{tya} = Vec::new();") },
                match coll_ty(self.w, m) {
                    Some(t) => format!("<{} as VColl<_>>::v_coll(acc{n})", t),
                    None => format!("VColl::v_coll(acc{n})"),
                },
            ),
            "count" => (format!("let mut acc{n}: usize = 0;"), format!("acc{n}")),
            "fold" => {
                let i = self.expr(&m.args[0])?;
                (format!("let mut acc{n} = {};", i), format!("acc{n}"))
            }
            "any" => (format!("let mut acc{n}: bool = false;"), format!("acc{n}")),
            "all" => (format!("let mut acc{n}: bool = true;"), format!("acc{n}")),
            "find" | "next" | "last" => (
                if nomap && accty.is_none() { format!("let mut acc{n} = v_like_opt(&it{n});") } else { format!("let mut acc{n}{tya} = None;") },
                format!("acc{n}"),
            ),
            "for_each" => (String::new(), "()".into()),
            _ => return Err(format!("iterator terminal {}", name)),
        };
        let margs: Vec<Expr> = m.args.iter().cloned().collect();
        let nm = name.clone();
        let body = move |c: &mut Self, item: String| -> Res<String> {
            let s = match nm.as_str() {
                "collect" => format!("acc{n}.push({});", item),
                "count" => format!("acc{n} = acc{n} + 1;"),
                "fold" => {
                    let v = c.apply2(&margs[1], &format!("acc{n}"), &item)?;
                    format!("acc{n} = {};", v)
                }
                "any" => {
                    let v = c.apply(&margs[0], &item)?;
                    format!("if {} {{ acc{n} = true; break; }}", v)
                }
                "all" => {
                    let v = c.apply(&margs[0], &item)?;
                    format!("if !({}) {{ acc{n} = false; break; }}", v)
                }
                "find" => {
                    let v = c.apply(&margs[0], &format!("&{}", item))?;
                    format!("if {} {{ acc{n} = Some({}); break; }}", v, item)
                }
                "next" => format!("acc{n} = Some({}); break;", item),
                "last" => format!("acc{n} = Some({});", item),
                "for_each" => {
                    let v = c.apply(&margs[0], &item)?;
                    format!("{};", v)
                }
                _ => unreachable!(),
            };
            Ok(format!("{} {}", top, s))
        };
        let lp = self.run_pipe(n, pipe, "", body, &bot)?;
        let lp = lp.replace("/*BEFORE*/", &format!("{} {}", init, before));
        Ok(format!("{{ {} {} {} }}", lp, after, ret))
    }
    fn slice(&mut self, base: String, rg: &ExprRange) -> Res<String> {
        let lo = match &rg.start {
            Some(s) => Some(self.expr(s)?),
            None => None,
        };
        let hi = match &rg.end {
            Some(s) => Some(self.expr(s)?),
            None => None,
        };
        if let RangeLimits::Closed(_) = rg.limits {
            return Err("inclusive slice".into());
        }
        Ok(match (lo, hi) {
            (Some(l), None) => format!("{}.v_slice_from({})", base, l),
            (Some(l), Some(h)) => format!("{}.v_slice({}, {})", base, l, h),
            (None, Some(h)) => format!("{}.v_slice(0, {})", base, h),
            (None, None) => base,
        })
    }
    fn binary(&mut self, b: &ExprBinary) -> Res<String> {
        let l = self.expr(&b.left)?;
        let r = self.expr(&b.right)?;
        let lit = is_lit(&b.left) || is_lit(&b.right);
        let t = |c: &mut Self, tr: &str, f: &str| {
            c.rule("operator -> trait call");
            format!("{}::{}({}, {})", tr, f, l, r)
        };
        let op = b.op.to_token_stream().to_string();
        Ok(match b.op {
            BinOp::And(_) | BinOp::Or(_) => format!("({} {} {})", l, op, r),
            BinOp::BitAnd(_) => t(self, "VBitAnd", "vbitand"),
            BinOp::BitOr(_) => t(self, "VBitOr", "vbitor"),
            BinOp::BitXor(_) => t(self, "VBitXor", "vbitxor"),
            BinOp::AddAssign(_) if lit && self.spec.has("ovf") => {
                self.rule("overflow of + panics (debug profile)");
                format!("{} = VOvf::v_addc({}, {})", l, l, r)
            }
            BinOp::Add(_) if lit && self.spec.has("ovf") => {
                self.rule("overflow of + panics (debug profile)");
                format!("VOvf::v_addc({}, {})", l, r)
            }
            _ if lit => format!("({} {} {})", l, op, r),
            BinOp::Add(_) => t(self, "VAdd", "vadd"),
            BinOp::Sub(_) => t(self, "VSub", "vsub"),
            BinOp::Mul(_) => t(self, "VMul", "vmul"),
            BinOp::Div(_) => {
                let f = if self.spec.has("maypanic") { "vdiv_mp" } else { "vdiv" };
                t(self, "VDiv", f)
            }
            BinOp::Rem(_) => format!("({} % {})", l, r),
            BinOp::Eq(_) => format!("VEq::veq(&({}), &({}))", l, r),
            BinOp::Ne(_) => format!("(!VEq::veq(&({}), &({})))", l, r),
            BinOp::Lt(_) => format!("VOrd::vlt(&({}), &({}))", l, r),
            BinOp::Le(_) => format!("VOrd::vle(&({}), &({}))", l, r),
            BinOp::Gt(_) => format!("VOrd::vgt(&({}), &({}))", l, r),
            BinOp::Ge(_) => format!("VOrd::vge(&({}), &({}))", l, r),
            BinOp::AddAssign(_) => {
                self.rule("compound assignment -> assignment");
                format!("{} = VAdd::vadd({}, {})", l, l, r)
            }
            BinOp::SubAssign(_) => {
                self.rule("compound assignment -> assignment");
                format!("{} = VSub::vsub({}, {})", l, l, r)
            }
            BinOp::MulAssign(_) => {
                self.rule("compound assignment -> assignment");
                format!("{} = VMul::vmul({}, {})", l, l, r)
            }
            BinOp::DivAssign(_) => {
                self.rule("compound assignment -> assignment");
                let f = if self.spec.has("maypanic") { "vdiv_mp" } else { "vdiv" };
                format!("{} = VDiv::{}({}, {})", l, f, l, r)
            }
            BinOp::BitOrAssign(_) => format!("{} = VBitOr::vbitor({}, {})", l, l, r),
            BinOp::BitAndAssign(_) => format!("{} = VBitAnd::vbitand({}, {})", l, l, r),
            _ => return Err(format!("operator {}", op)),
        })
    }
    fn if_(&mut self, i: &ExprIf) -> Res<String> {
        let c = match &*i.cond {
            Expr::Let(l) => {
                let e = self.expr(&l.expr)?;
                let p = self.pat(&l.pat)?;
                format!("let {} = {}", p, e)
            }
            c => self.expr(c)?,
        };
        let t = self.block(&i.then_branch)?;
        let mut s = format!("if {} {}", c, t);
        if let Some((_, e)) = &i.else_branch {
            let v = self.expr(e)?;
            if v.starts_with("if ") || v.starts_with('{') {
                s.push_str(&format!(" else {}", v));
            } else {
                s.push_str(&format!(" else {{ {} }}", v));
            }
        }
        Ok(s)
    }
    fn match_(&mut self, m: &ExprMatch) -> Res<String> {
        let has_str = m.arms.iter().any(|a| pat_has_str(&a.pat));
        let e = self.expr(&m.expr)?;
        if has_str {
            self.rule("match on string literals -> if chain");
            let n = self.fresh();
            let mut s = format!("{{ let m{n}_ = {};\n", e);
            let mut closed = false;
            let mut first = true;
            for a in m.arms.iter() {
                if closed {
                    break;
                }
                let pats: Vec<&Pat> = match &a.pat {
                    Pat::Or(o) => o.cases.iter().collect(),
                    p => vec![p],
                };
                let all_str = pats.iter().all(|p| pat_has_str(p));
                let body = self.expr(&a.body)?;
                if all_str {
                    let mut c: Vec<String> = vec![];
                    for p in pats {
                        match p {
                            Pat::Lit(l) => c.push(format!("VEq::veq(&(m{n}_), &({}))", l.to_token_stream())),
                            _ => return Err("string pattern".into()),
                        }
                    }
                    let mut cond = c.join(" || ");
                    if let Some((_, g)) = &a.guard {
                        cond = format!("({}) && {}", cond, self.expr(g)?);
                    }
                    s.push_str(&format!("{} if {} {{ {} }}\n", if first { "" } else { "else" }, cond, body));
                    first = false;
                } else {
                    if a.guard.is_some() {
                        return Err("guarded default arm on strings".into());
                    }
                    let bind = match &a.pat {
                        Pat::Wild(_) => String::new(),
                        Pat::Ident(id) => format!("let {} = m{n}_;", id.ident),
                        _ => return Err("pattern on strings".into()),
                    };
                    if first {
                        s.push_str(&format!("{} {}", bind, body));
                    } else {
                        s.push_str(&format!("else {{ {} {} }}\n", bind, body));
                    }
                    closed = true;
                }
            }
            if !closed {
                return Err("string match without default".into());
            }
            s.push('}');
            return Ok(s);
        }
        let mut rp = RefPat { refs: 0, plain: 0 };
        for a in m.arms.iter() {
            rp.visit_pat(&a.pat);
        }
        let mut e = e;
        if rp.refs > 0 {
            if rp.plain > 0 {
                return Err("mixed ref patterns".into());
            }
            self.rule("ref pattern -> match on reference");
            e = format!("(&{})", e);
        }
        if self.spec.has("guards") && m.arms.iter().any(|a| a.guard.is_some()) {
            self.rule("match guard -> nested match");
            let n = self.fresh();
            let mut arms = vec![];
            for a in m.arms.iter() {
                let before = self.nloop;
                let p = self.pat(&a.pat)?;
                let g = match &a.guard {
                    Some((_, g)) => Some(self.expr(g)?),
                    None => None,
                };
                let b = self.expr(&a.body)?;
                if self.nloop != before {
                    return Err("loop under a match guard".into());
                }
                arms.push((p, g, b));
            }
            return Ok(format!("{{ let g{n}_ = {e};\n{} }}", nest(&format!("g{n}_"), &arms)));
        }
        let mut s = format!("match {} {{\n", e);
        for a in m.arms.iter() {
            let mut p = a.pat.clone();
            if rp.refs > 0 {
                DropRef.visit_pat_mut(&mut p);
            }
            let ps = self.pat(&p)?;
            let g = match &a.guard {
                Some((_, g)) => format!(" if {}", self.expr(g)?),
                None => String::new(),
            };
            let b = self.expr(&a.body)?;
            s.push_str(&format!("/*:{}*/ {}{} => {{ {} }}\n", line(a.pat.span()), ps, g, b));
        }
        s.push('}');
        Ok(s)
    }
    fn call(&mut self, c: &ExprCall) -> Res<String> {
        let args: Vec<&Expr> = c.args.iter().collect();
        let p = match &*c.func {
            Expr::Path(p) => p.clone(),
            _ => return Err("call of a non-path".into()),
        };
        let n = p.path.segments.len();
        let last = p.path.segments[n - 1].ident.to_string();
        if n >= 2 {
            let ty = {
                let mut q = p.path.clone();
                q.segments.pop();
                let pun = q.segments.pop().unwrap().into_value();
                pun
            };
            let tyname = ty.ident.to_string();
            let tys = {
                let mut s = ty.clone();
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    a.colon2_token = None;
                }
                let t: Type = parse_quote!(#s);
                ty_str(self.w, &t)
            };
            let a = self.exprs(&args)?;
            if last == "from" && tyname != "VFrom" {
                self.rule("From/Into -> VFrom");
                return Ok(format!("<{} as VFrom<_>>::vfrom({})", tys, a.join(", ")));
            }
            if last == "default" {
                if tyname == "Default" {
                    return Ok("VDefault::vdefault()".into());
                }
                return Ok(format!("<{} as VDefault>::vdefault()", tys));
            }
            if last == "from_str" {
                return Ok(format!("<{} as VFromStr>::v_from_str({})", tys, a.join(", ")));
            }
            if tyname == "Rc" && last == "downgrade" {
                self.rule("Rc::downgrade -> some weak reference");
                return Ok(format!("v_downgrade({})", a[0]));
            }
            if tyname == "Rc" && last == "clone" {
                return Ok(format!("({}).v_clone()", a[0]));
            }
            let f = self.path_str(&p.path);
            let mut a = a;
            if self.w.outfns.contains(&last) && self.spec.has("out") {
                a.push("out_".into());
            }
            return Ok(format!("{}({})", f, a.join(", ")));
        }
        // free function of the same file that is not under contract: inline it
        if !self.w.contracted.contains(&last) {
            if let Some(f) = self.w.free.get(&(self.src.clone(), last.clone())) {
                let f = f.clone();
                return self.inline(&last, &f.sig, &f.block, None, &args);
            }
        }
        let a = self.exprs(&args)?;
        let f = self.path_str(&p.path);
        Ok(format!("{}({})", f, a.join(", ")))
    }
    fn inline(
        &mut self,
        name: &str,
        sig: &Signature,
        block: &Block,
        this: Option<String>,
        args: &[&Expr],
    ) -> Res<String> {
        if self.depth > 4 {
            return Err(format!("recursive helper {}", name));
        }
        let mut h = HasRet(false);
        h.visit_block(block);
        if h.0 {
            return Err(format!("helper {} with early return", name));
        }
        let (sig, block) = (&unreserve_sig(sig), &unreserve(block));
        self.rule("helper without contract -> inlined");
        self.inlined.push(name.to_string());
        let a = self.exprs(args)?;
        let mut s = String::from("{ ");
        let mut k = 0;
        let n = self.fresh();
        let mut names = vec![];
        for i in sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                if k >= a.len() {
                    return Err("helper arity".into());
                }
                s.push_str(&format!("let inl{n}_{k} = {};\n", a[k]));
                let pat = self.pat(&t.pat)?;
                names.push((pat, ty_str(self.w, &t.ty), k));
                k += 1;
            }
        }
        let mut mkthis = None;
        if let Some(r) = this {
            if r != "self" {
                s.push_str(&format!("let this{n}_ = {};\n", r));
                mkthis = Some(format!("this{n}_"));
            } else {
                mkthis = self.this.last().unwrap().clone();
            }
        }
        for (p, t, k) in names {
            let _ = t;
            s.push_str(&format!("let {} = inl{n}_{k};\n", p));
        }
        self.this.push(mkthis);
        self.depth += 1;
        let b = self.block(block);
        self.depth -= 1;
        self.this.pop();
        let b = b?;
        s.push_str(&b);
        s.push_str(" }");
        Ok(s)
    }
    fn method(&mut self, m: &ExprMethodCall) -> Res<String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        if TERMINALS.contains(&name.as_str()) && Self::is_chain(&m.receiver) {
            return self.terminal(m);
        }
        if ADAPTORS.contains(&name.as_str()) && Self::is_chain(&m.receiver) {
            return Err(format!("iterator value ({}) not consumed in place", name));
        }
        // Option combinators
        if ["map", "map_or", "and_then", "unwrap_or_else", "filter"].contains(&name.as_str()) {
            let r = self.expr(&m.receiver)?;
            let n = self.fresh();
            self.rule("Option combinator -> match");
            return Ok(match name.as_str() {
                "map" => {
                    let v = self.apply(args[0], &format!("o{n}_"))?;
                    format!("(match {} {{ Some(o{n}_) => Some({}), None => None }})", r, v)
                }
                "and_then" => {
                    let v = self.apply(args[0], &format!("o{n}_"))?;
                    format!("(match {} {{ Some(o{n}_) => {}, None => None }})", r, v)
                }
                "map_or" => {
                    let d = self.expr(args[0])?;
                    let v = self.apply(args[1], &format!("o{n}_"))?;
                    format!("(match {} {{ Some(o{n}_) => {}, None => {} }})", r, v, d)
                }
                "unwrap_or_else" => match args[0] {
                    Expr::Closure(c) if c.inputs.is_empty() => {
                        let b = self.expr(&c.body)?;
                        format!("(match {} {{ Some(o{n}_) => o{n}_, None => {} }})", r, b)
                    }
                    _ => return Err("unwrap_or_else".into()),
                },
                _ => return Err(format!("method {}", name)),
            });
        }
        if name == "sort_by" || name == "sort" || name == "sort_by_key" || name == "sort_unstable_by" {
            let k = self.nsort;
            self.nsort += 1;
            let r = self.expr(&m.receiver)?;
            let order = self.spec.sorts.get(&k).cloned();
            if let (Some((ty, text)), Some(Expr::Closure(c)), "sort_by" | "sort_by_key") = (order, args.first().copied(), name.as_str()) {
                let mut h = HasRet(false);
                h.visit_expr(&c.body);
                if h.0 {
                    return Err("return inside closure".into());
                }
                let before = self.nloop;
                let (ord, req) = match text.find("requires ") {
                    Some(i) => (text[..i].trim().to_string(), text[i + 9..].trim().to_string()),
                    None => (text.trim().to_string(), "true".to_string()),
                };
                let body = if name == "sort_by" {
                    self.apply2(&args[0], "sa_", "sb_")?
                } else {
                    let (a, b) = (self.apply(&args[0], "sa_")?, self.apply(&args[0], "sb_")?);
                    format!("{{ let ka_ = {}; let kb_ = {}; ka_.v_cmp(&kb_) }}", a, b)
                };
                if self.nloop != before {
                    return Err("loop inside the order of a sort".into());
                }
                self.rule("sort_by -> stable sort by the order the closure is shown to compute");
                return Ok(format!(
                    "{{ let ghost ord_: spec_fn({ty}, {ty}) -> Ordering = {ord};\n let ghost on_: spec_fn({ty}) -> bool = {req};\n let cl_ = |sa_: &{ty}, sb_: &{ty}| -> (o_: Ordering) requires on_(*sa_), on_(*sb_) ensures o_ == ord_(*sa_, *sb_) {{ {body} }};\n v_sort_by(&mut {r}, cl_, Ghost(ord_), Ghost(on_)) }}",
                    req = if req == "true" { format!("|x_: {ty}| true") } else { req }
                ));
            }
            self.rule("sort -> permutation contract (order dropped)");
            return Ok(format!("{}.v_sort_perm()", r));
        }
        if name == "borrow_mut" || name == "get_mut" {
            self.rule("RefCell::borrow_mut -> field access (borrow flag dropped)");
            let r = self.expr(&m.receiver)?;
            return Ok(format!("{}.v", r));
        }
        if name == "iter_mut" {
            return Err("iter_mut".into());
        }
        // helper method of the same file, not under contract and not a std name: inline
        if !self.w.contracted.contains(&name) && !RENAMED.contains(&name.as_str()) {
            if let Some(f) = self.w.methods.get(&(self.src.clone(), name.clone())) {
                let f = f.clone();
                let recv_mut = match f.sig.inputs.first() {
                    Some(FnArg::Receiver(r)) => {
                        if r.reference.is_none() {
                            "".to_string()
                        } else if r.mutability.is_some() {
                            "&mut ".to_string()
                        } else {
                            "&".to_string()
                        }
                    }
                    _ => return Err("helper without receiver".into()),
                };
                let r = self.expr(&m.receiver)?;
                let this = if r == "self" { r } else { format!("{}{}", recv_mut, r) };
                return self.inline(&name, &f.sig, &f.block, Some(this), &args);
            }
        }
        let r = self.expr(&m.receiver)?;
        let a = self.exprs(&args)?;
        if (name == "unwrap" || name == "expect") && self.spec.has("maypanic") {
            return Ok(format!("{}.v_unwrap_mp()", r));
        }
        if name == "inv" && self.spec.has("maypanic") {
            return Ok(format!("{}.v_inv_mp()", r));
        }
        if name == "expect" {
            return Ok(format!("{}.v_unwrap()", r));
        }
        if name == "clone" {
            if let Expr::Path(p) = &*m.receiver {
                if p.path.get_ident().map_or(false, |i| self.mutrefs.contains(&i.to_string())) {
                    return Ok(format!("(*{}).v_clone()", p.path.get_ident().unwrap()));
                }
            }

            self.rule("clone -> value-preserving v_clone");
        }
        let turbo = match &m.turbofish {
            Some(t) => {
                let mut t = t.clone();
                Strip { w: self.w }.visit_angle_bracketed_generic_arguments_mut(&mut t);
                t.to_token_stream().to_string()
            }
            None => String::new(),
        };
        Ok(format!("{}.{}{}({})", r, vname(&name), turbo, a.join(", ")))
    }
    fn mac(&mut self, m: &Macro) -> Res<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                let args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|_| "vec![x; n]".to_string())?;
                let es: Vec<&Expr> = args.iter().collect();
                let v = self.exprs(&es)?;
                if v.is_empty() {
                    return Ok("Vec::new()".into());
                }
                let n = self.fresh();
                let mut s = format!("{{ let mut vec{n}_ = Vec::new();");
                for x in v {
                    s.push_str(&format!(" vec{n}_.push({});", x));
                }
                s.push_str(&format!(" vec{n}_ }}"));
                Ok(s)
            }
            "vraw" => {
                let t: LitStr = m.parse_body().map_err(|_| "vraw".to_string())?;
                Ok(t.value())
            }
            "println" | "print" if self.spec.has("out") => {
                self.rule("output macro -> output trace");
                let nl = if name == "println" { "out_.v_nl();" } else { "" };
                if m.tokens.is_empty() {
                    return Ok(format!("{{ {} }}", nl));
                }
                match self.fmt_exact(m)? {
                    Some(x) => Ok(format!("{{ out_.v_print({}); {} }}", x, nl)),
                    None => Err("print! format".into()),
                }
            }
            "println" | "print" | "eprintln" | "eprint" => {
                self.rule("output macro -> arguments only");
                let u = self.fmt_uses(m)?;
                Ok(format!("{{ {} }}", u))
            }
            "format" => {
                if self.spec.has("fmt") {
                    if let Some(s) = self.fmt_exact(m)? {
                        return Ok(s);
                    }
                }
                self.rule("format! -> unconstrained string");
                let u = self.fmt_uses(m)?;
                Ok(format!("{{ {} vformat_any() }}", u))
            }
            "write" | "writeln" => {
                let mut args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|_| "write!".to_string())?
                    .into_iter();
                let f = self.expr(&args.next().ok_or("write!")?)?;
                let rest: syn::punctuated::Punctuated<Expr, Token![,]> = args.collect();
                let m2: Macro = parse_quote!(format!(#rest));
                if name == "writeln" {
                    return Err("writeln!".into());
                }
                match self.fmt_exact(&m2)? {
                    Some(s) => {
                        self.rule("write! -> text appended to the formatter");
                        Ok(format!("{}.v_write({})", f, s))
                    }
                    None => Err("write! format".into()),
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.rule("panic -> v_panic");
                if self.spec.has("maypanic") {
                    Ok("return v_panic_mp()".into())
                } else {
                    Ok("return v_panic()".into())
                }
            }
            "assert" | "debug_assert" => {
                let args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|_| "assert!".to_string())?;
                let v = self.expr(&args[0])?;
                let p = if self.spec.has("maypanic") { "v_panic_mp()" } else { "v_panic()" };
                Ok(format!("if !({}) {{ return {}; }}", v, p))
            }
            "matches" => {
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        Ok(M { e, p, g })
                    }
                }
                let x: M = m.parse_body().map_err(|_| "matches!".to_string())?;
                let e = self.expr(&x.e)?;
                let p = self.pat(&x.p)?;
                let g = match &x.g {
                    Some(g) => format!(" if {}", self.expr(g)?),
                    None => String::new(),
                };
                Ok(format!("(match {} {{ {}{} => true, _ => false }})", e, p, g))
            }
            _ => Err(format!("macro {}!", name)),
        }
    }
    /// format string, arguments in order, named arguments
    fn fmt_args(&mut self, m: &Macro) -> Res<(String, Vec<String>, BTreeMap<String, String>)> {
        let args = m
            .parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map_err(|_| "format arguments".to_string())?;
        let mut fmt = String::new();
        let mut v = vec![];
        let mut named = BTreeMap::new();
        for (i, a) in args.iter().enumerate() {
            if i == 0 {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = a {
                    fmt = s.value();
                    continue;
                }
            }
            match a {
                Expr::Assign(x) => {
                    let e = self.expr(&x.right)?;
                    named.insert(norm(&x.left.to_token_stream().to_string()), e);
                }
                x => v.push(self.expr(x)?),
            }
        }
        Ok((fmt, v, named))
    }
    fn fmt_uses(&mut self, m: &Macro) -> Res<String> {
        let (_, v, named) = self.fmt_args(m)?;
        Ok(v.iter().chain(named.values()).map(|x| format!("vuse(&({}));", x)).collect::<Vec<_>>().join(" "))
    }
    fn fmt_exact(&mut self, m: &Macro) -> Res<Option<String>> {
        let (fmt, v, named) = self.fmt_args(m)?;
        let n = self.fresh();
        // pieces: literal text, or an expression giving a String
        let mut ps: Vec<(bool, String)> = vec![];
        let mut lit = String::new();
        let mut k = 0;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] != '{' {
                if !lit.is_empty() {
                    ps.push((true, format!("{:?}", lit)));
                    lit.clear();
                }
                let e = match cs[i..].iter().position(|c| *c == '}') {
                    Some(e) => i + e,
                    None => return Ok(None),
                };
                let f: String = cs[i + 1..e].iter().collect();
                let (name, spec) = match f.find(':') {
                    Some(p) => (f[..p].to_string(), f[p + 1..].to_string()),
                    None => (f.clone(), String::new()),
                };
                let arg = if name.is_empty() {
                    if k >= v.len() {
                        return Ok(None);
                    }
                    k += 1;
                    v[k - 1].clone()
                } else if let Some(x) = named.get(&name) {
                    x.clone()
                } else if name.parse::<usize>().is_ok() {
                    return Ok(None);
                } else {
                    name.clone()
                };
                if spec.is_empty() {
                    ps.push((false, format!("VDisp::v_disp(&({}))", arg)));
                } else {
                    let (zero, rest) = match spec.strip_prefix('0') {
                        Some(r) if !r.is_empty() => (true, r.to_string()),
                        _ => (false, spec.clone()),
                    };
                    let (right, rest) = match rest.strip_prefix('>') {
                        Some(r) => (true, r.to_string()),
                        None => (false, rest),
                    };
                    let w = if let Some(x) = rest.strip_suffix('$') {
                        match named.get(x) {
                            Some(e) => e.clone(),
                            None if x.chars().next().map_or(false, |c| c.is_alphabetic()) => x.to_string(),
                            None => return Ok(None),
                        }
                    } else if rest.parse::<usize>().is_ok() {
                        rest
                    } else {
                        return Ok(None);
                    };
                    let f = if zero { "VDisp0::v_disp0" } else if right { "VDispR::v_dispr" } else { "VDispL::v_displ" };
                    self.rule("format! width -> padding");
                    ps.push((false, format!("{}(&({}), {})", f, arg, w)));
                }
                i = e + 1;
            } else if cs[i] == '{' || cs[i] == '}' {
                return Ok(None);
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        if !lit.is_empty() {
            ps.push((true, format!("{:?}", lit)));
        }
        let mut s = String::new();
        for (i, (l, p)) in ps.iter().enumerate() {
            s.push_str(&match (i, l) {
                (0, true) => format!("{{ let mut fm{n}_ = ({}).v_to_string();", p),
                (0, false) => format!("{{ let mut fm{n}_ = {};", p),
                (_, true) => format!(" fm{n}_.v_push_str({});", p),
                (_, false) => format!(" fm{n}_.v_push_str({}.v_as_str());", p),
            });
        }
        if ps.is_empty() {
            s.push_str(&format!("{{ let fm{n}_ = String::new();"));
        }
        s.push_str(&format!(" fm{n}_ }}"));
        self.rule("format! -> concatenation");
        Ok(Some(s))
    }
}

/// `x.borrow().iter()`
fn cell_iter(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e {
        if m.method == "iter" && m.args.is_empty() {
            if let Expr::MethodCall(b) = &*m.receiver {
                if b.method == "borrow" && b.args.is_empty() {
                    return Some((*b.receiver).clone());
                }
            }
        }
    }
    None
}
/// `let mut x = c.borrow_mut();`
fn cell_let(st: &Stmt) -> Option<(String, Expr)> {
    if let Stmt::Local(l) = st {
        if let (Pat::Ident(id), Some(i)) = (&l.pat, &l.init) {
            if let Expr::MethodCall(m) = &*i.expr {
                if m.method == "borrow_mut" && m.args.is_empty() {
                    return Some((id.ident.to_string(), (*m.receiver).clone()));
                }
            }
        }
    }
    None
}
fn nest(e: &str, arms: &[(String, Option<String>, String)]) -> String {
    let mut s = format!("match {} {{\n", e);
    for (i, (p, g, b)) in arms.iter().enumerate() {
        match g {
            Some(g) => s.push_str(&format!("{} => {{ if {} {{ {} }} else {{ {} }} }}\n", p, g, b, nest(e, &arms[i + 1..]))),
            None => s.push_str(&format!("{} => {{ {} }}\n", p, b)),
        }
    }
    s.push('}');
    s
}
fn coll_ty(w: &World, m: &ExprMethodCall) -> Option<String> {
    m.turbofish.as_ref().and_then(|t| {
        t.args.first().and_then(|a| match a {
            GenericArgument::Type(t) => Some(ty_str(w, t)),
            _ => None,
        })
    })
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        e => e,
    }
}
fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        _ => false,
    }
}
fn kind(e: &Expr) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !(c.is_alphanumeric() || c == ':')).next().unwrap_or("?").to_string()
}
