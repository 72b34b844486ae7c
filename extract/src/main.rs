mod emit;
mod vc;
use emit::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::*;
use vc::{FnSpec, Item as VItem, Module};

struct Found {
    file: String,
    sig: Signature,
    block: Block,
    imp: Option<ItemImpl>,
    lines: (usize, usize),
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| norm(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

fn ty_key(w: &World, t: &Type) -> String {
    norm(&ty_str(w, t))
}

fn trait_key(w: &World, p: &syn::Path) -> String {
    let t: Type = parse_quote!(#p);
    norm(&ty_str(w, &t))
}

struct Index {
    fns: BTreeMap<String, Vec<Found>>,
    types: BTreeMap<String, Vec<(String, Item)>>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct OpTrait {
    tr: &'static str,
    f: &'static str,
}
fn op_trait(name: &str) -> Option<OpTrait> {
    Some(match name {
        "Add" => OpTrait { tr: "VAdd", f: "vadd" },
        "Sub" => OpTrait { tr: "VSub", f: "vsub" },
        "Mul" => OpTrait { tr: "VMul", f: "vmul" },
        "Div" => OpTrait { tr: "VDiv", f: "vdiv" },
        "Neg" => OpTrait { tr: "VNeg", f: "vneg" },
        "PartialEq" => OpTrait { tr: "VEq", f: "veq" },
        "Ord" => OpTrait { tr: "VCmp", f: "v_cmp" },
        "PartialOrd" => OpTrait { tr: "VPCmp", f: "v_partial_cmp" },
        "From" => OpTrait { tr: "VFrom", f: "vfrom" },
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let out = PathBuf::from(&args[3]);
    let mut disabled: BTreeMap<String, String> = BTreeMap::new();
    // --disable FILE : lines "key<TAB>reason"
    if args.len() > 5 && args[4] == "--disable" {
        for l in fs::read_to_string(&args[5]).unwrap().lines() {
            let mut p = l.splitn(2, '\t');
            let k = p.next().unwrap().to_string();
            if !k.is_empty() {
                disabled.insert(k, p.next().unwrap_or("disabled").to_string());
            }
        }
    }
    let mut mods: Vec<Module> = vec![];
    let mut vcs: Vec<_> = fs::read_dir(&cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    vcs.sort();
    for v in &vcs {
        mods.extend(vc::parse(v));
    }
    let mut w = World::default();
    for m in &mods {
        w.modules.insert(m.name.clone());
        for i in &m.items {
            if let VItem::Fn(f) = i {
                let last = f.key.rsplit("::").next().unwrap().to_string();
                w.modfns.insert((m.name.clone(), last.clone()));
                if f.has("out") {
                    w.outfns.insert(last.clone());
                }
                w.contracted.insert(last);
            }
        }
    }
    let mut files = vec![];
    walk(&repo.join("src"), &mut files);
    let mut parsed: Vec<(String, File)> = vec![];
    let mut parse_errors = vec![];
    for f in &files {
        let rel = f.strip_prefix(&repo).unwrap().display().to_string();
        match syn::parse_file(&fs::read_to_string(f).unwrap()) {
            Ok(x) => parsed.push((rel, x)),
            Err(e) => parse_errors.push(format!("{}: {}", rel, e)),
        }
    }
    let mut ix = Index { fns: Default::default(), types: Default::default() };
    for (rel, file) in &parsed {
        for it in &file.items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => {
                    w.free.insert((rel.clone(), f.sig.ident.to_string()), f.clone());
                    ix.fns.entry(f.sig.ident.to_string()).or_default().push(Found {
                        file: rel.clone(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        imp: None,
                        lines: (f.span().start().line, f.span().end().line),
                    });
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let tk = ty_key(&w, &i.self_ty);
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            let key = match &i.trait_ {
                                None => {
                                    w.methods.insert((rel.clone(), f.sig.ident.to_string()), f.clone());
                                    format!("{}::{}", tk, f.sig.ident)
                                }
                                Some((_, p, _)) => {
                                    format!("{} as {}::{}", tk, trait_key(&w, p), f.sig.ident)
                                }
                            };
                            ix.fns.entry(norm(&key)).or_default().push(Found {
                                file: rel.clone(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                imp: Some(i.clone()),
                                lines: (f.span().start().line, f.span().end().line),
                            });
                        }
                    }
                }
                Item::Struct(s) => {
                    ix.types.entry(s.ident.to_string()).or_default().push((rel.clone(), it.clone()))
                }
                Item::Enum(s) => {
                    ix.types.entry(s.ident.to_string()).or_default().push((rel.clone(), it.clone()))
                }
                _ => {}
            }
        }
    }

    let mut o = String::new();
    o.push_str(&fs::read_to_string(cdir.join("shims.rs")).unwrap());
    for m in &mods {
        if m.name != "root" {
            o.push_str(&format!("pub use {}::*;\n", m.name));
        }
    }
    let mut recs: Vec<String> = vec![];
    let mut rules_total: BTreeMap<String, usize> = BTreeMap::new();
    for m in &mods {
        let mut uses = String::new();
        let mut body = String::new();
        let head_line;
        // module
        let start = format!(
            "\npub mod {} {{\n#[allow(unused_imports)] use super::*;\n",
            m.name
        );
        o.push_str(&start);
        for i in &m.items {
            if let VItem::Raw(r) = i {
                for l in r.lines() {
                    let t = l.trim();
                    if t.starts_with("use ") {
                        uses.push_str(l);
                        uses.push('\n');
                    }
                }
            }
        }
        o.push_str(&uses);
        o.push_str("verus! {\n");
        head_line = o.lines().count();
        let mut pend: Vec<(String, usize, usize, String)> = vec![];
        for i in &m.items {
            match i {
                VItem::Raw(r) => {
                    for l in r.lines() {
                        if !l.trim().starts_with("use ") {
                            body.push_str(l);
                            body.push('\n');
                        }
                    }
                }
                VItem::Type(name, flags) => {
                    let cands = ix.types.get(name);
                    let it = cands.and_then(|c| {
                        c.iter().find(|x| Some(&x.0) == m.src.as_ref()).or_else(|| c.first())
                    });
                    match it {
                        Some((_, it)) => body.push_str(&emit_type(&w, it, flags)),
                        None => {
                            recs.push(format!(
                                "{{\"key\": {}, \"module\": {}, \"kind\": \"type\", \"status\": \"missing\"}}",
                                jstr(name),
                                jstr(&m.name)
                            ));
                        }
                    }
                }
                VItem::Fn(fs_) => {
                    let a = head_line + body.lines().count() + 1;
                    let (text, rec) = emit_fn(&w, &ix, m, fs_, &disabled, &mut rules_total);
                    body.push_str(&text);
                    if !body.ends_with('\n') {
                        body.push('\n');
                    }
                    let b = head_line + body.lines().count();
                    pend.push((fs_.key.clone(), a, b, rec));
                }
            }
        }
        o.push_str(&body);
        o.push_str("} // verus!\n}\n");
        for (_k, a, b, rec) in pend {
            recs.push(rec.replacen("{", &format!("{{\"out_lines\": [{}, {}], ", a, b), 1));
        }
    }
    fs::create_dir_all(&out).unwrap();
    fs::write(out.join("out.rs"), &o).unwrap();
    let rules: Vec<String> = rules_total.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let pe: Vec<String> = parse_errors.iter().map(|e| jstr(e)).collect();
    fs::write(
        out.join("map.json"),
        format!(
            "{{\"items\": [\n{}\n],\n\"rules\": {{{}}},\n\"parse_errors\": [{}]}}\n",
            recs.join(",\n"),
            rules.join(", "),
            pe.join(", ")
        ),
    )
    .unwrap();
}

fn emit_type(w: &World, it: &Item, flags: &[String]) -> String {
    let derives = |attrs: &[Attribute]| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let t = norm(&a.meta.to_token_stream().to_string());
                for x in t.trim_start_matches("derive(").trim_end_matches(')').split(',') {
                    s.insert(x.to_string());
                }
            }
        }
        s
    };
    let (name, gen, text, d) = match it {
        Item::Struct(s) => {
            let (g, wh) = generics_str(w, &s.generics);
            let mut t = format!("pub struct {}{} {} ", s.ident, g, wh);
            match &s.fields {
                Fields::Named(n) => {
                    t.push_str("{\n");
                    for f in &n.named {
                        t.push_str(&format!("  pub {}: {},\n", f.ident.as_ref().unwrap(), ty_str(w, &f.ty)));
                    }
                    t.push_str("}\n");
                }
                Fields::Unnamed(u) => {
                    t.push_str("(");
                    for f in &u.unnamed {
                        t.push_str(&format!("pub {}, ", ty_str(w, &f.ty)));
                    }
                    t.push_str(");\n");
                }
                Fields::Unit => t.push_str(";\n"),
            }
            (s.ident.to_string(), s.generics.clone(), t, derives(&s.attrs))
        }
        Item::Enum(e) => {
            let (g, wh) = generics_str(w, &e.generics);
            let mut t = format!("pub enum {}{} {} {{\n", e.ident, g, wh);
            for v in &e.variants {
                t.push_str(&format!("  {}", v.ident));
                match &v.fields {
                    Fields::Named(n) => {
                        t.push_str(" { ");
                        for f in &n.named {
                            t.push_str(&format!("{}: {}, ", f.ident.as_ref().unwrap(), ty_str(w, &f.ty)));
                        }
                        t.push_str("}");
                    }
                    Fields::Unnamed(u) => {
                        t.push_str("(");
                        for f in &u.unnamed {
                            t.push_str(&format!("{}, ", ty_str(w, &f.ty)));
                        }
                        t.push_str(")");
                    }
                    Fields::Unit => {}
                }
                t.push_str(",\n");
            }
            t.push_str("}\n");
            (e.ident.to_string(), e.generics.clone(), t, derives(&e.attrs))
        }
        _ => unreachable!(),
    };
    let _ = gen;
    let mut s = String::new();
    for f in flags {
        if let Some(a) = f.strip_prefix("attr:") {
            s.push_str(&format!("#[verifier::{}]\n", a));
        }
    }
    if d.contains("Copy") {
        s.push_str("#[derive(Clone, Copy)]\n");
    }
    s.push_str(&text);
    if d.contains("PartialEq") && flags.iter().any(|f| f == "eq") {
        s.push_str(&format!(
            "impl VEq<{name}> for {name} {{ open spec fn veq_req(&self, other: &{name}) -> bool {{ true }} open spec fn veq_ens(&self, other: &{name}, r: bool) -> bool {{ r == (*self == *other) }}\n #[verifier::external_body] fn veq(&self, other: &{name}) -> (r: bool) {{ unimplemented!() }} }}\n"
        ));
    }
    if let (true, true, Item::Struct(st)) = (d.contains("PartialEq"), flags.iter().any(|f| f == "eqkid"), it) {
        let e: Vec<String> = st.fields.iter().filter_map(|f| f.ident.as_ref()).map(|f| format!("VEq::veq(&self.{f}, &other.{f})")).collect();
        s.push_str(&format!(
            "impl VEq<{name}> for {name} {{ open spec fn veq_req(&self, other: &{name}) -> bool {{ true }} open spec fn veq_ens(&self, other: &{name}, r: bool) -> bool {{ r == (self.kid() == other.kid()) }}\n fn veq(&self, other: &{name}) -> (r: bool) {{ {} }} }}\n", e.join(" && ")
        ));
    }
    s
}

fn emit_fn(
    w: &World,
    ix: &Index,
    m: &Module,
    f: &FnSpec,
    disabled: &BTreeMap<String, String>,
    rules: &mut BTreeMap<String, usize>,
) -> (String, String) {
    let key = norm(&f.key);
    let uid = format!("{}::{}", m.name, f.key);
    let cands = ix.fns.get(&key);
    let found = cands.and_then(|c| c.iter().find(|x| Some(&x.file) == m.src.as_ref()).or_else(|| c.first()));
    let found = match found {
        Some(x) => x,
        None => {
            return (
                String::new(),
                format!(
                    "{{\"key\": {}, \"module\": {}, \"kind\": \"fn\", \"status\": \"missing\", \"reason\": \"function not found in the source\"}}",
                    jstr(&f.key),
                    jstr(&m.name)
                ),
            )
        }
    };
    let mut ctx = Ctx::new(w, f, &found.file);
    if found.imp.as_ref().map_or(true, |i| i.trait_.is_none()) {
        if let ReturnType::Type(_, t) = &found.sig.output {
            let t = ty_str(w, t);
            if !t.contains("impl ") {
                ctx.ret = Some(t);
            }
        }
    }
    {
        use syn::visit::Visit;
        let mut o = emit::OwnedVecs::default();
        o.visit_block(&found.block);
        for i in found.sig.inputs.iter() {
            o.visit_fn_arg(i);
        }
        ctx.owned = o.yes.difference(&o.no).cloned().collect();
    }
    if let Some(FnArg::Receiver(r)) = found.sig.inputs.first() {
        if r.reference.is_none() && r.mutability.is_some() {
            ctx.this = vec![Some("self_".into())];
            ctx.mutself = true;
        }
    }
    let mut status = "translated".to_string();
    let mut reason = String::new();
    let trusted = f.has("assume");
    let body = if trusted {
        status = "assumed".into();
        None
    } else if let Some(r) = disabled.get(&uid) {
        status = "external".into();
        reason = r.clone();
        None
    } else {
        match ctx.body(&found.block) {
            Ok(b) => Some(b),
            Err(e) => {
                status = "external".into();
                reason = e;
                None
            }
        }
    };
    for (k, v) in &ctx.rules {
        if body.is_some() {
            *rules.entry(k.to_string()).or_default() += v;
        }
    }
    let external = body.is_none();
    let body = body.unwrap_or_else(|| "{ unimplemented!() }\n".to_string());

    // attributes
    let mut attrs = String::new();
    if external {
        attrs.push_str("#[verifier::external_body]\n");
    } else {
        if !ctx.spec.loops.is_empty() && !f.has("isolate") {
            attrs.push_str("#[verifier::loop_isolation(false)]\n");
        }
        if !f.has("isolate") && ctx.spec.loops.values().any(|l| l.contains("ensures")) {
            attrs.push_str("#[verifier::allow_complex_invariants]\n");
        }
        if f.has("nodec") {
            attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        for fl in &f.flags {
            if let Some(n) = fl.strip_prefix("rlimit=") {
                attrs.push_str(&format!("#[verifier::rlimit({})]\n", n));
            }
            if fl == "spinoff" {
                attrs.push_str("#[verifier::spinoff_prover]\n");
            }
        }
    }
    let fty = |t: &Type| -> String { ty_str(w, t) };
    // parameters
    let mut params: Vec<String> = vec![];
    let mut pnames: Vec<String> = vec![];
    for i in &unreserve_sig(&found.sig).inputs {
        match i {
            FnArg::Receiver(r) => {
                let s = r.to_token_stream().to_string();
                params.push(if r.reference.is_none() && r.mutability.is_some() { "self".into() } else { s });
            }
            FnArg::Typed(t) => {
                let p = t.pat.to_token_stream().to_string();
                pnames.push(p.trim_start_matches("mut ").to_string());
                params.push(format!("{}: {}", p, fty(&t.ty)));
            }
        }
    }
    if f.has("out") {
        params.push("out_: &mut Out".into());
    }
    let mut out_assoc = None;
    if let Some(i) = &found.imp {
        for ii in &i.items {
            if let ImplItem::Type(t) = ii {
                if t.ident == "Output" {
                    out_assoc = Some(fty(&t.ty));
                }
            }
        }
    }
    let ret = match &found.sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(fty(t)),
    };
    let ret = ret.map(|r| {
        if norm(&r) == "Self::Output" {
            out_assoc.clone().unwrap()
        } else {
            r
        }
    });
    let (fgen, fwh) = generics_str(w, &found.sig.generics);
    let fname = found.sig.ident.to_string();
    let mut s = String::new();
    let arrow = match &ret {
        Some(r) => format!(" -> (r: {})", r),
        None => String::new(),
    };
    match &found.imp {
        None => {
            s.push_str(&attrs);
            s.push_str(&format!(
                "pub fn {}{}({}){} {}\n{}\n{}",
                fname,
                fgen,
                params.join(", "),
                arrow,
                fwh,
                f.spec,
                body
            ));
        }
        Some(i) => {
            let (ig, iwh) = generics_str(w, &i.generics);
            let selfty = fty(&i.self_ty);
            match &i.trait_ {
                None => {
                    s.push_str(&format!("impl{} {} {} {{\n", ig, selfty, iwh));
                    s.push_str(&attrs);
                    s.push_str(&format!(
                        "pub fn {}{}({}){} {}\n{}\n{}",
                        vname(&fname),
                        fgen,
                        params.join(", "),
                        arrow,
                        fwh,
                        f.spec,
                        body
                    ));
                    s.push_str("}\n");
                }
                Some((_, tp, _)) => {
                    let tname = tp.segments.last().unwrap().ident.to_string();
                    let targs = match &tp.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => {
                            let v: Vec<String> = a
                                .args
                                .iter()
                                .map(|a| match a {
                                    GenericArgument::Type(t) => fty(t),
                                    x => x.to_token_stream().to_string(),
                                })
                                .collect();
                            Some(v.join(", "))
                        }
                        _ => None,
                    };
                    match op_trait(&tname) {
                        Some(op) => {
                            let treq = if f.treq.trim().is_empty() { "true".to_string() } else { f.treq.clone() };
                            let tens = if f.tens.trim().is_empty() { "true".to_string() } else { f.tens.clone() };
                            let arg = targs.clone().unwrap_or_else(|| selfty.clone());
                            let args_for = match tname.as_str() {
                                "Neg" => String::new(),
                                _ => format!("<{}>", arg),
                            };
                            s.push_str(&format!("impl{} {}{} for {} {} {{\n", ig, op.tr, args_for, selfty, iwh));
                            let rty = ret.clone().unwrap();
                            let rty_s = if norm(&rty) == "Self" { selfty.clone() } else { rty.clone() };
                            if ["Add", "Sub", "Mul", "Div", "Neg"].contains(&tname.as_str()) {
                                s.push_str(&format!("type O = {};\n", rty_s));
                            }
                            let p = params.join(", ");
                            // specification functions take the parameters without `mut`
                            let sp = params.iter().map(|x| x.trim_start_matches("mut ").to_string()).collect::<Vec<_>>().join(", ");
                            s.push_str(&format!("open spec fn {}_req({}) -> bool {{ {} }}\n", op.f, sp, treq));
                            s.push_str(&format!(
                                "open spec fn {}_ens({}, r: {}) -> bool {{ {} }}\n",
                                op.f, sp, rty_s, tens
                            ));
                            s.push_str(&attrs);
                            s.push_str(&format!("fn {}({}) -> (r: {})\n{}", op.f, p, rty_s, body));
                            if tname == "Div" {
                                s.push_str(&format!("fn vdiv_mp({}) -> (r: {}) {{ self.vdiv({}) }}\n", p, rty_s, pnames.join(", ")));
                            }
                            s.push_str("}\n");
                            if let Some(sf) = f.flags.iter().find_map(|x| x.strip_prefix("pcmp=")) {
                                // < <= > >= as the standard library derives them from partial_cmp
                                let mut v = String::new();
                                for (o, c) in [("lt", "Some(Ordering::Less)"), ("gt", "Some(Ordering::Greater)"), ("le", "Some(Ordering::Less) | Some(Ordering::Equal)"), ("ge", "Some(Ordering::Greater) | Some(Ordering::Equal)")] {
                                    v.push_str(&format!("open spec fn {o}_s(&self, other: &{arg}) -> bool {{ match {sf}(*self, *other) {{ {c} => true, _ => false }} }}\nfn v{o}(&self, other: &{arg}) -> (r: bool) {{ match self.v_partial_cmp(other) {{ {c} => true, _ => false }} }}\n"));
                                }
                                s.push_str(&format!("impl{ig} VOrd<{arg}> for {selfty} {iwh} {{ open spec fn vord_req(&self, other: &{arg}) -> bool {{ true }} open spec fn vord_post(&self, other: &{arg}) -> bool {{ {sf}_post(*self, *other) }}\n{v} }}\n"));
                            }
                        }
                        None => {
                            let ta = targs.map(|t| format!("<{}>", t)).unwrap_or_default();
                            s.push_str(&format!("impl{} {}{} for {} {} {{\n", ig, tname, ta, selfty, iwh));
                            s.push_str(&f.traw);
                            s.push_str(&attrs);
                            s.push_str(&format!("fn {}{}({}){}\n{}", vname(&fname), fgen, params.join(", "), arrow, body));
                            s.push_str("}\n");
                        }
                    }
                }
            }
        }
    }
    let inl: Vec<String> = ctx.inlined.iter().map(|x| jstr(x)).collect();
    let rec = format!(
        "{{\"key\": {}, \"module\": {}, \"kind\": \"fn\", \"status\": {}, \"reason\": {}, \"file\": {}, \"lines\": [{}, {}], \"loops\": {}, \"inlined\": [{}], \"emitted\": {}}}",
        jstr(&f.key),
        jstr(&m.name),
        jstr(&status),
        jstr(&reason),
        jstr(&found.file),
        found.lines.0,
        found.lines.1,
        ctx.nloop,
        inl.join(", "),
        jstr(&fname)
    );
    (s, rec)
}
