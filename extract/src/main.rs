//! vx: mechanical extraction of the functions of /repo that are under contract into one Verus crate.
//! What it drops and rewrites is listed in /verif/DESIGN.md ("What the extraction does").
mod config;
mod desugar;
mod inline;
mod print;

use config::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

pub const FEATURES: &[&str] = &["hash", "signing", "keystore", "verify", "elf"];

/// Evaluate the cfg attributes of an item; true = keep.
pub fn cfg_keep(attrs: &[syn::Attribute]) -> bool {
    fn ev(m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => !(p.is_ident("test") || p.is_ident("kani") || p.is_ident("verif")) || p.is_ident("debug_assertions"),
            syn::Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                        return FEATURES.contains(&s.value().as_str());
                    }
                }
                if nv.path.is_ident("target_pointer_width") {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                        return s.value() == "64";
                    }
                }
                false
            }
            syn::Meta::List(l) => {
                let parts = l
                    .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !parts.iter().all(ev)
                } else if l.path.is_ident("any") {
                    parts.iter().any(ev)
                } else {
                    parts.iter().all(ev)
                }
            }
        }
    }
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                if let Ok(m) = l.parse_args::<syn::Meta>() {
                    if !ev(&m) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

pub fn tight<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

#[derive(Default)]
pub struct Node {
    pub text: String,
    pub broadcast: String,
    pub kids: BTreeMap<String, Node>,
}

pub struct FnRec {
    pub key: String,
    pub file: String,
    pub src_line: usize,
    pub contract: bool,
    pub mode: String,
    pub loops: usize,
    pub lost: Vec<String>,
    pub inlined: Vec<String>,
    pub shape: String,
}

#[derive(Default)]
pub struct Ctx {
    pub recs: Vec<FnRec>,
    pub dropped: Vec<String>,
    pub notes: Vec<String>,
    pub consts: BTreeMap<String, print::CVal>,
    pub structs: BTreeMap<String, Vec<(String, syn::Type)>>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 {
        eprintln!("usage: vx REPO CONTRACT_DIR PRELUDE OUT REPORT");
        std::process::exit(2);
    }
    let (repo, cdir, prelude, out, report) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    match run(repo, cdir, prelude, out, report) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}

fn run(repo: &str, cdir: &str, prelude: &str, out: &str, report: &str) -> Result<(), String> {
    let mut names: Vec<_> = std::fs::read_dir(cdir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|x| x == "vc"))
        .collect();
    names.sort();
    let mut files: Vec<FileCfg> = Vec::new();
    let mut extra = String::new();
    for n in names {
        let t = std::fs::read_to_string(&n).map_err(|e| e.to_string())?;
        let (mut f, x) = parse_config(&t, n.to_str().unwrap())?;
        files.append(&mut f);
        extra.push_str(&x);
    }
    // functions whose bodies the verifier cannot take this time: contract assumed, reported as such
    let forced = std::env::var("VX_EXTERNAL").unwrap_or_default();
    for k in forced.split(';').filter(|k| !k.is_empty()) {
        for f in &mut files {
            if let Some(key) = k.strip_prefix(&format!("{}:", f.path)) {
                if let Some(c) = f.fns.get_mut(key) {
                    c.mode = "external".into();
                }
            }
        }
    }
    let mut cx = Ctx::default();
    // pass 1: parse, consts
    let mut asts = Vec::new();
    for f in &files {
        let p = format!("{repo}/{}", f.path);
        let src = std::fs::read_to_string(&p).map_err(|e| format!("lost-anchor: {p}: {e}"))?;
        let mut ast = syn::parse_file(&src).map_err(|e| format!("parse: {p}: {e}"))?;
        desugar::CfgStrip.visit_file_mut(&mut ast);
        asts.push(ast);
    }
    for _ in 0..3 {
        for ast in &asts {
            for it in &ast.items {
                if let syn::Item::Const(c) = it {
                    if let Some(v) = print::const_eval(&c.expr, &cx.consts, Some(&c.ty)) {
                        cx.consts.insert(c.ident.to_string(), v);
                    }
                }
            }
        }
    }
    for ast in &asts {
        for it in &ast.items {
            if let syn::Item::Struct(s) = it {
                let v = s.fields.iter().filter_map(|f| Some((f.ident.as_ref()?.to_string(), f.ty.clone()))).collect();
                cx.structs.insert(s.ident.to_string(), v);
            }
        }
    }
    // helpers available for inlining: every fn of the extracted files that is not in the config
    let mut helpers = inline::Helpers::default();
    for (f, ast) in files.iter().zip(&asts) {
        inline::collect(&mut helpers, f, ast);
    }
    let mut root = Node::default();
    for (f, ast) in files.iter().zip(asts) {
        let text = emit_file(&mut cx, f, ast, &helpers)?;
        let mut n = &mut root;
        for seg in f.module.split("::").filter(|s| !s.is_empty()) {
            n = n.kids.entry(seg.to_string()).or_default();
        }
        n.text.push_str(&text);
        n.broadcast.push_str(&f.broadcast);
    }
    let mut o = std::fs::read_to_string(prelude).map_err(|e| e.to_string())?;
    for (suffix, mark) in [(".shim.rs", "//SHIM-EXTRA"), (".spec.rs", "//SPECS-EXTRA")] {
        let mut ps: Vec<_> = std::fs::read_dir(cdir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.to_string_lossy().ends_with(suffix)).collect();
        ps.sort();
        let mut t = String::new();
        for p in ps {
            t.push_str(&std::fs::read_to_string(&p).map_err(|e| e.to_string())?);
        }
        o = o.replace(mark, &t);
    }
    o.push_str("\nverus! {\n");
    o.push_str(&extra);
    fn dump(n: &Node, o: &mut String) {
        o.push_str(&n.text);
        for (k, c) in &n.kids {
            let _ = writeln!(o, "pub mod {k} {{ // MODULE\nuse vstd::prelude::*;\nuse crate::shim::*;\n#[allow(unused_imports)] use crate::specs::*;\nbroadcast use {{crate::shim::vx_facts, crate::specs::model_facts{}}};", c.broadcast);
            o.push_str("proof fn vx_canary() { assert(false); } //CANARY\n");
            dump(c, o);
            let _ = writeln!(o, "}} // END MODULE {k}");
        }
    }
    dump(&root, &mut o);
    o.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(out, &o).map_err(|e| e.to_string())?;
    // report
    let mut j = String::from("{\"functions\":[\n");
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
    let list = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    for (i, r) in cx.recs.iter().enumerate() {
        let _ = writeln!(
            j,
            "{}{{\"key\":\"{}\",\"file\":\"{}\",\"line\":{},\"contract\":{},\"mode\":\"{}\",\"loops\":{},\"lost\":[{}],\"inlined\":[{}],\"shape\":\"{}\"}}",
            if i > 0 { "," } else { "" },
            esc(&r.key), esc(&r.file), r.src_line, r.contract, r.mode, r.loops, list(&r.lost), list(&r.inlined), esc(&r.shape)
        );
    }
    let missing: Vec<String> = files
        .iter()
        .flat_map(|f| f.fns.iter().filter(|(_, c)| c.mode != "skip").map(move |(k, _)| format!("{}:{}", f.path, k)))
        .filter(|k| !cx.recs.iter().any(|r| format!("{}:{}", r.file, r.key) == *k))
        .collect();
    let _ = writeln!(j, "],\n\"missing\":[{}],\n\"dropped\":[{}],\n\"notes\":[{}]}}", list(&missing), list(&cx.dropped), list(&cx.notes));
    std::fs::write(report, j).map_err(|e| e.to_string())?;
    Ok(())
}

fn emit_file(cx: &mut Ctx, f: &FileCfg, ast: syn::File, helpers: &inline::Helpers) -> Result<String, String> {
    let mut o = String::new();
    o.push_str(&f.header);
    o.push('\n');
    let mut seen_types: BTreeSet<String> = BTreeSet::new();
    for item in ast.items {
        match item {
            syn::Item::Use(u) => {
                if !f.nouse {
                    o.push_str(&print::rewrite_use(&u));
                }
            }
            syn::Item::Const(c) => {
                let name = c.ident.to_string();
                if f.skip_items.contains(&name) {
                    continue;
                }
                match cx.consts.get(&name) {
                    Some(v) => {
                        let _ = writeln!(o, "{}", print::const_item(&name, &c.ty, v));
                    }
                    None => {
                        cx.dropped.push(format!("{}: const {}", f.path, name));
                    }
                }
            }
            syn::Item::Struct(s) => {
                let n = s.ident.to_string();
                if f.skip_items.contains(&n) || !cfg_keep(&s.attrs) {
                    continue;
                }
                seen_types.insert(n.clone());
                o.push_str(&print::print_struct(&s, f));
            }
            syn::Item::Enum(e) => {
                let n = e.ident.to_string();
                if f.skip_items.contains(&n) || !cfg_keep(&e.attrs) {
                    continue;
                }
                o.push_str(&print::print_enum(&e, f));
            }
            syn::Item::Fn(func) => {
                let key = func.sig.ident.to_string();
                let s = emit_fn(cx, f, &key, &func.attrs, &func.sig, Some(&func.block), helpers, None, false)?;
                o.push_str(&s);
            }
            syn::Item::Impl(im) => {
                o.push_str(&emit_impl(cx, f, im, helpers)?);
            }
            syn::Item::Trait(t) => {
                if !f.keep_traits.contains(&t.ident.to_string()) {
                    cx.dropped.push(format!("{}: trait {}", f.path, t.ident));
                }
            }
            syn::Item::Mod(_) => {}
            other => {
                cx.dropped.push(format!("{}: item {}", f.path, tight(&other).chars().take(60).collect::<String>()));
            }
        }
    }
    o.push_str(&f.spec);
    o.push('\n');
    Ok(o)
}

fn emit_impl(cx: &mut Ctx, f: &FileCfg, im: syn::ItemImpl, helpers: &inline::Helpers) -> Result<String, String> {
    if !cfg_keep(&im.attrs) {
        return Ok(String::new());
    }
    let ty = tight(&im.self_ty);
    let mut o = String::new();
    let mut as_inherent = false;
    let tr = match &im.trait_ {
        Some((_, p, _)) => {
            let t = tight(p).replace("std::convert::", "");
            let base = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if !(f.keep_traits.contains(&base) || f.inherent_traits.contains(&base)) {
                cx.dropped.push(format!("{}: impl {} for {}", f.path, t, ty));
                return Ok(String::new());
            }
            as_inherent = f.inherent_traits.contains(&base);
            Some(t)
        }
        None => None,
    };
    let mut body = String::new();
    let mut any = false;
    for it in &im.items {
        match it {
            syn::ImplItem::Fn(m) => {
                if !cfg_keep(&m.attrs) {
                    continue;
                }
                let key = match &tr {
                    Some(t) => format!("<{} as {}>::{}", ty, t, m.sig.ident),
                    None => format!("{}::{}", ty, m.sig.ident),
                };
                let mut sig = m.sig.clone();
                let mut block = m.block.clone();
                if as_inherent {
                    // the method gets a name of its own, so that it cannot hide an inherent one
                    let base = im.trait_.as_ref().and_then(|t| t.1.segments.last()).map(|s| s.ident.to_string()).unwrap_or_default();
                    sig.ident = quote::format_ident!("vx_{}_{}", base.to_lowercase(), sig.ident);
                    let tys: Vec<(String, syn::Type)> = im.items.iter().filter_map(|i| match i { syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
                    desugar::assoc_types(&mut sig, &mut block, &tys);
                }
                let s = emit_fn(cx, f, &key, &m.attrs, &sig, Some(&block), helpers, Some(&ty), tr.is_some() && !as_inherent)?;
                if !s.is_empty() {
                    any = true;
                }
                body.push_str(&s);
            }
            syn::ImplItem::Type(t) => {
                if !as_inherent {
                    body.push_str(&format!("type {} = {};\n", t.ident, print::ty_str(&t.ty)));
                }
            }
            _ => {}
        }
    }
    if !any {
        return Ok(String::new());
    }
    let gens = print::generics_str(&im.generics);
    let selfty = print::ty_str(&im.self_ty);
    match (&im.trait_, as_inherent) {
        (Some((_, p, _)), false) => {
            let _ = writeln!(o, "impl{gens} {} for {selfty} {{", print::map_paths(&print::toks_str(quote::ToTokens::to_token_stream(p)).replace('\n', " ")));
        }
        _ => {
            let _ = writeln!(o, "impl{gens} {selfty} {{");
        }
    }
    o.push_str(&body);
    o.push_str("}\n");
    Ok(o)
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    cx: &mut Ctx,
    f: &FileCfg,
    key: &str,
    attrs: &[syn::Attribute],
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    helpers: &inline::Helpers,
    self_ty: Option<&str>,
    in_trait: bool,
) -> Result<String, String> {
    if !cfg_keep(attrs) {
        return Ok(String::new());
    }
    let cfg = f.fns.get(key);
    let Some(cfg) = cfg else {
        // not under contract: only reachable through inlining
        cx.dropped.push(format!("{}: fn {} (not under contract)", f.path, key));
        return Ok(String::new());
    };
    if cfg.mode == "skip" {
        cx.dropped.push(format!("{}: fn {} (out of reach)", f.path, key));
        return Ok(String::new());
    }
    let mut block = block.cloned().ok_or("no body")?;
    let mut rec = FnRec {
        key: key.to_string(),
        file: f.path.clone(),
        src_line: sig.ident.span().start().line,
        contract: !cfg.contract.trim().is_empty(),
        mode: cfg.mode.clone(),
        loops: 0,
        lost: vec![],
        inlined: vec![],
        shape: String::new(),
    };
    // `mut self` by value: a mutable local that starts as self
    let mut sig = sig.clone();
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            desugar::rename_self(&mut block);
        }
    }
    let sig = &sig;
    desugar::trait_calls(&mut block, &f.inherent_traits);
    inline::inline_block(&mut block, helpers, f, key, self_ty, &mut rec.inlined);
    let mut d = desugar::Desugar::new(&cx.consts, &cx.structs, self_ty.map(|s| s.split('<').next().unwrap().to_string()));
    d.run(&mut block);
    for n in d.notes.drain(..) {
        cx.notes.push(format!("{}:{}: {}", f.path, key, n));
    }
    let nloops = desugar::mark_loops(&mut block);
    rec.loops = nloops;
    rec.shape = desugar::shape(&block);
    let mut lost = Vec::new();
    desugar::place_hints(&mut block, cfg, &mut lost);
    for k in cfg.loops.keys() {
        if *k >= nloops {
            lost.push(format!("loop {k}"));
        }
    }
    rec.lost = lost;
    let s = print::print_fn(f, cfg, key, sig, &block, in_trait, cx);
    cx.recs.push(rec);
    Ok(s)
}
