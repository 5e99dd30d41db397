//! Rewrites of Rust constructs the verifier does not accept into equivalent ones that it does.
//! Every rewrite keeps evaluation order and effects; the list is in DESIGN.md.
use crate::config::FnC;
use crate::print::{const_eval, CVal};
use crate::{cfg_keep, tight};
use proc_macro2::Span;
use quote::{format_ident, quote};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct CfgStrip;
impl VisitMut for CfgStrip {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| item_attrs(i).map(|a| cfg_keep(a)).unwrap_or(true));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_keep(&a.attrs));
        for a in m.arms.iter_mut() {
            a.attrs.clear();
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        let v: Vec<Field> = f.named.iter().filter(|x| cfg_keep(&x.attrs)).cloned().collect();
        f.named = v.into_iter().collect();
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let v: Vec<FieldValue> = e
            .fields
            .iter()
            .filter(|x| cfg_keep(&x.attrs))
            .cloned()
            .map(|mut f| {
                f.attrs.clear();
                f
            })
            .collect();
        e.fields = v.into_iter().collect();
        if e.rest.is_some() && !e.fields.empty_or_trailing() {
            e.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        let v: Vec<Variant> = e.variants.iter().filter(|x| cfg_keep(&x.attrs)).cloned().collect();
        e.variants = v.into_iter().collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| stmt_attrs(s).map(|a| cfg_keep(a)).unwrap_or(true));
        for s in b.stmts.iter_mut() {
            strip_stmt_attrs(s);
        }
        visit_mut::visit_block_mut(self, b);
    }
}

fn item_attrs(i: &Item) -> Option<&Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        _ => return None,
    })
}
fn expr_attrs(e: &Expr) -> Option<&Vec<Attribute>> {
    Some(match e {
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        _ => return None,
    })
}
fn stmt_attrs(s: &Stmt) -> Option<&Vec<Attribute>> {
    match s {
        Stmt::Local(l) => Some(&l.attrs),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Item(i) => item_attrs(i),
        Stmt::Macro(m) => Some(&m.attrs),
    }
}
fn strip_stmt_attrs(s: &mut Stmt) {
    match s {
        Stmt::Local(l) => l.attrs.clear(),
        Stmt::Expr(e, _) => match e {
            Expr::If(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::Block(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(),
            Expr::MethodCall(x) => x.attrs.clear(),
            Expr::ForLoop(x) => x.attrs.clear(),
            Expr::While(x) => x.attrs.clear(),
            _ => {}
        },
        Stmt::Macro(m) => m.attrs.clear(),
        _ => {}
    }
}

pub struct Desugar<'a> {
    consts: &'a BTreeMap<String, CVal>,
    structs: &'a BTreeMap<String, Vec<(String, Type)>>,
    self_ty: Option<String>,
    n: usize,
    pub notes: Vec<String>,
}

const NEEDLES: &[&str] = &["Magic not found", "Module is raw"];
fn lit_flags(s: &str) -> (bool, bool) {
    (s.contains(NEEDLES[0]), s.contains(NEEDLES[1]))
}
fn fmt_lit(s: &str) -> Expr {
    let (a, b) = lit_flags(s);
    parse_quote!(vx_fmt(#a, #b, false, false))
}
fn str_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Paren(p) => str_lit(&p.expr),
        Expr::Group(p) => str_lit(&p.expr),
        _ => None,
    }
}

enum Src {
    Slice(Expr),         // by reference
    Owned(Expr),         // by value
    Range(Expr, Expr),   // a..b
}
enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Skip(Expr),
    Take(Expr),
    Enumerate,
    Cloned,
}

impl<'a> Desugar<'a> {
    pub fn new(consts: &'a BTreeMap<String, CVal>, structs: &'a BTreeMap<String, Vec<(String, Type)>>, self_ty: Option<String>) -> Self {
        Self { consts, structs, self_ty, n: 0, notes: vec![] }
    }
    pub fn run(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        take_mut(b);
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// Split an iterator chain into source and adapters; None if it is not one.
    fn pipeline(&self, e: &Expr) -> Option<(Src, Vec<Stage>)> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a0 = m.args.first().cloned();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => return Some((Src::Slice((*m.receiver).clone()), vec![])),
                    ("into_iter", 0) => {
                        if let Some(r) = range_of(&m.receiver) {
                            return Some((Src::Range(r.0, r.1), vec![]));
                        }
                        return Some((Src::Owned((*m.receiver).clone()), vec![]));
                    }
                    _ => {}
                }
                let st = match (name.as_str(), a0) {
                    ("map", Some(f)) => Stage::Map(f),
                    ("filter", Some(f)) => Stage::Filter(f),
                    ("filter_map", Some(f)) => Stage::FilterMap(f),
                    ("flat_map", Some(f)) => Stage::FlatMap(f),
                    ("skip", Some(f)) => Stage::Skip(f),
                    ("take", Some(f)) => Stage::Take(f),
                    ("enumerate", None) => Stage::Enumerate,
                    ("cloned" | "copied", None) => Stage::Cloned,
                    _ => return None,
                };
                let (s, mut v) = self.pipeline(&m.receiver)?;
                v.push(st);
                Some((s, v))
            }
            Expr::Paren(p) => self.pipeline(&p.expr),
            Expr::Range(_) => range_of(e).map(|r| (Src::Range(r.0, r.1), vec![])),
            _ => None,
        }
    }

    /// `let PAT = VALUE; BODY` for a closure (or `f(VALUE)` for a path).
    fn apply(&mut self, f: &Expr, v: Expr) -> Expr {
        match f {
            Expr::Closure(c) => {
                if let Some(p) = c.inputs.first() {
                    let body = &c.body;
                    let p2 = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        o => o.clone(),
                    };
                    return parse_quote!({ let #p2 = #v; #body });
                }
                (*c.body).clone()
            }
            other => match tight(other).as_str() {
                "ToString::to_string" => parse_quote!((#v).vx_clone()),
                _ => parse_quote!(#other(#v)),
            },
        }
    }

    /// Build the loop that drives a pipeline; `sink` receives the item expression.
    fn drive(&mut self, src: Src, stages: Vec<Stage>, acc: Option<Ident>, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let k = self.fresh();
        let i = format_ident!("vx_i{}", k);
        let s = format_ident!("vx_s{}", k);
        let x = format_ident!("vx_x{}", k);
        let accn = acc.clone().unwrap_or_else(|| format_ident!("vx_none"));
        let body = self.stages(&i, parse_quote!(#x), stages.into_iter().collect(), sink);
        match src {
            Src::Slice(e) => parse_stmts(quote! {
                let #s = (#e).vx_slice();
                let mut #i: usize = 0;
                while #i < #s.len() {
                    vxm_loop!(#i, #s, #accn);
                    let #x = &#s[#i];
                    #i = #i + 1;
                    #(#body)*
                }
            }),
            Src::Owned(e) => {
                let g = format_ident!("vx_g{}", k);
                parse_stmts(quote! {
                    let mut #s = vx_vec(#e);
                    vxm_ghost!(#g, #s);
                    let mut #i: usize = 0;
                    while #s.len() > 0 {
                        vxm_loop!(#i, #s, #accn, #g);
                        let #x = #s.remove(0);
                        #i = #i + 1;
                        #(#body)*
                    }
                })
            }
            Src::Range(a, b) => parse_stmts(quote! {
                let #s = #b;
                let mut #i = #a;
                while #i < #s {
                    vxm_loop!(#i, #s, #accn);
                    let #x = #i;
                    #i = #i + 1;
                    #(#body)*
                }
            }),
        }
    }

    fn stages(&mut self, i: &Ident, item: Expr, st: std::collections::VecDeque<Stage>, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let mut st = st;
        let Some(first) = st.pop_front() else {
            return sink(self, item);
        };
        let k = self.fresh();
        let y = format_ident!("vx_y{}", k);
        match first {
            Stage::Map(f) => {
                let v = self.apply(&f, item);
                let rest = self.stages(i, parse_quote!(#y), st, sink);
                parse_stmts(quote! { let #y = #v; #(#rest)* })
            }
            Stage::Cloned => {
                let rest = self.stages(i, parse_quote!(#y), st, sink);
                parse_stmts(quote! { let #y = (#item).vx_clone(); #(#rest)* })
            }
            Stage::Enumerate => {
                let rest = self.stages(i, parse_quote!(#y), st, sink);
                parse_stmts(quote! { let #y = (#i - 1, #item); #(#rest)* })
            }
            Stage::Filter(f) => {
                let v = self.apply(&f, parse_quote!(&#item));
                let rest = self.stages(i, item, st, sink);
                parse_stmts(quote! { let #y = #v; if #y { #(#rest)* } })
            }
            Stage::FilterMap(f) => {
                let v = self.apply(&f, item);
                let rest = self.stages(i, parse_quote!(#y), st, sink);
                parse_stmts(quote! { match #v { Some(#y) => { #(#rest)* } None => {} } })
            }
            Stage::Skip(n) => {
                let rest = self.stages(i, item, st, sink);
                parse_stmts(quote! { if #i > #n { #(#rest)* } })
            }
            Stage::Take(n) => {
                let rest = self.stages(i, item, st, sink);
                parse_stmts(quote! { if #i <= #n { #(#rest)* } })
            }
            Stage::FlatMap(f) => {
                // nested iterator chain?
                if let Expr::Closure(c) = &f {
                    let body = strip_block(&c.body);
                    if let Some((src2, st2)) = self.pipeline(&body) {
                        let p = c.inputs.first().cloned();
                        let rest: Vec<Stage> = st2.into_iter().chain(st).collect();
                        let inner = self.drive(src2, rest, None, sink);
                        return match p {
                            Some(p) => parse_stmts(quote! { let #p = #item; #(#inner)* }),
                            None => inner,
                        };
                    }
                }
                let v = self.apply(&f, item);
                // Vec-valued: only followed by the terminal
                let rest = self.stages(i, parse_quote!(vx_append_marker!(#y)), st, sink);
                parse_stmts(quote! { let mut #y = #v; #(#rest)* })
            }
        }
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let (src, stages) = match name.as_str() {
            "fold" | "collect" | "sum" | "any" | "all" | "find" | "position" | "find_map" | "count" => self.pipeline(&m.receiver)?,
            "next" => return None,
            _ => return None,
        };
        let k = self.fresh();
        let acc = format_ident!("vx_acc{}", k);
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let a = acc.clone();
        let (init, stmts): (proc_macro2::TokenStream, Vec<Stmt>) = match name.as_str() {
            "fold" => {
                let init = args.first()?.clone();
                let f = args.get(1)?.clone();
                let Expr::Closure(c) = f else { return None };
                let (p0, p1) = (c.inputs.first()?.clone(), c.inputs.iter().nth(1)?.clone());
                let body = c.body;
                let st = self.drive(src, stages, Some(acc.clone()), &mut |_s, x| {
                    parse_stmts(quote! { let #p0 = #a; let #p1 = #x; #a = #body; })
                });
                (quote!(let mut #acc = #init;), st)
            }
            "collect" => {
                let st = self.drive(src, stages, Some(acc.clone()), &mut |_s, x| {
                    if let Expr::Macro(mm) = &x {
                        if mm.mac.path.is_ident("vx_append_marker") {
                            let y = &mm.mac.tokens;
                            return parse_stmts(quote! { #a.append(&mut #y); });
                        }
                    }
                    parse_stmts(quote! { #a.push(#x); })
                });
                (quote!(let mut #acc = Vec::new();), st)
            }
            "sum" => {
                let st = self.drive(src, stages, Some(acc.clone()), &mut |_s, x| parse_stmts(quote! { #a = #a + #x; }));
                (quote!(let mut #acc = 0;), st)
            }
            "count" => {
                let st = self.drive(src, stages, Some(acc.clone()), &mut |_s, _x| parse_stmts(quote! { #a = #a + 1; }));
                (quote!(let mut #acc: usize = 0;), st)
            }
            "any" => {
                let f = args.first()?.clone();
                let st = self.drive(src, stages, Some(acc.clone()), &mut |s, x| {
                    let v = s.apply(&f, x);
                    parse_stmts(quote! { if #v { #a = true; break; } })
                });
                (quote!(let mut #acc = false;), st)
            }
            "all" => {
                let f = args.first()?.clone();
                let st = self.drive(src, stages, Some(acc.clone()), &mut |s, x| {
                    let v = s.apply(&f, x);
                    parse_stmts(quote! { if !(#v) { #a = false; break; } })
                });
                (quote!(let mut #acc = true;), st)
            }
            "find" => {
                let f = args.first()?.clone();
                let st = self.drive(src, stages, Some(acc.clone()), &mut |s, x| {
                    let v = s.apply(&f, parse_quote!(&#x));
                    parse_stmts(quote! { if #v { #a = Some(#x); break; } })
                });
                (quote!(let mut #acc = None;), st)
            }
            "position" => {
                let f = args.first()?.clone();
                let kk = self.n + 1; // index ident of the loop that drive() will create
                let i = format_ident!("vx_i{}", kk);
                let st = self.drive(src, stages, Some(acc.clone()), &mut |s, x| {
                    let v = s.apply(&f, x);
                    parse_stmts(quote! { if #v { #a = Some(#i - 1); break; } })
                });
                (quote!(let mut #acc = None;), st)
            }
            "find_map" => {
                let f = args.first()?.clone();
                let st = self.drive(src, stages, Some(acc.clone()), &mut |s, x| {
                    let v = s.apply(&f, x);
                    let z = format_ident!("vx_z{}", s.fresh());
                    parse_stmts(quote! { match #v { Some(#z) => { #a = Some(#z); break; } None => {} } })
                });
                (quote!(let mut #acc = None;), st)
            }
            _ => return None,
        };
        Some(parse_quote!({ #init #(#stmts)* #acc }))
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let pat = &f.pat;
        let body = &f.body.stmts;
        let k = self.fresh();
        let i = format_ident!("vx_i{}", k);
        let s = format_ident!("vx_s{}", k);
        let mut e = (*f.expr).clone();
        while let Expr::Paren(p) = e {
            e = *p.expr;
        }
        // (a..=b).rev() and (a..b).rev()
        if let Expr::MethodCall(m) = &e {
            if m.method == "rev" {
                let mut r = (*m.receiver).clone();
                while let Expr::Paren(p) = r {
                    r = *p.expr;
                }
                if let Expr::Range(r) = r {
                    let (a, b) = (r.start?, r.end?);
                    let lo = format_ident!("vx_lo{}", k);
                    let hi = format_ident!("vx_s{}", k);
                    let go = format_ident!("vx_go{}", k);
                    return Some(match r.limits {
                        RangeLimits::Closed(_) => parse_quote!({
                            let #lo = #a; let #hi = #b;
                            let mut #i = #hi;
                            let mut #go = #lo <= #hi;
                            while #go {
                                vxm_loop!(#i, #hi, vx_none, #go);
                                let #pat = #i;
                                if #i == #lo { #go = false; } else { #i = #i - 1; }
                                #(#body)*
                            }
                        }),
                        RangeLimits::HalfOpen(_) => parse_quote!({
                            let #lo = #a; let #hi = #b;
                            let mut #i = #hi;
                            let #go = true;
                            while #i > #lo {
                                vxm_loop!(#i, #hi, vx_none, #go);
                                #i = #i - 1;
                                let #pat = #i;
                                #(#body)*
                            }
                        }),
                    });
                }
                return None;
            }
        }
        if let Expr::Range(r) = &e {
            let (a, b) = (r.start.clone()?, r.end.clone()?);
            if let RangeLimits::HalfOpen(_) = r.limits {
                return Some(parse_quote!({
                    let mut #i = #a;
                    let #s = #b;
                    while #i < #s {
                        vxm_loop!(#i, #s, vx_none);
                        let #pat = #i;
                        #i = #i + 1;
                        #(#body)*
                    }
                }));
            }
            return None;
        }
        if let Some((src, stages)) = self.pipeline(&e) {
            let body = body.clone();
            let stmts = self.drive(src, stages, None, &mut |_s, x| parse_stmts(quote! { let #pat = #x; #(#body)* }));
            return Some(parse_quote!({ #(#stmts)* }));
        }
        // &v, &v.field, or an expression that already is a reference / slice
        let inner: Expr = match &e {
            Expr::Reference(r) => (*r.expr).clone(),
            o => o.clone(),
        };
        let stmts = {
            let body = body.clone();
            self.drive(Src::Slice(inner), vec![], None, &mut |_s, x| parse_stmts(quote! { let #pat = #x; #(#body)* }))
        };
        Some(parse_quote!({ #(#stmts)* }))
    }

    fn fmt_call(&mut self, mac: &Macro, lit_only: bool) -> Expr {
        let parsed = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let Ok(args) = parsed else {
            self.notes.push("format! arguments not parsed".into());
            return parse_quote!(vx_fmt(false, false, false, false));
        };
        let mut it = args.into_iter();
        let lit = it.next().and_then(|e| str_lit(&e)).unwrap_or_default();
        let (f0, f1) = lit_flags(&lit);
        let mut pre: Vec<Stmt> = vec![];
        let mut a0: Expr = parse_quote!(false);
        let mut a1: Expr = parse_quote!(false);
        let mut names: Vec<Expr> = it.collect();
        // implicit captures {x}
        let mut rest = lit.as_str();
        while let Some(p) = rest.find('{') {
            rest = &rest[p + 1..];
            if let Some(q) = rest.find('}') {
                let nm = rest[..q].split(':').next().unwrap_or("");
                if !nm.is_empty() && nm.chars().all(|c| c.is_alphanumeric() || c == '_') && !nm.chars().next().unwrap().is_numeric() {
                    if let Ok(e) = parse_str::<Expr>(nm) {
                        names.push(e);
                    }
                }
                rest = &rest[q + 1..];
            }
        }
        for (n, mut e) in names.into_iter().enumerate() {
            if let Expr::Assign(a) = &e {
                e = (*a.right).clone();
            }
            self.visit_expr_mut(&mut e);
            let v = format_ident!("vx_f{}_{}", n, self.fresh());
            match &e {
                Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.consts.contains_key(&i.to_string())) => {}
                Expr::Path(_) if !lit_only => {
                    a0 = parse_quote!(#a0 || vx_has0(&#e));
                    a1 = parse_quote!(#a1 || vx_has1(&#e));
                }
                Expr::Binary(_) => {
                    if let Some(c) = const_eval(&e, self.consts, None) {
                        if let CVal::Int(_) = c {
                            continue;
                        }
                    }
                    pre.push(parse_quote!(let #v = #e;));
                }
                _ => {}
            }
        }
        parse_quote!({ #(#pre)* vx_fmt(#f0, #f1, #a0, #a1) })
    }

    fn default_of(&self, t: &Type) -> Option<Expr> {
        let s = tight(t);
        Some(match s.as_str() {
            "bool" => parse_quote!(false),
            "usize" | "u32" | "u64" | "u16" | "u8" => {
                let t: Type = t.clone();
                parse_quote!((0 as #t))
            }
            "PathBuf" => parse_quote!(PathBuf::new()),
            _ if s.starts_with("Vec<") => parse_quote!(Vec::new()),
            _ if s.starts_with("Option<") => parse_quote!(None),
            _ => return None,
        })
    }

    fn closure0(&mut self, f: &Expr) -> Expr {
        // value of a nullary closure / function
        match f {
            Expr::Closure(c) => (*c.body).clone(),
            o if tight(o).ends_with("Vec::new") => parse_quote!(Vec::new()),
            o => parse_quote!(#o()),
        }
    }
}

fn strip_block(e: &Expr) -> Expr {
    match e {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => strip_block(x),
            _ => e.clone(),
        },
        Expr::Paren(p) => strip_block(&p.expr),
        _ => e.clone(),
    }
}

fn range_of(e: &Expr) -> Option<(Expr, Expr)> {
    match e {
        Expr::Paren(p) => range_of(&p.expr),
        Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone())),
        _ => None,
    }
}

pub fn parse_stmts(t: proc_macro2::TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(quote!({ #t })).unwrap_or_else(|e| panic!("internal: {e}: {t}"));
    b.stmts
}

fn is_opt_source(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(n.as_str(), "get" | "get_mut" | "first" | "last" | "as_ref" | "ok" | "position" | "find" | "cloned" | "copied" | "get_at" | "pop" | "strip_suffix" | "strip_prefix")
                || n.starts_with("checked_")
                || (matches!(n.as_str(), "map" | "and_then" | "filter") && is_opt_source(&m.receiver))
        }
        _ => false,
    }
}

impl VisitMut for Desugar<'_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, Some(m.semi_token.unwrap_or_default()));
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // inner consts -> let; inner use -> handled by header
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Const(c)) => {
                    let (id, ty, e) = (c.ident, c.ty, c.expr);
                    if let Some(CVal::Int(v)) = const_eval(&e, self.consts, Some(&ty)) {
                        let l = LitInt::new(&v.to_string(), Span::call_site());
                        out.push(parse_quote!(let #id: #ty = #l;));
                    } else if matches!(&*e, Expr::Macro(m) if m.mac.path.is_ident("include_str")) {
                        out.push(parse_quote!(let #id = #e;));
                    } else {
                        out.push(parse_quote!(let #id: #ty = #e;));
                    }
                }
                Stmt::Item(Item::Use(u)) => {
                    let t = tight(&u.tree);
                    if !["serde", "std::mem", "std::fmt", "md5"].iter().any(|d| t.starts_with(d)) {
                        out.push(Stmt::Item(Item::Use(u)));
                    }
                }
                Stmt::Macro(ref m) if is_print(&m.mac) => {}
                Stmt::Expr(Expr::Macro(ref m), Some(_)) if is_print(&m.mac) => {}
                o => out.push(o),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if let Expr::Macro(m) = &*a.body {
            if is_print(&m.mac) {
                *a.body = parse_quote!({});
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // iterator pipelines first (outermost terminal)
        if let Expr::MethodCall(m) = e {
            let m2 = m.clone();
            if let Some(new) = self.terminal(&m2) {
                *e = new;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            let f2 = f.clone();
            match self.for_loop(&f2) {
                Some(new) => {
                    *e = new;
                    self.visit_expr_mut(e);
                    return;
                }
                None => self.notes.push(format!("for loop kept: {}", tight(&f2.expr))),
            }
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            match name.as_str() {
                "format" => {
                    let mac = m.mac.clone();
                    *e = self.fmt_call(&mac, false);
                    return;
                }
                "debug_assert" | "assert" => {
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut c = args[0].clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!(vx_debug_assert(#c));
                    }
                    return;
                }
                "debug_assert_eq" | "assert_eq" => {
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let (mut a, mut b) = (args[0].clone(), args[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(vx_debug_assert(#a == #b));
                    }
                    return;
                }
                "matches" => {
                    let toks = m.mac.tokens.clone();
                    let mut depth_split: Option<usize> = None;
                    let v: Vec<proc_macro2::TokenTree> = toks.into_iter().collect();
                    for (i, t) in v.iter().enumerate() {
                        if let proc_macro2::TokenTree::Punct(p) = t {
                            if p.as_char() == ',' {
                                depth_split = Some(i);
                                break;
                            }
                        }
                    }
                    if let Some(i) = depth_split {
                        let a: proc_macro2::TokenStream = v[..i].iter().cloned().collect();
                        let b: proc_macro2::TokenStream = v[i + 1..].iter().cloned().collect();
                        *e = parse_quote!((match #a { #b => true, _ => false }));
                        self.visit_expr_mut(e);
                    }
                    return;
                }
                "vec" => {
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut v: Vec<Expr> = args.into_iter().collect();
                        for x in v.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        if v.is_empty() {
                            *e = parse_quote!(Vec::new());
                        } else {
                            let t = format_ident!("vx_v{}", self.fresh());
                            *e = parse_quote!({ let mut #t = Vec::new(); #( #t.push(#v); )* #t });
                        }
                    } else {
                        // vec![x; n]
                        let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        if let Some(i) = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ';')) {
                            let a: proc_macro2::TokenStream = toks[..i].iter().cloned().collect();
                            let b: proc_macro2::TokenStream = toks[i + 1..].iter().cloned().collect();
                            let mut a: Expr = parse_quote!(#a);
                            let mut b: Expr = parse_quote!(#b);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(vx_fill(#a, #b));
                        }
                    }
                    return;
                }
                "println" | "eprintln" | "print" | "eprint" => {
                    *e = parse_quote!({});
                    return;
                }
                "include_str" => {
                    *e = parse_quote!(vx_fmt(false, false, false, false));
                    return;
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = (*m.receiver).clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let v = format_ident!("vx_o{}", self.n + 1);
                match (name.as_str(), args.len()) {
                    ("concat", 0) => match &r {
                        Expr::Array(a) => {
                            self.n += 1;
                            let els: Vec<&Expr> = a.elems.iter().collect();
                            Some(parse_quote!({ let mut #v = Vec::new(); #( #v.vx_cat(#els); )* #v }))
                        }
                        _ => Some(parse_quote!(vx_flatten(&#r))),
                    },
                    ("to_string", 0) => Some(match str_lit(&r) {
                        Some(l) => fmt_lit(&l),
                        None => parse_quote!((#r).vx_to_string()),
                    }),
                    ("contains", 1) if str_lit(&args[0]).is_none() && matches!(&args[0], Expr::Reference(_)) => {
                        let a = &args[0];
                        Some(parse_quote!(vx_contains(&#r, #a)))
                    }
                    ("contains", 1) => str_lit(&args[0]).map(|l| {
                        if l == NEEDLES[0] {
                            parse_quote!(vx_has0(&#r))
                        } else if l == NEEDLES[1] {
                            parse_quote!(vx_has1(&#r))
                        } else {
                            parse_quote!((#r).vx_contains_lit())
                        }
                    }),
                    ("to_le_bytes", 0) => Some(parse_quote!((#r).vx_le())),
                    ("clone", 0) | ("to_owned", 0) => Some(parse_quote!((#r).vx_clone())),
                    ("as_bytes", 0) => Some(parse_quote!((#r).vx_bytes())),
                    ("map_or_else", 2) => {
                        self.n += 1;
                        let none = self.closure0(&args[0]);
                        let some = self.apply(&args[1], parse_quote!(#v));
                        Some(parse_quote!((match #r { Some(#v) => #some, None => #none })))
                    }
                    ("map_or", 2) => {
                        self.n += 1;
                        let none = &args[0];
                        let some = self.apply(&args[1], parse_quote!(#v));
                        Some(parse_quote!((match #r { Some(#v) => #some, None => #none })))
                    }
                    ("is_some_and", 1) => {
                        self.n += 1;
                        let some = self.apply(&args[0], parse_quote!(#v));
                        Some(parse_quote!((match #r { Some(#v) => #some, None => false })))
                    }
                    ("is_none_or", 1) => {
                        self.n += 1;
                        let some = self.apply(&args[0], parse_quote!(#v));
                        Some(parse_quote!((match #r { Some(#v) => #some, None => true })))
                    }
                    ("ok_or_else", 1) => {
                        self.n += 1;
                        let er = self.closure0(&args[0]);
                        Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#er) })))
                    }
                    ("ok_or", 1) => {
                        self.n += 1;
                        let er = match str_lit(&args[0]) {
                            Some(l) => fmt_lit(&l),
                            None => args[0].clone(),
                        };
                        Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#er) })))
                    }
                    ("map_err", 1) => {
                        self.n += 1;
                        let er = self.apply(&args[0], parse_quote!(#v));
                        Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#v) => Err(#er) })))
                    }
                    ("map", 1) => {
                        self.n += 1;
                        let some = self.apply(&args[0], parse_quote!(#v));
                        if is_opt_source(&m.receiver) || marked_opt(&r) {
                            Some(parse_quote!((match #r { Some(#v) => Some(#some), None => None })))
                        } else {
                            Some(parse_quote!((match #r { Ok(#v) => Ok(#some), Err(#v) => Err(#v) })))
                        }
                    }
                    ("and_then", 1) => {
                        self.n += 1;
                        let some = self.apply(&args[0], parse_quote!(#v));
                        if is_opt_source(&m.receiver) || marked_opt(&r) {
                            Some(parse_quote!((match #r { Some(#v) => #some, None => None })))
                        } else {
                            Some(parse_quote!((match #r { Ok(#v) => #some, Err(#v) => Err(#v) })))
                        }
                    }
                    ("or_else", 1) if is_opt_source(&m.receiver) || marked_opt(&r) => {
                        self.n += 1;
                        let none = self.closure0(&args[0]);
                        Some(parse_quote!((match #r { Some(#v) => Some(#v), None => #none })))
                    }
                    ("unwrap_or_else", 1) => {
                        self.n += 1;
                        let none = self.closure0(&args[0]);
                        Some(parse_quote!((match #r { Some(#v) => #v, None => #none })))
                    }
                    ("unwrap_or_default", 0) => {
                        self.n += 1;
                        Some(parse_quote!((match #r { Some(#v) => #v, None => vx_default() })))
                    }
                    ("is_multiple_of", 1) => {
                        let a = &args[0];
                        Some(parse_quote!((#r % #a == 0)))
                    }
                    ("extend", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(#r.vx_cat(#a)))
                    }
                    ("extend_from_slice", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(#r.vx_cat(#a)))
                    }
                    ("append", 1) => match &args[0] {
                        // append(&mut f()): the temporary is emptied and dropped
                        Expr::Reference(x) if x.mutability.is_some() && !matches!(*x.expr, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) => {
                            let a = &x.expr;
                            Some(parse_quote!(#r.vx_cat(#a)))
                        }
                        _ => None,
                    },
                    // X.by_ref().take(N).read_to_end(V)
                    ("read_to_end", 1) => match &r {
                        Expr::MethodCall(t) if t.method == "take" => match &*t.receiver {
                            Expr::MethodCall(b) if b.method == "by_ref" => {
                                let (x, n, a) = (&b.receiver, &t.args[0], &args[0]);
                                Some(parse_quote!(#x.vx_read_upto(#n, #a)))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    ("starts_with", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(vx_starts(&(#r), #a)))
                    }
                    ("unwrap_or", 1) => {
                        let a = &args[0];
                        Some(parse_quote!((#r).vx_unwrap_or(#a)))
                    }
                    ("try_into", 0) => Some(parse_quote!((#r).vx_try_into())),
                    ("min", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(vx_min(#r, #a)))
                    }
                    ("max", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(vx_max(#r, #a)))
                    }
                    ("sort_by_key" | "sort_unstable_by_key", 1) => sort_field(&args[0], false).map(|n| {
                        let f = format_ident!("vx_sort_{}", n);
                        parse_quote!(#f(&mut #r))
                    }),
                    ("sort_by" | "sort_unstable_by", 1) => sort_field(&args[0], true).map(|n| {
                        let f = format_ident!("vx_sort_{}", n);
                        parse_quote!(#f(&mut #r))
                    }),
                    ("get_mut", 1) => {
                        let a = &args[0];
                        match a {
                            Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) => {
                                let lo: Expr = g.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                                g.end.as_ref().map(|hi| parse_quote!(vx_cut_mut(&mut #r, #lo, #hi)))
                            }
                            _ => Some(parse_quote!(vx_at_mut(&mut #r, #a))),
                        }
                    }
                    ("saturating_sub", 1) => {
                        let a = &args[0];
                        Some(parse_quote!(vx_satsub(#r, #a)))
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = tight(&c.func);
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(t) = f.strip_suffix("::from_le_bytes") {
                    let n = size_of(t).unwrap_or(0) as usize;
                    let n = LitInt::new(&format!("{n}"), Span::call_site());
                    let t = format_ident!("{}", t);
                    let a = &args[0];
                    Some(parse_quote!(<#t as VxLe<#n>>::vx_from_le(#a)))
                } else if let Some(t) = f.strip_prefix("mem::size_of::<").or_else(|| f.strip_prefix("std::mem::size_of::<")).or_else(|| f.strip_prefix("size_of::<")) {
                    size_of(t.trim_end_matches(['>', '('])).map(|n| {
                        let l = LitInt::new(&format!("{n}usize"), Span::call_site());
                        parse_quote!(#l)
                    })
                } else if (f.ends_with("Error::new") || f.ends_with("Error::other") || f.ends_with("io::Error::new")) && args.last().is_some_and(|a| str_lit(a).is_some()) {
                    let l = fmt_lit(&str_lit(args.last().unwrap()).unwrap());
                    let func = &c.func;
                    let mut a = args.clone();
                    a.pop();
                    a.push(l);
                    Some(parse_quote!(#func(#(#a),*)))
                } else if f == "String::from" && args.len() == 1 && str_lit(&args[0]).is_some() {
                    Some(fmt_lit(&str_lit(&args[0]).unwrap()))
                } else if let (Some(t), 1) = (f.strip_suffix("::try_from").filter(|t| size_of(t).is_some()), args.len()) {
                    let t = format_ident!("{}", t);
                    let a = &args[0];
                    Some(parse_quote!(VxTryTo::<#t>::vx_try_into(&(#a))))
                } else if f == "String::from_utf8" {
                    let a = &args[0];
                    Some(parse_quote!(vx_from_utf8(#a)))
                } else if f.ends_with("::default") && args.is_empty() {
                    let t = f.trim_end_matches("::default").to_string();
                    let t = if t == "Self" { self.self_ty.clone().unwrap_or(t) } else { t };
                    self.structs.get(&t).and_then(|fs| {
                        let id = format_ident!("{}", t);
                        let mut names = vec![];
                        let mut vals = vec![];
                        for (n, ty) in fs {
                            names.push(format_ident!("{}", n));
                            vals.push(self.default_of(ty)?);
                        }
                        Some(parse_quote!(#id { #( #names: #vals ),* }))
                    })
                } else {
                    None
                }
            }
            Expr::Struct(s) => {
                if let Some(rest) = &s.rest {
                    let rs = tight(rest);
                    if rs == "Default::default()" || rs == "Self::default()" {
                        let t = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                        let t = if t == "Self" { self.self_ty.clone().unwrap_or(t) } else { t };
                        if let Some(fs) = self.structs.get(&t) {
                            let mut s2 = s.clone();
                            s2.rest = None;
                            s2.dot2_token = None;
                            for (n, ty) in fs {
                                if !s2.fields.iter().any(|f| matches!(&f.member, Member::Named(i) if i == n)) {
                                    let id = format_ident!("{}", n);
                                    match self.default_of(ty) {
                                        Some(v) => s2.fields.push(parse_quote!(#id: #v)),
                                        None => self.notes.push(format!("no default for {n}")),
                                    }
                                }
                            }
                            Some(Expr::Struct(s2))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if eq || ne {
                    // E == Some(X)
                    if let Expr::Call(c) = &*b.right {
                        if tight(&c.func) == "Some" {
                            self.n += 1;
                            let v = format_ident!("vx_o{}", self.n);
                            let x = &c.args[0];
                            let l = &b.left;
                            let q: Expr = parse_quote!((match #l { Some(#v) => vx_eq(#v, #x), None => false }));
                            return *e = if eq { q } else { parse_quote!(!#q) };
                        }
                    }
                    // S == "literal"
                    let lit = |x: &Expr| str_lit(x).or_else(|| match x {
                        Expr::Path(p) => match p.path.segments.last().and_then(|i| self.consts.get(&i.ident.to_string())) {
                            Some(CVal::Str(s)) => Some(s.clone()),
                            _ => None,
                        },
                        _ => None,
                    });
                    let sides = match (lit(&b.left), lit(&b.right)) {
                        (None, Some(t)) => Some(((*b.left).clone(), t)),
                        (Some(t), None) => Some(((*b.right).clone(), t)),
                        _ => None,
                    };
                    if let Some((x, t)) = sides {
                        let v: Vec<LitInt> = t.bytes().map(|b| LitInt::new(&format!("{b}u8"), Span::call_site())).collect();
                        let q: Expr = parse_quote!(vx_eq((#x).vx_bytes(), [#(#v),*]));
                        return *e = if eq { q } else { parse_quote!(!#q) };
                    }
                    let bytes = |x: &Expr| is_bytesy(x, self.consts);
                    if bytes(&b.left) || bytes(&b.right) {
                        let (l, r) = (&b.left, &b.right);
                        let q: Expr = parse_quote!(vx_eq(#l, #r));
                        Some(if eq { q } else { parse_quote!(!#q) })
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let v: Vec<LitInt> = s.value().iter().map(|b| LitInt::new(&format!("{b}u8"), Span::call_site())).collect();
                Some(parse_quote!(&[#(#v),*]))
            }
            Expr::Path(p) => {
                // std paths are rewritten by the printer
                let _ = p;
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// Names that denote byte strings compared with == (the real code compares slices, arrays and vectors).
fn is_bytesy(e: &Expr, consts: &BTreeMap<String, CVal>) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| {
            let n = i.to_string();
            matches!(consts.get(&n), Some(CVal::Bytes(_))) || n.ends_with("pubkey") || n == "cert_der" || n == "stored_digest"
        }),
        Expr::Unary(u) => is_bytesy(&u.expr, consts),
        Expr::Reference(u) => is_bytesy(&u.expr, consts),
        Expr::Paren(u) => is_bytesy(&u.expr, consts),
        Expr::MethodCall(m) => m.method == "as_slice",
        _ => false,
    }
}

fn marked_opt(r: &Expr) -> bool {
    // a combinator already turned into `(match .. { Some(..) => Some(..), None => None })`
    tight(r).ends_with("None=>None,})") || tight(r).ends_with("None=>None})")
}

pub fn size_of(t: &str) -> Option<usize> {
    let t = t.trim_end_matches('(').trim_end_matches('>');
    Some(match t {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}

fn is_print(m: &Macro) -> bool {
    matches!(
        m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default().as_str(),
        "println" | "eprintln" | "print" | "eprint"
    )
}

/// Number the loops (pre-order); each body starts with `vxm_loop!(k; i, s, acc[, g])`.
pub fn mark_loops(b: &mut Block) -> usize {
    struct M(usize);
    fn assigned(b: &Block) -> Vec<String> {
        struct A(Vec<String>, Vec<String>);
        impl<'ast> visit::Visit<'ast> for A {
            fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
                if let Expr::Path(p) = &*a.left {
                    if let Some(i) = p.path.get_ident() {
                        self.0.push(i.to_string());
                    }
                }
                visit::visit_expr_assign(self, a);
            }
            fn visit_expr_binary(&mut self, a: &'ast ExprBinary) {
                if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) {
                    if let Expr::Path(p) = &*a.left {
                        if let Some(i) = p.path.get_ident() {
                            self.0.push(i.to_string());
                        }
                    }
                }
                visit::visit_expr_binary(self, a);
            }
            fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
                if matches!(m.method.to_string().as_str(), "push" | "append") {
                    self.0.push(tight(&m.receiver));
                }
                visit::visit_expr_method_call(self, m);
            }
            fn visit_local(&mut self, l: &'ast Local) {
                if let Pat::Ident(p) = &l.pat {
                    self.1.push(p.ident.to_string());
                }
                visit::visit_local(self, l);
            }
        }
        let mut a = A(vec![], vec![]);
        visit::Visit::visit_block(&mut a, b);
        let mut r: Vec<String> = a.0.into_iter().filter(|x| !a.1.contains(x) && !x.starts_with("vx_i") && !x.starts_with("vx_s") && !x.starts_with("vx_go")).collect();
        r.sort();
        r.dedup();
        r
    }
    impl M {
        fn body(&mut self, body: &mut Block, cond: Option<&Expr>) {
            let k = self.0;
            self.0 += 1;
            let mut names = vec!["vx_none".to_string(); 4];
            let mut had = false;
            if let Some(Stmt::Expr(Expr::Macro(m), _)) = body.stmts.first() {
                if m.mac.path.is_ident("vxm_loop") {
                    had = true;
                    for (i, s) in m.mac.tokens.to_string().split(',').enumerate() {
                        names[i] = s.trim().to_string();
                    }
                }
            }
            if let Some(Stmt::Macro(m)) = body.stmts.first() {
                if m.mac.path.is_ident("vxm_loop") {
                    had = true;
                    for (i, s) in m.mac.tokens.to_string().split(',').enumerate() {
                        names[i] = s.trim().to_string();
                    }
                }
            }
            if had {
                body.stmts.remove(0);
            }
            // `while READER.get_pos() < LIMIT`: $i is the reader, $s the limit as a spec expression
            if let (true, Some(Expr::Binary(c))) = (!had, cond) {
                let (mut l, mut r) = ((*c.left).clone(), (*c.right).clone());
                if matches!(c.op, BinOp::Gt(_)) {
                    std::mem::swap(&mut l, &mut r);
                }
                if let Expr::MethodCall(m) = &l {
                    if m.method == "get_pos" {
                        names[0] = tight(&m.receiver);
                    }
                }
                names[1] = match &r {
                    Expr::MethodCall(m) if m.method == "len" && tight(&m.receiver) == names[0] => format!("{}.data@.len()", tight(&m.receiver)),
                    o => tight(o),
                };
            }
            if names[2] == "vx_none" {
                let a = assigned(body);
                if a.len() == 1 {
                    names[2] = a[0].clone();
                }
            }
            let t = format!("{}; {}", k, names.join("; "));
            body.stmts.insert(0, parse_quote!(vxm_loop!(#t);));
        }
    }
    impl VisitMut for M {
        fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
            let c = (*w.cond).clone();
            self.body(&mut w.body, Some(&c));
            visit_mut::visit_expr_while_mut(self, w);
        }
        fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
            self.body(&mut w.body, None);
            visit_mut::visit_expr_loop_mut(self, w);
        }
        fn visit_expr_for_loop_mut(&mut self, w: &mut ExprForLoop) {
            self.body(&mut w.body, None);
            visit_mut::visit_expr_for_loop_mut(self, w);
        }
    }
    let mut m = M(0);
    m.visit_block_mut(b);
    m.0
}

pub fn rename_self(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.is_ident("self") {
                *p = parse_quote!(vx_self);
            }
        }
    }
    V.visit_block_mut(b);
    b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
}

/// `x.take(n)` consumes x; the shim's take borrows it mutably, so x is bound mutably.
fn take_mut(b: &mut Block) {
    struct C(Vec<String>);
    impl<'ast> visit::Visit<'ast> for C {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if m.method == "take" && m.args.len() == 1 {
                if let Expr::Path(p) = &*m.receiver {
                    self.0.extend(p.path.get_ident().map(|i| i.to_string()));
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if let Pat::Ident(i) = &mut l.pat {
                if i.by_ref.is_none() && i.mutability.is_none() && self.0.contains(&i.ident.to_string()) {
                    i.mutability = Some(Default::default());
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
    }
    let mut c = C(vec![]);
    visit::Visit::visit_block(&mut c, b);
    V(c.0).visit_block_mut(b);
}

/// Text of an expression without local names, digits of generated names and literals.
fn blur(e: &Expr) -> String {
    quote!(#e)
        .to_string()
        .split_whitespace()
        .map(|w| {
            if w.starts_with("vx_") {
                w.trim_end_matches(|c: char| c.is_ascii_digit()).to_string()
            } else if w.starts_with(|c: char| c.is_ascii_digit()) {
                "0".to_string()
            } else if w.starts_with(|c: char| c.is_ascii_lowercase()) {
                "x".to_string()
            } else {
                w.to_string()
            }
        })
        .collect::<Vec<_>>()
        .concat()
        .replace('"', "'")
        .replace('\\', "")
}

/// Fingerprint: nesting of the loops and what they run over, but no names of locals and no literals.
pub fn shape(b: &Block) -> String {
    struct S(String);
    impl<'ast> visit::Visit<'ast> for S {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                let n = p.ident.to_string();
                if ["vx_i", "vx_s", "vx_lo"].iter().any(|x| n.strip_prefix(x).is_some_and(|r| r.bytes().all(|c| c.is_ascii_digit()))) {
                    self.0.push_str(&format!("{{{}}}", blur(&i.expr)));
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
            self.0.push_str(&format!("W[{}](", blur(&w.cond)));
            visit::visit_expr_while(self, w);
            self.0.push(')');
        }
        fn visit_expr_loop(&mut self, w: &'ast ExprLoop) {
            self.0.push_str("L(");
            visit::visit_expr_loop(self, w);
            self.0.push(')');
        }
    }
    let mut s = S(String::new());
    visit::Visit::visit_block(&mut s, b);
    s.0
}

fn hint_stmt(n: usize) -> Stmt {
    let t = format!("{n}");
    parse_quote!(vxm_hint!(#t);)
}

/// Insert `vxm_hint!("n")` placeholders at the anchors.
pub fn place_hints(b: &mut Block, cfg: &FnC, lost: &mut Vec<String>) {
    // the tail is bound only when something hangs on it
    for (n, (anchor, _)) in cfg.hints.iter().enumerate() {
        let w: Vec<&str> = anchor.split_whitespace().collect();
        let ok = match w.as_slice() {
            ["start"] => {
                b.stmts.insert(0, hint_stmt(n));
                true
            }
            ["tail"] => place_tail(b, n),
            ["loopstart", k] => in_loop(b, k, n, 0),
            ["loopend", k] => in_loop(b, k, n, 1),
            ["beforeloop", k] => around_loop(b, k, n, false),
            ["afterloop", k] => around_loop(b, k, n, true),
            ["let", name] => after_let(b, name, 0, n),
            ["let", name, idx] => after_let(b, name, idx.parse().unwrap_or(0), n),
            _ => false,
        };
        if !ok {
            lost.push(format!("hint {anchor}"));
        }
    }
}

fn place_tail(b: &mut Block, n: usize) -> bool {
    let m = b.stmts.len();
    // already bound?
    if m >= 2 {
        if let Some(Stmt::Expr(Expr::Path(p), None)) = b.stmts.last() {
            if p.path.is_ident("vx_ret") {
                b.stmts.insert(m - 1, hint_stmt(n));
                return true;
            }
        }
    }
    match b.stmts.pop() {
        Some(Stmt::Expr(e, None)) => {
            b.stmts.push(parse_quote!(let vx_ret = #e;));
            b.stmts.push(hint_stmt(n));
            b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            true
        }
        Some(o) => {
            b.stmts.push(o);
            b.stmts.push(hint_stmt(n));
            true
        }
        None => false,
    }
}

fn loop_no(b: &Block) -> Option<String> {
    let m = match b.stmts.first()? {
        Stmt::Macro(m) => &m.mac,
        Stmt::Expr(Expr::Macro(m), _) => &m.mac,
        _ => return None,
    };
    if !m.path.is_ident("vxm_loop") {
        return None;
    }
    let l: LitStr = m.parse_body().ok()?;
    l.value().split(';').next().map(|s| s.trim().to_string())
}

fn in_loop(b: &mut Block, k: &str, n: usize, at: usize) -> bool {
    struct V<'a>(&'a str, usize, usize, bool);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if loop_no(b).as_deref() == Some(self.0) {
                if self.2 == 0 {
                    b.stmts.insert(1, hint_stmt(self.1));
                } else {
                    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    b.stmts.push(hint_stmt(self.1));
                }
                self.3 = true;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut v = V(k, n, at, false);
    v.visit_block_mut(b);
    v.3
}

fn around_loop(b: &mut Block, k: &str, n: usize, after: bool) -> bool {
    struct V<'a>(&'a str, usize, bool, bool);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let pos = b.stmts.iter().position(|s| match s {
                Stmt::Expr(Expr::While(w), _) => loop_no(&w.body).as_deref() == Some(self.0),
                Stmt::Expr(Expr::Loop(w), _) => loop_no(&w.body).as_deref() == Some(self.0),
                _ => false,
            });
            if let Some(p) = pos {
                if !self.3 {
                    b.stmts.insert(if self.2 { p + 1 } else { p }, hint_stmt(self.1));
                    self.3 = true;
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut v = V(k, n, after, false);
    v.visit_block_mut(b);
    v.3
}

fn after_let(b: &mut Block, name: &str, idx: usize, n: usize) -> bool {
    struct V<'a>(&'a str, usize, usize, bool);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut at = None;
            for (i, s) in b.stmts.iter().enumerate() {
                if let Stmt::Local(l) = s {
                    let p = match &l.pat {
                        Pat::Type(t) => &t.pat,
                        o => o,
                    };
                    let hit = match p {
                        Pat::Ident(pi) => pi.ident == self.0,
                        _ => false,
                    };
                    if hit {
                        if self.1 == 0 {
                            at = Some(i);
                            break;
                        }
                        self.1 -= 1;
                    }
                }
            }
            if let (Some(i), false) = (at, self.3) {
                b.stmts.insert(i + 1, hint_stmt(self.2));
                self.3 = true;
                return;
            }
            if !self.3 {
                visit_mut::visit_block_mut(self, b);
            }
        }
    }
    let mut v = V(name, idx, n, false);
    v.visit_block_mut(b);
    v.3
}

/// `<T as Trait>::f` -> `T::vx_trait_f` for the traits whose impls are emitted as inherent methods
pub fn trait_calls(b: &mut Block, traits: &std::collections::BTreeSet<String>) {
    struct V<'a>(&'a std::collections::BTreeSet<String>);
    impl VisitMut for V<'_> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if let Some(q) = &p.qself {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 && q.position == segs.len() - 1 && self.0.contains(&segs[segs.len() - 2]) {
                    let id = format_ident!("vx_{}_{}", segs[segs.len() - 2].to_lowercase(), segs[segs.len() - 1]);
                    let ty = &q.ty;
                    *p = parse_quote!(#ty::#id);
                }
            }
        }
    }
    V(traits).visit_block_mut(b);
}

/// `Self::Name` of an associated type -> the type
pub fn assoc_types(sig: &mut Signature, b: &mut Block, tys: &[(String, Type)]) {
    struct V<'a>(&'a [(String, Type)]);
    impl VisitMut for V<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    if let Some((_, x)) = self.0.iter().find(|(n, _)| p.path.segments[1].ident == n) {
                        *t = x.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    V(tys).visit_signature_mut(sig);
    V(tys).visit_block_mut(b);
}

/// the tuple field that a sort's key closure (or its comparison, in ascending order) looks at
fn sort_field(f: &Expr, cmp: bool) -> Option<u32> {
    let Expr::Closure(c) = f else { return None };
    fn strip(e: &Expr) -> &Expr {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip(&u.expr),
            Expr::Reference(r) => strip(&r.expr),
            Expr::Paren(p) => strip(&p.expr),
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => strip(e),
                _ => e,
            },
            Expr::Group(g) => strip(&g.expr),
            e => e,
        }
    }
    fn field(p: &Pat, e: &Expr) -> Option<u32> {
        match (p, strip(e)) {
            (Pat::Reference(r), e) => field(&r.pat, e),
            (Pat::Ident(i), Expr::Field(x)) => match (&x.member, strip(&x.base)) {
                (Member::Unnamed(n), Expr::Path(b)) if b.path.is_ident(&i.ident) => Some(n.index),
                _ => None,
            },
            (Pat::Tuple(t), Expr::Path(b)) => t.elems.iter().position(|q| matches!(q, Pat::Ident(i) if b.path.is_ident(&i.ident))).map(|n| n as u32),
            _ => None,
        }
    }
    if !cmp {
        return field(c.inputs.first()?, &c.body);
    }
    let Expr::MethodCall(m) = strip(&c.body) else { return None };
    if m.method != "cmp" || c.inputs.len() != 2 {
        return None;
    }
    let a = field(&c.inputs[0], &m.receiver)?;
    let b = field(&c.inputs[1], m.args.first()?)?;
    (a == b).then_some(a)
}
