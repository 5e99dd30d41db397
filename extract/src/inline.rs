//! Inlining of functions that carry no contract (helpers extracted by an edit) into the functions under contract.
use crate::config::FileCfg;
use crate::tight;
use quote::format_ident;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub file: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Default)]
pub struct Helpers {
    pub fns: BTreeMap<String, Vec<Helper>>, // by last name
}

pub fn collect(h: &mut Helpers, f: &FileCfg, ast: &File) {
    for it in &ast.items {
        match it {
            Item::Fn(x) => {
                let k = x.sig.ident.to_string();
                if !f.fns.contains_key(&k) {
                    h.fns.entry(k).or_default().push(Helper { file: f.path.clone(), self_ty: None, sig: x.sig.clone(), block: (*x.block).clone() });
                }
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let ty = tight(&im.self_ty);
                for i in &im.items {
                    if let ImplItem::Fn(m) = i {
                        let k = format!("{}::{}", ty, m.sig.ident);
                        if !f.fns.contains_key(&k) {
                            h.fns.entry(m.sig.ident.to_string()).or_default().push(Helper {
                                file: f.path.clone(),
                                self_ty: Some(ty.clone()),
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

struct Ret {
    ret: bool,
    try_: bool,
    ret_not_err: bool,
}
impl<'a> Visit<'a> for Ret {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        let ok = r.expr.as_ref().is_some_and(|e| tight(e).starts_with("Err("));
        if !ok {
            self.ret_not_err = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _c: &'a ExprClosure) {}
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Value,
    Try,
    Tail,
}

struct Inl<'a> {
    h: &'a Helpers,
    file: String,
    self_ty: Option<String>,
    done: Vec<String>,
    depth: usize,
}

impl Inl<'_> {
    fn lookup(&self, name: &str, ty: Option<&str>, method: bool) -> Option<Helper> {
        let v = self.h.fns.get(name)?;
        let cands: Vec<&Helper> = v
            .iter()
            .filter(|h| match (ty, &h.self_ty) {
                (Some("*"), Some(_)) => true,
                (Some(t), Some(s)) => s.split('<').next() == t.split('<').next(),
                (None, None) => true,
                _ => false,
            })
            .filter(|h| h.sig.inputs.first().is_some_and(|a| matches!(a, FnArg::Receiver(_))) == method)
            .collect();
        if let Some(c) = cands.iter().find(|h| h.file == self.file) {
            return Some((*c).clone());
        }
        if cands.len() == 1 {
            return Some(cands[0].clone());
        }
        None
    }
    fn build(&mut self, h: Helper, recv: Option<Expr>, args: Vec<Expr>, pos: Pos) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let mut r = Ret { ret: false, try_: false, ret_not_err: false };
        r.visit_block(&h.block);
        let ok = match pos {
            Pos::Tail => true,
            Pos::Try => !r.ret_not_err,
            Pos::Value => !r.ret && !r.try_,
        };
        if !ok {
            return None;
        }
        let mut block = h.block.clone();
        let generic = !h.sig.generics.params.is_empty();
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut args = args.into_iter();
        let mut self_expr: Option<Expr> = None;
        for (n, p) in h.sig.inputs.iter().enumerate() {
            match p {
                FnArg::Receiver(rc) => {
                    let rv = recv.clone().or_else(|| args.next())?;
                    if tight(&rv) == "self" {
                        continue;
                    }
                    let t = format_ident!("vx_self{}", self.depth);
                    if rc.reference.is_some() {
                        if rc.mutability.is_some() {
                            pre.push(parse_quote!(let #t = &mut #rv;));
                        } else {
                            pre.push(parse_quote!(let #t = &#rv;));
                        }
                    } else {
                        pre.push(parse_quote!(let #t = #rv;));
                    }
                    self_expr = Some(parse_quote!(#t));
                }
                FnArg::Typed(t) => {
                    let a = args.next()?;
                    let tmp = format_ident!("vx_p{}_{}", self.depth, n);
                    let (pat, ty) = (&t.pat, &t.ty);
                    if generic || tight(ty).contains("impl") {
                        pre.push(parse_quote!(let #tmp = #a;));
                    } else {
                        pre.push(parse_quote!(let #tmp: #ty = #a;));
                    }
                    post.push(parse_quote!(let #pat = #tmp;));
                }
            }
        }
        struct Sub {
            se: Option<Expr>,
            ty: Option<String>,
        }
        impl VisitMut for Sub {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let (Expr::Path(p), Some(s)) = (&*e, &self.se) {
                    if p.path.is_ident("self") {
                        *e = s.clone();
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            fn visit_path_mut(&mut self, p: &mut Path) {
                if let (Some(t), Some(s)) = (&self.ty, p.segments.first_mut()) {
                    if s.ident == "Self" {
                        s.ident = format_ident!("{}", t.split('<').next().unwrap());
                    }
                }
                visit_mut::visit_path_mut(self, p);
            }
        }
        let same = h.self_ty == self.self_ty;
        Sub { se: self_expr, ty: if same { None } else { h.self_ty.clone() } }.visit_block_mut(&mut block);
        self.done.push(h.sig.ident.to_string());
        let old = (self.file.clone(), self.self_ty.clone());
        self.file = h.file.clone();
        if h.self_ty.is_some() {
            self.self_ty = h.self_ty.clone();
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.file = old.0;
        self.self_ty = old.1;
        let stmts = block.stmts;
        Some(parse_quote!({ #(#pre)* #(#post)* #(#stmts)* }))
    }
    fn try_call(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let h = if segs.len() >= 2 && segs[segs.len() - 2].chars().next()?.is_uppercase() {
                    let t = segs[segs.len() - 2].clone();
                    let t = if t == "Self" { self.self_ty.clone()? } else { t };
                    self.lookup(&name, Some(&t), false).or_else(|| self.lookup(&name, Some(&t), true))?
                } else {
                    self.lookup(&name, None, false)?
                };
                self.build(h, None, c.args.iter().cloned().collect(), pos)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let h = if tight(&recv) == "self" {
                    let t = self.self_ty.clone()?;
                    self.lookup(&name, Some(&t), true)?
                } else {
                    if matches!(name.as_str(), "len" | "to_vec" | "clone" | "is_empty" | "get" | "roots" | "new" | "iter" | "push" | "sign" | "verify" | "hash" | "parse" | "to_u8" | "size" | "id") {
                        return None;
                    }
                    self.lookup(&name, Some("*"), true)?
                };
                self.build(h, Some(recv), m.args.iter().cloned().collect(), pos)
            }
            _ => None,
        }
    }
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new = match &*e {
            Expr::Try(t) => self.try_call(&t.expr, Pos::Try).map(|x| -> Expr { parse_quote!((#x)?) }),
            Expr::Return(r) => r.expr.as_ref().and_then(|x| self.try_call(x, Pos::Tail)).map(|x| -> Expr { parse_quote!(return #x) }),
            o => self.try_call(o, Pos::Value),
        };
        if let Some(n) = new {
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn inline_block(b: &mut Block, h: &Helpers, f: &FileCfg, _key: &str, self_ty: Option<&str>, inlined: &mut Vec<String>) {
    let mut i = Inl { h, file: f.path.clone(), self_ty: self_ty.map(String::from), done: vec![], depth: 0 };
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        if let Some(n) = i.try_call(e, Pos::Tail) {
            *e = n;
        }
    }
    i.visit_block_mut(b);
    inlined.extend(i.done);
}
