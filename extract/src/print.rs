//! Printing of the extracted items as Verus text.
use crate::config::{FileCfg, FnC};
use crate::desugar::size_of;
use crate::{tight, Ctx};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    Int(u128),
    Bytes(Vec<u8>),
    Str(String),
    Strs(Vec<String>),
}

pub fn const_eval(e: &Expr, c: &BTreeMap<String, CVal>, ty: Option<&Type>) -> Option<CVal> {
    use CVal::*;
    Some(match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => Int(i.base10_parse::<u128>().ok()?),
            Lit::Byte(b) => Int(b.value() as u128),
            Lit::ByteStr(s) => Bytes(s.value()),
            Lit::Str(s) => Str(s.value()),
            _ => return None,
        },
        Expr::Paren(p) => const_eval(&p.expr, c, ty)?,
        Expr::Group(p) => const_eval(&p.expr, c, ty)?,
        Expr::Reference(p) => const_eval(&p.expr, c, None)?,
        Expr::Cast(p) => {
            let v = const_eval(&p.expr, c, None)?;
            match v {
                Int(i) => {
                    let n = size_of(&tight(&p.ty))?;
                    Int(if n >= 16 { i } else { i & ((1u128 << (8 * n)) - 1) })
                }
                o => o,
            }
        }
        Expr::Path(p) => c.get(&p.path.segments.last()?.ident.to_string())?.clone(),
        Expr::Binary(b) => {
            let (Int(l), Int(r)) = (const_eval(&b.left, c, None)?, const_eval(&b.right, c, None)?) else { return None };
            Int(match b.op {
                BinOp::Add(_) => l + r,
                BinOp::Sub(_) => l.checked_sub(r)?,
                BinOp::Mul(_) => l * r,
                BinOp::Div(_) => l.checked_div(r)?,
                BinOp::Shl(_) => l.checked_shl(r as u32)?,
                BinOp::Shr(_) => l.checked_shr(r as u32)?,
                BinOp::BitOr(_) => l | r,
                BinOp::BitAnd(_) => l & r,
                _ => return None,
            })
        }
        Expr::Call(f) => {
            let t = tight(&f.func);
            let t = t.strip_prefix("std::").unwrap_or(&t);
            let t = t.strip_prefix("mem::").unwrap_or(t);
            Int(size_of(t.strip_prefix("size_of::<")?)? as u128)
        }
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "len" => match const_eval(&m.receiver, c, None)? {
                Bytes(b) => Int(b.len() as u128),
                Str(b) => Int(b.len() as u128),
                Strs(b) => Int(b.len() as u128),
                _ => return None,
            },
            "to_le_bytes" => {
                let n = match &*m.receiver {
                    Expr::Paren(p) => match &*p.expr {
                        Expr::Cast(k) => size_of(&tight(&k.ty))?,
                        _ => return None,
                    },
                    Expr::Path(_) => match ty {
                        Some(Type::Array(a)) => match const_eval(&a.len, c, None)? {
                            Int(n) => n as usize,
                            _ => return None,
                        },
                        _ => return None,
                    },
                    _ => return None,
                };
                match const_eval(&m.receiver, c, None)? {
                    Int(i) => Bytes(i.to_le_bytes()[..n].to_vec()),
                    _ => return None,
                }
            }
            _ => return None,
        },
        Expr::Array(a) => {
            let v: Option<Vec<CVal>> = a.elems.iter().map(|x| const_eval(x, c, None)).collect();
            let v = v?;
            if v.iter().all(|x| matches!(x, Str(_))) && !v.is_empty() {
                Strs(v.into_iter().map(|x| if let Str(s) = x { s } else { unreachable!() }).collect())
            } else {
                let b: Option<Vec<u8>> = v.into_iter().map(|x| if let Int(i) = x { u8::try_from(i).ok() } else { None }).collect();
                Bytes(b?)
            }
        }
        _ => return None,
    })
}

pub fn const_item(name: &str, ty: &Type, v: &CVal) -> String {
    match v {
        CVal::Int(i) => format!("pub const {name}: {} = {i};", ty_str(ty)),
        CVal::Bytes(b) => {
            let list = b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
            match ty {
                Type::Reference(_) => format!("pub const {name}: &'static [u8; {}] = &[{list}];", b.len()),
                _ => format!("pub const {name}: [u8; {}] = [{list}];", b.len()),
            }
        }
        CVal::Str(s) => {
            let list = s.bytes().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
            format!("pub open spec fn {name}_spec() -> Seq<u8> {{ seq![{list}] }}\n#[verifier::external_body] pub fn {name}_fn() -> (r: &'static VStr) ensures r@ == {name}_spec() {{ unimplemented!() }}")
        }
        CVal::Strs(v) => {
            let one = |s: &String| format!("seq![{}]", s.bytes().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "));
            let list = v.iter().map(one).collect::<Vec<_>>().join(", ");
            format!("pub open spec fn {name}_spec() -> Seq<Seq<u8>> {{ seq![{list}] }}\n#[verifier::external_body] pub fn {name}_fn() -> (r: &'static [VStr]) ensures r@.map_values(|s: VStr| s@) == {name}_spec() {{ unimplemented!() }}")
        }
    }
}

const MAPS: &[(&str, &str)] = &[
    ("std::io::", "crate::shim::io::"),
    ("std::fs::", "crate::shim::fs::"),
    ("std::path::", "crate::shim::path::"),
    ("std::time::", "crate::shim::time::"),
    ("std::time::", "crate::shim::time::"),
    ("std::collections::", "crate::shim::coll::"),
    ("std::str::", "crate::shim::vstr::"),
    ("goblin::", "crate::shim::goblin::"),
    ("scroll::", "crate::shim::scroll::"),
    ("webpki::", "crate::shim::webpki::"),
    ("rustls_pki_types::", "crate::shim::pki::"),
    ("x509_cert::", "crate::shim::x509_cert::"),
    ("p256::", "crate::shim::p256::"),
    ("p384::", "crate::shim::p384::"),
    ("pem::", "crate::shim::pem::"),
    ("p12::", "crate::shim::p12::"),
    ("crate::verifier::", "crate::vrf::"),
];

fn word_replace(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    let mut prev: Option<char> = None;
    while let Some(p) = rest.find(from) {
        let before = if p == 0 { prev } else { rest[..p].chars().last() };
        o.push_str(&rest[..p]);
        let after = rest[p + from.len()..].chars().next();
        let bad_l = before.is_some_and(|c| c.is_alphanumeric() || c == '_' || (from.ends_with("::") && c == ':'));
        let bad_r = !from.ends_with("::") && after.is_some_and(|c| c.is_alphanumeric() || c == '_');
        o.push_str(if bad_l || bad_r { from } else { to });
        prev = from.chars().last();
        rest = &rest[p + from.len()..];
    }
    o.push_str(rest);
    o
}

pub fn map_paths(s: &str) -> String {
    let mut s = s.to_string();
    for (a, b) in MAPS {
        s = word_replace(&s, a, b);
    }
    s
}

pub fn rewrite_use(u: &ItemUse) -> String {
    if !crate::cfg_keep(&u.attrs) {
        return String::new();
    }
    let t = toks_str(u.tree.to_token_stream());
    let drop = ["serde", "std::mem", "std::fmt", "sha2", "sha1", "md5", "pkcs8", "sec1", "clap"];
    if drop.iter().any(|d| t.trim().starts_with(d)) {
        return String::new();
    }
    let mut t = map_paths(&t);
    if t.trim().starts_with("std::{") || t.trim().starts_with("std ::") {
        t = t.replacen("std::", "crate::shim::", 1);
    }
    format!("#[allow(unused_imports)] use {};\n", t.replace('\n', " "))
}

pub fn ty_str(t: &Type) -> String {
    let s = toks_str(t.to_token_stream()).replace('\n', " ").replace("< '_ >", "").trim().to_string();
    map_paths(&word_replace(&s, "str", "VStr"))
}

pub fn generics_str(g: &Generics) -> String {
    if g.params.is_empty() {
        return String::new();
    }
    let mut s = toks_str(g.params.to_token_stream());
    s = map_paths(&s.replace('\n', " "));
    format!("<{}>", s.trim())
}

pub fn print_struct(s: &ItemStruct, f: &FileCfg) -> String {
    let n = s.ident.to_string();
    let mut o = String::new();
    if f.structural.contains(&n) {
        o.push_str("#[derive(Structural, PartialEq, Eq)]\n");
    }
    let _ = write!(o, "pub struct {n}{}", generics_str(&s.generics));
    match &s.fields {
        Fields::Named(nf) => {
            o.push_str(" {\n");
            for x in &nf.named {
                let _ = writeln!(o, "    pub {}: {},", x.ident.as_ref().unwrap(), ty_str(&x.ty));
            }
            o.push_str("}\n");
        }
        Fields::Unnamed(u) => {
            let _ = writeln!(o, "({});", u.unnamed.iter().map(|x| format!("pub {}", ty_str(&x.ty))).collect::<Vec<_>>().join(", "));
        }
        Fields::Unit => o.push_str(";\n"),
    }
    o
}

pub fn print_enum(e: &ItemEnum, f: &FileCfg) -> String {
    let n = e.ident.to_string();
    let mut o = String::new();
    if f.structural.contains(&n) {
        o.push_str("#[derive(Structural, PartialEq, Eq)]\n");
    }
    o.push_str("#[allow(non_camel_case_types)]\n");
    let _ = writeln!(o, "pub enum {n}{} {{", generics_str(&e.generics));
    for v in &e.variants {
        match &v.fields {
            Fields::Unit => {
                let _ = writeln!(o, "    {},", v.ident);
            }
            Fields::Unnamed(u) => {
                let _ = writeln!(o, "    {}({}),", v.ident, u.unnamed.iter().map(|x| ty_str(&x.ty)).collect::<Vec<_>>().join(", "));
            }
            Fields::Named(u) => {
                let _ = writeln!(o, "    {} {{ {} }},", v.ident, u.named.iter().map(|x| format!("{}: {}", x.ident.as_ref().unwrap(), ty_str(&x.ty))).collect::<Vec<_>>().join(", "));
            }
        }
    }
    o.push_str("}\n");
    o
}

pub struct Raw<'a> {
    cfg: Option<&'a FnC>,
    names: BTreeMap<usize, String>,
}

fn loop_names(ts: &TokenStream, m: &mut BTreeMap<usize, String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            loop_names(&g.stream(), m);
        }
        if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (t, v.get(i + 2)) {
            if id == "vxm_loop" {
                let t = str_arg(g);
                if let Some((k, rest)) = t.split_once(';') {
                    m.insert(k.trim().parse().unwrap_or(0), rest.to_string());
                }
            }
        }
    }
}

fn str_arg(g: &proc_macro2::Group) -> String {
    parse2::<LitStr>(g.stream()).map(|l| l.value()).unwrap_or_default()
}

fn fill(t: &str, names: &[&str]) -> String {
    let get = |n: usize| names.get(n).map(|s| s.trim()).unwrap_or("vx_none");
    t.replace("$i", get(0)).replace("$acc", get(2)).replace("$s", get(1)).replace("$g", get(3))
}

fn emit(ts: TokenStream, o: &mut String, raw: &Raw) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        // macros of ours
        if let TokenTree::Ident(id) = &v[i] {
            let s = id.to_string();
            if s.starts_with("vxm_") && i + 2 < v.len() {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let mut skip = 3;
                    if let Some(TokenTree::Punct(p)) = v.get(i + 3) {
                        if p.as_char() == ';' {
                            skip = 4;
                        }
                    }
                    match s.as_str() {
                        "vxm_hint" => {
                            if let Some(c) = raw.cfg {
                                let n: usize = str_arg(g).parse().unwrap_or(usize::MAX);
                                if let Some((a, t)) = c.hints.get(n) {
                                    let k: usize = a.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                                    let t = match raw.names.get(&k) {
                                        Some(nm) => fill(t, &nm.split(';').collect::<Vec<_>>()),
                                        None => t.clone(),
                                    };
                                    let _ = write!(o, "\n/*HINT {a}*/\n{t}\n");
                                }
                            }
                        }
                        "vxm_ghost" => {
                            let t = g.stream().to_string();
                            let mut w = t.split(',');
                            let (a, b) = (w.next().unwrap_or("").trim().to_string(), w.next().unwrap_or("").trim().to_string());
                            let _ = write!(o, "\nlet ghost {a} = {b}@;\n");
                        }
                        _ => {}
                    }
                    i += skip;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let mut inner = g.stream();
                if a == "{" {
                    let w: Vec<TokenTree> = inner.clone().into_iter().collect();
                    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(gg))) = (w.first(), w.get(2)) {
                        if id == "vxm_loop" {
                            let t = str_arg(gg);
                            let parts: Vec<&str> = t.split(';').map(|s| s.trim()).collect();
                            let k: usize = parts[0].parse().unwrap_or(0);
                            if let Some(c) = raw.cfg {
                                if let Some(x) = c.loops.get(&k) {
                                    let _ = write!(o, "\n/*LOOP {k}*/\n{}", fill(x, &parts[1..]));
                                }
                            }
                            inner = w[4.min(w.len())..].iter().cloned().collect();
                        }
                    }
                }
                if a == "(" || a == "[" {
                    while o.ends_with(' ') {
                        o.pop();
                    }
                    // keep keywords apart
                    let kw = o.rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("");
                    if matches!(kw, "return" | "in" | "if" | "while" | "match" | "let" | "mut" | "else" | "as" | "for") || o.ends_with('=') || o.ends_with(',') {
                        o.push(' ');
                    }
                }
                o.push_str(a);
                if a == "{" {
                    o.push('\n');
                }
                emit(inner, o, raw);
                while o.ends_with(' ') {
                    o.pop();
                }
                o.push_str(b);
                if a == "{" {
                    o.push('\n');
                } else {
                    o.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                let dbl = c == ':' && p.spacing() == Spacing::Joint;
                if dbl || matches!(c, ',' | ';' | '.' | '?') {
                    while o.ends_with(' ') || (matches!(c, '.' | '?') && o.ends_with('\n')) {
                        o.pop();
                    }
                }
                if dbl {
                    o.push_str("::");
                    i += 2;
                    continue;
                }
                o.push(c);
                if c == ';' {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone && !matches!(c, '.' | '&' | '!' | '*' | '-' | '#') {
                    o.push(' ');
                } else if p.spacing() == Spacing::Alone && matches!(c, '-' | '*' | '&') {
                    o.push(' ');
                }
            }
            TokenTree::Ident(id) => {
                let _ = write!(o, "{id} ");
            }
            TokenTree::Literal(l) => {
                let _ = write!(o, "{l} ");
            }
        }
        i += 1;
    }
}

pub fn toks_str(ts: TokenStream) -> String {
    let mut o = String::new();
    emit(ts, &mut o, &Raw { cfg: None, names: BTreeMap::new() });
    o
}

#[allow(clippy::too_many_arguments)]
pub fn print_fn(_f: &FileCfg, cfg: &FnC, key: &str, sig: &Signature, block: &Block, in_trait: bool, cx: &Ctx) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "//FN {} {}", _f.path, key);
    if cfg.mode == "external" {
        o.push_str("#[verifier::external_body]\n");
    } else if has_loop(block) {
        o.push_str("#[verifier::loop_isolation(false)]\n");
    }
    o.push_str(&cfg.attrs);
    if !in_trait {
        o.push_str("pub ");
    }
    let mut s = format!("fn {}{}(", sig.ident, generics_str(&sig.generics));
    let params: Vec<String> = sig
        .inputs
        .iter()
        .map(|p| match p {
            FnArg::Receiver(r) => toks_str(r.to_token_stream()).trim().to_string(),
            FnArg::Typed(t) => format!("{}: {}", toks_str(t.pat.to_token_stream()).trim(), ty_str(&t.ty)),
        })
        .collect();
    s.push_str(&params.join(", "));
    s.push(')');
    match &sig.output {
        ReturnType::Default => {}
        ReturnType::Type(_, t) => {
            let _ = write!(s, " -> (r: {})", ty_str(t));
        }
    }
    for (a, b) in &cfg.sigsub {
        s = s.replace(a.as_str(), b);
    }
    o.push_str(&s);
    o.push('\n');
    o.push_str(&cfg.contract);
    if cfg.mode == "external" {
        o.push_str("{ unimplemented!() }\n");
        return o;
    }
    let mut b = String::new();
    let mut names = BTreeMap::new();
    loop_names(&block.to_token_stream(), &mut names);
    emit(block.to_token_stream(), &mut b, &Raw { cfg: Some(cfg), names });
    b = map_paths(&b.replace("< '_ >", ""));
    for (n, v) in &cx.consts {
        if matches!(v, CVal::Str(_) | CVal::Strs(_)) {
            b = word_replace(&b, n, &format!("{n}_fn()"));
        }
    }
    for (x, y) in &cfg.bodysub {
        b = b.replace(x.as_str(), y);
    }
    if std::env::var("VX_VAC").is_ok() {
        b = b.replacen('{', "{ assert(false); //VACUITY\n", 1);
    }
    o.push_str(&b);
    o
}

fn has_loop(b: &Block) -> bool {
    let s = b.to_token_stream().to_string();
    s.contains("while ") || s.contains("loop ")
}
