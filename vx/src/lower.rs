//! Rewriting of function bodies into the subset of Rust that Verus accepts.  Every rewrite keeps the
//! meaning of the statement; what is not understood is left as it is and recorded in `unsupported`.
use crate::types::*;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::quote;
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Lower<'a> {
    pub w: &'a World,
    pub fi: &'a FnInfo,
    pub contracts: &'a HashSet<String>,
    pub notes: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub nloops: usize,
    pub loop_kinds: Vec<String>,
    pub locals: Vec<String>,
    pub calls: BTreeSet<String>,
    pub inlined: Vec<String>,
    env: Vec<(String, Option<Type>)>,
    fresh: usize,
    nret: usize,
    nif: usize,
    lets: HashMap<String, usize>,
    depth: usize,
    impl_ty: Option<Type>,
    cur_owner: String,
    cur_module: String,
    /// closures bound to parameters of the function being inlined
    closures: HashMap<String, ExprClosure>,
    sink_ty: Option<Type>,
    ret_hint: Option<Type>,
}

#[derive(Clone)]
enum It {
    E(Expr, Option<Type>),
    T(Vec<It>),
}
struct Pipe {
    pre: Vec<Stmt>,
    conds: Vec<Expr>,
    binds: Vec<Stmt>,
    item: It,
    k: Option<Ident>,
    n: Option<Ident>,
    zero_based: bool,
    kind: String,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}
fn t(s: &str) -> Option<Type> {
    syn::parse_str(s).ok()
}
fn is_f64(ty: &Option<Type>) -> bool {
    ty.as_ref().map(|t| matches!(last_ident(t).as_deref(), Some("f64") | Some("f32"))).unwrap_or(false)
}
fn simple_path(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = strip_paren(e) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}
fn is_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}
fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: block_of(stmts) })
}
fn tail(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}
fn semi(e: Expr) -> Stmt {
    Stmt::Expr(e, Some(Default::default()))
}

/// Constants: sizes of machine integers and deprecated `max_value`.
pub fn lower_const(e: &mut Expr) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let Some(x) = const_call(e) {
                *e = x;
            }
        }
    }
    V.visit_expr_mut(e);
}
fn const_call(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        let s = crate::show(&c.func).replace(' ', "");
        for (ty, n) in [("u8", 1usize), ("u16", 2), ("u32", 4), ("u64", 8), ("usize", 8), ("i64", 8)] {
            if s.ends_with(&format!("size_of::<{}>", ty)) {
                return Some(syn::parse_str(&format!("{}usize", n)).unwrap());
            }
            if s == format!("<{}>::max_value", ty) || s == format!("{}::max_value", ty) {
                return Some(syn::parse_str(&format!("{}::MAX", ty)).unwrap());
            }
            if s == format!("<{}>::min_value", ty) || s == format!("{}::min_value", ty) {
                return Some(syn::parse_str(&format!("{}::MIN", ty)).unwrap());
            }
        }
    }
    None
}

struct Subst<'b> {
    ren: &'b HashMap<String, Expr>,
    self_ty: Option<Type>,
}
impl<'b> Subst<'b> {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut out: Vec<TokenTree> = vec![];
        let mut after_dot = false;
        for tt in ts {
            let dot = matches!(&tt, TokenTree::Punct(p) if p.as_char() == '.');
            match tt {
                TokenTree::Ident(i) if !after_dot && self.ren.contains_key(&i.to_string()) => {
                    let e = &self.ren[&i.to_string()];
                    out.extend(quote!(#e));
                }
                TokenTree::Group(g) => {
                    let inner = self.tokens(g.stream());
                    out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner)));
                }
                x => out.push(x),
            }
            after_dot = dot;
        }
        out.into_iter().collect()
    }
}
impl<'b> VisitMut for Subst<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Some(n) = simple_path(e) {
            if matches!(e, Expr::Path(_)) {
                if let Some(x) = self.ren.get(&n) {
                    *e = x.clone();
                }
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(x) = self.ren.get(&p.ident.to_string()) {
            if let Some(n) = simple_path(x) {
                p.ident = id(&n);
            }
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(st) = &self.self_ty {
            if p.segments.len() > 1 && p.segments[0].ident == "Self" {
                if let Some(n) = last_ident(st) {
                    p.segments[0].ident = id(&n);
                }
            } else if p.segments.len() == 1 && p.segments[0].ident == "Self" {
                if let Type::Path(q) = strip_ref(st) {
                    p.segments = q.path.segments.clone();
                }
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}
struct HasRet(bool);
impl<'ast> syn::visit::Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
struct Bound(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

impl<'a> Lower<'a> {
    pub fn new(w: &'a World, fi: &'a FnInfo, contracts: &'a HashSet<String>) -> Self {
        Lower {
            w,
            fi,
            contracts,
            notes: BTreeSet::new(),
            unsupported: vec![],
            nloops: 0,
            loop_kinds: vec![],
            locals: vec![],
            calls: BTreeSet::new(),
            inlined: vec![],
            env: vec![],
            fresh: 0,
            nret: 0,
            nif: 0,
            lets: HashMap::new(),
            depth: 0,
            impl_ty: fi.impl_ty.clone(),
            cur_owner: fi.owner.clone(),
            cur_module: fi.module.clone(),
            closures: HashMap::new(),
            sink_ty: None,
            ret_hint: None,
        }
    }
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }
    fn bad(&mut self, s: String) {
        if !self.unsupported.contains(&s) {
            self.unsupported.push(s);
        }
    }
    fn new_name(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        id(&format!("vx_{}{}", p, self.fresh))
    }
    fn bind(&mut self, n: &str, ty: Option<Type>) {
        if !n.starts_with("vx_") {
            self.locals.push(n.to_string());
        }
        self.env.push((n.to_string(), ty));
    }

    // ---------------------------------------------------------------- types
    fn subst_ty(&self, ty: Type, owner_ty: Option<&Type>, fi: Option<&FnInfo>) -> Type {
        let ty = self.w.resolve_alias(ty);
        let s = crate::show(&ty).replace(' ', "");
        if let Some(f) = fi {
            if s == "Option<Self::Item>" {
                if let Some(a) = &f.assoc_item {
                    return parse_quote!(Option<#a>);
                }
            }
            if s == "Self::Item" || s == "Self::Output" || s == "&Self::Output" {
                if let Some(a) = &f.assoc_item {
                    return a.clone();
                }
            }
        }
        if s == "Self" {
            if let Some(o) = owner_ty.cloned().or_else(|| self.impl_ty.clone()) {
                return o;
            }
        }
        if s == "&Self" || s == "&mutSelf" {
            if let Some(o) = owner_ty.cloned().or_else(|| self.impl_ty.clone()) {
                return parse_quote!(&#o);
            }
        }
        ty
    }
    fn ret_of(&self, f: &FnInfo, owner_ty: Option<&Type>) -> Option<Type> {
        match &f.ret {
            None => t("()"),
            Some(r) => {
                let o = owner_ty.cloned().or_else(|| f.impl_ty.clone());
                Some(self.subst_ty(r.clone(), o.as_ref(), Some(f)))
            }
        }
    }
    fn lookup(&self, n: &str) -> Option<Type> {
        self.env.iter().rev().find(|x| x.0 == n).and_then(|x| x.1.clone())
    }
    fn resolve_call(&self, f: &Expr) -> Option<&'a FnInfo> {
        if let Expr::Path(p) = strip_paren(f) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let w: &'a World = self.w;
            if segs.len() == 1 {
                if self.env.iter().any(|x| x.0 == segs[0]) {
                    return None;
                }
                return w.free(&self.cur_module, &segs[0]);
            }
            let (o, n) = (&segs[segs.len() - 2], &segs[segs.len() - 1]);
            if o == "Self" {
                return w.method(&self.cur_owner, n);
            }
            if w.structs.contains_key(o) {
                return w.method(o, n);
            }
            if o == "util" || o == "self" || o == "super" || o == "crate" {
                return w.free(o, n);
            }
        }
        None
    }
    fn ty(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Path(p) => {
                if let Some(n) = simple_path(e) {
                    if n == "self" {
                        return self.impl_ty.clone();
                    }
                    if let Some(x) = self.lookup(&n) {
                        return Some(x);
                    }
                    if let Some(c) = self.w.consts.get(&n) {
                        return Some(c.clone());
                    }
                }
                let s = crate::show(p).replace(' ', "");
                for i in ["u8", "u16", "u32", "u64", "usize", "i64", "f64"] {
                    if s == format!("{}::MAX", i) || s == format!("{}::MIN", i) {
                        return t(i);
                    }
                }
                if s.contains("consts::") || s.contains("f64::") {
                    return t("f64");
                }
                None
            }
            Expr::Field(f) => {
                let b = self.ty(&f.base)?;
                match &f.member {
                    Member::Named(n) => {
                        if last_ident(&b).as_deref() == Some("Range") {
                            return gen_arg(&b, 0);
                        }
                        self.w.field_type(&b, &n.to_string()).map(|x| self.w.resolve_alias(x))
                    }
                    Member::Unnamed(i) => match strip_ref(&b) {
                        Type::Tuple(tt) => tt.elems.iter().nth(i.index as usize).cloned(),
                        _ => None,
                    },
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Bool(_) => t("bool"),
                Lit::Float(_) => t("f64"),
                Lit::Int(i) if !i.suffix().is_empty() => t(i.suffix()),
                _ => None,
            },
            Expr::Unary(u) => {
                let x = self.ty(&u.expr)?;
                match u.op {
                    UnOp::Deref(_) => match x {
                        Type::Reference(r) => Some((*r.elem).clone()),
                        x => Some(x),
                    },
                    _ => Some(strip_ref(&x).clone()),
                }
            }
            Expr::Reference(r) => {
                let x = self.ty(&r.expr)?;
                Some(parse_quote!(&#x))
            }
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => {
                    t("bool")
                }
                BinOp::Shl(_) | BinOp::Shr(_) => self.ty(&b.left).map(|x| strip_ref(&x).clone()),
                _ => self.ty(&b.left).or_else(|| self.ty(&b.right)).map(|x| strip_ref(&x).clone()),
            },
            Expr::Cast(c) => Some((*c.ty).clone()),
            Expr::Index(i) => {
                let b = self.ty(&i.expr)?;
                if last_ident(&b).map(|n| self.w.index_impls.contains(&n)).unwrap_or(false) {
                    return t("bool");
                }
                let el = elem_type(&b)?;
                if matches!(strip_paren(&i.index), Expr::Range(_)) {
                    return Some(parse_quote!([#el]));
                }
                Some(el)
            }
            Expr::Tuple(tt) => {
                let mut v: Vec<Type> = vec![];
                for e in &tt.elems {
                    v.push(self.ty(e)?);
                }
                Some(parse_quote!((#(#v),*)))
            }
            Expr::Struct(s) => {
                let p = &s.path;
                if p.is_ident("Self") {
                    return self.impl_ty.clone();
                }
                Some(parse_quote!(#p))
            }
            Expr::Range(r) => {
                let x = r.start.as_ref().and_then(|x| self.ty(x)).or_else(|| r.end.as_ref().and_then(|x| self.ty(x)));
                let x = x.unwrap_or_else(|| parse_quote!(usize));
                Some(parse_quote!(Range<#x>))
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let s = m.mac.tokens.clone();
                let first: Option<Expr> = match syn::parse::Parser::parse2(
                    |i: syn::parse::ParseStream| -> Result<Expr> {
                        let e: Expr = i.parse()?;
                        let _: TokenStream = i.parse()?;
                        Ok(e)
                    },
                    s,
                ) {
                    Ok(e) => Some(e),
                    _ => None,
                };
                let x = first.and_then(|e| self.ty(&e))?;
                Some(parse_quote!(Vec<#x>))
            }
            Expr::Repeat(r) => {
                let x = self.ty(&r.expr)?;
                let n = &r.len;
                Some(parse_quote!([#x; #n]))
            }
            Expr::Array(a) => {
                let x = a.elems.first().and_then(|e| self.ty(e))?;
                let n = LitInt::new(&a.elems.len().to_string(), Span::call_site());
                Some(parse_quote!([#x; #n]))
            }
            Expr::If(i) => {
                let st = i.then_branch.stmts.last()?;
                if let Stmt::Expr(e, None) = st {
                    return self.ty(e);
                }
                None
            }
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() {
                    return self.ty(e);
                }
                None
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.ty(&a.body)),
            Expr::Call(c) => {
                if let Some(f) = self.resolve_call(&c.func) {
                    let q = if let Expr::Path(p) = strip_paren(&c.func) {
                        if p.path.segments.len() > 1 && p.path.segments[0].ident == "Self" {
                            self.impl_ty.clone()
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    return self.ret_of(f, q.as_ref());
                }
                let s = crate::show(&c.func).replace(' ', "");
                if s == "HashSet::new" || s == "Vec::new" {
                    return None;
                }
                if s.starts_with("HashSet::") && s.ends_with("::from_iter") || s == "HashSet::from_iter" {
                    return t("HashSet");
                }
                if s.starts_with("XorShiftRng::") {
                    return t("XorShiftRng");
                }
                if s == "cmp::min" || s == "cmp::max" || s == "std::cmp::min" || s == "std::cmp::max" {
                    return self.ty(&c.args[0]).or_else(|| self.ty(&c.args[1]));
                }
                if s == "Some" {
                    let x = self.ty(&c.args[0])?;
                    return Some(parse_quote!(Option<#x>));
                }
                for i in ["u8", "u16", "u32", "u64", "usize", "i64", "i32", "f64"] {
                    if s == format!("{}::from", i) || s == format!("{}::min", i) || s == format!("{}::max", i) {
                        return t(i);
                    }
                    if s == format!("<{}>::max_value", i) || s == format!("{}::max_value", i) || s.contains(&format!("size_of::<{}>", i)) {
                        return t(if s.contains("size_of") { "usize" } else { i });
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(r) = self.ty(&m.receiver) {
                    let r = match self.w.resolve_alias(r.clone()) {
                        x => x,
                    };
                    if let Some(o) = last_ident(&r) {
                        if self.w.structs.contains_key(&o) {
                            if let Some(f) = self.w.method(&o, &name) {
                                let rt = self.ret_of(f, Some(strip_ref(&r)))?;
                                return Some(rt);
                            }
                            if name == "clone" {
                                return Some(strip_ref(&r).clone());
                            }
                        }
                        if o == "Option" {
                            let a = gen_arg(&r, 0);
                            match name.as_str() {
                                "unwrap" | "expect" | "unwrap_or" => return a,
                                "is_some" | "is_none" => return t("bool"),
                                "cloned" | "copied" => {
                                    let a = a?;
                                    let a = strip_ref(&a);
                                    return Some(parse_quote!(Option<#a>));
                                }
                                _ => return None,
                            }
                        }
                        if o == "f64" && name != "to_bits" {
                            return t("f64");
                        }
                        if o == "Range" && name == "next" {
                            let a = gen_arg(&r, 0)?;
                            return Some(parse_quote!(Option<#a>));
                        }
                        if ["u8", "u16", "u32", "u64", "usize", "i64"].contains(&o.as_str()) {
                            return match name.as_str() {
                                "count_ones" | "count_zeros" | "trailing_zeros" | "leading_zeros" => t("u32"),
                                "cmp" => t("Ordering"),
                                "is_power_of_two" => t("bool"),
                                _ => Some(strip_ref(&r).clone()),
                            };
                        }
                    }
                    if let Some(el) = elem_type(&r) {
                        match name.as_str() {
                            "len" | "capacity" => return t("usize"),
                            "is_empty" | "contains" => return t("bool"),
                            "last" | "first" | "last_mut" | "first_mut" | "get" | "get_mut" => return Some(parse_quote!(Option<&#el>)),
                            "pop" => return Some(parse_quote!(Option<#el>)),
                            "swap_remove" | "remove" => return Some(el),
                            "clone" => return Some(strip_ref(&r).clone()),
                            "to_vec" => return Some(parse_quote!(Vec<#el>)),
                            _ => {}
                        }
                    }
                }
                match name.as_str() {
                    "gen" => {
                        if let Some(tf) = &m.turbofish {
                            if let Some(GenericArgument::Type(x)) = tf.args.first() {
                                return Some(x.clone());
                            }
                        }
                        None
                    }
                    "sum" | "product" | "min" | "max" | "collect" => {
                        if let Some(tf) = &m.turbofish {
                            if let Some(GenericArgument::Type(x)) = tf.args.first() {
                                return Some(x.clone());
                            }
                        }
                        None
                    }
                    "any" | "all" | "is_some" | "is_none" => t("bool"),
                    "len" | "count" | "trailing_zeros" => t("usize"),
                    "ln" | "log2" | "powi" | "powf" | "ceil" | "floor" | "round" | "exp" | "sqrt" | "log" | "ln_1p" | "exp_m1" => t("f64"),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- signature
    pub fn lower_sig(&mut self, fi: &FnInfo) -> String {
        let mut g = fi.sig.generics.clone();
        let iter_names: HashSet<String> = fi.iter_params.iter().map(|x| x.0.clone()).collect();
        let (gs, ws, _) = split_generics(&g);
        g.where_clause = None;
        let mut ins: Vec<String> = vec![];
        for a in &fi.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    ins.push(crate::show(r));
                }
                FnArg::Typed(p) => {
                    let mut ty = (*p.ty).clone();
                    self.replace_iter(&mut ty, &iter_names, fi);
                    let pat = match &*p.pat {
                        Pat::Ident(i) => {
                            if i.mutability.is_some() {
                                format!("mut {}", i.ident)
                            } else {
                                i.ident.to_string()
                            }
                        }
                        _ => {
                            self.bad("parameter pattern".into());
                            "_p".to_string()
                        }
                    };
                    ins.push(format!("{}: {}", pat, crate::pretty(&ty)));
                }
            }
        }
        let ret = match &fi.ret {
            None => String::new(),
            Some(r) => {
                let s = crate::show(r).replace(' ', "");
                let mut r2 = r.clone();
                if s == "Option<Self::Item>" {
                    let a = fi.assoc_item.clone().unwrap();
                    r2 = parse_quote!(Option<#a>);
                } else if s == "Self::Item" {
                    r2 = fi.assoc_item.clone().unwrap();
                }
                format!(" -> (r: {})", crate::pretty(&r2))
            }
        };
        format!("fn {}{}({}){} {}", fi.sig.ident, gs, ins.join(", "), ret, ws)
    }
    fn replace_iter(&mut self, ty: &mut Type, names: &HashSet<String>, fi: &FnInfo) {
        struct V<'b>(&'b HashSet<String>, &'b FnInfo, bool);
        impl<'b> VisitMut for V<'b> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                        let n = p.path.segments[0].ident.to_string();
                        if self.0.contains(&n) {
                            let u = self.1.iter_params.iter().find(|x| x.0 == n).unwrap().1.clone();
                            *t = parse_quote!(VxIter<#u>);
                            self.2 = true;
                            return;
                        }
                    }
                }
                if let Type::Path(p) = t {
                    // only the argument of Vec is an iterator value; struct arguments are phantom
                    if let Some(s) = p.path.segments.last() {
                        if s.ident != "Vec" && s.ident != "Option" {
                            return;
                        }
                    }
                }
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
        let mut v = V(names, fi, false);
        v.visit_type_mut(ty);
        if v.2 {
            self.notes.insert("a generic Iterator parameter is replaced by VxIter, a finite sequence read front to back".into());
        }
    }

    // ---------------------------------------------------------------- bodies
    pub fn lower_fn(&mut self, body: Block) -> Block {
        let iter_names: HashSet<String> = self.fi.iter_params.iter().map(|x| x.0.clone()).collect();
        let fi = self.fi;
        for (n, ty) in &fi.params {
            let mut ty = ty.clone();
            self.replace_iter(&mut ty, &iter_names, fi);
            let ty = self.subst_ty(ty, None, None);
            self.env.push((n.clone(), Some(ty)));
        }
        let unit = fi.ret.is_none();
        self.ret_hint = fi.ret.clone().map(|r| self.subst_ty(r, None, Some(fi)));
        let mut b = self.block_hint(body, true);
        let mut out: Vec<Stmt> = vec![parse_quote!(vx_fn_entry!();)];
        let last = b.stmts.pop();
        out.append(&mut b.stmts);
        match last {
            Some(Stmt::Expr(e, None)) if unit => {
                let nosemi = matches!(e, Expr::Block(_) | Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_));
                out.push(if nosemi { Stmt::Expr(e, None) } else { semi(e) });
                out.push(parse_quote!(vx_exit!(t);));
            }
            Some(Stmt::Expr(e, None)) => {
                if matches!(e, Expr::Loop(_)) {
                    out.push(tail(e));
                } else {
                    out.push(parse_quote!(let vx_ret = #e;));
                    out.push(parse_quote!(vx_exit!(t);));
                    out.push(tail(parse_quote!(vx_ret)));
                }
            }
            Some(s) => {
                out.push(s);
                if unit {
                    out.push(parse_quote!(vx_exit!(t);));
                }
            }
            None => out.push(parse_quote!(vx_exit!(t);)),
        }
        block_of(out)
    }
    fn block(&mut self, b: Block) -> Block {
        self.block_hint(b, false)
    }
    fn block_hint(&mut self, b: Block, fn_body: bool) -> Block {
        let mark = self.env.len();
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.into_iter().enumerate() {
            if let (true, true, Stmt::Expr(e, None)) = (fn_body, i + 1 == n, &s) {
                let h = self.ret_hint.clone();
                let e2 = self.expr_hint(e.clone(), h.as_ref());
                out.push(tail(e2));
                continue;
            }
            self.stmt(s, i + 1 == n, &mut out);
        }
        self.env.truncate(mark);
        block_of(out)
    }
    fn occ(&mut self, k: &str) -> usize {
        let c = self.lets.entry(k.to_string()).or_insert(0);
        *c += 1;
        *c - 1
    }
    fn mark_let(&mut self, n: &str, out: &mut Vec<Stmt>) {
        if n.starts_with("vx_") {
            return;
        }
        let o = self.occ(&format!("let {}", n));
        let i = id(n);
        let o = LitInt::new(&o.to_string(), Span::call_site());
        out.push(parse_quote!(vx_let!(#i, #o);));
    }
    fn stmt(&mut self, s: Stmt, last: bool, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Local(l) => self.local(l, out),
            Stmt::Item(_) => self.bad("nested item".into()),
            Stmt::Macro(m) => {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                let e2 = self.expr(e);
                if m.semi_token.is_none() && last {
                    out.push(tail(e2));
                } else if !matches!(&e2, Expr::Tuple(t) if t.elems.is_empty()) {
                    out.push(semi(e2));
                }
            }
            Stmt::Expr(e, sm) => {
                let mut mark: Option<Stmt> = None;
                match strip_paren(&e) {
                    Expr::MethodCall(m) if sm.is_some() => {
                        let n = m.method.to_string();
                        let o = LitInt::new(&self.occ(&format!("call {}", n)).to_string(), Span::call_site());
                        let i = id(&n);
                        mark = Some(parse_quote!(vx_stmt!(#i, #o);));
                    }
                    Expr::Assign(a) => {
                        if let Some(n) = simple_path(&a.left) {
                            let o = LitInt::new(&self.occ(&format!("asg {}", n)).to_string(), Span::call_site());
                            let i = id(&n);
                            mark = Some(parse_quote!(vx_asg!(#i, #o);));
                        }
                    }
                    _ => {}
                }
                // an iterator chain run for its effect
                let is_unit_pipe = sm.is_some();
                let e2 = self.expr(e);
                let noret = matches!(e2, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_));
                let blocky = matches!(e2, Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_));
                if !last && blocky && sm.is_none() {
                    out.push(Stmt::Expr(e2, None));
                } else if is_unit_pipe || !last {
                    out.push(semi(e2));
                } else {
                    out.push(Stmt::Expr(e2, sm));
                }
                if let Some(m) = mark {
                    if !noret {
                        out.push(m);
                    }
                }
            }
        }
    }
    fn local(&mut self, l: Local, out: &mut Vec<Stmt>) {
        let (pat, ann) = match l.pat {
            Pat::Type(pt) => (*pt.pat, Some((*pt.ty).clone())),
            p => (p, None),
        };
        if l.init.as_ref().map(|i| i.diverge.is_some()).unwrap_or(false) {
            self.bad("let-else".into());
        }
        let ann_ok = ann.clone().filter(|a| !crate::show(a).contains('_'));
        match l.init {
            None => {
                if let Pat::Ident(i) = &pat {
                    let n = i.ident.to_string();
                    let m = i.mutability;
                    let x = &i.ident;
                    match &ann_ok {
                        Some(a) => out.push(parse_quote!(let #m #x: #a;)),
                        None => out.push(parse_quote!(let #m #x;)),
                    }
                    self.bind(&n, ann_ok);
                } else {
                    self.bad("uninitialised pattern".into());
                }
            }
            Some(init) => {
                let e = *init.expr;
                let ty = ann_ok.clone().or_else(|| self.ty(&e));
                match &pat {
                    Pat::Ident(i) if i.by_ref.is_none() => {
                        self.sink_ty = None;
                        let collected = matches!(strip_paren(&e), Expr::MethodCall(m) if m.method == "collect");
                        let e2 = self.expr_hint(e, ann.as_ref());
                        let partial = ty.as_ref().map(|t| crate::show(t).contains('_')).unwrap_or(true);
                        let ty = if collected && partial { self.sink_ty.take().or(ty) } else { ty };
                        let n = i.ident.to_string();
                        let m = i.mutability;
                        let x = &i.ident;
                        let shown = ann_ok.clone().map(|mut a| {
                            if let (Some("HashSet"), Type::Path(p)) = (last_ident(&a).as_deref(), &mut a) {
                                let mut s = p.path.segments.last().unwrap().clone();
                                s.ident = id("VxHashSet");
                                a = parse_quote!(#s);
                            }
                            a
                        });
                        match &shown {
                            Some(a) => out.push(parse_quote!(let #m #x: #a = #e2;)),
                            None => out.push(parse_quote!(let #m #x = #e2;)),
                        }
                        self.bind(&n, ty);
                        self.mark_let(&n, out);
                    }
                    Pat::Wild(_) => {
                        let e2 = self.expr(e);
                        out.push(parse_quote!(let _ = #e2;));
                    }
                    _ => {
                        // bind to a temporary, then take it apart
                        let place = match strip_paren(&e) {
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr) => Some((*u.expr).clone()),
                            x if is_place(x) => Some(x.clone()),
                            _ => None,
                        };
                        let base = match place {
                            Some(p) => p,
                            None => {
                                let e2 = self.expr(e);
                                let n = self.new_name("t");
                                out.push(parse_quote!(let #n = #e2;));
                                parse_quote!(#n)
                            }
                        };
                        self.destructure(&pat, It::E(base, ty), out);
                    }
                }
            }
        }
    }
    fn destructure(&mut self, p: &Pat, it: It, out: &mut Vec<Stmt>) {
        match p {
            Pat::Ident(i) => {
                if i.by_ref.is_some() || i.subpat.is_some() {
                    self.bad("ref pattern".into());
                }
                let (e, ty) = self.it_expr(it);
                let x = &i.ident;
                let m = i.mutability;
                out.push(parse_quote!(let #m #x = #e;));
                let n = i.ident.to_string();
                self.bind(&n, ty);
                self.mark_let(&n, out);
            }
            Pat::Wild(_) | Pat::Rest(_) => {}
            Pat::Paren(p) => self.destructure(&p.pat, it, out),
            Pat::Type(p) => self.destructure(&p.pat, it, out),
            Pat::Reference(r) => match it {
                It::E(Expr::Reference(x), ty) => {
                    let ty = ty.map(|t| match t {
                        Type::Reference(r) => (*r.elem).clone(),
                        t => t,
                    });
                    self.destructure(&r.pat, It::E(*x.expr, ty), out)
                }
                It::E(x, ty) => {
                    let ty = ty.map(|t| match t {
                        Type::Reference(r) => (*r.elem).clone(),
                        t => t,
                    });
                    self.destructure(&r.pat, It::E(parse_quote!(*#x), ty), out)
                }
                It::T(v) => self.destructure(&r.pat, It::T(v), out),
            },
            Pat::Tuple(tp) => match it {
                It::T(v) if !tp.elems.iter().any(|x| matches!(x, Pat::Rest(_))) && v.len() == tp.elems.len() => {
                    for (q, x) in tp.elems.iter().zip(v) {
                        self.destructure(q, x, out);
                    }
                }
                It::T(_) => self.bad("tuple pattern".into()),
                It::E(e, ty) => {
                    let byref = matches!(&ty, Some(Type::Reference(_))) || matches!(&e, Expr::Reference(_));
                    let inner = match &e {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => e.clone(),
                    };
                    let tys: Vec<Option<Type>> = match ty.as_ref().map(|t| strip_ref(t).clone()) {
                        Some(Type::Tuple(tt)) => tt.elems.iter().map(|x| Some(x.clone())).collect(),
                        _ => vec![],
                    };
                    for (i, q) in tp.elems.iter().enumerate() {
                        if matches!(q, Pat::Rest(_)) {
                            if i + 1 != tp.elems.len() {
                                self.bad("rest in the middle of a tuple pattern".into());
                            }
                            break;
                        }
                        let ix = Index::from(i);
                        let f: Expr = if byref { parse_quote!(&#inner.#ix) } else { parse_quote!(#inner.#ix) };
                        let ft = tys.get(i).cloned().flatten().map(|t| if byref { parse_quote!(&#t) } else { t });
                        self.destructure(q, It::E(f, ft), out);
                    }
                }
            },
            Pat::Struct(sp) => {
                if let It::E(e, ty) = it {
                    for f in &sp.fields {
                        if let Member::Named(n) = &f.member {
                            let ft = ty.as_ref().and_then(|t| self.w.field_type(t, &n.to_string()));
                            self.destructure(&f.pat, It::E(parse_quote!(#e.#n), ft), out);
                        }
                    }
                } else {
                    self.bad("struct pattern".into());
                }
            }
            _ => self.bad(format!("pattern {}", crate::show(p))),
        }
    }
    fn it_expr(&mut self, it: It) -> (Expr, Option<Type>) {
        match it {
            It::E(e, t) => (e, t),
            It::T(v) => {
                let mut es = vec![];
                let mut ts = vec![];
                let mut all = true;
                for x in v {
                    let (e, t) = self.it_expr(x);
                    es.push(e);
                    match t {
                        Some(t) => ts.push(t),
                        None => all = false,
                    }
                }
                (parse_quote!((#(#es),*)), if all { Some(parse_quote!((#(#ts),*))) } else { None })
            }
        }
    }

    // ---------------------------------------------------------------- iterator chains
    fn custom_iter(&self, e: &Expr) -> Option<Type> {
        let ty = self.w.resolve_alias(self.ty(e)?);
        if matches!(ty, Type::Reference(_)) {
            return None;
        }
        let n = last_ident(&ty)?;
        if let Some(it) = self.w.iters.get(&n) {
            return Some(it.clone());
        }
        if n == "VxIter" {
            return gen_arg(&ty, 0);
        }
        None
    }
    /// A call of a one-line private function which only names a slice iterator (`self.v.iter()`, `self.v.iter_mut()`, or a
    /// one-field wrapper whose `next` is that iterator's `next`, possibly `.cloned()`) is replaced by that iterator.
    fn iter_alias(&self, e: &Expr) -> Option<Expr> {
        let m = match strip_paren(e) {
            Expr::MethodCall(m) if m.args.is_empty() && is_place(&m.receiver) => m,
            _ => return None,
        };
        fn only(b: &Block) -> Option<&Expr> {
            match b.stmts.as_slice() {
                [Stmt::Expr(e, None)] => Some(strip_paren(e)),
                _ => None,
            }
        }
        let owner = last_ident(&self.ty(&m.receiver)?)?;
        let f = self.w.method(&owner, &m.method.to_string())?;
        if self.contracts.contains(&f.key) {
            return None;
        }
        let body = only(&f.block)?.clone();
        let mut ren: HashMap<String, Expr> = HashMap::new();
        ren.insert("self".into(), (*m.receiver).clone());
        let sub = |mut x: Expr| {
            let mut s = Subst { ren: &ren, self_ty: f.impl_ty.clone() };
            s.visit_expr_mut(&mut x);
            x
        };
        let plain = |x: &Expr| matches!(x, Expr::MethodCall(c) if c.args.is_empty() && (c.method == "iter" || c.method == "iter_mut"));
        if plain(&body) {
            return Some(sub(body));
        }
        if let Expr::Struct(s) = &body {
            let n = s.path.segments.last()?.ident.to_string();
            if s.fields.len() != 1 || s.rest.is_some() {
                return None;
            }
            let fv = s.fields.first()?;
            let fname = match &fv.member {
                Member::Named(i) => i.to_string(),
                _ => return None,
            };
            if !plain(strip_paren(&fv.expr)) {
                return None;
            }
            let nx = only(&self.w.method(&n, "next")?.block)?.clone();
            let txt = crate::show(&nx).replace(' ', "");
            let src = sub(strip_paren(&fv.expr).clone());
            if txt == format!("self.{}.next()", fname) {
                return Some(src);
            }
            if txt == format!("self.{}.next().cloned()", fname) || txt == format!("self.{}.next().copied()", fname) {
                return Some(parse_quote!(#src.cloned()));
            }
        }
        None
    }
    fn is_iter(&self, e: &Expr) -> bool {
        if self.iter_alias(e).is_some() {
            return true;
        }
        match strip_paren(e) {
            Expr::Range(r) => r.start.is_some(),
            Expr::Reference(r) => self.ty(&r.expr).and_then(|t| elem_type(&t)).is_some(),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" if self.ty(&m.receiver).and_then(|t| elem_type(&t)).is_some() => true,
                    "into_iter" => self.is_iter(&m.receiver),
                    "take" | "skip" | "enumerate" | "map" | "zip" | "cloned" | "copied" | "filter" | "rev" => self.is_iter(&m.receiver),
                    _ => self.custom_iter(e).is_some(),
                }
            }
            Expr::Call(c) => {
                let s = crate::show(&c.func).replace(' ', "");
                s.ends_with("iter::repeat") || self.custom_iter(e).is_some()
            }
            _ => self.custom_iter(e).is_some(),
        }
    }
    fn vec_source(&mut self, base: &Expr, mode: u8, lid: usize, tag: &str) -> Pipe {
        // mode 0: shared, 1: mutable
        let el = self.ty(base).and_then(|t| elem_type(&t));
        let mut pre = vec![];
        let b: Expr = if is_place(base) {
            self.expr(base.clone())
        } else {
            let e = self.expr(base.clone());
            let n = self.new_name("s");
            pre.push(parse_quote!(let #n = #e;));
            parse_quote!(#n)
        };
        let k = id(&format!("vx_k{}{}", lid, tag));
        let n = id(&format!("vx_n{}{}", lid, tag));
        let is_arr = matches!(self.ty(base).map(|t| strip_ref(&t).clone()), Some(Type::Array(_)));
        if is_arr {
            let len = match self.ty(base).map(|t| strip_ref(&t).clone()) {
                Some(Type::Array(a)) => a.len.clone(),
                _ => unreachable!(),
            };
            pre.push(parse_quote!(let #n: usize = #len;));
        } else {
            pre.push(parse_quote!(let #n: usize = #b.len();));
        }
        pre.push(parse_quote!(let mut #k: usize = 0;));
        let item = if mode == 1 {
            let v = self.new_name("m");
            let bind: Vec<Stmt> = vec![parse_quote!(let #v = &mut #b[#k];), parse_quote!(#k += 1;)];
            return Pipe {
                pre,
                conds: vec![parse_quote!(#k < #n)],
                binds: bind,
                item: It::E(parse_quote!(#v), el.map(|t| parse_quote!(&mut #t))),
                k: Some(k),
                n: Some(n),
                zero_based: true,
                kind: "iter_mut".into(),
            };
        } else {
            let v = self.new_name("e");
            let bind: Vec<Stmt> = vec![parse_quote!(let #v = &#b[#k];), parse_quote!(#k += 1;)];
            (It::E(parse_quote!(#v), el.map(|t| parse_quote!(&#t))), bind)
        };
        Pipe {
            pre,
            conds: vec![parse_quote!(#k < #n)],
            binds: item.1,
            item: item.0,
            k: Some(k),
            n: Some(n),
            zero_based: true,
            kind: "iter".into(),
        }
    }
    fn pipe(&mut self, e: &Expr, lid: usize, tag: &str) -> Pipe {
        let e = match self.iter_alias(e) {
            Some(a) => a,
            None => strip_paren(e).clone(),
        };
        let k = id(&format!("vx_k{}{}", lid, tag));
        let n = id(&format!("vx_n{}{}", lid, tag));
        if let Expr::Range(r) = &e {
            let rt = self.ty(&e).and_then(|t| gen_arg(&t, 0));
            let lo = self.expr((**r.start.as_ref().unwrap()).clone());
            let rt = match rt {
                Some(x) => x,
                None => parse_quote!(usize),
            };
            let mut pre: Vec<Stmt> = vec![];
            pre.push(parse_quote!(let mut #k: #rt = #lo;));
            let zero = crate::show(&lo) == "0";
            let conds = match &r.end {
                Some(h) => {
                    let hi = self.expr((**h).clone());
                    match r.limits {
                        RangeLimits::HalfOpen(_) => pre.push(parse_quote!(let #n: #rt = #hi;)),
                        RangeLimits::Closed(_) => pre.push(parse_quote!(let #n: #rt = (#hi) + 1;)),
                    }
                    vec![parse_quote!(#k < #n)]
                }
                None => vec![],
            };
            let v = self.new_name("i");
            return Pipe {
                pre,
                conds,
                binds: vec![parse_quote!(let #v = #k;), parse_quote!(#k += 1;)],
                item: It::E(parse_quote!(#v), Some(rt)),
                k: Some(k),
                n: if r.end.is_some() { Some(n) } else { None },
                zero_based: zero,
                kind: "range".into(),
            };
        }
        if let Expr::Reference(r) = &e {
            return self.vec_source(&r.expr, if r.mutability.is_some() { 1 } else { 0 }, lid, tag);
        }
        if let Expr::MethodCall(m) = &e {
            let name = m.method.to_string();
            let vecsrc = self.ty(&m.receiver).and_then(|t| elem_type(&t)).is_some();
            match name.as_str() {
                "iter" if vecsrc => return self.vec_source(&m.receiver, 0, lid, tag),
                "iter_mut" if vecsrc => return self.vec_source(&m.receiver, 1, lid, tag),
                "into_iter" if vecsrc => {
                    let rt = self.ty(&m.receiver);
                    if matches!(rt, Some(Type::Reference(_))) {
                        return self.vec_source(&m.receiver, 0, lid, tag);
                    }
                    let el = rt.and_then(|t| elem_type(&t));
                    let b = self.expr((*m.receiver).clone());
                    let it = id(&format!("vx_it{}{}", lid, tag));
                    let v = self.new_name("v");
                    return Pipe {
                        pre: vec![parse_quote!(let mut #it = vx_into_iter(#b);)],
                        conds: vec![],
                        binds: vec![parse_quote!(let #v = match #it.next() { Some(vx_x) => vx_x, None => { break; } };)],
                        item: It::E(parse_quote!(#v), el),
                        k: None,
                        n: None,
                        zero_based: true,
                        kind: "into_iter".into(),
                    };
                }
                "into_iter" if self.is_iter(&m.receiver) => return self.pipe(&m.receiver, lid, tag),
                "take" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    let lim = self.expr(m.args[0].clone());
                    let repeated = p.kind == "repeat";
                    match (&p.n, &p.k, p.zero_based) {
                        (None, None, _) => {
                            p.pre.push(parse_quote!(let #n: usize = #lim;));
                            p.pre.push(parse_quote!(let mut #k: usize = 0;));
                            p.conds.insert(0, parse_quote!(#k < #n));
                            p.binds.push(parse_quote!(#k += 1;));
                            p.k = Some(k);
                            p.n = Some(n);
                        }
                        (Some(_), Some(_), true) => {
                            let tn = id(&format!("vx_l{}{}", lid, tag));
                            p.pre.push(parse_quote!(let #tn: usize = #lim;));
                            p.pre.push(parse_quote!(let #n = if #tn < #n { #tn } else { #n };));
                        }
                        _ => self.bad("take".into()),
                    }
                    p.kind = format!("{}.take", p.kind);
                    let _ = repeated;
                    return p;
                }
                "skip" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    let lim = self.expr(m.args[0].clone());
                    match (&p.n, &p.k, p.zero_based) {
                        (Some(_), Some(_), true) => {
                            let tn = id(&format!("vx_l{}{}", lid, tag));
                            p.pre.push(parse_quote!(let #tn: usize = #lim;));
                            p.pre.push(parse_quote!(#k = if #tn < #n { #tn } else { #n };));
                        }
                        _ => self.bad("skip".into()),
                    }
                    p.zero_based = false;
                    p.kind = format!("{}.skip", p.kind);
                    return p;
                }
                "rev" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    if p.kind == "range" && p.n.is_some() {
                        // count down
                        let v = self.new_name("i");
                        let ty = match &p.item {
                            It::E(_, t) => t.clone(),
                            _ => None,
                        };
                        p.pre.push(parse_quote!(let vx_lo = #k;));
                        let lo = id(&format!("vx_lo{}{}", lid, tag));
                        p.pre.pop();
                        p.pre.push(parse_quote!(let #lo = #k;));
                        p.binds = vec![parse_quote!(let #v = #n - 1 - (#k - #lo);), parse_quote!(#k += 1;)];
                        p.item = It::E(parse_quote!(#v), ty);
                    } else if p.kind == "iter" {
                        let s = p.binds[0].clone();
                        if let Stmt::Local(l) = &s {
                            if let Some(init) = &l.init {
                                if let Expr::Reference(r) = &*init.expr {
                                    if let Expr::Index(ix) = &*r.expr {
                                        let b = &ix.expr;
                                        let pt = &l.pat;
                                        p.binds[0] = parse_quote!(let #pt = &#b[#n - 1 - #k];);
                                    }
                                }
                            }
                        }
                    } else {
                        self.bad("rev".into());
                    }
                    p.zero_based = false;
                    p.kind = format!("{}.rev", p.kind);
                    return p;
                }
                "enumerate" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    let v = self.new_name("x");
                    if p.zero_based && p.k.is_some() {
                        p.binds.push(parse_quote!(let #v = #k - 1;));
                    } else {
                        let c = id(&format!("vx_c{}{}", lid, tag));
                        p.pre.push(parse_quote!(let mut #c: usize = 0;));
                        p.binds.push(parse_quote!(let #v = #c;));
                        p.binds.push(parse_quote!(#c += 1;));
                    }
                    p.item = It::T(vec![It::E(parse_quote!(#v), t("usize")), p.item]);
                    p.kind = format!("{}.enumerate", p.kind);
                    return p;
                }
                "cloned" | "copied" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    p.item = match p.item {
                        It::E(e, ty) => It::E(
                            parse_quote!(*#e),
                            ty.map(|t| match t {
                                Type::Reference(r) => (*r.elem).clone(),
                                t => t,
                            }),
                        ),
                        x => {
                            self.bad("cloned on tuple".into());
                            x
                        }
                    };
                    return p;
                }
                "zip" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    let arg = m.args[0].clone();
                    let arg = if !self.is_iter(&arg) { arg } else { arg };
                    if !self.is_iter(&arg) {
                        self.bad("zip argument".into());
                        return p;
                    }
                    let q = self.pipe(&arg, lid, &format!("{}b", tag));
                    p.pre.extend(q.pre);
                    p.conds.extend(q.conds);
                    p.binds.extend(q.binds);
                    p.item = It::T(vec![p.item, q.item]);
                    p.kind = format!("{}.zip.{}", p.kind, q.kind);
                    return p;
                }
                "map" | "filter" if self.is_iter(&m.receiver) => {
                    let mut p = self.pipe(&m.receiver, lid, tag);
                    match strip_paren(&m.args[0]) {
                        Expr::Closure(c) => {
                            let c = c.clone();
                            if name == "map" {
                                let (mut st, e, ty) = self.closure_body(&c, vec![p.item]);
                                p.binds.append(&mut st);
                                let v = self.new_name("y");
                                p.binds.push(parse_quote!(let #v = #e;));
                                p.item = It::E(parse_quote!(#v), ty);
                            } else {
                                let arg = match p.item.clone() {
                                    It::E(e, ty) => It::E(parse_quote!(&#e), ty.map(|t| parse_quote!(&#t))),
                                    x => x,
                                };
                                let (mut st, e, _) = self.closure_body(&c, vec![arg]);
                                p.binds.append(&mut st);
                                p.binds.push(parse_quote!(vx_loop_begin!(999);));
                                p.binds.push(parse_quote!(if !(#e) { vx_loop_end!(999); continue; }));
                                p.zero_based = false;
                            }
                        }
                        Expr::Path(f) => {
                            let f = f.clone();
                            let (e, _) = self.it_expr(p.item);
                            let call: Expr = parse_quote!(#f(#e));
                            let ty = self.ty(&call);
                            let v = self.new_name("y");
                            p.binds.push(parse_quote!(let #v = #call;));
                            p.item = It::E(parse_quote!(#v), ty);
                        }
                        _ => self.bad("closure".into()),
                    }
                    p.kind = format!("{}.{}", p.kind, name);
                    return p;
                }
                _ => {}
            }
        }
        if let Expr::Call(c) = &e {
            let s = crate::show(&c.func).replace(' ', "");
            if s.ends_with("iter::repeat") {
                let ty = self.ty(&c.args[0]);
                let v = self.expr(c.args[0].clone());
                let nm = self.new_name("rep");
                return Pipe {
                    pre: vec![parse_quote!(let #nm = #v;)],
                    conds: vec![],
                    binds: vec![],
                    item: It::E(parse_quote!(#nm), ty),
                    k: None,
                    n: None,
                    zero_based: true,
                    kind: "repeat".into(),
                };
            }
        }
        // custom iterator: pull with `next`
        let item_ty = self.custom_iter(&e);
        let it = id(&format!("vx_it{}{}", lid, tag));
        if let Some(ty) = self.ty(&e) {
            if let Some(n) = last_ident(&ty) {
                if let Some(f) = self.w.method(&n, "next") {
                    self.calls.insert(f.key.clone());
                }
            }
        }
        let b = self.expr(e);
        let v = self.new_name("v");
        Pipe {
            pre: vec![parse_quote!(let mut #it = #b;)],
            conds: vec![],
            binds: vec![parse_quote!(let #v = match #it.next() { Some(vx_x) => vx_x, None => { break; } };)],
            item: It::E(parse_quote!(#v), item_ty),
            k: None,
            n: None,
            zero_based: true,
            kind: "next".into(),
        }
    }
    /// Statements that bind the closure's parameters, and its (lowered) body.
    fn closure_body(&mut self, c: &ExprClosure, args: Vec<It>) -> (Vec<Stmt>, Expr, Option<Type>) {
        let mut h = HasRet(false);
        syn::visit::Visit::visit_expr(&mut h, &c.body);
        if h.0 {
            self.bad("return inside a closure".into());
        }
        let mut st = vec![];
        if c.inputs.len() != args.len() {
            self.bad("closure arity".into());
        }
        for (p, a) in c.inputs.iter().zip(args) {
            self.destructure(p, a, &mut st);
        }
        let ty = self.ty_in(&c.body);
        let e = self.expr((*c.body).clone());
        (st, e, ty)
    }
    /// type of a block expression whose locals are not yet in scope: only simple bodies
    fn ty_in(&self, e: &Expr) -> Option<Type> {
        self.ty(e)
    }
    fn make_loop(&mut self, p: Pipe, lid: usize, extra: Option<Expr>, mut body: Vec<Stmt>, after: Vec<Stmt>, sink: &str) -> Vec<Stmt> {
        let l = LitInt::new(&lid.to_string(), Span::call_site());
        let mut out = p.pre;
        let mut conds: Vec<Expr> = vec![];
        if let Some(x) = extra {
            conds.push(x);
        }
        conds.extend(p.conds);
        let mut b: Vec<Stmt> = vec![parse_quote!(vx_loop!(#l);)];
        // a filtered element still is one iteration: its hints go before the filter and on both ways out
        let filtered = p.binds.iter().any(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("vx_loop_begin")));
        let mut first = true;
        for s in p.binds {
            match s {
                Stmt::Macro(m) if m.mac.path.is_ident("vx_loop_begin") => {
                    if first {
                        b.push(parse_quote!(vx_loop_begin!(#l);));
                    }
                    first = false;
                }
                Stmt::Expr(Expr::If(mut i), semi) if filtered => {
                    for s in i.then_branch.stmts.iter_mut() {
                        if matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("vx_loop_end")) {
                            *s = parse_quote!(vx_loop_end!(#l););
                        }
                    }
                    b.push(Stmt::Expr(Expr::If(i), semi));
                }
                s => b.push(s),
            }
        }
        if !filtered {
            b.push(parse_quote!(vx_loop_begin!(#l);));
        }
        b.append(&mut body);
        b.push(parse_quote!(vx_loop_end!(#l);));
        let blk = block_of(b);
        let lp: Expr = if conds.is_empty() {
            parse_quote!(loop #blk)
        } else {
            let c = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
            parse_quote!(while #c #blk)
        };
        out.push(parse_quote!(vx_before!(#l);));
        out.push(Stmt::Expr(lp, None));
        out.push(parse_quote!(vx_after!(#l);));
        out.extend(after);
        self.loop_kinds[lid] = format!("{}:{}", p.kind, sink);
        out
    }
    fn new_loop(&mut self) -> usize {
        let l = self.nloops;
        self.nloops += 1;
        self.loop_kinds.push(String::new());
        l
    }
    fn sink(&mut self, m: &ExprMethodCall, hint: Option<&Type>) -> Option<Expr> {
        let name = m.method.to_string();
        const SINKS: [&str; 14] = [
            "for_each", "all", "any", "position", "find", "sum", "count", "min", "max", "fold", "collect", "product", "last", "nth",
        ];
        if name == "collect" {
            let tf = m.turbofish.as_ref().and_then(|tf| match tf.args.first() {
                Some(GenericArgument::Type(x)) => Some(x.clone()),
                _ => None,
            });
            if tf.as_ref().or(hint).and_then(last_ident).map(|n| n == "HashSet").unwrap_or(false) {
                if let Some(x) = self.set_of(&m.receiver) {
                    return Some(x);
                }
            }
        }
        if !SINKS.contains(&name.as_str()) || !self.is_iter(&m.receiver) {
            return None;
        }
        if (name == "min" || name == "max") && !m.args.is_empty() {
            return None;
        }
        let mark = self.env.len();
        let tf = m.turbofish.as_ref().and_then(|tf| match tf.args.first() {
            Some(GenericArgument::Type(x)) => Some(x.clone()),
            _ => None,
        });
        let lid = self.new_loop();
        let mut p = self.pipe(&m.receiver, lid, "");
        let r = id(&format!("vx_r{}", lid));
        let clo = |i: usize| -> Option<ExprClosure> {
            match m.args.iter().nth(i).map(strip_paren) {
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            }
        };
        let item = p.item.clone();
        let ity = match &item {
            It::E(_, t) => t.clone(),
            _ => None,
        };
        let mut pre: Vec<Stmt> = vec![];
        let res: Option<(Option<Expr>, Vec<Stmt>, Vec<Stmt>)> = match name.as_str() {
            "for_each" => clo(0).map(|c| {
                let (mut st, e, _) = self.closure_body(&c, vec![item]);
                st.push(match e {
                    Expr::Block(b) if b.label.is_none() => Stmt::Expr(Expr::Block(b), None),
                    e => semi(e),
                });
                (None, st, vec![])
            }),
            "all" | "any" => clo(0).map(|c| {
                let (mut st, e, _) = self.closure_body(&c, vec![item]);
                if name == "all" {
                    pre.push(parse_quote!(let mut #r: bool = true;));
                } else {
                    pre.push(parse_quote!(let mut #r: bool = false;));
                }
                st.push(parse_quote!(#r = #e;));
                let g: Expr = if name == "all" { parse_quote!(#r) } else { parse_quote!(!#r) };
                (Some(g), st, vec![tail(parse_quote!(#r))])
            }),
            "position" => clo(0).map(|c| {
                let (mut st, e, _) = self.closure_body(&c, vec![item]);
                let cnt: Expr = if p.zero_based && p.k.is_some() {
                    let k = p.k.clone().unwrap();
                    parse_quote!(#k - 1)
                } else {
                    let cc = id(&format!("vx_q{}", lid));
                    pre.push(parse_quote!(let mut #cc: usize = 0;));
                    p.binds.push(parse_quote!(#cc += 1;));
                    parse_quote!(#cc - 1)
                };
                pre.push(parse_quote!(let mut #r: Option<usize> = None;));
                st.push(parse_quote!(if #e { #r = Some(#cnt); }));
                (Some(parse_quote!(#r.is_none())), st, vec![tail(parse_quote!(#r))])
            }),
            "find" => clo(0).map(|c| {
                let (e0, ty) = self.it_expr(item);
                let v = self.new_name("f");
                let (st, e, _) = self.closure_body(&c, vec![It::E(parse_quote!(&#v), ty.map(|t| parse_quote!(&#t)))]);
                let mut s2: Vec<Stmt> = vec![parse_quote!(let #v = #e0;)];
                s2.extend(st);
                s2.push(parse_quote!(if #e { #r = Some(#v); }));
                pre.push(parse_quote!(let mut #r = None;));
                (Some(parse_quote!(#r.is_none())), s2, vec![tail(parse_quote!(#r))])
            }),
            "sum" | "product" => {
                let (e, ty) = self.it_expr(item);
                let rt = tf.clone().or_else(|| hint.cloned()).or(ty.clone()).map(|t| strip_ref(&t).clone());
                if is_f64(&rt) {
                    let isref = matches!(&ty, Some(Type::Reference(_)));
                    let e: Expr = if isref { parse_quote!(*#e) } else { e };
                    let (z, op): (Expr, Stmt) = if name == "sum" {
                        (self.float(&parse_quote!(0.0)), parse_quote!(#r = vx_fadd(#r, #e);))
                    } else {
                        (self.float(&parse_quote!(1.0)), parse_quote!(#r = vx_fmul(#r, #e);))
                    };
                    pre.push(parse_quote!(let mut #r: f64 = #z;));
                    Some((None, vec![op], vec![tail(parse_quote!(#r))]))
                } else {
                    let isref = matches!(&ty, Some(Type::Reference(_)));
                    let e: Expr = if isref { parse_quote!(*#e) } else { e };
                    let (z, op): (Expr, Stmt) = if name == "sum" {
                        (parse_quote!(0), parse_quote!(#r += #e;))
                    } else {
                        (parse_quote!(1), parse_quote!(#r *= #e;))
                    };
                    match &rt {
                        Some(rt) => pre.push(parse_quote!(let mut #r: #rt = #z;)),
                        None => pre.push(parse_quote!(let mut #r = #z;)),
                    }
                    Some((None, vec![op], vec![tail(parse_quote!(#r))]))
                }
            }
            "count" => {
                pre.push(parse_quote!(let mut #r: usize = 0;));
                Some((None, vec![parse_quote!(#r += 1;)], vec![tail(parse_quote!(#r))]))
            }
            "last" => {
                let (e, _) = self.it_expr(item);
                pre.push(parse_quote!(let mut #r = None;));
                Some((None, vec![parse_quote!(#r = Some(#e);)], vec![tail(parse_quote!(#r))]))
            }
            "min" | "max" => {
                let (e, ty) = self.it_expr(item);
                let v = self.new_name("c");
                let isref = matches!(&ty, Some(Type::Reference(_)));
                let (x, m): (Expr, Expr) =
                    if isref { (parse_quote!(*#v), parse_quote!(*vx_m)) } else { (parse_quote!(#v), parse_quote!(vx_m)) };
                match &ty {
                    Some(ty) => pre.push(parse_quote!(let mut #r: Option<#ty> = None;)),
                    None => pre.push(parse_quote!(let mut #r = None;)),
                }
                let c: Expr = if name == "min" { parse_quote!(#x < #m) } else { parse_quote!(#x >= #m) };
                Some((
                    None,
                    vec![
                        parse_quote!(let #v = #e;),
                        parse_quote!(#r = match #r { None => Some(#v), Some(vx_m) => if #c { Some(#v) } else { Some(vx_m) } };),
                    ],
                    vec![tail(parse_quote!(#r))],
                ))
            }
            "fold" => clo(1).map(|c| {
                let rt = hint.cloned().or_else(|| self.ty(&m.args[0]));
                let init = self.expr(m.args[0].clone());
                match &rt {
                    Some(rt) => pre.push(parse_quote!(let mut #r: #rt = #init;)),
                    None => pre.push(parse_quote!(let mut #r = #init;)),
                }
                let (mut st, e, _) = self.closure_body(&c, vec![It::E(parse_quote!(#r), rt), item]);
                st.push(parse_quote!(#r = #e;));
                (None, st, vec![tail(parse_quote!(#r))])
            }),
            "collect" => {
                let (e, ty) = self.it_expr(item);
                let target = tf.clone().or_else(|| hint.cloned());
                let ok = target.as_ref().map(|t| last_ident(t).as_deref() == Some("Vec")).unwrap_or(true);
                if !ok {
                    None
                } else {
                    let ety = target.as_ref().and_then(|t| gen_arg(t, 0)).filter(|t| !crate::show(t).contains('_')).or(ty);
                    self.sink_ty = ety.as_ref().map(|t| parse_quote!(Vec<#t>));
                    match &ety {
                        Some(ty) => pre.push(parse_quote!(let mut #r: Vec<#ty> = Vec::new();)),
                        None => pre.push(parse_quote!(let mut #r = Vec::new();)),
                    }
                    Some((None, vec![parse_quote!(#r.push(#e);)], vec![tail(parse_quote!(#r))]))
                }
            }
            _ => None,
        };
        let (g, body, after) = match res {
            Some(x) => x,
            None => {
                self.bad(format!("iterator sink {}", name));
                (None, vec![], vec![])
            }
        };
        let _ = ity;
        let mut p2 = p;
        // accumulator before the source so that it is in scope of everything
        let mut pre2 = pre;
        pre2.append(&mut p2.pre);
        p2.pre = pre2;
        let out = self.make_loop(p2, lid, g, body, after, &name);
        self.env.truncate(mark);
        Some(block_expr(out))
    }

    // ---------------------------------------------------------------- expressions
    fn expr_hint(&mut self, e: Expr, hint: Option<&Type>) -> Expr {
        if let Expr::MethodCall(m) = strip_paren(&e) {
            let m = m.clone();
            if let Some(x) = self.sink(&m, hint) {
                return x;
            }
        }
        self.expr(e)
    }
    fn boxed(&mut self, e: Box<Expr>) -> Box<Expr> {
        Box::new(self.expr(*e))
    }
    fn min_max(&mut self, min: bool, a: Expr, b: Expr) -> Expr {
        let (ta, tb) = (self.ty(&a), self.ty(&b));
        if is_f64(&ta) || is_f64(&tb) {
            let (a, b) = (self.float(&a), self.float(&b));
            return if min { parse_quote!(vx_fmin(#a, #b)) } else { parse_quote!(vx_fmax(#a, #b)) };
        }
        let a = self.expr(a);
        let b = self.expr(b);
        let x = self.new_name("a");
        let y = self.new_name("b");
        // cmp::min returns its first argument when equal, cmp::max its second
        if min {
            parse_quote!({ let #x = #a; let #y = #b; if #y < #x { #y } else { #x } })
        } else {
            parse_quote!({ let #x = #a; let #y = #b; if #y < #x { #x } else { #y } })
        }
    }
    fn float_ok(e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Field(_) | Expr::Index(_) => true,
            Expr::Path(p) => p.path.segments.len() == 1 || p.path.segments[0].ident == "self",
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)),
            _ => false,
        }
    }
    fn havoc_float(&mut self) -> Expr {
        self.note("a floating point computation is an unconstrained f64");
        parse_quote!(vx_havoc_f64())
    }
    /// a floating point expression, operation by operation, in terms of stubs whose contracts are over the reals
    fn float(&mut self, e: &Expr) -> Expr {
        let e = strip_paren(e);
        let call = |f: &str, v: Vec<Expr>| -> Expr {
            let f = id(f);
            parse_quote!(#f(#(#v),*))
        };
        self.note("floating point operations are taken as operations on real numbers (no rounding, no NaN or infinity)");
        match e {
            Expr::Lit(l) => {
                let d = match &l.lit {
                    Lit::Float(f) => f.base10_digits().to_string(),
                    Lit::Int(i) => i.base10_digits().to_string(),
                    _ => return self.havoc_float(),
                };
                match real_literal(&d) {
                    Some(d) => {
                        let d: Expr = syn::parse_str(&format!("vx_real_{}", d.replace('.', "_p_"))).unwrap();
                        parse_quote!(vx_flit(Ghost(#d)))
                    }
                    None => self.havoc_float(),
                }
            }
            Expr::Path(p) if p.path.segments.len() > 1 => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "E" | "LN_2" | "EPSILON" => call(&format!("vx_fconst_{}", n.to_lowercase()), vec![]),
                    _ => self.havoc_float(),
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                let x = self.float(&u.expr);
                call("vx_fneg", vec![x])
            }
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::Add(_) => "vx_fadd",
                    BinOp::Sub(_) => "vx_fsub",
                    BinOp::Mul(_) => "vx_fmul",
                    BinOp::Div(_) => "vx_fdiv",
                    _ => return self.havoc_float(),
                };
                let x = self.float(&b.left);
                let y = self.float(&b.right);
                call(f, vec![x, y])
            }
            Expr::Cast(c) => {
                let ty = self.ty(&c.expr);
                if is_f64(&ty) {
                    return self.float(&c.expr);
                }
                self.float_of_int((*c.expr).clone(), ty)
            }
            Expr::Call(c) => {
                if self.resolve_call(&c.func).is_some() {
                    return self.call(c.clone());
                }
                let s = crate::show(&c.func).replace(' ', "");
                let n = s.rsplit("::").next().unwrap_or("").to_string();
                if n == "from" && c.args.len() == 1 {
                    let ty = self.ty(&c.args[0]);
                    if is_f64(&ty) {
                        return self.float(&c.args[0].clone());
                    }
                    let ty = ty.or_else(|| t("i32"));
                    return self.float_of_int(c.args[0].clone(), ty);
                }
                if s.starts_with("f64::") && !c.args.is_empty() {
                    let recv = c.args[0].clone();
                    let rest: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                    if let Some(x) = self.float_method(&n, &recv, &rest) {
                        return x;
                    }
                }
                self.havoc_float()
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.sink(m, t("f64").as_ref()) {
                    return x;
                }
                let n = m.method.to_string();
                let own = self
                    .ty(&m.receiver)
                    .and_then(|r| last_ident(&self.w.resolve_alias(r)))
                    .map(|o| self.w.structs.contains_key(&o) && self.w.method(&o, &n).is_some())
                    .unwrap_or(false);
                if own || n == "gen" {
                    return self.method(m.clone());
                }
                let rest: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = (*m.receiver).clone();
                if let Some(x) = self.float_method(&n, &recv, &rest) {
                    return x;
                }
                self.havoc_float()
            }
            Expr::Path(_) => e.clone(),
            Expr::Field(_) | Expr::Index(_) | Expr::Unary(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Return(_) => {
                self.expr(e.clone())
            }
            _ => self.havoc_float(),
        }
    }
    fn float_of_int(&mut self, e: Expr, ty: Option<Type>) -> Expr {
        let tn = ty.as_ref().map(|t| crate::show(strip_ref(t))).unwrap_or_default();
        let r = matches!(ty, Some(Type::Reference(_)));
        let untyped = matches!(strip_paren(&e), Expr::Binary(_) | Expr::Lit(_)) && !crate::show(&e).contains("as");
        // the literal operands of a shift take the type of the context
        let e2 = match strip_paren(&e) {
            Expr::Binary(b) if untyped && matches!(b.op, BinOp::Shl(_)) => match strip_paren(&b.left) {
                Expr::Lit(l) => match &l.lit {
                    Lit::Int(i) if i.suffix().is_empty() => {
                        let l = LitInt::new(&format!("{}{}", i.base10_digits(), if tn.is_empty() { "i32" } else { &tn }), Span::call_site());
                        let r = &b.right;
                        parse_quote!(#l << #r)
                    }
                    _ => e.clone(),
                },
                _ => e.clone(),
            },
            _ => e.clone(),
        };
        let x = self.expr(e2);
        let x: Expr = if r { parse_quote!(*#x) } else { x };
        match tn.as_str() {
            "i8" | "i16" | "i32" | "i64" | "isize" => parse_quote!(vx_fi((#x) as i64)),
            "u8" | "u16" | "u32" | "u64" | "usize" => parse_quote!(vx_fu((#x) as u64)),
            _ => self.havoc_float(),
        }
    }
    fn float_method(&mut self, n: &str, recv: &Expr, args: &[Expr]) -> Option<Expr> {
        let f = match (n, args.len()) {
            ("ln", 0) | ("log2", 0) | ("exp", 0) | ("sqrt", 0) | ("ceil", 0) | ("floor", 0) | ("round", 0) | ("abs", 0) | ("recip", 0) | ("ln_1p", 0) | ("exp_m1", 0) => {
                id(&format!("vx_f{}", n))
            }
            ("powf", 1) | ("log", 1) | ("min", 1) | ("max", 1) => {
                let x = self.float(recv);
                let y = self.float(&args[0]);
                let f = id(&format!("vx_f{}", n));
                return Some(parse_quote!(#f(#x, #y)));
            }
            ("powi", 1) => {
                let x = self.float(recv);
                let y = self.expr(args[0].clone());
                return Some(parse_quote!(vx_fpowi(#x, #y)));
            }
            ("clone", 0) | ("to_owned", 0) => return Some(self.float(recv)),
            _ => return None,
        };
        let x = self.float(recv);
        Some(parse_quote!(#f(#x)))
    }
    fn inline(&mut self, f: &'a FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth >= 4 || f.key == self.fi.key {
            return None;
        }
        let mut h = HasRet(false);
        syn::visit::Visit::visit_block(&mut h, &f.block);
        if h.0 {
            return None;
        }
        if !f.iter_params.is_empty() && args.len() > 0 && f.params.iter().any(|p| f.iter_params.iter().any(|q| crate::show(&p.1) == q.0)) {
            return None;
        }
        if args.len() != f.params.len() {
            return None;
        }
        let has_self = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
        if has_self {
            match &recv {
                Some(r) if is_place(r) => {}
                _ => return None,
            }
        }
        self.fresh += 1;
        let n = self.fresh;
        let mut bound = Bound(vec![]);
        syn::visit::Visit::visit_block(&mut bound, &f.block);
        let mut ren: HashMap<String, Expr> = HashMap::new();
        for b in bound.0.iter().chain(f.params.iter().map(|p| &p.0)) {
            if b == "self" || b.chars().next().map(|c| c.is_uppercase()).unwrap_or(true) {
                continue;
            }
            let i = id(&format!("vx_h{}_{}", n, b));
            ren.insert(b.clone(), parse_quote!(#i));
        }
        let mut st: Vec<Stmt> = vec![];
        let mark = self.env.len();
        let mut clos: Vec<String> = vec![];
        for (a, (pn, pt)) in args.into_iter().zip(&f.params) {
            let nm = format!("vx_h{}_{}", n, pn);
            if let Expr::Closure(c) = strip_paren(&a) {
                self.closures.insert(nm.clone(), c.clone());
                clos.push(nm);
                continue;
            }
            let e = self.expr(a.clone());
            let i = id(&nm);
            let mutp = f.sig.inputs.iter().any(|x| match x {
                FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(q) if q.ident == pn.as_str() && q.mutability.is_some()),
                _ => false,
            });
            let generic = f.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(t) if crate::show(pt).contains(&t.ident.to_string())));
            if mutp {
                st.push(parse_quote!(let mut #i = #e;));
            } else {
                st.push(parse_quote!(let #i = #e;));
            }
            let ty = if generic { self.ty(&a) } else { Some(pt.clone()) };
            let ty = ty.map(|t| self.subst_ty(t, f.impl_ty.as_ref(), None));
            self.env.push((nm, ty));
        }
        if let Some(r) = &recv {
            if has_self {
                ren.insert("self".into(), r.clone());
            }
        }
        if f.module != self.fi.module {
            for (m, c) in &self.w.const_mods {
                if *m == f.module {
                    let (mi, ci) = (id(m), id(c));
                    ren.entry(c.clone()).or_insert_with(|| parse_quote!(crate::#mi::#ci));
                }
            }
        }
        let mut body = f.block.clone();
        let mut s = Subst { ren: &ren, self_ty: f.impl_ty.clone() };
        s.visit_block_mut(&mut body);
        let (so, sm) = (self.cur_owner.clone(), self.cur_module.clone());
        if self.cur_owner != f.owner && !f.owner.is_empty() {
            self.cur_owner = f.owner.clone();
        }
        self.cur_module = f.module.clone();
        self.depth += 1;
        let nl = self.locals.len();
        let b = self.block(body);
        self.locals.truncate(nl);
        self.depth -= 1;
        self.cur_owner = so;
        self.cur_module = sm;
        self.env.truncate(mark);
        for c in clos {
            self.closures.remove(&c);
        }
        self.inlined.push(f.key.clone());
        let unit = f.ret.is_none();
        st.extend(b.stmts);
        if unit {
            match st.pop() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) => st.push(semi(e)),
                Some(x) => st.push(x),
                None => {}
            }
        }
        Some(block_expr(st))
    }
    fn panic_expr(&mut self) -> Expr {
        parse_quote!(vx_panic())
    }
    fn mac(&mut self, m: ExprMacro) -> Expr {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = syn::parse::Parser::parse2(
            punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
            m.mac.tokens.clone(),
        )
        .map(|p| p.into_iter().collect())
        .unwrap_or_default();
        match name.as_str() {
            "assert" if !args.is_empty() => {
                let c = self.expr(args[0].clone());
                parse_quote!(vx_assert(#c))
            }
            "assert_eq" | "assert_ne" if args.len() >= 2 => {
                let (a, b) = (args[0].clone(), args[1].clone());
                let e: Expr = if name == "assert_eq" { parse_quote!(#a == #b) } else { parse_quote!(#a != #b) };
                let c = self.expr(e);
                parse_quote!(vx_assert(#c))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                self.note("debug assertions are dropped");
                parse_quote!(())
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => self.panic_expr(),
            "vec" => {
                let rep: Option<(Expr, Expr)> = syn::parse::Parser::parse2(
                    |i: syn::parse::ParseStream| -> Result<(Expr, Expr)> {
                        let a: Expr = i.parse()?;
                        let _: Token![;] = i.parse()?;
                        let b: Expr = i.parse()?;
                        Ok((a, b))
                    },
                    m.mac.tokens.clone(),
                )
                .ok();
                if let Some((a, b)) = rep {
                    let (a, b) = (self.expr(a), self.expr(b));
                    return parse_quote!(vec![#a; #b]);
                }
                let mut v = vec![];
                for a in args {
                    v.push(self.expr(a));
                }
                parse_quote!(vec![#(#v),*])
            }
            "matches" => {
                self.bad("matches!".into());
                Expr::Macro(m)
            }
            _ => {
                self.bad(format!("macro {}!", name));
                Expr::Macro(m)
            }
        }
    }
    fn ret_stmt(&mut self, e: Option<Box<Expr>>) -> Expr {
        let n = LitInt::new(&self.nret.to_string(), Span::call_site());
        self.nret += 1;
        match e {
            None => parse_quote!({ vx_exit!(#n); return; }),
            Some(e) => {
                let e = self.expr(*e);
                parse_quote!({ let vx_ret = #e; vx_exit!(#n); return vx_ret; })
            }
        }
    }
    fn while_loop(&mut self, cond: Option<Expr>, body: Block, kind: &str) -> Expr {
        let lid = self.new_loop();
        self.loop_kinds[lid] = kind.into();
        let l = LitInt::new(&lid.to_string(), Span::call_site());
        let c = cond.map(|c| self.expr(c));
        let b = self.block(body);
        let mut st: Vec<Stmt> = vec![parse_quote!(vx_loop!(#l);), parse_quote!(vx_loop_begin!(#l);)];
        let mut bs = b.stmts;
        if let Some(Stmt::Expr(e, None)) = bs.last() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_)) {
                let e = e.clone();
                bs.pop();
                bs.push(semi(e));
            }
        }
        let diverges = matches!(bs.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _)));
        st.extend(bs);
        if !diverges {
            st.push(parse_quote!(vx_loop_end!(#l);));
        }
        let blk = block_of(st);
        let lp: Expr = match c {
            Some(c) => parse_quote!(while #c #blk),
            None => parse_quote!(loop #blk),
        };
        // the markers after a loop that only ends by `return` would be unreachable code, which is fine
        parse_quote!({ vx_before!(#l); #lp vx_after!(#l); })
    }
    fn branch(&mut self, mut b: Block, which: &str, n: usize) -> Block {
        let i = id(which);
        let l = LitInt::new(&n.to_string(), Span::call_site());
        b.stmts.insert(0, parse_quote!(vx_br!(#i, #l);));
        b
    }
    fn opt_closure(&mut self, arg: &Expr) -> Option<ExprClosure> {
        match strip_paren(arg) {
            Expr::Closure(c) => Some(c.clone()),
            _ => None,
        }
    }

    fn expr(&mut self, e: Expr) -> Expr {
        let ty = self.ty(&e);
        // a call of a function of the crate is kept, so that its contract (or its inlined body) is not lost
        let own_call = match &e {
            Expr::Call(c) => self.resolve_call(&c.func).is_some(),
            Expr::MethodCall(m) => {
                let r = self.ty(&m.receiver).and_then(|r| last_ident(&self.w.resolve_alias(r)));
                r.map(|o| self.w.structs.contains_key(&o) && self.w.method(&o, &m.method.to_string()).is_some()).unwrap_or(false)
            }
            _ => false,
        };
        if is_f64(&ty) && !own_call && !Self::float_ok(&e) && !matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Return(_) | Expr::Macro(_)) {
            return self.float(&e);
        }
        match e {
            Expr::Paren(p) => {
                let x = self.expr(*p.expr);
                parse_quote!((#x))
            }
            Expr::Group(p) => self.expr(*p.expr),
            Expr::Lit(_) => e,
            Expr::Path(p) => Expr::Path(p),
            Expr::Field(mut f) => {
                f.base = self.boxed(f.base);
                Expr::Field(f)
            }
            Expr::Macro(m) => self.mac(m),
            Expr::Return(r) => self.ret_stmt(r.expr),
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    self.bad("break with a label or value".into());
                }
                Expr::Break(b)
            }
            Expr::Continue(b) => {
                if b.label.is_some() {
                    self.bad("labelled continue".into());
                }
                Expr::Continue(b)
            }
            Expr::Block(mut b) => {
                if b.label.is_some() {
                    self.bad("labelled block".into());
                }
                b.block = self.block(b.block);
                Expr::Block(b)
            }
            Expr::Unsafe(_) => {
                self.bad("unsafe block".into());
                e
            }
            Expr::Tuple(mut tt) => {
                for x in tt.elems.iter_mut() {
                    *x = self.expr(x.clone());
                }
                Expr::Tuple(tt)
            }
            Expr::Array(mut a) => {
                for x in a.elems.iter_mut() {
                    *x = self.expr(x.clone());
                }
                Expr::Array(a)
            }
            Expr::Repeat(mut r) => {
                r.expr = self.boxed(r.expr);
                Expr::Repeat(r)
            }
            Expr::Struct(mut s) => {
                for f in s.fields.iter_mut() {
                    f.expr = self.expr(f.expr.clone());
                    f.colon_token = Some(Default::default());
                }
                if s.rest.is_some() {
                    self.bad("struct update".into());
                }
                Expr::Struct(s)
            }
            Expr::Reference(mut r) => {
                // `&CONST` of a static
                if let Some(n) = simple_path(&r.expr) {
                    if self.w.statics.contains_key(&n) {
                        let v = self.w.statics[&n].clone();
                        r.expr = Box::new(v);
                        return Expr::Reference(r);
                    }
                }
                r.expr = self.boxed(r.expr);
                Expr::Reference(r)
            }
            Expr::Cast(c) => {
                let it = self.ty(&c.expr);
                let target = crate::show(&c.ty).replace(' ', "");
                if is_f64(&it) {
                    if target == "f64" {
                        return self.float(&c.expr);
                    }
                    let x = self.float(&c.expr);
                    self.note("an integer computed in floating point is assumed to be small (at most 2^31, bit counts 40, counts 2^62)");
                    let f = id(&format!("vx_f64_to_{}", target));
                    return parse_quote!(#f(#x));
                }
                let mut c = c;
                c.expr = self.boxed(c.expr);
                if it.as_ref().map(|t| crate::show(t) == "bool").unwrap_or(false) {
                    let (x, ty) = (&c.expr, &c.ty);
                    return parse_quote!((if #x { 1 as #ty } else { 0 as #ty }));
                }
                let x = &c.expr;
                let ty = &c.ty;
                parse_quote!((#x as #ty))
            }
            Expr::Unary(mut u) => {
                u.expr = self.boxed(u.expr);
                Expr::Unary(u)
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Assign(mut a) => {
                a.right = self.boxed(a.right);
                a.left = self.boxed(a.left);
                Expr::Assign(a)
            }
            Expr::If(mut i) => {
                let n = self.nif;
                self.nif += 1;
                if let Expr::Let(l) = &*i.cond {
                    let mut l = l.clone();
                    let ty = self.ty(&l.expr);
                    l.expr = self.boxed(l.expr);
                    let mark = self.env.len();
                    self.pat_bind(&l.pat, ty);
                    let tb = self.block(i.then_branch);
                    i.then_branch = self.branch(tb, "then", n);
                    self.env.truncate(mark);
                    i.cond = Box::new(Expr::Let(l));
                } else {
                    let c = self.expr((*i.cond).clone());
                    // keep struct literals and blocks in conditions parseable
                    i.cond = Box::new(match &c {
                        Expr::Block(_) => parse_quote!((#c)),
                        c => c.clone(),
                    });
                    let tb = self.block(i.then_branch);
                    i.then_branch = self.branch(tb, "then", n);
                }
                if let Some((tok, eb)) = i.else_branch {
                    let eb2 = match *eb {
                        Expr::Block(b) => {
                            let bb = self.block(b.block);
                            let bb = self.branch(bb, "els", n);
                            Expr::Block(ExprBlock { attrs: vec![], label: None, block: bb })
                        }
                        x => self.expr(x),
                    };
                    i.else_branch = Some((tok, Box::new(eb2)));
                }
                Expr::If(i)
            }
            Expr::Match(mut m) => {
                let ty = self.ty(&m.expr);
                m.expr = self.boxed(m.expr);
                for a in m.arms.iter_mut() {
                    let mark = self.env.len();
                    self.pat_bind(&a.pat, ty.clone());
                    if let Some((_, g)) = &mut a.guard {
                        **g = self.expr((**g).clone());
                    }
                    a.body = self.boxed(a.body.clone());
                    a.comma = Some(Default::default());
                    self.env.truncate(mark);
                }
                Expr::Match(m)
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    let lp: Expr = parse_quote!(loop { match #x { #p => #b, _ => { break; } } });
                    return self.expr(lp);
                }
                self.while_loop(Some((*w.cond).clone()), w.body, "while")
            }
            Expr::Loop(l) => {
                if l.label.is_some() {
                    self.bad("labelled loop".into());
                }
                self.while_loop(None, l.body, "loop")
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.bad("labelled loop".into());
                }
                let src = (*f.expr).clone();
                let src2: Expr = if self.is_iter(&src) {
                    src
                } else {
                    // `for x in v` consumes a vector
                    match self.ty(&src) {
                        Some(Type::Reference(_)) => parse_quote!((#src).iter()),
                        Some(t) if elem_type(&t).is_some() => parse_quote!(#src.into_iter()),
                        _ => {
                            self.bad(format!("for over {}", crate::show(&src)));
                            return Expr::ForLoop(f);
                        }
                    }
                };
                let src2 = match &src2 {
                    Expr::MethodCall(m) => match strip_paren(&m.receiver) {
                        _ => src2.clone(),
                    },
                    x => x.clone(),
                };
                let mark = self.env.len();
                let lid = self.new_loop();
                let p = self.pipe(&src2, lid, "");
                let mut body = vec![];
                self.destructure(&f.pat, p.item.clone(), &mut body);
                let b = self.block(f.body);
                let mut bs = b.stmts;
                if let Some(Stmt::Expr(e, None)) = bs.last() {
                    if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_)) {
                        let e = e.clone();
                        bs.pop();
                        bs.push(semi(e));
                    }
                }
                body.extend(bs);
                let out = self.make_loop(p, lid, None, body, vec![], "for");
                self.env.truncate(mark);
                block_expr(out)
            }
            Expr::Index(mut i) => {
                let bt = self.ty(&i.expr);
                let custom = bt.as_ref().and_then(last_ident).map(|n| self.w.index_impls.contains(&n)).unwrap_or(false);
                if custom {
                    let n = bt.as_ref().and_then(last_ident).unwrap();
                    if let Some(f) = self.w.method(&n, "index") {
                        self.calls.insert(f.key.clone());
                    }
                    let (x, k) = (self.expr(*i.expr), self.expr(*i.index));
                    return parse_quote!((*#x.index(#k)));
                }
                if matches!(strip_paren(&i.index), Expr::Range(_)) {
                    self.bad("slice of a range".into());
                }
                i.expr = self.boxed(i.expr);
                i.index = self.boxed(i.index);
                Expr::Index(i)
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Range(mut r) => {
                if let Some(s) = r.start {
                    r.start = Some(self.boxed(s));
                }
                if let Some(s) = r.end {
                    r.end = Some(self.boxed(s));
                }
                let (s, x) = (&r.start, &r.end);
                if let (Some(s), Some(x), RangeLimits::HalfOpen(_)) = (s, x, &r.limits) {
                    return parse_quote!(core::ops::Range { start: #s, end: #x });
                }
                Expr::Range(r)
            }
            Expr::Closure(_) => {
                self.bad("closure".into());
                e
            }
            Expr::Try(_) => {
                self.bad("?".into());
                e
            }
            other => {
                self.bad(format!("expression {}", crate::show(&other)));
                other
            }
        }
    }
    fn pat_bind(&mut self, p: &Pat, ty: Option<Type>) {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
                    self.bind(&n, ty)
                }
            }
            Pat::TupleStruct(ts) => {
                let inner = ty.and_then(|t| gen_arg(&t, 0));
                for q in &ts.elems {
                    self.pat_bind(q, inner.clone());
                }
            }
            Pat::Tuple(tp) => {
                let tys: Vec<Option<Type>> = match ty.as_ref().map(|t| strip_ref(t).clone()) {
                    Some(Type::Tuple(tt)) => tt.elems.iter().map(|x| Some(x.clone())).collect(),
                    _ => vec![],
                };
                for (i, q) in tp.elems.iter().enumerate() {
                    self.pat_bind(q, tys.get(i).cloned().flatten());
                }
            }
            Pat::Reference(r) => self.pat_bind(&r.pat, ty.map(|t| strip_ref(&t).clone())),
            _ => {}
        }
    }
    /// equality of values which are not primitive
    fn eq_of(&mut self, t: &Type, x: &Expr, y: &Expr) -> Option<Expr> {
        let n = last_ident(t).unwrap_or_default();
        let generic = n.len() == 1 && n.chars().all(|c| c.is_uppercase());
        if n == "PhantomData" {
            return Some(parse_quote!(true));
        }
        if generic {
            let g = format!(" {} {} ", self.fi.impl_generics, crate::show(&self.fi.sig.generics));
            if !g.split(|c: char| !c.is_alphanumeric()).any(|p| p == n) {
                // a type parameter left out: its default
                let d = self.w.structs.get(&self.fi.owner).and_then(|s| s.defaults.iter().find(|d| d.0 == n)).map(|d| d.1.clone());
                if let Some(d) = d {
                    return self.eq_of(&d, x, y);
                }
            }
            let (x, y) = (self.expr(x.clone()), self.expr(y.clone()));
            return Some(parse_quote!(vx_generic_eq(&#x, &#y)));
        }
        if self.w.fns.values().any(|f| f.owner == n && f.name == "eq") {
            return Some(self.expr(parse_quote!((#x).eq(&(#y)))));
        }
        if n == "Vec" {
            let (x, y) = (self.expr(x.clone()), self.expr(y.clone()));
            return Some(parse_quote!(vx_vec_eq(&#x, &#y)));
        }
        if let Type::Array(a) = t {
            if let Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) = &a.len {
                let el = (*a.elem).clone();
                let mut parts: Vec<Expr> = vec![];
                for i in 0..k.base10_parse::<usize>().ok()? {
                    let (p, q): (Expr, Expr) = (parse_quote!((#x)[#i]), parse_quote!((#y)[#i]));
                    match self.eq_of(&el, &p, &q) {
                        Some(e) => parts.push(e),
                        None => {
                            let (p, q) = (self.expr(p), self.expr(q));
                            parts.push(parse_quote!(#p == #q))
                        }
                    }
                }
                return parts.into_iter().reduce(|a, b| parse_quote!(#a && #b));
            }
        }
        None
    }
    fn binary(&mut self, b: ExprBinary) -> Expr {
        let eq = matches!(b.op, BinOp::Eq(_));
        let cmp = matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_));
        let (lt, rt) = (self.ty(&b.left), self.ty(&b.right));
        if cmp && (is_f64(&lt) || is_f64(&rt)) {
            let f = id(match b.op {
                BinOp::Lt(_) => "vx_flt",
                BinOp::Le(_) => "vx_fle",
                BinOp::Gt(_) => "vx_fgt",
                BinOp::Ge(_) => "vx_fge",
                BinOp::Eq(_) => "vx_feq",
                _ => "vx_fne",
            });
            let (x, y) = (self.float(&b.left), self.float(&b.right));
            return parse_quote!(#f(#x, #y));
        }
        if is_f64(&lt) {
            let f = match b.op {
                BinOp::AddAssign(_) => "vx_fadd",
                BinOp::SubAssign(_) => "vx_fsub",
                BinOp::MulAssign(_) => "vx_fmul",
                BinOp::DivAssign(_) => "vx_fdiv",
                _ => "",
            };
            if !f.is_empty() {
                let f = id(f);
                let y = self.float(&b.right);
                let x = self.expr(*b.left);
                return parse_quote!(#x = #f(#x, #y));
            }
        }
        if eq || matches!(b.op, BinOp::Ne(_)) {
            // component-wise comparison of tuples
            let l = strip_paren(&b.left).clone();
            let r = strip_paren(&b.right).clone();
            let lit = match (&l, &r) {
                (Expr::Tuple(x), _) => Some((x.clone(), r.clone())),
                (_, Expr::Tuple(x)) => Some((x.clone(), l.clone())),
                _ => None,
            };
            if let Some((tp, other)) = lit {
                let mut parts: Vec<Expr> = vec![];
                for (i, x) in tp.elems.iter().enumerate() {
                    let ix = Index::from(i);
                    let o: Expr = match &other {
                        Expr::Tuple(y) => y.elems[i].clone(),
                        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                            let q = &u.expr;
                            parse_quote!(#q.#ix)
                        }
                        q => parse_quote!(#q.#ix),
                    };
                    let x = self.expr(x.clone());
                    let o = self.expr(o);
                    parts.push(parse_quote!(#o == #x));
                }
                let c = parts.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                return if eq { parse_quote!((#c)) } else { parse_quote!(!(#c)) };
            }
            // references compare by value
            let lref = matches!(lt, Some(Type::Reference(_)));
            let rref = matches!(rt, Some(Type::Reference(_)));
            if lref && rref {
                let (x, y) = (self.expr(*b.left), self.expr(*b.right));
                return if eq { parse_quote!(*#x == *#y) } else { parse_quote!(*#x != *#y) };
            }
        }
        if eq || matches!(b.op, BinOp::Ne(_)) {
            if let (Some(a), Some(_)) = (&lt, &rt) {
                if let Some(e) = self.eq_of(strip_ref(a), &b.left, &b.right) {
                    return if eq { parse_quote!((#e)) } else { parse_quote!(!(#e)) };
                }
            }
        }
        let mut b = b;
        b.left = self.boxed(b.left);
        b.right = self.boxed(b.right);
        // arithmetic on references to integers (std has impls by reference, the verifier does not)
        let intref = |x: &Option<Type>| match x {
            Some(Type::Reference(r)) => matches!(last_ident(&r.elem).as_deref(), Some("u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "bool")),
            _ => false,
        };
        let (li, ri) = (intref(&lt), intref(&rt));
        if li && !(cmp && ri) {
            let x = &b.left;
            b.left = Box::new(parse_quote!((*#x)));
        }
        if ri && !(cmp && li) {
            let x = &b.right;
            b.right = Box::new(parse_quote!((*#x)));
        }
        Expr::Binary(b)
    }
    fn call(&mut self, c: ExprCall) -> Expr {
        let whole = Expr::Call(c.clone());
        if let Some(x) = const_call(&whole) {
            return x;
        }
        // closure parameter of an inlined function
        if let Some(n) = simple_path(&c.func) {
            if let Some(cl) = self.closures.get(&n).cloned() {
                let mark = self.env.len();
                let mut its = vec![];
                for a in &c.args {
                    let ty = self.ty(a);
                    let e = self.expr(a.clone());
                    its.push(It::E(e, ty));
                }
                let (st, e, _) = self.closure_body(&cl, its);
                let mut st = st;
                st.push(tail(e));
                self.env.truncate(mark);
                return block_expr(st);
            }
        }
        let s = crate::show(&c.func).replace(' ', "");
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        if args.len() == 2 {
            let last = s.rsplit("::").next().unwrap_or("").to_string();
            let q = s.trim_start_matches("std::").to_string();
            if q == "cmp::min" || q == "cmp::max" || ["u8", "u32", "u64", "usize", "i64"].iter().any(|t| q == format!("{}::min", t) || q == format!("{}::max", t)) {
                return self.min_max(last == "min", args[0].clone(), args[1].clone());
            }
        }
        for i in ["u8", "u16", "u32", "u64", "usize", "i64", "i32"] {
            if s == format!("{}::from", i) && args.len() == 1 {
                let at = self.ty(&args[0]);
                let x = self.expr(args[0].clone());
                let ti = id(i);
                let isref = matches!(at, Some(Type::Reference(_)));
                if at.as_ref().map(|t| crate::show(strip_ref(t)) == "bool").unwrap_or(false) {
                    let x: Expr = if isref { parse_quote!(*#x) } else { x };
                    return parse_quote!((if #x { 1 as #ti } else { 0 as #ti }));
                }
                return parse_quote!((#x as #ti));
            }
        }
        if s == "HashSet::new" {
            self.note("std HashSet is the trusted VxHashSet");
            return parse_quote!(VxHashSet::new());
        }
        if s.starts_with("HashSet::") && s.ends_with("::from_iter") || s == "HashSet::from_iter" {
            if let Some(x) = self.set_of(&args[0]) {
                return x;
            }
        }
        if s == "Vec::from_iter" {
            if let Expr::MethodCall(m) = strip_paren(&args[0]) {
                if m.method == "into_iter" {
                    let x = self.expr((*m.receiver).clone());
                    return parse_quote!(#x.into_vec());
                }
            }
            self.bad("Vec::from_iter".into());
        }
        if let Some(f) = self.resolve_call(&c.func) {
            self.calls.insert(f.key.clone());
            if !self.contracts.contains(&f.key) {
                let isself = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                if isself && !args.is_empty() {
                    let r = match strip_paren(&args[0]) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    if let Some(x) = self.inline(f, Some(r), args[1..].to_vec()) {
                        return x;
                    }
                } else if let Some(x) = self.inline(f, None, args.clone()) {
                    return x;
                }
            }
        }
        let mut c = c;
        for a in c.args.iter_mut() {
            *a = self.expr(a.clone());
        }
        // `util::f` is emitted under its own name
        if let Expr::Path(p) = &mut *c.func {
            let n = p.path.segments.len();
            if n > 1 && ["util", "self", "super", "crate"].contains(&p.path.segments[n - 2].ident.to_string().as_str()) {
                let l = p.path.segments.last().unwrap().clone();
                p.path = Path { leading_colon: None, segments: std::iter::once(l).collect() };
            }
        }
        Expr::Call(c)
    }
    /// A std HashSet built from an iterator: the set of the values of a finite sequence.
    fn set_of(&mut self, it: &Expr) -> Option<Expr> {
        let it = match strip_paren(it) {
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && self.custom_iter(&m.receiver).is_some() => &m.receiver,
            x => x,
        };
        if last_ident(&self.ty(it)?)? != "VxIter" {
            return None;
        }
        self.note("std HashSet is the trusted VxHashSet");
        let x = self.expr(it.clone());
        Some(parse_quote!(VxHashSet::vx_from_iter(#x)))
    }
    fn method(&mut self, m: ExprMethodCall) -> Expr {
        let name = m.method.to_string();
        if name == "count" && m.args.is_empty() {
            if let Expr::MethodCall(q) = strip_paren(&m.receiver) {
                let op = q.method.to_string();
                let isset = self.ty(&q.receiver).and_then(|t| last_ident(&t)).map(|n| n == "HashSet").unwrap_or(false);
                if isset && q.args.len() == 1 && ["intersection", "union", "difference", "symmetric_difference"].contains(&op.as_str()) {
                    self.note("std HashSet is the trusted VxHashSet");
                    let f = id(&format!("vx_{}_count", op));
                    let (a, b) = (self.expr((*q.receiver).clone()), self.expr(q.args[0].clone()));
                    return parse_quote!(#a.#f(#b));
                }
            }
        }
        if let Some(x) = self.sink(&m, None) {
            return x;
        }
        let rt = self.ty(&m.receiver).map(|t| self.w.resolve_alias(t));
        let rn = rt.as_ref().and_then(last_ident).unwrap_or_default();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let vecty = rt.as_ref().and_then(elem_type);
        // (a..=b).contains(&x)
        if name == "contains" && args.len() == 1 {
            if let Expr::Range(r) = strip_paren(&m.receiver) {
                let x = match strip_paren(&args[0]) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => parse_quote!(*#x),
                };
                let x = self.expr(x);
                let mut cs: Vec<Expr> = vec![];
                if let Some(s) = &r.start {
                    let s = self.expr((**s).clone());
                    cs.push(parse_quote!(#s <= #x));
                }
                if let Some(h) = &r.end {
                    let h = self.expr((**h).clone());
                    cs.push(match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!(#x < #h),
                        RangeLimits::Closed(_) => parse_quote!(#x <= #h),
                    });
                }
                let c = cs.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap_or_else(|| parse_quote!(true));
                return parse_quote!((#c));
            }
            if vecty.is_some() {
                // slice::contains is `any` with equality
                let r = &m.receiver;
                let x = match strip_paren(&args[0]) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => parse_quote!(*#x),
                };
                let e: Expr = parse_quote!(#r.iter().any(|vx_el| *vx_el == #x));
                return self.expr(e);
            }
        }
        if name == "extend" && args.len() == 1 && vecty.is_some() {
            let lid = self.new_loop();
            let mark = self.env.len();
            if self.is_iter(&args[0]) {
                let p = self.pipe(&args[0], lid, "");
                let (e, _) = self.it_expr(p.item.clone());
                let r = self.expr((*m.receiver).clone());
                let out = self.make_loop(p, lid, None, vec![parse_quote!(#r.push(#e);)], vec![], "extend");
                self.env.truncate(mark);
                return block_expr(out);
            }
            self.bad("extend".into());
        }
        if name == "to_vec" {
            if let Expr::Index(ix) = strip_paren(&m.receiver) {
                if let Expr::Range(r) = strip_paren(&ix.index) {
                    let b = self.expr((*ix.expr).clone());
                    let lo: Expr = match &r.start {
                        Some(s) => self.expr((**s).clone()),
                        None => parse_quote!(0),
                    };
                    let hi: Expr = match &r.end {
                        Some(s) => {
                            let h = self.expr((**s).clone());
                            match r.limits {
                                RangeLimits::HalfOpen(_) => h,
                                RangeLimits::Closed(_) => parse_quote!((#h) + 1),
                            }
                        }
                        None => parse_quote!(#b.len()),
                    };
                    return parse_quote!(vx_subvec(&#b, #lo, #hi));
                }
            }
            if vecty.is_some() {
                let r = self.expr((*m.receiver).clone());
                return parse_quote!(vx_to_vec(#r));
            }
        }
        if (name == "min" || name == "max") && args.len() == 1 {
            return self.min_max(name == "min", (*m.receiver).clone(), args[0].clone());
        }
        // Option combinators with closures
        if rn == "Option" || matches!(name.as_str(), "map_or" | "and_then" | "unwrap_or_else" | "is_some_and" | "map_or_else") {
            let at = rt.as_ref().and_then(|t| gen_arg(t, 0));
            match (name.as_str(), args.len()) {
                ("map", 1) | ("and_then", 1) | ("is_some_and", 1) => {
                    if let Some(c) = self.opt_closure(&args[0]) {
                        let r = self.expr((*m.receiver).clone());
                        let mark = self.env.len();
                        let v = self.new_name("o");
                        let (st, e, _) = self.closure_body(&c, vec![It::E(parse_quote!(#v), at)]);
                        self.env.truncate(mark);
                        return match name.as_str() {
                            "map" => parse_quote!(match #r { Some(#v) => { #(#st)* Some(#e) }, None => None, }),
                            "and_then" => parse_quote!(match #r { Some(#v) => { #(#st)* #e }, None => None, }),
                            _ => parse_quote!(match #r { Some(#v) => { #(#st)* #e }, None => false, }),
                        };
                    }
                }
                ("map_or", 2) => {
                    if let Some(c) = self.opt_closure(&args[1]) {
                        let r = self.expr((*m.receiver).clone());
                        let d = self.expr(args[0].clone());
                        let mark = self.env.len();
                        let v = self.new_name("o");
                        let (st, e, _) = self.closure_body(&c, vec![It::E(parse_quote!(#v), at)]);
                        self.env.truncate(mark);
                        return parse_quote!(match #r { Some(#v) => { #(#st)* #e }, None => #d, });
                    }
                }
                ("unwrap_or", 1) => {
                    let r = self.expr((*m.receiver).clone());
                    let d = self.expr(args[0].clone());
                    let v = self.new_name("o");
                    return parse_quote!(match #r { Some(#v) => #v, None => #d, });
                }
                ("unwrap_or_else", 1) => {
                    if let Some(c) = self.opt_closure(&args[0]) {
                        let r = self.expr((*m.receiver).clone());
                        let (_, e, _) = self.closure_body(&c, vec![]);
                        let v = self.new_name("o");
                        return parse_quote!(match #r { Some(#v) => #v, None => #e, });
                    }
                }
                ("cloned", 0) | ("copied", 0) => {
                    let r = self.expr((*m.receiver).clone());
                    let v = self.new_name("o");
                    return parse_quote!(match #r { Some(#v) => Some(*#v), None => None, });
                }
                _ => {}
            }
        }
        // the hashing traits: calls on a type parameter
        if !self.w.structs.contains_key(&rn) {
            let isref = matches!(rt, Some(Type::Reference(_)));
            let f = match (name.as_str(), args.len()) {
                ("build_hasher", 0) => Some("vx_build_hasher"),
                ("finish", 0) => Some("vx_finish"),
                ("hash", 1) if matches!(strip_paren(&args[0]), Expr::Reference(r) if r.mutability.is_some()) => Some("vx_hash_item"),
                _ => None,
            };
            if let Some(f) = f {
                let f = id(f);
                let r = self.expr((*m.receiver).clone());
                let r: Expr = if isref { r } else { parse_quote!(&#r) };
                let a: Vec<Expr> = args.iter().map(|x| self.expr(x.clone())).collect();
                self.note("the methods of Hash, BuildHasher and Hasher are trusted to be functions of their arguments");
                return parse_quote!(#f(#r #(, #a)*));
            }
        }
        // stubs for library functions that the verifier's library does not specify
        let stub = match (name.as_str(), args.len()) {
            ("next", 0) if rn == "Range" => Some(("vx_range_next", 2)),
            ("capacity", 0) if vecty.is_some() => Some(("vx_capacity", 1)),
            ("reserve", 1) | ("reserve_exact", 1) if vecty.is_some() => Some(("vx_reserve", 2)),
            ("clone_from", 1) if vecty.is_some() => Some(("vx_clone_from", 2)),
            ("next_power_of_two", 0) => Some(("vx_next_power_of_two", 0)),
            ("rotate_left", 1) => Some(("vx_rotate_left", 0)),
            ("count_ones", 0) if rn == "u8" => Some(("vx_count_ones_u8", 0)),
            ("sort", 0) | ("sort_unstable", 0) if vecty.is_some() => Some(("vx_sort", 2)),
            ("clone", 0) if self.w.structs.contains_key(&rn) && self.w.method(&rn, "clone").is_none() => Some(("vx_clone", 1)),
            _ => None,
        };
        if let Some((f, mode)) = stub {
            let isref = matches!(rt, Some(Type::Reference(_)));
            let r = self.expr((*m.receiver).clone());
            let mut f = f.to_string();
            if f == "vx_sort" {
                f = format!("vx_sort_{}", crate::show(&vecty.unwrap()).replace(' ', "").replace("(u64,usize)", "u64_usize").replace(',', "_"));
            }
            let f = id(&f);
            let mut a: Vec<Expr> = vec![];
            for x in args {
                a.push(self.expr(x));
            }
            self.note(&format!("{} is a trusted stub of the standard library function {}", f, name));
            return match mode {
                0 => {
                    let r: Expr = if isref { parse_quote!(*#r) } else { r };
                    parse_quote!(#f(#r #(, #a)*))
                }
                1 => parse_quote!(#f(&#r #(, #a)*)),
                _ => parse_quote!(#f(&mut #r #(, #a)*)),
            };
        }
        if name == "gen" {
            let ty = m.turbofish.as_ref().map(|t| crate::show(&t.args)).unwrap_or_default();
            let f = id(&format!("vx_gen_{}", ty));
            let r = self.expr((*m.receiver).clone());
            self.note("the random number generator is a trusted stub");
            return parse_quote!(#r.#f());
        }
        // own methods
        if self.w.structs.contains_key(&rn) {
            if let Some(f) = self.w.method(&rn, &name) {
                self.calls.insert(f.key.clone());
                if !self.contracts.contains(&f.key) {
                    let r = (*m.receiver).clone();
                    if let Some(x) = self.inline(f, Some(r), args.clone()) {
                        return x;
                    }
                }
            }
        }
        let mut m = m;
        m.receiver = self.boxed(m.receiver);
        for a in m.args.iter_mut() {
            *a = self.expr(a.clone());
        }
        if matches!(*m.receiver, Expr::Cast(_)) {
            let r = &m.receiver;
            m.receiver = parse_quote!((#r));
        }
        Expr::MethodCall(m)
    }
}
/// a decimal literal of the verifier's real type: digits, a point, digits
fn real_literal(d: &str) -> Option<String> {
    let d = d.to_lowercase().replace('_', "");
    let (m, e) = match d.split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (d, 0),
    };
    let (a, b) = match m.split_once('.') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (m, String::new()),
    };
    if e.abs() > 60 || !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut digits = format!("{}{}", a, b);
    let mut point = a.len() as i32 + e;
    while point < 1 {
        digits.insert(0, '0');
        point += 1;
    }
    while (digits.len() as i32) < point + 1 {
        digits.push('0');
    }
    let (x, y) = digits.split_at(point as usize);
    Some(format!("{}.{}", x, y))
}
