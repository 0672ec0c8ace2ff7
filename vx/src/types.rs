use std::collections::{BTreeMap, HashMap, HashSet};
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub owner: String,
    pub trait_: Option<String>,
    pub name: String,
    pub self_ty: String,
    pub impl_ty: Option<Type>,
    pub impl_generics: String,
    pub impl_where: String,
    pub sig: Signature,
    pub block: Block,
    pub params: Vec<(String, Type)>,
    pub ret: Option<Type>,
    pub assoc_item: Option<Type>,
    /// generic parameters bounded by Iterator<Item = X>, with X
    pub iter_params: Vec<(String, Type)>,
}
pub struct StructInfo {
    /// defaults of the type parameters
    pub defaults: Vec<(String, Type)>,
    pub fields: Vec<(String, Type)>,
}
#[derive(Default)]
pub struct World {
    pub structs: HashMap<String, StructInfo>,
    pub fns: BTreeMap<String, FnInfo>,
    pub iters: HashMap<String, Type>,
    pub index_impls: HashSet<String>,
    pub aliases: HashMap<String, Type>,
    pub const_mods: HashSet<(String, String)>,
    pub consts: HashMap<String, Type>,
    pub statics: HashMap<String, Expr>,
}

pub fn strip_ref(t: &Type) -> &Type {
    match t {
        Type::Reference(r) => strip_ref(&r.elem),
        Type::Paren(p) => strip_ref(&p.elem),
        Type::Group(p) => strip_ref(&p.elem),
        t => t,
    }
}
pub fn last_ident(t: &Type) -> Option<String> {
    match strip_ref(t) {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
pub fn gen_arg(t: &Type, i: usize) -> Option<Type> {
    if let Type::Path(p) = strip_ref(t) {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            return a
                .args
                .iter()
                .filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                .nth(i);
        }
    }
    None
}
pub fn elem_type(t: &Type) -> Option<Type> {
    match strip_ref(t) {
        Type::Array(a) => Some((*a.elem).clone()),
        Type::Slice(a) => Some((*a.elem).clone()),
        t if last_ident(t).as_deref() == Some("Vec") => gen_arg(t, 0),
        _ => None,
    }
}
/// Generics without defaults and the where clause, with bounds on Iterator dropped and reported.
pub fn split_generics(g: &Generics) -> (String, String, Vec<(String, Type)>) {
    let mut g = g.clone();
    let mut its = vec![];
    let is_iter = |b: &TypeParamBound| -> Option<Type> {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last()?;
            if s.ident == "Iterator" || s.ident == "IntoIterator" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        if let GenericArgument::AssocType(at) = x {
                            return Some(at.ty.clone());
                        }
                    }
                }
            }
        }
        None
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.default = None;
            t.eq_token = None;
            let bs: Vec<TypeParamBound> = t.bounds.iter().cloned().collect();
            t.bounds = bs
                .into_iter()
                .filter(|b| match is_iter(b) {
                    Some(x) => {
                        its.push((t.ident.to_string(), x));
                        false
                    }
                    None => true,
                })
                .collect();
        }
    }
    if let Some(w) = &mut g.where_clause {
        let ps: Vec<WherePredicate> = w.predicates.iter().cloned().collect();
        w.predicates = ps
            .into_iter()
            .filter_map(|mut p| {
                if let WherePredicate::Type(t) = &mut p {
                    let n = last_ident(&t.bounded_ty).unwrap_or_default();
                    let bs: Vec<TypeParamBound> = t.bounds.iter().cloned().collect();
                    t.bounds = bs
                        .into_iter()
                        .filter(|b| {
                            if crate::show(b).ends_with("Debug") {
                                return false;
                            }
                            match is_iter(b) {
                                Some(x) => {
                                    its.push((n.clone(), x));
                                    false
                                }
                                None => true,
                            }
                        })
                        .collect();
                    if t.bounds.is_empty() {
                        return None;
                    }
                }
                Some(p)
            })
            .collect();
    }
    let ps = &g.params;
    let gs = if ps.is_empty() { String::new() } else { format!("<{}>", crate::pretty(&quote::quote!(#ps))) };
    let ws = match &g.where_clause {
        Some(w) if !w.predicates.is_empty() => crate::pretty(&w),
        _ => String::new(),
    };
    (gs, ws, its)
}

impl World {
    pub fn field_type(&self, t: &Type, f: &str) -> Option<Type> {
        let n = last_ident(t)?;
        let s = self.structs.get(&n)?;
        s.fields.iter().find(|x| x.0 == f).map(|x| x.1.clone())
    }
    pub fn method(&self, owner: &str, name: &str) -> Option<&FnInfo> {
        self.fns.values().find(|f| f.owner == owner && f.name == name)
    }
    pub fn free(&self, module: &str, name: &str) -> Option<&FnInfo> {
        self.fns
            .values()
            .find(|f| f.owner.is_empty() && f.name == name && f.module == module)
            .or_else(|| self.fns.values().find(|f| f.owner.is_empty() && f.name == name))
    }
    pub fn resolve_alias(&self, t: Type) -> Type {
        match last_ident(&t) {
            Some(n) if self.aliases.contains_key(&n) => self.aliases[&n].clone(),
            _ => t,
        }
    }
}
