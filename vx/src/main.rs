//! Mechanical extraction of the functions of /repo into the subset of Rust that Verus accepts.
//! Usage: vx <repo/src> <file listing the functions under contract> -> JSON on stdout.
mod lower;
mod types;

use quote::ToTokens;
use std::collections::{BTreeSet, HashSet};
use std::path::Path;
use syn::*;
use types::*;

pub fn show(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

/// Prints tokens with one statement per line, so that verifier spans point at statements.
pub fn pretty(t: &impl ToTokens) -> String {
    fn go(ts: proc_macro2::TokenStream, ind: usize, out: &mut String) {
        use proc_macro2::{Delimiter, TokenTree};
        let mut prev_joint = false;
        for tt in ts {
            match tt {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        out.push_str("{\n");
                        out.push_str(&"  ".repeat(ind + 1));
                        go(g.stream(), ind + 1, out);
                        out.push('\n');
                        out.push_str(&"  ".repeat(ind));
                        out.push_str("}\n");
                        out.push_str(&"  ".repeat(ind));
                    } else {
                        out.push_str(a);
                        go(g.stream(), ind, out);
                        out.push_str(b);
                        out.push(' ');
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if p.as_char() == ';' {
                        out.push('\n');
                        out.push_str(&"  ".repeat(ind));
                    } else if !prev_joint {
                        out.push(' ');
                    }
                }
                TokenTree::Ident(i) => {
                    out.push_str(&i.to_string());
                    out.push(' ');
                    prev_joint = false;
                }
                TokenTree::Literal(l) => {
                    out.push_str(&l.to_string());
                    out.push(' ');
                    prev_joint = false;
                }
            }
        }
        let _ = prev_joint;
    }
    let mut s = String::new();
    go(t.to_token_stream(), 0, &mut s);
    s.replace("' ", "'")
}

fn has_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = show(&a.meta);
        s.starts_with("cfg") && (s.contains("test") || s.contains("verif_hooks")) || s == "test"
    })
}

fn strip_serde(fields: &mut Fields) {
    for f in fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = Path::new(&args[1]);
    let contracts: HashSet<String> = std::fs::read_to_string(&args[2])
        .unwrap()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty())
        .collect();
    let mut files: Vec<(String, std::path::PathBuf)> = vec![];
    fn walk(base: &Path, dir: &Path, out: &mut Vec<(String, std::path::PathBuf)>) {
        let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                walk(base, &p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let rel = p.strip_prefix(base).unwrap().with_extension("");
                let mut m = rel.to_string_lossy().replace('/', "_");
                if m.ends_with("_mod") {
                    m = m[..m.len() - 4].to_string();
                }
                out.push((m, p.clone()));
            }
        }
    }
    walk(src, src, &mut files);
    let mut world = World::default();
    let mut parsed = vec![];
    let mut errors = vec![];
    for (m, p) in &files {
        match syn::parse_file(&std::fs::read_to_string(p).unwrap()) {
            Ok(f) => parsed.push((m.clone(), f)),
            Err(e) => errors.push(format!("{}: {}", p.display(), e)),
        }
    }
    // first pass: collect types and functions
    let mut out_items = vec![];
    for (m, f) in &parsed {
        for it in &f.items {
            collect(&mut world, m, it, &mut out_items);
        }
    }
    // second pass: inline helpers without a contract, then lower
    let keys: Vec<String> = world.fns.keys().cloned().collect();
    let mut fns_out = vec![];
    for k in &keys {
        let fi = world.fns[k].clone();
        let mut notes: BTreeSet<String> = BTreeSet::new();
        let mut unsupported: Vec<String> = vec![];
        let mut lw = lower::Lower::new(&world, &fi, &contracts);
        let lowered = lw.lower_fn(fi.block.clone());
        notes.extend(lw.notes.iter().cloned());
        unsupported.extend(lw.unsupported.iter().cloned());
        let sig = lw.lower_sig(&fi);
        fns_out.push(serde_json::json!({
            "key": fi.key, "module": fi.module, "owner": fi.owner, "trait": fi.trait_, "name": fi.name,
            "impl_generics": fi.impl_generics, "self_ty": fi.self_ty, "impl_where": fi.impl_where,
            "sig": sig, "body": pretty(&lowered), "loops": lw.nloops, "loop_kinds": lw.loop_kinds,
            "locals": lw.locals, "params": fi.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>(),
            "calls": lw.calls.iter().cloned().collect::<Vec<_>>(), "notes": notes, "unsupported": unsupported,
            "inlined": lw.inlined, "source": show(&fi.block), "file": fi.module,
        }));
    }
    println!("{}", serde_json::json!({"items": out_items, "fns": fns_out, "errors": errors}));
}

fn collect(w: &mut World, m: &str, it: &Item, out: &mut Vec<serde_json::Value>) {
    match it {
        Item::Const(c) if !has_test_cfg(&c.attrs) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            lower::lower_const(&mut c.expr);
            w.consts.insert(c.ident.to_string(), (*c.ty).clone());
            w.const_mods.insert((m.to_string(), c.ident.to_string()));
            out.push(serde_json::json!({"kind": "const", "module": m, "name": c.ident.to_string(), "text": pretty(&c)}));
        }
        Item::Static(c) if !has_test_cfg(&c.attrs) => {
            w.const_mods.insert((m.to_string(), c.ident.to_string()));
            w.statics.insert(c.ident.to_string(), (*c.expr).clone());
            let (i, t, e) = (&c.ident, &c.ty, &c.expr);
            let c: ItemConst = parse_quote!(pub const #i: #t = #e;);
            out.push(serde_json::json!({"kind": "const", "module": m, "name": c.ident.to_string(), "text": pretty(&c)}));
        }
        Item::Type(t) if !has_test_cfg(&t.attrs) => {
            w.aliases.insert(t.ident.to_string(), (*t.ty).clone());
        }
        Item::Struct(s) if !has_test_cfg(&s.attrs) => {
            let mut s = s.clone();
            let derives: Vec<String> = s
                .attrs
                .iter()
                .filter(|a| a.path().is_ident("derive"))
                .map(|a| show(&a.meta))
                .collect();
            let d = derives.join(" ");
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if d.contains("PartialEq") && !s.fields.is_empty() && s.fields.iter().all(|f| f.ident.is_some()) {
                // what the derive expands to: the fields compared one by one, in the order of their declaration
                let mut g = s.generics.clone();
                for t in g.type_params_mut() {
                    t.bounds.push(parse_quote!(PartialEq));
                }
                let (n, (ig, _, wc)) = (&s.ident, g.split_for_impl());
                let (_, tg, _) = s.generics.split_for_impl();
                let fs: Vec<&syn::Ident> = s
                    .fields
                    .iter()
                    .filter(|f| !show(&f.ty).contains("PhantomData"))
                    .map(|f| f.ident.as_ref().unwrap())
                    .collect();
                let i: ItemImpl = parse_quote!(impl #ig PartialEq for #n #tg #wc {
                    fn eq(&self, other: &Self) -> bool { #(self.#fs == other.#fs)&&* }
                });
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        add_fn(w, m, &n.to_string(), Some("PartialEq".to_string()), &Some(i.clone()), &f.sig, &f.block);
                    }
                }
            }
            strip_serde(&mut s.fields);
            let mut fields = vec![];
            for f in s.fields.iter() {
                if let Some(i) = &f.ident {
                    fields.push((i.to_string(), f.ty.clone()));
                }
            }
            let defaults = s.generics.type_params().filter_map(|t| t.default.clone().map(|d| (t.ident.to_string(), d))).collect();
            w.structs.insert(s.ident.to_string(), StructInfo { fields, defaults });
            out.push(serde_json::json!({"kind": "struct", "module": m, "name": s.ident.to_string(), "text": pretty(&s),
                "copy": d.contains("Copy"), "clone": d.contains("Clone")}));
        }
        Item::Enum(s) if !has_test_cfg(&s.attrs) => {
            let mut s = s.clone();
            let d: String = s.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| show(&a.meta)).collect();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            out.push(serde_json::json!({"kind": "enum", "module": m, "name": s.ident.to_string(), "text": pretty(&s),
                "copy": d.contains("Copy"), "clone": d.contains("Clone")}));
        }
        Item::Fn(f) if !has_test_cfg(&f.attrs) => add_fn(w, m, "", None, &None, &f.sig, &f.block),
        Item::Impl(i) if !has_test_cfg(&i.attrs) => {
            let owner = match strip_ref(&i.self_ty) {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => return,
            };
            let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
            if matches!(tr.as_deref(), Some("Debug")) || (tr.as_deref() == Some("IntoIterator")) {
                return;
            }
            if tr.as_deref() == Some("Index") {
                w.index_impls.insert(owner.clone());
            }
            for x in &i.items {
                if let ImplItem::Type(t) = x {
                    if t.ident == "Item" && tr.as_deref() == Some("Iterator") {
                        w.iters.insert(owner.clone(), t.ty.clone());
                    }
                }
            }
            for x in &i.items {
                if let ImplItem::Fn(f) = x {
                    if !has_test_cfg(&f.attrs) {
                        add_fn(w, m, &owner, tr.clone(), &Some(i.clone()), &f.sig, &f.block);
                    }
                }
            }
        }
        Item::Trait(t) => {
            out.push(serde_json::json!({"kind": "trait", "module": m, "name": t.ident.to_string(), "text": pretty(t)}));
        }
        _ => {}
    }
}

fn add_fn(w: &mut World, m: &str, owner: &str, tr: Option<String>, im: &Option<ItemImpl>, sig: &Signature, block: &Block) {
    let name = sig.ident.to_string();
    let mut key = if owner.is_empty() { format!("{}::{}", m, name) } else { format!("{}::{}::{}", m, owner, name) };
    let mut self_ty = String::new();
    let (mut g, mut wh) = (String::new(), String::new());
    let mut assoc_item = None;
    let mut iter_params = vec![];
    let mut impl_ty = None;
    if let Some(i) = im {
        self_ty = show(&i.self_ty);
        impl_ty = Some((*i.self_ty).clone());
        let (gg, ww, ip) = split_generics(&i.generics);
        g = gg;
        wh = ww;
        iter_params = ip;
        for x in &i.items {
            if let ImplItem::Type(t) = x {
                if t.ident == "Item" || t.ident == "Output" {
                    assoc_item = Some(t.ty.clone());
                }
            }
        }
    }
    let (_, _, ip2) = split_generics(&sig.generics);
    iter_params.extend(ip2);
    let mut params = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let n = match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_".to_string(),
            };
            params.push((n, (*t.ty).clone()));
        }
    }
    let ret = match &sig.output {
        ReturnType::Type(_, t) => Some((**t).clone()),
        _ => None,
    };
    if w.fns.contains_key(&key) {
        key = format!("{}@{}", key, tr.clone().unwrap_or_default());
        if w.fns.contains_key(&key) {
            return;
        }
    }
    w.fns.insert(
        key.clone(),
        FnInfo {
            key,
            module: m.to_string(),
            owner: owner.to_string(),
            trait_: tr,
            name,
            self_ty,
            impl_ty,
            impl_generics: g,
            impl_where: wh,
            sig: sig.clone(),
            block: block.clone(),
            params,
            ret,
            assoc_item,
            iter_params,
        },
    );
}
