//! Mechanical extraction of the crate under test into one file for the deductive verifier.
//!
//! xtract --src DIR --contracts DIR --out FILE --map FILE [--baseline FILE] [--external FILE]
mod body;
mod contract;

use body::{flat, tok};
use contract::{FnC, ModC};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path as FsPath, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Ctx {
    pub const_u8: HashMap<String, u8>,
    pub const_slices: HashSet<String>,
    pub tables: HashSet<String>,
    pub datatype_u8: bool,
}

#[derive(Default)]
struct FnInfo {
    id: String,
    module: String,
    file: String,
    line: usize,
    end_line: usize,
    tokens: Vec<String>,
    loops: usize,
    closures: usize,
    callees: Vec<String>,
    external: Option<String>,
    nospec: bool,
    has_contract: bool,
    contract: FnC,
    rules: BTreeMap<String, usize>,
    unused: Vec<String>,
    renamed: bool,
    guessed: bool,
}

struct Gen {
    fns: Vec<FnInfo>,
    dropped: Vec<String>,
    forced: HashMap<String, String>,
    nospec: HashSet<String>,
    baseline: HashMap<String, Vec<String>>,
    contracts: PathBuf,
    used_contracts: HashSet<String>,
    missing: Vec<String>,
}

fn parse_args() -> HashMap<String, String> {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut m = HashMap::new();
    let mut i = 0;
    while i + 1 < a.len() {
        m.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
        i += 2;
    }
    m
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = tok(a);
        // the optional feature "serde" counts as enabled
        let serde = t.replace(' ', "").contains("(feature=\"serde\")");
        a.path().is_ident("test") || (a.path().is_ident("cfg") && (t.contains("test") || (t.contains("feature") && !serde)))
    })
}

/// Path rewriting applied to every item.
struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "decimal_rs" || segs[0] == "serde_json" {
            p.segments.insert(0, parse_quote!(crate));
        } else if segs.len() > 1 && segs[0] == "serde" {
            p.segments[0] = parse_quote!(vx_serde);
            p.segments.insert(0, parse_quote!(crate));
        } else if segs.len() > 1 && segs[0] == "std" && segs[1] == "fmt" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let mut np: Path = parse_quote!(crate::prelude::fmt);
            for r in rest {
                np.segments.push(r);
            }
            *p = np;
        }
        let n = p.segments.len();
        if n >= 1 {
            let last = p.segments.last().unwrap();
            if last.ident == "AsMut" && tok(&last.arguments).replace(' ', "") == "<Vec<u8>>" {
                *p = parse_quote!(crate::prelude::AsMutBytes);
            }
        }
    }
}

/// Moves types and implementations out of function bodies (they cannot name anything local).
struct Inner {
    items: Vec<Item>,
}
impl VisitMut for Inner {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_) | Item::Impl(_))) => self.items.push(i),
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
}

struct SubstTy {
    map: HashMap<String, Type>,
}
impl VisitMut for SubstTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            // &T with T := &X  ->  &X
            if let Type::Path(p) = &*r.elem {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.map.get(&i.to_string()) {
                        *t = n.clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.map.get(&i.to_string()) {
                    *t = n.clone();
                }
            }
        }
    }
}

/// A generic AsRef parameter becomes a reference, which would change what an elided
/// lifetime in the result refers to: name it first.
fn name_elided(sig: &mut Signature, asref: &HashSet<String>) {
    struct Elided<'a> {
        asref: &'a HashSet<String>,
        n: usize,
        set: bool,
    }
    impl VisitMut for Elided<'_> {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            let inst = self.asref.contains(&tok(&r.elem));
            if r.lifetime.is_none() && !inst {
                self.n += 1;
                if self.set {
                    r.lifetime = Some(Lifetime::new("'vx", Span::call_site()));
                }
            }
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    if sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))) {
        return;
    }
    let mut e = Elided { asref, n: 0, set: false };
    e.visit_return_type_mut(&mut sig.output);
    let outs = e.n;
    e.n = 0;
    for a in sig.inputs.iter_mut() {
        e.visit_fn_arg_mut(a);
    }
    if outs == 0 || e.n == 0 {
        return;
    }
    e.set = true;
    e.visit_return_type_mut(&mut sig.output);
    for a in sig.inputs.iter_mut() {
        e.visit_fn_arg_mut(a);
    }
    sig.generics.params.insert(0, parse_quote!('vx));
}

struct SelfItem(Type, &'static str);
impl VisitMut for SelfItem {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if tok(t).replace(' ', "") == self.1 {
            *t = self.0.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

impl Gen {
    fn load(&self, module: &str) -> ModC {
        let p = self.contracts.join(format!("{}.vc", module.replace("::", "_")));
        match std::fs::read_to_string(&p) {
            Ok(t) => contract::parse(&t),
            Err(_) => ModC::default(),
        }
    }

    fn function(
        &mut self,
        ctx: &Ctx,
        mc: &ModC,
        module: &str,
        file: &str,
        id: &str,
        sig: &Signature,
        block: Option<&Block>,
        extra_attrs: &[TokenStream],
        public: bool,
        trait_impl: bool,
        lines: (usize, usize),
    ) -> Vec<TokenStream> {
        let full = format!("{}::{}", module, id);
        let mut sig = sig.clone();
        let mut toks = vec![];
        let mut osig = sig.clone();
        osig.constness = None;
        flat(quote!(#osig #block), &mut toks);
        let mut sk = body::Skeleton::default();
        if let Some(b) = block {
            sk.visit_block(b);
        }
        let mut c = mc.fns.get(id).cloned().unwrap_or_default();
        c.id = id.to_string();
        let has_contract = mc.fns.contains_key(id);
        self.used_contracts.insert(full.clone());
        // a consistent renaming of local names is followed by the contract
        let mut renamed = false;
        let mut guessed = false;
        if let Some(old) = self.baseline.get(&full) {
            if *old != toks {
                if let Some(map) = alpha(old, &toks) {
                    rename_contract(&mut c, &map);
                    renamed = true;
                } else {
                    let map = guess(old, &toks);
                    if !map.is_empty() {
                        rename_contract(&mut c, &map);
                        renamed = true;
                        guessed = true;
                    }
                }
            }
        }
        // a parameter named like its function: Verus confuses the two
        let mut prename: HashMap<String, String> = HashMap::new();
        if !id.contains("::") {
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    if let Pat::Ident(i) = &mut *t.pat {
                        if i.ident == sig.ident {
                            let n = format!("vx_{}", i.ident);
                            prename.insert(i.ident.to_string(), n.clone());
                            i.ident = Ident::new(&n, Span::call_site());
                        }
                    }
                }
            }
            if !prename.is_empty() {
                rename_contract(&mut c, &prename);
            }
        }
        sig.constness = None;
        sig.unsafety = None;
        // `mut self` is not supported: a local takes its place
        let mut_self = match sig.inputs.first_mut() {
            Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some() => {
                r.mutability = None;
                true
            }
            _ => false,
        };
        let reblock: Option<Block> = if mut_self {
            block.and_then(|b| {
                let t = replace_ident(quote!(#b), "self", "vx_self");
                let mut b: Block = parse2(t).ok()?;
                b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                Some(b)
            })
        } else {
            None
        };
        // AsRef parameters
        let mut asref = HashSet::new();
        let mut strp = HashSet::new();
        let mut map = HashMap::new();
        let mut gens = punctuated::Punctuated::<GenericParam, Token![,]>::new();
        for g in sig.generics.params.clone() {
            if let GenericParam::Type(t) = &g {
                let b = t.bounds.iter().find_map(|b| {
                    if let TypeParamBound::Trait(tb) = b {
                        let s = tb.path.segments.last().unwrap();
                        if s.ident == "AsRef" {
                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                return a.args.first().cloned();
                            }
                        }
                    }
                    None
                });
                if let Some(GenericArgument::Type(x)) = b {
                    let nt: Type = parse_quote!(&#x);
                    map.insert(t.ident.to_string(), nt);
                    continue;
                }
            }
            gens.push(g);
        }
        sig.generics.params = gens;
        if !map.is_empty() {
            let names: HashSet<String> = map.keys().cloned().collect();
            for a in sig.inputs.iter() {
                if let FnArg::Typed(t) = a {
                    let ty = tok(&t.ty).replace(['&', ' '], "");
                    if names.contains(&ty) {
                        let mut s = HashSet::new();
                        body::pat_idents(&t.pat, &mut s);
                        asref.extend(s);
                    }
                }
            }
            name_elided(&mut sig, &names);
            SubstTy { map }.visit_signature_mut(&mut sig);
        }
        for a in sig.inputs.iter() {
            if let FnArg::Typed(t) = a {
                if tok(&t.ty).replace(' ', "").replace("'a", "").replace("'b", "") == "&str" {
                    let mut s = HashSet::new();
                    body::pat_idents(&t.pat, &mut s);
                    strp.extend(s);
                }
            }
        }
        if let Some(o) = c.opts.get("nostr") {
            for x in o.split(',') {
                strp.remove(x);
            }
        }
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                t.attrs.clear();
            }
        }
        let fnno = self.fns.len();
        let fl = proc_macro2::Literal::usize_unsuffixed(fnno);
        let ext = self.forced.get(&full).cloned().or_else(|| c.external.clone());
        let nospec = self.nospec.contains(&full);
        let mut info = FnInfo {
            id: full.clone(),
            module: module.into(),
            file: file.into(),
            line: lines.0,
            end_line: lines.1,
            tokens: toks,
            loops: sk.loops,
            closures: sk.closures,
            callees: sk.callees,
            external: if block.is_some() { ext.clone() } else { None },
            nospec,
            has_contract,
            contract: c.clone(),
            renamed,
            guessed,
            ..Default::default()
        };
        let mut block = reblock.or_else(|| block.cloned());
        let mut nested = vec![];
        let guards = sig.inputs.to_token_stream().to_string().contains("& mut") || sig.inputs.to_token_stream().to_string().contains("&mut");
        if let Some(b) = block.as_mut() {
            if ext.is_none() {
                let d = body::rewrite(ctx, &c, fnno, b, asref, strp, prename, guards);
                info.rules = d.rules;
                info.unused = d.unused_hints;
                nested = d.nested;
            } else {
                *b = parse_quote!({ unimplemented!() });
            }
            Paths.visit_block_mut(b);
            b.stmts.insert(0, parse_quote!(__vx_fn!(#fl);));
        }
        if let Some(t) = c.opts.get("rettype") {
            if tok(&sig.output).contains("impl ") {
                if let Ok(t) = parse_str::<Type>(t) {
                    sig.output = parse_quote!(-> #t);
                    *info.rules.entry("impl Trait return type named".into()).or_insert(0) += 1;
                }
            }
        }
        Paths.visit_signature_mut(&mut sig);
        if c.ret.is_some() && !nospec {
            let t: Type = match &sig.output {
                ReturnType::Type(_, t) => (**t).clone(),
                ReturnType::Default => parse_quote!(()),
            };
            let n = Ident::new(&format!("__VxRet{}", fnno), Span::call_site());
            sig.output = parse_quote!(-> #n<#t>);
        }
        self.fns.push(info);
        let mut out = vec![];
        let vis = if public && !trait_impl { quote!(pub) } else { quote!() };
        let ea = extra_attrs.iter();
        let extattr = if ext.is_some() { quote!(#[verifier::external_body]) } else { quote!() };
        let mark = quote!(#[__vx_attr(#fl)]);
        if let Some(b) = block {
            out.push(quote!(#(#ea)* #extattr #mark #vis #sig #b));
        } else {
            out.push(quote!(#(#ea)* #mark #vis #sig where __VxDecl<#fl>: ;));
        }
        for nf in nested {
            let nid = format!("{}::{}", id, nf.sig.ident);
            let mut s2 = nf.sig.clone();
            s2.ident = Ident::new(&format!("{}__{}", id.rsplit("::").next().unwrap(), nf.sig.ident), Span::call_site());
            let l = (nf.span().start().line, nf.span().end().line);
            let mut o = self.function(ctx, mc, module, file, &nid, &s2, Some(&nf.block), &[], true, false, l);
            // hoisted out of the impl by the caller
            out.append(&mut o);
        }
        out
    }
}

fn is_ident(s: &str) -> bool {
    s.chars().next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false)
}

fn alpha(old: &[String], new: &[String]) -> Option<HashMap<String, String>> {
    if old.len() != new.len() {
        return None;
    }
    let mut m: HashMap<String, String> = HashMap::new();
    let mut inv: HashMap<String, String> = HashMap::new();
    for i in 0..old.len() {
        let field = i > 0 && old[i - 1] == ".";
        if field {
            if old[i] != new[i] {
                return None;
            }
            continue;
        }
        if is_ident(&old[i]) != is_ident(&new[i]) {
            return None;
        }
        if !is_ident(&old[i]) {
            if old[i] != new[i] {
                return None;
            }
            continue;
        }
        if m.entry(old[i].clone()).or_insert_with(|| new[i].clone()) != &new[i] {
            return None;
        }
        if inv.entry(new[i].clone()).or_insert_with(|| old[i].clone()) != &old[i] {
            return None;
        }
    }
    m.retain(|a, b| a != b);
    for b in m.values() {
        if b.chars().next().unwrap().is_uppercase() {
            return None;
        }
    }
    if m.is_empty() {
        None
    } else {
        Some(m)
    }
}

/// Names of the old body that are gone from the new one, matched with new names used in the same places: the
/// annotations follow the name. A wrong guess costs the proof, never its soundness.
fn guess(old: &[String], new: &[String]) -> HashMap<String, String> {
    fn uses(t: &[String]) -> HashMap<String, Vec<(String, String)>> {
        let mut m: HashMap<String, Vec<(String, String)>> = HashMap::new();
        for i in 0..t.len() {
            let w = &t[i];
            if !is_ident(w) || w.chars().next().unwrap().is_uppercase() || (i > 0 && t[i - 1] == ".") {
                continue;
            }
            let p = if i > 0 { t[i - 1].clone() } else { String::new() };
            let n = t.get(i + 1).cloned().unwrap_or_default();
            m.entry(w.clone()).or_default().push((p, n));
        }
        m
    }
    let (uo, un) = (uses(old), uses(new));
    let mut cand = vec![];
    for (a, ca) in uo.iter().filter(|(a, _)| !un.contains_key(*a)) {
        for (b, cb) in un.iter().filter(|(b, _)| !uo.contains_key(*b)) {
            let mut rest = cb.clone();
            let mut hit = 0;
            for c in ca {
                if let Some(k) = rest.iter().position(|x| x == c) {
                    rest.remove(k);
                    hit += 1;
                }
            }
            let score = 2.0 * hit as f64 / (ca.len() + cb.len()) as f64;
            if score >= 0.5 {
                cand.push((score, a.clone(), b.clone()));
            }
        }
    }
    cand.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap().then(x.1.cmp(&y.1)).then(x.2.cmp(&y.2)));
    let mut m = HashMap::new();
    let mut taken = HashSet::new();
    for (_, a, b) in cand {
        if !m.contains_key(&a) && !taken.contains(&b) {
            taken.insert(b.clone());
            m.insert(a, b);
        }
    }
    m
}

fn rename_text(t: &str, m: &HashMap<String, String>) -> String {
    let ch: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < ch.len() {
        if ch[i].is_alphabetic() || ch[i] == '_' {
            let st = i;
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_') {
                i += 1;
            }
            let w: String = ch[st..i].iter().collect();
            let prev = if st > 0 { ch[st - 1] } else { ' ' };
            match m.get(&w) {
                Some(n) if prev != '.' => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(ch[i]);
            i += 1;
        }
    }
    out
}

fn rename_contract(c: &mut FnC, m: &HashMap<String, String>) {
    c.spec = rename_text(&c.spec, m);
    for l in c.loops.values_mut() {
        l.1 = rename_text(&l.1, m);
    }
    for l in c.closures.values_mut() {
        l.1 = rename_text(&l.1, m);
    }
    for h in c.hints.iter_mut() {
        if let Some(k) = h.0.find("let ") {
            // only the variable named by the anchor, not its keywords
            h.0 = format!("{}let {}", &h.0[..k], rename_text(&h.0[k + 4..], m));
        }
        h.1 = rename_text(&h.1, m);
    }
    for v in c.opts.values_mut() {
        *v = rename_text(v, m);
    }
}

fn flatten_use(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            flatten_use(&p.tree, q, out);
        }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, None));
        }
        UseTree::Rename(n) => {
            let mut q = pre;
            q.push(n.ident.to_string());
            out.push((q, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut q = pre;
            q.push("*".into());
            out.push((q, None));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                flatten_use(x, pre.clone(), out);
            }
        }
    }
}

fn eval_const_u8(e: &Expr) -> Option<u8> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => Some(b.value()),
        _ => None,
    }
}

fn bytestr(e: &Expr) -> Option<Vec<u8>> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
        _ => None,
    }
}

/// Expands name!(args) where the macro has one rule `($x: kind) => { .. }` or `($x: kind,) => { .. }`,
/// then the macros called in the result.
fn expand_macro(macros: &HashMap<String, TokenStream>, name: &str, args: TokenStream, depth: usize) -> std::result::Result<TokenStream, String> {
    if depth > 8 {
        return Err("macro recursion".into());
    }
    let rule: Vec<TokenTree> = macros.get(name).ok_or("unknown macro")?.clone().into_iter().collect();
    let groups: Vec<&proc_macro2::Group> = rule.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
    if groups.len() != 2 {
        return Err("more than one rule".into());
    }
    let pat: Vec<TokenTree> = groups[0].stream().into_iter().collect();
    let comma = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.as_char() == ',');
    if pat.len() < 4 || pat.len() > 5 || pat[0].to_string() != "$" || (pat.len() == 5 && !comma(&pat[4])) {
        return Err("unknown pattern".into());
    }
    let var = pat[1].to_string();
    let mut a: Vec<TokenTree> = args.into_iter().collect();
    if pat.len() == 5 {
        match a.pop() {
            Some(t) if comma(&t) => {}
            _ => return Err("arguments do not match".into()),
        }
    }
    let with: TokenStream = a.into_iter().collect();
    let body = subst_vis(groups[1].stream(), &var, &with);
    expand_inner(macros, body, depth)
}

fn expand_inner(macros: &HashMap<String, TokenStream>, ts: TokenStream, depth: usize) -> std::result::Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let n = id.to_string();
            if macros.contains_key(&n) && i + 2 < v.len() && v[i + 1].to_string() == "!" {
                if let TokenTree::Group(g) = &v[i + 2] {
                    out.extend(expand_macro(macros, &n, g.stream(), depth + 1)?);
                    i += 3;
                    if i < v.len() && v[i].to_string() == ";" {
                        i += 1;
                    }
                    continue;
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let mut ng = proc_macro2::Group::new(g.delimiter(), expand_inner(macros, g.stream(), depth)?);
            ng.set_span(g.span());
            out.extend([TokenTree::Group(ng)]);
        } else {
            out.extend([v[i].clone()]);
        }
        i += 1;
    }
    Ok(out)
}

fn subst_vis(ts: TokenStream, var: &str, with: &TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' && i + 1 < v.len() && v[i + 1].to_string() == var {
                out.extend(with.clone());
                i += 2;
                continue;
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let mut ng = proc_macro2::Group::new(g.delimiter(), subst_vis(g.stream(), var, with));
            ng.set_span(g.span());
            out.extend([TokenTree::Group(ng)]);
        } else {
            out.extend([v[i].clone()]);
        }
        i += 1;
    }
    out
}

fn replace_ident(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, to));
                ng.set_span(g.span());
                TokenTree::Group(ng)
            }
            t => t,
        })
        .collect()
}

fn self_name(t: &Type) -> String {
    if let Type::Path(p) = t {
        return p.path.segments.last().unwrap().ident.to_string();
    }
    tok(t)
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.vis = parse_quote!(pub);
        x.attrs.clear();
    }
}

fn derive_attr(attrs: &[Attribute], fieldless: bool) -> TokenStream {
    let mut d: Vec<String> = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let t = tok(&a.meta);
            for n in ["Copy", "Clone", "PartialEq", "Eq"] {
                if t.replace(['(', ')', ','], " ").split_whitespace().any(|w| w == n) {
                    d.push(n.into());
                }
            }
        }
    }
    if !fieldless {
        // derived code over fields is not extracted
        return quote!();
    }
    if d.is_empty() {
        return quote!();
    }
    let d: Vec<Ident> = d.iter().map(|x| Ident::new(x, Span::call_site())).collect();
    quote!(#[derive(#(#d),*)])
}

impl Gen {
    fn module(&mut self, src: &FsPath, file: &FsPath, dir: &FsPath, name: &str, depth: usize, datatype_u8: bool) -> TokenStream {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
        let ast = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
        let mc = self.load(if name.is_empty() { "root" } else { name });
        let rel = file.strip_prefix(src).unwrap().display().to_string();
        let mut ctx = Ctx { datatype_u8, ..Default::default() };
        for it in &ast.items {
            match it {
                Item::Const(c) => {
                    let n = c.ident.to_string();
                    if let Some(v) = eval_const_u8(&c.expr) {
                        ctx.const_u8.insert(n, v);
                    } else if bytestr(&c.expr).is_some() {
                        ctx.const_slices.insert(n);
                    }
                }
                Item::Static(c) => {
                    if matches!(&*c.expr, Expr::Array(_)) {
                        ctx.tables.insert(c.ident.to_string());
                    }
                }
                _ => {}
            }
        }
        let mut macros: HashMap<String, TokenStream> = HashMap::new();
        let mut out: Vec<TokenStream> = vec![];
        let mut items: Vec<Item> = vec![];
        for it in ast.items {
            if let Item::Macro(m) = &it {
                let mname = m.mac.path.segments.last().unwrap().ident.to_string();
                if mname == "macro_rules" {
                    macros.insert(m.ident.as_ref().unwrap().to_string(), m.mac.tokens.clone());
                    continue;
                }
                // a macro of this file with one rule and one parameter, whose body may call others of the same kind
                if macros.contains_key(&mname) {
                    let exp = expand_macro(&macros, &mname, m.mac.tokens.clone(), 0).and_then(|t| syn::parse2::<syn::File>(t).map_err(|e| e.to_string()));
                    match exp {
                        Ok(f) => items.extend(f.items),
                        Err(e) => self.missing.push(format!("{}: {}!: {}", rel, mname, e)),
                    }
                    continue;
                }
                self.dropped.push(format!("{}: macro item {}", rel, mname));
                continue;
            }
            items.push(it);
        }
        // types and implementations written inside function bodies
        let mut inner = Inner { items: vec![] };
        for it in items.iter_mut() {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => inner.visit_item_fn_mut(f),
                Item::Impl(i) if !is_test(&i.attrs) => inner.visit_item_impl_mut(i),
                _ => {}
            }
        }
        items.extend(inner.items);
        // trait default methods for monomorphisation
        let mut defaults: HashMap<String, ItemTrait> = HashMap::new();
        if !mc.mono.is_empty() {
            for it in &items {
                if let Item::Trait(t) = it {
                    if mc.mono.contains(&t.ident.to_string()) {
                        defaults.insert(t.ident.to_string(), t.clone());
                    }
                }
            }
            MONO.with(|m| m.borrow_mut().extend(defaults.iter().map(|(k, v)| (k.clone(), (v.clone(), name.to_string(), rel.clone())))));
        }
        // the enum whose discriminants matter goes first: Verus evaluates them when it
        // meets the first specification that mentions the type
        let mut items = items;
        items.sort_by_key(|i| match i {
            Item::Mod(m) if m.ident == "data_type" => 0,
            Item::Enum(_) => 1,
            _ => 2,
        });
        for it in items {
            self.item(&ctx, &mc, src, dir, name, &rel, depth, it, &mut out, datatype_u8);
        }
        let raw = Ident::new(&format!("__vx_items_{}", if name.is_empty() { "root".into() } else { name.replace("::", "_") }), Span::call_site());
        ITEMS.with(|i| i.borrow_mut().insert(raw.to_string(), mc.items.clone()));
        quote!(#(#out)* #raw!();)
    }

    #[allow(clippy::too_many_arguments)]
    fn item(&mut self, ctx: &Ctx, mc: &ModC, src: &FsPath, dir: &FsPath, name: &str, rel: &str, depth: usize, it: Item, out: &mut Vec<TokenStream>, dt: bool) {
        let lines = (it.span().start().line, it.span().end().line);
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) || m.content.is_some() {
                    self.dropped.push(format!("{}: mod {}", rel, m.ident));
                    return;
                }
                let n = m.ident.to_string();
                let full = if name.is_empty() { n.clone() } else { format!("{}::{}", name, n) };
                if mc.drop.contains(&format!("mod {}", n)) {
                    self.dropped.push(format!("{}: mod {}", rel, n));
                    return;
                }
                let a = dir.join(format!("{}.rs", n));
                let b = dir.join(&n).join("mod.rs");
                let f = if a.exists() { a } else { b };
                let inner = self.module(src, &f, &dir.join(&n), &full, depth + 1, dt);
                let id = &m.ident;
                out.push(quote!(pub mod #id { use vstd::prelude::*; #[allow(unused_imports)] use crate::prelude::*; #inner }));
            }
            Item::Use(u) => {
                if is_test(&u.attrs) {
                    return;
                }
                let mut leaves = vec![];
                flatten_use(&u.tree, vec![], &mut leaves);
                for (mut p, alias) in leaves {
                    let last = p.last().unwrap().clone();
                    let j = p.join("::");
                    if j.starts_with("std::error") || j.starts_with("std::borrow") || j.starts_with("std::ops") || j.starts_with("std::mem") || j.starts_with("std::str::FromStr") {
                        continue;
                    }
                    if mc.drop.contains(&format!("use {}", last)) || mc.drop.contains(&format!("use {}", j)) {
                        continue;
                    }
                    if last == "Display" || last == "Formatter" && j.starts_with("std::fmt") {
                        continue;
                    }
                    if p[0] == "decimal_rs" || p[0] == "serde_json" {
                        p.insert(0, "crate".into());
                    }
                    if p[0] == "serde" {
                        p.splice(0..1, ["crate".to_string(), "vx_serde".into()]);
                    }
                    if p.len() >= 2 && p[0] == "std" && p[1] == "fmt" {
                        p.splice(0..2, ["crate".to_string(), "prelude".into(), "fmt".into()]);
                    }
                    let path: TokenStream = p.join("::").parse().unwrap();
                    let al: TokenStream = alias.map(|a| format!("as {}", a)).unwrap_or_default().parse().unwrap();
                    out.push(quote!(#[allow(unused_imports)] pub use #path #al;));
                }
            }
            Item::Const(mut c) => {
                if let Some(b) = bytestr(&c.expr) {
                    let id = &c.ident;
                    let v: Vec<LitInt> = b.iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site())).collect();
                    out.push(quote!(pub fn #id() -> (__vx_raw_ret) { __vx_const_slice!(#(#v),*); &[#(#v),*] }));
                    return;
                }
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                if let Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) = &*c.expr {
                    let l = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                    *c.expr = parse_quote!(#l);
                }
                let n = c.ident.to_string();
                if mc.drop.contains(&format!("const {}", n)) {
                    self.dropped.push(format!("{}: const {}", rel, n));
                    return;
                }
                // fold size_of
                let mut blk: Block = { let e = &c.expr; parse_quote!({ #e }) };
                let fc = FnC::default();
                body::rewrite(ctx, &fc, 0, &mut blk, HashSet::new(), HashSet::new(), HashMap::new(), false);
                if let Some(Stmt::Expr(e, None)) = blk.stmts.pop() {
                    *c.expr = e;
                }
                if let Type::Reference(r) = &mut *c.ty {
                    r.lifetime = Some(parse_quote!('static));
                }
                if let Type::Array(a) = &mut *c.ty {
                    if let Type::Reference(r) = &mut *a.elem {
                        r.lifetime = Some(parse_quote!('static));
                    }
                }
                Paths.visit_item_const_mut(&mut c);
                out.push(quote!(#c));
            }
            Item::Static(s) => {
                if let Expr::Array(a) = &*s.expr {
                    // a table: one match arm per entry
                    let n = s.ident.to_string();
                    let mut arms = vec![];
                    for (i, e) in a.elems.iter().enumerate() {
                        let l = LitInt::new(&format!("{}usize", i), Span::call_site());
                        arms.push(quote!(#l => #e,));
                    }
                    let f: Ident = Ident::new(&format!("{}_at", n), Span::call_site());
                    let elem: Type = match &*s.ty {
                        Type::Array(t) => {
                            let mut el = (*t.elem).clone();
                            if let Type::Reference(r) = &mut el {
                                r.lifetime = Some(parse_quote!('static));
                            }
                            el
                        }
                        t => t.clone(),
                    };
                    let item: ItemFn = parse_quote!(fn #f(i: usize) -> #elem { match i { #(#arms)* _ => unreachable!() } });
                    let id = format!("{}_at", n);
                    let o = self.function(ctx, mc, name, rel, &id, &item.sig, Some(&item.block), &[], true, false, lines);
                    out.extend(o);
                } else {
                    self.dropped.push(format!("{}: static {}", rel, s.ident));
                }
            }
            Item::Struct(mut s) => {
                let n = s.ident.to_string();
                if mc.drop.contains(&format!("struct {}", n)) {
                    self.dropped.push(format!("{}: struct {}", rel, n));
                    return;
                }
                let d = derive_attr(&s.attrs, false);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                pub_fields(&mut s.fields);
                Paths.visit_item_struct_mut(&mut s);
                out.push(quote!(#d #s));
            }
            Item::Enum(mut e) => {
                let fieldless = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                let d = derive_attr(&e.attrs, fieldless);
                let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| tok(a));
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                Paths.visit_item_enum_mut(&mut e);
                let r: TokenStream = repr.filter(|r| r.contains("u8")).map(|_| quote!(#[repr(u8)])).unwrap_or_default();
                let st = if fieldless && tok(&d).contains(" Eq") {
                    let n = &e.ident;
                    quote!(unsafe impl Structural for #n {})
                } else {
                    quote!()
                };
                out.push(quote!(#d #r #e #st));
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                Paths.visit_item_type_mut(&mut t);
                out.push(quote!(#t));
            }
            Item::Trait(mut t) => {
                let n = t.ident.to_string();
                if mc.mono.contains(&n) || !mc.keep.contains(&format!("trait {}", n)) {
                    self.dropped.push(format!("{}: trait {}{}", rel, n, if mc.mono.contains(&n) { " (its methods are instantiated in each implementor)" } else { "" }));
                    return;
                }
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                let mut inner = vec![];
                for i in t.items.clone() {
                    if let TraitItem::Fn(f) = i {
                        let id = format!("{}::{}", n, f.sig.ident);
                        let l = (f.span().start().line, f.span().end().line);
                        inner.extend(self.function(ctx, mc, name, rel, &id, &f.sig, f.default.as_ref(), &[], false, true, l));
                    }
                }
                let id = &t.ident;
                let g = &t.generics;
                let st = &t.supertraits;
                let colon = &t.colon_token;
                let raw = Ident::new(&format!("__vx_trait_{}", n), Span::call_site());
                let st = if colon.is_none() { quote!(: Sized) } else { quote!(#colon #st) };
                out.push(quote!(pub trait #id #g #st { #raw!(); #(#inner)* }));
                let mut f = String::new();
                if let Some(fc) = mc.fns.get(&format!("{}::@spec", n)) {
                    f = fc.spec.clone();
                }
                ITEMS.with(|i| i.borrow_mut().insert(raw.to_string(), f));
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    return;
                }
                let id = f.sig.ident.to_string();
                if mc.drop.contains(&format!("fn {}", id)) {
                    self.dropped.push(format!("{}: fn {}", rel, id));
                    return;
                }
                let o = self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], true, false, lines);
                out.extend(o);
            }
            Item::Impl(i) => {
                if is_test(&i.attrs) {
                    return;
                }
                self.impl_item(ctx, mc, name, rel, i, out);
            }
            Item::Macro(_) => {}
            o => self.dropped.push(format!("{}: {}", rel, tok(&o).chars().take(60).collect::<String>())),
        }
    }

    fn impl_item(&mut self, ctx: &Ctx, mc: &ModC, name: &str, rel: &str, mut i: ItemImpl, out: &mut Vec<TokenStream>) {
        let sname = self_name(&i.self_ty);
        let mut hoisted: Vec<TokenStream> = vec![];
        let split = |v: Vec<TokenStream>, keep: &mut Vec<TokenStream>, hoisted: &mut Vec<TokenStream>| {
            let mut it = v.into_iter();
            if let Some(f) = it.next() {
                keep.push(f);
            }
            hoisted.extend(it);
        };
        if let Some((_, tp, _)) = i.trait_.clone() {
            let tn = tp.segments.last().unwrap().ident.to_string();
            let desc = format!("impl {} for {}", tok(&tp).replace(' ', ""), sname);
            // Formatter-like traits
            let mono = MONO.with(|m| m.borrow().get(&tn).cloned());
            if let Some((t, tmod, trel)) = mono {
                let over: HashMap<String, ImplItemFn> = i
                    .items
                    .iter()
                    .filter_map(|x| if let ImplItem::Fn(f) = x { Some((f.sig.ident.to_string(), f.clone())) } else { None })
                    .collect();
                let mut inner = vec![];
                for ti in &t.items {
                    if let TraitItem::Fn(tf) = ti {
                        let fname = tf.sig.ident.to_string();
                        let id = format!("{}::{}", sname, fname);
                        // constants named in default bodies belong to the trait's module
                        let o = if let Some(f) = over.get(&fname) {
                            let l = (f.span().start().line, f.span().end().line);
                            self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], true, false, l)
                        } else {
                            let l = (tf.span().start().line, tf.span().end().line);
                            self.function(ctx, mc, name, &trel, &id, &tf.sig, tf.default.as_ref(), &[], true, false, l)
                        };
                        split(o, &mut inner, &mut hoisted);
                    }
                }
                let _ = tmod;
                let (g, _, w) = i.generics.split_for_impl();
                let st = &i.self_ty;
                out.push(quote!(impl #g #st #w { #(#inner)* }));
                out.extend(hoisted);
                return;
            }
            if tn == "Iterator" {
                let item = i.items.iter().find_map(|x| if let ImplItem::Type(t) = x { Some(t.ty.clone()) } else { None });
                let mut inner = vec![];
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let mut f = f.clone();
                        if let Some(it) = &item {
                            SelfItem(it.clone(), "Self::Item").visit_signature_mut(&mut f.sig);
                        }
                        let id = if f.sig.ident == "next" { "iter_next".to_string() } else { format!("iter_{}", f.sig.ident) };
                        f.sig.ident = Ident::new(&id, Span::call_site());
                        let id = format!("{}::{}", sname, id);
                        let l = (f.span().start().line, f.span().end().line);
                        let o = self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], true, false, l);
                        split(o, &mut inner, &mut hoisted);
                    }
                }
                let (g, _, w) = i.generics.split_for_impl();
                let st = &i.self_ty;
                out.push(quote!(impl #g #st #w { #(#inner)* }));
                out.extend(hoisted);
                return;
            }
            if mc.inherent.iter().any(|k| *k == desc) {
                // a trait method called by path: given as an inherent function so that it can have a precondition
                let err = i.items.iter().find_map(|x| if let ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.clone())) } else { None });
                let mut inner = vec![];
                for x in i.items.clone() {
                    if let ImplItem::Fn(mut f) = x {
                        if let Some((n, it)) = &err {
                            let k: &'static str = Box::leak(format!("Self::{}", n).into_boxed_str());
                            SelfItem(it.clone(), k).visit_signature_mut(&mut f.sig);
                        }
                        let id = format!("{}::{}", sname, f.sig.ident);
                        let l = (f.span().start().line, f.span().end().line);
                        let o = self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], true, false, l);
                        split(o, &mut inner, &mut hoisted);
                    }
                }
                let mut ip = i.clone();
                ip.items.clear();
                Paths.visit_item_impl_mut(&mut ip);
                let (g, _, w) = ip.generics.split_for_impl();
                let st = &ip.self_ty;
                out.push(quote!(impl #g #st #w { #(#inner)* }));
                out.extend(hoisted);
                return;
            }
            if !mc.keep.iter().any(|k| *k == desc) {
                self.dropped.push(format!("{}: {}", rel, desc));
                return;
            }
            let mut inner = vec![];
            for x in i.items.clone() {
                match x {
                    ImplItem::Fn(f) => {
                        let id = format!("{}@{}::{}", tn, sname, f.sig.ident);
                        let l = (f.span().start().line, f.span().end().line);
                        let o = self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], false, true, l);
                        split(o, &mut inner, &mut hoisted);
                    }
                    ImplItem::Type(mut t) => {
                        Paths.visit_impl_item_type_mut(&mut t);
                        inner.push(quote!(#t))
                    }
                    _ => {}
                }
            }
            let mut ip = i.clone();
            ip.items.clear();
            Paths.visit_item_impl_mut(&mut ip);
            // the specification may have to name an anonymous lifetime
            if tok(&ip.self_ty).contains("'_") {
                struct N;
                impl VisitMut for N {
                    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
                        if l.ident == "_" {
                            *l = Lifetime::new("'vx", l.span());
                        }
                    }
                }
                N.visit_type_mut(&mut ip.self_ty);
                ip.generics.params.insert(0, parse_quote!('vx));
                ip.generics.lt_token = Some(Default::default());
                ip.generics.gt_token = Some(Default::default());
            }
            let (g, _, w) = ip.generics.split_for_impl();
            let st = &ip.self_ty;
            let t2 = &ip.trait_.as_ref().unwrap().1;
            let raw = Ident::new(&format!("__vx_impl_{}_{}", tn, sname), Span::call_site());
            let spec = mc.fns.get(&format!("{}@{}::@spec", tn, sname)).map(|c| c.spec.clone()).unwrap_or_default();
            ITEMS.with(|i| i.borrow_mut().insert(raw.to_string(), spec));
            out.push(quote!(impl #g #t2 for #st #w { #raw!(); #(#inner)* }));
            out.extend(hoisted);
            return;
        }
        let mut inner = vec![];
        for x in i.items.clone() {
            match x {
                ImplItem::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let id = format!("{}::{}", sname, f.sig.ident);
                    if mc.drop.contains(&format!("fn {}", id)) {
                        self.dropped.push(format!("{}: fn {}", rel, id));
                        continue;
                    }
                    let l = (f.span().start().line, f.span().end().line);
                    let o = self.function(ctx, mc, name, rel, &id, &f.sig, Some(&f.block), &[], true, false, l);
                    split(o, &mut inner, &mut hoisted);
                }
                _ => self.dropped.push(format!("{}: associated item in impl {}", rel, sname)),
            }
        }
        i.items.clear();
        Paths.visit_item_impl_mut(&mut i);
        let (g, _, w) = i.generics.split_for_impl();
        let st = &i.self_ty;
        out.push(quote!(impl #g #st #w { #(#inner)* }));
        out.extend(hoisted);
    }
}

thread_local! {
    static ITEMS: std::cell::RefCell<HashMap<String, String>> = Default::default();
    static MONO: std::cell::RefCell<HashMap<String, (ItemTrait, String, String)>> = Default::default();
}

fn rustfmt(s: &str) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = match Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140,fn_call_width=120"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return s.to_string(),
    };
    ch.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if o.status.success() {
        String::from_utf8(o.stdout).unwrap()
    } else {
        eprintln!("rustfmt: {}", String::from_utf8_lossy(&o.stderr));
        s.to_string()
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

/// Replaces the markers by contract text.
fn post(text: &str, g: &Gen) -> String {
    let mut s = text.to_string();
    // module/trait items
    ITEMS.with(|it| {
        for (k, v) in it.borrow().iter() {
            s = s.replace(&format!("{}!();", k), v);
        }
    });
    // constant slices
    while let Some(p) = s.find("-> (__vx_raw_ret) {") {
        let q = p + s[p..].find("__vx_const_slice!(").unwrap();
        let e = q + s[q..].find(");").unwrap();
        let vals = s[q + "__vx_const_slice!(".len()..e].to_string();
        let seq = if vals.trim().is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", vals) };
        s.replace_range(p..e + 2, &format!("-> (r: &'static [u8]) ensures r@ == {} {{ proof {{ assert(r_vx_dummy()); }}", seq));
    }
    s = s.replace("proof { assert(r_vx_dummy()); }", "");
    for (n, f) in g.fns.iter().enumerate() {
        let c = &f.contract;
        // attribute
        let a = format!("#[__vx_attr({})]", n);
        let mut at = String::new();
        if let Some(r) = c.opts.get("rlimit") {
            at.push_str(&format!("#[verifier::rlimit({})]", r));
        }
        if c.opts.contains_key("spinoff") {
            at.push_str("#[verifier::spinoff_prover]");
        }
        if c.opts.contains_key("noloopiso") {
            at.push_str("#[verifier::loop_isolation(false)]");
        }
        at.push_str(c.attrs.trim());
        s = s.replace(&a, &format!("/*@fn {}*/ {}", n, at));
        let spec = if f.nospec { String::new() } else { c.spec.clone() };
        // return name
        let m = format!("__VxRet{}<", n);
        if let Some(p) = s.find(&m) {
            let st = p + m.len();
            let b = s.as_bytes();
            let mut d = 1;
            let mut i = st;
            while d > 0 {
                match b[i] {
                    b'<' => d += 1,
                    b'>' if b[i - 1] != b'-' => d -= 1,
                    _ => {}
                }
                i += 1;
            }
            let inner = s[st..i - 1].trim().trim_end_matches(',').to_string();
            s.replace_range(p..i, &format!("({}: {})", c.ret.as_ref().unwrap(), inner));
        }
        // body
        let m = format!("__vx_fn!({});", n);
        if let Some(p) = s.find(&m) {
            let o = s[..p].rfind('{').unwrap();
            s.replace_range(o..p + m.len(), &format!("\n/*@spec {}*/ {}\n{{", n, spec));
        }
        let m1 = format!("__VxDecl<{}>:", n);
        if let Some(p) = s.find(&m1) {
            let o = s[..p].rfind("where").unwrap();
            let e = p + s[p..].find(';').unwrap();
            s.replace_range(o..e + 1, &format!("\n/*@spec {}*/ {};", n, spec));
        }
        for (k, (_, t)) in &c.loops {
            let m = format!("__vx_loop!({}, {});", n, k);
            if let Some(p) = s.find(&m) {
                let o = s[..p].rfind('{').unwrap();
                s.replace_range(o..p + m.len(), &format!("\n/*@loop {} {}*/ {}\n{{", n, k, t));
            }
        }
        for (k, (ps, t)) in &c.closures {
            let m = format!("__vx_closure!({}, {});", n, k);
            if let Some(p) = s.find(&m) {
                let o = s[..p].rfind("|__vx_c: ()|").unwrap();
                s.replace_range(o..p + m.len(), &format!("|{}| {}\n{{", ps, t));
            }
        }
        for (k, (_, t)) in c.hints.iter().enumerate() {
            let m = format!("__vx_hint!({}, {});", n, k);
            s = s.replace(&m, &format!("\n/*@hint {} {}*/ {}\n", n, k, t));
        }
        s.push_str("");
    }
    s
}

fn main() {
    let a = parse_args();
    let src = PathBuf::from(&a["src"]);
    let mut g = Gen {
        fns: vec![],
        dropped: vec![],
        forced: HashMap::new(),
        nospec: HashSet::new(),
        baseline: HashMap::new(),
        contracts: PathBuf::from(&a["contracts"]),
        used_contracts: HashSet::new(),
        missing: vec![],
    };
    if let Some(f) = a.get("external") {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let mut w = l.splitn(2, '\t');
            let id = w.next().unwrap().to_string();
            let why = w.next().unwrap_or("").to_string();
            if why.starts_with("nospec") {
                g.nospec.insert(id.clone());
            }
            g.forced.insert(id, why);
        }
    }
    if let Some(f) = a.get("baseline") {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let mut w = l.splitn(2, '\t');
            let id = w.next().unwrap().to_string();
            g.baseline.insert(id, w.next().unwrap_or("").split('\u{2423}').map(|x| x.to_string()).collect());
        }
    }
    // DataType must be a one-byte enum for size_of to be folded
    let dt = std::fs::read_to_string(src.join("data_type.rs")).map(|t| t.contains("#[repr(u8)]\npub enum DataType")).unwrap_or(false);
    let body = g.module(&src, &src.join("lib.rs"), &src, "", 0, dt);
    let toks = format!("{}", body);
    let pretty = rustfmt(&toks);
    let body = post(&pretty, &g);
    let mut prelude = String::new();
    let mut rs: Vec<PathBuf> = std::fs::read_dir(&g.contracts).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().map(|x| x == "rs").unwrap_or(false)).collect()).unwrap_or_default();
    rs.sort();
    for p in rs {
        prelude.push_str(&std::fs::read_to_string(p).unwrap_or_default());
        prelude.push('\n');
    }
    let head = "#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments, unused_braces, unreachable_code, unused_unsafe, non_upper_case_globals, mismatched_lifetime_syntaxes, unreachable_patterns, unused_must_use)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\nverus! {\n";
    let full = format!("{}{}\n{}\n}}\nfn main() {{}}\n", head, prelude, body);
    std::fs::write(&a["out"], &full).unwrap();
    // line ranges of functions in the generated file
    let mut starts: HashMap<usize, usize> = HashMap::new();
    for (ln, l) in full.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*@fn ") {
            let e = p + rest[p..].find("*/").unwrap();
            starts.insert(rest[p + 6..e].trim().parse().unwrap(), ln + 1);
            rest = &rest[e..];
        }
    }
    let mut j = String::from("{\"functions\":[\n");
    for (n, f) in g.fns.iter().enumerate() {
        let st = starts.get(&n).copied().unwrap_or(0);
        let rules: Vec<String> = f.rules.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(
            j,
            "{}{{\"n\":{},\"id\":{},\"module\":{},\"file\":{},\"line\":{},\"end_line\":{},\"gen_line\":{},\"loops\":{},\"closures\":{},\"callees\":{},\"external\":{},\"nospec\":{},\"contract\":{},\"renamed\":{},\"guessed\":{},\"nhints\":{},\"unused\":{},\"rules\":{{{}}},\"tokens\":{}}}",
            if n > 0 { ",\n" } else { "" },
            n,
            js(&f.id),
            js(&f.module),
            js(&f.file),
            f.line,
            f.end_line,
            st,
            f.loops,
            f.closures,
            jl(&f.callees),
            f.external.as_ref().map(|e| js(e)).unwrap_or("null".into()),
            f.nospec,
            f.has_contract,
            f.renamed,
            f.guessed,
            f.contract.hints.iter().filter(|h| h.0 != "start").count(),
            jl(&f.unused),
            rules.join(","),
            js(&f.tokens.join("\u{2423}")),
        );
    }
    // contracts that found no function
    let mut orphans = vec![];
    if let Ok(rd) = std::fs::read_dir(&g.contracts) {
        for e in rd.flatten() {
            let p = e.path();
            if p.extension().map(|x| x == "vc").unwrap_or(false) {
                let m = contract::parse(&std::fs::read_to_string(&p).unwrap());
                let stem = p.file_stem().unwrap().to_string_lossy().to_string();
                for id in m.fns.keys() {
                    if id.contains("@spec") {
                        continue;
                    }
                    let hit = g.used_contracts.iter().any(|u| u.ends_with(&format!("::{}", id)) && {
                        let mo = &u[..u.len() - id.len() - 2];
                        mo.replace("::", "_") == stem || (mo.is_empty() && stem == "root")
                    });
                    if !hit {
                        orphans.push(format!("{}::{}", stem, id));
                    }
                }
            }
        }
    }
    let _ = write!(j, "\n],\"dropped\":{},\"orphans\":{},\"missing\":{}}}\n", jl(&g.dropped), jl(&orphans), jl(&g.missing));
    std::fs::write(&a["map"], j).unwrap();
    let _ = quote!(#src2).to_token_stream();
}

#[allow(non_upper_case_globals)]
const src2: u8 = 0;
