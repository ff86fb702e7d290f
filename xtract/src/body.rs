//! Rewriting of one function body (see DESIGN.md, "Extraction", for the list of rules).
use crate::contract::FnC;
use crate::Ctx;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn tok(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

pub fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push(o.into());
                flat(g.stream(), out);
                out.push(c.into());
            }
            t => out.push(t.to_string()),
        }
    }
}

/// What a body consists of, for comparison with the baseline.
#[derive(Default)]
pub struct Skeleton {
    pub loops: usize,
    pub closures: usize,
    pub callees: Vec<String>,
}

impl<'a> Visit<'a> for Skeleton {
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.loops += 1;
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.loops += 1;
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.loops += 1;
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        if let Some(n) = callee_name(&e.func) {
            self.callees.push(n);
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, e);
        self.callees.push(e.method.to_string());
    }
}

fn callee_name(f: &Expr) -> Option<String> {
    if let Expr::Path(p) = f {
        return p.path.segments.last().map(|s| s.ident.to_string());
    }
    None
}

/// Inserts hint markers. Anchors: `after let X`, `before call F n`, `after call F n`.
struct Marker<'c> {
    hints: &'c [(String, String)],
    calls: HashMap<String, usize>,
    used: HashSet<usize>,
    fnno: usize,
    loops: usize,
}

fn hint_stmt(fnno: usize, n: usize) -> Stmt {
    let f = proc_macro2::Literal::usize_unsuffixed(fnno);
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(__vx_hint!(#f, #n);)
}

struct DirectCalls(Vec<String>);
impl<'a> Visit<'a> for DirectCalls {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        visit::visit_expr_call(self, e);
        if let Some(n) = callee_name(&e.func) {
            self.0.push(n);
        }
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, e);
        self.0.push(e.method.to_string());
    }
}

impl<'c> VisitMut for Marker<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            let mut dc = DirectCalls(vec![]);
            dc.visit_stmt(&s);
            let mut before = vec![];
            let mut after = vec![];
            for c in &dc.0 {
                let n = self.calls.entry(c.clone()).or_insert(0);
                let k = *n;
                *n += 1;
                for (i, (a, _)) in self.hints.iter().enumerate() {
                    if *a == format!("before call {} {}", c, k) {
                        before.push(i);
                    }
                    if *a == format!("after call {} {}", c, k) {
                        after.push(i);
                    }
                }
            }
            if let Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) = &s {
                let k = self.loops;
                self.loops += 1;
                for (i, (a, _)) in self.hints.iter().enumerate() {
                    if *a == format!("before loop {}", k) {
                        before.push(i);
                    }
                    if *a == format!("after loop {}", k) {
                        after.push(i);
                    }
                }
            }
            if let Stmt::Local(l) = &s {
                let mut ids = HashSet::new();
                pat_idents(&l.pat, &mut ids);
                for (i, (a, _)) in self.hints.iter().enumerate() {
                    if let Some(n) = a.strip_prefix("after let ") {
                        if ids.contains(n) && !self.used.contains(&i) {
                            after.push(i);
                        }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            for i in before {
                self.used.insert(i);
                out.push(hint_stmt(self.fnno, i));
            }
            let tail_expr = matches!(&s, Stmt::Expr(_, None));
            // a hint behind the tail expression: name its value, prove, return it
            let plain_tail = tail_expr && !after.is_empty()
                && !matches!(&s, Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_), _));
            if plain_tail {
                if let Stmt::Expr(e, _) = s {
                    out.push(parse_quote!(let vx_r = #e;));
                    for i in after {
                        self.used.insert(i);
                        out.push(hint_stmt(self.fnno, i));
                    }
                    out.push(Stmt::Expr(parse_quote!(vx_r), None));
                }
                continue;
            }
            out.push(s);
            for i in after {
                self.used.insert(i);
                if tail_expr {
                    if let Some(Stmt::Expr(e, semi)) = out.last_mut() {
                        if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_)) {
                            *semi = Some(Default::default());
                        }
                    }
                }
                out.push(hint_stmt(self.fnno, i));
            }
        }
        b.stmts = out;
    }
}

pub fn pat_idents(p: &Pat, out: &mut HashSet<String>) {
    struct V<'x>(&'x mut HashSet<String>);
    impl<'a, 'x> Visit<'a> for V<'x> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.insert(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    V(out).visit_pat(p);
}

struct HasJump(bool);
impl<'a> Visit<'a> for HasJump {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
}

fn jumps(e: &Expr) -> bool {
    let mut h = HasJump(false);
    h.visit_expr(e);
    h.0
}

struct Rw<'c> {
    ctx: &'c Ctx,
    c: &'c FnC,
    fnno: usize,
    nloop: usize,
    nclosure: usize,
    strvars: HashSet<String>,
    sliceeq: HashSet<String>,
    derefshift: HashSet<String>,
    guards: bool,
    asref: HashSet<String>,
    conv: HashSet<String>,
    addref: HashMap<String, Option<usize>>,
    argasref: HashSet<String>,
    asstr: HashMap<String, Vec<usize>>,
    iternext: HashSet<String>,
    rename: HashMap<String, String>,
    rules: BTreeMap<String, usize>,
    nested: Vec<ItemFn>,
}

impl<'c> Rw<'c> {
    fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
    fn strlike(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|s| self.strvars.contains(s)),
            Expr::MethodCall(m) => {
                let s = format!("{}()", m.method);
                if self.strvars.contains(&s) {
                    Some(s)
                } else {
                    None
                }
            }
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = &*t.expr {
                    let s = format!("{}()", m.method);
                    if self.strvars.contains(&s) {
                        return Some(s);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn loop_mark(&self, body: &mut Block, n: usize) {
        if let Some((_, _)) = self.c.loops.get(&n) {
            let f = proc_macro2::Literal::usize_unsuffixed(self.fnno);
            let k = proc_macro2::Literal::usize_unsuffixed(n);
            let st: Stmt = parse_quote!(__vx_loop!(#f, #k););
            for (i, (a, _)) in self.c.hints.iter().enumerate() {
                if *a == format!("loop {} start", n) {
                    body.stmts.insert(0, hint_stmt(self.fnno, i));
                }
                if *a == format!("loop {} end", n) {
                    body.stmts.push(hint_stmt(self.fnno, i));
                }
            }
            body.stmts.insert(0, st);
        }
    }
}

fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if jumps(&c.body) {
            return None;
        }
        return Some((c.inputs.iter().cloned().collect(), (*c.body).clone()));
    }
    None
}

fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

impl<'c> VisitMut for Rw<'c> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // nested functions are hoisted
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) => {
                    let nn = format!("{}__{}", self.c.id.rsplit("::").next().unwrap(), f.sig.ident);
                    self.rename.insert(f.sig.ident.to_string(), nn);
                    self.nested.push(f);
                    self.rule("nested function hoisted to module level");
                }
                Stmt::Item(Item::Const(mut c)) => {
                    c.attrs.clear();
                    if matches!(&*c.expr, Expr::Repeat(_)) {
                        let (i, t, x) = (&c.ident, &c.ty, &c.expr);
                        keep.push(parse_quote!(let #i: #t = #x;));
                        self.rule("local constant array -> local variable");
                        continue;
                    }
                    keep.push(Stmt::Item(Item::Const(c)))
                }
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
        // statement macros
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "debug_assert" || name == "debug_assert_eq" || name == "assert" {
                    let txt = m.mac.tokens.to_string();
                    if txt.contains("capacity") {
                        self.rule("debug_assert about Vec capacity dropped");
                        continue;
                    }
                    if name == "debug_assert" || name == "assert" {
                        let args = m
                            .mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(args) = args {
                            let mut cond = args[0].clone();
                            self.visit_expr_mut(&mut cond);
                            self.rule("debug_assert!(e) -> if !(e) { unreached() }");
                            out.push(parse_quote!(if !(#cond) { crate::prelude::vx_debug_assert_failed(); }));
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // constant patterns
        if let Pat::Ident(i) = p {
            if i.subpat.is_none() && i.by_ref.is_none() {
                if let Some(v) = self.ctx.const_u8.get(&i.ident.to_string()) {
                    let l = LitInt::new(&format!("{}u8", v), Span::call_site());
                    *p = Pat::Lit(parse_quote!(#l));
                    self.rule("constant pattern replaced by its value");
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut loop_no = None;
        let mut closure_no = None;
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                loop_no = Some(self.nloop);
                self.nloop += 1;
            }
            Expr::Closure(_) => {
                closure_no = Some(self.nclosure);
                self.nclosure += 1;
            }
            _ => {}
        }
        // match X { P if g => .. }: the verifier loses a &mut changed in a guarded arm, so the guards are evaluated first
        if let Expr::Match(m) = e {
            if self.guards && matches!(&*m.expr, Expr::MethodCall(_)) && m.arms.iter().any(|a| a.guard.is_some()) {
                let s = m.expr.clone();
                let ids: Vec<Ident> = (0..m.arms.len()).filter(|i| m.arms[*i].guard.is_some()).map(|i| format_ident!("vx_g{}", i)).collect();
                let mut lets: Vec<Stmt> = vec![];
                let mut arms: Vec<Arm> = vec![];
                for (i, a) in m.arms.iter().enumerate() {
                    let own = format_ident!("vx_g{}", i);
                    let p = &a.pat;
                    let body = &a.body;
                    if let Some((_, g)) = &a.guard {
                        lets.push(parse_quote!(let #own = match vx_s { #p => #g, _ => false };));
                    }
                    let flags: Vec<Pat> = ids.iter().map(|x| if *x == own { parse_quote!(true) } else { parse_quote!(_) }).collect();
                    let n: Pat = parse_quote!((#p, #(#flags),*));
                    arms.push(parse_quote!(#n => { #body }));
                }
                *e = parse_quote!({ let vx_s = #s; #(#lets)* match (vx_s, #(#ids),*) { #(#arms),* } });
                self.rule("match guards evaluated before the match");
            }
        }
        // byte-slice constants matched as patterns: match X { A => .., B => .., _ => .. }
        if let Expr::Match(m) = e {
            let all = m.arms.iter().any(|a| match &a.pat {
                Pat::Ident(i) => self.ctx.const_slices.contains(&i.ident.to_string()),
                _ => false,
            });
            if all {
                let scrut = m.expr.clone();
                let mut acc: Option<Expr> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    match &a.pat {
                        Pat::Wild(_) if acc.is_none() => acc = Some(parse_quote!({ #body })),
                        Pat::Ident(i) if acc.is_some() && a.guard.is_none() => {
                            let id = &i.ident;
                            let prev = acc.take().unwrap();
                            acc = Some(parse_quote!(if crate::prelude::vx_slice_eq(#scrut, #id) { #body } else { #prev }));
                        }
                        _ => ok = false,
                    }
                }
                if ok {
                    if let Some(n) = acc {
                        *e = n;
                        self.rule("match on byte-slice constants -> comparisons");
                    }
                }
            }
        }
        // from_le_bytes(X.try_into().unwrap())
        if let Expr::Call(c) = e {
            let f = tok(&c.func).replace(' ', "");
            if let Some(t) = f.strip_suffix("::from_le_bytes") {
                if c.args.len() == 1 {
                    let a = tok(&c.args[0]).replace(' ', "");
                    if let Some(x) = a.strip_suffix(".try_into().unwrap()") {
                        let xe: Expr = parse_str(x).unwrap();
                        let fnm = format_ident!("vx_{}_from_le_slice", t);
                        *e = parse_quote!(crate::prelude::#fnm(#xe));
                        self.rule("T::from_le_bytes(slice.try_into().unwrap()) -> helper requiring the length");
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // loops
        if let Some(n) = loop_no {
            match e {
                Expr::While(w) => self.loop_mark(&mut w.body, n),
                Expr::Loop(l) => self.loop_mark(&mut l.body, n),
                Expr::ForLoop(f) => {
                    let kind = self.c.loops.get(&n).map(|x| x.0.clone()).unwrap_or_default();
                    let is_range = matches!(&*f.expr, Expr::Range(_));
                    // the annotations were written for a loop over the elements, the code counts through 0..x.len()
                    let counts = is_range && kind != "desugar" && self.c.loops.get(&n).map_or(false, |x| x.1.contains(&format!("vi{}", n))) && matches!(&*f.expr, Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.as_ref().map_or(false, |a| tok(a) == "0") && matches!(r.end.as_deref(), Some(Expr::MethodCall(m)) if m.method == "len" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_))));
                    if counts {
                        let (vs, vi) = (format_ident!("vs{}", n), format_ident!("vi{}", n));
                        let base = match &*f.expr {
                            Expr::Range(r) => match r.end.as_deref() {
                                Some(Expr::MethodCall(m)) => (*m.receiver).clone(),
                                _ => unreachable!(),
                            },
                            _ => unreachable!(),
                        };
                        let pat = (*f.pat).clone();
                        let inner = f.body.stmts.clone();
                        self.rule("for over 0..x.len() -> while over indices");
                        let mut blk: Block = parse_quote!({
                            let #pat = #vi;
                            #vi += 1;
                            #(#inner)*
                        });
                        self.loop_mark(&mut blk, n);
                        let b: Expr = parse_quote!(&#base);
                        *e = parse_quote!({ let #vs = #b; let mut #vi: usize = 0; while #vi < #vs.len() #blk });
                    } else if is_range && kind != "desugar" {
                        // Verus supports ranges; the body gets the invariant.
                        self.loop_mark(&mut f.body, n);
                    } else {
                        let pat = (*f.pat).clone();
                        let mut body = f.body.clone();
                        let ex = (*f.expr).clone();
                        *e = self.for_loop(n, &kind, pat, ex, &mut body);
                    }
                }
                _ => {}
            }
            return;
        }
        if let Some(k) = closure_no {
            if self.c.closures.contains_key(&k) {
                if let Expr::Closure(c) = e {
                    let (params, _) = &self.c.closures[&k];
                    let mut binds: Vec<Stmt> = vec![];
                    if !params.is_empty() {
                        let names: Vec<String> = params.split(',').map(|p| p.split(':').next().unwrap().trim().to_string()).collect();
                        for (nm, p) in names.iter().zip(c.inputs.iter()) {
                            let p = untyped(p);
                            if tok(&p) != *nm && !matches!(p, Pat::Wild(_)) {
                                let id = Ident::new(nm, Span::call_site());
                                if let Pat::Reference(rp) = &p {
                                    let q = &rp.pat;
                                    binds.push(parse_quote!(let #q = *#id;));
                                } else {
                                    binds.push(parse_quote!(let #p = #id;));
                                }
                            }
                        }
                    }
                    let f = proc_macro2::Literal::usize_unsuffixed(self.fnno);
                    let kk = proc_macro2::Literal::usize_unsuffixed(k);
                    let body = &c.body;
                    let tail: Vec<Stmt> = match &**body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        b => vec![Stmt::Expr(b.clone(), None)],
                    };
                    let mut hs: Vec<Stmt> = vec![];
                    let mut he: Vec<Stmt> = vec![];
                    for (i, (a, _)) in self.c.hints.iter().enumerate() {
                        if *a == format!("closure {} start", k) {
                            hs.push(hint_stmt(self.fnno, i));
                        }
                        if *a == format!("closure {} end", k) {
                            he.push(hint_stmt(self.fnno, i));
                        }
                    }
                    let (last, init) = match tail.split_last() { Some((l, i)) => (vec![l.clone()], i.to_vec()), None => (vec![], vec![]) };
                    *e = parse_quote!(|__vx_c: ()| { __vx_closure!(#f, #kk); #(#binds)* #(#hs)* #(#init)* #(#he)* #(#last)* });
                }
            }
            return;
        }
        self.post(e);
    }
}

impl<'c> Rw<'c> {
    fn for_loop(&mut self, n: usize, kind: &str, pat: Pat, ex: Expr, body: &mut Block) -> Expr {
        let vs = format_ident!("vs{}", n);
        let vi = format_ident!("vi{}", n);
        let it = format_ident!("vit{}", n);
        // split X.iter().enumerate() / X.iter().skip(k)
        let mut base = ex.clone();
        let mut enumerate = false;
        let mut skip: Option<Expr> = None;
        loop {
            if let Expr::MethodCall(m) = &base {
                let name = m.method.to_string();
                if name == "enumerate" {
                    enumerate = true;
                    base = (*m.receiver).clone();
                    continue;
                }
                if name == "skip" && m.args.len() == 1 && skip.is_none() {
                    skip = Some(m.args[0].clone());
                    base = (*m.receiver).clone();
                    continue;
                }
                if name == "iter" && kind != "iter" && kind != "into" {
                    base = (*m.receiver).clone();
                    continue;
                }
            }
            break;
        }
        if kind == "into" {
            self.rule("for over a map -> loop over next()");
            let inner = &body.stmts;
            let mut blk: Block = parse_quote!({
                let #pat = match #it.iter_next() { None => { break; } Some(vx_x) => vx_x };
                #(#inner)*
            });
            self.loop_mark(&mut blk, n);
            return parse_quote!({ let mut #it = (#ex).vx_iter(); loop #blk });
        }
        if kind == "iter" {
            // zip
            if let Expr::MethodCall(m) = &ex {
                if m.method == "zip" && m.args.len() == 1 {
                    self.rule("for over zip of library iterators -> loop over both next()");
                    let a = &m.receiver;
                    let b = &m.args[0];
                    let it2 = format_ident!("vjt{}", n);
                    let inner = &body.stmts;
                    let mut blk: Block = parse_quote!({
                        let vx_l = match #it.iter_next() { None => { break; } Some(vx_l) => vx_l };
                        let vx_r = match #it2.iter_next() { None => { break; } Some(vx_r) => vx_r };
                        let #pat = (vx_l, vx_r);
                        #(#inner)*
                    });
                    self.loop_mark(&mut blk, n);
                    return parse_quote!({ let mut #it = #a; let mut #it2 = #b; loop #blk });
                }
            }
            self.rule("for over a library iterator -> loop over next()");
            let inner = &body.stmts;
            let mut blk: Block = parse_quote!({
                let #pat = match #it.iter_next() { None => { break; } Some(vx_x) => vx_x };
                #(#inner)*
            });
            self.loop_mark(&mut blk, n);
            return parse_quote!({ let mut #it = #ex; loop #blk });
        }
        if let (Expr::Range(r), "desugar") = (&ex, kind) {
            let (Some(a), Some(b)) = (r.start.as_ref(), r.end.as_ref()) else {
                let b = body.clone();
                return parse_quote!(for #pat in #ex #b);
            };
            let b: Expr = if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                parse_quote!((#b) + 1)
            } else {
                (**b).clone()
            };
            let inner = &body.stmts;
            self.rule("for over a range -> while");
            let mut blk: Block = parse_quote!({
                let #pat = #vi;
                #vi += 1;
                #(#inner)*
            });
            self.loop_mark(&mut blk, n);
            return parse_quote!({ let mut #vi = #a; let #vs = #b; while #vi < #vs #blk });
        }
        if enumerate && skip.is_some() {
            // the order of skip and enumerate matters: left to Verus (unsupported)
            let b = body.clone();
            return parse_quote!(for #pat in #ex #b);
        }
        self.rule("for over a slice -> while over indices");
        let inner = &body.stmts;
        let start: Expr = skip.unwrap_or_else(|| parse_quote!(0));
        let bind: Stmt = if enumerate {
            parse_quote!(let #pat = (#vi, &#vs[#vi]);)
        } else {
            parse_quote!(let #pat = &#vs[#vi];)
        };
        // `&PAT` against a reference: copy out
        let bind: Vec<Stmt> = match (&pat, enumerate) {
            (Pat::Reference(r), false) => {
                let p = &r.pat;
                vec![parse_quote!(let #p = #vs[#vi];)]
            }
            (Pat::Tuple(t), true) if t.elems.len() == 2 => {
                let a = &t.elems[0];
                match &t.elems[1] {
                    Pat::Reference(r) => {
                        let p = &r.pat;
                        vec![parse_quote!(let #a = #vi;), parse_quote!(let #p = #vs[#vi];)]
                    }
                    p => vec![parse_quote!(let #a = #vi;), parse_quote!(let #p = &#vs[#vi];)],
                }
            }
            _ => vec![bind],
        };
        let mut blk: Block = parse_quote!({
            #(#bind)*
            #vi += 1;
            #(#inner)*
        });
        self.loop_mark(&mut blk, n);
        let b: Expr = if kind == "array" { parse_quote!(&#base) } else { base };
        parse_quote!({ let #vs = #b; let mut #vi: usize = #start; while #vi < #vs.len() #blk })
    }

    fn post(&mut self, e: &mut Expr) {
        // AsRef<str> instantiated at String
        if !self.asstr.is_empty() {
            let hit = match e {
                Expr::Call(c) => callee_name(&c.func).and_then(|n| self.asstr.get(&n)).map(|k| (&mut c.args, k.clone())),
                Expr::MethodCall(m) => self.asstr.get(&m.method.to_string()).map(|k| (&mut m.args, k.clone())),
                _ => None,
            };
            if let Some((args, ks)) = hit {
                let mut n = 0;
                for k in ks {
                    if let Some(a) = args.iter_mut().nth(k) {
                        let x = a.clone();
                        *a = parse_quote!(#x.as_str());
                        n += 1;
                    }
                }
                for _ in 0..n {
                    self.rule("String argument of an AsRef<str> parameter: as_str() made explicit");
                }
            }
        }
        match e {
            Expr::Unsafe(u) => {
                let b = &u.block;
                let b2 = if b.stmts.len() == 1 { if let Stmt::Expr(x, None) = &b.stmts[0] { Some(x.clone()) } else { None } } else { None };
                *e = match b2 {
                    Some(x) if !matches!(x, Expr::Match(_) | Expr::If(_) | Expr::Block(_)) => parse_quote!((#x)),
                    _ => parse_quote!(#b),
                };
                self.rule("unsafe block opened (the called functions carry their safety condition as precondition)");
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "unreachable" || name == "panic" {
                    *e = parse_quote!(crate::prelude::vx_unreachable());
                    self.rule("unreachable!() -> call with precondition false");
                } else if name == "matches" {
                    // macro arguments are expanded here so that constants in them are seen
                    struct M(Expr, Pat);
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            Ok(M(e, p))
                        }
                    }
                    if let Ok(M(mut x, p)) = m.mac.parse_body::<M>() {
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!((match #x { #p => true, _ => false }));
                        self.rule("matches!(e, p) -> match");
                    }
                } else if name == "write" {
                    // write!(w, "{}", x): what x displays is specified by its vx_display
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        if args.len() == 3 && tok(&args[1]) == "\"{}\"" {
                            let (mut w, mut x) = (args[0].clone(), args[2].clone());
                            self.visit_expr_mut(&mut w);
                            self.visit_expr_mut(&mut x);
                            *e = parse_quote!(#x.vx_display(#w));
                            self.rule("write!(w, \"{}\", x) -> x.vx_display(w)");
                        }
                    }
                } else if name == "vec" && m.mac.tokens.is_empty() {
                    *e = parse_quote!(Vec::new());
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v: Vec<LitInt> = b.value().iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site())).collect();
                *e = parse_quote!((&[#(#v),*]));
                self.rule("byte string literal -> array literal");
            }
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => {
                let l = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                *e = parse_quote!(#l);
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if self.ctx.const_slices.contains(&s) {
                        *e = parse_quote!(#i());
                        self.rule("constant byte slice -> function returning it");
                    } else if let Some(n) = self.rename.get(&s) {
                        let n = Ident::new(n, Span::call_site());
                        *e = parse_quote!(#n);
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(ix) = &mut *r.expr {
                    if matches!(&*ix.index, Expr::Range(_)) {
                        let x = &ix.expr;
                        *ix.expr = parse_quote!(#x.as_mut_slice());
                        self.rule("&mut vec[a..b] -> &mut vec.as_mut_slice()[a..b]");
                    }
                }
            }
            Expr::Index(ix) => {
                let s = tok(&ix.expr);
                if self.ctx.tables.contains(&s) {
                    let f = format_ident!("{}_at", s);
                    let i = &ix.index;
                    *e = parse_quote!(#f(#i));
                    self.rule("constant table lookup -> function with one arm per entry");
                }
            }
            Expr::Call(c) => {
                let f = tok(&c.func).replace(' ', "");
                if let Some(x) = f.strip_suffix(">") {
                    if let Some(k) = x.find("size_of::<") {
                        let t = &x[k + 10..];
                        *e = self.size_of(t);
                        return;
                    }
                }
                if f.ends_with("from_utf8_unchecked") && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!(crate::prelude::vx_from_utf8_unchecked(#a));
                    self.rule("from_utf8_unchecked -> helper requiring valid UTF-8");
                    return;
                }
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(k) = self.addref.get(&last) {
                        if let Some(a) = (match k { Some(k) => c.args.iter_mut().nth(*k), None => c.args.last_mut() }) {
                            let x = a.clone();
                            *a = parse_quote!(&#x);
                        }
                    }
                }
            }
            Expr::Try(t) => {
                let inner = &t.expr;
                let last = match &**inner {
                    Expr::Call(c) => callee_name(&c.func),
                    Expr::MethodCall(m) => Some(m.method.to_string()),
                    Expr::Match(_) => Some("match".into()),
                    _ => None,
                };
                if let Some(l) = last {
                    if self.conv.contains(&l) || self.conv.contains("*") {
                        *e = parse_quote!((match #inner { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(From::from(vx_e)); } }));
                        self.rule("e? -> match with From::from");
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) => {
                // the operand is a reference to a table entry: Verus has no specification for `<<= &u8`
                if self.derefshift.contains(&tok(&b.right)) {
                    let r = &b.right;
                    b.right = parse_quote!((*#r));
                    self.rule("shift by a reference -> shift by the value");
                }
            }
            Expr::Binary(b) => {
                let op = match &b.op {
                    BinOp::Eq(_) => "eq",
                    BinOp::Ne(_) => "ne",
                    BinOp::Lt(_) => "lt",
                    BinOp::Gt(_) => "gt",
                    _ => return,
                };
                if self.strlike(&b.left).is_some() && self.strlike(&b.right).is_some() {
                    let f = format_ident!("vx_str_{}", op);
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(crate::prelude::#f(#l, #r));
                    self.rule("str comparison -> helper with byte-wise specification");
                    return;
                }
                let lt = tok(&b.left).replace(' ', "");
                if self.sliceeq.contains(&lt) && (op == "eq" || op == "ne") {
                    let (l, r) = (&b.left, &b.right);
                    *e = if op == "eq" {
                        parse_quote!(crate::prelude::vx_slice_eq(#l, #r))
                    } else {
                        parse_quote!(!crate::prelude::vx_slice_eq(#l, #r))
                    };
                    self.rule("byte-slice comparison -> helper with view equality");
                }
            }
            Expr::MethodCall(_) => self.method(e),
            _ => {}
        }
    }

    fn size_of(&mut self, t: &str) -> Expr {
        self.rule("size_of::<T>() folded");
        match t {
            "u8" | "i8" | "bool" => parse_quote!(1),
            "u16" | "i16" => parse_quote!(2),
            "u32" | "i32" => parse_quote!(4),
            "u64" | "i64" => parse_quote!(8),
            "DataType" if self.ctx.datatype_u8 => parse_quote!(1),
            _ => parse_quote!(crate::prelude::vx_size_of_opaque()),
        }
    }

    fn method(&mut self, e: &mut Expr) {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return,
        };
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let asref_recv = |s: &Self| match &recv {
            Expr::Path(p) => p.path.get_ident().map(|i| s.asref.contains(&i.to_string())).unwrap_or(false),
            _ => false,
        };
        match (name.as_str(), args.len()) {
            ("as_ref", 0) if asref_recv(self) => {
                *e = recv;
                self.rule("AsRef parameter instantiated at a reference; as_ref() dropped");
            }
            ("as_ref", 0) if self.strlike(&recv).is_some() => {
                *e = recv;
                self.rule("as_ref() on a string reference dropped");
            }
            ("len", 0) if self.strlike(&recv).is_some() => {
                *e = parse_quote!(crate::prelude::vx_str_len(#recv));
                self.rule("str::len -> helper specified by the encoded bytes");
            }
            ("cmp", 1) if self.strlike(&recv).is_some() => {
                let a = &args[0];
                *e = parse_quote!(crate::prelude::vx_str_cmp(#recv, #a));
                self.rule("str::cmp -> helper with byte-wise specification");
            }
            ("eq", 1) if self.strlike(&recv).is_some() => {
                let a = &args[0];
                *e = parse_quote!(crate::prelude::vx_str_eq(#recv, #a));
                self.rule("str comparison -> helper with byte-wise specification");
            }
            ("next", 0) if self.iternext.contains(&tok(&recv).replace(' ', "")) => {
                *e = parse_quote!(#recv.iter_next());
                self.rule("Iterator::next -> inherent iter_next");
            }
            ("to_le_bytes", 0) | ("to_be_bytes", 0) => {
                let f = format_ident!("vx_{}", name);
                *e = parse_quote!(#recv.#f());
                self.rule("T::to_le_bytes/to_be_bytes -> helper specified by the byte sequence");
            }
            ("zip", 1) => {}
            ("copy_within", 2) => {
                if let Expr::Range(r) = &args[0] {
                    if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let d = &args[1];
                        *e = parse_quote!(crate::prelude::vx_copy_within(#recv, #a, #b, #d));
                        self.rule("copy_within(a..b, d) -> helper with the specification of slice::copy_within");
                    }
                }
            }
            ("map_or_else", 2) => {
                if let Some((p0, b0)) = closure_parts(&args[0]) {
                    if let Some((p1, b1)) = closure_parts(&args[1]) {
                        if p1.len() == 1 {
                            let q1 = untyped(&p1[0]);
                            if p0.is_empty() {
                                *e = parse_quote!((match #recv { None => #b0, Some(#q1) => #b1 }));
                                self.rule("Option/Result combinator -> match");
                            } else if p0.len() == 1 {
                                let q0 = untyped(&p0[0]);
                                *e = parse_quote!((match #recv { Err(#q0) => #b0, Ok(#q1) => #b1 }));
                                self.rule("Option/Result combinator -> match");
                            }
                        }
                    } else if tok(&args[1]) == "Ok" && p0.len() == 1 {
                        let q0 = untyped(&p0[0]);
                        *e = parse_quote!((match #recv { Err(#q0) => #b0, Ok(vx_v) => Ok(vx_v) }));
                        self.rule("Option/Result combinator -> match");
                    }
                }
            }
            ("ok_or_else", 1) => {
                if let Some((p0, b0)) = closure_parts(&args[0]) {
                    if p0.is_empty() {
                        *e = parse_quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b0) }));
                        self.rule("Option/Result combinator -> match");
                    }
                }
            }
            ("map_err", 1) => {
                if let Some((p0, b0)) = closure_parts(&args[0]) {
                    let q0 = untyped(&p0[0]);
                    *e = parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(#q0) => Err(#b0) }));
                    self.rule("Option/Result combinator -> match");
                } else if let Expr::Path(p) = &args[0] {
                    *e = parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#p(vx_e)) }));
                    self.rule("Option/Result combinator -> match");
                }
            }
            ("map_or", 2) => {
                if let (Some((p1, b1)), true) = (closure_parts(&args[1]), matches!(&args[0], Expr::Lit(_))) {
                    let q1 = untyped(&p1[0]);
                    let d = &args[0];
                    *e = parse_quote!((match #recv { None => #d, Some(#q1) => #b1 }));
                    self.rule("Option/Result combinator -> match");
                }
            }
            ("count", 0) => {
                // X.iter().take_while(F).count()
                if let Expr::MethodCall(tw) = &recv {
                    if tw.method == "take_while" && tw.args.len() == 1 {
                        if let Expr::MethodCall(it) = &*tw.receiver {
                            if it.method == "iter" {
                                let x = &it.receiver;
                                let f = &tw.args[0];
                                *e = parse_quote!(crate::prelude::vx_count_while(#x, #f));
                                self.rule("iter().take_while(f).count() -> verified helper loop");
                            }
                        }
                    }
                }
            }
            _ => {
                if let Some(k) = self.addref.get(&name) {
                    if let Expr::MethodCall(m) = e {
                        if let Some(a) = (match k { Some(k) => m.args.iter_mut().nth(*k), None => m.args.last_mut() }) {
                            let x = a.clone();
                            *a = parse_quote!(&#x);
                        }
                        self.rule("AsRef argument passed by reference");
                    }
                } else if self.argasref.contains(&name) {
                    if let Expr::MethodCall(m) = e {
                        if let Some(a) = m.args.last_mut() {
                            let x = a.clone();
                            *a = parse_quote!(#x.as_ref());
                        }
                        self.rule("AsRef argument: as_ref() made explicit");
                    }
                }
            }
        }
    }
}

pub struct Done {
    pub nested: Vec<ItemFn>,
    pub rules: BTreeMap<String, usize>,
    pub unused_hints: Vec<String>,
}

/// Rewrites `block` in place.
pub fn rewrite(ctx: &Ctx, c: &FnC, fnno: usize, block: &mut Block, asref_params: HashSet<String>, str_params: HashSet<String>, prename: HashMap<String, String>, guards: bool) -> Done {
    let set = |k: &str| -> HashSet<String> {
        c.opts.get(k).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default()
    };
    let mut mk = Marker { hints: &c.hints, calls: HashMap::new(), used: HashSet::new(), fnno, loops: 0 };
    mk.visit_block_mut(block);
    let mut used = mk.used;
    let mut strvars = set("strvars");
    strvars.extend(str_params);
    let mut rw = Rw {
        ctx,
        c,
        fnno,
        nloop: 0,
        nclosure: 0,
        strvars,
        sliceeq: set("sliceeq"),
        derefshift: set("derefshift"),
        guards,
        asref: asref_params,
        conv: set("conv"),
        addref: set("addref")
            .into_iter()
            .map(|x| match x.split_once(':') {
                Some((n, k)) => (n.to_string(), k.parse().ok()),
                None => (x, None),
            })
            .collect(),
        argasref: set("argasref"),
        asstr: c
            .opts
            .get("asstr")
            .map(|s| {
                s.split(',')
                    .map(|x| {
                        let mut w = x.split(':');
                        (w.next().unwrap().to_string(), w.filter_map(|k| k.parse().ok()).collect())
                    })
                    .collect()
            })
            .unwrap_or_default(),
        iternext: set("iternext"),
        rename: prename,
        rules: BTreeMap::new(),
        nested: vec![],
    };
    if let Some(names) = c.opts.get("viaderef") {
        // auto-deref of self made explicit
        struct D(HashSet<String>, usize);
        impl VisitMut for D {
            fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, m);
                if tok(&m.receiver) == "self" && self.0.contains(&m.method.to_string()) {
                    m.receiver = parse_quote!(self.deref());
                    self.1 += 1;
                }
            }
        }
        let mut d = D(names.split(',').map(|x| x.to_string()).collect(), 0);
        d.visit_block_mut(block);
        for _ in 0..d.1 {
            rw.rule("deref coercion of self made explicit");
        }
    }
    rw.visit_block_mut(block);
    if c.opts.contains_key("selfderef") {
        // deref coercion made explicit
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            if tok(e) == "self" {
                *e = parse_quote!(self.deref());
                rw.rule("deref coercion of self made explicit");
            }
        }
    }
    let nloop = rw.nloop;
    let nclosure = rw.nclosure;
    for (i, (a, _)) in c.hints.iter().enumerate() {
        let w: Vec<&str> = a.split(' ').collect();
        match w[0] {
            "start" => {
                block.stmts.insert(0, hint_stmt(fnno, i));
                used.insert(i);
            }
            "end" => {
                let at = match block.stmts.last() {
                    Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                    _ => block.stmts.len(),
                };
                block.stmts.insert(at, hint_stmt(fnno, i));
                used.insert(i);
            }
            "bodywrap" => {
                used.insert(i);
            }
            "loop" if w[1].parse::<usize>().unwrap() < nloop => {
                used.insert(i);
            }
            "closure" if w[1].parse::<usize>().unwrap() < nclosure => {
                used.insert(i);
            }
            _ => {}
        }
    }
    let mut unused: Vec<String> = c.hints.iter().enumerate().filter(|(i, _)| !used.contains(i)).map(|(_, (a, _))| format!("hint {}", a)).collect();
    for k in c.loops.keys() {
        if *k >= nloop {
            unused.push(format!("loop {}", k));
        }
    }
    for k in c.closures.keys() {
        if *k >= nclosure {
            unused.push(format!("closure {}", k));
        }
    }
    let _ = quote!();
    Done { nested: rw.nested, rules: rw.rules, unused_hints: unused }
}
