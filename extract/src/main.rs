//! Cuts functions and types out of the sources of /repo and attaches the contracts of a unit to them.
//!
//!     extract REPO TEMPLATE OUT REPORT [--vacuity]
//!
//! The text of bodies is copied byte by byte; everything this tool adds or changes is one of the rules below, and is
//! listed in REPORT. Exit 2: an anchor was lost (the message says which), so that the unit is undecided.
//!
//! Template lines are copied, except for directives:
//!   //# include FILE
//!   //# mode prove|assume             assume: signatures and contracts only, the bodies are proved in another unit
//!   //# unit-mode UNIT..             prove in these units, assume in all others
//!   //# item FILE KIND NAME [derive(..)] a type; attributes and documentation are dropped, fields are made public
//!                                    (each trait in it, other than Eq, Structural and Debug, is checked to be derived in the source too)
//!   //# derived FILE NAME TRAIT..    checks that the type derives these (the unit spells out what derive generates)
//!   //# sub /text/ => /text/          for the items and functions that follow: a type the verifier can not take is replaced
//!   //# specfn FILE PATH HEAD         the function lifted into the logic: pub open spec fn HEAD, self is x, "lit" is "lit"@
//!   //# strlits FILE PATH             reveal_strlit(..) for all strings in a function
//!   //# if prove|assume, //# if-unit UNIT.., //# if-not-unit UNIT.. .. //# end-if
//!   //# fn FILE PATH                  NAME, TYPE::NAME, TRAIT::NAME (default method) or TRAIT/TYPE::NAME (method of an impl)
//!     //# ret NAME                    names the result
//!     //# attr #[..]                  attribute for the verifier
//!     //# spec                        contract, up to the next directive
//!     //# loop N [NAME]               invariant of the Nth loop (in source order), NAME for the ghost iterator of a for loop, =NAME for rule R8
//!     //# ghost WHERE                 ghost code at: start | end | tail (before the last statement) | loop N start | loop N end | loop N before | loop N after | loop N init | loop N done (R8: before and after the loop, where the iterator is there)
//!                                     | let NAME after | call NAME N before | call NAME N after (the statement that has the Nth call of NAME)
//!     //# closure N HEAD              the Nth closure gets the parameters and contract in HEAD instead of |..|
//!     //# call N NAME                 (rule R1, see below) for the Nth iterator chain
//!     //# arms return                the arms of a match under rule R5 that is the value of the body become return statements
//!     //# tsub /text/ => /text/      a default method of a trait copied into an impl: the type parameter by its value
//!     //# append NAME..               rule R9 for these variables, which hold a String
//!     //# replace /text/ => /text/    exact text in the body (each is reported)
//!   //# endfn
//! Rules applied to bodies:
//!   R1  E.iter().m(C), E.iter().enumerate().m(C).collect() .. with m in position, find, any, all, filter_map ...
//!       becomes vx_NAME(&E, C); vx_NAME is a verified function of the prelude with the meaning of the chain
//!   R2  |PATTERN| B becomes |vx_p| { let PATTERN = vx_p; B }, |&x| B becomes |vx_p| { let x = *vx_p; B }
//!   R4  fn f(mut self, ..) { B } becomes fn f(self, ..) { let mut vx_self = self; B[self := vx_self] }
//!       fn f(mut x: T, ..) { B } becomes fn f(x: T, ..) { let mut x = x; B }
//!   R5  match E { "a" => X, "b" | "c" => Y, x => Z } becomes { let vx_s = E; if vx_streq(vx_s, "a") { X } else if .. else { let x = vx_s; Z } },
//!       and b"a" the same with vx_byteq
//!   R6  format!(..) becomes vx_message(), a String nothing is known about, where no other replacement is given
//!   R7  E.retain(C) becomes vx_retain(&mut E, C)
//!   R8  for P in E { B } over an iterator of /repo becomes match E { mut IT => { while let Some(P) = IT.next() { B } } }, which is what it means
//!   R9  S += E, S a String, becomes vx_append(&mut S, E)
//!   R3  eprintln!(..) and debug_assert!(..) statements are dropped
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

type R<T> = Result<T, String>;

struct Src { text: String, ast: syn::File }
struct Tool { unit: String, repo: String, dir: String, files: BTreeMap<String, Src>, out: String, subs: Vec<(String, String)>, assume: bool, vacuity: bool,
    functions: Vec<String>, assumed: Vec<String>, changes: Vec<String> }

fn rng<T: Spanned>(t: &T) -> Range<usize> { t.span().byte_range() }

#[derive(Default, Debug, Clone)]
struct FnDir { file: String, path: String, ret: Option<String>, attrs: Vec<String>, spec: String, loops: BTreeMap<usize, (Option<String>, String)>,
    ghost: Vec<(String, String)>, closures: BTreeMap<usize, String>, calls: BTreeMap<usize, String>, replace: Vec<(String, String)>, tsub: Vec<(String, String)>, assume: bool, nobody: bool, arms_return: bool, append: Vec<String> }

fn two(s: &str) -> R<(String, String)> {
    let (a, b) = s.split_once(" => ").ok_or(format!("bad replacement: {}", s))?;
    let un = |x: &str| -> R<String> { let x = x.trim(); if x.len() < 2 || !x.starts_with('/') || !x.ends_with('/') { return Err(format!("bad replacement: {}", s)); } Ok(x[1..x.len() - 1].replace("\\n", "\n")) };
    Ok((un(a)?, un(b)?))
}

fn derives(it: &syn::Item) -> Vec<String> {
    let attrs = match it { syn::Item::Struct(x) => &x.attrs, syn::Item::Enum(x) => &x.attrs, _ => return vec![] };
    let mut out = vec![];
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { if let Some(i) = m.path.segments.last() { out.push(i.ident.to_string()) } Ok(()) }); } }
    out
}

struct Found<'a> { sig: &'a syn::Signature, block: Option<&'a syn::Block>, in_trait: bool, is_inherent: bool }

fn type_name(t: &syn::Type) -> String { match t { syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() } }
fn path_text(p: &syn::Path) -> String { use quote::ToTokens; p.to_token_stream().to_string().replace(' ', "") }

fn find<'a>(ast: &'a syn::File, path: &str) -> R<Found<'a>> {
    let (owner, name) = match path.rsplit_once("::") { Some((o, n)) => (Some(o), n), None => (None, path) };
    let (tr, ty) = match owner { Some(o) => match o.split_once('/') { Some((t, y)) => (Some(t), Some(y)), None => (None, Some(o)) }, None => (None, None) };
    let mut hits = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if owner.is_none() && f.sig.ident == name => hits.push(Found { sig: &f.sig, block: Some(&f.block), in_trait: false, is_inherent: true }),
            syn::Item::Trait(t) if tr.is_none() && Some(t.ident.to_string().as_str()) == ty => for m in &t.items {
                if let syn::TraitItem::Fn(f) = m { if f.sig.ident == name { hits.push(Found { sig: &f.sig, block: f.default.as_ref(), in_trait: true, is_inherent: false }) } }
            },
            syn::Item::Impl(i) if Some(type_name(&i.self_ty).as_str()) == ty => {
                let t = i.trait_.as_ref().map(|(_, p, _)| path_text(p));
                let ok = match (tr, &t) { (None, None) => true, (Some(a), Some(b)) => a == b || (a == b.split('<').next().unwrap() && !a.contains('<')), _ => false };
                if ok { for m in &i.items { if let syn::ImplItem::Fn(f) = m { if f.sig.ident == name { hits.push(Found { sig: &f.sig, block: Some(&f.block), in_trait: false, is_inherent: tr.is_none() }) } } } }
            }
            _ => {}
        }
    }
    match hits.len() { 1 => Ok(hits.pop().unwrap()), n => Err(format!("{} functions called {}", n, path)) }
}

#[derive(Default)]
struct V<'a> { appends: Vec<(String, Range<usize>, Range<usize>)>, retains: Vec<(Range<usize>, Range<usize>, Range<usize>)>, arms: Vec<(Range<usize>, String)>, arm_bodies: Vec<(Range<usize>, Range<usize>)>, messages: Vec<Range<usize>>, stmts: Vec<Range<usize>>, lets: Vec<(String, usize)>, named: Vec<(String, usize)>, strs: Vec<Range<usize>>, selfs: Vec<Range<usize>>, loops: Vec<(Range<usize>, Range<usize>, Option<Range<usize>>, Option<Range<usize>>)>, closures: Vec<&'a syn::ExprClosure>, macros: Vec<(Range<usize>, String)>, chains: Vec<(Range<usize>, Range<usize>, Option<Range<usize>>, String)> }
impl<'a> Visit<'a> for V<'a> {
    fn visit_expr_lit(&mut self, e: &'a syn::ExprLit) { if let syn::Lit::Str(_) = &e.lit { self.strs.push(rng(e)) } }
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) { if let (syn::BinOp::AddAssign(_), syn::Expr::Path(p)) = (&e.op, &*e.left) { self.appends.push((path_text(&p.path), rng(&*e.left), rng(&*e.right))); } syn::visit::visit_expr_binary(self, e) }
    fn visit_expr_path(&mut self, e: &'a syn::ExprPath) { if e.path.is_ident("self") { self.selfs.push(rng(e)) } }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.loops.push((rng(e), rng(&e.body), None, None)); syn::visit::visit_expr_while(self, e) }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.loops.push((rng(e), rng(&e.body), None, None)); syn::visit::visit_expr_loop(self, e) }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.loops.push((rng(e), rng(&e.body), Some(rng(&*e.expr)), Some(rng(&*e.pat)))); syn::visit::visit_expr_for_loop(self, e) }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.closures.push(e); syn::visit::visit_expr_closure(self, e) }
    fn visit_macro(&mut self, m: &'a syn::Macro) { if m.path.is_ident("format") { self.messages.push(rng(m)) } }
    fn visit_expr_match(&mut self, e: &'a syn::ExprMatch) {
        fn lits(p: &syn::Pat) -> Option<Vec<(bool, String)>> {
            match p {
                syn::Pat::Lit(l) => match &l.lit { syn::Lit::Str(s) => Some(vec![(false, s.value())]), syn::Lit::ByteStr(b) => Some(vec![(true, String::from_utf8(b.value()).ok()?)]), _ => None },
                syn::Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?) } Some(v) }
                _ => None,
            }
        }
        let n = e.arms.len();
        let heads: Vec<Option<Vec<(bool, String)>>> = e.arms.iter().map(|a| lits(&a.pat)).collect();
        if n > 1 && heads[..n - 1].iter().all(|h| h.is_some()) && heads[n - 1].is_none() && e.arms.iter().all(|a| a.guard.is_none()) {
            self.arms.push((rng(e).start..rng(&*e.expr).start, "{ let vx_s = ".into()));
            let mut at = rng(&*e.expr).end;
            let mut sep = "; ";
            for (a, h) in e.arms.iter().zip(&heads) {
                let head = match (h, &a.pat) {
                    (Some(h), _) => format!("if {} {{ ", h.iter().map(|(b, s)| if *b { format!("vx_byteq(vx_s, {:?})", s) } else { format!("vx_streq(vx_s, {:?})", s) }).collect::<Vec<_>>().join(" || ")),
                    (None, syn::Pat::Ident(i)) => format!("{{ let {} = vx_s; ", i.ident),
                    (None, _) => "{ ".to_string(),
                };
                self.arms.push((at..rng(&*a.body).start, format!("{}{}", sep, head)));
                self.arm_bodies.push((rng(e), rng(&*a.body)));
                at = rng(&*a.body).end; sep = " } else ";
            }
            self.arms.push((at..rng(e).end, " } }".into()));
        }
        syn::visit::visit_expr_match(self, e)
    }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) { if let syn::Expr::Path(p) = &*e.func { self.named.push((p.path.segments.last().unwrap().ident.to_string(), rng(e).start)) } syn::visit::visit_expr_call(self, e) }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.stmts.push(rng(s));
        if let syn::Stmt::Local(l) = s { let p = if let syn::Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat }; if let syn::Pat::Ident(i) = p { self.lets.push((i.ident.to_string(), rng(s).end)) } }
        if let syn::Stmt::Macro(m) = s { self.macros.push((rng(s), path_text(&m.mac.path))); }
        syn::visit::visit_stmt(self, s)
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        self.named.push((e.method.to_string(), rng(&e.method).start));
        if e.method == "retain" && e.args.len() == 1 { self.retains.push((rng(e), rng(&*e.receiver), rng(&e.args[0]))); }
        // the longest chain that starts with .iter() or .into_iter()
        let mut names = vec![e.method.to_string()];
        let mut arg = None;
        let mut cur = &*e.receiver;
        if e.args.len() == 1 { arg = Some(rng(&e.args[0])); }
        let mut args = e.args.len();
        loop {
            match cur {
                syn::Expr::MethodCall(m) => {
                    if (m.method == "iter" || m.method == "into_iter" || m.method == "chars") && args <= 1 {
                        names.push(m.method.to_string()); names.reverse();
                        let n = names.join("_");
                        self.chains.push((rng(e), rng(&*m.receiver), arg.clone(), n));
                        break;
                    }
                    names.push(m.method.to_string()); args += m.args.len();
                    if m.args.len() == 1 { arg = Some(rng(&m.args[0])); }
                    cur = &*m.receiver;
                }
                _ => break,
            }
        }
        syn::visit::visit_expr_method_call(self, e)
    }
}

impl Tool {
    fn src(&mut self, f: &str) -> R<&Src> {
        if !self.files.contains_key(f) {
            let text = std::fs::read_to_string(format!("{}/{}", self.repo, f)).map_err(|e| format!("{}: {}", f, e))?;
            let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", f, e))?;
            self.files.insert(f.into(), Src { text, ast });
        }
        Ok(&self.files[f])
    }

    fn item(&mut self, file: &str, kind: &str, name: &str, derive: Option<&str>) -> R<()> {
        let subs = self.subs.clone();
        let s = self.src(file)?;
        for it in &s.ast.items {
            let text = |i: &dyn quote::ToTokens| i.to_token_stream();
            let (k, n, body, start) = match it {
                syn::Item::Struct(x) => ("struct", x.ident.to_string(), rng(it), rng(&x.struct_token).start),
                syn::Item::Enum(x) => ("enum", x.ident.to_string(), rng(it), rng(&x.enum_token).start),
                syn::Item::Type(x) => ("type", x.ident.to_string(), rng(it), rng(&x.type_token).start),
                syn::Item::Const(x) => ("const", x.ident.to_string(), rng(it), rng(&x.const_token).start),
                _ => continue,
            };
            if k != kind || n != name { continue; }
            let _ = text;
            if let Some(d) = derive {
                let there = derives(it);
                for want in d.trim_start_matches("derive(").trim_end_matches(')').split(',').map(|x| x.trim()) {
                    if !["Eq", "Structural", "Debug"].contains(&want) && !there.iter().any(|x| x == want) { return Err(format!("{} does not derive {}", name, want)); }
                }
            }
            let mut edits: Vec<(Range<usize>, String)> = vec![];
            let mut fields = |fs: &syn::Fields, edits: &mut Vec<(Range<usize>, String)>, is_struct: bool| for f in fs {
                for a in &f.attrs { edits.push((rng(a), String::new())); }
                if is_struct { match &f.vis { syn::Visibility::Inherited => { let p = f.ident.as_ref().map(|i| rng(i).start).unwrap_or(rng(&f.ty).start); edits.push((p..p, "pub ".into())) }, v => edits.push((rng(v), "pub".into())) } }
            };
            match it {
                syn::Item::Struct(x) => fields(&x.fields, &mut edits, true),
                syn::Item::Enum(x) => for v in &x.variants { for a in &v.attrs { edits.push((rng(a), String::new())); } fields(&v.fields, &mut edits, false) },
                _ => {}
            }
            let mut t = splice(&s.text, start..body.end, edits);
            for (a, b) in &subs { t = t.replace(a.as_str(), b); }
            let line = s.text[..start].matches('\n').count() + 1;
            let o = format!("// {}:{}\n{}pub {}\n", file, line, derive.map(|d| format!("#[{}]\n", d)).unwrap_or_default(), t);
            self.out.push_str(&o);
            return Ok(());
        }
        Err(format!("no {} {} in {}", kind, name, file))
    }

    /// the implementations of these traits are the derived ones (the unit has their text)
    fn derived(&mut self, file: &str, name: &str, traits: &str) -> R<()> {
        let s = self.src(file)?;
        for it in &s.ast.items {
            let n = match it { syn::Item::Struct(x) => x.ident.to_string(), syn::Item::Enum(x) => x.ident.to_string(), _ => continue };
            if n != name { continue; }
            let there = derives(it);
            for want in traits.split(' ') { if !there.iter().any(|x| x == want) { return Err(format!("{} does not derive {}", name, want)); } }
            self.changes.push(format!("{}: the implementation of {} by derive is the one in the unit", name, traits));
            return Ok(());
        }
        Err(format!("no {} in {}", name, file))
    }

    /// a function lifted into the logic: the text of its body, with self := x and string literals as character sequences
    fn specfn(&mut self, file: &str, path: &str, head: &str) -> R<()> {
        let subs = self.subs.clone();
        let s = self.src(file)?;
        let f = find(&s.ast, path)?;
        let block = f.block.ok_or(format!("{} has no body", path))?;
        let mut v = V::default();
        v.visit_block(block);
        let mut edits: Vec<(Range<usize>, String)> = vec![];
        for r in &v.selfs { edits.push((r.clone(), "x".into())) }
        for r in &v.strs { edits.push((r.end..r.end, "@".into())) }
        for (r, t) in &v.arms { edits.push((r.clone(), t.clone())) }
        let mut body = splice(&s.text, rng(block), edits);
        for (a, b) in &subs { body = body.replace(a.as_str(), b); }
        let line = s.text[..rng(f.sig).start].matches('\n').count() + 1;
        self.out.push_str(&format!("// lifted from {}:{} {}\npub open spec fn {}\n{}\n", file, line, path, head, body));
        self.changes.push(format!("{}: lifted into the logic as {}", path, head));
        Ok(())
    }

    /// reveal_strlit for every string in a function
    fn strlits(&mut self, file: &str, path: &str) -> R<()> {
        let s = self.src(file)?;
        let f = find(&s.ast, path)?;
        struct L(std::collections::BTreeSet<String>);
        impl<'a> Visit<'a> for L { fn visit_lit_str(&mut self, l: &'a syn::LitStr) { self.0.insert(l.value()); } }
        let mut l = L(Default::default());
        l.visit_block(f.block.ok_or("no body")?);
        for x in l.0 { self.out.push_str(&format!("reveal_strlit({:?}); ", x)); }
        self.out.push('\n');
        Ok(())
    }

    fn func(&mut self, d: &FnDir) -> R<()> {
        let mut subs = d.tsub.clone();
        subs.extend(self.subs.clone());
        let vac = self.vacuity;
        let s = self.src(&d.file)?;
        let f = find(&s.ast, &d.path)?;
        let line = s.text[..rng(f.sig).start].matches('\n').count() + 1;
        let mut changes = vec![];
        // signature
        let mut sig_edits = vec![];
        if let syn::ReturnType::Type(_, t) = &f.sig.output { if let Some(n) = &d.ret { let r = rng(&**t); sig_edits.push((r.start..r.start, format!("({}: ", n))); sig_edits.push((r.end..r.end, ")".to_string())); } }
        let mut mut_self = false;
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() { if let (None, Some(m)) = (&r.reference, &r.mutability) { mut_self = true; sig_edits.push((rng(m), String::new())) } }
        let mut mut_params = vec![];
        for a in &f.sig.inputs { if let syn::FnArg::Typed(t) = a { if let syn::Pat::Ident(i) = &*t.pat { if let Some(m) = &i.mutability { mut_params.push(i.ident.to_string()); sig_edits.push((rng(m), String::new())) } } } }
        let mut sig = splice(&s.text, rng(f.sig), sig_edits);
        for (a, b) in &subs { sig = sig.replace(a.as_str(), b); }
        let mut o = format!("// {}:{} {}\n", d.file, line, d.path);
        for a in &d.attrs { o.push_str(a); o.push('\n'); }
        let nobody = d.nobody;
        if d.assume && !nobody && f.block.is_some() { o.push_str("#[verifier::external_body]\n"); }
        if f.is_inherent { o.push_str("pub "); }
        o.push_str(&sig); o.push('\n'); o.push_str(&d.spec);
        let trait_decl = f.block.is_none();
        if nobody || trait_decl {
            o.push_str(";\n");
        } else if d.assume {
            o.push_str("{ unimplemented!() }\n");
        } else {
            let block = f.block.unwrap();
            let br = rng(block);
            let mut v = V::default();
            v.visit_block(block);
            v.loops.sort_by_key(|l| l.0.start);
            v.closures.sort_by_key(|c| rng(*c).start);
            v.chains.sort_by_key(|c| (c.0.start, usize::MAX - c.0.end));
            // chains with the same receiver belong together, the longest comes first
            let mut chains: Vec<Vec<(Range<usize>, Range<usize>, Option<Range<usize>>, String)>> = vec![];
            for c in v.chains { match chains.iter_mut().find(|k| k[0].1 == c.1) { Some(k) => k.push(c), None => chains.push(vec![c]) } }
            let mut edits: Vec<(Range<usize>, String)> = vec![];
            if let Some(n) = d.loops.keys().max() { if *n != v.loops.len() { return Err(format!("{}: {} loops, the contract is for {}", d.path, v.loops.len(), n)); } }
            if d.loops.is_empty() && !v.loops.is_empty() { return Err(format!("{}: {} loops, the contract is for none", d.path, v.loops.len())); }
            for (n, (name, inv)) in &d.loops {
                let l = &v.loops[n - 1];
                if let Some(it) = name.as_ref().and_then(|n| n.strip_prefix('=')) {
                    let (e, p) = match (&l.2, &l.3) { (Some(e), Some(p)) => (e, p), _ => return Err(format!("{}: loop {} is no for loop", d.path, n)) };
                    let init: String = d.ghost.iter().filter(|g| g.0 == format!("loop {} init", n)).map(|g| g.1.clone()).collect();
                    edits.push((l.0.start..e.start, "match ".to_string()));
                    edits.push((e.end..l.1.start, format!(" {{ mut {} => {{\n{}while let Some({}) = {}.next()\n{}", it, init, &s.text[p.clone()], it, inv)));
                    let done: String = d.ghost.iter().filter(|g| g.0 == format!("loop {} done", n)).map(|g| g.1.clone()).collect();
                    edits.push((l.1.end..l.1.end, format!("\n{} }} }}", done)));
                    changes.push("R8".to_string());
                    continue;
                }
                if let Some(nm) = name { match &l.2 { Some(e) => edits.push((e.start..e.start, format!("{}: ", nm))), None => return Err(format!("{}: loop {} is no for loop", d.path, n)) } }
                edits.push((l.1.start..l.1.start, format!("\n{}", inv)));
            }
            for (w, g) in d.ghost.iter().filter(|g| !g.0.ends_with(" init") && !g.0.ends_with(" done")) {
                let p: Vec<&str> = w.split_whitespace().collect();
                let at = match p[..] {
                    ["start"] => br.start + 1, ["end"] => br.end - 1, ["tail"] => block.stmts.last().map(|x| rng(x).start).unwrap_or(br.end - 1),
                    ["loop", n, w] => { let n: usize = n.parse().map_err(|_| w.to_string())?; let l = v.loops.get(n - 1).ok_or(format!("{}: no loop {}", d.path, n))?;
                        match w { "start" => l.1.start + 1, "end" => l.1.end - 1, "before" => l.0.start, "after" => l.0.end, _ => return Err(format!("ghost {}", w)) } }
                    ["let", n, "after"] => v.lets.iter().find(|l| l.0 == n).ok_or(format!("{}: no let {}", d.path, n))?.1,
                    ["call", n, k, w] => {
                        let mut at: Vec<usize> = v.named.iter().filter(|c| c.0 == n).map(|c| c.1).collect(); at.sort();
                        let k: usize = k.parse().map_err(|_| w.to_string())?;
                        let c = *at.get(k - 1).ok_or(format!("{}: no call {} of {}", d.path, k, n))?;
                        let r = v.stmts.iter().filter(|r| r.contains(&c)).min_by_key(|r| r.end - r.start).unwrap();
                        match w { "before" => r.start, "after" => r.end, _ => return Err(format!("ghost {}", w)) }
                    }
                    _ => return Err(format!("ghost {}", w)),
                };
                edits.push((at..at, format!("\n{}", g)));
            }
            if let Some(n) = d.closures.keys().max() { if *n > v.closures.len() { return Err(format!("{}: {} closures, the contract is for {}", d.path, v.closures.len(), n)); } }
            for (i, c) in v.closures.iter().enumerate() {
                let b = rng(&*c.body);
                let head = rng(*c).start..b.start;
                if let Some(h) = d.closures.get(&(i + 1)) {
                    // R2 where the parameter is a pattern: HEAD then names it p, and this binds the pattern
                    let mut lets = String::new();
                    if let Some(p) = c.inputs.first() { let p = if let syn::Pat::Type(t) = p { &*t.pat } else { p }; if !matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)) { match p { syn::Pat::Reference(r) => { let _ = write!(lets, "let {} = *vx_p; ", &s.text[rng(&*r.pat)]); } _ => { let _ = write!(lets, "let {} = vx_p; ", &s.text[rng(p)]); } } changes.push("R2".to_string()); } }
                    edits.push((head, format!("{} {{ {}", h, lets)));
                    edits.push((b.end..b.end, " }".into()));
                }
            }
            if let Some(n) = d.calls.keys().max() { if *n > chains.len() { return Err(format!("{}: {} iterator chains, the contract is for {}", d.path, chains.len(), n)); } }
            for (n, name) in &d.calls {
                let (fun, want) = name.split_once(' ').ok_or(format!("call without the name of the chain: {}", name))?;
                let (all, recv, arg, chain) = chains[n - 1].iter().find(|c| c.3 == want).ok_or(format!("{}: iterator chain {} is {}, the contract is for {}", d.path, n, chains[n - 1][0].3, want))?;
                changes.push(format!("R1 {}", chain));
                edits.push((all.start..recv.start, format!("{}(&", fun)));
                match arg {
                    Some(a) => { edits.push((recv.end..a.start, ", ".into())); edits.push((a.end..all.end, ")".into())); }
                    None => edits.push((recv.end..all.end, ")".into())),
                }
            }
            for (r, m) in &v.macros { if m == "eprintln" || m == "debug_assert" || m == "debug_assert_eq" { edits.push((r.clone(), String::new())); changes.push("R3".to_string()); } }
            for (all, recv, arg) in &v.retains { changes.push("R7".to_string()); edits.push((all.start..all.start, "vx_retain(&mut ".into())); edits.push((recv.end..arg.start, ", ".into())); }
            for (n, left, right) in &v.appends { if d.append.contains(n) { changes.push("R9".to_string()); edits.push((left.start..left.start, "vx_append(&mut ".into())); edits.push((left.end..right.start, ", ".into())); edits.push((right.end..right.end, ")".into())); } }
            if !v.arms.is_empty() { changes.push("R5".to_string()); }
            for (r, t) in &v.arms { edits.push((r.clone(), t.clone())) }
            if d.arms_return {
                let tail = block.stmts.last().map(|x| rng(x));
                for (m, b) in &v.arm_bodies { if tail.as_ref() == Some(m) { edits.push((b.start..b.start, "return ".into())); edits.push((b.end..b.end, ";".into())); } }
            }
            let body_src = &s.text[br.clone()];
            for r in &v.messages {
                if !d.replace.iter().any(|(a, _)| body_src.match_indices(a.as_str()).any(|(i, _)| { let p = br.start + i; p < r.end && r.start < p + a.len() })) { edits.push((r.clone(), "vx_message()".into())); changes.push("R6".to_string()); }
            }
            for (a, b) in &d.replace {
                // every occurrence; none is fine too, the verifier then judges what is there instead
                for (i, _) in body_src.match_indices(a.as_str()) { let p = br.start + i; edits.push((p..p + a.len(), b.clone())); }
                changes.push(format!("replaced {:?} by {:?}", a, b));
            }
            if mut_self {
                changes.push("R4".to_string());
                edits.push((br.start + 1..br.start + 1, "\nlet mut vx_self = self;".into()));
                for r in &v.selfs { edits.push((r.clone(), "vx_self".into())) }
            }
            for n in &mut_params { changes.push("R4".to_string()); edits.push((br.start + 1..br.start + 1, format!("\nlet mut {} = {};", n, n))); }
            let mut body = splice(&s.text, br, edits);
            if vac {
                // only whether the start of the body can be reached: no precondition, axiom or lemma used there is contradictory
                body = "{".to_string();
                for (w, g) in &d.ghost { if w == "start" { body.push('\n'); body.push_str(g); } }
                if mut_self { body.push_str("\nlet mut vx_self = self;"); }
                for n in &mut_params { let _ = write!(body, "\nlet mut {} = {};", n, n); }
                body.push_str("\nproof { assert(false); }\nvx_unreached()\n}");
            }
            for (a, b) in &subs { body = body.replace(a.as_str(), b); }
            o.push_str(&body); o.push('\n');
        }
        self.out.push_str(&o);
        let label = format!("{} ({})", d.path, d.file);
        if d.assume || trait_decl || nobody { self.assumed.push(label) } else { self.functions.push(label) }
        for (a, b) in &d.tsub { changes.push(format!("default method copied into the impl with {} for {}", b, a)); }
        for c in changes { self.changes.push(format!("{}: {}", d.path, c)); }
        Ok(())
    }

    fn template(&mut self, file: &str) -> R<()> {
        let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?;
        let mut cur: Option<FnDir> = None;
        let mut sink: Option<(String, String)> = None; // (kind, arg) the raw lines go to
        let mut skip = false;
        for line in text.lines() {
            let t = line.trim_start();
            if t == "//# end-if" { skip = false; continue; }
            if skip { continue; }
            if let Some(x) = t.strip_prefix("//# ") {
                let (word, rest) = x.split_once(' ').unwrap_or((x, "")); let rest = rest.trim();
                match (word, &mut cur) {
                    ("trust", _) => self.out.push_str(&format!("{}\n", line)),
                    ("properties", None) | ("covers", None) | ("note", None) => {}
                    ("include", Some(d)) => { let p = format!("{}/{}", self.dir, rest); let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
                        match (&sink, d.ghost.last_mut()) { (Some((k, a)), last) if k == "ghost" => match last { Some((w, g)) if w == a => g.push_str(&t), _ => d.ghost.push((a.clone(), t)) }, _ => return Err(line.into()) } }
                    ("include", None) => { let p = format!("{}/{}", self.dir, rest); self.template(&p)? }
                    ("unit-mode", None) => self.assume = !rest.split_whitespace().any(|u| u == self.unit),
                    ("mode", None) => self.assume = rest == "assume",
                    ("if-unit", None) => skip = !rest.split_whitespace().any(|u| u == self.unit),
                    ("if-not-unit", None) => skip = rest.split_whitespace().any(|u| u == self.unit),
                    ("if", None) => skip = (rest == "assume") != self.assume,
                    ("sub", None) => { let s = two(rest)?; self.changes.push(format!("type replaced: {} by {}", s.0, s.1)); self.subs.push(s) }
                    ("item", None) => { let p: Vec<&str> = rest.splitn(4, ' ').collect(); self.item(p[0], p[1], p[2], p.get(3).copied())? }
                    ("derived", None) => { let p: Vec<&str> = rest.splitn(3, ' ').collect(); if p.len() != 3 { return Err(line.into()); } self.derived(p[0], p[1], p[2])? }
                    ("specfn", None) => { let p: Vec<&str> = rest.splitn(3, ' ').collect(); if p.len() != 3 { return Err(line.into()); } self.specfn(p[0], p[1], p[2])? }
                    ("strlits", None) => { let p: Vec<&str> = rest.splitn(2, ' ').collect(); self.strlits(p[0], p[1])? }
                    ("fn", None) => { let (f, p) = rest.split_once(' ').ok_or(line)?; cur = Some(FnDir { file: f.into(), path: p.into(), assume: self.assume, ..Default::default() }); sink = None }
                    ("ret", Some(d)) => d.ret = Some(rest.into()),
                    ("assume", Some(d)) => d.assume = true,
                    ("nobody", Some(d)) => d.nobody = true,
                    ("attr", Some(d)) => d.attrs.push(rest.into()),
                    ("spec", Some(_)) | ("ghost", Some(_)) => sink = Some((word.into(), rest.into())),
                    ("loop", Some(d)) => { let (n, nm) = match rest.split_once(' ') { Some((n, m)) => (n, Some(m.to_string())), None => (rest, None) }; d.loops.insert(n.parse().map_err(|_| line)?, (nm, String::new())); sink = Some(("loop".into(), n.into())) }
                    ("closure", Some(d)) => { let (n, h) = rest.split_once(' ').ok_or(line)?; d.closures.insert(n.parse().map_err(|_| line)?, h.into()); sink = Some(("closure".into(), n.into())) }
                    ("call", Some(d)) => { let (n, h) = rest.split_once(' ').ok_or(line)?; d.calls.insert(n.parse().map_err(|_| line)?, h.into()); }
                    ("arms", Some(d)) if rest == "return" => d.arms_return = true,
                    ("append", Some(d)) => d.append.extend(rest.split_whitespace().map(|x| x.to_string())),
                    ("tsub", Some(d)) => d.tsub.push(two(rest)?),
                    ("replace", Some(d)) => d.replace.push(two(rest)?),
                    ("endfn", Some(_)) => { let d = cur.take().unwrap(); self.func(&d)?; sink = None }
                    _ => return Err(format!("{}: directive out of place: {}", file, line)),
                }
            } else if let Some(d) = &mut cur {
                match &sink {
                    Some((k, a)) => match k.as_str() {
                        "spec" => { d.spec.push_str(line); d.spec.push('\n') }
                        "loop" => { let l = d.loops.get_mut(&a.parse().unwrap()).unwrap(); l.1.push_str(line); l.1.push('\n') }
                        "closure" => { let l = d.closures.get_mut(&a.parse().unwrap()).unwrap(); l.push('\n'); l.push_str(line) }
                        _ => match d.ghost.last_mut() { Some((w, g)) if w == a => { g.push_str(line); g.push('\n') } _ => d.ghost.push((a.clone(), format!("{}\n", line))) },
                    },
                    None => if !t.is_empty() { return Err(format!("{}: text out of place: {}", file, line)) },
                }
            } else { self.out.push_str(line); self.out.push('\n') }
        }
        if cur.is_some() { return Err(format!("{}: no endfn", file)); }
        Ok(())
    }
}

fn splice(text: &str, r: Range<usize>, mut edits: Vec<(Range<usize>, String)>) -> String {
    edits.sort_by_key(|e| (e.0.start, e.0.end));
    let mut o = String::new();
    let mut at = r.start;
    for (e, t) in edits {
        if e.start < at { // inside something already replaced: insertions at its end are still wanted
            if e.end <= at { continue; }
        }
        o.push_str(&text[at.min(e.start.max(at))..e.start.max(at)]);
        o.push_str(&t);
        at = e.end.max(at);
    }
    o.push_str(&text[at..r.end]);
    o
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c => o.push(c) } } o.push('"'); o }
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = std::path::Path::new(&a[2]).parent().unwrap().to_string_lossy().into_owned();
    let mut t = Tool { unit: std::path::Path::new(&a[2]).file_stem().unwrap().to_string_lossy().into_owned(), repo: a[1].clone(), dir, files: BTreeMap::new(), out: String::new(), subs: vec![], assume: false, vacuity: a.iter().any(|x| x == "--vacuity"), functions: vec![], assumed: vec![], changes: vec![] };
    let r = t.template(&a[2]);
    let mut ch = t.changes.clone(); ch.sort(); ch.dedup();
    let rep = format!("{{\"error\":{},\"functions\":{},\"assumed\":{},\"changes\":{}}}", match &r { Ok(_) => "null".into(), Err(e) => js(e) }, jl(&t.functions), jl(&t.assumed), jl(&ch));
    std::fs::write(&a[4], rep).expect("report");
    if let Err(e) = r { eprintln!("lost: {}", e); std::process::exit(2); }
    std::fs::write(&a[3], t.out).expect("output");
}
