//! Parses Rust source into a JSON syntax tree for the analyses in /verif/lib.
//! usage: rsdump FILE...            -> {"file": [items...], ...}
//!        rsdump --exprs < JSON     -> list of expression trees for a JSON list of snippets
use quote::ToTokens;
use serde_json::{json, Value as J};
use std::io::Read;
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn ln<T: Spanned>(t: &T) -> usize { t.span().start().line }
fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string().replace(' ', "") }

fn ty(t: &Type) -> J {
    match t {
        Type::Path(p) => json!({"k":"Path","segs":segs(&p.path),"s":toks(t)}),
        Type::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"t":ty(&r.elem),"s":toks(t)}),
        Type::Tuple(x) => json!({"k":"Tuple","ts":x.elems.iter().map(ty).collect::<Vec<_>>(),"s":toks(t)}),
        Type::Slice(x) => json!({"k":"Slice","t":ty(&x.elem),"s":toks(t)}),
        Type::Array(x) => json!({"k":"Array","t":ty(&x.elem),"n":expr(&x.len),"s":toks(t)}),
        Type::Paren(x) => ty(&x.elem),
        Type::Group(x) => ty(&x.elem),
        _ => json!({"k":"Other","s":toks(t)}),
    }
}
fn segs(p: &Path) -> J {
    J::Array(p.segments.iter().map(|s| {
        let g: Vec<J> = match &s.arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(ty(t)), _ => None }).collect(),
            _ => vec![],
        };
        json!([s.ident.to_string(), g])
    }).collect())
}
fn lit(l: &Lit) -> J {
    match l {
        Lit::Str(s) => json!({"k":"Lit","t":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"Lit","t":"bytes","v":s.value()}),
        Lit::Byte(b) => json!({"k":"Lit","t":"int","v":b.value().to_string(),"suf":"u8"}),
        Lit::Char(c) => json!({"k":"Lit","t":"char","v":c.value() as u32}),
        Lit::Int(i) => json!({"k":"Lit","t":"int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Bool(b) => json!({"k":"Lit","t":"bool","v":b.value}),
        _ => json!({"k":"Lit","t":"other","v":toks(l)}),
    }
}
fn pat(p: &Pat) -> J {
    let mut j = pat0(p);
    j["l"] = json!(ln(p));
    j
}
fn pat0(p: &Pat) -> J {
    match p {
        Pat::Ident(i) => json!({"k":"PIdent","name":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"PWild"}),
        Pat::Rest(_) => json!({"k":"PRest"}),
        Pat::Lit(l) => json!({"k":"PLit","e":lit(&l.lit)}),
        Pat::Path(x) => json!({"k":"PPath","segs":segs(&x.path)}),
        Pat::TupleStruct(x) => json!({"k":"PTupleStruct","segs":segs(&x.path),"elems":x.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(x) => json!({"k":"PStruct","segs":segs(&x.path),"rest":x.rest.is_some(),"fields":x.fields.iter().map(|f| json!([toks(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Tuple(x) => json!({"k":"PTuple","elems":x.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(x) => json!({"k":"PSlice","elems":x.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Reference(x) => json!({"k":"PRef","p":pat(&x.pat)}),
        Pat::Or(x) => json!({"k":"POr","ps":x.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Paren(x) => pat(&x.pat),
        Pat::Range(x) => json!({"k":"PRange","lo":x.start.as_ref().map(|e| expr(e)),"hi":x.end.as_ref().map(|e| expr(e)),"incl":matches!(x.limits, RangeLimits::Closed(_))}),
        Pat::Type(x) => json!({"k":"PType","p":pat(&x.pat),"t":ty(&x.ty)}),
        _ => json!({"k":"PUnknown","s":toks(p)}),
    }
}
struct Args(Punctuated<Expr, Token![,]>);
impl Parse for Args { fn parse(i: ParseStream) -> Result<Self> { Ok(Args(Punctuated::parse_terminated(i)?)) } }
struct Rep(Expr, Expr);
impl Parse for Rep { fn parse(i: ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; let b = i.parse()?; Ok(Rep(a, b)) } }
struct Matches(Expr, Pat, Option<Expr>);
impl Parse for Matches { fn parse(i: ParseStream) -> Result<Self> {
    let a = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
    let _ = i.parse::<Option<Token![,]>>()?;
    Ok(Matches(a, p, g)) } }
fn mac(m: &Macro) -> J {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let t = m.tokens.clone();
    if name == "matches" {
        if let Ok(x) = syn::parse2::<Matches>(t.clone()) {
            return json!({"k":"Match","e":expr(&x.0),"arms":[
                {"pat":pat(&x.1),"guard":x.2.as_ref().map(expr),"body":{"k":"Lit","t":"bool","v":true}},
                {"pat":{"k":"PWild"},"guard":null,"body":{"k":"Lit","t":"bool","v":false}}]});
        }
    }
    if name == "vec" {
        if let Ok(x) = syn::parse2::<Rep>(t.clone()) { return json!({"k":"Repeat","vec":true,"e":expr(&x.0),"n":expr(&x.1)}); }
    }
    if name == "include_bytes" || name == "env" { return json!({"k":"Macro","name":name,"args":null,"raw":t.to_string()}); }
    match syn::parse2::<Args>(t.clone()) {
        Ok(a) => json!({"k":"Macro","name":name,"args":a.0.iter().map(expr).collect::<Vec<_>>()}),
        Err(_) => json!({"k":"Macro","name":name,"args":null,"raw":t.to_string()}),
    }
}
fn block(b: &Block) -> J { json!({"k":"Block","l":ln(b),"stmts":b.stmts.iter().map(stmt).collect::<Vec<_>>()}) }
fn stmt(s: &Stmt) -> J {
    match s {
        Stmt::Local(l) => json!({"k":"Let","l":ln(s),"pat":pat(&l.pat),"e":l.init.as_ref().map(|i| expr(&i.expr)),"else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1)))}),
        Stmt::Item(i) => json!({"k":"Item","l":ln(s),"item":item(i)}),
        Stmt::Expr(e, semi) => json!({"k":"Expr","l":ln(s),"e":expr(e),"semi":semi.is_some()}),
        Stmt::Macro(m) => json!({"k":"Expr","l":ln(s),"e":mac(&m.mac),"semi":m.semi_token.is_some()}),
    }
}
fn expr(e: &Expr) -> J {
    let mut j = expr0(e);
    if j.get("l").is_none() { j["l"] = json!(ln(e)); }
    j
}
fn label(l: &Option<Label>) -> J { json!(l.as_ref().map(|x| x.name.ident.to_string())) }
fn expr0(e: &Expr) -> J {
    match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => json!({"k":"Path","segs":segs(&p.path),"qself":p.qself.as_ref().map(|q| ty(&q.ty))}),
        Expr::Call(c) => json!({"k":"Call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::MethodCall(c) => json!({"k":"MCall","l":c.method.span().start().line,"recv":expr(&c.receiver),"m":c.method.to_string(),"args":c.args.iter().map(expr).collect::<Vec<_>>(),
            "tf":c.turbofish.as_ref().map(|t| t.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(ty(t)), _ => None }).collect::<Vec<_>>())}),
        Expr::Field(f) => json!({"k":"Field","base":expr(&f.base),"name":toks(&f.member)}),
        Expr::Index(f) => json!({"k":"Index","base":expr(&f.expr),"idx":expr(&f.index)}),
        Expr::Unary(u) => json!({"k":"Unary","op":toks(&u.op),"e":expr(&u.expr)}),
        Expr::Binary(b) => json!({"k":"Binary","op":toks(&b.op),"a":expr(&b.left),"b":expr(&b.right)}),
        Expr::Assign(a) => json!({"k":"Assign","a":expr(&a.left),"b":expr(&a.right)}),
        Expr::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Cast(c) => json!({"k":"Cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Block(b) => { let mut j = block(&b.block); j["label"] = label(&b.label); j }
        Expr::Unsafe(b) => block(&b.block),
        Expr::Const(b) => block(&b.block),
        Expr::If(i) => json!({"k":"If","c":expr(&i.cond),"t":block(&i.then_branch),"f":i.else_branch.as_ref().map(|x| expr(&x.1))}),
        Expr::Let(l) => json!({"k":"LetC","pat":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => json!({"k":"Match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({"l":ln(a),"pat":pat(&a.pat),"guard":a.guard.as_ref().map(|g| expr(&g.1)),"body":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::While(w) => json!({"k":"While","c":expr(&w.cond),"b":block(&w.body),"label":label(&w.label)}),
        Expr::Loop(w) => json!({"k":"Loop","b":block(&w.body),"label":label(&w.label)}),
        Expr::ForLoop(w) => json!({"k":"For","pat":pat(&w.pat),"e":expr(&w.expr),"b":block(&w.body),"label":label(&w.label)}),
        Expr::Closure(c) => json!({"k":"Closure","params":c.inputs.iter().map(pat).collect::<Vec<_>>(),"body":expr(&c.body)}),
        Expr::Return(r) => json!({"k":"Return","e":r.expr.as_ref().map(|x| expr(x))}),
        Expr::Break(b) => json!({"k":"Break","label":b.label.as_ref().map(|l| l.ident.to_string()),"e":b.expr.as_ref().map(|x| expr(x))}),
        Expr::Continue(b) => json!({"k":"Continue","label":b.label.as_ref().map(|l| l.ident.to_string())}),
        Expr::Range(r) => json!({"k":"Range","lo":r.start.as_ref().map(|x| expr(x)),"hi":r.end.as_ref().map(|x| expr(x)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Struct(s) => json!({"k":"Struct","segs":segs(&s.path),"fields":s.fields.iter().map(|f| json!([toks(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),"rest":s.rest.as_ref().map(|r| expr(r))}),
        Expr::Tuple(t) => json!({"k":"Tuple","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Array(t) => json!({"k":"Array","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Repeat(t) => json!({"k":"Repeat","vec":false,"e":expr(&t.expr),"n":expr(&t.len)}),
        Expr::Try(t) => json!({"k":"Try","e":expr(&t.expr)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Macro(m) => mac(&m.mac),
        _ => json!({"k":"Unknown","s":toks(e)}),
    }
}
fn attrs(a: &[Attribute]) -> Vec<String> {
    a.iter().filter(|x| !x.path().is_ident("doc")).map(|x| toks(&x.meta)).collect()
}
fn func(sig: &Signature, body: Option<&Block>, at: &[Attribute], vis: &str) -> J {
    let ps: Vec<J> = sig.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
        FnArg::Typed(t) => json!({"self":false,"pat":pat(&t.pat),"t":ty(&t.ty)}),
    }).collect();
    let ret = match &sig.output { ReturnType::Default => J::Null, ReturnType::Type(_, t) => ty(t) };
    let gens: Vec<J> = sig.generics.type_params().map(|t| json!([t.ident.to_string(), t.bounds.iter().map(|b| toks(b)).collect::<Vec<_>>()])).collect();
    json!({"k":"Fn","l":ln(sig),"name":sig.ident.to_string(),"params":ps,"ret":ret,"generics":gens,"body":body.map(block),"attrs":attrs(at),"vis":vis})
}
fn usetree(t: &UseTree, pre: Vec<String>, out: &mut Vec<J>) {
    match t {
        UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); usetree(&p.tree, q, out) }
        UseTree::Name(n) => { let mut q = pre; q.push(n.ident.to_string()); let a = n.ident.to_string(); let a = if a == "self" { q.pop(); q.last().cloned().unwrap_or_default() } else { a }; out.push(json!([q, a])) }
        UseTree::Rename(n) => { let mut q = pre; q.push(n.ident.to_string()); out.push(json!([q, n.rename.to_string()])) }
        UseTree::Glob(_) => out.push(json!([pre, "*"])),
        UseTree::Group(g) => for x in &g.items { usetree(x, pre.clone(), out) },
    }
}
fn item(i: &Item) -> J {
    match i {
        Item::Fn(f) => func(&f.sig, Some(&f.block), &f.attrs, &toks(&f.vis)),
        Item::Struct(s) => json!({"k":"Struct","l":ln(i),"name":s.ident.to_string(),"attrs":attrs(&s.attrs),"fields":s.fields.iter().enumerate().map(|(n, f)| json!({"name":f.ident.as_ref().map(|x| x.to_string()).unwrap_or(n.to_string()),"t":ty(&f.ty),"attrs":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Item::Enum(e) => json!({"k":"Enum","l":ln(i),"name":e.ident.to_string(),"attrs":attrs(&e.attrs),"variants":e.variants.iter().map(|v| json!({"name":v.ident.to_string(),"attrs":attrs(&v.attrs),"n":v.fields.len(),"named":matches!(v.fields, Fields::Named(_)),"disc":v.discriminant.as_ref().map(|d| expr(&d.1))})).collect::<Vec<_>>()}),
        Item::Impl(m) => json!({"k":"Impl","l":ln(i),"attrs":attrs(&m.attrs),"self":ty(&m.self_ty),"trait":m.trait_.as_ref().map(|t| segs(&t.1)),"items":m.items.iter().map(|x| match x {
            ImplItem::Fn(f) => func(&f.sig, Some(&f.block), &f.attrs, &toks(&f.vis)),
            ImplItem::Const(c) => json!({"k":"Const","l":ln(x),"name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"attrs":attrs(&c.attrs)}),
            _ => json!({"k":"Other","l":ln(x)}),
        }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"Trait","l":ln(i),"name":t.ident.to_string(),"items":t.items.iter().map(|x| match x {
            TraitItem::Fn(f) => func(&f.sig, f.default.as_ref(), &f.attrs, ""),
            _ => json!({"k":"Other","l":ln(x)}),
        }).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k":"Const","l":ln(i),"name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"attrs":attrs(&c.attrs)}),
        Item::Static(c) => json!({"k":"Const","static":true,"l":ln(i),"name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"attrs":attrs(&c.attrs)}),
        Item::Mod(m) => json!({"k":"Mod","l":ln(i),"name":m.ident.to_string(),"attrs":attrs(&m.attrs),"items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => { let mut o = vec![]; usetree(&u.tree, vec![], &mut o); json!({"k":"Use","l":ln(i),"uses":o}) }
        Item::Type(t) => json!({"k":"TypeAlias","l":ln(i),"name":t.ident.to_string(),"t":ty(&t.ty)}),
        Item::Macro(m) => { let mut j = mac(&m.mac); j["k"] = json!("MacroItem"); j }
        _ => json!({"k":"Other","l":ln(i)}),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s == "--exprs").unwrap_or(false) {
        let mut s = String::new();
        std::io::stdin().read_to_string(&mut s).unwrap();
        let v: Vec<String> = serde_json::from_str(&s).unwrap();
        let out: Vec<J> = v.iter().map(|x| match Parser::parse_str(|i: ParseStream| i.parse::<Expr>(), x) {
            Ok(e) => expr(&e), Err(er) => json!({"k":"ParseError","s":er.to_string()}) }).collect();
        println!("{}", serde_json::to_string(&out).unwrap());
        return;
    }
    let mut m = serde_json::Map::new();
    for f in a {
        let src = std::fs::read_to_string(&f).unwrap();
        match syn::parse_file(&src) {
            Ok(x) => { m.insert(f, J::Array(x.items.iter().map(item).collect())); }
            Err(e) => { eprintln!("{f}: {e}"); std::process::exit(3); }
        }
    }
    println!("{}", J::Object(m));
}
