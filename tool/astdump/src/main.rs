//! astdump: parses one (macro-expanded) Rust source file with `syn` and prints its items as JSON.
//! It selects nothing and changes nothing: every item is dumped, and any syntax it has no JSON
//! form for becomes {"k":"other","src":<tokens>} so that the generator can refuse it.
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Map, Value};

/// Like `json!({..})` but moves its values (json! clones them, quadratic in nesting depth).
macro_rules! obj {
    ({$($k:literal : $v:expr),* $(,)?}) => {{
        #[allow(unused_mut)]
        let mut m = Map::new();
        $( m.insert($k.to_string(), Value::from($v)); )*
        Value::Object(m)
    }};
}
use syn::*;

fn src<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn other<T: ToTokens>(t: &T) -> Value { obj!({"k":"other","src":src(t)}) }

fn path(p: &Path) -> Value {
    Value::Array(p.segments.iter().map(|s| {
        let args = match &s.arguments {
            PathArguments::None => json!([]),
            PathArguments::AngleBracketed(a) => Value::Array(a.args.iter().map(|g| match g {
                GenericArgument::Type(t) => ty(t),
                GenericArgument::Const(e) => expr(e),
                g => other(g),
            }).collect()),
            PathArguments::Parenthesized(a) => json!([other(a)]),
        };
        obj!({"id": s.ident.to_string(), "args": args})
    }).collect())
}

fn qpath(q: &Option<QSelf>, p: &Path) -> Value {
    match q {
        None => obj!({"k":"path","segs":path(p)}),
        Some(q) => obj!({"k":"path","segs":path(p),"qself":ty(&q.ty),"qpos":q.position}),
    }
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => qpath(&p.qself, &p.path),
        Type::Reference(r) => obj!({"k":"ref","mut":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Array(a) => obj!({"k":"array","t":ty(&a.elem),"len":expr(&a.len)}),
        Type::Slice(a) => obj!({"k":"slice","t":ty(&a.elem)}),
        Type::Tuple(a) => obj!({"k":"tuple","ts":a.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => obj!({"k":"infer"}),
        t => other(t),
    }
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => obj!({"k":"ident","id":i.ident.to_string(),"mut":i.mutability.is_some(),"ref":i.by_ref.is_some()}),
        Pat::Wild(_) => obj!({"k":"wild"}),
        Pat::Type(t) => obj!({"k":"typed","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Path(p) => qpath(&p.qself, &p.path),
        Pat::TupleStruct(t) => obj!({"k":"tuplestruct","path":qpath(&t.qself,&t.path),"ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(t) => obj!({"k":"struct","path":qpath(&t.qself,&t.path),"rest":t.rest.is_some(),
            "fs":t.fields.iter().map(|f| obj!({"m":src(&f.member),"p":pat(&f.pat)})).collect::<Vec<_>>()}),
        Pat::Tuple(t) => obj!({"k":"tuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(t) => obj!({"k":"slice","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Range(r) => obj!({"k":"prange","l":r.start.as_ref().map(|e| expr(e)),"h":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Rest(_) => obj!({"k":"rest"}),
        Pat::Lit(l) => obj!({"k":"lit","e":lit(&l.lit)}),
        Pat::Reference(r) => obj!({"k":"ref","mut":r.mutability.is_some(),"p":pat(&r.pat)}),
        Pat::Or(o) => obj!({"k":"or","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Paren(p) => pat(&p.pat),
        p => other(p),
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Int(i) => obj!({"k":"int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Bool(b) => obj!({"k":"bool","v":b.value}),
        Lit::Byte(b) => obj!({"k":"int","v":b.value().to_string(),"suf":"u8"}),
        Lit::Float(f) => obj!({"k":"float","v":f.base10_digits(),"suf":f.suffix()}),
        Lit::Str(s) => obj!({"k":"str","v":s.value()}),
        Lit::Char(c) => obj!({"k":"char","v":c.value().to_string()}),
        l => other(l),
    }
}

fn block(b: &Block) -> Value { Value::Array(b.stmts.iter().map(stmt).collect()) }

fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => {
            let (e, els) = match &l.init { Some(i) => (expr(&i.expr), i.diverge.as_ref().map(|d| expr(&d.1))), None => (Value::Null, None) };
            obj!({"k":"let","p":pat(&l.pat),"e":e,"else":els})
        }
        Stmt::Expr(e, semi) => obj!({"k":"expr","e":expr(e),"semi":semi.is_some()}),
        Stmt::Item(i) => obj!({"k":"item","i":item(i)}),
        Stmt::Macro(m) => obj!({"k":"macro","name":src(&m.mac.path),"src":m.mac.tokens.to_string(),"semi":m.semi_token.is_some()}),
    }
}

fn es<'a, I: IntoIterator<Item = &'a Expr>>(i: I) -> Vec<Value> { i.into_iter().map(expr).collect() }

fn expr(e: &Expr) -> Value {
    match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => qpath(&p.qself, &p.path),
        Expr::Call(c) => obj!({"k":"call","f":expr(&c.func),"args":es(&c.args)}),
        Expr::MethodCall(c) => obj!({"k":"mcall","r":expr(&c.receiver),"m":c.method.to_string(),
            "tf": c.turbofish.as_ref().map(|t| src(t)), "args":es(&c.args)}),
        Expr::Field(f) => obj!({"k":"field","e":expr(&f.base),"m":src(&f.member)}),
        Expr::Index(f) => obj!({"k":"index","e":expr(&f.expr),"i":expr(&f.index)}),
        Expr::Binary(b) => obj!({"k":"bin","op":src(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => obj!({"k":"un","op":src(&u.op),"e":expr(&u.expr)}),
        Expr::Assign(a) => obj!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Cast(c) => obj!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Reference(r) => obj!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Block(b) if b.label.is_none() => obj!({"k":"block","b":block(&b.block)}),
        Expr::Unsafe(b) => obj!({"k":"unsafe","b":block(&b.block)}),
        Expr::If(i) => obj!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|x| expr(&x.1))}),
        Expr::Let(l) => obj!({"k":"letcond","p":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => obj!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| obj!({
            "p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"e":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::Struct(s) => obj!({"k":"struct","path":qpath(&s.qself,&s.path),"base":s.rest.as_ref().map(|e| expr(e)),
            "fs":s.fields.iter().map(|f| obj!({"m":src(&f.member),"e":expr(&f.expr)})).collect::<Vec<_>>()}),
        Expr::ForLoop(f) if f.label.is_none() => obj!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body)}),
        Expr::While(f) if f.label.is_none() => obj!({"k":"while","c":expr(&f.cond),"b":block(&f.body)}),
        Expr::Loop(f) if f.label.is_none() => obj!({"k":"loop","b":block(&f.body)}),
        Expr::Range(r) => obj!({"k":"range","l":r.start.as_ref().map(|e| expr(e)),"h":r.end.as_ref().map(|e| expr(e)),
            "incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Return(r) => obj!({"k":"return","e":r.expr.as_ref().map(|e| expr(e))}),
        Expr::Break(b) if b.label.is_none() && b.expr.is_none() => obj!({"k":"break"}),
        Expr::Continue(b) if b.label.is_none() => obj!({"k":"continue"}),
        Expr::Try(t) => obj!({"k":"try","e":expr(&t.expr)}),
        Expr::Tuple(t) => obj!({"k":"tuple","es":es(&t.elems)}),
        Expr::Array(t) => obj!({"k":"array","es":es(&t.elems)}),
        Expr::Repeat(t) => obj!({"k":"repeat","e":expr(&t.expr),"len":expr(&t.len)}),
        Expr::Closure(c) => obj!({"k":"closure","ps":c.inputs.iter().map(pat).collect::<Vec<_>>(),"e":expr(&c.body),"move":c.capture.is_some()}),
        Expr::Macro(m) => obj!({"k":"macro","name":src(&m.mac.path),"src":m.mac.tokens.to_string()}),
        e => other(e),
    }
}

fn attrs(a: &[Attribute]) -> Value {
    Value::Array(a.iter().filter(|a| !a.path().is_ident("doc")).map(|a| json!(src(&a.meta))).collect())
}

fn sig(s: &Signature) -> Value {
    let mut slf = Value::Null;
    let mut ins = vec![];
    for i in &s.inputs {
        match i {
            FnArg::Receiver(r) => slf = if r.reference.is_some() { json!(if r.mutability.is_some() {"&mut"} else {"&"}) } else { json!(if r.mutability.is_some() {"mut"} else {"val"}) },
            FnArg::Typed(t) => ins.push(obj!({"p":pat(&t.pat),"t":ty(&t.ty)})),
        }
    }
    obj!({"name":s.ident.to_string(),"self":slf,"ins":ins,"const":s.constness.is_some(),"unsafe":s.unsafety.is_some(),
        "generics":generics(&s.generics),
        "out": match &s.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t) }})
}

fn generics(g: &Generics) -> Value {
    obj!({"params":g.params.iter().map(|p| match p {
        GenericParam::Type(t) => obj!({"k":"type","id":t.ident.to_string(),"bounds":t.bounds.iter().map(|b| src(b)).collect::<Vec<_>>()}),
        GenericParam::Const(c) => obj!({"k":"const","id":c.ident.to_string(),"t":ty(&c.ty)}),
        GenericParam::Lifetime(l) => obj!({"k":"lt","id":l.lifetime.to_string()}),
    }).collect::<Vec<_>>(),"where":g.where_clause.as_ref().map(|w| src(w))})
}

fn fields(f: &Fields) -> Value {
    match f {
        Fields::Named(n) => obj!({"k":"named","fs":n.named.iter().map(|f| obj!({"id":f.ident.as_ref().unwrap().to_string(),"t":ty(&f.ty),
            "pub":!matches!(f.vis, Visibility::Inherited)})).collect::<Vec<_>>()}),
        Fields::Unnamed(n) => obj!({"k":"tuple","fs":n.unnamed.iter().map(|f| obj!({"t":ty(&f.ty),"pub":!matches!(f.vis, Visibility::Inherited)})).collect::<Vec<_>>()}),
        Fields::Unit => obj!({"k":"unit","fs":json!([])}),
    }
}

fn item(i: &Item) -> Value {
    match i {
        Item::Mod(m) => obj!({"k":"mod","id":m.ident.to_string(),"items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Struct(s) => obj!({"k":"struct","id":s.ident.to_string(),"attrs":attrs(&s.attrs),"generics":generics(&s.generics),"fields":fields(&s.fields)}),
        Item::Enum(e) => obj!({"k":"enum","id":e.ident.to_string(),"attrs":attrs(&e.attrs),"generics":generics(&e.generics),
            "variants":e.variants.iter().map(|v| obj!({"id":v.ident.to_string(),"attrs":attrs(&v.attrs),"fields":fields(&v.fields),
                "disc":v.discriminant.as_ref().map(|d| expr(&d.1))})).collect::<Vec<_>>()}),
        Item::Impl(i) => obj!({"k":"impl","attrs":attrs(&i.attrs),"generics":generics(&i.generics),
            "trait":i.trait_.as_ref().map(|t| path(&t.1)),"self":ty(&i.self_ty),
            "items":i.items.iter().map(|x| match x {
                ImplItem::Fn(f) => obj!({"k":"fn","attrs":attrs(&f.attrs),"sig":sig(&f.sig),"body":block(&f.block)}),
                ImplItem::Const(c) => obj!({"k":"const","id":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
                ImplItem::Type(t) => obj!({"k":"type","id":t.ident.to_string(),"t":ty(&t.ty)}),
                x => other(x)}).collect::<Vec<_>>()}),
        Item::Fn(f) => obj!({"k":"fn","attrs":attrs(&f.attrs),"pub":matches!(f.vis, Visibility::Public(_)),"sig":sig(&f.sig),"body":block(&f.block)}),
        Item::Const(c) => match (&*c.expr, c.ident == "_") {
            (Expr::Block(b), true) => obj!({"k":"anonconst","items":b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s {Some(item(i))} else {None}).collect::<Vec<_>>()}),
            _ => obj!({"k":"const","id":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        },
        Item::Static(c) => obj!({"k":"static","id":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Trait(t) => obj!({"k":"trait","id":t.ident.to_string(),"generics":generics(&t.generics),
            "items":t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => obj!({"k":"fn","sig":sig(&f.sig),"body":f.default.as_ref().map(block)}),
                TraitItem::Const(c) => obj!({"k":"const","id":c.ident.to_string(),"t":ty(&c.ty)}),
                TraitItem::Type(t) => obj!({"k":"type","id":t.ident.to_string()}),
                x => other(x)}).collect::<Vec<_>>()}),
        Item::Use(u) => obj!({"k":"use","src":src(u)}),
        Item::Type(t) => obj!({"k":"type","id":t.ident.to_string(),"t":ty(&t.ty)}),
        i => obj!({"k":"otheritem","src":src(i).chars().take(200).collect::<String>()}),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("read");
    // `ident@pattern` etc. are plain Rust; the expansion may print compiler-internal syntax that
    // syn does not know, so items are parsed one at a time by the caller if this fails.
    let file: File = match parse_file(&text) {
        Ok(f) => f,
        Err(e) => { eprintln!("astdump: {}", e); std::process::exit(2) }
    };
    let _ = TokenStream::new();
    let v = Value::Array(file.items.iter().map(item).collect());
    serde_json::to_writer(std::io::stdout().lock(), &v).unwrap();
}
