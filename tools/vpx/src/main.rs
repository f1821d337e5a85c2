//! vpx: dump the byte ranges of the items of a Rust source file as JSON, so that function text can
//! be lifted mechanically (and edited only at AST-determined offsets) into a verification unit.
use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    line_off: Vec<usize>,
    text: String,
}
impl Src {
    fn new(text: String) -> Self {
        let mut line_off = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_off.push(i + 1)
            }
        }
        Self { line_off, text }
    }
    fn off(&self, lc: LineColumn) -> usize {
        // column counts chars
        let start = self.line_off[lc.line - 1];
        let mut o = start;
        for (n, c) in self.text[start..].chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    fn r(&self, s: Span) -> Value {
        json!([self.off(s.start()), self.off(s.end())])
    }
}

struct V<'a> {
    s: &'a Src,
    items: Vec<Value>,
    ctx: Vec<String>,
    impls: Vec<Value>,
    testctx: bool,
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t == "#[cfg(test)]" || t == "#[test]"
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        o => o.to_token_stream().to_string(),
    }
}

struct Body<'a> {
    s: &'a Src,
    loops: Vec<Value>,
    binops: Vec<Value>,
    assignops: Vec<Value>,
    closures: Vec<Value>,
    macros: Vec<Value>,
    calls: BTreeMap<String, usize>,
    paths: Vec<Value>,
    infer_casts: Vec<Value>,
    returns: Vec<Value>,
    blocks: Vec<Value>,
    attrs: Vec<Value>,
    lits: Vec<Value>,
    unsafes: Vec<Value>,
    statics: Vec<Value>,
    casts: Vec<Value>,
    methods: Vec<Value>,
    items: Vec<Value>,
    lets: Vec<Value>,
    ifs: usize,
    matches: Vec<Value>,
    stmts: Vec<Value>,
    callexprs: Vec<Value>,
}
impl<'a> Body<'a> {
    fn new(s: &'a Src) -> Self {
        Self {
            s,
            loops: vec![],
            binops: vec![],
            assignops: vec![],
            closures: vec![],
            macros: vec![],
            calls: Default::default(),
            paths: vec![],
            infer_casts: vec![],
            returns: vec![],
            blocks: vec![],
            attrs: vec![],
            lits: vec![],
            unsafes: vec![],
            statics: vec![],
            casts: vec![],
            methods: vec![],
            items: vec![],
            lets: vec![],
            ifs: 0,
            matches: vec![],
            stmts: vec![],
            callexprs: vec![],
        }
    }
}
impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.attrs.push(self.s.r(a.span()));
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.blocks.push(json!({"span": self.s.r(b.span()),
            "stmts": b.stmts.iter().map(|x| self.s.r(x.span())).collect::<Vec<_>>()}));
        visit::visit_block(self, b)
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        self.lets.push(json!({"span": self.s.r(l.span()), "pat": l.pat.to_token_stream().to_string()}));
        visit::visit_local(self, l)
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        self.ifs += 1;
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        self.matches.push(json!({"span": self.s.r(e.span()), "arms": e.arms.iter().map(|a| json!({"span": self.s.r(a.span()), "pat": self.s.r(a.pat.span()), "body": self.s.r(a.body.span())})).collect::<Vec<_>>()}));
        visit::visit_expr_match(self, e)
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.loops.push(json!({"kind":"while","span":self.s.r(e.span()),"cond":self.s.r(e.cond.span()),"body":self.s.r(e.body.span())}));
        visit::visit_expr_while(self, e)
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.loops.push(json!({"kind":"loop","span":self.s.r(e.span()),"body":self.s.r(e.body.span())}));
        visit::visit_expr_loop(self, e)
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.loops.push(json!({"kind":"for","span":self.s.r(e.span()),"pat":self.s.r(e.pat.span()),"expr":self.s.r(e.expr.span()),"body":self.s.r(e.body.span())}));
        visit::visit_expr_for_loop(self, e)
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        let op = e.op.to_token_stream().to_string();
        let v = json!({"op":op,"span":self.s.r(e.span()),"l":self.s.r(e.left.span()),"o":self.s.r(e.op.span()),"r":self.s.r(e.right.span())});
        if op.ends_with('=') && !matches!(op.as_str(), "==" | "<=" | ">=" | "!=") {
            self.assignops.push(v)
        } else {
            self.binops.push(v)
        }
        visit::visit_expr_binary(self, e)
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.closures.push(json!({"span":self.s.r(e.span()),"or1":self.s.r(e.or1_token.span()),"or2":self.s.r(e.or2_token.span()),"body":self.s.r(e.body.span()),
            "inputs": e.inputs.iter().map(|i| self.s.r(i.span())).collect::<Vec<_>>(), "is_block": matches!(&*e.body, syn::Expr::Block(_))}));
        visit::visit_expr_closure(self, e)
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macros.push(json!({"path":m.path.to_token_stream().to_string().replace(' ',""),"span":self.s.r(m.span()),"args":m.tokens.to_string()}));
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let f = e.func.to_token_stream().to_string().replace(' ', "");
        *self.calls.entry(f.clone()).or_default() += 1;
        self.callexprs.push(json!({"name": f, "span": self.s.r(e.span()), "func": self.s.r(e.func.span())}));
        visit::visit_expr_call(self, e)
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        *self.calls.entry(format!(".{}", e.method)).or_default() += 1;
        self.methods.push(json!({"name": e.method.to_string(), "span": self.s.r(e.span()), "recv": self.s.r(e.receiver.span()), "m": self.s.r(e.method.span()),
            "args": e.args.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(), "turbofish": e.turbofish.as_ref().map(|t| self.s.r(t.span()))}));
        visit::visit_expr_method_call(self, e)
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() > 1 {
            self.paths.push(json!({"span": self.s.r(p.span()), "segs": p.segments.iter().map(|x| json!([x.ident.to_string(), self.s.r(x.span())])).collect::<Vec<_>>()}));
        }
        visit::visit_path(self, p)
    }
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        if matches!(&*e.ty, syn::Type::Infer(_)) {
            self.infer_casts.push(json!({"span":self.s.r(e.span()),"expr":self.s.r(e.expr.span()),"ty":self.s.r(e.ty.span())}));
        } else {
            self.casts.push(json!({"span":self.s.r(e.span()),"expr":self.s.r(e.expr.span()),"ty":e.ty.to_token_stream().to_string(),"tyspan":self.s.r(e.ty.span())}));
        }
        visit::visit_expr_cast(self, e)
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        self.returns.push(self.s.r(e.span()));
        visit::visit_expr_return(self, e)
    }
    fn visit_expr_unsafe(&mut self, e: &'ast syn::ExprUnsafe) {
        self.unsafes.push(json!({"span": self.s.r(e.span()), "kw": self.s.r(e.unsafe_token.span()), "block": self.s.r(e.block.span())}));
        visit::visit_expr_unsafe(self, e)
    }
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        match &e.lit {
            syn::Lit::ByteStr(b) => self.lits.push(json!({"kind":"bytestr","span":self.s.r(e.span()),"bytes":b.value()})),
            syn::Lit::Byte(b) => self.lits.push(json!({"kind":"byte","span":self.s.r(e.span()),"value":b.value()})),
            syn::Lit::Str(b) => self.lits.push(json!({"kind":"str","span":self.s.r(e.span()),"value":b.value()})),
            _ => {}
        }
    }
    fn visit_item_static(&mut self, e: &'ast syn::ItemStatic) {
        self.statics.push(json!({"span":self.s.r(e.span()),"name":e.ident.to_string(),"kw":self.s.r(e.static_token.span())}));
        visit::visit_item_static(self, e)
    }
    fn visit_item(&mut self, e: &'ast syn::Item) {
        self.items.push(self.s.r(e.span()));
        visit::visit_item(self, e)
    }
    fn visit_stmt(&mut self, e: &'ast syn::Stmt) {
        self.stmts.push(self.s.r(e.span()));
        visit::visit_stmt(self, e)
    }
}

/// the outermost closures of an expression
struct Outer<'a>(Vec<&'a syn::ExprClosure>);
impl<'a> Visit<'a> for Outer<'a> {
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.0.push(e) }
}

impl<'a> V<'a> {
    fn name(&self, n: &str) -> String {
        let mut v = self.ctx.clone();
        v.push(n.into());
        v.join("::")
    }
    fn func(&mut self, name: String, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: &syn::Block, span: Span) {
        let mut b = Body::new(self.s);
        b.visit_block(block);
        // signature edits: attributes / paths inside the signature
        let mut sb = Body::new(self.s);
        sb.visit_signature(sig);
        let attr_spans: Vec<_> = attrs.iter().map(|a| self.s.r(a.span())).collect();
        let vis_span = vis.and_then(|v| match v {
            syn::Visibility::Inherited => None,
            v => Some(self.s.r(v.span())),
        });
        let out = match &sig.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => self.s.r(t.span()),
        };
        let paren_end = self.s.off(sig.paren_token.span.close().end());
        let wherespan = sig.generics.where_clause.as_ref().map(|w| self.s.r(w.span()));
        self.items.push(json!({
            "kind":"fn","name":name,"span":self.s.r(span),"attrs":attr_spans,"vis":vis_span,"sig":self.s.r(sig.span()),
            "test": self.testctx || is_cfg_test(attrs),
            "paren_end": paren_end, "ret": out, "where": wherespan, "body": self.s.r(block.span()), "unsafe": sig.unsafety.is_some(),
            "const": sig.constness.as_ref().map(|c| self.s.r(c.span())),
            "stmts": block.stmts.iter().map(|x| self.s.r(x.span())).collect::<Vec<_>>(),
            "impl": self.impls.last().cloned(),
            "inputs": sig.inputs.iter().map(|i| json!({"span": self.s.r(i.span()), "text": i.to_token_stream().to_string()})).collect::<Vec<_>>(),
            "loops":b.loops,"binops":b.binops,"assignops":b.assignops,"closures":b.closures,"macros":b.macros,"calls":b.calls,
            "paths":b.paths,"sigpaths":sb.paths,"infer_casts":b.infer_casts,"returns":b.returns,"blocks":b.blocks,"bodyattrs":b.attrs,"lits":b.lits,
            "unsafes":b.unsafes,"statics":b.statics,"casts":b.casts,"methods":b.methods,"inner_items":b.items,"lets":b.lets,"ifs":b.ifs,"matches":b.matches,
            "allstmts": b.stmts, "callexprs": b.callexprs,
        }));
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        let t = self.testctx;
        self.testctx |= is_cfg_test(&m.attrs);
        self.ctx.push(m.ident.to_string());
        visit::visit_item_mod(self, m);
        self.ctx.pop();
        self.testctx = t;
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        let n = self.name(&f.sig.ident.to_string());
        self.func(n, &f.attrs, Some(&f.vis), &f.sig, &f.block, f.span());
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let t = self.testctx;
        self.testctx |= is_cfg_test(&i.attrs);
        let ty = type_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let key = match &tr {
            Some(t) => format!("<{} as {}>", ty, t),
            None => ty.clone(),
        };
        let hs = self.s.off(i.span().start());
        let astart = i.attrs.last().map(|a| self.s.off(a.span().end())).unwrap_or(hs);
        let be = self.s.off(i.brace_token.span.open().start());
        self.ctx.push(key);
        self.impls.push(json!({"header":[astart, be], "trait": tr, "ty": ty, "span": self.s.r(i.span())}));
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    let n = self.name(&f.sig.ident.to_string());
                    self.func(n, &f.attrs, Some(&f.vis), &f.sig, &f.block, f.span());
                }
                syn::ImplItem::Const(c) => {
                    let n = self.name(&c.ident.to_string());
                    let mut b = Body::new(self.s);
                    b.visit_expr(&c.expr);
                    self.items.push(json!({"kind":"const","name":n,"span":self.s.r(c.span()),"attrs":c.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),
                        "expr":self.s.r(c.expr.span()),"ty":self.s.r(c.ty.span()),"impl":self.impls.last().cloned(),"lits":b.lits,"methods":b.methods,"paths":b.paths,"test":self.testctx}));
                }
                _ => {}
            }
        }
        self.impls.pop();
        self.ctx.pop();
        self.testctx = t;
    }
    /// the methods of a trait that have a body
    fn visit_item_trait(&mut self, i: &'ast syn::ItemTrait) {
        let t = self.testctx;
        self.testctx |= is_cfg_test(&i.attrs);
        let a = self.s.off(i.span().start());
        let be = self.s.off(i.brace_token.span.open().start());
        self.ctx.push(i.ident.to_string());
        self.impls.push(json!({"header":[a, be], "trait": null, "ty": i.ident.to_string(), "span": self.s.r(i.span())}));
        for it in &i.items {
            if let syn::TraitItem::Fn(f) = it {
                if let Some(block) = &f.default {
                    let n = self.name(&f.sig.ident.to_string());
                    self.func(n, &f.attrs, None, &f.sig, block, f.span());
                }
            }
        }
        self.impls.pop();
        self.ctx.pop();
        self.testctx = t;
    }
    fn visit_item_struct(&mut self, x: &'ast syn::ItemStruct) {
        let n = self.name(&x.ident.to_string());
        let mut b = Body::new(self.s);
        visit::visit_item_struct(&mut b, x);
        self.items.push(json!({"kind":"struct","name":n,"span":self.s.r(x.span()),"attrs":x.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),"inner_attrs":b.attrs,"paths":b.paths,
            "fieldvis": x.fields.iter().map(|f| match &f.vis { syn::Visibility::Inherited => json!([self.s.off(f.ident.as_ref().map(|i| i.span()).unwrap_or(f.ty.span()).start())]), v => self.s.r(v.span())}).collect::<Vec<_>>(), "test": self.testctx}));
    }
    fn visit_item_enum(&mut self, x: &'ast syn::ItemEnum) {
        let n = self.name(&x.ident.to_string());
        let mut b = Body::new(self.s);
        visit::visit_item_enum(&mut b, x);
        self.items.push(json!({"kind":"enum","name":n,"span":self.s.r(x.span()),"attrs":x.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),"inner_attrs":b.attrs,"paths":b.paths,
            "variants": x.variants.iter().map(|v| json!({"name": v.ident.to_string(), "discr": v.discriminant.as_ref().map(|(_, e)| e.to_token_stream().to_string())})).collect::<Vec<_>>(), "test": self.testctx}));
    }
    fn visit_item_const(&mut self, x: &'ast syn::ItemConst) {
        let n = self.name(&x.ident.to_string());
        let mut b = Body::new(self.s);
        b.visit_expr(&x.expr);
        self.items.push(json!({"kind":"const","name":n,"span":self.s.r(x.span()),"attrs":x.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),"expr":self.s.r(x.expr.span()),"ty":self.s.r(x.ty.span()),"lits":b.lits,"methods":b.methods,"paths":b.paths,"test":self.testctx}));
    }
    fn visit_item_static(&mut self, x: &'ast syn::ItemStatic) {
        let n = self.name(&x.ident.to_string());
        let mut b = Body::new(self.s);
        b.visit_expr(&x.expr);
        // outermost closures of a table of functions: NAME::0, NAME::1, ...
        let mut cl = Outer(vec![]);
        cl.visit_expr(&x.expr);
        for (k, c) in cl.0.iter().enumerate() {
            let mut b = Body::new(self.s);
            b.visit_expr(&c.body);
            let (stmts, block) = match &*c.body {
                syn::Expr::Block(bl) => (bl.block.stmts.iter().map(|x| self.s.r(x.span())).collect::<Vec<_>>(), true),
                e => (vec![self.s.r(e.span())], false),
            };
            let body = self.s.r(c.body.span());
            let start = body[0].clone();
            self.items.push(json!({
                "kind":"fn","name":format!("{n}::{k}"),"span":body,"attrs":[],"vis":Value::Null,"sig":[start, start],"test":self.testctx,
                "paren_end":start,"ret":Value::Null,"where":Value::Null,"body":body,"unsafe":false,"const":Value::Null,"stmts":stmts,"impl":Value::Null,
                "inputs":[],"closure":{"name":format!("{n}_{k}"),"params":c.inputs.iter().map(|i| i.to_token_stream().to_string()).collect::<Vec<_>>(),"block":block,"of":cl.0.len()},
                "loops":b.loops,"binops":b.binops,"assignops":b.assignops,"closures":b.closures,"macros":b.macros,"calls":b.calls,
                "paths":b.paths,"sigpaths":[],"infer_casts":b.infer_casts,"returns":b.returns,"blocks":b.blocks,"bodyattrs":b.attrs,"lits":b.lits,
                "unsafes":b.unsafes,"statics":b.statics,"casts":b.casts,"methods":b.methods,"inner_items":b.items,"lets":b.lets,"ifs":b.ifs,"matches":b.matches,
                "allstmts": if block { b.stmts } else { vec![body.clone()] }, "callexprs": b.callexprs,
            }));
        }
        self.items.push(json!({"kind":"static","name":n,"span":self.s.r(x.span()),"attrs":x.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),"expr":self.s.r(x.expr.span()),"ty":self.s.r(x.ty.span()),"lits":b.lits,"test":self.testctx}));
    }
    fn visit_item_type(&mut self, x: &'ast syn::ItemType) {
        let n = self.name(&x.ident.to_string());
        self.items.push(json!({"kind":"type","name":n,"span":self.s.r(x.span()),"attrs":x.attrs.iter().map(|a| self.s.r(a.span())).collect::<Vec<_>>(),"paths":[],"test":self.testctx}));
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&f).expect("read");
        let s = Src::new(text);
        let file = match syn::parse_file(&s.text) {
            Ok(x) => x,
            Err(e) => {
                out.insert(f, json!({"error": e.to_string()}));
                continue;
            }
        };
        let mut v = V { s: &s, items: vec![], ctx: vec![], impls: vec![], testctx: false };
        v.visit_file(&file);
        out.insert(f, Value::Array(v.items));
    }
    println!("{}", Value::Object(out));
}
