//! Drives the real front end (comment removal, lexer, parser, length prefix) over framed requests on stdin.
//! Request: mode byte, u32 LE length, payload. Reply: status byte (0 ok, 1 refused, 2 panic), u32 LE length, payload.
#![allow(dead_code, unreachable_patterns)]
pub mod yul2ir {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(#[allow(clippy::all)] pub yul);
    #[path = "../../../../.work/repo/src/yul2ir/ast.rs"]
    pub mod ast;
    #[path = "../../../../.work/repo/src/yul2ir/utils.rs"]
    pub mod utils;
}
use std::fmt::Write as _;
use std::io::{Read, Write};
use yul2ir::ast::*;
fn q(o: &mut String, s: &str) {
    o.push('"');
    for b in s.as_bytes() { write!(o, "{:02x}", b).unwrap(); }
    o.push('"');
}
fn list<T>(o: &mut String, l: &[T], f: impl Fn(&mut String, &T)) {
    o.push('[');
    for (i, x) in l.iter().enumerate() { if i > 0 { o.push(','); } f(o, x); }
    o.push(']');
}
fn ty(o: &mut String, t: &Option<Identifier>) { match t { Some(t) => q(o, &t.name), None => o.push_str("null") } }
fn tid(o: &mut String, t: &TypedIdentifier) {
    o.push_str("{\"name\":"); q(o, &t.identifier.name); o.push_str(",\"type\":");
    match &t.type_name { Some(t) => q(o, &t.type_name.name), None => o.push_str("null") }
    o.push('}');
}
fn id(o: &mut String, i: &Identifier) { q(o, &i.name) }
fn lit(o: &mut String, l: &Literal) {
    let (k, v, t) = match l {
        Literal::TrueLiteral(t) => ("true", "", t),
        Literal::FalseLiteral(t) => ("false", "", t),
        Literal::HexNumberLiteral(h, t) => ("hex", h.hex.as_str(), t),
        Literal::DecimalNumberLiteral(d, t) => ("dec", d.dec.as_str(), t),
        Literal::StringLiteral(s, t) => ("str", s.str.as_str(), t),
    };
    write!(o, "{{\"k\":\"{}\",\"v\":", k).unwrap(); q(o, v); o.push_str(",\"type\":"); ty(o, t); o.push('}');
}
fn call(o: &mut String, c: &FunctionCall) { o.push_str("{\"k\":\"call\",\"name\":"); id(o, &c.id); o.push_str(",\"args\":"); list(o, &c.arguments, expr); o.push('}'); }
fn expr(o: &mut String, e: &Expression) {
    match e {
        Expression::Identifier(i) => { o.push_str("{\"k\":\"id\",\"name\":"); id(o, i); o.push('}'); }
        Expression::FunctionCall(c) => call(o, c),
        Expression::Literal(l) => lit(o, l),
    }
}
fn block(o: &mut String, b: &Block) { list(o, &b.statements, stmt) }
fn stmt(o: &mut String, s: &Statement) {
    match s {
        Statement::Assignment(a) => { o.push_str("{\"k\":\"assign\",\"names\":"); list(o, &a.identifiers, id); o.push_str(",\"val\":"); expr(o, &a.value); }
        Statement::VariableDeclaration(v) => { o.push_str("{\"k\":\"let\",\"vars\":"); list(o, &v.identifiers, tid); o.push_str(",\"val\":"); match &v.value { Some(e) => expr(o, e), None => o.push_str("null") } }
        Statement::If(i) => { o.push_str("{\"k\":\"if\",\"cond\":"); expr(o, &i.cond); o.push_str(",\"body\":"); block(o, &i.body); }
        Statement::For(f) => { o.push_str("{\"k\":\"for\",\"init\":"); block(o, &f.init_block); o.push_str(",\"cond\":"); expr(o, &f.condition); o.push_str(",\"post\":"); block(o, &f.post_block); o.push_str(",\"body\":"); block(o, &f.execution_block); }
        Statement::Switch(s) => {
            o.push_str("{\"k\":\"switch\",\"cond\":"); expr(o, &s.condition);
            let none = Vec::new();
            let (cases, def) = match &s.opt { SwitchOptions::Cases(c, d) => (c, d.as_ref()), SwitchOptions::Default(d) => (&none, Some(d)) };
            o.push_str(",\"cases\":"); list(o, cases, |o, c| { o.push_str("{\"lit\":"); lit(o, &c.case); o.push_str(",\"body\":"); block(o, &c.body); o.push('}'); });
            o.push_str(",\"def\":"); match def { Some(d) => block(o, &d.body), None => o.push_str("null") }
        }
        Statement::Leave => o.push_str("{\"k\":\"leave\""),
        Statement::Break => o.push_str("{\"k\":\"break\""),
        Statement::Continue => o.push_str("{\"k\":\"continue\""),
        Statement::Block(b) => { o.push_str("{\"k\":\"block\",\"body\":"); block(o, b); }
        Statement::FunctionDefinition(f) => { o.push_str("{\"k\":\"fun\",\"name\":"); id(o, &f.name); o.push_str(",\"params\":"); list(o, &f.params, tid); o.push_str(",\"rets\":"); list(o, &f.returns, tid); o.push_str(",\"body\":"); block(o, &f.body); }
        Statement::FunctionCall(c) => { o.push_str("{\"k\":\"expr\",\"e\":"); call(o, c); }
        _ => o.push_str("{\"k\":\"comment\""),
    }
    o.push('}');
}
fn object(o: &mut String, ob: &Object) {
    o.push_str("{\"k\":\"object\",\"name\":"); q(o, &ob.name); o.push_str(",\"code\":"); block(o, &ob.code); o.push_str(",\"subs\":");
    list(o, &ob.inner_segments, |o, s| match s {
        InnerSegment::Object(x) => object(o, x),
        InnerSegment::Data(n, d) => {
            o.push_str("{\"k\":\"data\",\"name\":"); q(o, n); o.push_str(",\"lits\":");
            list(o, d, |o, l| match l { DataLiteral::HexLiteral(h) => { o.push_str("{\"hex\":"); q(o, h); o.push('}') } DataLiteral::StringLiteral(h) => { o.push_str("{\"str\":"); q(o, h); o.push('}') } });
            o.push('}');
        }
    });
    o.push('}');
}
fn parse(s: &str) -> Result<String, String> {
    match yul2ir::yul::ObjectParser::new().parse(s) {
        Ok(ob) => { let mut o = String::new(); object(&mut o, &ob); Ok(o) }
        Err(e) => Err(e.to_string()),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut out) = (std::io::stdin().lock(), std::io::stdout().lock());
    // the parser's tables are built once per call in main.rs as well; a fresh parser per request keeps requests independent
    loop {
        let mut h = [0u8; 5];
        if i.read_exact(&mut h).is_err() { return; }
        let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize;
        let mut b = vec![0u8; n];
        i.read_exact(&mut b).unwrap();
        let r = std::panic::catch_unwind(|| -> Result<Vec<u8>, String> {
            match h[0] {
                b'W' => Ok(yul2ir::utils::merge_sub_wasm_with_length_prefix(&b)),
                m => {
                    let s = std::str::from_utf8(&b).map_err(|e| e.to_string())?;
                    match m {
                        b'S' => Ok(yul2ir::utils::remove_comments(s).into_bytes()),
                        b'P' => parse(s).map(String::into_bytes),
                        _ => parse(&yul2ir::utils::remove_comments(s)).map(String::into_bytes),
                    }
                }
            }
        });
        let (st, p) = match r { Ok(Ok(p)) => (0u8, p), Ok(Err(e)) => (1, e.into_bytes()), Err(p) => (2, p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().into_bytes()) };
        out.write_all(&[st]).unwrap(); out.write_all(&(p.len() as u32).to_le_bytes()).unwrap(); out.write_all(&p).unwrap(); out.flush().unwrap();
    }
}
