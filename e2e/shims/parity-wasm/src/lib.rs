//! Stand-in for the slice of parity-wasm the linker step uses: decode, edit global initialisers,
//! encode.  All other sections are kept byte for byte.
use std::fmt;
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
fn leb(b: &[u8], p: &mut usize) -> Result<u64, Error> {
    let mut r = 0u64; let mut s = 0;
    loop { let x = *b.get(*p).ok_or_else(|| Error("eof".into()))?; *p += 1; r |= ((x & 0x7f) as u64) << s; s += 7; if x & 0x80 == 0 { return Ok(r); } if s > 63 { return Err(Error("leb".into())); } }
}
fn sleb(b: &[u8], p: &mut usize) -> Result<i64, Error> {
    let mut r = 0i64; let mut s = 0;
    loop { let x = *b.get(*p).ok_or_else(|| Error("eof".into()))?; *p += 1; r |= ((x & 0x7f) as i64) << s; s += 7; if x & 0x80 == 0 { if s < 64 && x & 0x40 != 0 { r |= -1i64 << s; } return Ok(r); } if s > 63 { return Err(Error("leb".into())); } }
}
fn wleb(mut v: u64, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); return; } o.push(b | 0x80); } }
fn wsleb(mut v: i64, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { o.push(b); return; } o.push(b | 0x80); } }
pub mod elements {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Instruction { I32Const(i32), I64Const(i64), F32Const(u32), F64Const(u64), GetGlobal(u32), End }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InitExpr(pub(crate) Vec<Instruction>);
    impl InitExpr { pub fn new(c: Vec<Instruction>) -> Self { InitExpr(c) } pub fn code(&self) -> &[Instruction] { &self.0 } }
    #[derive(Debug, Clone)]
    pub struct GlobalEntry { pub(crate) ty: u8, pub(crate) mutable: u8, pub(crate) init: InitExpr }
    impl GlobalEntry { pub fn init_expr(&self) -> &InitExpr { &self.init } pub fn init_expr_mut(&mut self) -> &mut InitExpr { &mut self.init } }
    #[derive(Debug, Clone, Default)]
    pub struct GlobalSection { pub(crate) e: Vec<GlobalEntry> }
    impl GlobalSection { pub fn entries(&self) -> &[GlobalEntry] { &self.e } pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> { &mut self.e } }
    #[derive(Debug, Clone)]
    pub enum Section { Global(GlobalSection), Raw(u8, Vec<u8>) }
    #[derive(Debug, Clone, Default)]
    pub struct Module { pub(crate) s: Vec<Section> }
    impl Module {
        pub fn global_section(&self) -> Option<&GlobalSection> { self.s.iter().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None }) }
        pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> { self.s.iter_mut().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None }) }
    }
}
use elements::*;
pub fn deserialize_buffer(b: &[u8]) -> Result<Module, Error> {
    if b.len() < 8 || &b[0..8] != b"\0asm\x01\0\0\0" { return Err(Error("bad magic".into())); }
    let mut p = 8; let mut m = Module::default();
    while p < b.len() {
        let id = b[p]; p += 1;
        let n = leb(b, &mut p)? as usize;
        let body = b.get(p..p + n).ok_or_else(|| Error("section".into()))?; p += n;
        if id == 6 {
            let mut q = 0; let c = leb(body, &mut q)?; let mut g = GlobalSection::default();
            for _ in 0..c {
                let ty = body[q]; let mutable = body[q + 1]; q += 2; let mut code = vec![];
                loop {
                    let op = body[q]; q += 1;
                    code.push(match op {
                        0x41 => Instruction::I32Const(sleb(body, &mut q)? as i32), 0x42 => Instruction::I64Const(sleb(body, &mut q)?),
                        0x43 => { let v = u32::from_le_bytes(body[q..q + 4].try_into().unwrap()); q += 4; Instruction::F32Const(v) }
                        0x44 => { let v = u64::from_le_bytes(body[q..q + 8].try_into().unwrap()); q += 8; Instruction::F64Const(v) }
                        0x23 => Instruction::GetGlobal(leb(body, &mut q)? as u32), 0x0b => Instruction::End,
                        o => return Err(Error(format!("unsupported init op {o:#x}"))),
                    });
                    if op == 0x0b { break; }
                }
                g.e.push(GlobalEntry { ty, mutable, init: InitExpr(code) });
            }
            m.s.push(Section::Global(g));
        } else { m.s.push(Section::Raw(id, body.to_vec())); }
    }
    Ok(m)
}
pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for s in m.s {
        let (id, body) = match s {
            Section::Raw(i, b) => (i, b),
            Section::Global(g) => {
                let mut b = vec![]; wleb(g.e.len() as u64, &mut b);
                for e in g.e {
                    b.push(e.ty); b.push(e.mutable);
                    for i in e.init.0 { match i {
                        Instruction::I32Const(v) => { b.push(0x41); wsleb(v as i64, &mut b) } Instruction::I64Const(v) => { b.push(0x42); wsleb(v, &mut b) }
                        Instruction::F32Const(v) => { b.push(0x43); b.extend(v.to_le_bytes()) } Instruction::F64Const(v) => { b.push(0x44); b.extend(v.to_le_bytes()) }
                        Instruction::GetGlobal(v) => { b.push(0x23); wleb(v as u64, &mut b) } Instruction::End => b.push(0x0b),
                    } }
                }
                (6, b)
            }
        };
        o.push(id); wleb(body.len() as u64, &mut o); o.extend(body);
    }
    Ok(o)
}
pub mod builder {
    use super::*;
    pub fn module() -> ModuleBuilder { ModuleBuilder(Module::default()) }
    pub struct ModuleBuilder(Module);
    impl ModuleBuilder { pub fn with_module(self, m: Module) -> Self { ModuleBuilder(m) } pub fn build(self) -> Module { self.0 } }
}
