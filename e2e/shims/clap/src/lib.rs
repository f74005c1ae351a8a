//! Minimal argument parser with clap's derive surface: `--name value`, `--name=value`, flags,
//! defaults, Option, Vec(append), --help/--version; usage errors exit with status 2 like clap.
pub use clap_derive::Parser;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ArgAction { Set, Append, SetTrue, SetFalse, Count }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Req, Opt, Multi, Flag }
#[derive(Clone, Debug)]
pub struct Spec { pub long: &'static str, pub kind: Kind, pub default: Option<&'static str> }
pub struct Matches { vals: Vec<(String, Vec<String>)> }
impl Matches {
    pub fn parse_from(specs: &[Spec], args: Vec<String>) -> Result<Matches, String> {
        let mut vals: Vec<(String, Vec<String>)> = specs.iter().map(|s| (s.long.to_string(), vec![])).collect();
        let mut it = args.into_iter();
        while let Some(a) = it.next() {
            let Some(body) = a.strip_prefix("--") else { return Err(format!("unexpected argument '{a}' found")); };
            let (name, inline) = match body.split_once('=') { Some((n, v)) => (n.to_string(), Some(v.to_string())), None => (body.to_string(), None) };
            let Some(i) = specs.iter().position(|s| s.long == name) else { return Err(format!("unexpected argument '--{name}' found")); };
            let s = &specs[i];
            if s.kind == Kind::Flag {
                if inline.is_some() { return Err(format!("unexpected value for '--{name}'")); }
                if !vals[i].1.is_empty() { return Err(format!("the argument '--{name}' cannot be used multiple times")); }
                vals[i].1.push("true".into());
                continue;
            }
            let v = match inline {
                Some(v) => v,
                None => match it.next() {
                    Some(v) if !v.starts_with("--") => v,
                    _ => return Err(format!("a value is required for '--{name}'")),
                },
            };
            if s.kind != Kind::Multi && !vals[i].1.is_empty() { return Err(format!("the argument '--{name}' cannot be used multiple times")); }
            vals[i].1.push(v);
        }
        for (i, s) in specs.iter().enumerate() {
            if vals[i].1.is_empty() {
                if let Some(d) = s.default { vals[i].1.push(d.to_string()); }
                else if s.kind == Kind::Req { return Err(format!("the following required arguments were not provided: --{}", s.long)); }
            }
        }
        Ok(Matches { vals })
    }
    pub fn all(&self, n: &str) -> Vec<String> { self.vals.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default() }
    pub fn one(&self, n: &str) -> Option<String> { self.all(n).into_iter().next() }
}
pub fn run(specs: &[Spec], version: &str) -> Matches {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.iter().any(|a| a == "--version" || a == "-V") { println!("{version}"); std::process::exit(0); }
    if args.iter().any(|a| a == "--help" || a == "-h") { for s in specs { println!("--{}", s.long); } std::process::exit(0); }
    match Matches::parse_from(specs, args) { Ok(m) => m, Err(e) => { eprintln!("error: {e}"); std::process::exit(2) } }
}
pub fn convert<T: std::str::FromStr>(n: &str, v: &str) -> T where T::Err: std::fmt::Display {
    match v.parse() { Ok(v) => v, Err(e) => { eprintln!("error: invalid value '{v}' for '--{n}': {e}"); std::process::exit(2) } }
}
pub trait Parser: Sized { fn parse() -> Self; }
