#[derive(Debug, Clone, Default)]
pub struct Wizer { init: String }
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Wizer {
    pub fn new() -> Self { Self::default() }
    pub fn init_func(&mut self, n: impl Into<String>) -> &mut Self { self.init = n.into(); self }
    pub fn run(&self, _w: &[u8]) -> Result<Vec<u8>, Error> { Err(Error("wizer is not available in this build".into())) }
}
