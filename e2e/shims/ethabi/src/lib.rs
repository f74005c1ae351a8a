//! Type-level stand-in: only the repo's (unexecuted) test helper refers to ethabi.
pub type Uint = ethereum_types::U256;
pub type Int = ethereum_types::U256;
pub type Address = ethereum_types::H160;
#[derive(Debug, Clone, PartialEq)]
pub enum ParamType { Address, Bytes, Int(usize), Uint(usize), Bool, String, Array(Box<ParamType>), FixedBytes(usize), FixedArray(Box<ParamType>, usize), Tuple(Vec<ParamType>) }
#[derive(Debug, Clone, PartialEq)]
pub enum Token { Address(Address), FixedBytes(Vec<u8>), Bytes(Vec<u8>), Int(Int), Uint(Uint), Bool(bool), String(String), FixedArray(Vec<Token>), Array(Vec<Token>), Tuple(Vec<Token>) }
pub fn encode(_t: &[Token]) -> Vec<u8> { unimplemented!("ethabi stand-in") }
