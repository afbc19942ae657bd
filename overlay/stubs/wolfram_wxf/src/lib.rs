//! API stand-in for wolfram_wxf 0.4 (not available offline).
use num::BigInt;

pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        self.to_wolfram().to_string()
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        self.to_wolfram().to_string().into_bytes()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum WolframValue {
    Skip,
    Function(Box<WolframValue>, Vec<WolframValue>),
    String(Box<str>),
    Bytes(Vec<u8>),
    Symbol(Box<str>),
    Integer8(i8),
    Integer16(i16),
    Integer32(i32),
    Integer64(i64),
    BigInteger(BigInt),
    Decimal64([u8; 8]),
    BigDecimal(Box<str>),
}

impl WolframValue {
    pub fn symbol(s: impl Into<Box<str>>) -> WolframValue {
        WolframValue::Symbol(s.into())
    }
    pub fn new_symbol(s: &str) -> WolframValue {
        WolframValue::Symbol(Box::from(s))
    }
    pub fn string(s: impl Into<Box<str>>) -> WolframValue {
        WolframValue::String(s.into())
    }
    pub fn function(head: impl Into<Box<str>>, body: Vec<impl ToWolfram>) -> WolframValue {
        let v = body.iter().map(|e| e.to_wolfram()).collect();
        WolframValue::Function(Box::new(WolframValue::Symbol(head.into())), v)
    }
    pub fn list(body: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::function("List", body)
    }
}

impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}

impl std::fmt::Display for WolframValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            WolframValue::Skip => write!(f, ""),
            WolframValue::Function(h, v) => {
                let inner = v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(",");
                match h.as_ref() {
                    WolframValue::Symbol(s) if s.as_ref() == "List" => write!(f, "{{{}}}", inner),
                    _ => write!(f, "{}[{}]", h, inner),
                }
            }
            WolframValue::String(s) => write!(f, "{:?}", s),
            WolframValue::Bytes(b) => write!(f, "{:?}", b),
            WolframValue::Symbol(s) => write!(f, "{}", s),
            WolframValue::Integer8(i) => write!(f, "{}", i),
            WolframValue::Integer16(i) => write!(f, "{}", i),
            WolframValue::Integer32(i) => write!(f, "{}", i),
            WolframValue::Integer64(i) => write!(f, "{}", i),
            WolframValue::BigInteger(i) => write!(f, "{}", i),
            WolframValue::Decimal64(b) => write!(f, "{}", f64::from_le_bytes(*b)),
            WolframValue::BigDecimal(s) => write!(f, "{}", s),
        }
    }
}
