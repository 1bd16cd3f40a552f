//! Ideal MAC: a random oracle on (key, message). Equal inputs give equal tags, different inputs different ones.
//! As in HMAC, trailing zero bytes of a short key do not count (keys are zero-padded to the block size).
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;

struct Table(UnsafeCell<Vec<(Vec<u8>, Vec<u8>)>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(Vec::new()));

fn oracle(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let t = unsafe { &mut *TABLE.0.get() };
    let id = match t.iter().position(|(k, m)| k.len() == key.len() && m.len() == msg.len() && k == key && m == msg) {
        Some(i) => i,
        None => {
            t.push((key.to_vec(), msg.to_vec()));
            t.len() - 1
        }
    };
    let mut out = [0xA5u8; 32];
    out[0] = id as u8 + 1;
    out[15] = 0x3C ^ id as u8;
    out[31] = id as u8 + 7;
    out
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Invalid Length")
    }
}
impl std::error::Error for InvalidLength {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct MacError;
impl fmt::Display for MacError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("MAC tag mismatch")
    }
}
impl std::error::Error for MacError {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Array([u8; 32]);
impl Array {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl Deref for Array {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Array {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl IntoIterator for Array {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, 32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl From<Array> for [u8; 32] {
    fn from(a: Array) -> Self {
        a.0
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CtOutput(Array);
impl CtOutput {
    pub fn into_bytes(self) -> Array {
        self.0
    }
}

#[derive(Clone)]
pub struct Hmac<D> {
    key: Vec<u8>,
    msg: Vec<u8>,
    d: PhantomData<D>,
}
pub trait KeyInit: Sized {}
impl<D> KeyInit for Hmac<D> {}
pub trait Mac: Sized {
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
    fn update(&mut self, data: &[u8]);
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data.as_ref());
        self
    }
    fn finalize(self) -> CtOutput;
    fn finalize_reset(&mut self) -> CtOutput;
    fn reset(&mut self);
    fn verify_slice(self, tag: &[u8]) -> Result<(), MacError> {
        if self.finalize().into_bytes().as_slice() == tag { Ok(()) } else { Err(MacError) }
    }
    fn verify_truncated_left(self, tag: &[u8]) -> Result<(), MacError> {
        let b = self.finalize().into_bytes();
        if !tag.is_empty() && tag.len() <= 32 && &b[..tag.len()] == tag { Ok(()) } else { Err(MacError) }
    }
}
impl<D> Mac for Hmac<D> {
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        let mut n = key.len();
        while n > 0 && n <= 64 && key[n - 1] == 0 {
            n -= 1;
        }
        Ok(Hmac { key: key[..n].to_vec(), msg: vec![], d: PhantomData })
    }
    fn update(&mut self, data: &[u8]) {
        self.msg.extend_from_slice(data);
    }
    fn finalize(self) -> CtOutput {
        CtOutput(Array(oracle(&self.key, &self.msg)))
    }
    fn finalize_reset(&mut self) -> CtOutput {
        let r = CtOutput(Array(oracle(&self.key, &self.msg)));
        self.msg.clear();
        r
    }
    fn reset(&mut self) {
        self.msg.clear();
    }
}
