//! Ideal stand-in for BLAKE3 (extendable output as a collision-free function of the input).
pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub const fn from_bytes(b: [u8; 32]) -> Self {
        Hash(b)
    }
    pub fn to_hex(&self) -> String {
        self.0.iter().map(|b| format!("{:02x}", b)).collect()
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(h: [u8; 32]) -> Self {
        Hash(h)
    }
}
impl std::fmt::Display for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.to_hex())
    }
}

/// The first 32 bytes and the further bytes of the stream are separate oracles, so that a longer
/// output extends the shorter one as the real function's does.
fn stream(tag: &str, data: &[u8], skip: usize, out: &mut [u8]) {
    let mut block = [0u8; 32];
    let mut cur = usize::MAX;
    for (i, o) in out.iter_mut().enumerate() {
        let p = skip + i;
        if p / 32 != cur {
            cur = p / 32;
            let t = if cur == 0 { format!("{}", tag) } else { format!("{}+{}", tag, cur) };
            symrt::orc(&t, data, &mut block);
        }
        *o = block[p % 32];
    }
}

pub fn hash(input: &[u8]) -> Hash {
    let mut o = [0u8; 32];
    stream("blake3", input, 0, &mut o);
    Hash(o)
}
pub fn keyed_hash(key: &[u8; 32], input: &[u8]) -> Hash {
    let mut d = key.to_vec();
    d.extend_from_slice(input);
    let mut o = [0u8; 32];
    stream("blake3k", &d, 0, &mut o);
    Hash(o)
}

#[derive(Clone, Debug)]
pub struct Hasher {
    tag: String,
    data: Vec<u8>,
}
impl Default for Hasher {
    fn default() -> Self {
        Hasher::new()
    }
}
impl Hasher {
    pub fn new() -> Self {
        Hasher { tag: "blake3".into(), data: vec![] }
    }
    pub fn new_keyed(key: &[u8; 32]) -> Self {
        Hasher { tag: "blake3k".into(), data: key.to_vec() }
    }
    pub fn new_derive_key(ctx: &str) -> Self {
        Hasher { tag: format!("blake3d:{}", ctx), data: vec![] }
    }
    pub fn reset(&mut self) -> &mut Self {
        self.data.clear();
        self
    }
    pub fn update(&mut self, input: &[u8]) -> &mut Self {
        self.data.extend_from_slice(input);
        self
    }
    pub fn finalize(&self) -> Hash {
        let mut o = [0u8; 32];
        stream(&self.tag, &self.data, 0, &mut o);
        Hash(o)
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader { tag: self.tag.clone(), data: self.data.clone(), pos: 0 }
    }
    pub fn count(&self) -> u64 {
        self.data.len() as u64
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.update(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct OutputReader {
    tag: String,
    data: Vec<u8>,
    pos: usize,
}
impl OutputReader {
    pub fn fill(&mut self, buf: &mut [u8]) {
        stream(&self.tag, &self.data, self.pos, buf);
        self.pos += buf.len();
    }
    pub fn position(&self) -> u64 {
        self.pos as u64
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p as usize;
    }
}
