//! Ideal stand-in for Argon2: parameter validation as the real crate, output from an oracle over
//! (algorithm, version, parameters, length, password, salt).
use std::fmt;

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Error {
    AdTooLong,
    AlgorithmInvalid,
    KeyIdTooLong,
    MemoryTooLittle,
    MemoryTooMuch,
    OutputTooShort,
    OutputTooLong,
    PwdTooLong,
    SaltTooShort,
    SaltTooLong,
    SecretTooLong,
    ThreadsTooFew,
    ThreadsTooMany,
    TimeTooSmall,
    VersionInvalid,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("argon2 error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = core::result::Result<T, Error>;

pub const MIN_SALT_LEN: usize = 8;
pub const MAX_SALT_LEN: usize = 0xFFFFFFFF;
pub const MAX_PWD_LEN: usize = 0xFFFFFFFF;
pub const MAX_SECRET_LEN: usize = 0xFFFFFFFF;
pub const RECOMMENDED_SALT_LEN: usize = 16;

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, PartialOrd, Ord, Default)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    #[default]
    Argon2id = 2,
}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, PartialOrd, Ord, Default)]
#[repr(u32)]
pub enum Version {
    V0x10 = 0x10,
    #[default]
    V0x13 = 0x13,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Params {
    m: u32,
    t: u32,
    p: u32,
    len: Option<usize>,
}
impl Params {
    pub const DEFAULT_M_COST: u32 = 19 * 1024;
    pub const MIN_M_COST: u32 = 8;
    pub const MAX_M_COST: u32 = u32::MAX;
    pub const DEFAULT_T_COST: u32 = 2;
    pub const MIN_T_COST: u32 = 1;
    pub const MAX_T_COST: u32 = u32::MAX;
    pub const DEFAULT_P_COST: u32 = 1;
    pub const MIN_P_COST: u32 = 1;
    pub const MAX_P_COST: u32 = 0xFFFFFF;
    pub const DEFAULT_OUTPUT_LEN: usize = 32;
    pub const MIN_OUTPUT_LEN: usize = 4;
    pub const MAX_OUTPUT_LEN: usize = 0xFFFFFFFF;
    pub const DEFAULT: Self = Params { m: 19 * 1024, t: 2, p: 1, len: None };

    pub const fn new(m: u32, t: u32, p: u32, len: Option<usize>) -> Result<Self> {
        if m < 8 {
            return Err(Error::MemoryTooLittle);
        }
        if m < p * 8 {
            return Err(Error::MemoryTooLittle);
        }
        if t < 1 {
            return Err(Error::TimeTooSmall);
        }
        if p < 1 {
            return Err(Error::ThreadsTooFew);
        }
        if p > 0xFFFFFF {
            return Err(Error::ThreadsTooMany);
        }
        if let Some(len) = len {
            if len < 4 {
                return Err(Error::OutputTooShort);
            }
            if len > 0xFFFFFFFF {
                return Err(Error::OutputTooLong);
            }
        }
        Ok(Params { m, t, p, len })
    }
    pub const fn m_cost(&self) -> u32 {
        self.m
    }
    pub const fn t_cost(&self) -> u32 {
        self.t
    }
    pub const fn p_cost(&self) -> u32 {
        self.p
    }
    pub const fn output_len(&self) -> Option<usize> {
        self.len
    }
}
impl Default for Params {
    fn default() -> Params {
        Params::DEFAULT
    }
}

#[derive(Clone, Default)]
pub struct Argon2<'key> {
    alg: Algorithm,
    ver: Version,
    params: Params,
    secret: Option<&'key [u8]>,
}
impl<'key> Argon2<'key> {
    pub fn new(alg: Algorithm, ver: Version, params: Params) -> Self {
        Argon2 { alg, ver, params, secret: None }
    }
    pub fn new_with_secret(secret: &'key [u8], alg: Algorithm, ver: Version, params: Params) -> Result<Self> {
        Ok(Argon2 { alg, ver, params, secret: Some(secret) })
    }
    pub fn params(&self) -> &Params {
        &self.params
    }
    pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut [u8]) -> Result<()> {
        if out.len() < self.params.output_len().unwrap_or(Params::MIN_OUTPUT_LEN) {
            return Err(Error::OutputTooShort);
        }
        if out.len() > self.params.output_len().unwrap_or(Params::MAX_OUTPUT_LEN) {
            return Err(Error::OutputTooLong);
        }
        if salt.len() < MIN_SALT_LEN {
            return Err(Error::SaltTooShort);
        }
        let mut d = vec![self.alg as u8];
        for x in [self.ver as u32, self.params.m, self.params.t, self.params.p, out.len() as u32, pwd.len() as u32] {
            d.extend_from_slice(&x.to_le_bytes());
        }
        d.extend_from_slice(pwd);
        d.extend_from_slice(&(salt.len() as u32).to_le_bytes());
        d.extend_from_slice(salt);
        if let Some(s) = self.secret {
            d.extend_from_slice(s);
        }
        symrt::orc("argon2", &d, out);
        Ok(())
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ParamsBuilder {
    m: u32,
    t: u32,
    p: u32,
    len: Option<usize>,
}
impl ParamsBuilder {
    pub const DEFAULT: Self = ParamsBuilder { m: 19 * 1024, t: 2, p: 1, len: None };
    pub const fn new() -> Self {
        Self::DEFAULT
    }
    pub fn m_cost(&mut self, m: u32) -> &mut Self {
        self.m = m;
        self
    }
    pub fn t_cost(&mut self, t: u32) -> &mut Self {
        self.t = t;
        self
    }
    pub fn p_cost(&mut self, p: u32) -> &mut Self {
        self.p = p;
        self
    }
    pub fn output_len(&mut self, len: usize) -> &mut Self {
        self.len = Some(len);
        self
    }
    pub const fn build(&self) -> Result<Params> {
        Params::new(self.m, self.t, self.p, self.len)
    }
    pub fn context(&self, alg: Algorithm, ver: Version) -> Result<Argon2<'_>> {
        Ok(Argon2::new(alg, ver, self.build()?))
    }
}
impl Default for ParamsBuilder {
    fn default() -> Self {
        Self::DEFAULT
    }
}
impl TryFrom<ParamsBuilder> for Params {
    type Error = Error;
    fn try_from(b: ParamsBuilder) -> Result<Params> {
        b.build()
    }
}
impl From<Params> for Argon2<'_> {
    fn from(params: Params) -> Self {
        Argon2::new(Algorithm::default(), Version::default(), params)
    }
}
