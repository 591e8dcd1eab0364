//! The operating system's random generator: every byte is an unconstrained input.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(std::num::NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(std::num::NonZeroU32::new(1).unwrap());
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> std::num::NonZeroU32 {
        self.0
    }
}
impl From<std::num::NonZeroU32> for Error {
    fn from(c: std::num::NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("getrandom")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(_: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, "getrandom")
    }
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if !dest.is_empty() {
        symrt::random(dest);
    }
    Ok(())
}
