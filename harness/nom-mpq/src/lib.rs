//! Stand-in for the MPQ archive reader (a third party crate, not under
//! verification): an archive is whatever sectors the harness put in it.
use nom::error::{ErrorKind, ParseError};

pub type MPQResult<I, O> = Result<(I, O), MPQParserError>;

#[derive(Debug)]
pub enum MPQParserError { ByteAligned(String), IoError(std::io::Error), HashTableEntryNotFound(String), IncompleteData }
impl std::fmt::Display for MPQParserError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("MPQ") } }
impl std::error::Error for MPQParserError {}
impl From<std::io::Error> for MPQParserError { fn from(e: std::io::Error) -> Self { Self::IoError(e) } }
impl<I: Clone> ParseError<I> for MPQParserError {
    fn from_error_kind(_: I, _: ErrorKind) -> Self { Self::IncompleteData }
    fn append(_: I, _: ErrorKind, o: Self) -> Self { o }
}

#[derive(Debug, Default)]
pub struct MPQUserData { pub user_data_size: u32, pub archive_header_offset: u32, pub user_data_header_size: u32, pub content: Vec<u8> }

#[derive(Debug, Default)]
pub struct MPQ { pub user_data: Option<MPQUserData>, pub sectors: Vec<(&'static str, Vec<u8>)> }

/// What the next `parser::parse` returns.
static mut NEXT: (Vec<u8>, Vec<(&'static str, Vec<u8>)>) = (Vec::new(), Vec::new());
/// The archive's user data and sectors.
pub fn harness_archive(user_data: Vec<u8>, sectors: Vec<(&'static str, Vec<u8>)>) {
    unsafe { core::ptr::write(&raw mut NEXT, (user_data, sectors)) }
}

impl MPQ {
    pub fn harness() -> MPQ {
        let n = unsafe { &*(&raw const NEXT) };
        MPQ { user_data: Some(MPQUserData { content: n.0.clone(), ..Default::default() }), sectors: n.1.clone() }
    }
    pub fn read_mpq_file_sector<'a>(&'a self, filename: &str, _force_decompress: bool, orig_input: &'a [u8]) -> MPQResult<&'a [u8], Vec<u8>> {
        for (n, d) in &self.sectors { if *n == filename { return Ok((orig_input, d.clone())) } }
        Err(MPQParserError::HashTableEntryNotFound(String::new()))
    }
}

pub mod parser {
    use super::*;
    pub fn peek_hex(_: &[u8]) -> String { String::new() }
    pub fn parse(orig_input: &[u8]) -> MPQResult<&[u8], MPQ> { Ok((orig_input, MPQ::harness())) }
    pub fn read_file(_path: &str) -> Vec<u8> { Vec::new() }
}
