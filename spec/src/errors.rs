use std::io;

#[derive(Debug)]
pub enum CompressError {
    IOErr(io::Error),
    Overflow,
    Malformed,
}

#[derive(Debug)]
pub enum DecompressError {
    IOErr(io::Error),
    Unsupported,
    Underflow,
    Malformed,
    TypeMismatch,
}

#[derive(Debug)]
pub enum HeaderErr {
    IOErr(io::Error),
    WrongMagic,
    WrongValue(String),
}

impl From<io::Error> for CompressError {
    fn from(err: io::Error) -> Self {
        CompressError::IOErr(err)
    }
}

impl From<io::Error> for DecompressError {
    fn from(err: io::Error) -> Self {
        DecompressError::IOErr(err)
    }
}

impl From<io::Error> for HeaderErr {
    fn from(err: io::Error) -> Self {
        HeaderErr::IOErr(err)
    }
}
