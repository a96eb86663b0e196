//! P12 (every failure becomes the error of its own name and category, and nothing but the source's own
//! failures is reported as one of the source): src/error.rs, src/{scanner,reader,event}/error.rs
use vstd::prelude::*;
verus! {
// ------------------------------------------------------------------ shims
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
/// std::io::ErrorKind, the members used
pub enum IoErrorKind { InvalidInput, InvalidData, UnexpectedEof, Other }
/// std::io::Error
#[verifier::external_body]
pub struct IoError { p: u8 }
impl IoError {
    pub uninterp spec fn kind(&self) -> IoErrorKind;
    /// the error it was made of, when it was made by this library
    pub uninterp spec fn cause(&self) -> IntError;
    #[verifier::external_body]
    pub fn new(k: IoErrorKind, e: IntError) -> (r: IoError) ensures r.kind() == k, r.cause() == e { unimplemented!() }
}
/// std::str::Utf8Error
#[verifier::external_body]
pub struct Utf8Error { p: u8 }
/// std::convert::{From, Into}: every conversion is a function, given here by what it must be
pub trait VxFrom<T>: Sized { spec fn conv(t: T) -> Self; fn vx_from(t: T) -> (r: Self) ensures r == Self::conv(t); }
pub trait VxInto<U>: Sized { spec fn goes(self) -> U; fn vx_into(self) -> (r: U) ensures r == self.goes(); }
impl<T, U: VxFrom<T>> VxInto<U> for T { open spec fn goes(self) -> U { U::conv(self) } fn vx_into(self) -> (r: U) { U::vx_from(self) } }
// ------------------------------------------------------------------ the errors
//#PROPS P12
//@item scanner::error::ScanError
//@end
//@item error::internal::ErrorCode
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item error::internal::SourceError
//@opt name=io::Error->IoError
//@end
//@item error::internal::ErrorKind
//@end
//@item error::internal::Error as IntError
//@opt name=Error->IntError
//@end
//@item error::Error
//@opt name=internal::Error->IntError
//@end
//@item error::Category
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::error::ParseError
//@opt name=io::Error->IoError
//@end
//@item reader::error::ReaderError
//@opt name=io::Error->IoError
//@end
//@item reader::error::ReadError
//@end

/// the code of the same name; a scanner that still wants more input at the end ran out of it
pub open spec fn code(e: ScanError) -> ErrorCode {
    match e {
        ScanError::UnknownDirective => ErrorCode::UnknownDirective,
        ScanError::MissingMajor => ErrorCode::MissingMajor,
        ScanError::MissingMinor => ErrorCode::MissingMinor,
        ScanError::MissingValue => ErrorCode::MissingValue,
        ScanError::InvalidVersion => ErrorCode::InvalidVersion,
        ScanError::InvalidTagHandle => ErrorCode::InvalidTagHandle,
        ScanError::InvalidTagPrefix => ErrorCode::InvalidTagPrefix,
        ScanError::InvalidTagSuffix => ErrorCode::InvalidTagSuffix,
        ScanError::InvalidAnchorName => ErrorCode::InvalidAnchorName,
        ScanError::InvalidFlowScalar => ErrorCode::InvalidFlowScalar,
        ScanError::InvalidPlainScalar => ErrorCode::InvalidPlainScalar,
        ScanError::InvalidBlockScalar => ErrorCode::InvalidBlockScalar,
        ScanError::InvalidBlockEntry => ErrorCode::InvalidBlockEntry,
        ScanError::InvalidTab => ErrorCode::InvalidTab,
        ScanError::InvalidKey => ErrorCode::InvalidKey,
        ScanError::InvalidValue => ErrorCode::InvalidValue,
        ScanError::UnknownEscape => ErrorCode::UnknownEscape,
        ScanError::UnknownDelimiter => ErrorCode::UnknownDelimiter,
        ScanError::UnexpectedEOF => ErrorCode::UnexpectedEOF,
        ScanError::IntOverflow => ErrorCode::IntOverflow,
        ScanError::Extend => ErrorCode::UnexpectedEOF,
    }
}
pub open spec fn kind(e: ParseError) -> ErrorKind {
    match e {
        ParseError::CorruptStream => ErrorKind::Code(ErrorCode::CorruptStream),
        ParseError::DuplicateVersion => ErrorKind::Code(ErrorCode::DuplicateVersion),
        ParseError::DuplicateTagDirective => ErrorKind::Code(ErrorCode::DuplicateTagDirective),
        ParseError::UndefinedTag => ErrorKind::Code(ErrorCode::UndefinedTag),
        ParseError::MissingDocumentStart => ErrorKind::Code(ErrorCode::MissingDocumentStart),
        ParseError::MissingBlockEntry => ErrorKind::Code(ErrorCode::MissingBlockEntry),
        ParseError::MissingNode => ErrorKind::Code(ErrorCode::MissingNode),
        ParseError::MissingKey => ErrorKind::Code(ErrorCode::MissingKey),
        ParseError::MissingFlowSequenceEntryOrEnd => ErrorKind::Code(ErrorCode::MissingFlowSequenceEntryOrEnd),
        ParseError::MissingFlowMappingEntryOrEnd => ErrorKind::Code(ErrorCode::MissingFlowMappingEntryOrEnd),
        ParseError::UnexpectedEOF => ErrorKind::Code(ErrorCode::UnexpectedEOF),
        ParseError::Scanner(e) => ErrorKind::Code(code(e)),
        ParseError::UTF8(e) => ErrorKind::Source(SourceError::UTF8(e)),
        ParseError::IO(e) => ErrorKind::Source(SourceError::IO(e)),
    }
}
pub open spec fn rkind(e: ReaderError) -> ErrorKind {
    match e {
        ReaderError::UTF8(e) => ErrorKind::Source(SourceError::UTF8(e)),
        ReaderError::IO(e) => ErrorKind::Source(SourceError::IO(e)),
        ReaderError::Scanner(e) => ErrorKind::Code(code(e)),
    }
}
/// only running out of input is an end of the input, only numbers and a stream that was mixed up are
/// data, and everything else is a fault of the text
pub open spec fn category(c: ErrorCode) -> Category {
    match c {
        ErrorCode::UnexpectedEOF => Category::EOF,
        ErrorCode::IntOverflow | ErrorCode::CorruptStream => Category::Data,
        _ => Category::Syntax,
    }
}
pub open spec fn source_category(e: SourceError) -> Category { match e { SourceError::IO(_) => Category::IO, SourceError::UTF8(_) => Category::Data } }
pub open spec fn kind_category(k: ErrorKind) -> Category { match k { ErrorKind::Code(c) => category(c), ErrorKind::Source(e) => source_category(e) } }
/// an error without a place
pub open spec fn bare(k: ErrorKind) -> IntError { IntError { kind: k, at: 0, line: 0, column: 0 } }
pub open spec fn public(k: ErrorKind) -> Error { Error { inner: Box::new(bare(k)) } }

// ------------------------------------------------------------------ conversions
/// impl<T> From<T> for T
impl VxFrom<ErrorKind> for ErrorKind { open spec fn conv(t: ErrorKind) -> Self { t } fn vx_from(t: ErrorKind) -> (r: Self) { t } }
impl VxFrom<ScanError> for ErrorCode {
    open spec fn conv(t: ScanError) -> Self { code(t) }
//@fn scanner::error::ErrorCode::From<ScanError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ErrorCode> for ErrorKind {
    open spec fn conv(t: ErrorCode) -> Self { ErrorKind::Code(t) }
//@fn error::internal::ErrorKind::From<ErrorCode>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<SourceError> for ErrorKind {
    open spec fn conv(t: SourceError) -> Self { ErrorKind::Source(t) }
//@fn error::internal::ErrorKind::From<SourceError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<Utf8Error> for SourceError {
    open spec fn conv(t: Utf8Error) -> Self { SourceError::UTF8(t) }
//@fn error::internal::SourceError::From<Utf8Error>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<IoError> for SourceError {
    open spec fn conv(t: IoError) -> Self { SourceError::IO(t) }
//@fn error::internal::SourceError::From<Error>::from as vx_from
//@opt vxfrom name=io::Error->IoError
//@spec
//@end
}
impl VxFrom<ErrorCode> for Category {
    open spec fn conv(t: ErrorCode) -> Self { category(t) }
//@fn error::internal::Category::From<ErrorCode>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl<'a> VxFrom<&'a ErrorCode> for Category {
    open spec fn conv(t: &'a ErrorCode) -> Self { category(*t) }
//@fn error::internal::Category::From<&ErrorCode>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl<'a> VxFrom<&'a SourceError> for Category {
    open spec fn conv(t: &'a SourceError) -> Self { source_category(*t) }
//@fn error::internal::Category::From<&SourceError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl<'a> VxFrom<&'a ErrorKind> for Category {
    open spec fn conv(t: &'a ErrorKind) -> Self { kind_category(*t) }
//@fn error::internal::Category::From<&ErrorKind>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ParseError> for ErrorKind {
    open spec fn conv(t: ParseError) -> Self { kind(t) }
//@fn event::error::ErrorKind::From<ParseError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ReaderError> for ErrorKind {
    open spec fn conv(t: ReaderError) -> Self { rkind(t) }
//@fn reader::error::ErrorKind::From<ReaderError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ScanError> for ParseError {
    open spec fn conv(t: ScanError) -> Self { ParseError::Scanner(t) }
//@fn event::error::ParseError::From<ScanError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ReaderError> for ParseError {
    open spec fn conv(t: ReaderError) -> Self { match t { ReaderError::UTF8(e) => ParseError::UTF8(e), ReaderError::IO(e) => ParseError::IO(e), ReaderError::Scanner(e) => ParseError::Scanner(e) } }
//@fn event::error::ParseError::From<ReaderError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<Utf8Error> for ReaderError {
    open spec fn conv(t: Utf8Error) -> Self { ReaderError::UTF8(t) }
//@fn reader::error::ReaderError::From<Utf8Error>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<IoError> for ReaderError {
    open spec fn conv(t: IoError) -> Self { ReaderError::IO(t) }
//@fn reader::error::ReaderError::From<Error>::from as vx_from
//@opt vxfrom name=io::Error->IoError
//@spec
//@end
}
impl VxFrom<ScanError> for ReaderError {
    open spec fn conv(t: ScanError) -> Self { ReaderError::Scanner(t) }
//@fn reader::error::ReaderError::From<ScanError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl ReadError {
//@fn reader::error::ReadError::new
    ensures ret.e == e
//@end
}
impl VxFrom<ReaderError> for ReadError {
    open spec fn conv(t: ReaderError) -> Self { ReadError { e: t } }
//@fn reader::error::ReadError::From<ReaderError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ReadError> for ReaderError {
    open spec fn conv(t: ReadError) -> Self { t.e }
//@fn reader::error::ReaderError::From<ReadError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
impl VxFrom<ScanError> for ReadError {
    open spec fn conv(t: ScanError) -> Self { ReadError { e: ReaderError::Scanner(t) } }
//@fn reader::error::ReadError::From<ScanError>::from as vx_from
//@opt vxfrom
//@spec
//@end
}
// ------------------------------------------------------------------ the error a caller sees
impl IntError {
//@fn error::internal::Error::new
//@opt bound=Into<ErrorKind>->VxInto<ErrorKind> vxfrom name=Error->IntError
    ensures ret == bare(err.goes())
//@end
//@fn error::internal::Error::with_context
//@opt bound=Into<ErrorKind>->VxInto<ErrorKind> vxfrom name=Error->IntError
    ensures ret == (IntError { kind: err.goes(), at, line, column })
//@end
//@fn error::internal::Error::context
    ensures *ret == (IntError { kind: old(self).kind, at, line, column }), *final(self) == *final(ret)
//@end
//@fn error::internal::Error::kind
//@opt bound=Into<ErrorKind>->VxInto<ErrorKind> vxfrom
    ensures *ret == (IntError { kind: kind.goes(), at: old(self).at, line: old(self).line, column: old(self).column }), *final(self) == *final(ret)
//@end
//@fn error::internal::Error::has_context
    ensures ret == (self.line != 0)
//@end
//@fn error::internal::Error::classify
//@opt vxfrom
    ensures ret == kind_category(self.kind)
//@end
}
impl<T> VxFrom<T> for IntError where T: VxInto<ErrorKind> {
    open spec fn conv(t: T) -> Self { bare(t.goes()) }
//@fn error::internal::Error::From<T>::from as vx_from
//@opt vxfrom name=Error->IntError
//@spec
//@end
}
impl Error {
//@fn error::Error::new
//@opt name=internal::Error->IntError
    ensures *ret.inner == err
//@end
//@fn error::Error::line
    ensures ret == self.inner.line
//@end
//@fn error::Error::column
    ensures ret == self.inner.column
//@end
//@fn error::Error::at
    ensures ret == self.inner.at
//@end
//@fn error::Error::classify
    ensures ret == kind_category(self.inner.kind)
//@end
//@fn error::Error::has_context
    ensures ret == (self.inner.line != 0)
//@end
}
impl VxFrom<IntError> for Error {
    open spec fn conv(t: IntError) -> Self { Error { inner: Box::new(t) } }
//@fn error::internal::Error::From<Error>::from as vx_from
//@opt vxfrom name=Error->IntError
//@spec
//@end
}
impl VxFrom<ScanError> for Error {
    open spec fn conv(t: ScanError) -> Self { public(ErrorKind::Code(code(t))) }
//@fn scanner::error::Error::From<ScanError>::from as vx_from
//@opt vxfrom optpath name=crate::error::internal::Error->IntError name=crate::error::internal::ErrorCode->ErrorCode name=crate::error::internal::ErrorKind->ErrorKind name=crate::error::Error->Error
//@spec
//@end
}
impl VxFrom<ParseError> for Error {
    open spec fn conv(t: ParseError) -> Self { public(kind(t)) }
//@fn event::error::Error::From<ParseError>::from as vx_from
//@opt vxfrom optpath name=crate::error::internal::Error->IntError name=crate::error::internal::ErrorKind->ErrorKind name=crate::error::Error->Error
//@spec
//@end
}
impl VxFrom<ReaderError> for Error {
    open spec fn conv(t: ReaderError) -> Self { public(rkind(t)) }
//@fn reader::error::Error::From<ReaderError>::from as vx_from
//@opt vxfrom optpath name=crate::error::internal::Error->IntError name=crate::error::internal::ErrorKind->ErrorKind name=crate::error::Error->Error
//@spec
//@end
}
/// a failing source's own error comes out as it is, others carry the error they are about
pub open spec fn as_io(r: IoError, e: IntError) -> bool {
    match e.kind {
        ErrorKind::Source(SourceError::IO(x)) => r == x,
        k => r.cause() == e && r.kind() == (match kind_category(k) { Category::Syntax => IoErrorKind::InvalidInput, Category::Data => IoErrorKind::InvalidData, _ => IoErrorKind::UnexpectedEof }),
    }
}
//@fn error::internal::std::io::Error::From<Error>::from as io_from
//@opt vxfrom name=Error->IntError name=io::Error->IoError name=io::ErrorKind->IoErrorKind ret=IoError
    ensures as_io(ret, err)
//@end
//@fn error::std::io::Error::From<Error>::from as public_io_from
//@opt call=From::from->io_from ret=IoError
    ensures as_io(ret, *err.inner)
//@end
} // verus!
fn main() {}
