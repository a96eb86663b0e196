// Each function is the expansion of the macro it is named after; `vxm.rs` makes the macros call them.
use crate::scanner::error::{ScanError, ScanResult};

/// the expression after `else` may stand in several places
fn vx_err(e: &ScanError) -> ScanError
{
    unimplemented!()
}

pub(in crate::scanner) fn vx_is_break(buf: &[u8]) -> bool
{
    isBreak!(buf)
}
pub(in crate::scanner) fn vx_is_break_at(buf: &[u8], off: usize) -> bool
{
    isBreak!(buf, off)
}
pub(in crate::scanner) fn vx_is_break_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isBreak!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_break_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isBreak!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_break_z(buf: &[u8]) -> bool
{
    isBreakZ!(buf)
}
pub(in crate::scanner) fn vx_is_break_z_at(buf: &[u8], off: usize) -> bool
{
    isBreakZ!(buf, off)
}
pub(in crate::scanner) fn vx_is_break_z_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isBreakZ!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_break_z_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isBreakZ!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_blank(buf: &[u8]) -> bool
{
    isBlank!(buf)
}
pub(in crate::scanner) fn vx_is_blank_at(buf: &[u8], off: usize) -> bool
{
    isBlank!(buf, off)
}
pub(in crate::scanner) fn vx_is_blank_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isBlank!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_blank_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isBlank!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_white_space(buf: &[u8]) -> bool
{
    isWhiteSpace!(buf)
}
pub(in crate::scanner) fn vx_is_white_space_at(buf: &[u8], off: usize) -> bool
{
    isWhiteSpace!(buf, off)
}
pub(in crate::scanner) fn vx_is_white_space_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isWhiteSpace!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_white_space_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isWhiteSpace!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_white_space_z(buf: &[u8]) -> bool
{
    isWhiteSpaceZ!(buf)
}
pub(in crate::scanner) fn vx_is_white_space_z_at(buf: &[u8], off: usize) -> bool
{
    isWhiteSpaceZ!(buf, off)
}
pub(in crate::scanner) fn vx_is_white_space_z_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isWhiteSpaceZ!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_white_space_z_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isWhiteSpaceZ!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_hex(buf: &[u8]) -> bool
{
    isHex!(buf)
}
pub(in crate::scanner) fn vx_is_hex_at(buf: &[u8], off: usize) -> bool
{
    isHex!(buf, off)
}
pub(in crate::scanner) fn vx_is_hex_else(buf: &[u8], err: ScanError) -> ScanResult<()>
{
    isHex!(buf, else vx_err(&err))
}
pub(in crate::scanner) fn vx_is_hex_at_else(buf: &[u8], off: usize, err: ScanError) -> ScanResult<()>
{
    isHex!(buf, off, else vx_err(&err))
}
pub(in crate::scanner) fn vx_width_of(buf: &[u8]) -> usize
{
    widthOf!(buf)
}
pub(in crate::scanner) fn vx_width_of_at(buf: &[u8], off: usize) -> usize
{
    widthOf!(buf, off)
}
pub(in crate::scanner) fn vx_is_document_indicator(buf: &[u8], column: usize) -> bool
{
    isDocumentIndicator!(buf, column)
}
pub(in crate::scanner) fn vx_cache(buf: &[u8], offset: usize, codepoints: usize, extend: bool) -> ScanResult<usize>
{
    cache!(@priv buf, offset, codepoints, extend)
}
