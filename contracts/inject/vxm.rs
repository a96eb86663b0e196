// The same forms as in macros.rs, calling the functions of vx.rs.
macro_rules! isBreak {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_break_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_break($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_break_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_break($b) };
}
macro_rules! isBreakZ {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_z_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_z_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_break_z_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_break_z($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_z_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_break_z_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_break_z_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_break_z($b) };
}
macro_rules! isBlank {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_blank_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_blank_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_blank_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_blank($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_blank_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_blank_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_blank_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_blank($b) };
}
macro_rules! isWhiteSpace {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_white_space_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_white_space($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_white_space_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_white_space($b) };
}
macro_rules! isWhiteSpaceZ {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_z_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_z_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_white_space_z_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_white_space_z($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_z_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_white_space_z_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_white_space_z_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_white_space_z($b) };
}
macro_rules! isHex {
    (~ $b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_hex_else($b.as_bytes(), $e) };
    (~ $b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_hex_at_else($b.as_bytes(), $o, $e) };
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_is_hex_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_is_hex($b.as_bytes()) };
    ($b:expr, else $e:expr) => { $crate::scanner::vx::vx_is_hex_else($b, $e) };
    ($b:expr, $o:expr, else $e:expr) => { $crate::scanner::vx::vx_is_hex_at_else($b, $o, $e) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_is_hex_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_is_hex($b) };
}
macro_rules! widthOf {
    (~ $b:expr, $o:expr) => { $crate::scanner::vx::vx_width_of_at($b.as_bytes(), $o) };
    (~ $b:expr) => { $crate::scanner::vx::vx_width_of($b.as_bytes()) };
    ($b:expr, $o:expr) => { $crate::scanner::vx::vx_width_of_at($b, $o) };
    ($b:expr) => { $crate::scanner::vx::vx_width_of($b) };
}
macro_rules! isDocumentIndicator {
    (~ $b:expr, :$s:expr) => { $crate::scanner::vx::vx_is_document_indicator($b.as_bytes(), $s.column) };
    ($b:expr, :$s:expr) => { $crate::scanner::vx::vx_is_document_indicator($b, $s.column) };
    (~ $b:expr, $c:expr) => { $crate::scanner::vx::vx_is_document_indicator($b.as_bytes(), $c) };
    ($b:expr, $c:expr) => { $crate::scanner::vx::vx_is_document_indicator($b, $c) };
}
macro_rules! cache {
    (~$b:expr, @$o:expr, $n:expr, $f:expr) => { $crate::scanner::vx::vx_cache($b.as_bytes(), $o, $n as usize, $f.contains($crate::scanner::flag::O_EXTENDABLE)) };
    (~$b:expr, $n:expr, $f:expr) => { $crate::scanner::vx::vx_cache($b.as_bytes(), 0, $n as usize, $f.contains($crate::scanner::flag::O_EXTENDABLE)) };
    (~$b:expr, @$o:expr, $n:expr) => { $crate::scanner::vx::vx_cache($b.as_bytes(), $o, $n as usize, false) };
    (~$b:expr, $n:expr) => { $crate::scanner::vx::vx_cache($b.as_bytes(), 0, $n as usize, false) };
    ($b:expr, @$o:expr, $n:expr, $f:expr) => { $crate::scanner::vx::vx_cache($b, $o, $n as usize, $f.contains($crate::scanner::flag::O_EXTENDABLE)) };
    ($b:expr, $n:expr, $f:expr) => { $crate::scanner::vx::vx_cache($b, 0, $n as usize, $f.contains($crate::scanner::flag::O_EXTENDABLE)) };
    ($b:expr, @$o:expr, $n:expr) => { $crate::scanner::vx::vx_cache($b, $o, $n as usize, false) };
    ($b:expr, $n:expr) => { $crate::scanner::vx::vx_cache($b, 0, $n as usize, false) };
}
