use crate::types::*;

/// WSP (RFC 5234)
pub fn is_wsp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
/// Printable US-ASCII characters not including "(", ")", or "\"
pub fn is_ctext(c: u8) -> bool {
    is_vchar(c) && c != b'(' && c != b')' && c != b'\\'
}
pub fn is_vchar(c: u8) -> bool {
    matches!(c, b'!'..=b'~')
}
pub fn is_alpha(c: u8) -> bool {
    matches!(c, b'a'..=b'z' | b'A'..=b'Z')
}
pub fn is_digit(c: u8) -> bool {
    matches!(c, b'0'..=b'9')
}
/// Printable US-ASCII characters not including "[", "]", or "\"
pub fn is_dtext(c: u8) -> bool {
    is_vchar(c) && !matches!(c, b'[' | b']' | b'\\')
}
/// Printable US-ASCII characters not including specials
pub fn is_atext(c: u8) -> bool {
    is_vchar(c) && !special(c)
}
pub fn special(c: u8) -> bool {
    matches!(c, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b':' | b';' | b'@' | b'\\' | b',' | b'.' | b'"')
}
pub fn tspecial(c: u8) -> bool {
    matches!(c, b'(' | b')' | b'<' | b'>' | b'@' | b',' | b';' | b':' | b'\\' | b'"' | b'/' | b'[' | b']' | b'?' | b'=')
}
/// Printable US-ASCII characters not including "\" or the quote character
pub fn is_qtext(c: u8) -> bool {
    is_vchar(c) && c != b'\\' && c != b'"'
}
/// Printable US-ASCII characters not including ":"
pub fn is_ftext(c: u8) -> bool {
    is_vchar(c) && c != b':'
}
/// Characters excluding CR, LF and NUL
pub fn is_text(c: u8) -> bool {
    c < 128 && c != 0 && c != b'\r' && c != b'\n'
}

pub fn digit(i: &[u8]) -> P<'_, u8> {
    if i.len() > 0 && is_digit(i[0]) {
        Ok((&i[1..], i[0] - b'0'))
    } else {
        no()
    }
}

pub fn two_digits(i: &[u8]) -> P<'_, u8> {
    if i.len() > 1 && is_digit(i[0]) && is_digit(i[1]) {
        Ok((&i[2..], (i[0] - b'0') * 10 + (i[1] - b'0')))
    } else {
        no()
    }
}
