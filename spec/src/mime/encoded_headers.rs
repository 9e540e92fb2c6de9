use super::base64::decode_base64;
use super::charset::decode_charset;
use super::quoted_printables::decode_header_qp;
use crate::character_sets::*;
use crate::types::*;

/// especials (RFC 2047)
pub fn especials(c: u8) -> bool {
    matches!(c, b'(' | b')' | b'<' | b'>' | b'@' | b',' | b';' | b':' | b'\\' | b'"' | b'/' | b'[' | b']' | b'?' | b'.' | b'=')
}

pub fn charset(i: &[u8]) -> P<'_, String> {
    let n = scan(i, |c| is_vchar(c) && !especials(c) && c != b'*');
    if n == 0 {
        return no();
    }
    Ok((&i[n..], text(&i[..n]).to_ascii_lowercase()))
}

pub fn encoding(i: &[u8]) -> P<'_, String> {
    let n = scan(i, |c| is_vchar(c) && !especials(c));
    if n == 0 {
        return no();
    }
    Ok((&i[n..], text(&i[..n]).to_ascii_lowercase()))
}

pub fn encoded_text(i: &[u8]) -> P<'_, String> {
    let n = scan(i, |c| is_vchar(c) && c != b'?');
    if n == 0 {
        return no();
    }
    Ok((&i[n..], text(&i[..n])))
}

/// encoded-word = "=?" charset ["*" language] "?" encoding "?" encoded-text "?="
pub fn encoded_word(i: &[u8]) -> P<'_, String> {
    let i = byte!(i, b'=');
    let i = byte!(i, b'?');
    let (i, charset) = charset(i)?;
    let i = if starts(i, b'*') { maybe_language(i) } else { i };
    let i = byte!(i, b'?');
    let (i, encoding) = encoding(i)?;
    let i = byte!(i, b'?');
    let (i, data) = encoded_text(i)?;
    let i = byte!(i, b'?');
    let i = byte!(i, b'=');
    let bytes = match encoding.as_str() {
        "b" => decode_base64(data.into_bytes())?,
        "q" => decode_header_qp(data.into_bytes()),
        _ => return no(),
    };
    match decode_charset(&charset, bytes) {
        Some(Ok(value)) => Ok((i, value)),
        _ => no(),
    }
}

fn maybe_language(i: &[u8]) -> &[u8] {
    match encoding(&i[1..]) {
        Ok((rest, _)) => rest,
        Err(_) => i,
    }
}
