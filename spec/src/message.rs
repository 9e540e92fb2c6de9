use crate::character_sets::is_text;
use crate::fields::*;
use crate::types::*;

/// A line of the body: at most 998 text characters
pub fn check_line(i: &[u8]) -> P<'_, ()> {
    let n = if i.len() < 998 { i.len() } else { 998 };
    let m = scan(&i[..n], is_text);
    Ok((&i[m..], ()))
}

/// CRLF and lines separated by CRLF, up to the end; nothing at all is an absent body
pub fn body(i: &[u8]) -> Result<Option<String>, Error> {
    if i.len() == 0 {
        return Ok(None);
    }
    let body = crlf!(i);
    let mut at = body;
    loop {
        let (rest, _) = check_line(at)?;
        if rest.len() == 0 {
            break;
        }
        at = crlf!(rest);
    }
    Ok(Some(text(body)))
}

#[cfg(not(feature = "mime"))]
pub fn parse_message(i: &[u8]) -> Result<(Vec<Field>, Option<String>), Error> {
    let (i, all) = fields(i)?;
    let body = body(i)?;
    Ok((all, body))
}

#[cfg(feature = "mime")]
pub fn parse_message(i: &[u8]) -> Result<(Vec<Field>, Option<&[u8]>), Error> {
    let (i, all) = fields(i)?;
    if i.len() == 0 {
        return Ok((all, None));
    }
    let body = crlf!(i);
    Ok((all, Some(body)))
}
