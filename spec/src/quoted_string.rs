use crate::character_sets::*;
use crate::types::*;
use crate::whitespaces::*;

/// quoted-pair = "\" (VCHAR / WSP); the value is the quoted character
pub fn quoted_pair(i: &[u8]) -> P<'_, String> {
    let i = byte!(i, b'\\');
    if i.len() > 0 && (is_vchar(i[0]) || is_wsp(i[0])) {
        Ok((&i[1..], text(&i[..1])))
    } else {
        no()
    }
}

/// quoted-string = [CFWS] DQUOTE *([FWS] qcontent) [FWS] DQUOTE [CFWS]; the value is what is between the quotes, unescaped and unfolded
pub fn quoted_string(i: &[u8]) -> P<'_, String> {
    let i = maybe!(i, cfws);
    let mut i = byte!(i, b'"');
    let mut value = String::new();
    loop {
        if let Ok((rest, white)) = fws(i) {
            value.push_str(&white);
            i = rest;
        }
        let n = scan(i, is_qtext);
        if n > 0 {
            value.push_str(&text(&i[..n]));
            i = &i[n..];
        } else if let Ok((rest, c)) = quoted_pair(i) {
            value.push_str(&c);
            i = rest;
        } else {
            break;
        }
    }
    let i = byte!(i, b'"');
    Ok((maybe!(i, cfws), value))
}
