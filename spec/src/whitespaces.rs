use crate::character_sets::*;
use crate::quoted_string::quoted_pair;
use crate::types::*;

/// FWS = ([*WSP CRLF] 1*WSP); the value is the white space without the line break
pub fn fws(i: &[u8]) -> P<'_, String> {
    let n = scan(i, is_wsp);
    if i.len() >= n + 2 && i[n] == b'\r' && i[n + 1] == b'\n' {
        let folded = &i[n + 2..];
        let m = scan(folded, is_wsp);
        if m == 0 {
            return no();
        }
        let mut value = text(&i[..n]);
        value.push_str(&text(&folded[..m]));
        return Ok((&folded[m..], value));
    }
    if n == 0 {
        return no();
    }
    Ok((&i[n..], text(&i[..n])))
}

/// ccontent = ctext / quoted-pair / comment
pub fn ccontent(i: &[u8]) -> P<'_, String> {
    let n = scan(i, is_ctext);
    if n > 0 {
        return Ok((&i[n..], text(&i[..n])));
    }
    if let Ok(r) = quoted_pair(i) {
        return Ok(r);
    }
    comment(i)
}

/// comment = "(" *([FWS] ccontent) [FWS] ")"; comments nest and have no value
pub fn comment(i: &[u8]) -> P<'_, String> {
    let mut i = byte!(i, b'(');
    let mut open: usize = 1;
    while open != 0 {
        i = maybe!(i, fws);
        if i.len() == 0 {
            return no();
        }
        if i[0] == b'(' {
            open += 1;
            i = &i[1..];
        } else if i[0] == b')' {
            open -= 1;
            i = &i[1..];
        } else if is_ctext(i[0]) {
            i = skip(i, scan(i, is_ctext));
        } else {
            match quoted_pair(i) {
                Ok((rest, _)) => i = rest,
                Err(_) => return no(),
            }
        }
    }
    Ok((i, String::new()))
}

/// CFWS = (1*([FWS] comment) [FWS]) / FWS; the value is all the folding white space
pub fn cfws(i: &[u8]) -> P<'_, String> {
    let mut value = String::new();
    let mut rest = i;
    let mut comments = false;
    loop {
        match fws(rest) {
            Ok((r, white)) => match comment(r) {
                Ok((r, _)) => {
                    value.push_str(&white);
                    rest = r;
                }
                Err(_) => {
                    value.push_str(&white);
                    return Ok((r, value));
                }
            },
            Err(_) => match comment(rest) {
                Ok((r, _)) => rest = r,
                Err(_) => break,
            },
        }
        comments = true;
    }
    if comments {
        Ok((rest, value))
    } else {
        no()
    }
}
