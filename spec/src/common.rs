use crate::character_sets::*;
use crate::quoted_string::quoted_string;
use crate::types::*;
use crate::whitespaces::*;

/// atom = [CFWS] 1*atext [CFWS]
pub fn atom(i: &[u8]) -> P<'_, String> {
    let i = maybe!(i, cfws);
    let n = scan(i, is_atext);
    if n == 0 {
        return no();
    }
    Ok((maybe!(&i[n..], cfws), text(&i[..n])))
}

/// dot-atom-text = 1*atext *("." 1*atext); with `compatibility-fixes` the atext after a dot may be missing
pub fn dot_atom_text(i: &[u8]) -> P<'_, String> {
    let mut end = scan(i, is_atext);
    if end == 0 {
        return no();
    }
    while end < i.len() && i[end] == b'.' {
        let m = scan(&i[end + 1..], is_atext);
        if m == 0 && !cfg!(feature = "compatibility-fixes") {
            break;
        }
        end = end + 1 + m;
    }
    Ok((&i[end..], text(&i[..end])))
}

/// dot-atom = [CFWS] dot-atom-text [CFWS]
pub fn dot_atom(i: &[u8]) -> P<'_, String> {
    let i = maybe!(i, cfws);
    let (i, value) = dot_atom_text(i)?;
    Ok((maybe!(i, cfws), value))
}

/// word = atom / quoted-string
pub fn word(i: &[u8]) -> P<'_, String> {
    if let Ok(r) = atom(i) {
        return Ok(r);
    }
    quoted_string(i)
}

#[cfg(feature = "mime")]
fn phrase_word(i: &[u8]) -> P<'_, String> {
    let after = maybe!(i, fws);
    if let Ok(r) = crate::mime::encoded_headers::encoded_word(after) {
        return Ok(r);
    }
    word(i)
}
#[cfg(not(feature = "mime"))]
fn phrase_word(i: &[u8]) -> P<'_, String> {
    word(i)
}

/// phrase = 1*word, where a word may also be an encoded word
pub fn phrase(i: &[u8]) -> P<'_, Vec<String>> {
    let (mut i, first) = phrase_word(i)?;
    let mut words = vec![first];
    while let Ok((rest, w)) = phrase_word(i) {
        i = rest;
        words.push(w);
    }
    Ok((i, words))
}

/// unstructured = *([FWS] 1*VCHAR) *WSP, all of it but the final white space
pub fn unstructured(i: &[u8]) -> P<'_, String> {
    let mut i = i;
    let mut value = String::new();
    loop {
        let (after, white) = match fws(i) {
            Ok((rest, w)) => (rest, w),
            Err(_) => (i, String::new()),
        };
        let n = scan(after, is_vchar);
        if n == 0 {
            break;
        }
        value.push_str(&white);
        value.push_str(&text(&after[..n]));
        i = &after[n..];
    }
    let n = scan(i, is_wsp);
    Ok((&i[n..], value))
}

/// unstructured text in which encoded words are decoded; the white space between two of them is dropped
#[cfg(feature = "mime")]
pub fn mime_unstructured(i: &[u8]) -> P<'_, String> {
    let mut i = i;
    let mut value = String::new();
    let mut after_encoded = false;
    loop {
        let (after, white) = match fws(i) {
            Ok((rest, w)) => (rest, w),
            Err(_) => (i, String::new()),
        };
        if let Ok((rest, decoded)) = crate::mime::encoded_headers::encoded_word(after) {
            if !after_encoded {
                value.push_str(&white);
            }
            value.push_str(&decoded);
            after_encoded = true;
            i = rest;
            continue;
        }
        let n = scan(after, is_vchar);
        if n == 0 {
            break;
        }
        value.push_str(&white);
        value.push_str(&text(&after[..n]));
        after_encoded = false;
        i = &after[n..];
    }
    let n = scan(i, is_wsp);
    Ok((&i[n..], value))
}

/// the ASCII letters in lower case
pub fn lowercase(value: String) -> String {
    value.to_ascii_lowercase()
}
