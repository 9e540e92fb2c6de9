use crate::mime::charset::decode_charset;
use crate::mime::quoted_printables::hex;
use crate::types::*;
use std::collections::HashMap;

/// `%` and two hexadecimal digits stand for a byte, everything else for itself
fn percent_decode(input: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut n = 0;
    while n < input.len() {
        if input[n] == b'%' && n + 2 < input.len() {
            if let (Some(a), Some(b)) = (hex(input[n + 1]), hex(input[n + 2])) {
                out.push(a * 16 + b);
                n += 3;
                continue;
            }
        }
        out.push(input[n]);
        n += 1;
    }
    out
}

/// The text an encoded piece stands for; with an unknown charset it stays as written
pub fn decode_parameter(input: Vec<u8>, charset: String) -> Result<String, Error> {
    match decode_charset(&charset, percent_decode(&input)) {
        Some(r) => r,
        None => Ok(text(&input)),
    }
}

/// charset ' language ' text
fn announced(value: &[u8]) -> Result<(String, &[u8]), Error> {
    let n = scan(value, |c| c != b'\'');
    let charset = text(&value[..n]).to_ascii_lowercase();
    let i = &value[n..];
    let i = byte!(i, b'\'');
    let n = scan(i, |c| c != b'\'');
    let i = &i[n..];
    let i = byte!(i, b'\'');
    Ok((charset, i))
}

pub fn collect_parameters(pieces: Vec<(String, Option<u8>, bool, String)>) -> Result<HashMap<String, String>, Error> {
    let mut out = HashMap::new();
    let mut split: HashMap<String, HashMap<u8, (bool, String)>> = HashMap::new();
    for (name, index, encoded, value) in pieces {
        match index {
            None => {
                out.insert(name, value);
            }
            Some(index) => {
                split.entry(name).or_insert_with(HashMap::new).insert(index, (encoded, value));
            }
        }
    }
    for (name, mut pieces) in split {
        if let Some((encoded, first)) = pieces.remove(&0) {
            let mut charset = None;
            let mut value = first;
            if encoded {
                let (c, rest) = announced(value.as_bytes())?;
                value = decode_parameter(rest.to_vec(), c.clone())?;
                charset = Some(c);
            }
            let mut index: u8 = 1;
            while let Some((encoded, piece)) = pieces.remove(&index) {
                match &charset {
                    Some(c) if encoded => value.push_str(&decode_parameter(piece.into_bytes(), c.clone())?),
                    _ => value.push_str(&piece),
                }
                index = match index.checked_add(1) {
                    Some(n) => n,
                    None => break,
                };
            }
            out.insert(name, value);
        }
    }
    Ok(out)
}
