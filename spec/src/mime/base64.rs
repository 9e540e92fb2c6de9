use crate::types::*;

pub fn get_value_encoded(c: u8) -> Option<u8> {
    if c >= b'A' && c <= b'Z' {
        Some(c - b'A')
    } else if c >= b'a' && c <= b'z' {
        Some(c - b'a' + 26)
    } else if c >= b'0' && c <= b'9' {
        Some(c - b'0' + 52)
    } else if c == b'+' {
        Some(62)
    } else if c == b'/' {
        Some(63)
    } else {
        None
    }
}

/// The position of the next byte of the alphabet from `n` on
fn next_in_alphabet(data: &[u8], n: usize) -> usize {
    let mut n = n;
    while n < data.len() && get_value_encoded(data[n]).is_none() {
        n += 1;
    }
    n
}
/// The position of the next byte of the alphabet or `=` from `n` on
fn next_or_padding(data: &[u8], n: usize) -> usize {
    let mut n = n;
    while n < data.len() && get_value_encoded(data[n]).is_none() && data[n] != b'=' {
        n += 1;
    }
    n
}

/// Bytes outside of the alphabet are skipped; a group that is not complete, or goes on after its padding, is an error
pub fn decode_base64(data: Vec<u8>) -> Result<Vec<u8>, Error> {
    let mut out = Vec::new();
    let mut n = 0;
    loop {
        n = next_in_alphabet(&data, n);
        if n >= data.len() {
            break;
        }
        let b1 = get_value_encoded(data[n]).unwrap();
        n = next_in_alphabet(&data, n + 1);
        if n >= data.len() {
            return no();
        }
        let b2 = get_value_encoded(data[n]).unwrap();
        n = next_or_padding(&data, n + 1);
        if n >= data.len() {
            return no();
        }
        let third = data[n];
        n = next_or_padding(&data, n + 1);
        if n >= data.len() {
            return no();
        }
        let fourth = data[n];
        if third == b'=' && fourth != b'=' {
            return no();
        }
        out.push((b1 << 2) | (b2 >> 4));
        if third != b'=' {
            let b3 = get_value_encoded(third).unwrap();
            out.push((b2 << 4) | (b3 >> 2));
            if fourth != b'=' {
                out.push((b3 << 6) | get_value_encoded(fourth).unwrap());
            }
        }
        n += 1;
    }
    Ok(out)
}

pub const ALPHABET: [u8; 64] = *b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Groups of three bytes as four characters of the alphabet, the last one padded; at most 76 characters in a line
pub fn encode_base64(data: Vec<u8>) -> Vec<u8> {
    let mut out = Vec::new();
    let mut n = 0;
    let mut line = 0;
    while n < data.len() {
        if line == 72 {
            out.push(b'\r');
            out.push(b'\n');
            line = 0;
        }
        let b1 = data[n];
        out.push(ALPHABET[(b1 >> 2) as usize]);
        if n + 1 < data.len() {
            let b2 = data[n + 1];
            out.push(ALPHABET[(((b1 & 3) << 4) | (b2 >> 4)) as usize]);
            if n + 2 < data.len() {
                let b3 = data[n + 2];
                out.push(ALPHABET[(((b2 & 15) << 2) | (b3 >> 6)) as usize]);
                out.push(ALPHABET[(b3 & 63) as usize]);
            } else {
                out.push(ALPHABET[((b2 & 15) << 2) as usize]);
                out.push(b'=');
            }
        } else {
            out.push(ALPHABET[((b1 & 3) << 4) as usize]);
            out.push(b'=');
            out.push(b'=');
        }
        n += 3;
        line += 4;
    }
    out
}
