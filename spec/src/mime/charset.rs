use super::textcode::*;
use crate::types::*;

/// ISO 6937 without the bytes 0x80..=0x9F, which the standard does not define
pub fn decode_iso6937(bytes: &[u8]) -> String {
    let mut defined = Vec::new();
    for b in bytes {
        if *b <= 0x7F || *b >= 0xA0 {
            defined.push(*b);
        }
    }
    iso6937::decode_to_string(&defined)
}

/// The one table of charsets: a name (in lower case) and its decoder. `None` for a name that is not known.
pub fn decode_charset(name: &str, bytes: Vec<u8>) -> Option<Result<String, Error>> {
    let bytes = match name {
        "utf-8" | "us-ascii" => {
            return Some(match String::from_utf8(bytes) {
                Ok(s) => Ok(s),
                Err(_) => no(),
            });
        }
        _ => bytes,
    };
    Some(Ok(match name {
        "iso-8859-1" => iso8859_1::decode_to_string(&bytes),
        "iso-8859-2" => iso8859_2::decode_to_string(&bytes),
        "iso-8859-3" => iso8859_3::decode_to_string(&bytes),
        "iso-8859-4" => iso8859_4::decode_to_string(&bytes),
        "iso-8859-5" => iso8859_5::decode_to_string(&bytes),
        "iso-8859-6" => iso8859_6::decode_to_string(&bytes),
        "iso-8859-7" => iso8859_7::decode_to_string(&bytes),
        "iso-8859-8" => iso8859_8::decode_to_string(&bytes),
        "iso-8859-9" => iso8859_9::decode_to_string(&bytes),
        "iso-8859-10" => iso8859_10::decode_to_string(&bytes),
        "iso-8859-11" => iso8859_11::decode_to_string(&bytes),
        "iso-8859-13" => iso8859_13::decode_to_string(&bytes),
        "iso-8859-14" => iso8859_14::decode_to_string(&bytes),
        "iso-8859-15" => iso8859_15::decode_to_string(&bytes),
        "iso-8859-16" => iso8859_16::decode_to_string(&bytes),
        "iso-6937" => decode_iso6937(&bytes),
        "gb2312" => gb2312::decode_to_string(&bytes),
        _ => return None,
    }))
}
