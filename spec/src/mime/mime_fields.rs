use crate::address::message_id;
use crate::character_sets::*;
use crate::common::mime_unstructured;
use crate::mime::percent_encoding::collect_parameters;
use crate::mime::*;
use crate::quoted_string::quoted_string;
use crate::time::date_time;
use crate::types::*;
use crate::whitespaces::*;
use std::collections::HashMap;

/// WSP* [comment] WSP*
pub fn ignore_inline_cfws(i: &[u8]) -> P<'_, ()> {
    let n = scan(i, is_wsp);
    let i = maybe!(&i[n..], comment);
    let n = scan(i, is_wsp);
    Ok((&i[n..], ()))
}

/// Is the byte allowed in a token (RFC 2045): printable ASCII but SPACE and tspecials
fn is_token(c: u8) -> bool {
    is_vchar(c) && !tspecial(c)
}

pub fn token(i: &[u8]) -> P<'_, String> {
    let n = scan(i, is_token);
    if n == 0 {
        return no();
    }
    Ok((&i[n..], text(&i[..n])))
}

fn lower_token(i: &[u8]) -> P<'_, String> {
    let (i, t) = token(i)?;
    Ok((i, t.to_ascii_lowercase()))
}

/// Does the input begin with a token that is this word, in any letter case?
fn word_is(i: &[u8], lower: &[u8]) -> bool {
    named(i, lower) && token(&i[lower.len()..]).is_err()
}

/// A number that fits a byte, in decimal
fn u8_number(i: &[u8]) -> P<'_, u8> {
    let mut i = i;
    if i.len() == 0 || !is_digit(i[0]) {
        return no();
    }
    let mut n = i[0] - b'0';
    i = &i[1..];
    while i.len() > 0 && is_digit(i[0]) {
        n = match n.checked_mul(10) {
            Some(n) => n,
            None => return no(),
        };
        n = match n.checked_add(i[0] - b'0') {
            Some(n) => n,
            None => return no(),
        };
        i = &i[1..];
    }
    Ok((i, n))
}

pub fn mime_version(i: &[u8]) -> P<'_, (u8, u8)> {
    if !named(i, b"mime-version:") {
        return no();
    }
    let i = maybe!(&i[13..], cfws);
    let (i, major) = u8_number(i)?;
    let i = byte!(i, b'.');
    let (i, minor) = u8_number(i)?;
    let (i, _) = ignore_inline_cfws(i)?;
    let i = crlf!(i);
    Ok((i, (major, minor)))
}

/// token / quoted-string
fn parameter_value(i: &[u8]) -> P<'_, String> {
    if let Ok(r) = token(i) {
        return Ok(r);
    }
    quoted_string(i)
}

/// name["*" index]["*"], followed by "="
fn extended_name(i: &[u8]) -> P<'_, (String, Option<u8>, bool)> {
    let n = scan(i, |c| is_token(c) && c != b'*');
    if n == 0 {
        return no();
    }
    let name = text(&i[..n]);
    let mut i = &i[n..];
    let mut index = None;
    if starts(i, b'*') {
        let n = scan(&i[1..], is_digit);
        if n > 0 {
            index = match text(&i[1..1 + n]).parse::<u8>() {
                Ok(x) => Some(x),
                Err(_) => return no(),
            };
            i = &i[1 + n..];
        }
    }
    let mut encoded = false;
    if starts(i, b'*') {
        encoded = true;
        i = &i[1..];
    }
    if !starts(i, b'=') {
        return no();
    }
    Ok((i, (name, index, encoded)))
}

/// [CFWS] ";" [CFWS] name "=" value
pub fn parameter(i: &[u8]) -> P<'_, (String, Option<u8>, bool, String)> {
    let i = maybe!(i, cfws);
    let i = byte!(i, b';');
    let i = maybe!(i, cfws);
    let (i, (name, index, encoded)) = match extended_name(i) {
        Ok(r) => r,
        Err(_) => {
            let (i, name) = token(i)?;
            (i, (name, None, false))
        }
    };
    let i = byte!(i, b'=');
    let (i, value) = parameter_value(i)?;
    Ok((i, (name.to_ascii_lowercase(), index, encoded, value)))
}

fn mime_type(i: &[u8]) -> P<'_, ContentType> {
    if word_is(i, b"text") {
        return Ok((&i[4..], ContentType::Text));
    }
    if word_is(i, b"multipart") {
        return Ok((&i[9..], ContentType::Multipart));
    }
    if word_is(i, b"application") {
        return Ok((&i[11..], ContentType::Application));
    }
    if word_is(i, b"image") {
        return Ok((&i[5..], ContentType::Image));
    }
    if word_is(i, b"video") {
        return Ok((&i[5..], ContentType::Video));
    }
    if word_is(i, b"audio") {
        return Ok((&i[5..], ContentType::Audio));
    }
    if word_is(i, b"message") {
        return Ok((&i[7..], ContentType::Message));
    }
    let (i, t) = lower_token(i)?;
    Ok((i, ContentType::Unknown(t)))
}

pub fn content_type(i: &[u8]) -> P<'_, (ContentType, String, HashMap<String, String>)> {
    if !named(i, b"content-type:") {
        return no();
    }
    let i = maybe!(&i[13..], cfws);
    let (i, t) = mime_type(i)?;
    let i = byte!(i, b'/');
    let (mut i, subtype) = lower_token(i)?;
    let mut pieces = Vec::new();
    while let Ok((rest, p)) = parameter(i) {
        pieces.push(p);
        i = rest;
    }
    let parameters = collect_parameters(pieces)?;
    let (i, _) = ignore_inline_cfws(i)?;
    let i = crlf!(i);
    Ok((i, (t, subtype, parameters)))
}

fn disposition_type(i: &[u8]) -> P<'_, DispositionType> {
    if word_is(i, b"inline") {
        return Ok((&i[6..], DispositionType::Inline));
    }
    if word_is(i, b"attachment") {
        return Ok((&i[10..], DispositionType::Attachment));
    }
    let (i, t) = lower_token(i)?;
    Ok((i, DispositionType::Unknown(t)))
}

pub fn content_disposition(i: &[u8]) -> P<'_, Disposition> {
    /// [CFWS] ";" [CFWS] name "="
    fn parameter_named<'a>(i: &'a [u8], name: &'static [u8], upper: &'static [u8]) -> P<'a, ()> {
        let i = maybe!(i, cfws);
        let i = byte!(i, b';');
        let i = maybe!(i, cfws);
        if i.len() < name.len() {
            return no();
        }
        for n in 0..name.len() {
            if i[n] != name[n] && i[n] != upper[n] {
                return no();
            }
        }
        let i = &i[name.len()..];
        let i = byte!(i, b'=');
        Ok((i, ()))
    }

    fn filename_parameter(i: &[u8]) -> P<'_, String> {
        let (i, _) = parameter_named(i, b"filename", b"FILENAME")?;
        parameter_value(i)
    }

    /// A date between quotes
    fn date_parameter<'a>(i: &'a [u8], name: &'static [u8], name_uppercase: &'static [u8]) -> P<'a, DateTime> {
        let (i, _) = parameter_named(i, name, name_uppercase)?;
        let i = byte!(i, b'"');
        let (i, date) = date_time(i)?;
        let i = byte!(i, b'"');
        Ok((i, date))
    }

    if !named(i, b"content-disposition:") {
        return no();
    }
    let i = maybe!(&i[20..], cfws);
    let (mut i, disposition_type) = disposition_type(i)?;
    let mut name = None;
    let mut created = None;
    let mut modified = None;
    let mut read = None;
    let mut pieces = Vec::new();
    loop {
        if let Ok((rest, v)) = filename_parameter(i) {
            name = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = date_parameter(i, b"creation-date", b"CREATION-DATE") {
            created = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = date_parameter(i, b"modification-date", b"MODIFICATION-DATE") {
            modified = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = date_parameter(i, b"read-date", b"READ-DATE") {
            read = Some(v);
            i = rest;
        } else if let Ok((rest, p)) = parameter(i) {
            pieces.push(p);
            i = rest;
        } else {
            break;
        }
    }
    let unstructured = collect_parameters(pieces)?;
    let (i, _) = ignore_inline_cfws(i)?;
    let i = crlf!(i);
    Ok((i, Disposition { disposition_type, filename: name, creation_date: created, modification_date: modified, read_date: read, unstructured }))
}

pub fn content_transfer_encoding(i: &[u8]) -> P<'_, ContentTransferEncoding> {
    if !named(i, b"content-transfer-encoding:") {
        return no();
    }
    let i = maybe!(&i[26..], cfws);
    let (i, encoding) = if word_is(i, b"7bit") {
        (&i[4..], ContentTransferEncoding::SevenBit)
    } else if word_is(i, b"quoted-printable") {
        (&i[16..], ContentTransferEncoding::QuotedPrintable)
    } else if word_is(i, b"base64") {
        (&i[6..], ContentTransferEncoding::Base64)
    } else if word_is(i, b"8bit") {
        (&i[4..], ContentTransferEncoding::HeightBit)
    } else if word_is(i, b"binary") {
        (&i[6..], ContentTransferEncoding::Binary)
    } else {
        let (i, t) = lower_token(i)?;
        (i, ContentTransferEncoding::Unknown(t))
    };
    let (i, _) = ignore_inline_cfws(i)?;
    let i = crlf!(i);
    Ok((i, encoding))
}

pub fn content_id(i: &[u8]) -> P<'_, (String, String)> {
    if !named(i, b"content-id:") {
        return no();
    }
    let (i, id) = message_id(&i[11..])?;
    let i = crlf!(i);
    Ok((i, id))
}

pub fn content_description(i: &[u8]) -> P<'_, String> {
    if !named(i, b"content-description:") {
        return no();
    }
    let (i, v) = mime_unstructured(&i[20..])?;
    let i = crlf!(i);
    Ok((i, v))
}
