use crate::fields::unknown;
use crate::mime::charset::decode_charset;
use crate::mime::mime_fields::*;
use crate::mime::multipart::parse_multipart;
use crate::mime::*;
use crate::types::*;
use std::collections::HashMap;

pub fn default_type() -> (ContentType, String, HashMap<String, String>) {
    let mut parameters = HashMap::new();
    parameters.insert("charset".to_string(), "us-ascii".to_string());
    (ContentType::Text, "plain".to_string(), parameters)
}

type Headers = (ContentTransferEncoding, ContentType, String, HashMap<String, String>, Vec<(String, String)>, Option<(String, String)>, Option<String>, Option<Disposition>);

/// The headers of a part, in any order, and how many bytes follow the blank line (none are needed)
pub fn header_part(i: &[u8]) -> Result<(usize, Headers), Error> {
    let mut i = i;
    let mut encoding = None;
    let mut mime_type = None;
    let mut id = None;
    let mut description = None;
    let mut disposition = None;
    let mut others = Vec::new();
    loop {
        if let Ok((rest, v)) = content_transfer_encoding(i) {
            encoding = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = content_type(i) {
            mime_type = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = content_id(i) {
            id = Some(v);
            i = rest;
        } else if let Ok((rest, v)) = content_description(i) {
            description = Some(v);
            i = rest;
        } else {
            #[cfg(feature = "content-disposition")]
            if let Ok((rest, v)) = content_disposition(i) {
                disposition = Some(v);
                i = rest;
                continue;
            }
            match unknown(i) {
                Ok((rest, header)) => {
                    others.push(header);
                    i = rest;
                }
                Err(_) => break,
            }
        }
    }
    let encoding = match encoding {
        Some(e) => e,
        None => ContentTransferEncoding::SevenBit,
    };
    let (mime_type, subtype, parameters) = match mime_type {
        Some(t) => t,
        None => default_type(),
    };
    if i.len() > 0 {
        i = crlf!(i);
    }
    Ok((i.len(), (encoding, mime_type, subtype, parameters, others, id, description, disposition)))
}

pub fn header_part_owned(i: &[u8]) -> Result<(usize, Headers), Error> {
    header_part(i)
}

pub fn decode_value(value: Vec<u8>, encoding: ContentTransferEncoding) -> Result<Vec<u8>, Error> {
    match encoding {
        ContentTransferEncoding::SevenBit | ContentTransferEncoding::HeightBit | ContentTransferEncoding::Binary => Ok(value),
        ContentTransferEncoding::QuotedPrintable => Ok(crate::mime::quoted_printables::decode_qp(value)),
        ContentTransferEncoding::Base64 => crate::mime::base64::decode_base64(value),
        ContentTransferEncoding::Unknown(_) => no(),
    }
}

pub fn raw_entity(input: Vec<u8>) -> Result<RawEntity, Error> {
    let (left, (encoding, mime_type, subtype, parameters, additional_headers, id, description, disposition)) = header_part(&input)?;
    let value = decode_value(input[input.len() - left..].to_vec(), encoding)?;
    Ok(RawEntity {
        mime_type,
        subtype,
        description,
        id,
        parameters,
        #[cfg(feature = "content-disposition")]
        disposition,
        value,
        additional_headers,
    })
}

pub fn entity<'a>(raw: &'a RawEntity) -> Result<Entity<'a>, Error> {
    match raw.mime_type {
        ContentType::Multipart => {
            let content = parse_multipart(&raw.value, &raw.parameters)?;
            Ok(Entity::Multipart { subtype: &raw.subtype, content })
        }
        ContentType::Text => {
            let charset = match raw.parameters.get("charset") {
                Some(c) => c.to_lowercase(),
                None => return Ok(Entity::Unknown),
            };
            match decode_charset(&charset, raw.value.to_vec()) {
                Some(r) => Ok(Entity::Text { subtype: &raw.subtype, value: r? }),
                None => Ok(Entity::Unknown),
            }
        }
        _ => Ok(Entity::Unknown),
    }
}
