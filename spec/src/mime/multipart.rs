use crate::mime::entity::raw_entity;
use crate::mime::*;
use crate::types::*;
use std::collections::HashMap;

/// Does `prefix` `boundary` `suffix` stand at the beginning of the input?
fn delimiter(i: &[u8], prefix: &[u8], boundary: &[u8], suffix: &[u8]) -> bool {
    i.len() >= prefix.len() + boundary.len() + suffix.len()
        && &i[..prefix.len()] == prefix
        && &i[prefix.len()..prefix.len() + boundary.len()] == boundary
        && &i[prefix.len() + boundary.len()..prefix.len() + boundary.len() + suffix.len()] == suffix
}

/// Where the next delimiter line starts and how long it is; none once the closing one has been reached
pub fn before_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
    if delimiter(input, b"--", boundary, b"\r\n") {
        return Ok((0, 2 + boundary.len() + 2));
    }
    let mut n = 0;
    while n < input.len() {
        if delimiter(&input[n..], b"\r\n--", boundary, b"\r\n") {
            return Ok((n, 4 + boundary.len() + 2));
        }
        if delimiter(&input[n..], b"\r\n--", boundary, b"--\r\n") {
            break;
        }
        n += 1;
    }
    no()
}

/// Where the closing delimiter starts and how long it is
pub fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
    let mut n = 0;
    while n < input.len() {
        if delimiter(&input[n..], b"\r\n--", boundary, b"--\r\n") {
            return Ok((n, 4 + boundary.len() + 4));
        }
        n += 1;
    }
    no()
}

/// What precedes the delimiter, and what follows it
pub fn before_boundary<'a>(input: &'a [u8], boundary: &[u8]) -> P<'a, &'a [u8]> {
    let (at, len) = before_boundary_idx(input, boundary)?;
    Ok((&input[at + len..], &input[..at]))
}

pub fn before_closing_boundary<'a>(input: &'a [u8], boundary: &[u8]) -> P<'a, &'a [u8]> {
    let (at, len) = before_closing_boundary_idx(input, boundary)?;
    Ok((&input[at + len..], &input[..at]))
}

/// The entities between consecutive delimiters: the preamble and the epilogue are dropped
pub fn parse_multipart(input: &[u8], parameters: &HashMap<String, String>) -> Result<Vec<RawEntity>, Error> {
    let boundary = match parameters.get("boundary") {
        Some(b) => b,
        None => return no(),
    };
    let mut i = input;
    let mut parts = Vec::new();
    let mut opened = false;
    while let Ok((rest, before)) = before_boundary(i, boundary.as_bytes()) {
        if opened {
            parts.push(before);
        }
        opened = true;
        i = rest;
    }
    let (_epilogue, last) = before_closing_boundary(i, boundary.as_bytes())?;
    if opened {
        parts.push(last);
    }
    let mut entities = Vec::new();
    for part in parts {
        entities.push(raw_entity(part.to_vec())?);
    }
    Ok(entities)
}
