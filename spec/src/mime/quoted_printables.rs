pub fn hex(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else {
        None
    }
}

fn replacement(out: &mut Vec<u8>) {
    out.push(0xEF);
    out.push(0xBF);
    out.push(0xBD);
}

/// What `=` at position `n` stands for is appended to `out`; the answer is the position after it
fn escape(data: &[u8], n: usize, out: &mut Vec<u8>) -> usize {
    if n + 2 < data.len() {
        if data[n + 1] == b'\r' && data[n + 2] == b'\n' {
            return n + 3;
        }
        match (hex(data[n + 1]), hex(data[n + 2])) {
            (Some(high), Some(low)) => out.push(high * 16 + low),
            _ => replacement(out),
        }
        return n + 3;
    }
    // not complete: left as it is
    out.push(b'=');
    n + 1
}

/// Quoted-printable (RFC 2045): `=XX` is a byte, `=CRLF` nothing, a byte that may not appear U+FFFD
pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
    let mut out = Vec::new();
    let mut n = 0;
    while n < data.len() {
        let c = data[n];
        if c == b'=' {
            n = escape(&data, n, &mut out);
        } else if c == b'\r' && n + 1 < data.len() && data[n + 1] == b'\n' {
            out.push(b'\r');
            out.push(b'\n');
            n += 2;
        } else if (c >= b' ' && c <= b'~') || c == b'\t' {
            out.push(c);
            n += 1;
        } else {
            replacement(&mut out);
            n += 1;
        }
    }
    out
}

/// The Q encoding of encoded words (RFC 2047): as quoted-printable, and `_` is a space
pub fn decode_header_qp(data: Vec<u8>) -> Vec<u8> {
    let mut out = Vec::new();
    let mut n = 0;
    while n < data.len() {
        let c = data[n];
        if c == b'=' {
            n = escape(&data, n, &mut out);
        } else if c == b'_' {
            out.push(b' ');
            n += 1;
        } else if c >= b' ' && c <= b'~' {
            out.push(c);
            n += 1;
        } else {
            replacement(&mut out);
            n += 1;
        }
    }
    out
}
