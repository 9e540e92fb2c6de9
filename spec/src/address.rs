use crate::character_sets::*;
use crate::common::*;
use crate::quoted_string::quoted_string;
use crate::types::*;
use crate::whitespaces::*;

/// msg-id = [CFWS] "<" dot-atom-text "@" (dot-atom-text / "[" *dtext "]") ">" [CFWS]
pub fn message_id(i: &[u8]) -> P<'_, (String, String)> {
    let i = maybe!(i, cfws);
    let i = byte!(i, b'<');
    let (i, left) = dot_atom_text(i)?;
    let i = byte!(i, b'@');
    let (i, right) = match dot_atom_text(i) {
        Ok(r) => r,
        Err(_) => {
            let i = byte!(i, b'[');
            let n = scan(i, is_dtext);
            let right = text(&i[..n]);
            let i = &i[n..];
            let i = byte!(i, b']');
            (i, right)
        }
    };
    let i = byte!(i, b'>');
    Ok((maybe!(i, cfws), (left, right)))
}

/// addr-spec = local-part "@" domain
pub fn addr_spec(i: &[u8]) -> P<'_, EmailAddress> {
    let (i, local_part) = local_part(i)?;
    let i = byte!(i, b'@');
    let (i, domain) = domain(i)?;
    Ok((i, EmailAddress { local_part, domain }))
}

/// angle-addr = [CFWS] "<" addr-spec ">" [CFWS]
pub fn angle_addr(i: &[u8]) -> P<'_, EmailAddress> {
    let i = maybe!(i, cfws);
    let i = byte!(i, b'<');
    let (i, address) = addr_spec(i)?;
    let i = byte!(i, b'>');
    Ok((maybe!(i, cfws), address))
}

/// name-addr = [phrase] angle-addr
pub fn name_addr(i: &[u8]) -> P<'_, Mailbox> {
    let (i, name) = match phrase(i) {
        Ok((rest, words)) => (rest, Some(words)),
        Err(_) => (i, None),
    };
    let (i, address) = angle_addr(i)?;
    Ok((i, Mailbox { name, address }))
}

/// local-part = dot-atom / quoted-string
pub fn local_part(i: &[u8]) -> P<'_, String> {
    if let Ok(r) = dot_atom(i) {
        return Ok(r);
    }
    quoted_string(i)
}

/// domain = dot-atom / domain-literal
pub fn domain(i: &[u8]) -> P<'_, String> {
    if let Ok(r) = dot_atom(i) {
        return Ok(r);
    }
    domain_literal(i)
}

/// domain-literal = [CFWS] "[" *([FWS] dtext) [FWS] "]" [CFWS]; white space is dropped
pub fn domain_literal(i: &[u8]) -> P<'_, String> {
    let i = maybe!(i, cfws);
    let mut i = byte!(i, b'[');
    let mut value = String::new();
    loop {
        let after = maybe!(i, fws);
        let n = scan(after, is_dtext);
        if n == 0 {
            break;
        }
        value.push_str(&text(&after[..n]));
        i = &after[n..];
    }
    let i = maybe!(i, fws);
    let i = byte!(i, b']');
    Ok((maybe!(i, cfws), value))
}

/// mailbox = name-addr / addr-spec
pub fn mailbox(i: &[u8]) -> P<'_, Mailbox> {
    if let Ok(r) = name_addr(i) {
        return Ok(r);
    }
    let (i, address) = addr_spec(i)?;
    Ok((i, Mailbox { name: None, address }))
}

/// mailbox-list = mailbox *("," mailbox)
pub fn mailbox_list(i: &[u8]) -> P<'_, Vec<Mailbox>> {
    let (mut i, first) = mailbox(i)?;
    let mut all = vec![first];
    while starts(i, b',') {
        match mailbox(&i[1..]) {
            Ok((rest, m)) => {
                all.push(m);
                i = rest;
            }
            Err(_) => break,
        }
    }
    Ok((i, all))
}

/// group = phrase ":" [mailbox-list / CFWS] ";" [CFWS]
pub fn group(i: &[u8]) -> P<'_, (Vec<String>, Vec<Mailbox>)> {
    let (i, name) = phrase(i)?;
    let i = byte!(i, b':');
    let (i, members) = match mailbox_list(i) {
        Ok(r) => r,
        Err(_) => (maybe!(i, cfws), Vec::new()),
    };
    let i = byte!(i, b';');
    Ok((maybe!(i, cfws), (name, members)))
}

/// address = mailbox / group
pub fn address(i: &[u8]) -> P<'_, Address> {
    if let Ok((rest, m)) = mailbox(i) {
        return Ok((rest, Address::Mailbox(m)));
    }
    let (i, g) = group(i)?;
    Ok((i, Address::Group(g)))
}

/// address-list = address *("," address)
pub fn address_list(i: &[u8]) -> P<'_, Vec<Address>> {
    let (mut i, first) = address(i)?;
    let mut all = vec![first];
    while starts(i, b',') {
        match address(&i[1..]) {
            Ok((rest, m)) => {
                all.push(m);
                i = rest;
            }
            Err(_) => break,
        }
    }
    Ok((i, all))
}
