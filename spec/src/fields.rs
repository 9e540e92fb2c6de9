use crate::address::*;
use crate::common::*;
#[cfg(feature = "mime")]
use crate::mime::mime_fields::*;
#[cfg(feature = "mime")]
use crate::mime::*;
use crate::time::*;
use crate::character_sets::*;
use crate::types::*;
use crate::whitespaces::*;
#[cfg(feature = "mime")]
use std::collections::HashMap;

pub enum TraceField {
    Date(DateTime),
    From(Vec<Mailbox>),
    Sender(Mailbox),
    To(Vec<Address>),
    Cc(Vec<Address>),
    Bcc(Vec<Address>),
    MessageId((String, String)),
}

pub enum Field {
    #[cfg(feature = "date")]
    Date(DateTime),
    #[cfg(feature = "from")]
    From(Vec<Mailbox>),
    #[cfg(feature = "sender")]
    Sender(Mailbox),
    #[cfg(feature = "reply-to")]
    ReplyTo(Vec<Address>),
    #[cfg(feature = "to")]
    To(Vec<Address>),
    #[cfg(feature = "cc")]
    Cc(Vec<Address>),
    #[cfg(feature = "bcc")]
    Bcc(Vec<Address>),
    #[cfg(feature = "message-id")]
    MessageId((String, String)),
    #[cfg(feature = "in-reply-to")]
    InReplyTo(Vec<(String, String)>),
    #[cfg(feature = "references")]
    References(Vec<(String, String)>),
    #[cfg(feature = "subject")]
    Subject(String),
    #[cfg(feature = "comments")]
    Comments(String),
    #[cfg(feature = "keywords")]
    Keywords(Vec<Vec<String>>),
    #[cfg(feature = "mime")]
    MimeVersion(u8, u8),
    #[cfg(feature = "mime")]
    ContentType { mime_type: ContentType, subtype: String, parameters: HashMap<String, String> },
    #[cfg(feature = "mime")]
    ContentTransferEncoding(ContentTransferEncoding),
    #[cfg(feature = "mime")]
    ContentId((String, String)),
    #[cfg(feature = "mime")]
    ContentDescription(String),
    #[cfg(feature = "content-disposition")]
    ContentDisposition(Disposition),
    #[cfg(feature = "trace")]
    Trace { return_path: Option<Option<EmailAddress>>, received: Vec<(Vec<ReceivedToken>, DateTime)>, fields: Vec<TraceField> },
    Unknown { name: String, value: String },
}

pub enum ReceivedToken {
    Word(String),
    Addr(EmailAddress),
    Domain(String),
}

/// A header line of a known name: the name in any letter case, its value, CRLF
macro_rules! header {
    ($i:expr, $name:expr, $value:expr) => {{
        let i: &[u8] = $i;
        if !named(i, $name) {
            return no();
        }
        let (i, v) = $value(&i[$name.len()..])?;
        let i = crlf!(i);
        Ok((i, v))
    }};
}

pub fn date(i: &[u8]) -> P<'_, DateTime> {
    header!(i, b"date:", date_time)
}
pub fn from(i: &[u8]) -> P<'_, Vec<Mailbox>> {
    header!(i, b"from:", mailbox_list)
}
pub fn sender(i: &[u8]) -> P<'_, Mailbox> {
    header!(i, b"sender:", mailbox)
}
pub fn reply_to(i: &[u8]) -> P<'_, Vec<Address>> {
    header!(i, b"reply-to:", address_list)
}
pub fn to(i: &[u8]) -> P<'_, Vec<Address>> {
    header!(i, b"to:", address_list)
}
pub fn cc(i: &[u8]) -> P<'_, Vec<Address>> {
    header!(i, b"cc:", address_list)
}
fn maybe_addresses(i: &[u8]) -> P<'_, Vec<Address>> {
    if let Ok(r) = address_list(i) {
        return Ok(r);
    }
    Ok((maybe!(i, cfws), Vec::new()))
}
pub fn bcc(i: &[u8]) -> P<'_, Vec<Address>> {
    header!(i, b"bcc:", maybe_addresses)
}
pub fn message_id(i: &[u8]) -> P<'_, (String, String)> {
    header!(i, b"message-id:", crate::address::message_id)
}
fn message_ids(i: &[u8]) -> P<'_, Vec<(String, String)>> {
    let (mut i, first) = crate::address::message_id(i)?;
    let mut all = vec![first];
    while let Ok((rest, id)) = crate::address::message_id(i) {
        all.push(id);
        i = rest;
    }
    Ok((i, all))
}
pub fn in_reply_to(i: &[u8]) -> P<'_, Vec<(String, String)>> {
    header!(i, b"in-reply-to:", message_ids)
}
pub fn references(i: &[u8]) -> P<'_, Vec<(String, String)>> {
    header!(i, b"references:", message_ids)
}
#[cfg(not(feature = "mime"))]
fn free_text(i: &[u8]) -> P<'_, String> {
    unstructured(i)
}
#[cfg(feature = "mime")]
fn free_text(i: &[u8]) -> P<'_, String> {
    mime_unstructured(i)
}
pub fn subject(i: &[u8]) -> P<'_, String> {
    header!(i, b"subject:", free_text)
}
pub fn comments(i: &[u8]) -> P<'_, String> {
    header!(i, b"comments:", free_text)
}
fn phrases(i: &[u8]) -> P<'_, Vec<Vec<String>>> {
    let (mut i, first) = phrase(i)?;
    let mut all = vec![first];
    while starts(i, b',') {
        match phrase(&i[1..]) {
            Ok((rest, p)) => {
                all.push(p);
                i = rest;
            }
            Err(_) => break,
        }
    }
    Ok((i, all))
}
pub fn keywords(i: &[u8]) -> P<'_, Vec<Vec<String>>> {
    header!(i, b"keywords:", phrases)
}

/// Resent-X is Resent- followed by the header X
macro_rules! resent {
    ($i:expr, $header:expr) => {{
        let i: &[u8] = $i;
        if !named(i, b"resent-") {
            return no();
        }
        $header(&i[7..])
    }};
}
pub fn resent_date(i: &[u8]) -> P<'_, DateTime> {
    resent!(i, date)
}
pub fn resent_from(i: &[u8]) -> P<'_, Vec<Mailbox>> {
    resent!(i, from)
}
pub fn resent_sender(i: &[u8]) -> P<'_, Mailbox> {
    resent!(i, sender)
}
pub fn resent_to(i: &[u8]) -> P<'_, Vec<Address>> {
    resent!(i, to)
}
pub fn resent_cc(i: &[u8]) -> P<'_, Vec<Address>> {
    resent!(i, cc)
}
pub fn resent_bcc(i: &[u8]) -> P<'_, Vec<Address>> {
    resent!(i, bcc)
}
pub fn resent_message_id(i: &[u8]) -> P<'_, (String, String)> {
    resent!(i, message_id)
}

/// path = angle-addr / ([CFWS] "<" [CFWS] ">" [CFWS])
fn path(i: &[u8]) -> P<'_, Option<EmailAddress>> {
    if let Ok((rest, a)) = angle_addr(i) {
        return Ok((rest, Some(a)));
    }
    let i = maybe!(i, cfws);
    let i = byte!(i, b'<');
    let i = maybe!(i, cfws);
    let i = byte!(i, b'>');
    Ok((maybe!(i, cfws), None))
}
pub fn return_path(i: &[u8]) -> P<'_, Option<EmailAddress>> {
    header!(i, b"return-path:", path)
}

/// received-token = word / angle-addr / addr-spec / domain, a domain longer than the word winning
fn received_token(i: &[u8]) -> P<'_, ReceivedToken> {
    if let Ok((after_word, w)) = word(i) {
        if let Ok((after_domain, d)) = domain(i) {
            if d.len() > w.len() {
                return Ok((after_domain, ReceivedToken::Domain(d)));
            }
        }
        return Ok((after_word, ReceivedToken::Word(w)));
    }
    if let Ok((rest, a)) = angle_addr(i) {
        return Ok((rest, ReceivedToken::Addr(a)));
    }
    if let Ok((rest, a)) = addr_spec(i) {
        return Ok((rest, ReceivedToken::Addr(a)));
    }
    let (rest, d) = domain(i)?;
    Ok((rest, ReceivedToken::Domain(d)))
}
/// *received-token ";" date-time
fn tokens_and_date(i: &[u8]) -> P<'_, (Vec<ReceivedToken>, DateTime)> {
    let mut i = i;
    let mut tokens = Vec::new();
    while let Ok((rest, t)) = received_token(i) {
        tokens.push(t);
        i = rest;
    }
    let i = byte!(i, b';');
    let (i, date) = date_time(i)?;
    Ok((i, (tokens, date)))
}
pub fn received(i: &[u8]) -> P<'_, (Vec<ReceivedToken>, DateTime)> {
    header!(i, b"received:", tokens_and_date)
}

/// trace = [return] 1*received
pub fn trace(i: &[u8]) -> P<'_, (Option<Option<EmailAddress>>, Vec<(Vec<ReceivedToken>, DateTime)>)> {
    let (i, path) = match return_path(i) {
        Ok((rest, p)) => (rest, Some(p)),
        Err(_) => (i, None),
    };
    let (mut i, first) = received(i)?;
    let mut all = vec![first];
    while let Ok((rest, r)) = received(i) {
        all.push(r);
        i = rest;
    }
    Ok((i, (path, all)))
}

fn resent_field(i: &[u8]) -> P<'_, TraceField> {
    if let Ok((i, v)) = resent_date(i) {
        return Ok((i, TraceField::Date(v)));
    }
    if let Ok((i, v)) = resent_from(i) {
        return Ok((i, TraceField::From(v)));
    }
    if let Ok((i, v)) = resent_sender(i) {
        return Ok((i, TraceField::Sender(v)));
    }
    if let Ok((i, v)) = resent_to(i) {
        return Ok((i, TraceField::To(v)));
    }
    if let Ok((i, v)) = resent_cc(i) {
        return Ok((i, TraceField::Cc(v)));
    }
    if let Ok((i, v)) = resent_bcc(i) {
        return Ok((i, TraceField::Bcc(v)));
    }
    if let Ok((i, v)) = resent_message_id(i) {
        return Ok((i, TraceField::MessageId(v)));
    }
    no()
}

#[cfg(not(feature = "unrecognized-headers"))]
fn unknown_text(i: &[u8]) -> P<'_, String> {
    unstructured(i)
}
#[cfg(feature = "unrecognized-headers")]
fn unknown_text(i: &[u8]) -> P<'_, String> {
    mime_unstructured(i)
}
/// optional-field = 1*ftext ":" unstructured CRLF
pub fn unknown(i: &[u8]) -> P<'_, (String, String)> {
    let n = scan(i, is_ftext);
    if n == 0 {
        return no();
    }
    let name = text(&i[..n]);
    let i = &i[n..];
    let i = byte!(i, b':');
    let (i, value) = unknown_text(i)?;
    let i = crlf!(i);
    Ok((i, (name, value)))
}

fn field(i: &[u8]) -> P<'_, Field> {
    #[cfg(feature = "date")]
    if let Ok((i, v)) = date(i) {
        return Ok((i, Field::Date(v)));
    }
    #[cfg(feature = "from")]
    if let Ok((i, v)) = from(i) {
        return Ok((i, Field::From(v)));
    }
    #[cfg(feature = "sender")]
    if let Ok((i, v)) = sender(i) {
        return Ok((i, Field::Sender(v)));
    }
    #[cfg(feature = "reply-to")]
    if let Ok((i, v)) = reply_to(i) {
        return Ok((i, Field::ReplyTo(v)));
    }
    #[cfg(feature = "to")]
    if let Ok((i, v)) = to(i) {
        return Ok((i, Field::To(v)));
    }
    #[cfg(feature = "cc")]
    if let Ok((i, v)) = cc(i) {
        return Ok((i, Field::Cc(v)));
    }
    #[cfg(feature = "bcc")]
    if let Ok((i, v)) = bcc(i) {
        return Ok((i, Field::Bcc(v)));
    }
    #[cfg(feature = "message-id")]
    if let Ok((i, v)) = message_id(i) {
        return Ok((i, Field::MessageId(v)));
    }
    #[cfg(feature = "in-reply-to")]
    if let Ok((i, v)) = in_reply_to(i) {
        return Ok((i, Field::InReplyTo(v)));
    }
    #[cfg(feature = "references")]
    if let Ok((i, v)) = references(i) {
        return Ok((i, Field::References(v)));
    }
    #[cfg(feature = "subject")]
    if let Ok((i, v)) = subject(i) {
        return Ok((i, Field::Subject(v)));
    }
    #[cfg(feature = "comments")]
    if let Ok((i, v)) = comments(i) {
        return Ok((i, Field::Comments(v)));
    }
    #[cfg(feature = "mime")]
    if let Ok((i, (major, minor))) = mime_version(i) {
        return Ok((i, Field::MimeVersion(major, minor)));
    }
    #[cfg(feature = "mime")]
    if let Ok((i, (mime_type, subtype, parameters))) = content_type(i) {
        return Ok((i, Field::ContentType { mime_type, subtype, parameters }));
    }
    #[cfg(feature = "mime")]
    if let Ok((i, v)) = content_transfer_encoding(i) {
        return Ok((i, Field::ContentTransferEncoding(v)));
    }
    #[cfg(feature = "mime")]
    if let Ok((i, v)) = content_id(i) {
        return Ok((i, Field::ContentId(v)));
    }
    #[cfg(feature = "mime")]
    if let Ok((i, v)) = content_description(i) {
        return Ok((i, Field::ContentDescription(v)));
    }
    #[cfg(feature = "content-disposition")]
    if let Ok((i, v)) = content_disposition(i) {
        return Ok((i, Field::ContentDisposition(v)));
    }
    #[cfg(feature = "keywords")]
    if let Ok((i, v)) = keywords(i) {
        return Ok((i, Field::Keywords(v)));
    }
    let (i, (name, value)) = unknown(i)?;
    Ok((i, Field::Unknown { name, value }))
}

/// Trace blocks, then every other header, in the order written
pub fn fields(i: &[u8]) -> P<'_, Vec<Field>> {
    let mut i = i;
    let mut all: Vec<Field> = Vec::new();
    #[cfg(feature = "trace")]
    while let Ok((rest, (return_path, received))) = trace(i) {
        i = rest;
        let mut resent = Vec::new();
        while let Ok((rest, f)) = resent_field(i) {
            resent.push(f);
            i = rest;
        }
        all.push(Field::Trace { return_path, received, fields: resent });
    }
    while let Ok((rest, f)) = field(i) {
        all.push(f);
        i = rest;
    }
    Ok((i, all))
}
