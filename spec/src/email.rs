use crate::fields::*;
use crate::message::parse_message;
#[cfg(feature = "mime")]
use crate::mime::entity::{decode_value, default_type};
#[cfg(feature = "mime")]
use crate::mime::*;
use crate::types::*;

pub struct Email {
    #[cfg(not(feature = "mime"))]
    pub body: Option<String>,
    #[cfg(feature = "from")]
    pub from: Vec<Mailbox>,
    #[cfg(feature = "sender")]
    pub sender: Mailbox,
    #[cfg(feature = "subject")]
    pub subject: Option<String>,
    #[cfg(feature = "date")]
    pub date: DateTime,
    #[cfg(feature = "to")]
    pub to: Option<Vec<Address>>,
    #[cfg(feature = "cc")]
    pub cc: Option<Vec<Address>>,
    #[cfg(feature = "bcc")]
    pub bcc: Option<Vec<Address>>,
    #[cfg(feature = "message-id")]
    pub message_id: Option<(String, String)>,
    #[cfg(feature = "in-reply-to")]
    pub in_reply_to: Option<Vec<(String, String)>>,
    #[cfg(feature = "references")]
    pub references: Option<Vec<(String, String)>>,
    #[cfg(feature = "reply-to")]
    pub reply_to: Option<Vec<Address>>,
    #[cfg(feature = "comments")]
    pub comments: Vec<String>,
    #[cfg(feature = "keywords")]
    pub keywords: Vec<Vec<String>>,
    #[cfg(feature = "trace")]
    pub trace: Vec<(Option<Option<EmailAddress>>, Vec<(Vec<ReceivedToken>, DateTime)>, Vec<TraceField>)>,
    #[cfg(feature = "mime")]
    pub mime_entity: RawEntity,
    pub unknown_fields: Vec<(String, String)>,
}

/// Stores the value of a header that may appear only once
macro_rules! once {
    ($slot:ident, $value:expr, $name:expr) => {
        match $slot {
            Some(_) => return Err(Error::DuplicateHeader($name)),
            None => $slot = Some($value),
        }
    };
}

impl Email {
    pub fn parse(data: &[u8]) -> Result<Email, Error> {
        let (all, body) = parse_message(data)?;
        #[cfg(feature = "from")]
        let mut from = None;
        #[cfg(feature = "sender")]
        let mut sender = None;
        #[cfg(feature = "subject")]
        let mut subject = None;
        #[cfg(feature = "date")]
        let mut date = None;
        #[cfg(feature = "to")]
        let mut to = None;
        #[cfg(feature = "cc")]
        let mut cc = None;
        #[cfg(feature = "bcc")]
        let mut bcc = None;
        #[cfg(feature = "message-id")]
        let mut message_id = None;
        #[cfg(feature = "in-reply-to")]
        let mut in_reply_to = None;
        #[cfg(feature = "references")]
        let mut references = None;
        #[cfg(feature = "reply-to")]
        let mut reply_to = None;
        #[cfg(feature = "comments")]
        let mut comments = Vec::new();
        #[cfg(feature = "keywords")]
        let mut keywords = Vec::new();
        #[cfg(feature = "trace")]
        let mut trace = Vec::new();
        #[cfg(feature = "mime")]
        let mut mime_version = None;
        #[cfg(feature = "mime")]
        let mut content_type = None;
        #[cfg(feature = "mime")]
        let mut encoding = None;
        #[cfg(feature = "mime")]
        let mut content_id = None;
        #[cfg(feature = "mime")]
        let mut description = None;
        #[cfg(feature = "content-disposition")]
        let mut disposition = None;
        let mut unknown_fields = Vec::new();
        for f in all {
            match f {
                #[cfg(feature = "date")]
                Field::Date(v) => once!(date, v, "Date"),
                #[cfg(feature = "from")]
                Field::From(v) => once!(from, v, "From"),
                #[cfg(feature = "sender")]
                Field::Sender(v) => once!(sender, v, "Sender"),
                #[cfg(feature = "reply-to")]
                Field::ReplyTo(v) => once!(reply_to, v, "Reply-To"),
                #[cfg(feature = "to")]
                Field::To(v) => once!(to, v, "To"),
                #[cfg(feature = "cc")]
                Field::Cc(v) => once!(cc, v, "Cc"),
                #[cfg(feature = "bcc")]
                Field::Bcc(v) => once!(bcc, v, "Bcc"),
                #[cfg(feature = "message-id")]
                Field::MessageId(v) => once!(message_id, v, "Message-ID"),
                #[cfg(feature = "in-reply-to")]
                Field::InReplyTo(v) => once!(in_reply_to, v, "In-Reply-To"),
                #[cfg(feature = "references")]
                Field::References(v) => once!(references, v, "References"),
                #[cfg(feature = "subject")]
                Field::Subject(v) => once!(subject, v, "Subject"),
                #[cfg(feature = "comments")]
                Field::Comments(v) => comments.push(v),
                #[cfg(feature = "keywords")]
                Field::Keywords(v) => {
                    for k in v {
                        keywords.push(k);
                    }
                }
                #[cfg(feature = "mime")]
                Field::MimeVersion(a, b) => once!(mime_version, (a, b), "Mime-Version"),
                #[cfg(feature = "mime")]
                Field::ContentType { mime_type, subtype, parameters } => once!(content_type, (mime_type, subtype, parameters), "Content-Type"),
                #[cfg(feature = "mime")]
                Field::ContentTransferEncoding(v) => once!(encoding, v, "Content-Transfer-Encoding"),
                #[cfg(feature = "mime")]
                Field::ContentId(v) => once!(content_id, v, "Content-Id"),
                #[cfg(feature = "mime")]
                Field::ContentDescription(v) => once!(description, v, "Content-Description"),
                #[cfg(feature = "content-disposition")]
                Field::ContentDisposition(v) => once!(disposition, v, "Content-Disposition"),
                #[cfg(feature = "trace")]
                Field::Trace { return_path, received, fields } => trace.push((return_path, received, fields)),
                Field::Unknown { name, value } => unknown_fields.push((name, value)),
            }
        }
        #[cfg(feature = "from")]
        let from = match from {
            Some(v) => v,
            None => return Err(Error::MissingHeader("From")),
        };
        #[cfg(feature = "date")]
        let date = match date {
            Some(v) => v,
            None => return Err(Error::MissingHeader("Date")),
        };
        #[cfg(all(feature = "sender", feature = "from"))]
        let sender = match sender {
            Some(v) => v,
            None => {
                if from.len() != 1 {
                    return Err(Error::MissingHeader("Sender"));
                }
                from[0].clone()
            }
        };
        #[cfg(all(feature = "sender", not(feature = "from")))]
        let sender = match sender {
            Some(v) => v,
            None => return Err(Error::MissingHeader("Sender")),
        };
        #[cfg(feature = "mime")]
        let mime_entity = {
            let (mime_type, subtype, parameters) = match content_type {
                Some(t) => t,
                None => default_type(),
            };
            let value = match body {
                Some(b) => match encoding {
                    Some(e) => decode_value(b.to_vec(), e)?,
                    None => decode_value(b.to_vec(), ContentTransferEncoding::SevenBit)?,
                },
                None => Vec::new(),
            };
            RawEntity {
                mime_type,
                subtype,
                description,
                id: content_id,
                parameters,
                #[cfg(feature = "content-disposition")]
                disposition,
                value,
                additional_headers: Vec::new(),
            }
        };
        Ok(Email {
            #[cfg(not(feature = "mime"))]
            body,
            #[cfg(feature = "from")]
            from,
            #[cfg(feature = "sender")]
            sender,
            #[cfg(feature = "subject")]
            subject,
            #[cfg(feature = "date")]
            date,
            #[cfg(feature = "to")]
            to,
            #[cfg(feature = "cc")]
            cc,
            #[cfg(feature = "bcc")]
            bcc,
            #[cfg(feature = "message-id")]
            message_id,
            #[cfg(feature = "in-reply-to")]
            in_reply_to,
            #[cfg(feature = "references")]
            references,
            #[cfg(feature = "reply-to")]
            reply_to,
            #[cfg(feature = "comments")]
            comments,
            #[cfg(feature = "keywords")]
            keywords,
            #[cfg(feature = "trace")]
            trace,
            #[cfg(feature = "mime")]
            mime_entity,
            unknown_fields,
        })
    }
}

/// The conversion is the reading
impl<'a> std::convert::TryFrom<&'a [u8]> for Email {
    type Error = Error;
    fn try_from(data: &'a [u8]) -> Result<Self, Self::Error> {
        Self::parse(data)
    }
}
