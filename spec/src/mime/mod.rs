pub mod base64;
pub mod charset;
pub mod encoded_headers;
pub mod entity;
pub mod mime_fields;
pub mod multipart;
pub mod percent_encoding;
pub mod quoted_printables;
pub mod textcode;
pub use charset::*;
use crate::types::*;
use std::collections::HashMap;

pub struct RawEntity {
    pub mime_type: ContentType,
    pub subtype: String,
    pub description: Option<String>,
    pub id: Option<(String, String)>,
    pub parameters: HashMap<String, String>,
    #[cfg(feature = "content-disposition")]
    pub disposition: Option<Disposition>,
    pub value: Vec<u8>,
    pub additional_headers: Vec<(String, String)>,
}

/// The public way in is the reading of the entity itself
impl RawEntity {
    pub fn parse(&self) -> Result<Entity<'_>, Error> {
        entity::entity(self)
    }
}

pub enum Entity<'a> {
    Multipart { subtype: &'a String, content: Vec<RawEntity> },
    Text { subtype: &'a String, value: String },
    Unknown,
}

pub enum ContentType {
    Text,
    Image,
    Audio,
    Video,
    Application,
    Message,
    Multipart,
    Unknown(String),
}

/// Owning a value changes nothing but its lifetime
impl ContentType {
    pub fn into_owned(self) -> ContentType {
        self
    }
    pub fn is_composite_type(&self) -> bool {
        match self {
            ContentType::Message | ContentType::Multipart => true,
            _ => false,
        }
    }
}

pub enum DispositionType {
    Inline,
    Attachment,
    Unknown(String),
}

impl DispositionType {
    pub fn into_owned(self) -> DispositionType {
        self
    }
}

pub struct Disposition {
    pub disposition_type: DispositionType,
    pub filename: Option<String>,
    pub creation_date: Option<DateTime>,
    pub modification_date: Option<DateTime>,
    pub read_date: Option<DateTime>,
    pub unstructured: HashMap<String, String>,
}

impl Disposition {
    pub fn into_owned(self) -> Disposition {
        self
    }
}

pub enum ContentTransferEncoding {
    SevenBit,
    HeightBit,
    Binary,
    QuotedPrintable,
    Base64,
    Unknown(String),
}

impl ContentTransferEncoding {
    pub fn into_owned(self) -> ContentTransferEncoding {
        self
    }
}
