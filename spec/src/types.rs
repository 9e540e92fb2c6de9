pub enum Error {
    Explicit(&'static str),
    Unknown(&'static str),
    DuplicateHeader(&'static str),
    MissingHeader(&'static str),
}

pub type P<'a, T> = Result<(&'a [u8], T), Error>;

pub fn no<T>() -> Result<T, Error> {
    Err(Error::Unknown("no"))
}

/// The longest prefix whose bytes satisfy the predicate, as a length.
pub fn scan<F: Fn(u8) -> bool>(i: &[u8], f: F) -> usize {
    let mut n = 0;
    while n < i.len() && f(i[n]) {
        n += 1;
    }
    n
}

pub fn skip(i: &[u8], n: usize) -> &[u8] {
    &i[n..]
}

/// ASCII text of a slice
pub fn text(i: &[u8]) -> String {
    unsafe { std::str::from_utf8_unchecked(i) }.to_string()
}

pub fn starts(i: &[u8], c: u8) -> bool {
    i.len() > 0 && i[0] == c
}

/// The rest after an optional construct whose value is ignored
macro_rules! maybe {
    ($i:expr, $f:expr) => {
        match $f($i) {
            Ok((rest, _)) => rest,
            Err(_) => $i,
        }
    };
}
pub(crate) use maybe;

/// Expects one byte
macro_rules! byte {
    ($i:expr, $c:expr) => {
        if $i.len() > 0 && $i[0] == $c {
            &$i[1..]
        } else {
            return Err(Error::Unknown("expected a byte"));
        }
    };
}
pub(crate) use byte;

macro_rules! crlf {
    ($i:expr) => {
        if $i.len() > 1 && $i[0] == b'\r' && $i[1] == b'\n' {
            &$i[2..]
        } else {
            return Err(Error::Unknown("expected CRLF"));
        }
    };
}
pub(crate) use crlf;

/// Is the beginning of `i` the given lowercase ASCII text, in any letter case?
pub fn named(i: &[u8], lower: &[u8]) -> bool {
    if i.len() < lower.len() {
        return false;
    }
    let mut n = 0;
    while n < lower.len() {
        if i[n].to_ascii_lowercase() != lower[n] {
            return false;
        }
        n += 1;
    }
    true
}

#[derive(Clone)]
pub struct Mailbox {
    pub name: Option<Vec<String>>,
    pub address: EmailAddress,
}
#[derive(Clone)]
pub struct EmailAddress {
    pub local_part: String,
    pub domain: String,
}
pub enum Address {
    Mailbox(Mailbox),
    Group((Vec<String>, Vec<Mailbox>)),
}
pub enum Day {
    Monday,
    Tuesday,
    Wednesday,
    Thursday,
    Friday,
    Saturday,
    Sunday,
}
pub enum Month {
    January,
    February,
    March,
    April,
    May,
    June,
    July,
    August,
    September,
    October,
    November,
    December,
}
pub struct Zone {
    pub sign: bool,
    pub hour_offset: u8,
    pub minute_offset: u8,
}
pub struct Time {
    pub hour: u8,
    pub minute: u8,
    pub second: u8,
}
pub struct TimeWithZone {
    pub time: Time,
    pub zone: Zone,
}
pub struct Date {
    pub day: u8,
    pub month: Month,
    pub year: usize,
}
pub struct DateTime {
    pub day_name: Option<Day>,
    pub date: Date,
    pub time: TimeWithZone,
}
