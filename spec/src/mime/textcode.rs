//! Stand-ins for the functions of the `textcode` crate, which the comparison keeps opaque (matched by name).
macro_rules! codec {
    ($($n:ident)*) => { $(pub mod $n { pub fn decode_to_string(src: &[u8]) -> String { unreachable!() } pub fn decode(src: &[u8], dst: &mut String) { unreachable!() } })* };
}
codec!(iso8859_1 iso8859_2 iso8859_3 iso8859_4 iso8859_5 iso8859_6 iso8859_7 iso8859_8 iso8859_9 iso8859_10 iso8859_11 iso8859_13 iso8859_14 iso8859_15 iso8859_16 iso6937 gb2312);
