//! Text accumulators: whatever the representation, the content is the concatenation.
pub fn empty_string() -> String {
    String::new()
}
pub fn from_slice(s: &[u8]) -> String {
    crate::types::text(s)
}
pub fn add_string(a: &mut String, b: String) {
    a.push_str(&b);
}
pub fn add_str(a: &mut String, b: &str) {
    a.push_str(b);
}
