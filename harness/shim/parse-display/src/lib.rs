//! Stand-in for the part of `parse-display` linkspace uses.
pub use parse_display_derive::{Display, FromStr};
#[derive(Debug, Eq, PartialEq)]
pub struct ParseError(&'static str);
impl ParseError {
    pub fn new() -> Self {
        ParseError("parse failed.")
    }
    pub fn with_message(m: &'static str) -> Self {
        ParseError(m)
    }
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ParseError {}
