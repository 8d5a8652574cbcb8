//! unused stand-in
