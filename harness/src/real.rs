//! Calls into the code under test.

use dbml_rs::ast::SchemaBlock;
use pest::error::{ErrorVariant, InputLocation, LineColLocation};

use crate::engine::guarded;

#[derive(Clone, Debug, PartialEq)]
pub struct RealErr {
  /// the message of a rule or value violation; None for a syntax error
  pub msg: Option<String>,
  pub start: usize,
  pub end: usize,
  pub display: String,
  pub line_col: ((usize, usize), (usize, usize)),
}

#[derive(Debug)]
pub enum Out<T> {
  Ok(T),
  Err(RealErr),
  Panic(String),
}

impl<T> Out<T> {
  pub fn describe(&self) -> String {
    match self {
      Out::Ok(_) => "accepted".into(),
      Out::Err(e) => format!("rejected: {}", e.msg.clone().unwrap_or_else(|| format!("syntax error at {}", e.start))),
      Out::Panic(p) => format!("panicked: {p}"),
    }
  }
  pub fn accepted(&self) -> bool {
    matches!(self, Out::Ok(_))
  }
}

macro_rules! convert {
  ($r:expr) => {
    match $r {
      Ok(v) => Out::Ok(v),
      Err(e) => {
        let (start, end) = match e.location {
          InputLocation::Pos(p) => (p, p),
          InputLocation::Span((a, b)) => (a, b),
        };
        let line_col = match e.line_col {
          LineColLocation::Pos(p) => (p, p),
          LineColLocation::Span(a, b) => (a, b),
        };
        let msg = match &e.variant {
          ErrorVariant::CustomError { message } => Some(message.clone()),
          _ => None,
        };
        Out::Err(RealErr { msg, start, end, display: format!("{e}"), line_col })
      }
    }
  };
}

/// The unchecked parse, reduced by `f` while still guarded.
pub fn unchecked<T>(text: &str, f: impl FnOnce(&SchemaBlock) -> T) -> Out<T> {
  match guarded(|| convert!(dbml_rs::parse_dbml_unchecked(text).map(|s| f(&s)))) {
    Ok(o) => o,
    Err(p) => Out::Panic(p),
  }
}

/// The checked parse, reduced by `f` while still guarded.
pub fn checked<T>(text: &str, f: impl FnOnce(&SchemaBlock) -> T) -> Out<T> {
  match guarded(|| convert!(dbml_rs::parse_dbml(text).map(|s| f(&s)))) {
    Ok(o) => o,
    Err(p) => Out::Panic(p),
  }
}
