//! Writes a model as DBML text with a random layout and records the range of every node.

use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
  Pretty,
  Compact,
  Wild,
}

#[derive(Clone, Copy)]
pub struct Style {
  pub kind: Kind,
  pub comments: bool,
  pub kwcase: bool,
}

impl Style {
  pub const PRETTY: Style = Style { kind: Kind::Pretty, comments: false, kwcase: false };
  pub fn random(src: &mut Src) -> Style {
    match src.weighted(&[3, 1, 4, 2]) {
      0 => Style::PRETTY,
      1 => Style { kind: Kind::Compact, comments: false, kwcase: src.chance(1, 2) },
      2 => Style { kind: Kind::Wild, comments: true, kwcase: true },
      _ => Style { kind: Kind::Wild, comments: false, kwcase: false },
    }
  }
}

#[derive(Clone, Copy)]
enum H {
  /// nothing between the tokens
  No,
  /// one space
  Sp,
  /// a new line with this indent
  Nl(usize),
}

pub struct Writer<'a> {
  out: String,
  /// where tokens start
  starts: Vec<usize>,
  src: &'a mut Src,
  st: Style,
  /// a block keyword was just written: white space or a comment must follow
  after_kw: bool,
  /// a bare-word value was just written: one space and a word character would continue it
  after_spaced: bool,
  /// the next token must be separated (an empty settings list after a type)
  force: bool,
}

const COMMENTS: &[&str] = &[
  " a comment",
  "",
  " Table t { id int [pk] }",
  " 'unbalanced",
  "\"",
  "'''",
  " }",
  "]",
  " [pk, not null]",
  "//",
  " /* ",
  "*",
  "`",
  " caf\u{e9} \u{1F600} \u{5b57}",
  " ref: > users.id",
  " \\",
  "\u{2028}",
];

fn wordish(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_'
}

impl<'a> Writer<'a> {
  fn trivia(&mut self) -> String {
    let n = self.src.weighted(&[6, 3, 2, 1]) + 1;
    let mut s = String::new();
    for _ in 0..n {
      let k = if self.st.comments { self.src.weighted(&[6, 4, 2, 2, 1, 3, 3]) } else { self.src.weighted(&[6, 4, 2, 2, 1]) };
      match k {
        0 => s.push(' '),
        1 => s.push('\n'),
        2 => s.push('\t'),
        3 => s.push_str("\r\n"),
        4 => s.push('\r'),
        5 => {
          s.push_str("//");
          s.push_str(self.src.pick(COMMENTS));
          let nl = *self.src.pick(&["\n", "\r\n", "\r"]);
          s.push_str(nl);
        }
        _ => {
          s.push_str("/*");
          let c = *self.src.pick(COMMENTS);
          s.push_str(c);
          if self.src.chance(1, 6) {
            s.push_str("\n * more\r\n");
          }
          s.push_str("*/");
        }
      }
    }
    s
  }

  /// Writes what stands between the previous token and one starting with `next`.
  fn gap(&mut self, h: H, next: char) {
    let last = self.out.chars().next_back();
    let need = self.after_kw || self.force || (last.is_some_and(wordish) && wordish(next));
    let hint = match h {
      H::No => String::new(),
      H::Sp => " ".to_string(),
      H::Nl(n) => format!("\n{}", "  ".repeat(n)),
    };
    let mut g = match self.st.kind {
      Kind::Pretty => hint,
      Kind::Compact => String::new(),
      Kind::Wild => match self.src.weighted(&[8, 3, 6]) {
        0 => hint,
        1 => String::new(),
        _ => self.trivia(),
      },
    };
    if last.is_none() && self.st.kind == Kind::Pretty {
      g.clear();
    }
    if need && g.is_empty() {
      g.push(' ');
    }
    if self.after_spaced && wordish(next) && g == " " {
      g = "\n".into();
    }
    self.after_kw = false;
    self.after_spaced = false;
    self.force = false;
    self.out.push_str(&g);
    self.starts.push(self.out.len());
  }

  /// Writes a token; returns its range.
  fn tok(&mut self, h: H, s: &str) -> Sp {
    self.gap(h, s.chars().next().unwrap_or(' '));
    let a = self.out.len();
    self.out.push_str(s);
    (a, self.out.len())
  }

  fn kw(&mut self, h: H, s: &str, separate: bool) -> Sp {
    let w: String = if self.st.kwcase {
      match self.src.below(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().map(|c| if self.src.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
      }
    } else {
      s.to_string()
    };
    let sp = self.tok(h, &w);
    self.after_kw = separate;
    sp
  }

  fn name(&mut self, h: H, n: &mut Name) -> Sp {
    let raw = n.raw();
    n.sp = self.tok(h, &raw);
    n.sp
  }

  fn lit(&mut self, h: H, l: &mut Lit) -> Sp {
    let raw = l.raw();
    l.sp = self.tok(h, &raw);
    self.after_spaced = matches!(l.k, LitK::Word(_));
    l.sp
  }

  fn attr(&mut self, h: H, a: &mut Attr) {
    let k = a.key.text.clone();
    a.key.sp = self.tok(h, &k);
    a.sp = a.key.sp;
    if let Some(v) = &mut a.val {
      self.tok(H::No, ":");
      let sp = self.lit(H::Sp, v);
      a.sp.1 = sp.1;
    }
  }

  fn endpoint(&mut self, h: H, e: &mut Endpoint) -> Sp {
    let s = match &mut e.schema {
      Some(sc) => {
        let s = self.name(h, sc);
        self.tok(H::No, ".");
        self.name(H::No, &mut e.table);
        s
      }
      None => self.name(h, &mut e.table),
    };
    self.tok(H::No, ".");
    let end;
    if e.paren {
      self.tok(H::No, "(");
      for (i, c) in e.cols.iter_mut().enumerate() {
        if i > 0 {
          self.tok(H::No, ",");
        }
        self.name(if i > 0 { H::Sp } else { H::No }, c);
      }
      end = self.tok(H::No, ")").1;
    } else {
      end = self.name(H::No, &mut e.cols[0]).1;
    }
    e.sp = (s.0, end);
    e.sp
  }

  fn settings(&mut self, h: H, s: &mut Settings, after_type: bool) -> Sp {
    if after_type && s.items.is_empty() {
      self.force = true;
    }
    let a = self.tok(h, "[");
    for (i, it) in s.items.iter_mut().enumerate() {
      if i > 0 {
        self.tok(H::No, ",");
      }
      let h = if i > 0 { H::Sp } else { H::No };
      match it {
        SetItem::Attr(x) => self.attr(h, x),
        SetItem::Ref(r) => {
          let a = self.tok(h, "ref");
          self.tok(H::No, ":");
          self.tok(H::Sp, r.rel.sym());
          let e = self.endpoint(H::Sp, &mut r.rhs);
          r.sp = (a.0, e.1);
        }
      }
    }
    let e = self.tok(H::No, "]");
    s.sp = (a.0, e.1);
    s.sp
  }

  fn note(&mut self, ind: usize, n: &mut Note) {
    let a = self.kw(H::Nl(ind), "Note", false);
    let e = if n.block {
      self.tok(H::Sp, "{");
      self.lit(H::Nl(ind + 1), &mut n.lit);
      self.tok(H::Nl(ind), "}")
    } else {
      self.tok(H::No, ":");
      self.lit(H::Sp, &mut n.lit)
    };
    n.sp = (a.0, e.1);
  }

  fn ty(&mut self, t: &mut Ty) {
    // within the quotes, a double quote before a dot reads as the end of a schema name
    let plain = t.quoted && t.schema.is_none();
    if plain && t.args.as_ref().is_some_and(|v| v.iter().any(|x| x.raw().contains("\"."))) {
      t.args = None;
    }
    // no gaps except between the arguments
    let first = if t.schema.as_ref().map_or(t.quoted, |s| s.quoted) { '"' } else { 'a' };
    self.gap(H::Sp, first);
    let a = self.out.len();
    if let Some(s) = &mut t.schema {
      let b = self.out.len();
      let raw = s.raw();
      self.out.push_str(&raw);
      s.sp = (b, self.out.len());
      self.out.push('.');
    }
    if t.quoted {
      self.out.push('"');
    }
    self.out.push_str(&t.name);
    if let Some(args) = &mut t.args {
      self.out.push('(');
      for (i, l) in args.iter_mut().enumerate() {
        if i > 0 {
          self.tok(H::No, ",");
        }
        self.lit(if i > 0 { H::Sp } else { H::No }, l);
      }
      self.tok(H::No, ")");
    }
    for d in &t.arrays {
      self.out.push_str(&format!("[{}]", d.clone().unwrap_or_default()));
    }
    if plain && self.out[a..].contains("\".") {
      let s = self.out.split_off(a).replace("\".", "\"_");
      self.out.push_str(&s);
    }
    if t.quoted {
      self.out.push('"');
      for d in &t.outer {
        self.out.push_str(&format!("[{}]", d.clone().unwrap_or_default()));
      }
    }
    t.sp = (a, self.out.len());
  }

  fn ident(&mut self, schema: &mut Option<Name>, name: &mut Name) -> Sp {
    match schema {
      Some(s) => {
        let a = self.name(H::Sp, s);
        self.tok(H::No, ".");
        let e = self.name(H::No, name);
        (a.0, e.1)
      }
      None => self.name(H::Sp, name),
    }
  }

  fn block(&mut self, b: &mut Block) {
    match b {
      Block::Note(n) => self.note(0, n),
      Block::Project(p) => {
        let a = self.kw(H::Nl(0), "Project", true);
        self.name(H::Sp, &mut p.name);
        self.tok(H::Sp, "{");
        for it in &mut p.items {
          match it {
            PItem::Note(n) => self.note(1, n),
            PItem::Prop(x) => {
              let k = x.key.text.clone();
              x.key.sp = self.tok(H::Nl(1), &k);
              self.tok(H::No, ":");
              let e = self.lit(H::Sp, &mut x.val);
              x.sp = (x.key.sp.0, e.1);
            }
          }
        }
        p.sp = (a.0, self.tok(H::Nl(0), "}").1);
      }
      Block::Table(t) => {
        let a = self.kw(H::Nl(0), "Table", true);
        t.ident_sp = self.ident(&mut t.schema, &mut t.name);
        if let Some(al) = &mut t.alias {
          self.kw(H::Sp, "as", true);
          self.name(H::Sp, al);
        }
        if let Some(s) = &mut t.settings {
          self.settings(H::Sp, s, false);
        }
        self.tok(H::Sp, "{");
        for it in &mut t.items {
          match it {
            TItem::Note(n) => self.note(1, n),
            TItem::Col(c) => {
              let a = self.name(H::Nl(1), &mut c.name);
              self.ty(&mut c.ty);
              c.sp = (a.0, c.ty.sp.1);
              if let Some(s) = &mut c.settings {
                c.sp.1 = self.settings(H::Sp, s, true).1;
              }
            }
            TItem::Idx(ib) => {
              self.kw(H::Nl(1), "Indexes", false);
              let a = self.tok(H::Sp, "{");
              for d in &mut ib.defs {
                let (s, mut e);
                if d.paren {
                  s = self.tok(H::Nl(2), "(").0;
                  for (i, c) in d.cols.iter_mut().enumerate() {
                    if i > 0 {
                      self.tok(H::No, ",");
                    }
                    let h = if i > 0 { H::Sp } else { H::No };
                    match c {
                      IdxCol::Col(n) => self.name(h, n),
                      IdxCol::Expr(l) => self.lit(h, l),
                    };
                  }
                  e = self.tok(H::No, ")").1;
                } else {
                  let sp = match &mut d.cols[0] {
                    IdxCol::Col(n) => self.name(H::Nl(2), n),
                    IdxCol::Expr(l) => self.lit(H::Nl(2), l),
                  };
                  s = sp.0;
                  e = sp.1;
                }
                if let Some(st) = &mut d.settings {
                  e = self.settings(H::Sp, st, false).1;
                }
                d.sp = (s, e);
              }
              ib.sp = (a.0, self.tok(H::Nl(1), "}").1);
            }
          }
        }
        t.sp = (a.0, self.tok(H::Nl(0), "}").1);
      }
      Block::Enum(en) => {
        let a = self.kw(H::Nl(0), "Enum", true);
        en.ident_sp = self.ident(&mut en.schema, &mut en.name);
        self.tok(H::Sp, "{");
        for v in &mut en.values {
          v.sp = self.name(H::Nl(1), &mut v.name);
          if let Some(s) = &mut v.settings {
            v.sp.1 = self.settings(H::Sp, s, false).1;
          }
        }
        en.sp = (a.0, self.tok(H::Nl(0), "}").1);
      }
      Block::Group(g) => {
        let a = self.kw(H::Nl(0), "TableGroup", true);
        self.name(H::Sp, &mut g.name);
        if let Some(s) = &mut g.settings {
          self.settings(H::Sp, s, false);
        }
        self.tok(H::Sp, "{");
        for it in &mut g.items {
          match it {
            GEntry::Note(n) => self.note(1, n),
            GEntry::Item(i) => {
              let a = match &mut i.schema {
                Some(s) => {
                  let a = self.name(H::Nl(1), s);
                  self.tok(H::No, ".");
                  (a.0, self.name(H::No, &mut i.name).1)
                }
                None => self.name(H::Nl(1), &mut i.name),
              };
              i.sp = a;
            }
          }
        }
        g.sp = (a.0, self.tok(H::Nl(0), "}").1);
      }
      Block::Ref(r) => {
        let a = self.kw(H::Nl(0), "Ref", false);
        if let Some(n) = &mut r.name {
          self.name(H::Sp, n);
        }
        self.tok(if r.block { H::Sp } else { H::No }, if r.block { "{" } else { ":" });
        let l = self.endpoint(if r.block { H::Nl(1) } else { H::Sp }, &mut r.lhs);
        self.tok(H::Sp, r.rel.sym());
        let e = self.endpoint(H::Sp, &mut r.rhs);
        r.sp = (l.0, e.1);
        if let Some(s) = &mut r.settings {
          r.sp.1 = self.settings(H::Sp, s, false).1;
        }
        r.decl_sp = (a.0, r.sp.1);
        if r.block {
          r.decl_sp.1 = self.tok(H::Nl(0), "}").1;
        }
      }
    }
  }
}

/// Renders `doc`, filling the ranges of its nodes.
pub fn write(doc: &mut Doc, src: &mut Src, st: Style) -> String {
  write_tokens(doc, src, st).0
}

/// As `write`, with the positions at which tokens start.
pub fn write_tokens(doc: &mut Doc, src: &mut Src, st: Style) -> (String, Vec<usize>) {
  let mut w = Writer { out: String::new(), starts: Vec::new(), src, st, after_kw: false, after_spaced: false, force: false };
  for b in &mut doc.blocks {
    w.block(b);
    if w.st.kind == Kind::Pretty {
      w.out.push('\n');
    }
  }
  if w.st.kind == Kind::Wild {
    w.gap(H::Nl(0), '}');
    if w.st.comments && w.src.chance(1, 4) {
      w.out.push_str("// the end");
    }
  }
  (w.out, w.starts)
}

pub fn pretty(doc: &mut Doc) -> String {
  let mut s = Src::replay(&[]);
  write(doc, &mut s, Style::PRETTY)
}
