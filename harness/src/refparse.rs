//! An independent recursive-descent parser for the DBML grammar (ordered choice, no backtracking
//! into a choice once taken), producing the reference model with ranges.

use crate::facts::skip_trivia;
use crate::model::*;

pub struct P<'a> {
  t: &'a str,
  b: &'a [u8],
  p: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Reject {
  /// not a document of the grammar
  Syntax,
  /// a document of the grammar with a value that does not fit
  Value(&'static str, Sp),
}

type O<T> = Option<T>;

const AFTER_KW: &[u8] = b" \t\r\n/";

impl<'a> P<'a> {
  fn skip(&mut self) {
    self.p = skip_trivia(self.t, self.p);
  }

  fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> O<T>) -> O<T> {
    let s = self.p;
    let r = f(self);
    if r.is_none() {
      self.p = s;
    }
    r
  }

  fn tok(&mut self, s: &str) -> O<()> {
    if self.b[self.p..].starts_with(s.as_bytes()) {
      self.p += s.len();
      Some(())
    } else {
      None
    }
  }

  fn kw(&mut self, s: &str) -> O<usize> {
    let a = self.p;
    let e = a + s.len();
    if e <= self.b.len() && self.b[a..e].eq_ignore_ascii_case(s.as_bytes()) {
      self.p = e;
      Some(a)
    } else {
      None
    }
  }

  fn kw_sep(&mut self, s: &str) -> O<usize> {
    self.attempt(|p| {
      let a = p.kw(s)?;
      if p.b.get(p.p).is_some_and(|c| AFTER_KW.contains(c)) {
        Some(a)
      } else {
        None
      }
    })
  }

  fn var(&mut self) -> O<Sp> {
    let a = self.p;
    if !self.b.get(a)?.is_ascii_alphabetic() {
      return None;
    }
    while self.p < self.b.len() && (self.b[self.p].is_ascii_alphanumeric() || self.b[self.p] == b'_') {
      self.p += 1;
    }
    Some((a, self.p))
  }

  fn spaced_var(&mut self) -> O<Sp> {
    let w = |c: Option<&u8>| c.is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_');
    let a = self.p;
    if !self.b.get(a)?.is_ascii_alphabetic() {
      return None;
    }
    self.p += 1;
    loop {
      if w(self.b.get(self.p)) {
        self.p += 1;
      } else if self.b.get(self.p) == Some(&b' ') && w(self.b.get(self.p + 1)) {
        self.p += 2;
      } else {
        return Some((a, self.p));
      }
    }
  }

  fn slice(&self, s: Sp) -> String {
    self.t[s.0..s.1].to_string()
  }

  fn dq(&mut self) -> O<(String, Sp)> {
    let a = self.p;
    self.tok("\"")?;
    match self.t[self.p..].find('"') {
      Some(i) => {
        let text = self.t[self.p..self.p + i].to_string();
        self.p += i + 1;
        Some((text, (a, self.p)))
      }
      None => {
        self.p = a;
        None
      }
    }
  }

  fn ident(&mut self) -> O<Name> {
    if let Some(sp) = self.var() {
      return Some(Name { text: self.slice(sp), quoted: false, sp });
    }
    let (text, sp) = self.dq()?;
    Some(Name { text, quoted: true, sp })
  }

  fn quoted(&mut self, q: &str, style: u8) -> O<Lit> {
    let s = self.p;
    self.attempt(|p| {
      p.tok(q)?;
      let a = p.p;
      while matches!(p.b.get(p.p), Some(b' ' | b'\t' | b'\n' | b'\r')) {
        p.p += 1;
      }
      let lead = p.t[a..p.p].to_string();
      let i = p.t[p.p..].find(q)?;
      let text = p.t[p.p..p.p + i].to_string();
      p.p += i + q.len();
      Some(Lit { k: LitK::Str { style, lead, text }, sp: (s, p.p) })
    })
  }

  fn string_value(&mut self) -> O<Lit> {
    self.quoted("'''", 1).or_else(|| self.quoted("'", 0))
  }

  fn backquoted(&mut self) -> O<Lit> {
    let s = self.p;
    self.attempt(|p| {
      p.tok("`")?;
      let i = p.t[p.p..].find('`')?;
      let text = p.t[p.p..p.p + i].to_string();
      p.p += i + 1;
      Some(Lit { k: LitK::Expr(text), sp: (s, p.p) })
    })
  }

  fn digits(&mut self) -> O<Sp> {
    let a = self.p;
    while self.b.get(self.p).is_some_and(|c| c.is_ascii_digit()) {
      self.p += 1;
    }
    if self.p > a {
      Some((a, self.p))
    } else {
      None
    }
  }

  fn value(&mut self) -> O<Lit> {
    if let Some(l) = self.string_value() {
      return Some(l);
    }
    if let Some(l) = self.backquoted() {
      return Some(l);
    }
    let a = self.p;
    for w in ["true", "false", "null"] {
      let r = self.attempt(|p| {
        p.tok(w)?;
        if p.b.get(p.p).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') {
          None
        } else {
          Some(())
        }
      });
      if r.is_some() {
        let k = match w {
          "true" => LitK::Bool(true),
          "false" => LitK::Bool(false),
          _ => LitK::Null,
        };
        return Some(Lit { k, sp: (a, self.p) });
      }
    }
    if let Some(d) = self.digits() {
      if self.tok(".").is_some() {
        self.digits();
        let sp = (a, self.p);
        return Some(Lit { k: LitK::Dec(self.slice(sp)), sp });
      }
      return Some(Lit { k: LitK::Int(self.slice(d)), sp: d });
    }
    self.attempt(|p| {
      p.tok("#")?;
      let hex3 = |p: &Self| p.b.len() >= p.p + 3 && p.b[p.p..p.p + 3].iter().all(|c| c.is_ascii_hexdigit());
      if !hex3(p) {
        return None;
      }
      p.p += 3;
      if hex3(p) {
        p.p += 3;
      }
      let sp = (a, p.p);
      Some(Lit { k: LitK::Hex(p.slice(sp)), sp })
    })
  }

  fn word(&mut self) -> O<Lit> {
    let sp = self.spaced_var()?;
    Some(Lit { k: LitK::Word(self.slice(sp)), sp })
  }

  fn attribute(&mut self, dq_allowed: bool) -> O<Attr> {
    let ksp = self.spaced_var()?;
    let key = Name { text: self.slice(ksp), quoted: false, sp: ksp };
    let val = self.attempt(|p| {
      p.skip();
      p.tok(":")?;
      p.skip();
      if let Some(v) = p.value() {
        return Some(v);
      }
      if let Some(v) = p.word() {
        return Some(v);
      }
      if dq_allowed {
        let (text, sp) = p.dq()?;
        return Some(Lit { k: LitK::Str { style: 2, lead: String::new(), text }, sp });
      }
      None
    });
    let sp = (ksp.0, val.as_ref().map(|v| v.sp.1).unwrap_or(ksp.1));
    Some(Attr { key, val, sp })
  }

  fn property(&mut self) -> O<PropM> {
    self.attempt(|p| {
      let a = p.attribute(false)?;
      let val = a.val?;
      Some(PropM { key: a.key, val, sp: a.sp })
    })
  }

  fn rel(&mut self) -> O<Rel> {
    for r in [Rel::M2M, Rel::O2O, Rel::M2O, Rel::O2M] {
      if self.tok(r.sym()).is_some() {
        return Some(r);
      }
    }
    None
  }

  fn dot(&mut self) -> O<()> {
    self.attempt(|p| {
      p.skip();
      p.tok(".")?;
      p.skip();
      Some(())
    })
  }

  fn endpoint(&mut self) -> O<Endpoint> {
    self.attempt(|p| {
      let a = p.p;
      let first = p.ident()?;
      p.dot()?;
      let second = p.attempt(|p| {
        let n = p.ident()?;
        p.dot()?;
        Some(n)
      });
      let (schema, table) = match second {
        Some(t) => (Some(first), t),
        None => (None, first),
      };
      if let Some(c) = p.ident() {
        return Some(Endpoint { schema, table, cols: vec![c], paren: false, sp: (a, p.p) });
      }
      p.tok("(")?;
      p.skip();
      let mut cols = vec![p.ident()?];
      while let Some(c) = p.comma(|p| p.ident()) {
        cols.push(c);
      }
      p.skip();
      p.tok(")")?;
      Some(Endpoint { schema, table, cols, paren: true, sp: (a, p.p) })
    })
  }

  fn comma<T>(&mut self, f: impl FnOnce(&mut Self) -> O<T>) -> O<T> {
    self.attempt(|p| {
      p.skip();
      p.tok(",")?;
      p.skip();
      f(p)
    })
  }

  fn iref(&mut self) -> O<IRef> {
    self.attempt(|p| {
      let a = p.p;
      p.tok("ref")?;
      p.skip();
      p.tok(":")?;
      p.skip();
      let rel = p.rel()?;
      p.skip();
      let rhs = p.endpoint()?;
      Some(IRef { rel, rhs, sp: (a, p.p) })
    })
  }

  fn settings(&mut self, col: bool) -> O<Settings> {
    self.attempt(|p| {
      let a = p.p;
      p.tok("[")?;
      p.skip();
      let item = |p: &mut Self| -> O<SetItem> {
        if col {
          if let Some(r) = p.iref() {
            return Some(SetItem::Ref(r));
          }
        }
        p.attribute(true).map(SetItem::Attr)
      };
      let mut items = vec![];
      if let Some(x) = item(p) {
        items.push(x);
        while let Some(x) = p.comma(item) {
          items.push(x);
        }
      }
      p.skip();
      p.tok("]")?;
      Some(Settings { items, sp: (a, p.p) })
    })
  }

  /// Optional settings after skipped trivia.
  fn opt_settings(&mut self, col: bool) -> Option<Settings> {
    self.attempt(|p| {
      p.skip();
      p.settings(col)
    })
  }

  fn note(&mut self) -> O<Note> {
    for block in [false, true] {
      let r = self.attempt(|p| {
        let a = p.kw("Note")?;
        p.skip();
        p.tok(if block { "{" } else { ":" })?;
        p.skip();
        let lit = p.string_value()?;
        if block {
          p.skip();
          p.tok("}")?;
        }
        Some(Note { lit, block, sp: (a, p.p) })
      });
      if r.is_some() {
        return r;
      }
    }
    None
  }

  fn array(&mut self) -> O<Option<String>> {
    self.attempt(|p| {
      p.tok("[")?;
      let d = p.digits().map(|s| p.slice(s));
      p.tok("]")?;
      Some(d)
    })
  }

  fn arrays(&mut self) -> Vec<Option<String>> {
    let mut v = vec![];
    while let Some(d) = self.array() {
      v.push(d);
    }
    v
  }

  fn type_args(&mut self) -> O<Vec<Lit>> {
    self.attempt(|p| {
      p.tok("(")?;
      p.skip();
      let mut v = vec![];
      if let Some(x) = p.value() {
        v.push(x);
        while let Some(x) = p.comma(|p| p.value()) {
          v.push(x);
        }
      }
      p.skip();
      p.tok(")")?;
      Some(v)
    })
  }

  fn ty(&mut self) -> O<Ty> {
    self.attempt(|p| {
      let a = p.p;
      let schema = p.attempt(|p| {
        let n = p.ident()?;
        p.tok(".")?;
        Some(n)
      });
      let quoted = p.attempt(|p| {
        p.tok("\"")?;
        let n = p.spaced_var()?;
        let name = p.slice(n);
        let args = p.type_args();
        let arrays = p.arrays();
        p.tok("\"")?;
        let outer = p.arrays();
        Some(Ty { schema: None, quoted: true, name, args, arrays, outer, sp: (0, 0) })
      });
      let mut t = match quoted {
        Some(t) => t,
        None => {
          let n = p.var()?;
          let name = p.slice(n);
          let args = p.type_args();
          let arrays = p.arrays();
          Ty { schema: None, quoted: false, name, args, arrays, outer: vec![], sp: (0, 0) }
        }
      };
      t.schema = schema;
      t.sp = (a, p.p);
      Some(t)
    })
  }

  fn col(&mut self) -> O<Col> {
    self.attempt(|p| {
      let a = p.p;
      let name = p.ident()?;
      p.skip();
      let ty = p.ty()?;
      let settings = p.opt_settings(true);
      Some(Col { name, ty, settings, sp: (a, p.p) })
    })
  }

  fn idx_col(&mut self) -> O<IdxCol> {
    if let Some(n) = self.ident() {
      return Some(IdxCol::Col(n));
    }
    self.backquoted().map(IdxCol::Expr)
  }

  fn idx_def(&mut self) -> O<IdxDef> {
    self.attempt(|p| {
      let a = p.p;
      let (cols, paren) = match p.idx_col() {
        Some(c) => (vec![c], false),
        None => {
          p.tok("(")?;
          p.skip();
          let mut cols = vec![];
          if let Some(c) = p.idx_col() {
            cols.push(c);
            while let Some(c) = p.comma(|p| p.idx_col()) {
              cols.push(c);
            }
          }
          p.skip();
          p.tok(")")?;
          (cols, true)
        }
      };
      let settings = p.opt_settings(false);
      Some(IdxDef { cols, paren, settings, sp: (a, p.p) })
    })
  }

  fn idx_block(&mut self) -> O<IdxBlock> {
    self.attempt(|p| {
      p.kw("Indexes")?;
      p.skip();
      let a = p.p;
      p.tok("{")?;
      let defs = p.many(|p| p.idx_def());
      p.skip();
      p.tok("}")?;
      Some(IdxBlock { defs, sp: (a, p.p) })
    })
  }

  /// `(skip item)*`
  fn many<T>(&mut self, mut f: impl FnMut(&mut Self) -> O<T>) -> Vec<T> {
    let mut v = vec![];
    loop {
      let r = self.attempt(|p| {
        p.skip();
        f(p)
      });
      match r {
        Some(x) => v.push(x),
        None => return v,
      }
    }
  }

  fn braces<T>(&mut self, f: impl FnMut(&mut Self) -> O<T>) -> O<Vec<T>> {
    self.skip();
    self.tok("{")?;
    let v = self.many(f);
    self.skip();
    self.tok("}")?;
    Some(v)
  }

  fn decl_ident(&mut self) -> O<(Option<Name>, Name, Sp)> {
    let a = self.p;
    let first = self.ident()?;
    let second = self.attempt(|p| {
      p.dot()?;
      p.ident()
    });
    let sp = (a, self.p);
    Some(match second {
      Some(n) => (Some(first), n, sp),
      None => (None, first, sp),
    })
  }

  fn project(&mut self) -> O<Project> {
    let a = self.kw_sep("Project")?;
    self.skip();
    let name = self.ident()?;
    let items = self.braces(|p| match p.note() {
      Some(n) => Some(PItem::Note(n)),
      None => p.property().map(PItem::Prop),
    })?;
    Some(Project { name, items, sp: (a, self.p) })
  }

  fn table(&mut self) -> O<Table> {
    let a = self.kw_sep("Table")?;
    self.skip();
    let (schema, name, ident_sp) = self.decl_ident()?;
    let alias = self.attempt(|p| {
      p.skip();
      p.kw_sep("as")?;
      p.skip();
      p.ident()
    });
    let settings = self.opt_settings(false);
    let items = self.braces(|p| {
      if let Some(c) = p.col() {
        return Some(TItem::Col(c));
      }
      if let Some(n) = p.note() {
        return Some(TItem::Note(n));
      }
      p.idx_block().map(TItem::Idx)
    })?;
    Some(Table { schema, name, ident_sp, alias, settings, items, sp: (a, self.p) })
  }

  fn enm(&mut self) -> O<Enum> {
    let a = self.kw_sep("Enum")?;
    self.skip();
    let (schema, name, ident_sp) = self.decl_ident()?;
    let values = self.braces(|p| {
      let a = p.p;
      let name = p.ident()?;
      let settings = p.opt_settings(false);
      Some(EVal { name, settings, sp: (a, p.p) })
    })?;
    Some(Enum { schema, name, ident_sp, values, sp: (a, self.p) })
  }

  fn refb(&mut self, block: bool) -> O<RefB> {
    let a = self.kw("Ref")?;
    let name = self.attempt(|p| {
      p.skip();
      p.ident()
    });
    self.skip();
    self.tok(if block { "{" } else { ":" })?;
    self.skip();
    let s = self.p;
    let lhs = self.endpoint()?;
    self.skip();
    let rel = self.rel()?;
    self.skip();
    let rhs = self.endpoint()?;
    let settings = self.opt_settings(false);
    let sp = (s, self.p);
    if block {
      self.skip();
      self.tok("}")?;
    }
    Some(RefB { name, block, lhs, rel, rhs, settings, sp, decl_sp: (a, self.p) })
  }

  fn group(&mut self) -> O<Group> {
    let a = self.kw_sep("TableGroup")?;
    self.skip();
    let name = self.ident()?;
    let settings = self.opt_settings(false);
    let items = self.braces(|p| {
      if let Some(n) = p.note() {
        return Some(GEntry::Note(n));
      }
      p.decl_ident().map(|(schema, name, sp)| GEntry::Item(GItem { schema, name, sp }))
    })?;
    Some(Group { name, settings, items, sp: (a, self.p) })
  }

  fn top(&mut self) -> O<Block> {
    if let Some(x) = self.attempt(|p| p.project()) {
      return Some(Block::Project(x));
    }
    if let Some(x) = self.attempt(|p| p.table()) {
      return Some(Block::Table(x));
    }
    if let Some(x) = self.attempt(|p| p.enm()) {
      return Some(Block::Enum(x));
    }
    if let Some(x) = self.attempt(|p| p.refb(true)) {
      return Some(Block::Ref(x));
    }
    if let Some(x) = self.attempt(|p| p.refb(false)) {
      return Some(Block::Ref(x));
    }
    if let Some(x) = self.attempt(|p| p.group()) {
      return Some(Block::Group(x));
    }
    self.note().map(Block::Note)
  }
}

pub const ACTIONS: &[&str] = &["no action", "cascade", "restrict", "set null", "set default"];
pub const INDEX_TYPES: &[&str] = &["btree", "gin", "gist", "hash"];

fn lit_fits(l: &Lit) -> Result<(), Reject> {
  match &l.k {
    LitK::Int(s) if s.parse::<i64>().is_err() => Err(Reject::Value("integer", l.sp)),
    _ => Ok(()),
  }
}

fn settings_fit(s: &Option<Settings>) -> Result<(), Reject> {
  for a in s.iter().flat_map(|s| s.attrs()) {
    if let Some(v) = &a.val {
      lit_fits(v)?;
    }
  }
  Ok(())
}

/// The values of a document of the grammar that do not fit.
pub fn values_fit(d: &Doc) -> Result<(), Reject> {
  for b in &d.blocks {
    match b {
      Block::Project(p) => {
        for x in p.props() {
          lit_fits(&x.val)?;
        }
      }
      Block::Table(t) => {
        settings_fit(&t.settings)?;
        for it in &t.items {
          match it {
            TItem::Col(c) => {
              settings_fit(&c.settings)?;
              for a in c.ty.args.iter().flatten() {
                lit_fits(a)?;
              }
              for d in c.ty.dims().iter().flatten() {
                if d.parse::<u32>().is_err() {
                  return Err(Reject::Value("dimension", c.ty.sp));
                }
              }
            }
            TItem::Idx(ib) => {
              for d in &ib.defs {
                settings_fit(&d.settings)?;
                for a in d.settings.iter().flat_map(|s| s.attrs()) {
                  if a.key.text == "type" {
                    if let Some(v) = &a.val {
                      if !INDEX_TYPES.contains(&v.text().as_str()) {
                        return Err(Reject::Value("index type", a.sp));
                      }
                    }
                  }
                }
              }
            }
            TItem::Note(_) => (),
          }
        }
      }
      Block::Enum(e) => {
        for v in &e.values {
          settings_fit(&v.settings)?;
        }
      }
      Block::Group(g) => settings_fit(&g.settings)?,
      Block::Ref(r) => {
        settings_fit(&r.settings)?;
        for a in r.settings.iter().flat_map(|s| s.attrs()) {
          if a.key.text == "update" || a.key.text == "delete" {
            if let Some(Lit { k: LitK::Word(w), .. }) = &a.val {
              if !ACTIONS.contains(&w.as_str()) {
                return Err(Reject::Value("referential action", a.sp));
              }
            }
          }
        }
      }
      Block::Note(_) => (),
    }
  }
  Ok(())
}

pub fn parse_syntax(text: &str) -> Option<Doc> {
  let mut p = P { t: text, b: text.as_bytes(), p: 0 };
  let blocks = p.many(|p| p.top());
  p.skip();
  if p.p == text.len() {
    Some(Doc { blocks })
  } else {
    None
  }
}

pub fn parse(text: &str) -> Result<Doc, Reject> {
  let d = parse_syntax(text).ok_or(Reject::Syntax)?;
  values_fit(&d)?;
  Ok(d)
}
