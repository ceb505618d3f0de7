//! Observations of a document as flat, ordered facts. The library's AST and the reference model
//! are both turned into facts; a property compares the facts of its own categories.

use dbml_rs::ast;

use crate::model::*;

pub const STRUCT: u32 = 1 << 2;
pub const SET: u32 = 1 << 3;
pub const LIT: u32 = 1 << 4;
pub const REF: u32 = 1 << 5;
pub const TYP: u32 = 1 << 6;
pub const SPAN: u32 = 1 << 7;
/// facts that depend on the spelling of tokens (raw texts)
pub const RAW: u32 = 1 << 8;
/// raw text that includes layout
pub const RAWTYPE: u32 = 1 << 9;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
  S(String),
  N(usize),
  B(bool),
  /// start, end, and whether trailing trivia may be taken in (expectation only)
  Sp(usize, usize, bool),
}

#[derive(Clone, Debug)]
pub struct Fact {
  pub path: String,
  pub cats: u32,
  pub v: V,
}

pub struct F {
  pub facts: Vec<Fact>,
  path: String,
}

impl F {
  fn new() -> Self {
    F { facts: Vec::with_capacity(256), path: String::with_capacity(64) }
  }
  fn put(&mut self, key: &str, cats: u32, v: V) {
    let mut p = String::with_capacity(self.path.len() + key.len());
    p.push_str(&self.path);
    p.push_str(key);
    self.facts.push(Fact { path: p, cats, v });
  }
  fn at<R>(&mut self, key: &str, f: impl FnOnce(&mut Self) -> R) -> R {
    let l = self.path.len();
    self.path.push_str(key);
    let r = f(self);
    self.path.truncate(l);
    r
  }
  fn span(&mut self, s: usize, e: usize, tol: bool) {
    self.put(".span", SPAN, V::Sp(s, e, tol));
  }
  fn opt<T>(&mut self, key: &str, cats: u32, o: Option<T>, f: impl FnOnce(&mut Self, T)) {
    self.put(&format!("{key}?"), cats, V::B(o.is_some()));
    if let Some(x) = o {
      self.at(key, |s| f(s, x));
    }
  }
  fn list<T>(&mut self, key: &str, cats: u32, items: impl Iterator<Item = T>, mut f: impl FnMut(&mut Self, T)) {
    let mut n = 0;
    for x in items {
      let l = self.path.len();
      self.path.push_str(&format!("{key}[{n}]"));
      f(self, x);
      self.path.truncate(l);
      n += 1;
    }
    self.put(&format!("{key}.len"), cats, V::N(n));
  }
}

fn value_str(v: &ast::Value) -> String {
  match v {
    ast::Value::Enum(s) => format!("word {s:?}"),
    ast::Value::String(s) => format!("string {s:?}"),
    ast::Value::Integer(i) => format!("integer {i}"),
    ast::Value::Decimal(d) => format!("decimal bits {:016x}", d.to_bits()),
    ast::Value::Bool(b) => format!("bool {b}"),
    ast::Value::HexColor(s) => format!("color {s:?}"),
    ast::Value::Expr(s) => format!("expr {s:?}"),
    ast::Value::Null => "null".into(),
  }
}

fn lit_str(l: &Lit) -> String {
  match &l.k {
    LitK::Word(s) => format!("word {s:?}"),
    LitK::Str { text, .. } => format!("string {text:?}"),
    LitK::Int(s) => format!("integer {}", s.parse::<i64>().map(|v| v.to_string()).unwrap_or_else(|_| "overflow".into())),
    LitK::Dec(s) => format!("decimal bits {:016x}", s.parse::<f64>().expect("decimal").to_bits()),
    LitK::Bool(b) => format!("bool {b}"),
    LitK::Hex(s) => format!("color {s:?}"),
    LitK::Expr(s) => format!("expr {s:?}"),
    LitK::Null => "null".into(),
  }
}

// ---------------------------------------------------------------- the library's AST

mod real {
  use super::*;

  fn ident(f: &mut F, cats: u32, i: &ast::Ident) {
    f.put(".text", cats | LIT, V::S(i.to_string.clone()));
    f.put(".raw", LIT | SPAN | RAW, V::S(i.raw.clone()));
    f.span(i.span_range.start, i.span_range.end, false);
  }

  fn literal(f: &mut F, cats: u32, l: &ast::Literal) {
    f.put(".value", cats | LIT, V::S(value_str(&l.value)));
    f.put(".raw", LIT | SPAN | RAW, V::S(l.raw.clone()));
    f.span(l.span_range.start, l.span_range.end, false);
  }

  fn attrs(f: &mut F, a: &[ast::Attribute]) {
    f.list(".attr", SET, a.iter(), |f, a| {
      f.at(".key", |f| ident(f, SET, &a.key));
      f.opt(".val", SET, a.value.as_ref(), |f, v| literal(f, SET, v));
      f.span(a.span_range.start, a.span_range.end, false);
    });
  }

  fn note(f: &mut F, n: &ast::NoteBlock) {
    f.at(".value", |f| literal(f, STRUCT, &n.value));
    f.span(n.span_range.start, n.span_range.end, false);
  }

  fn endpoint(f: &mut F, e: &ast::RefIdent) {
    f.opt(".schema", REF, e.schema.as_ref(), |f, s| ident(f, REF, s));
    f.at(".table", |f| ident(f, REF, &e.table));
    f.list(".col", REF, e.compositions.iter(), |f, c| ident(f, REF, c));
    f.span(e.span_range.start, e.span_range.end, false);
  }

  fn rel(r: &ast::Relation) -> V {
    V::S(
      match r {
        ast::Relation::One2One => "-",
        ast::Relation::One2Many => "<",
        ast::Relation::Many2One => ">",
        ast::Relation::Many2Many => "<>",
        ast::Relation::Undef => "undefined",
      }
      .to_string(),
    )
  }

  fn action(a: &Option<ast::ReferentialAction>) -> V {
    V::S(
      match a {
        None => "none",
        Some(ast::ReferentialAction::NoAction) => "no action",
        Some(ast::ReferentialAction::Cascade) => "cascade",
        Some(ast::ReferentialAction::Restrict) => "restrict",
        Some(ast::ReferentialAction::SetNull) => "set null",
        Some(ast::ReferentialAction::SetDefault) => "set default",
      }
      .to_string(),
    )
  }

  fn opt_str(o: &Option<String>) -> V {
    V::S(o.as_ref().map(|s| format!("some {s:?}")).unwrap_or_else(|| "none".into()))
  }

  fn col_type(f: &mut F, t: &ast::ColumnType) {
    let name = match &t.type_name {
      ast::ColumnTypeName::Raw(s) => s.clone(),
      o => format!("not raw: {o:?}"),
    };
    f.put(".name", TYP, V::S(name));
    f.list(".arg", TYP, t.args.iter(), |f, a| f.put(".value", TYP | LIT, V::S(value_str(a))));
    f.list(".dim", TYP, t.arrays.iter(), |f, d| {
      f.put(".size", TYP, V::S(d.map(|v| v.to_string()).unwrap_or_else(|| "open".into())))
    });
    f.put(".raw", TYP | SPAN | RAWTYPE, V::S(t.raw.clone()));
    f.span(t.span_range.start, t.span_range.end, false);
  }

  fn table(f: &mut F, t: &ast::TableBlock) {
    f.at(".ident", |f| {
      f.opt(".schema", STRUCT, t.ident.schema.as_ref(), |f, s| ident(f, STRUCT, s));
      f.at(".name", |f| ident(f, STRUCT, &t.ident.name));
      f.opt(".alias", STRUCT, t.ident.alias.as_ref(), |f, s| ident(f, STRUCT, s));
      f.span(t.ident.span_range.start, t.ident.span_range.end, false);
    });
    f.opt(".settings", STRUCT | SET, t.settings.as_ref(), |f, s| {
      attrs(f, &s.attributes);
      f.span(s.span_range.start, s.span_range.end, false);
    });
    f.list(".col", STRUCT, t.cols.iter(), |f, c| {
      f.at(".name", |f| ident(f, STRUCT, &c.name));
      f.at(".type", |f| col_type(f, &c.r#type));
      f.opt(".settings", STRUCT | SET, c.settings.as_ref(), |f, s| {
        attrs(f, &s.attributes);
        f.put(".is_pk", SET, V::B(s.is_pk));
        f.put(".is_unique", SET, V::B(s.is_unique));
        f.put(".is_incremental", SET, V::B(s.is_incremental));
        f.put(".nullable", SET, V::S(format!("{:?}", s.nullable)));
        f.put(".note", SET, opt_str(&s.note));
        f.put(".default", SET, V::S(s.default.as_ref().map(value_str).unwrap_or_else(|| "none".into())));
        f.list(".ref", REF, s.refs.iter(), |f, r| {
          f.put(".rel", REF, rel(&r.rel));
          f.at(".rhs", |f| endpoint(f, &r.rhs));
          f.span(r.span_range.start, r.span_range.end, false);
        });
        f.span(s.span_range.start, s.span_range.end, false);
      });
      f.span(c.span_range.start, c.span_range.end, false);
    });
    f.opt(".note", STRUCT, t.note.as_ref(), note);
    f.opt(".indexes", STRUCT, t.indexes.as_ref(), |f, ib| {
      f.list(".def", STRUCT, ib.defs.iter(), |f, d| {
        f.list(".col", STRUCT, d.cols.iter(), |f, c| match c {
          ast::IndexesColumnType::String(n) => {
            f.put(".kind", STRUCT, V::S("column".into()));
            ident(f, STRUCT, n);
          }
          ast::IndexesColumnType::Expr(l) => {
            f.put(".kind", STRUCT, V::S("expr".into()));
            literal(f, STRUCT, l);
          }
        });
        f.opt(".settings", STRUCT | SET, d.settings.as_ref(), |f, s| {
          attrs(f, &s.attributes);
          f.put(".is_pk", SET, V::B(s.is_pk));
          f.put(".is_unique", SET, V::B(s.is_unique));
          f.put(
            ".type",
            SET,
            V::S(
              match &s.r#type {
                None => "none",
                Some(ast::IndexesType::BTree) => "btree",
                Some(ast::IndexesType::Gin) => "gin",
                Some(ast::IndexesType::Gist) => "gist",
                Some(ast::IndexesType::Hash) => "hash",
              }
              .to_string(),
            ),
          );
          f.put(".note", SET, opt_str(&s.note));
          f.put(".name", SET, opt_str(&s.name));
          f.span(s.span_range.start, s.span_range.end, false);
        });
        f.span(d.span_range.start, d.span_range.end, false);
      });
      f.span(ib.span_range.start, ib.span_range.end, false);
    });
    f.span(t.span_range.start, t.span_range.end, false);
  }

  fn refb(f: &mut F, r: &ast::RefBlock) {
    f.opt(".name", REF, r.name.as_ref(), |f, n| ident(f, REF, n));
    f.put(".rel", REF, rel(&r.rel));
    f.at(".lhs", |f| endpoint(f, &r.lhs));
    f.at(".rhs", |f| endpoint(f, &r.rhs));
    f.opt(".settings", REF | SET, r.settings.as_ref(), |f, s| {
      attrs(f, &s.attributes);
      f.put(".on_update", REF | SET, action(&s.on_update));
      f.put(".on_delete", REF | SET, action(&s.on_delete));
      f.span(s.span_range.start, s.span_range.end, false);
    });
    f.span(r.span_range.start, r.span_range.end, false);
  }

  pub fn block(f: &mut F, b: &ast::TopLevelBlock) {
    let kind = match b {
      ast::TopLevelBlock::Project(_) => "project",
      ast::TopLevelBlock::Table(_) => "table",
      ast::TopLevelBlock::TableGroup(_) => "group",
      ast::TopLevelBlock::Note(_) => "note",
      ast::TopLevelBlock::Ref(_) => "ref",
      ast::TopLevelBlock::Enum(_) => "enum",
    };
    f.put(".kind", STRUCT | REF, V::S(kind.into()));
    match b {
      ast::TopLevelBlock::Project(p) => {
        f.at(".name", |f| ident(f, STRUCT, &p.ident));
        f.list(".prop", STRUCT, p.properties.iter(), |f, x| {
          f.at(".key", |f| ident(f, STRUCT, &x.key));
          f.at(".val", |f| literal(f, STRUCT, &x.value));
          f.span(x.span_range.start, x.span_range.end, false);
        });
        f.put(
          ".database_type",
          SET,
          V::S(match &p.database_type {
            None => "none".into(),
            Some(ast::DatabaseType::PostgreSQL) => "PostgreSQL".into(),
            Some(ast::DatabaseType::Unknown(s)) => format!("unknown {s:?}"),
          }),
        );
        f.opt(".note", STRUCT, p.note.as_ref(), note);
        f.span(p.span_range.start, p.span_range.end, false);
      }
      ast::TopLevelBlock::Table(t) => table(f, t),
      ast::TopLevelBlock::Enum(e) => {
        f.at(".ident", |f| {
          f.opt(".schema", STRUCT, e.ident.schema.as_ref(), |f, s| ident(f, STRUCT, s));
          f.at(".name", |f| ident(f, STRUCT, &e.ident.name));
          f.span(e.ident.span_range.start, e.ident.span_range.end, false);
        });
        f.list(".value", STRUCT, e.values.iter(), |f, v| {
          f.at(".name", |f| ident(f, STRUCT, &v.value));
          f.opt(".settings", STRUCT | SET, v.settings.as_ref(), |f, s| {
            attrs(f, &s.attributes);
            f.put(".note", SET, opt_str(&s.note));
            f.span(s.span_range.start, s.span_range.end, false);
          });
          f.span(v.span_range.start, v.span_range.end, false);
        });
        f.span(e.span_range.start, e.span_range.end, false);
      }
      ast::TopLevelBlock::Ref(r) => refb(f, r),
      ast::TopLevelBlock::TableGroup(g) => {
        f.at(".name", |f| ident(f, STRUCT, &g.ident));
        f.opt(".settings", STRUCT | SET, g.settings.as_ref(), |f, s| {
          attrs(f, &s.attributes);
          f.span(s.span_range.start, s.span_range.end, false);
        });
        f.list(".item", STRUCT, g.items.iter(), |f, i| {
          f.opt(".schema", STRUCT, i.schema.as_ref(), |f, s| ident(f, STRUCT, s));
          f.at(".name", |f| ident(f, STRUCT, &i.ident_alias));
          f.span(i.span_range.start, i.span_range.end, false);
        });
        f.opt(".note", STRUCT, g.note.as_ref(), note);
        f.span(g.span_range.start, g.span_range.end, false);
      }
      ast::TopLevelBlock::Note(n) => note(f, n),
    }
  }
}

pub fn of_ast(s: &ast::SchemaBlock) -> Vec<Fact> {
  let mut f = F::new();
  f.list("block", STRUCT | REF, s.blocks.iter(), real::block);
  f.put("doc.input", STRUCT, V::S(s.input.to_string()));
  f.put("doc.span", SPAN, V::Sp(s.span_range.start, s.span_range.end, false));
  f.facts
}

/// The facts of single blocks, for relating blocks of different documents.
pub fn of_ast_blocks(s: &ast::SchemaBlock) -> Vec<Vec<Fact>> {
  s.blocks
    .iter()
    .map(|b| {
      let mut f = F::new();
      real::block(&mut f, b);
      f.facts
    })
    .collect()
}

// ---------------------------------------------------------------- the reference model

mod model {
  use super::*;

  fn ident(f: &mut F, cats: u32, i: &Name) {
    f.put(".text", cats | LIT, V::S(i.text.clone()));
    f.put(".raw", LIT | SPAN | RAW, V::S(i.raw()));
    f.span(i.sp.0, i.sp.1, false);
  }

  fn literal(f: &mut F, cats: u32, l: &Lit) {
    f.put(".value", cats | LIT, V::S(lit_str(l)));
    f.put(".raw", LIT | SPAN | RAW, V::S(l.raw()));
    f.span(l.sp.0, l.sp.1, false);
  }

  fn attrs(f: &mut F, s: &Settings) {
    f.list(".attr", SET, s.attrs(), |f, a| {
      f.at(".key", |f| ident(f, SET, &a.key));
      f.opt(".val", SET, a.val.as_ref(), |f, v| literal(f, SET, v));
      f.span(a.sp.0, a.sp.1, a.val.is_none());
    });
  }

  fn note(f: &mut F, n: &Note) {
    f.at(".value", |f| literal(f, STRUCT, &n.lit));
    f.span(n.sp.0, n.sp.1, false);
  }

  fn endpoint(f: &mut F, e: &Endpoint) {
    f.opt(".schema", REF, e.schema.as_ref(), |f, s| ident(f, REF, s));
    f.at(".table", |f| ident(f, REF, &e.table));
    f.list(".col", REF, e.cols.iter(), |f, c| ident(f, REF, c));
    f.span(e.sp.0, e.sp.1, false);
  }

  fn rel(r: Rel) -> V {
    V::S(r.sym().to_string())
  }

  fn action(s: &Settings, key: &str) -> V {
    V::S(match s.last(key).and_then(|a| a.val.as_ref()) {
      Some(Lit { k: LitK::Word(w), .. }) => w.clone(),
      _ => "none".into(),
    })
  }

  fn opt_val(s: &Settings, key: &str) -> V {
    V::S(match s.last(key).and_then(|a| a.val.as_ref()) {
      Some(l) => format!("some {:?}", l.text()),
      None => "none".into(),
    })
  }

  fn col_type(f: &mut F, t: &Ty, text: &str) {
    f.put(".name", TYP, V::S(t.full_name()));
    f.list(".arg", TYP, t.args.iter().flatten(), |f, a| f.put(".value", TYP | LIT, V::S(lit_str(a))));
    f.list(".dim", TYP, t.dims().iter(), |f, d| {
      let v = match d {
        None => "open".to_string(),
        Some(s) => s.parse::<u32>().map(|v| v.to_string()).unwrap_or_else(|_| "overflow".into()),
      };
      f.put(".size", TYP, V::S(v))
    });
    f.put(".raw", TYP | SPAN | RAWTYPE, V::S(text[t.sp.0..t.sp.1].to_string()));
    f.span(t.sp.0, t.sp.1, false);
  }

  fn table(f: &mut F, t: &Table, text: &str) {
    f.at(".ident", |f| {
      f.opt(".schema", STRUCT, t.schema.as_ref(), |f, s| ident(f, STRUCT, s));
      f.at(".name", |f| ident(f, STRUCT, &t.name));
      f.opt(".alias", STRUCT, t.alias.as_ref(), |f, s| ident(f, STRUCT, s));
      f.span(t.ident_sp.0, t.ident_sp.1, t.schema.is_none());
    });
    f.opt(".settings", STRUCT | SET, t.settings.as_ref(), |f, s| {
      attrs(f, s);
      f.span(s.sp.0, s.sp.1, false);
    });
    f.list(".col", STRUCT, t.cols(), |f, c| {
      f.at(".name", |f| ident(f, STRUCT, &c.name));
      f.at(".type", |f| col_type(f, &c.ty, text));
      f.opt(".settings", STRUCT | SET, c.settings.as_ref(), |f, s| {
        attrs(f, s);
        f.put(".is_pk", SET, V::B(s.has("pk") || s.has("primary key")));
        f.put(".is_unique", SET, V::B(s.has("unique")));
        f.put(".is_incremental", SET, V::B(s.has("increment")));
        let nullable = match s.attrs().filter(|a| a.key.text == "null" || a.key.text == "not null").last() {
          None => "None",
          Some(a) if a.key.text == "null" => "Some(Null)",
          Some(_) => "Some(NotNull)",
        };
        f.put(".nullable", SET, V::S(nullable.into()));
        f.put(".note", SET, opt_val(s, "note"));
        let d = s.last("default").and_then(|a| a.val.as_ref());
        f.put(".default", SET, V::S(d.map(lit_str).unwrap_or_else(|| "none".into())));
        f.list(".ref", REF, s.refs(), |f, r| {
          f.put(".rel", REF, rel(r.rel));
          f.at(".rhs", |f| endpoint(f, &r.rhs));
          f.span(r.sp.0, r.sp.1, false);
        });
        f.span(s.sp.0, s.sp.1, false);
      });
      f.span(c.sp.0, c.sp.1, c.settings.is_none());
    });
    f.opt(".note", STRUCT, t.note(), note);
    f.opt(".indexes", STRUCT, t.indexes(), |f, ib| {
      f.list(".def", STRUCT, ib.defs.iter(), |f, d| {
        f.list(".col", STRUCT, d.cols.iter(), |f, c| match c {
          IdxCol::Col(n) => {
            f.put(".kind", STRUCT, V::S("column".into()));
            ident(f, STRUCT, n);
          }
          IdxCol::Expr(l) => {
            f.put(".kind", STRUCT, V::S("expr".into()));
            // an expression in an index is reported as a string value
            let LitK::Expr(e) = &l.k else { unreachable!("index expression") };
            f.put(".value", STRUCT | LIT, V::S(format!("string {e:?}")));
            f.put(".raw", LIT | SPAN | RAW, V::S(l.raw()));
            f.span(l.sp.0, l.sp.1, false);
          }
        });
        f.opt(".settings", STRUCT | SET, d.settings.as_ref(), |f, s| {
          attrs(f, s);
          f.put(".is_pk", SET, V::B(s.has("pk")));
          f.put(".is_unique", SET, V::B(s.has("unique")));
          let ty = s.last("type").and_then(|a| a.val.as_ref()).map(|l| l.text());
          f.put(".type", SET, V::S(ty.unwrap_or_else(|| "none".into())));
          f.put(".note", SET, opt_val(s, "note"));
          f.put(".name", SET, opt_val(s, "name"));
          f.span(s.sp.0, s.sp.1, false);
        });
        f.span(d.sp.0, d.sp.1, d.settings.is_none());
      });
      f.span(ib.sp.0, ib.sp.1, false);
    });
    f.span(t.sp.0, t.sp.1, false);
  }

  pub fn block(f: &mut F, b: &Block, text: &str) {
    let kind = match b {
      Block::Project(_) => "project",
      Block::Table(_) => "table",
      Block::Group(_) => "group",
      Block::Note(_) => "note",
      Block::Ref(_) => "ref",
      Block::Enum(_) => "enum",
    };
    f.put(".kind", STRUCT | REF, V::S(kind.into()));
    match b {
      Block::Project(p) => {
        f.at(".name", |f| ident(f, STRUCT, &p.name));
        f.list(".prop", STRUCT, p.props(), |f, x| {
          f.at(".key", |f| ident(f, STRUCT, &x.key));
          f.at(".val", |f| literal(f, STRUCT, &x.val));
          f.span(x.sp.0, x.sp.1, false);
        });
        let db = p.props().filter(|x| x.key.text == "database_type").filter_map(|x| match &x.val.k {
          LitK::Str { text, .. } => Some(text),
          _ => None,
        });
        let db = match db.last() {
          None => "none".to_string(),
          Some(s) if s == "PostgreSQL" => s.clone(),
          Some(s) => format!("unknown {s:?}"),
        };
        f.put(".database_type", SET, V::S(db));
        let n = p.items.iter().rev().find_map(|i| match i {
          PItem::Note(n) => Some(n),
          _ => None,
        });
        f.opt(".note", STRUCT, n, note);
        f.span(p.sp.0, p.sp.1, false);
      }
      Block::Table(t) => table(f, t, text),
      Block::Enum(e) => {
        f.at(".ident", |f| {
          f.opt(".schema", STRUCT, e.schema.as_ref(), |f, s| ident(f, STRUCT, s));
          f.at(".name", |f| ident(f, STRUCT, &e.name));
          f.span(e.ident_sp.0, e.ident_sp.1, e.schema.is_none());
        });
        f.list(".value", STRUCT, e.values.iter(), |f, v| {
          f.at(".name", |f| ident(f, STRUCT, &v.name));
          f.opt(".settings", STRUCT | SET, v.settings.as_ref(), |f, s| {
            attrs(f, s);
            f.put(".note", SET, opt_val(s, "note"));
            f.span(s.sp.0, s.sp.1, false);
          });
          f.span(v.sp.0, v.sp.1, v.settings.is_none());
        });
        f.span(e.sp.0, e.sp.1, false);
      }
      Block::Ref(r) => {
        f.opt(".name", REF, r.name.as_ref(), |f, n| ident(f, REF, n));
        f.put(".rel", REF, rel(r.rel));
        f.at(".lhs", |f| endpoint(f, &r.lhs));
        f.at(".rhs", |f| endpoint(f, &r.rhs));
        f.opt(".settings", REF | SET, r.settings.as_ref(), |f, s| {
          attrs(f, s);
          f.put(".on_update", REF | SET, action(s, "update"));
          f.put(".on_delete", REF | SET, action(s, "delete"));
          f.span(s.sp.0, s.sp.1, false);
        });
        f.span(r.sp.0, r.sp.1, r.settings.is_none());
      }
      Block::Group(g) => {
        f.at(".name", |f| ident(f, STRUCT, &g.name));
        f.opt(".settings", STRUCT | SET, g.settings.as_ref(), |f, s| {
          attrs(f, s);
          f.span(s.sp.0, s.sp.1, false);
        });
        f.list(".item", STRUCT, g.tables(), |f, i| {
          f.opt(".schema", STRUCT, i.schema.as_ref(), |f, s| ident(f, STRUCT, s));
          f.at(".name", |f| ident(f, STRUCT, &i.name));
          f.span(i.sp.0, i.sp.1, i.schema.is_none());
        });
        let n = g.items.iter().rev().find_map(|i| match i {
          GEntry::Note(n) => Some(n),
          _ => None,
        });
        f.opt(".note", STRUCT, n, note);
        f.span(g.sp.0, g.sp.1, false);
      }
      Block::Note(n) => note(f, n),
    }
  }
}

pub fn of_model(d: &Doc, text: &str) -> Vec<Fact> {
  let mut f = F::new();
  f.list("block", STRUCT | REF, d.blocks.iter(), |f, b| model::block(f, b, text));
  f.put("doc.input", STRUCT, V::S(text.to_string()));
  f.put("doc.span", SPAN, V::Sp(0, text.len(), false));
  f.facts
}

pub fn is_trivia(s: &str) -> bool {
  skip_trivia(s, 0) == s.len()
}

/// The position after the white space and comments at `pos`.
pub fn skip_trivia(text: &str, mut pos: usize) -> usize {
  let b = text.as_bytes();
  loop {
    while pos < b.len() && matches!(b[pos], b' ' | b'\t' | b'\n' | b'\r') {
      pos += 1;
    }
    if b[pos..].starts_with(b"//") {
      while pos < b.len() && b[pos] != b'\n' && b[pos] != b'\r' {
        pos += 1;
      }
    } else if b[pos..].starts_with(b"/*") {
      match text[pos + 2..].find("*/") {
        Some(i) => pos += 2 + i + 2,
        None => return pos,
      }
    } else {
      return pos;
    }
  }
}

fn value_ok(exp: &V, got: &V, text: &str) -> bool {
  match (exp, got) {
    (V::Sp(s, e, tol), V::Sp(s2, e2, _)) => {
      s == s2 && (e == e2 || (*tol && e2 > e && *e2 <= text.len() && text.is_char_boundary(*e2) && is_trivia_end(text, *e, *e2)))
    }
    (a, b) => a == b,
  }
}

/// `e2` may only be reached from `e` by taking in whole trivia.
fn is_trivia_end(text: &str, e: usize, e2: usize) -> bool {
  e2 <= skip_trivia(text, e) && is_trivia(&text[e..e2])
}

/// The first difference in the given categories, as (path, expected, got).
pub fn diff(exp: &[Fact], got: &[Fact], cats: u32, text: &str) -> Option<(String, String, String)> {
  let a = exp.iter().filter(|f| f.cats & cats != 0);
  let b = got.iter().filter(|f| f.cats & cats != 0);
  let (mut a, mut b) = (a, b);
  loop {
    match (a.next(), b.next()) {
      (None, None) => return None,
      (Some(x), Some(y)) => {
        if x.path != y.path {
          return Some((x.path.clone(), format!("{:?}", x.v), format!("instead {} = {:?}", y.path, y.v)));
        }
        if !value_ok(&x.v, &y.v, text) {
          return Some((x.path.clone(), format!("{:?}", x.v), format!("{:?}", y.v)));
        }
      }
      (Some(x), None) => return Some((x.path.clone(), format!("{:?}", x.v), "nothing".into())),
      (None, Some(y)) => return Some((y.path.clone(), "nothing".into(), format!("{:?}", y.v))),
    }
  }
}

/// A path without its numbers, for failure signatures.
pub fn path_shape(p: &str) -> String {
  p.chars().filter(|c| !c.is_ascii_digit()).collect()
}
