//! C02 to C07: the parsed document says what was written.

use crate::engine::{fail, Ctx, Fail, Prop, Res};
use crate::facts::{self, diff, path_shape};
use crate::gensyn::{self, Focus};
use crate::model::*;
use crate::real::{self, Out};
use crate::refparse;
use crate::writer::{self, Style};

/// Compares the library's reading of `text` with the model in some categories.
pub fn compare(doc: &Doc, text: &str, cats: u32) -> Res {
  let exp = facts::of_model(doc, text);
  match real::unchecked(text, |s| facts::of_ast(s)) {
    Out::Ok(got) => match diff(&exp, &got, cats, text) {
      None => Ok(()),
      Some((path, e, g)) => fail(format!("differs at {}", path_shape(&path)), format!("at {path}: written {e}, reported {g}"), text),
    },
    o => fail("well-formed document not parsed", format!("well-formed document: {}", o.describe()), text),
  }
}

pub fn self_check(doc: &Doc, text: &str) {
  match refparse::parse(text) {
    Ok(d) => {
      if d != *doc {
        let a = facts::of_model(doc, text);
        let b = facts::of_model(&d, text);
        panic!("harness: writer and reference parser disagree: {:?}\n{text}\n{:?}", diff(&a, &b, !0, text), text);
      }
    }
    Err(e) => panic!("harness: the reference parser rejects a written document: {e:?}\n{text}\n{text:?}"),
  }
}

fn labels(c: &mut Ctx, d: &Doc) {
  for b in &d.blocks {
    c.label(match b {
      Block::Project(_) => "has project",
      Block::Table(_) => "has table",
      Block::Enum(_) => "has enum",
      Block::Ref(_) => "has ref",
      Block::Group(_) => "has group",
      Block::Note(_) => "has note",
    });
    if let Block::Table(t) = b {
      if t.indexes().is_some_and(|i| !i.defs.is_empty()) {
        c.label("has index definitions");
      }
      if t.cols().any(|x| x.settings.as_ref().is_some_and(|s| s.refs().count() > 0)) {
        c.label("has inline ref");
      }
      if t.cols().any(|x| !x.ty.dims().is_empty()) {
        c.label("has array type");
      }
      if t.cols().any(|x| x.ty.args.is_some()) {
        c.label("has type arguments");
      }
    }
  }
  match d.blocks.len() {
    0 => c.label("no block"),
    1 => c.label("1 block"),
    2..=8 => c.label("2-8 blocks"),
    _ => c.label("over 8 blocks"),
  }
}

fn doc_case(c: &mut Ctx, focus: Focus, cats: u32, nontrivial: fn(&Doc) -> bool) -> Res {
  let mut d = gensyn::doc(&mut c.src, focus);
  let st = Style::random(&mut c.src);
  let text = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &text);
  let nt = nontrivial(&d);
  labels(c, &d);
  c.input(&text, nt);
  compare(&d, &text, cats)
}

fn n_members(d: &Doc) -> usize {
  d.blocks
    .iter()
    .map(|b| match b {
      Block::Project(p) => p.items.len(),
      Block::Table(t) => t.items.len(),
      Block::Enum(e) => e.values.len(),
      Block::Group(g) => g.items.len(),
      _ => 0,
    })
    .sum()
}

fn c02(c: &mut Ctx) -> Res {
  doc_case(c, Focus::All, facts::STRUCT, |d| d.blocks.len() + n_members(d) >= 3)
}

fn all_settings(d: &Doc) -> usize {
  let n = |s: &Option<Settings>| s.as_ref().map(|s| s.items.len()).unwrap_or(0);
  d.blocks
    .iter()
    .map(|b| match b {
      Block::Table(t) => n(&t.settings) + t.cols().map(|c| n(&c.settings)).sum::<usize>() + t.indexes().map(|i| i.defs.iter().map(|d| n(&d.settings)).sum()).unwrap_or(0),
      Block::Enum(e) => e.values.iter().map(|v| n(&v.settings)).sum(),
      Block::Ref(r) => n(&r.settings),
      Block::Group(g) => n(&g.settings),
      _ => 0,
    })
    .sum()
}

/// Puts a value that does not fit somewhere; the document must then be rejected.
fn must_reject(c: &mut Ctx, mut d: Doc, what: &'static str) -> Res {
  let st = Style::random(&mut c.src);
  let text = writer::write(&mut d, &mut c.src, st);
  match refparse::parse(&text) {
    Err(refparse::Reject::Value(..)) => (),
    o => panic!("harness: expected a value that does not fit, got {o:?}\n{text}"),
  }
  c.label(what);
  c.input(&text, true);
  match real::unchecked(&text, |_| ()) {
    Out::Err(_) => Ok(()),
    o => fail(format!("not rejected: {what}"), format!("{what}: {}", o.describe()), text),
  }
}

fn c03(c: &mut Ctx) -> Res {
  if c.src.chance(1, 8) {
    let mut d = gensyn::doc(&mut c.src, Focus::Settings);
    let bad = ["set nul", "Cascade", "cascade now", "noaction", "x", "SET NULL", "set", "nothing", "btree"];
    let badt = ["b tree", "BTREE", "btre", "rtree", "hash2", "x", "cascade", "brin"];
    if c.src.chance(1, 2) {
      let k = *c.src.pick(&["update", "delete"]);
      let v = *c.src.pick(&bad);
      let mut r = loop_block(c, |b| matches!(b, Block::Ref(_)));
      if let Block::Ref(x) = &mut r {
        let s = x.settings.get_or_insert_with(Settings::default);
        let at = c.src.range(0, s.items.len());
        s.items.insert(at, SetItem::Attr(Attr::new(k, Some(Lit::word(v)))));
      }
      d.blocks.push(r);
      return must_reject(c, d, "unsupported referential action");
    }
    let v = *c.src.pick(&badt);
    let mut r = loop_block(c, |b| matches!(b, Block::Table(_)));
    if let Block::Table(t) = &mut r {
      let ib = t.index_section();
      let lit = if c.src.chance(1, 2) { Lit::word(v) } else { Lit::str(v) };
      let set = Settings { items: vec![SetItem::Attr(Attr::new("type", Some(lit)))], sp: (0, 0) };
      ib.defs.push(IdxDef { cols: vec![IdxCol::Col(Name::new("a"))], paren: false, settings: Some(set), sp: (0, 0) });
    }
    d.blocks.push(r);
    return must_reject(c, d, "unsupported index type");
  }
  doc_case(c, Focus::Settings, facts::SET, |d| all_settings(d) >= 1)
}

fn loop_block(c: &mut Ctx, want: fn(&Block) -> bool) -> Block {
  for _ in 0..40 {
    let b = gensyn::block(&mut c.src, Focus::Settings, 6);
    if want(&b) {
      return b;
    }
  }
  if want(&Block::Table(Table::default())) {
    return Block::Table(Table { name: Name::new("t"), ..Table::default() });
  }
  let e = Endpoint { table: Name::new("t"), cols: vec![Name::new("c")], ..Endpoint::default() };
  Block::Ref(RefB { name: None, block: false, lhs: e.clone(), rel: Rel::M2O, rhs: e, settings: None, sp: (0, 0), decl_sp: (0, 0) })
}

fn c04(c: &mut Ctx) -> Res {
  if c.src.chance(1, 16) {
    let mut d = gensyn::doc(&mut c.src, Focus::Literals);
    let v = *c.src.pick(&["9223372036854775808", "18446744073709551616", "99999999999999999999999999", "9223372036854775810"]);
    let lit = Lit::new(LitK::Int(v.into()));
    let b = match c.src.below(3) {
      0 => Block::Project(Project { name: Name::new("p"), items: vec![PItem::Prop(PropM { key: Attr::new("n", None).key, val: lit, sp: (0, 0) })], sp: (0, 0) }),
      1 => {
        let ty = Ty { name: "varchar".into(), args: Some(vec![lit]), ..Ty::default() };
        Block::Table(Table { name: Name::new("t"), items: vec![TItem::Col(Col { name: Name::new("a"), ty, ..Col::default() })], ..Table::default() })
      }
      _ => {
        let ty = Ty { name: "bigint".into(), ..Ty::default() };
        let set = Settings { items: vec![SetItem::Attr(Attr::new("default", Some(lit)))], sp: (0, 0) };
        Block::Table(Table { name: Name::new("t"), items: vec![TItem::Col(Col { name: Name::new("a"), ty, settings: Some(set), ..Col::default() })], ..Table::default() })
      }
    };
    let at = c.src.range(0, d.blocks.len());
    d.blocks.insert(at, b);
    return must_reject(c, d, "integer too large");
  }
  doc_case(c, Focus::Literals, facts::LIT, |d| d.blocks.len() + n_members(d) >= 2)
}

fn c05(c: &mut Ctx) -> Res {
  doc_case(c, Focus::Refs, facts::REF, |d| {
    d.refs().count() + d.tables().flat_map(|t| t.cols()).map(|c| c.settings.as_ref().map(|s| s.refs().count()).unwrap_or(0)).sum::<usize>() >= 1
  })
}

fn c06(c: &mut Ctx) -> Res {
  if c.src.chance(1, 16) {
    let mut d = gensyn::doc(&mut c.src, Focus::Types);
    let v = *c.src.pick(&["4294967296", "18446744073709551616", "99999999999", "4294967300", "8589934591"]);
    let mut ty = gensyn::ty(&mut c.src, Focus::Types);
    let at = c.src.range(0, ty.arrays.len());
    ty.arrays.insert(at, Some(v.to_string()));
    d.blocks.push(Block::Table(Table { name: Name::new("t"), items: vec![TItem::Col(Col { name: Name::new("a"), ty, ..Col::default() })], ..Table::default() }));
    return must_reject(c, d, "dimension too large");
  }
  doc_case(c, Focus::Types, facts::TYP, |d| d.tables().flat_map(|t| t.cols()).any(|c| c.ty.args.is_some() || !c.ty.dims().is_empty() || c.ty.quoted || c.ty.schema.is_some()))
}

/// Containment and disjointness of the reported ranges, and raw text equal to the text at the range.
fn ranges(text: &str) -> Result<(), Fail> {
  use dbml_rs::ast::*;
  struct R<'a> {
    text: &'a str,
    bad: Option<String>,
  }
  type Rg = std::ops::Range<usize>;
  impl R<'_> {
    fn inside(&mut self, what: &str, parent: &Rg, kids: &[(&str, &Rg)]) {
      for (k, r) in kids {
        if r.start > r.end || r.end > self.text.len() || !self.text.is_char_boundary(r.start) || !self.text.is_char_boundary(r.end) {
          self.bad.get_or_insert(format!("{what}: range of {k} {r:?} is not a range of the text"));
        }
        if r.start < parent.start || r.end > parent.end {
          self.bad.get_or_insert(format!("{what} {parent:?}: range of {k} {r:?} is not inside"));
        }
      }
      let mut v: Vec<_> = kids.to_vec();
      v.sort_by_key(|(_, r)| (r.start, r.end));
      for w in v.windows(2) {
        if w[0].1.end > w[1].1.start {
          self.bad.get_or_insert(format!("{what}: ranges of {} {:?} and {} {:?} overlap", w[0].0, w[0].1, w[1].0, w[1].1));
        }
      }
    }
    fn attrs(&mut self, parent: &Rg, attrs: &[Attribute], refs: &[RefInline]) {
      let mut kids: Vec<(&str, &Rg)> = attrs.iter().map(|a| ("attribute", &a.span_range)).collect();
      kids.extend(refs.iter().map(|r| ("inline ref", &r.span_range)));
      self.inside("settings", parent, &kids);
      for a in attrs {
        let mut k = vec![("key", &a.key.span_range)];
        if let Some(v) = &a.value {
          k.push(("value", &v.span_range));
        }
        self.inside("attribute", &a.span_range, &k);
      }
      for r in refs {
        self.inside("inline ref", &r.span_range, &[("endpoint", &r.rhs.span_range)]);
        self.endpoint(&r.rhs);
      }
    }
    fn endpoint(&mut self, e: &RefIdent) {
      let mut k: Vec<(&str, &Rg)> = vec![("table", &e.table.span_range)];
      if let Some(s) = &e.schema {
        k.push(("schema", &s.span_range));
      }
      k.extend(e.compositions.iter().map(|c| ("column", &c.span_range)));
      self.inside("endpoint", &e.span_range, &k);
    }
  }
  let r = real::unchecked(text, |s| {
    let mut r = R { text, bad: None };
    let mut tops = vec![];
    for b in &s.blocks {
      match b {
        TopLevelBlock::Project(p) => {
          tops.push(("project", &p.span_range));
          let mut k = vec![("name", &p.ident.span_range)];
          k.extend(p.properties.iter().map(|x| ("property", &x.span_range)));
          k.extend(p.note.iter().map(|n| ("note", &n.span_range)));
          r.inside("project", &p.span_range, &k);
          for x in &p.properties {
            r.inside("property", &x.span_range, &[("key", &x.key.span_range), ("value", &x.value.span_range)]);
          }
        }
        TopLevelBlock::Table(t) => {
          tops.push(("table", &t.span_range));
          let mut k = vec![("name", &t.ident.span_range)];
          k.extend(t.ident.alias.iter().map(|n| ("alias", &n.span_range)));
          k.extend(t.settings.iter().map(|n| ("settings", &n.span_range)));
          k.extend(t.cols.iter().map(|n| ("column", &n.span_range)));
          k.extend(t.note.iter().map(|n| ("note", &n.span_range)));
          k.extend(t.indexes.iter().map(|n| ("indexes", &n.span_range)));
          r.inside("table", &t.span_range, &k);
          let mut k = vec![("name", &t.ident.name.span_range)];
          k.extend(t.ident.schema.iter().map(|n| ("schema", &n.span_range)));
          r.inside("table name", &t.ident.span_range, &k);
          if let Some(s) = &t.settings {
            r.attrs(&s.span_range, &s.attributes, &[]);
          }
          for c in &t.cols {
            let mut k = vec![("name", &c.name.span_range), ("type", &c.r#type.span_range)];
            k.extend(c.settings.iter().map(|n| ("settings", &n.span_range)));
            r.inside("column", &c.span_range, &k);
            if let Some(s) = &c.settings {
              r.attrs(&s.span_range, &s.attributes, &s.refs);
            }
          }
          if let Some(ib) = &t.indexes {
            let k: Vec<_> = ib.defs.iter().map(|d| ("definition", &d.span_range)).collect();
            r.inside("indexes", &ib.span_range, &k);
            for d in &ib.defs {
              let mut k: Vec<_> = d
                .cols
                .iter()
                .map(|c| match c {
                  IndexesColumnType::String(i) => ("column", &i.span_range),
                  IndexesColumnType::Expr(l) => ("expression", &l.span_range),
                })
                .collect();
              k.extend(d.settings.iter().map(|n| ("settings", &n.span_range)));
              r.inside("index definition", &d.span_range, &k);
              if let Some(s) = &d.settings {
                r.attrs(&s.span_range, &s.attributes, &[]);
              }
            }
          }
        }
        TopLevelBlock::TableGroup(g) => {
          tops.push(("group", &g.span_range));
          let mut k = vec![("name", &g.ident.span_range)];
          k.extend(g.settings.iter().map(|n| ("settings", &n.span_range)));
          k.extend(g.items.iter().map(|n| ("item", &n.span_range)));
          k.extend(g.note.iter().map(|n| ("note", &n.span_range)));
          r.inside("group", &g.span_range, &k);
          for i in &g.items {
            let mut k = vec![("name", &i.ident_alias.span_range)];
            k.extend(i.schema.iter().map(|n| ("schema", &n.span_range)));
            r.inside("group item", &i.span_range, &k);
          }
          if let Some(s) = &g.settings {
            r.attrs(&s.span_range, &s.attributes, &[]);
          }
        }
        TopLevelBlock::Note(n) => {
          tops.push(("note", &n.span_range));
          r.inside("note", &n.span_range, &[("value", &n.value.span_range)]);
        }
        TopLevelBlock::Ref(x) => {
          tops.push(("ref", &x.span_range));
          let mut k = vec![("left", &x.lhs.span_range), ("right", &x.rhs.span_range)];
          k.extend(x.settings.iter().map(|n| ("settings", &n.span_range)));
          r.inside("ref", &x.span_range, &k);
          r.endpoint(&x.lhs);
          r.endpoint(&x.rhs);
          if let Some(s) = &x.settings {
            r.attrs(&s.span_range, &s.attributes, &[]);
          }
        }
        TopLevelBlock::Enum(e) => {
          tops.push(("enum", &e.span_range));
          let mut k = vec![("name", &e.ident.span_range)];
          k.extend(e.values.iter().map(|n| ("value", &n.span_range)));
          r.inside("enum", &e.span_range, &k);
          for v in &e.values {
            let mut k = vec![("name", &v.value.span_range)];
            k.extend(v.settings.iter().map(|n| ("settings", &n.span_range)));
            r.inside("enum value", &v.span_range, &k);
            if let Some(s) = &v.settings {
              r.attrs(&s.span_range, &s.attributes, &[]);
            }
          }
        }
      }
    }
    r.inside("document", &s.span_range, &tops);
    r.bad
  });
  match r {
    Out::Ok(None) => Ok(()),
    Out::Ok(Some(m)) => fail("ranges inconsistent", m, text),
    _ => Ok(()),
  }
}

fn c07(c: &mut Ctx) -> Res {
  let mut d = gensyn::doc(&mut c.src, Focus::All);
  let st = Style::random(&mut c.src);
  let text = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &text);
  labels(c, &d);
  if !text.is_ascii() {
    c.label("not ASCII");
  }
  if st.comments {
    c.label("comments");
  }
  c.input(&text, d.blocks.len() + n_members(&d) >= 2);
  compare(&d, &text, facts::SPAN)?;
  ranges(&text)
}

pub static PROPS: &[&Prop] = &[
  &Prop { id: "C02", hangs: false, rule: "well-formed documents of all block kinds with arbitrary names and contents in random layouts, generated as a model and written out; non-trivial: at least three blocks and members", quick: 900_000, thorough: 6_000_000, case: c02, assumptions: &[] },
  &Prop { id: "C03", hangs: false, rule: "as C02 with many settings (known, near-miss and unknown keys, all value kinds), one in eight with an unsupported action or index type; non-trivial: at least one attribute", quick: 900_000, thorough: 6_000_000, case: c03, assumptions: &[] },
  &Prop { id: "C04", hangs: false, rule: "as C02 with adversarial names and literal values, one in sixteen with an integer beyond 64 bits; non-trivial: at least two blocks or members", quick: 900_000, thorough: 6_000_000, case: c04, assumptions: &[] },
  &Prop { id: "C05", hangs: false, rule: "as C02 with many relationships in short, block and inline form; non-trivial: at least one relationship", quick: 900_000, thorough: 6_000_000, case: c05, assumptions: &[] },
  &Prop { id: "C06", hangs: false, rule: "as C02 with many column types, one in sixteen with a dimension beyond 32 bits; non-trivial: a type with arguments, dimensions, quotes or a schema", quick: 900_000, thorough: 6_000_000, case: c06, assumptions: &[] },
  &Prop { id: "C07", hangs: false, rule: "as C02; all ranges compared with those the writer recorded, and containment, disjointness and raw text checked on the result; non-trivial: at least two blocks or members", quick: 900_000, thorough: 6_000_000, case: c07, assumptions: &[] },
];
