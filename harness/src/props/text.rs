//! C01, C08, C09, C10: texts, layouts, damage and composition.

use crate::engine::{fail, fail_after, Ctx, Prop, Res};
use crate::facts::{self, diff, path_shape, Fact, V};
use crate::gensem;
use crate::gensyn::{self, Focus};
use crate::model::*;
use crate::real::{self, Out, RealErr};
use crate::refparse;
use crate::tape::Src;
use crate::textgen;
use crate::writer::{self, Style};

use super::semantic::any_doc;
use super::syntax::self_check;

// ------------------------------------------------------------------------------------------ C01

/// A document of many blocks, or with a very long part.
fn large(s: &mut Src) -> Doc {
  let mut d = gensem::valid(s, 3);
  match s.below(5) {
    0 => {
      let n = s.range(50, 400);
      for i in 0..n {
        let mut b = gensyn::block(s, Focus::All, 4);
        if let Block::Table(t) = &mut b {
          t.name = Name::new(&format!("table_{i}"));
        }
        d.blocks.push(b);
      }
    }
    1 => {
      let n = s.range(20, 120);
      let cols = (0..n).map(|i| TItem::Col(Col { name: Name::new(&format!("c{i}")), ty: Ty { name: "int".into(), ..Ty::default() }, ..Col::default() })).collect();
      d.blocks.push(Block::Table(Table { name: Name::new("wide"), items: cols, ..Table::default() }));
      for _ in 0..n / 2 {
        gensem::add_relation(s, &mut d);
      }
    }
    2 => {
      let n = s.range(1000, 60000);
      let text = s.pick(&["x", "\u{1F600}", "a ", "\u{e9}"]).repeat(n);
      d.blocks.push(Block::Note(Note { lit: Lit::str(&text), block: false, sp: (0, 0) }));
      d.blocks.push(Block::Enum(Enum { name: Name { text: text.clone(), quoted: true, sp: (0, 0) }, ..Enum::default() }));
    }
    3 => {
      let n = s.range(100, 3000);
      let dims = (0..n).map(|_| None).collect();
      let ty = Ty { name: "int".into(), arrays: dims, args: Some((0..n as i64).map(Lit::int).collect()), ..Ty::default() };
      d.blocks.push(Block::Table(Table { name: Name::new("deep"), items: vec![TItem::Col(Col { name: Name::new("a"), ty, ..Col::default() })], ..Table::default() }));
    }
    _ => {
      let n = s.range(100, 2000);
      let e = Endpoint { table: Name::new("t"), cols: (0..n).map(|i| Name::new(&format!("c{i}"))).collect(), paren: true, ..Endpoint::default() };
      let st = Settings { items: (0..n).map(|i| SetItem::Attr(Attr::new(&format!("k{i}"), Some(Lit::int(i as i64))))).collect(), sp: (0, 0) };
      d.blocks.push(Block::Ref(RefB { name: None, block: true, lhs: e.clone(), rel: Rel::M2M, rhs: e, settings: Some(st), sp: (0, 0), decl_sp: (0, 0) }));
    }
  }
  d
}

/// Any text at all.
fn any_text(c: &mut Ctx) -> String {
  let k = c.src.weighted(&[60, 60, 110, 40, 30, 20, 1]);
  let style = |s: &mut Src| if s.chance(1, 2) { Style::PRETTY } else { Style::random(s) };
  match k {
    0 => {
      c.label("well-formed, arbitrary");
      let mut d = gensyn::doc(&mut c.src, Focus::All);
      if c.src.chance(2, 3) {
        d.blocks.retain(|b| !matches!(b, Block::Project(_)));
        d.blocks.push(Block::Project(Project { name: Name::new("p"), ..Project::default() }));
      }
      let st = style(&mut c.src);
      writer::write(&mut d, &mut c.src, st)
    }
    1 => {
      c.label("well-formed, meaningful");
      let mut d = any_doc(c);
      if c.src.chance(1, 4) {
        super::meta::entangle(&mut c.src, &mut d);
      }
      let st = style(&mut c.src);
      writer::write(&mut d, &mut c.src, st)
    }
    2 => {
      c.label("damaged document");
      let mut d = if c.src.chance(1, 2) { gensyn::doc(&mut c.src, Focus::All) } else { any_doc(c) };
      let st = style(&mut c.src);
      let (mut t, starts) = writer::write_tokens(&mut d, &mut c.src, st);
      let n = 1 + c.src.weighted(&[6, 2, 1, 1]);
      for i in 0..n {
        let st: &[usize] = if i == 0 { &starts } else { &[] };
        t = textgen::mutate(&mut c.src, &t, st).0;
      }
      t
    }
    3 => {
      c.label("frame with token soup");
      textgen::framed(&mut c.src)
    }
    4 => {
      c.label("token soup");
      textgen::soup(&mut c.src)
    }
    5 => {
      c.label("random text");
      textgen::unicode(&mut c.src)
    }
    _ => {
      c.label("large document");
      let mut d = large(&mut c.src);
      writer::write(&mut d, &mut c.src, Style::PRETTY)
    }
  }
}

/// Where an error says it is must be a place of the text.
fn error_inside(e: &RealErr, text: &str) -> Result<(), String> {
  if e.start > e.end || e.end > text.len() || !text.is_char_boundary(e.start) || !text.is_char_boundary(e.end) {
    return Err(format!("error location {}..{} is not a range of the text of {} bytes", e.start, e.end, text.len()));
  }
  if e.display.is_empty() {
    return Err("the error displays as nothing".into());
  }
  let lc = |at: usize| {
    let before = &text[..at];
    // lines end with \n, \r\n or \r; what matters is that the numbers are possible
    (before.lines().count().max(1) + before.matches('\r').count() + 2, before.chars().count() + 2)
  };
  for (at, (l, c)) in [(e.start, e.line_col.0), (e.end, e.line_col.1)] {
    let max = lc(at);
    if l == 0 || c == 0 || l > max.0 || c > max.1 {
      return Err(format!("line {l}, column {c} is not in the text before {at}"));
    }
  }
  Ok(())
}

/// A document that touches every kind of declaration, and one that breaks a rule.
const CANARIES: &[&str] = &[
  "Project p { database_type: 'x' Note: 'n' }\nTable s.t as T [headercolor: #fff] { id int [pk, note: 'k'] a \"varchar(9)\" [default: 'v', ref: > u.id] indexes { (id, a) [unique, type: btree] `x` } Note { 'z' } }\nTable u { id int [pk] e s.k }\nEnum s.k { p q [note: 'r'] }\nRef r { u.id - T.id } \nTableGroup g { u T }\nNote n { 'w' }",
  "Project p { }\nTable t { id int [pk] }\nTable u { a nothing }\nRef: t.id > u.a",
  "Table t { id int",
];

/// The answers to the canaries, once and for all: no text parsed since may have changed them.
fn canaries() -> String {
  let show = |s: &dbml_rs::ast::SchemaBlock| format!("{s:?}");
  CANARIES.iter().map(|t| format!("{:?}\n{:?}\n", real::unchecked(t, show), real::checked(t, show))).collect()
}

static FIRST: std::sync::OnceLock<String> = std::sync::OnceLock::new();

fn c01(c: &mut Ctx) -> Res {
  let first = FIRST.get_or_init(canaries);
  let text = any_text(c);
  c.input(&text, text.chars().any(|x| !x.is_whitespace()));
  let big = text.len() > 20_000;
  let show = |s: &dbml_rs::ast::SchemaBlock| {
    if big {
      format!("{:?}", facts::of_ast(s).len())
    } else {
      format!("{s:?}")
    }
  };
  let u = real::unchecked(&text, show);
  let k = real::checked(&text, show);
  for (name, o) in [("parse_dbml_unchecked", &u), ("parse_dbml", &k)] {
    match o {
      Out::Panic(p) => return fail(format!("{name} panics"), p.clone(), text),
      Out::Err(e) => {
        if let Err(m) = error_inside(e, &text) {
          return fail(format!("{name}: error location"), m, text);
        }
      }
      Out::Ok(_) => (),
    }
  }
  match (&u, &k) {
    (Out::Ok(a), Out::Ok(b)) => {
      c.label("accepted by both");
      if a != b {
        return fail("checked and unchecked documents differ", format!("unchecked: {a}\nchecked:   {b}"), text);
      }
    }
    (Out::Ok(_), Out::Err(e)) => {
      c.label("rejected by the check");
      if e.msg.is_none() {
        return fail("checked parse reports a syntax error on well-formed text", e.display.clone(), text);
      }
    }
    (Out::Err(a), Out::Err(b)) => {
      c.label("rejected by both");
      if a != b {
        return fail("checked and unchecked errors differ", format!("unchecked: {a:?}\nchecked:   {b:?}"), text);
      }
    }
    _ => return fail("checked parse accepts what the unchecked parse rejects", format!("unchecked: {}", u.describe()), text),
  }
  // the same again
  let u2 = real::unchecked(&text, show);
  let k2 = real::checked(&text, show);
  for (name, a, b) in [("parse_dbml_unchecked", &u, &u2), ("parse_dbml", &k, &k2)] {
    let same = match (a, b) {
      (Out::Ok(a), Out::Ok(b)) => a == b,
      (Out::Err(a), Out::Err(b)) => a == b,
      _ => false,
    };
    if !same {
      return fail(format!("{name}: second answer differs"), format!("first: {}\nsecond: {}", a.describe(), b.describe()), text);
    }
  }
  if c.idx % 16 == 0 {
    c.label("canaries parsed again");
    let now = canaries();
    if now != *first {
      return fail_after("the answer to a fixed document changed over time", format!("first in this process:\n{first}\nnow:\n{now}"), CANARIES.join("\n=====\n"));
    }
  }
  Ok(())
}

// ------------------------------------------------------------------------------------------ C08

fn c08(c: &mut Ctx) -> Res {
  let mut d = if c.src.chance(1, 2) { gensyn::doc(&mut c.src, Focus::All) } else { any_doc(c) };
  let wild = |s: &mut Src| Style { kind: writer::Kind::Wild, comments: s.chance(3, 4), kwcase: s.chance(3, 4) };
  let st = match c.src.weighted(&[3, 1, 2]) {
    0 => Style::PRETTY,
    1 => Style { kind: writer::Kind::Compact, comments: false, kwcase: false },
    _ => wild(&mut c.src),
  };
  let a = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &a);
  let st = match c.src.weighted(&[4, 1]) {
    0 => wild(&mut c.src),
    _ => Style { kind: writer::Kind::Compact, comments: false, kwcase: true },
  };
  let b = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &b);
  if st.comments {
    c.label("comments");
  }
  if st.kwcase {
    c.label("keyword case");
  }
  c.input(&format!("{a}\n=====\n{b}"), !d.blocks.is_empty() && a != b);
  let both = format!("{a}\n===== other layout =====\n{b}");
  let cats = facts::STRUCT | facts::SET | facts::LIT | facts::REF | facts::TYP;
  let read = |t: &str| {
    real::unchecked(t, |s| {
      let mut f = facts::of_ast(s);
      f.retain(|x| x.path != "doc.input" && x.cats & facts::RAWTYPE == 0 && !matches!(x.v, V::Sp(..)));
      f
    })
  };
  match (read(&a), read(&b)) {
    (Out::Ok(x), Out::Ok(y)) => {
      if let Some((p, e, g)) = diff(&x, &y, cats, &a) {
        return fail(format!("layouts read differently at {}", path_shape(&p)), format!("at {p}: {e}, in the other layout {g}"), both);
      }
    }
    (x, y) => return fail("a layout of a well-formed document is not parsed", format!("{}; other layout: {}", x.describe(), y.describe()), both),
  }
  let (x, y) = (real::checked(&a, |_| ()), real::checked(&b, |_| ()));
  c.label(if x.accepted() { "accepted" } else { "rejected" });
  if x.accepted() != y.accepted() || matches!(x, Out::Panic(_)) || matches!(y, Out::Panic(_)) {
    return fail("layouts checked differently", format!("{}; other layout: {}", x.describe(), y.describe()), both);
  }
  Ok(())
}

// ------------------------------------------------------------------------------------------ C09

fn c09(c: &mut Ctx) -> Res {
  let text = match c.src.weighted(&[12, 4, 1, 1]) {
    0 => {
      let mut d = if c.src.chance(3, 4) { gensyn::doc(&mut c.src, Focus::All) } else { gensem::valid(&mut c.src, 1) };
      if c.src.chance(1, 2) {
        d.blocks.truncate(2);
      }
      let st = Style::random(&mut c.src);
      let (t, starts) = writer::write_tokens(&mut d, &mut c.src, st);
      let (mut t, l) = textgen::mutate(&mut c.src, &t, &starts);
      c.label(l);
      for _ in 0..c.src.weighted(&[6, 2, 1]) {
        t = textgen::mutate(&mut c.src, &t, &[]).0;
        c.label("several changes");
      }
      t
    }
    1 => {
      c.label("frame with token soup");
      textgen::framed(&mut c.src)
    }
    2 => {
      c.label("token soup");
      textgen::soup(&mut c.src)
    }
    _ => {
      c.label("random text");
      textgen::unicode(&mut c.src)
    }
  };
  c.input(&text, text.chars().filter(|x| !x.is_whitespace()).count() >= 2);
  let exp = refparse::parse(&text);
  let got = real::unchecked(&text, facts::of_ast);
  match (&exp, got) {
    (_, Out::Panic(p)) => fail("panics", p, text),
    (Ok(d), Out::Ok(f)) => {
      c.label("accepted");
      let m = facts::of_model(d, &text);
      match diff(&m, &f, !0, &text) {
        None => Ok(()),
        Some((p, e, g)) => fail(format!("misread at {}", path_shape(&p)), format!("at {p}: written {e}, reported {g}"), text),
      }
    }
    (Err(r), Out::Err(_)) => {
      c.label(match r {
        refparse::Reject::Syntax => "not in the grammar",
        refparse::Reject::Value(..) => "value does not fit",
      });
      Ok(())
    }
    (Ok(_), Out::Err(e)) => fail("document of the grammar rejected", e.display, text),
    (Err(refparse::Reject::Syntax), Out::Ok(_)) => fail("malformed text accepted", "not a document of the grammar, but parsed", text),
    (Err(refparse::Reject::Value(w, sp)), Out::Ok(_)) => fail("value that does not fit accepted", format!("{w}: {:?}", &text[sp.0..sp.1]), text),
  }
}

// ------------------------------------------------------------------------------------------ C10

fn shifted(f: &[Fact], by: usize) -> Vec<Fact> {
  f.iter()
    .map(|x| {
      let v = match &x.v {
        V::Sp(a, b, _) => V::Sp(a + by, b + by, true),
        v => v.clone(),
      };
      Fact { path: x.path.clone(), cats: x.cats, v }
    })
    .collect()
}

fn c10(c: &mut Ctx) -> Res {
  let gen = |c: &mut Ctx| {
    let mut d = match c.src.weighted(&[3, 1]) {
      0 => gensyn::doc(&mut c.src, Focus::All),
      _ => gensem::valid(&mut c.src, 1),
    };
    d.blocks.truncate(8);
    d
  };
  let (mut da, mut db) = (gen(c), gen(c));
  if c.src.chance(1, 6) {
    // the same names again, with other contents
    let mut more: Vec<Block> = da.blocks.iter().take(2).cloned().collect();
    for b in &mut more {
      if let Block::Table(t) = b {
        t.items.truncate(1);
      }
    }
    db.blocks.extend(more);
  }
  let sa = Style::random(&mut c.src);
  let a = writer::write(&mut da, &mut c.src, sa);
  let sb = Style::random(&mut c.src);
  let b = writer::write(&mut db, &mut c.src, sb);
  self_check(&da, &a);
  self_check(&db, &b);
  let sep = *c.src.pick(&["\n", "\r\n", "\n\n", "\n// next\n", "\r"]);
  let whole = format!("{a}{sep}{b}");
  let off = a.len() + sep.len();
  c.input(&whole, !da.blocks.is_empty() && !db.blocks.is_empty());
  let blocks = |t: &str| real::unchecked(t, |s| facts::of_ast_blocks(s));
  let (fa, fb, fw) = match (blocks(&a), blocks(&b), blocks(&whole)) {
    (Out::Ok(x), Out::Ok(y), Out::Ok(z)) => (x, y, z),
    (x, y, z) => return fail("a part or the whole is not parsed", format!("first: {}; second: {}; both: {}", x.describe(), y.describe(), z.describe()), whole),
  };
  if fa.len() + fb.len() != fw.len() {
    return fail("number of blocks", format!("{} and {} blocks, together {}", fa.len(), fb.len(), fw.len()), whole);
  }
  for (i, got) in fw.iter().enumerate() {
    let exp = if i < fa.len() { shifted(&fa[i], 0) } else { shifted(&fb[i - fa.len()], off) };
    if let Some((p, e, g)) = diff(&exp, got, !0, &whole) {
      return fail(format!("whole differs from parts at {}", path_shape(&p)), format!("block {i} at {p}: alone {e}, together {g}"), whole);
    }
  }
  // single blocks of the second document
  for (i, blk) in db.blocks.iter().enumerate() {
    let sp = blk.span();
    let alone = &b[sp.0..sp.1];
    match blocks(alone) {
      Out::Ok(f) if f.len() == 1 => {
        if let Some((p, e, g)) = diff(&shifted(&f[0], sp.0), &fb[i], !0, &b) {
          return fail(format!("block differs from the block alone at {}", path_shape(&p)), format!("block {i} at {p}: alone {e}, in the document {g}"), b);
        }
      }
      o => return fail("a block alone is not parsed as one block", format!("block {i} ({alone:?}): {}", o.describe()), b),
    }
  }
  Ok(())
}

pub static PROPS: &[&Prop] = &[
  &Prop { id: "C01", hangs: true, rule: "well-formed arbitrary, meaningful (valid and invalid), damaged and large documents, frames filled with token soup, token soup and random Unicode; each is parsed twice by both entry points; non-trivial: contains anything but white space", quick: 600_000, thorough: 12_000_000, case: c01, assumptions: &["an answer that takes more than 150 s counts as none"] },
  &Prop { id: "C08", hangs: false, rule: "one document model written in two random layouts (white space of all kinds, line and block comments with syntax-like content, keyword case); both must be read as the same document and get the same verdict; non-trivial: at least one block and different texts", quick: 250_000, thorough: 6_000_000, case: c08, assumptions: &[] },
  &Prop { id: "C09", hangs: false, rule: "written documents with one or more tokens or characters deleted, repeated, inserted, replaced, swapped or cut off, frames filled with token soup, and random text; verdict and reading are compared with an independent parser; non-trivial: at least two characters that are not white space", quick: 2_500_000, thorough: 20_000_000, case: c09, assumptions: &["the independent parser in refparse.rs states the grammar"] },
  &Prop { id: "C10", hangs: false, rule: "two documents written in random layouts, parsed alone and one after the other, and every block of the second alone; non-trivial: both have blocks", quick: 250_000, thorough: 6_000_000, case: c10, assumptions: &[] },
];
