//! C26 and C27: accessors and vocabulary.

use std::str::FromStr;

use dbml_rs::ast::*;

use crate::engine::{fail, guarded, Ctx, Prop, Res};
use crate::gensyn::{self, Focus};
use crate::real::{self, Out};
use crate::sem;
use crate::tape::Src;
use crate::writer::{self, Style};

// ------------------------------------------------------------------------------------------ C26

fn accessors(s: &SchemaBlock) -> Result<(), String> {
  fn same<T>(what: &str, got: Vec<&T>, want: Vec<&T>) -> Result<(), String> {
    if got.len() != want.len() {
      return Err(format!("{what}: {} blocks of this kind, {} reported", want.len(), got.len()));
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
      if !std::ptr::eq(*a, *b) {
        return Err(format!("{what}: entry {i} is not the {i}th block of its kind"));
      }
    }
    Ok(())
  }
  let count = s.projects().len() + s.tables().len() + s.table_groups().len() + s.refs().len() + s.enums().len();
  let notes = s.blocks.iter().filter(|b| matches!(b, TopLevelBlock::Note(_))).count();
  if count + notes != s.blocks.len() {
    return Err(format!("{} blocks, of which {notes} notes, but {count} reported", s.blocks.len()));
  }
  macro_rules! check {
    ($name:literal, $f:ident, $v:ident) => {
      same($name, s.$f(), s.blocks.iter().filter_map(|b| if let TopLevelBlock::$v(x) = b { Some(x) } else { None }).collect())?;
    };
  }
  check!("projects", projects, Project);
  check!("tables", tables, Table);
  check!("table_groups", table_groups, TableGroup);
  check!("refs", refs, Ref);
  check!("enums", enums, Enum);
  Ok(())
}

fn odd_ident(s: &mut Src) -> Ident {
  let name = match s.below(3) {
    0 => s.pick(&["", "_", "a", "public", "1", "-"]).to_string(),
    1 => format!("n{}", s.below(3)),
    _ => gensyn::tricky(s),
  };
  let raw = if s.chance(1, 3) { format!("\"{name}\"") } else { name.clone() };
  Ident { span_range: odd_span(s), raw: if s.chance(1, 8) { String::new() } else { raw }, to_string: if s.chance(1, 8) { String::new() } else { name } }
}

fn odd_span(s: &mut Src) -> std::ops::Range<usize> {
  let a = *s.pick(&[0usize, 0, 1, 2, 5, 100, usize::MAX / 2, usize::MAX]);
  let b = *s.pick(&[0usize, 0, 1, 3, 7, 100, usize::MAX]);
  a..b
}

/// A program that uses the library builds and edits documents of its own: blocks from one or two
/// parsed documents, some with their fields changed, in any order and number.
fn edited(src: &mut Src) -> (Vec<TopLevelBlock>, String) {
  let mut pool: Vec<TopLevelBlock> = vec![];
  let mut desc = String::new();
  let n = src.range(1, 2);
  for _ in 0..n {
    let mut d = gensyn::doc(src, Focus::All);
    let text = writer::write(&mut d, src, Style::PRETTY);
    if let Out::Ok(b) = real::unchecked(&text, |s| s.blocks.clone()) {
      pool.extend(b);
    }
    desc.push_str(&text);
    desc.push_str("\n----\n");
  }
  src.shuffle(&mut pool);
  pool.truncate(src.size(8, 40));
  for b in pool.iter_mut() {
    if !src.chance(1, 2) {
      continue;
    }
    match b {
      TopLevelBlock::Project(p) => {
        p.ident = odd_ident(src);
        p.span_range = odd_span(src);
        if src.chance(1, 3) {
          p.properties.clear();
          p.note = None;
        }
      }
      TopLevelBlock::Table(t) => {
        t.ident.name = odd_ident(src);
        t.span_range = odd_span(src);
        match src.below(4) {
          0 => t.cols.clear(),
          1 => t.indexes = None,
          2 => t.ident.schema = Some(odd_ident(src)),
          _ => t.ident.alias = Some(odd_ident(src)),
        }
      }
      TopLevelBlock::TableGroup(g) => {
        g.ident = odd_ident(src);
        g.span_range = odd_span(src);
        if src.chance(1, 3) {
          g.items.clear();
        }
      }
      TopLevelBlock::Note(n) => n.span_range = odd_span(src),
      TopLevelBlock::Ref(r) => {
        r.span_range = odd_span(src);
        if src.chance(1, 3) {
          r.rel = src.pick(&[Relation::Undef, Relation::One2One, Relation::Many2Many]).clone();
        }
        if src.chance(1, 3) {
          r.lhs = RefIdent::default();
        }
      }
      TopLevelBlock::Enum(e) => {
        e.ident.name = odd_ident(src);
        e.span_range = odd_span(src);
        if src.chance(1, 3) {
          e.values.clear();
        }
      }
    }
  }
  desc.push_str(&format!("{pool:?}"));
  (pool, desc)
}

fn assembled(src: &mut Src) -> (Vec<TopLevelBlock>, String) {
  let n = src.size(8, 60);
  let mut v: Vec<TopLevelBlock> = vec![];
  let mut desc = String::new();
  for _ in 0..n {
    let k = src.below(7);
    if k == 6 && !v.is_empty() {
      let i = src.idx(v.len());
      let b: TopLevelBlock = v[i].clone();
      v.push(b);
      desc.push_str(&format!("same as {i}\n"));
      continue;
    }
    let id = odd_ident(src);
    let (b, name) = match k {
      0 => (TopLevelBlock::Table(TableBlock { ident: TableIdent { name: id, ..TableIdent::default() }, ..TableBlock::default() }), "table"),
      1 => (TopLevelBlock::Project(ProjectBlock { ident: id, ..ProjectBlock::default() }), "project"),
      2 => (TopLevelBlock::Enum(EnumBlock { span_range: odd_span(src), ident: EnumIdent { name: id, ..EnumIdent::default() }, values: vec![EnumValue::default(); src.idx(3)] }), "enum"),
      3 => (TopLevelBlock::Ref(RefBlock { span_range: odd_span(src), ..RefBlock::default() }), "ref"),
      4 => (TopLevelBlock::TableGroup(TableGroupBlock { span_range: odd_span(src), ident: id, ..TableGroupBlock::default() }), "group"),
      _ => (TopLevelBlock::Note(NoteBlock { span_range: 0..0, value: Literal { span_range: 0..0, raw: String::new(), value: Value::Null } }), "note"),
    };
    desc.push_str(name);
    desc.push('\n');
    v.push(b);
  }
  (v, desc)
}

fn c26(c: &mut Ctx) -> Res {
  if c.src.chance(1, 2) {
    let (blocks, desc) = if c.src.chance(1, 4) {
      c.label("edited");
      edited(&mut c.src)
    } else {
      c.label("assembled");
      assembled(&mut c.src)
    };
    c.input(&format!("assembled from:\n{desc}"), blocks.len() >= 2);
    let input: &str = c.src.pick(&["", "", "x", "Project p {}", "Table t {}\n"]);
    let s = SchemaBlock { span_range: odd_span(&mut c.src), input, blocks };
    return match guarded(|| accessors(&s)) {
      Ok(Ok(())) => Ok(()),
      Ok(Err(m)) | Err(m) => fail("accessor of an assembled document", m, desc),
    };
  }
  c.label("parsed");
  let mut d = gensyn::doc(&mut c.src, Focus::All);
  let extra = c.src.size(6, 30);
  for _ in 0..extra {
    let b = gensyn::block(&mut c.src, Focus::All, 2);
    d.blocks.push(b);
  }
  let text = writer::write(&mut d, &mut c.src, Style::PRETTY);
  c.input(&text, d.blocks.len() >= 2);
  match real::unchecked(&text, accessors) {
    Out::Ok(Ok(())) => Ok(()),
    Out::Ok(Err(m)) => fail("accessor of a parsed document", m, text),
    o => fail("well-formed document not parsed", o.describe(), text),
  }
}

// ------------------------------------------------------------------------------------------ C27

/// Every word, with its group and the debug name of its meaning.
fn vocabulary() -> Vec<(&'static str, &'static str, &'static str)> {
  let mut v: Vec<(&'static str, &'static str, &'static str)> = vec![];
  let names: &[(&str, &str)] = &[
    ("bit", "Bit"),
    ("varbit", "Varbit"),
    ("char", "Char"),
    ("varchar", "VarChar"),
    ("box", "Box"),
    ("cidr", "Cidr"),
    ("circle", "Circle"),
    ("inet", "Inet"),
    ("line", "Line"),
    ("lseg", "LineSegment"),
    ("macaddr", "MacAddr"),
    ("macaddr8", "MacAddr8"),
    ("money", "Money"),
    ("path", "Path"),
    ("pg_lsn", "PGLongSequenceNumber"),
    ("pg_snapshot", "PGSnapshot"),
    ("point", "Point"),
    ("polygon", "Polygon"),
    ("tsquery", "TSQuery"),
    ("tsvector", "TSVector"),
    ("smallserial", "SmallSerial"),
    ("serial", "Serial"),
    ("bigserial", "BigSerial"),
    ("smallint", "SmallInt"),
    ("integer", "Integer"),
    ("bigint", "BigInt"),
    ("real", "Real"),
    ("double precision", "DoublePrecision"),
    ("bool", "Bool"),
    ("bytea", "ByteArray"),
    ("date", "Date"),
    ("text", "Text"),
    ("time", "Time"),
    ("timetz", "Timetz"),
    ("timestamp", "Timestamp"),
    ("timestamptz", "Timestamptz"),
    ("uuid", "Uuid"),
    ("json", "Json"),
    ("jsonb", "Jsonb"),
    ("decimal", "Decimal"),
    ("xml", "Xml"),
  ];
  for l in sem::BUILTIN {
    let n = names.iter().find(|n| n.0 == l[0]).expect("type").1;
    v.extend(l.iter().map(|w| (*w, "type", n)));
  }
  for (w, n) in [("<", "One2Many"), (">", "Many2One"), ("-", "One2One"), ("<>", "Many2Many")] {
    v.push((w, "relation", n));
  }
  for (w, n) in [("no action", "NoAction"), ("cascade", "Cascade"), ("restrict", "Restrict"), ("set null", "SetNull"), ("set default", "SetDefault")] {
    v.push((w, "action", n));
  }
  for (w, n) in [("btree", "BTree"), ("gin", "Gin"), ("gist", "Gist"), ("hash", "Hash")] {
    v.push((w, "index type", n));
  }
  v.push(("PostgreSQL", "database", "PostgreSQL"));
  for (w, n) in [("true", "Bool(true)"), ("false", "Bool(false)"), ("null", "Null")] {
    v.push((w, "constant", n));
  }
  v
}

fn near_word(s: &mut Src, w: &str) -> String {
  let chars: Vec<char> = w.chars().collect();
  let pos = |s: &mut Src| s.range(0, chars.len());
  match s.below(12) {
    0 => w.to_string(),
    1 => w.to_uppercase(),
    2 => {
      let i = pos(s);
      chars.iter().enumerate().map(|(j, c)| if j == i { c.to_ascii_uppercase() } else { *c }).collect()
    }
    3 => format!("{w}{}", s.pick(&[" ", "\n", "s", "0", "()", "(1)", "[]", "\0", ".", "\u{a0}", "8", "4", "2"])),
    4 => format!("{}{w}", s.pick(&[" ", "\t", "x", "_", "public.", "\u{feff}", "pg_"])),
    5 => {
      let i = pos(s);
      chars.iter().enumerate().filter(|(j, _)| *j != i).map(|x| *x.1).collect()
    }
    6 => {
      let i = pos(s);
      let mut c = chars.clone();
      c.insert(i, *s.pick(&[' ', '_', 'e', '-', '>']));
      c.into_iter().collect()
    }
    7 => w.replace(' ', "  "),
    8 => w.replace(' ', "_"),
    9 => w.replace(' ', ""),
    10 => {
      let mut c = chars.clone();
      if c.len() > 1 {
        let i = s.idx(c.len() - 1);
        c.swap(i, i + 1);
      }
      c.into_iter().collect()
    }
    _ => w.replace(' ', "\t"),
  }
}

const LETTERS: &str = " abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.()[]<>='\"`#\t\n\0\u{a0}\u{212a}\u{131}\u{17f}";

/// Words of other dialects and habits.
const FOREIGN: &[&str] = &[
  "dec", "float", "float8 ", "float4()", "float16", "double", "double_precision", "datetime", "datetime2", "tinyint", "mediumint", "int1", "int3", "int16", "uint", "number", "numerical", "string", "nvarchar", "nchar", "varchar2", "ntext", "clob", "blob", "binary", "varbinary", "bytes", "long", "short", "byte", "boolean ", "logical", "year", "interval", "timestamp with timezone", "timestamp with local time zone", "time with timezone", "character varying(1)", "char varying", "bitvarying", "national character", "serial1", "serial16", "guid", "uniqueidentifier", "name", "oid", "regclass", "hstore", "xmltype", "jsonpath", "json5", "polyline", "geometry", "pg_snapshots", "txid_snapshot", "set", "enum", "array", "null ", "NULL", "True", "FALSE", "yes", "no", "on", "off", "none", "nil", "undefined", "0", "1", "t", "f", "B-tree", "b-tree", "rtree", "brin", "spgist", "sp-gist", "bitmap", "fulltext", "primary", "set-null", "set_null", "setnull", "setdefault", "noaction", "no_action", "NO ACTION", "none", "delete", "ignore", "PostgreSQL", "postgresql", "Postgres", "postgres", "PostgresSQL", "POSTGRESQL", "PostgreSQL 14", "pgsql", "MySQL", "MariaDB", "SQLite", "MSSQL", "SQL Server", "Oracle", "=>", "<-", "->", "--", "<<", ">>", "><", "<->", "=", "1-n", "one-to-many", "\u{2013}", "\u{2212}",
];

/// All texts one edit away from a vocabulary word, its beginnings and ends, and foreign words.
fn neighbours() -> Vec<String> {
  let mut v: Vec<String> = FOREIGN.iter().map(|s| s.to_string()).collect();
  for (w, _, _) in vocabulary() {
    let ch: Vec<char> = w.chars().collect();
    let s = |c: &[char]| c.iter().collect::<String>();
    for i in 0..=ch.len() {
      v.push(s(&ch[..i]));
      v.push(s(&ch[i..]));
      for l in LETTERS.chars() {
        v.push(format!("{}{l}{}", s(&ch[..i]), s(&ch[i..])));
        if i < ch.len() {
          v.push(format!("{}{l}{}", s(&ch[..i]), s(&ch[i + 1..])));
        }
      }
      if i < ch.len() {
        v.push(format!("{}{}", s(&ch[..i]), s(&ch[i + 1..])));
        v.push(format!("{}{}{}", s(&ch[..=i]), ch[i], s(&ch[i + 1..])));
      }
    }
    for i in 0..=ch.len() {
      for g in ["__", "--", "  ", "..", "\t\t", " _", "_ ", "%20", "/*", "//", "\r\n", "\\n", "\u{200b}", "''", "\"\"", "::", "<>", " or ", " of "] {
        v.push(format!("{}{g}{}", s(&ch[..i]), s(&ch[i..])));
        if i < ch.len() && !ch[i].is_ascii_alphanumeric() {
          v.push(format!("{}{g}{}", s(&ch[..i]), s(&ch[i + 1..])));
        }
      }
    }
    for (a, b) in [("\"", "\""), ("'", "'"), ("`", "`"), ("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("", "()"), ("", "(1)"), ("", "(1, 2)"), ("", "[]"), ("", "[3]"), ("public.", ""), ("\"public\".", ""), ("pg_catalog.", ""), ("_", ""), ("", "_t"), ("n", ""), ("tiny", ""), ("medium", ""), ("long", ""), ("unsigned ", ""), ("", " unsigned"), ("", " zone"), ("", " without time zone"), ("", " with time zone"), ("", " with local time zone"), ("on ", ""), ("", " on update"), ("array of ", ""), ("", " array")] {
      v.push(format!("{a}{w}{b}"));
    }
    let title = |w: &str| w.split(' ').map(|p| p.char_indices().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>()).collect::<Vec<_>>();
    v.extend([title(w).join(" "), title(w).join(""), title(w).join("_"), w.to_uppercase(), w.to_uppercase().replace(' ', "_"), w.chars().rev().collect()]);
    for (x, _, _) in vocabulary() {
      for g in ["", " ", "_", "-"] {
        v.push(format!("{w}{g}{x}"));
      }
    }
  }
  v.sort();
  v.dedup();
  v
}

static NEAR: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

fn c27(c: &mut Ctx) -> Res {
  let voc = vocabulary();
  let near = NEAR.get_or_init(neighbours);
  // every word comes up early, whatever the seed
  let word = if (c.idx as usize) < voc.len() {
    c.label("exact");
    voc[c.idx as usize].0.to_string()
  } else if let Some(w) = near.get(c.idx as usize - voc.len()) {
    c.label("one edit away, or joined");
    w.clone()
  } else {
    match c.src.weighted(&[8, 1, 1]) {
      0 => {
        let i = c.src.idx(voc.len());
        let mut w = near_word(&mut c.src, voc[i].0);
        while c.src.chance(1, 3) {
          w = near_word(&mut c.src, &w);
        }
        w
      }
      1 => gensyn::tricky(&mut c.src),
      _ => {
        let (i, j) = (c.src.idx(voc.len()), c.src.idx(voc.len()));
        format!("{}{}{}", voc[i].0, c.src.pick(&["", " ", "_"]), voc[j].0)
      }
    }
  };
  let want = |g: &str| voc.iter().find(|x| x.1 == g && x.0 == word).map(|x| x.2.to_string());
  c.label(if voc.iter().any(|x| x.0 == word) { "a word" } else { "not a word" });
  c.input(&word, true);
  let w = word.clone();
  let got = guarded(move || {
    let db = match DatabaseType::from_str(&w) {
      Ok(DatabaseType::Unknown(s)) if s == w => None,
      Ok(x) => Some(format!("{x:?}")),
      Err(e) => Some(format!("error {e}")),
    };
    vec![
      ("type", ColumnTypeName::from_str(&w).ok().map(|x| format!("{x:?}"))),
      ("relation", Relation::from_str(&w).ok().map(|x| format!("{x:?}"))),
      ("action", ReferentialAction::from_str(&w).ok().map(|x| format!("{x:?}"))),
      ("index type", IndexesType::from_str(&w).ok().map(|x| format!("{x:?}"))),
      ("database", db),
      ("constant", Value::from_str(&w).ok().map(|x| format!("{x:?}"))),
    ]
  });
  let got = match got {
    Ok(g) => g,
    Err(p) => return fail("panics", p, word),
  };
  for (g, x) in got {
    if x != want(g) {
      return fail(format!("conversion of a {g} word"), format!("{word:?} as {g}: expected {:?}, got {x:?}", want(g)), word);
    }
  }
  // back to text
  if let Ok(a) = ReferentialAction::from_str(&word) {
    if a.to_string() != word {
      return fail("action back to text", format!("{word:?} becomes {:?}", a.to_string()), word);
    }
  }
  let n = c.src.below(u64::MAX) as i64;
  let d = match c.src.below(3) {
    0 => c.src.below(1000) as f64 / 8.0,
    1 => n as f64,
    _ => c.src.below(u64::MAX) as f64 * 1e-20,
  };
  let vals = [
    (Value::Enum(word.clone()), word.clone()),
    (Value::String(word.clone()), word.clone()),
    (Value::HexColor(word.clone()), word.clone()),
    (Value::Expr(word.clone()), word.clone()),
    (Value::Integer(n), n.to_string()),
    (Value::Bool(true), "true".into()),
    (Value::Bool(false), "false".into()),
    (Value::Null, "null".into()),
  ];
  for (v, t) in vals {
    if v.to_string() != t {
      return fail("value back to text", format!("{v:?} becomes {:?}", v.to_string()), t);
    }
  }
  let t = Value::Decimal(d).to_string();
  if t.parse::<f64>() != Ok(d) || t.contains(['e', 'E', '+', ' ']) {
    return fail("decimal back to text", format!("{d:?} becomes {t:?}"), t);
  }
  Ok(())
}

pub static PROPS: &[&Prop] = &[
  &Prop { id: "C26", hangs: false, rule: "documents assembled from blocks of any kind and number (with repetitions), and parsed documents; non-trivial: at least two blocks", quick: 1_500_000, thorough: 6_000_000, case: c26, assumptions: &[] },
  &Prop { id: "C27", hangs: false, rule: "by case number, whatever the seed: every vocabulary word, every text one character edit away from one, all their beginnings and ends, all pairs of them, and words of other dialects; then random near misses (case, spacing, prefix, suffix, a letter missing, added or swapped), and arbitrary texts; each through every conversion; all values back to text; every case is non-trivial, distinct texts are counted", quick: 3_000_000, thorough: 10_000_000, case: c27, assumptions: &["the documented meanings are those listed in api.rs and sem.rs"] },
];
