//! Well-formed documents with arbitrary content (no regard to the semantic rules).

use crate::gengrow;
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
  All,
  Settings,
  Literals,
  Refs,
  Types,
}

pub const PLAIN: &[&str] = &[
  "id", "a", "users", "posts", "user_id", "b1", "Id", "USERS", "name", "x_", "created_at", "status", "t", "c2", "aVeryLongIdentifierWithManyCharacters_0123456789",
];
const KEYWORDS: &[&str] = &[
  "Table", "table", "Ref", "ref", "Enum", "enum", "Project", "TableGroup", "Note", "note", "Indexes", "indexes", "as", "As", "true", "false", "null", "pk", "default", "public", "type", "unique",
];
const TRICKY: &[&str] = &[
  "", " ", "a b", " lead", "trail ", "a.b", "it's", "// no comment", "/* nor this */", "{", "}", "[pk]", "a\nb", "\n", "tab\there", "caf\u{e9}", "\u{1F600}", "\u{5b57}\u{6bb5}", "`", "'''", ":", ",", "a,b", "(x)", "<>", "0", "9lives", "_x", "-", "\\", "\r\n", "Table t { id int }", "note: 'x'", "\u{a0}nbsp", "\u{feff}", "e\u{301}", "null", "select * from t;",
];

pub fn name(s: &mut Src) -> Name {
  match s.weighted(&[8, 3, 3, 3, 2]) {
    4 => {
      let t = bare(s);
      Name { text: t, quoted: s.chance(1, 4), sp: (0, 0) }
    }
    0 => {
      let t = *s.pick(PLAIN);
      Name { text: t.into(), quoted: false, sp: (0, 0) }
    }
    1 => {
      let t = *s.pick(KEYWORDS);
      Name { text: t.into(), quoted: s.chance(1, 4), sp: (0, 0) }
    }
    2 => {
      let t = *s.pick(PLAIN);
      Name { text: t.into(), quoted: true, sp: (0, 0) }
    }
    _ => Name { text: tricky(s), quoted: true, sp: (0, 0) },
  }
}

const CHARS: &[char] = &[
  ' ', ' ', '\t', '\n', '\r', '\'', '"', '`', '\\', '/', '*', '#', '-', '<', '>', '.', ',', ':', ';', '(', ')', '[', ']', '{', '}', '_', '0', '9', 'a', 'b', 'Z', 'n', 'x', '%', '$', '@', '!', '?', '|', '&', '=', '+', '~', '^', '\u{0}', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{a0}', '\u{e9}', '\u{130}', '\u{df}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{301}', '\u{5b57}', '\u{1F600}',
];

/// Arbitrary text, put together character by character; once in a while long.
pub fn chars(s: &mut Src) -> String {
  let n = match s.below(40) {
    0 => s.range(200, 300),
    1 => s.range(1000, 1100),
    2..=6 => s.range(0, 60),
    _ => s.range(0, 8),
  };
  if n > 60 {
    let unit: String = (0..s.range(1, 3)).map(|_| *s.pick(CHARS)).collect();
    return unit.chars().cycle().take(n).collect();
  }
  (0..n).map(|_| *s.pick(CHARS)).collect()
}

/// A bare name put together character by character.
pub fn bare(s: &mut Src) -> String {
  const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  const B: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_____";
  let n = match s.below(30) {
    0 => s.range(60, 300),
    1..=5 => 0,
    _ => s.range(0, 9),
  };
  let mut t = String::from(*s.pick(A) as char);
  for _ in 0..n {
    t.push(*s.pick(B) as char);
  }
  t
}

/// One to four bare names after each other: a word value, a setting's name, a quoted type.
pub fn spaced(s: &mut Src) -> String {
  let mut t = bare(s);
  for _ in 0..s.weighted(&[4, 3, 2, 1]) {
    t.push(' ');
    t.push_str(&if s.chance(1, 5) { s.pick(&["1", "_", "null", "0x", "9", "true", "_a"]).to_string() } else { bare(s) });
  }
  for w in ["true ", "false ", "null "] {
    if t.starts_with(w) {
      t.insert(0, 'x');
    }
  }
  t
}

fn digits(s: &mut Src, max: u64) -> String {
  let n = s.range(1, 19);
  let mut v = 0u64;
  for _ in 0..n {
    v = v * 10 + s.below(10);
  }
  let zeros = if s.chance(1, 10) { s.range(1, 30) } else { 0 };
  format!("{}{}", "0".repeat(zeros), v % max.saturating_add(1).max(1))
}

fn expr(s: &mut Src) -> String {
  if s.chance(1, 3) {
    let mut t = chars(s);
    t.retain(|c| c != '`');
    return t;
  }
  s.pick(EXPRS).to_string()
}

/// Arbitrary text without double quotes.
pub fn tricky(s: &mut Src) -> String {
  if s.chance(1, 5) {
    let mut t = chars(s);
    t.retain(|c| c != '"');
    return t;
  }
  let mut t = s.pick(TRICKY).to_string();
  if s.chance(1, 4) {
    t.push_str(s.pick(TRICKY));
  }
  t.retain(|c| c != '"');
  t
}

fn trim_ws(t: &str) -> &str {
  t.trim_start_matches([' ', '\t', '\n', '\r'])
}

const STRINGS: &[&str] = &[
  "", "x", "hello world", "PostgreSQL", "a note", "MySQL", "PostgreSQL ", "postgresql", "say \"hi\"", "// not a comment", "/* not a comment */", "/*", "http://x.y/z", "line one\nline two", "  ", "{ }", "[pk]", "caf\u{e9} \u{1F600}", "back`tick", "\\", "\\n", "a\r\nb", "'", "it's", "''", "'quoted", "trail ", "\u{a0}x", "\u{3000}", "#fff", "null", "true", "Table t { id int }", "-- sql", "0",
];

pub fn string(s: &mut Src, dq: bool) -> Lit {
  let mut t = s.pick(STRINGS).to_string();
  if s.chance(1, 4) {
    t.push_str(s.pick(STRINGS));
  }
  if s.chance(1, 5) {
    t = chars(s);
  }
  let mut style = s.weighted(&[5, 3]) as u8;
  if dq && s.chance(1, 4) {
    style = 2;
  }
  let mut lead = String::new();
  match style {
    0 => {
      t.retain(|c| c != '\'');
      t = trim_ws(&t).to_string();
    }
    1 => {
      while t.contains("'''") {
        t = t.replace("'''", "''");
      }
      t = trim_ws(&t).trim_end_matches('\'').to_string();
    }
    _ => t.retain(|c| c != '"'),
  }
  if style < 2 && s.chance(1, 4) {
    lead = s.pick(&[" ", "\n", "\t", "\r\n  ", "\n\n    ", "\r"]).to_string();
  }
  Lit::new(LitK::Str { style, lead, text: t })
}

const WORDS: &[&str] = &[
  "cascade", "set null", "no action", "restrict", "set default", "btree", "hash", "gin", "gist", "nullable", "trueish", "falsey", "true_", "null1", "now", "x", "a b c", "Cascade", "btree2", "active", "a_b 1 c", "public", "not null",
];

const INTS: &[&str] = &["0", "1", "2", "255", "10", "007", "32767", "32768", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "00000000000000000000001"];
const DECS: &[&str] = &["1.5", "0.0", "3.", "10.25", "00.10", "9007199254740993.0", "0.1", "179769313486231580793728971405301.0", "2.2250738585072011", "1.0"];
const HEX: &[&str] = &["#fff", "#3498DB", "#000000", "#aBc", "#123", "#abcdef"];
const EXPRS: &[&str] = &["now()", "", "a * 2", "id + 1", "getdate()", "// x", "/* x", "'q'", " lead", "a\nb", "\"q\"", "{}", "caf\u{e9}", "(a, b)"];

pub fn value(s: &mut Src, dq: bool, word: bool) -> Lit {
  let w: &[u32] = if word { &[6, 4, 3, 3, 2, 2, 3, 5] } else { &[6, 4, 3, 3, 2, 2, 3] };
  let k = match s.weighted(w) {
    0 => return string(s, dq),
    1 => {
      if s.chance(1, 4) {
        let hi = *s.pick(&[10u64, 1000, 1 << 31, 1 << 32, 1 << 62]);
        LitK::Int(if s.chance(1, 2) { digits(s, i64::MAX as u64) } else { s.below(hi).to_string() })
      } else {
        LitK::Int(s.pick(INTS).to_string())
      }
    }
    2 => {
      if s.chance(1, 3) {
        LitK::Dec(if s.chance(1, 3) {
          let frac = if s.chance(1, 6) { String::new() } else { digits(s, u64::MAX) };
          format!("{}.{frac}", digits(s, u64::MAX))
        } else {
          format!("{}.{}", s.below(100000), s.below(1000000))
        })
      } else {
        LitK::Dec(s.pick(DECS).to_string())
      }
    }
    3 => LitK::Bool(s.chance(1, 2)),
    4 => LitK::Null,
    5 => LitK::Hex(if s.chance(1, 3) {
      let n = if s.chance(1, 2) { 3 } else { 6 };
      format!("#{}", (0..n).map(|_| *s.pick(b"0123456789abcdefABCDEF") as char).collect::<String>())
    } else {
      s.pick(HEX).to_string()
    }),
    6 => LitK::Expr(expr(s)),
    _ => LitK::Word(if s.chance(1, 4) { spaced(s) } else { s.pick(WORDS).to_string() }),
  };
  Lit::new(k)
}

const KEYS: &[&str] = &["foo", "x", "color", "a b", "my key 2", "ref", "refx", "pkey", "Pk", "PK", "Unique", "primary", "primary  key", "not", "notnull", "nullable", "Null", "defaults", "notes", "k_1", "on delete", "true", "null x", "Note", "Default", "typed", "names", "updated", "deleted"];

fn key(s: &mut Src, known: &[&str], p: u64) -> String {
  loop {
    let k = if s.chance(p, 10) { *s.pick(known) } else { *s.pick(KEYS) };
    if s.chance(1, 20) {
      return spaced(s);
    }
    if !k.contains("  ") {
      return k.to_string();
    }
    return "primary key".into();
  }
}

fn attrs(s: &mut Src, known: &[&str], p: u64, typical: usize, f: &mut dyn FnMut(&mut Src, &str) -> Option<Option<Lit>>) -> Vec<Attr> {
  let n = s.size(typical, 8);
  let mut v = vec![];
  for _ in 0..n {
    let k = key(s, known, p);
    let val = match f(s, &k) {
      Some(v) => v,
      None => {
        if s.chance(1, 2) {
          Some(value(s, true, true))
        } else {
          None
        }
      }
    };
    v.push(Attr::new(&k, val));
  }
  v
}

fn settings_of(a: Vec<Attr>) -> Settings {
  Settings { items: a.into_iter().map(SetItem::Attr).collect(), sp: (0, 0) }
}

fn plain_settings(s: &mut Src, f: Focus) -> Option<Settings> {
  let p = if f == Focus::Settings { 6 } else { 3 };
  if !s.chance(p, 10) {
    return None;
  }
  Some(settings_of(attrs(s, &["note", "headercolor", "color"], 6, 2, &mut |_, _| None)))
}

fn col_settings(s: &mut Src, f: Focus) -> Option<Settings> {
  let p = match f {
    Focus::Settings | Focus::Refs | Focus::Literals => 8,
    _ => 4,
  };
  if !s.chance(p, 10) {
    return None;
  }
  let known = ["pk", "primary key", "unique", "null", "not null", "increment", "default", "note"];
  let a = attrs(s, &known, 8, 2, &mut |s, k| match k {
    "default" | "note" if s.chance(5, 6) => Some(Some(value(s, true, true))),
    "default" | "note" => None,
    "ref" => Some(Some(value(s, true, true))),
    _ if known.contains(&k) && !s.chance(1, 8) => Some(None),
    _ => None,
  });
  let mut st = settings_of(a);
  let nref = if f == Focus::Refs { s.size(2, 4) } else { s.weighted(&[8, 2, 1]) };
  for _ in 0..nref {
    let at = s.range(0, st.items.len());
    let r = IRef { rel: rel(s), rhs: endpoint(s), sp: (0, 0) };
    st.items.insert(at, SetItem::Ref(r));
  }
  Some(st)
}

fn idx_settings(s: &mut Src, f: Focus) -> Option<Settings> {
  let p = if f == Focus::Settings { 8 } else { 5 };
  if !s.chance(p, 10) {
    return None;
  }
  let known = ["pk", "unique", "type", "name", "note"];
  Some(settings_of(attrs(s, &known, 8, 2, &mut |s, k| match k {
    "type" => Some(if s.chance(1, 6) {
      None
    } else {
      let t = *s.pick(crate::refparse::INDEX_TYPES);
      Some(match s.weighted(&[6, 2, 1]) {
        0 => Lit::word(t),
        1 => Lit::str(t),
        _ => Lit::new(LitK::Expr(t.into())),
      })
    }),
    "name" | "note" if s.chance(5, 6) => Some(Some(value(s, true, true))),
    "pk" | "unique" if !s.chance(1, 8) => Some(None),
    _ => None,
  })))
}

fn rel_settings(s: &mut Src, f: Focus) -> Option<Settings> {
  let p = match f {
    Focus::Settings | Focus::Refs => 7,
    _ => 3,
  };
  if !s.chance(p, 10) {
    return None;
  }
  let known = ["update", "delete", "note", "color"];
  Some(settings_of(attrs(s, &known, 8, 2, &mut |s, k| match k {
    "update" | "delete" => Some(match s.weighted(&[8, 1, 2]) {
      0 => Some(Lit::word(*s.pick(crate::refparse::ACTIONS))),
      1 => None,
      _ => Some(value(s, true, false)),
    }),
    _ => None,
  })))
}

pub fn rel(s: &mut Src) -> Rel {
  *s.pick(&[Rel::M2O, Rel::O2M, Rel::O2O, Rel::M2M])
}

fn endpoint(s: &mut Src) -> Endpoint {
  let paren = s.chance(2, 5);
  let n = if !paren { 1 } else if s.chance(1, 12) { s.range(1, 12) } else { s.range(1, 4) };
  Endpoint {
    schema: if s.chance(1, 3) { Some(name(s)) } else { None },
    table: name(s),
    cols: (0..n).map(|_| name(s)).collect(),
    paren,
    sp: (0, 0),
  }
}

const TYPE_VARS: &[&str] = &["int", "varchar", "integer", "decimal", "text", "status", "Varchar", "bool", "my_type", "t2", "timestamp", "INT", "null", "true", "as", "ref", "pk"];
const TYPE_SPACED: &[&str] = &["character varying", "double precision", "time with time zone", "my type", "bit varying", "int", "timestamp without time zone", "a b c", "varchar"];

fn dim(s: &mut Src) -> Option<String> {
  if s.chance(1, 2) {
    Some(if s.chance(1, 3) { digits(s, u32::MAX as u64) } else { s.pick(&["1", "3", "0", "10", "007", "4294967295", "65536", "00000000001"]).to_string() })
  } else {
    None
  }
}

pub fn ty(s: &mut Src, f: Focus) -> Ty {
  let p = if f == Focus::Types { 5 } else { 2 };
  let quoted = s.chance(p, 10);
  let nm = match (quoted && s.chance(2, 3), s.chance(1, 6)) {
    (true, false) => s.pick(TYPE_SPACED).to_string(),
    (false, false) => s.pick(TYPE_VARS).to_string(),
    (true, true) => spaced(s),
    (false, true) => bare(s),
  };
  let args = if s.chance(p, 10) {
    let n = s.size(2, 5);
    Some((0..n).map(|_| if s.chance(3, 5) { Lit::new(LitK::Int(s.pick(INTS).to_string())) } else { value(s, false, false) }).collect())
  } else {
    None
  };
  let na = if s.chance(p, 10) { if s.chance(1, 12) { s.below(14) as usize } else { s.size(2, 4) } } else { 0 };
  let no = if quoted && s.chance(p, 10) { if s.chance(1, 12) { s.below(14) as usize } else { s.size(2, 4) } } else { 0 };
  let schema = if s.chance(p, 12) { Some(name(s)) } else { None };
  Ty {
    schema,
    quoted,
    name: nm,
    args,
    arrays: (0..na).map(|_| dim(s)).collect(),
    outer: (0..no).map(|_| dim(s)).collect(),
    sp: (0, 0),
  }
}

fn note(s: &mut Src) -> Note {
  Note { lit: string(s, false), block: s.chance(1, 3), sp: (0, 0) }
}

fn table(s: &mut Src, f: Focus, max: usize) -> Table {
  let mut items = vec![];
  let n = s.size(4, max);
  for _ in 0..n {
    items.push(match s.weighted(&[10, 1, 2]) {
      0 => TItem::Col(Col { name: name(s), ty: ty(s, f), settings: col_settings(s, f), sp: (0, 0) }),
      1 => TItem::Note(note(s)),
      _ => {
        let nd = s.size(3, 8);
        let defs = (0..nd)
          .map(|_| {
            let paren = s.chance(1, 2);
            let n = if paren { s.weighted(&[2, 1, 4, 3, 1]) } else { 1 };
            let cols = (0..if paren { n } else { 1 })
              .map(|_| if s.chance(1, 4) { IdxCol::Expr(Lit::new(LitK::Expr(expr(s)))) } else { IdxCol::Col(name(s)) })
              .collect();
            IdxDef { cols, paren, settings: idx_settings(s, f), sp: (0, 0) }
          })
          .collect();
        TItem::Idx(IdxBlock { defs, sp: (0, 0) })
      }
    });
  }
  Table {
    schema: if s.chance(1, 4) { Some(name(s)) } else { None },
    name: name(s),
    alias: if s.chance(1, 4) { Some(name(s)) } else { None },
    settings: plain_settings(s, f),
    items,
    ..Table::default()
  }
}

fn project(s: &mut Src) -> Project {
  let n = s.size(3, 10);
  let items = (0..n)
    .map(|_| {
      if s.chance(1, 5) {
        PItem::Note(note(s))
      } else {
        let k = key(s, &["database_type", "database_type", "author", "version", "note"], 6);
        let mut v = if k == "database_type" && s.chance(2, 3) { string(s, false) } else { value(s, false, true) };
        if k.eq_ignore_ascii_case("note") && matches!(v.k, LitK::Str { .. }) {
          v = Lit::int(1);
        }
        PItem::Prop(PropM { key: Name { text: k, quoted: false, sp: (0, 0) }, val: v, sp: (0, 0) })
      }
    })
    .collect();
  Project { name: name(s), items, sp: (0, 0) }
}

pub fn block(s: &mut Src, f: Focus, max: usize) -> Block {
  let w: &[u32] = match f {
    Focus::Refs => &[2, 3, 8, 1, 1, 1],
    Focus::Types => &[10, 1, 1, 1, 1, 1],
    Focus::Settings => &[8, 3, 4, 2, 2, 1],
    Focus::Literals => &[8, 3, 2, 3, 2, 3],
    Focus::All => &[8, 4, 5, 3, 3, 2],
  };
  match s.weighted(w) {
    0 => Block::Table(table(s, f, max)),
    1 => {
      let n = s.size(4, max);
      Block::Enum(Enum {
        schema: if s.chance(1, 4) { Some(name(s)) } else { None },
        name: name(s),
        values: (0..n).map(|_| EVal { name: name(s), settings: plain_settings(s, f), sp: (0, 0) }).collect(),
        ..Enum::default()
      })
    }
    2 => Block::Ref(RefB {
      name: if s.chance(1, 3) { Some(name(s)) } else { None },
      block: s.chance(1, 2),
      lhs: endpoint(s),
      rel: rel(s),
      rhs: endpoint(s),
      settings: rel_settings(s, f),
      sp: (0, 0),
      decl_sp: (0, 0),
    }),
    3 => Block::Project(project(s)),
    4 => {
      let n = s.size(4, max);
      Block::Group(Group {
        name: name(s),
        settings: plain_settings(s, f),
        items: (0..n)
          .map(|_| {
            if s.chance(1, 8) {
              GEntry::Note(note(s))
            } else {
              GEntry::Item(GItem { schema: if s.chance(1, 3) { Some(name(s)) } else { None }, name: name(s), sp: (0, 0) })
            }
          })
          .collect(),
        sp: (0, 0),
      })
    }
    _ => Block::Note(note(s)),
  }
}

pub fn doc(s: &mut Src, f: Focus) -> Doc {
  let n = match s.below(20) {
    0 => 0,
    1..=16 => s.range(1, 3),
    17 | 18 => s.range(1, 8),
    _ => s.range(1, 25),
  };
  let max = if n > 8 { 6 } else { 25 };
  let mut d = Doc { blocks: (0..n).map(|_| block(s, f, max)).collect() };
  if s.chance(1, 4000) {
    let mark = gengrow::any(s, &mut d);
    s.marks.push(mark);
  }
  d
}
