//! Texts that need not be documents: damaged documents, token soup, random text.

use crate::gensyn;
use crate::tape::Src;

pub const TOKENS: &[&str] = &[
  "Table", "table ", "TABLE\t", "Ref", "ref", "Ref:", "Enum", "enum ", "Project", "project ", "TableGroup", "tablegroup ", "Note", "note", "note:", "Indexes", "indexes", "as", "as ", "{", "}", "[", "]", "(", ")", ":", ",", ".", "<", ">", "-", "<>", "'", "''", "'''", "\"", "\"\"", "`", "``", "//", "/*", "*/", "/", "#", "#fff", "#ffff", "#FFFFFF", "#ggg", "true", "false", "null", "nullx", "pk", "primary key", "primary  key", "unique", "not null", "increment", "default", "default:", "type", "type: btree", "type: brin", "name:", "delete: cascade", "update: set nul", "delete", "ref: > a.b", "ref: <> a.(b,c)", "a", "b", "id", "a.b", "a.b.c", "a.b.c.d", "a.(b)", "a.(b, c)", "a.()", "x y", "x_1", "_x", "9", "9x", "0", "1", "1.", "1.5", ".5", "1.2.3", "-1", "+1", "1e5", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "int", "varchar(10)", "varchar(", "\"varchar(10)\"", "\"varchar\"(10)", "int[]", "int[3]", "int [3]", "\"int[]\"[2]", "int[x]", "s.int", "\"a b\"", "\"a", "'s'", "'s", "'''m'''", "'''m", "`e`", "`e", "\n", "\r", "\r\n", " ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{0}", "\u{e9}", "\u{1F600}", "\\", ";", "=", "*", "$", "@", "!",
];

const BIG: &[&str] = &[
  "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999", "00000000004294967295", "00000000000000000000004294967296", "2147483648", "340282366920938463463374607431768211456", "0", "00", "65536",
];

/// Splits a written document into its tokens (each with the trivia that follows it).
fn pieces<'a>(text: &'a str, starts: &[usize]) -> Vec<&'a str> {
  let mut cuts: Vec<usize> = starts.iter().copied().filter(|s| *s <= text.len() && text.is_char_boundary(*s)).collect();
  cuts.insert(0, 0);
  cuts.push(text.len());
  cuts.dedup();
  cuts.windows(2).map(|w| &text[w[0]..w[1]]).collect()
}

fn char_at(s: &mut Src, text: &str) -> usize {
  let mut i = s.range(0, text.len());
  while !text.is_char_boundary(i) {
    i -= 1;
  }
  i
}

/// A bracketed or quoted stretch is repeated, emptied, removed, moved or replaced by another.
fn group(s: &mut Src, text: &str) -> (String, &'static str) {
  let b = text.as_bytes();
  let all: Vec<(usize, usize)> = (0..b.len())
    .filter_map(|i| {
      let close = match b[i] {
        b'(' => b')',
        b'[' => b']',
        b'{' => b'}',
        c @ (b'\'' | b'"' | b'`') => c,
        _ => return None,
      };
      let mut depth = 0usize;
      for (j, &c) in b.iter().enumerate().skip(i) {
        if c == close && (j > i && depth <= 1) {
          return Some((i, j + 1));
        }
        if c == b[i] {
          depth += 1;
        } else if c == close {
          depth -= 1;
        }
      }
      None
    })
    .collect();
  if all.is_empty() {
    return (format!("{text}()"), "group appended");
  }
  let (i, j) = *s.pick(&all);
  let g = &text[i..j];
  match s.below(7) {
    0 | 1 => (format!("{}{g}{}", &text[..j], &text[j..]), "group repeated"),
    2 => (format!("{}{}", &text[..i], &text[j..]), "group removed"),
    3 => (format!("{}{}{}", &text[..i + 1], &text[j - 1..j], &text[j..]), "group emptied"),
    4 => (format!("{}{}{}{}", &text[..i], &g[..1], g, &text[j - 1..]), "group wrapped in itself"),
    5 => {
      let (k, l) = *s.pick(&all);
      (format!("{}{}{}", &text[..i], &text[k..l], &text[j..]), "group replaced by another")
    }
    _ => {
      let at = char_at(s, text);
      let rest = |a: usize, z: usize| -> String {
        let (a2, z2) = (a.max(i).min(z), a.max(j).min(z));
        format!("{}{}", &text[a..a2.max(a)], &text[z2..z])
      };
      (format!("{}{g}{}", rest(0, at), rest(at, text.len())), "group moved")
    }
  }
}

/// One damage done to a document.
pub fn mutate(s: &mut Src, text: &str, starts: &[usize]) -> (String, &'static str) {
  let p = pieces(text, starts);
  let n = p.len();
  let join = |v: &[&str]| v.concat();
  match s.below(19) {
    16..=18 => group(s, text),
    14 | 15 => {
      // a number replaced by one at a boundary
      let b = text.as_bytes();
      let runs: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit())).collect();
      let big = *s.pick(BIG);
      if runs.is_empty() {
        let i = s.range(0, n);
        let t = *s.pick(&["[4294967296]", "(9223372036854775808)", "(1, 99999999999999999999)", "int[18446744073709551616]", " [default: 9223372036854775808]"]);
        let mut v = p;
        v.insert(i, t);
        return (join(&v), "number too big inserted");
      }
      let i = *s.pick(&runs);
      let j = i + b[i..].iter().take_while(|c| c.is_ascii_digit()).count();
      (format!("{}{big}{}", &text[..i], &text[j..]), "number replaced by one at a boundary")
    }
    0 if n > 0 => {
      let i = s.idx(n);
      let mut v = p;
      v.remove(i);
      (join(&v), "token deleted")
    }
    1 if n > 0 => {
      let i = s.idx(n);
      let mut v = p;
      v.insert(i, v[i]);
      (join(&v), "token repeated")
    }
    2 if n > 1 => {
      let i = s.idx(n - 1);
      let mut v = p;
      v.swap(i, i + 1);
      (join(&v), "neighbours swapped")
    }
    3 if n > 1 => {
      let (i, j) = (s.idx(n), s.idx(n));
      let mut v = p;
      v.swap(i, j);
      (join(&v), "tokens swapped")
    }
    4 | 5 => {
      let i = s.range(0, n);
      let t = *s.pick(TOKENS);
      let t = if s.chance(1, 2) { format!("{t} ") } else { t.to_string() };
      let mut v = p;
      v.insert(i, &t);
      (join(&v), "token inserted")
    }
    6 | 7 if n > 0 => {
      let i = s.idx(n);
      let t = *s.pick(TOKENS);
      let t = if s.chance(1, 2) { format!("{t} ") } else { t.to_string() };
      let mut v = p;
      v[i] = &t;
      (join(&v), "token replaced")
    }
    8 if n > 1 => {
      let (i, j) = (s.idx(n), s.idx(n));
      let mut v = p.clone();
      v[i] = p[j];
      (join(&v), "token replaced by another")
    }
    9 => {
      let i = char_at(s, text);
      (text[..i].to_string(), "truncated")
    }
    10 => {
      let i = char_at(s, text);
      (text[i..].to_string(), "beginning cut off")
    }
    11 => {
      let i = char_at(s, text);
      let mut t = text[..i].to_string();
      t.extend(text[i..].chars().skip(1));
      (t, "character deleted")
    }
    12 => {
      let i = char_at(s, text);
      let c = *s.pick(&[' ', '\n', '\t', '\r', '.', ',', ':', '\'', '"', '`', '/', '*', '{', '}', '[', ']', '(', ')', '#', '-', '<', '>', 'a', 'Z', '0', '_', '\\', '\u{e9}', '\u{0}']);
      let c = if s.chance(1, 6) { *s.pick(&['\u{feff}', '\u{a0}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{3000}', '\u{200b}', ';', '\u{1a}']) } else { c };
      let i = match s.below(16) {
        0 => 0,
        1 => text.len(),
        _ => i,
      };
      (format!("{}{c}{}", &text[..i], &text[i..]), "character inserted")
    }
    13 => {
      let (i, j) = (char_at(s, text), char_at(s, text));
      let (i, j) = (i.min(j), i.max(j));
      if s.chance(1, 2) || j - i > 200 {
        (format!("{}{}", &text[..i], &text[j..]), "stretch deleted")
      } else {
        (format!("{}{}{}", &text[..j], &text[i..j], &text[j..]), "stretch repeated")
      }
    }
    _ => {
      let t = *s.pick(TOKENS);
      (format!("{text}{t}"), "token appended")
    }
  }
}

pub fn soup(s: &mut Src) -> String {
  let n = s.size(12, 200);
  let mut t = String::new();
  for _ in 0..n {
    match s.weighted(&[8, 2, 1]) {
      0 => t.push_str(s.pick(TOKENS)),
      1 => t.push_str(s.pick(gensyn::PLAIN)),
      _ => {
        let x = gensyn::tricky(s);
        t.push_str(&x);
      }
    }
    if s.chance(3, 4) {
      t.push(' ');
    }
  }
  t
}

/// A document frame with soup in one place.
pub fn framed(s: &mut Src) -> String {
  let inner = {
    let n = s.size(4, 20);
    let mut t = String::new();
    for _ in 0..n {
      t.push_str(s.pick(TOKENS));
      if s.chance(2, 3) {
        t.push(' ');
      }
    }
    t
  };
  let frames: &[(&str, &str)] = &[
    ("Table t {", "}"),
    ("Table t {\n a int ", "\n}"),
    ("Table t {\n a ", "\n}"),
    ("Table t {\n a int [", "]\n}"),
    ("Table t {\n a int\n indexes { a [", "] }\n}"),
    ("Table t {\n a int\n indexes {", "}\n}"),
    ("Table ", " { a int }"),
    ("Table t [", "] {}"),
    ("Enum e {", "}"),
    ("Enum ", " { a }"),
    ("Enum e { a [", "] }"),
    ("Ref: ", ""),
    ("Ref", ": a.b > c.d"),
    ("Ref: a.b ", " c.d"),
    ("Ref: a.b > c.d [", "]"),
    ("Ref n { a.b > c.d ", "}"),
    ("Project p {", "}"),
    ("Project ", " {}"),
    ("Project p { k: ", "}"),
    ("TableGroup g {", "}"),
    ("TableGroup ", " { t }"),
    ("Note", ""),
    ("Note: ", ""),
    ("Note {", "}"),
    ("", "Table t {}"),
    ("Table t {}", "Table t {}"),
  ];
  let f = s.pick(frames);
  format!("{}{}{}", f.0, inner, f.1)
}

pub fn unicode(s: &mut Src) -> String {
  let n = s.size(20, 400);
  let mut t = String::new();
  for _ in 0..n {
    let c = match s.weighted(&[4, 4, 2, 1, 1]) {
      0 => s.below(0x80) as u32,
      1 => *s.pick(&[b' ', b'\n', b'{', b'}', b'"', b'\'', b'`', b'/', b'*', b':', b'[', b']', b'T', b'a']) as u32,
      2 => s.below(0x800) as u32,
      3 => s.below(0x10000) as u32,
      _ => s.below(0x110000) as u32,
    };
    t.push(char::from_u32(c).unwrap_or('\u{fffd}'));
  }
  t
}
