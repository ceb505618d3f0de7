//! Semantically meaningful documents: valid ones by construction, changes to them that break or
//! nearly break the rules of one property, and small worlds of arbitrary declarations.

use std::collections::BTreeSet;

use crate::gengrow;
use crate::gensyn;
use crate::model::*;
use crate::sem;
use crate::tape::Src;

const TRICKY: &[&str] = &["a b", "a.b", "it's", "// x", "/* x */", "{", "[pk]", "caf\u{e9}", "\u{1F600}", "\u{5b57}", "a,b", "(x)", "9lives", "_x", " ", "", "select * from t;", "public", "null", "pk", "a\nb", "\u{e9}", "id ", "-", ":"];

const BASE: &[&str] = &["users", "posts", "orders", "t", "a", "b", "id", "name", "Users", "user", "users_", "items", "status", "Table", "Ref", "note", "as", "public", "state", "type", "x1"];

/// A name not yet in `used`.
fn fresh(s: &mut Src, used: &mut BTreeSet<String>) -> Name {
  let mut n = any_name(s);
  let mut i = 0;
  while !used.insert(n.text.clone()) {
    i += 1;
    if i < 4 {
      n = any_name(s);
    } else {
      n.text.push_str(&format!("{i}"));
      n.quoted |= !is_var(&n.text);
    }
  }
  n
}

/// The features that cases take each in their own way; see `Src::swarm`.
const FEATURES: usize = 33;

pub fn any_name(s: &mut Src) -> Name {
  let w: [u32; 2] = match s.mood(30) {
    0 => [1, 0],
    2 => [1, 4],
    _ => [10, 2],
  };
  let mut n = match s.weighted(&w) {
    0 => Name::new(s.pick(BASE)),
    _ => Name::new(s.pick(TRICKY)),
  };
  n.quoted |= s.chance(1, 8);
  n
}

/// The same name in the other spelling, where there is one.
pub fn respell(s: &mut Src, n: &Name) -> Name {
  let quoted = if is_var(&n.text) { s.feat(29, 1, 4) } else { true };
  Name { text: n.text.clone(), quoted, sp: (0, 0) }
}

/// A name that is close to `n` but not the same.
pub fn near(s: &mut Src, n: &str) -> Name {
  let t = match s.below(6) {
    0 => n.to_uppercase(),
    1 => n.to_lowercase(),
    2 => format!("{n}s"),
    3 => format!("{n} "),
    4 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
    _ => {
      let mut c = n.chars();
      match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => "x".into(),
      }
    }
  };
  let t = if t == n { format!("{n}x") } else { t };
  Name::new(&t)
}

const OTHER_TYPES: &[&str] = &["Int", "VARCHAR", "money2", "geometry", "string", "citext", "int3", "interval", "my_type"];

/// A type with arguments that fit.
pub fn good_type(s: &mut Src, enums: &[(Option<Name>, Name, Vec<Name>)]) -> Ty {
  let mut t = Ty::default();
  let enums: Vec<_> = enums.iter().filter(|e| is_type_name(&e.1.text)).collect();
  match s.weighted(&[12, if enums.is_empty() { 0 } else { 4 }, 1]) {
    0 => {
      let line = if s.chance(1, 2) {
        let common: &[&str] = &["int", "varchar", "text", "bool", "char", "decimal", "smallint", "bigint", "bit", "varbit", "timestamp"];
        let w = *s.pick(common);
        *sem::BUILTIN.iter().find(|l| l.contains(&w)).unwrap()
      } else {
        *s.pick(sem::BUILTIN)
      };
      let w = *s.pick(line);
      set_spelling(s, &mut t, w);
      let n = sem::arg_count(line[0]);
      if n > 0 && s.chance(1, 2) {
        t.args = Some((0..n).map(|_| Lit::int(s.range(0, 12) as i64)).collect());
      } else if s.chance(1, 12) {
        t.args = Some(vec![]);
      }
    }
    1 => {
      let (sc, nm, _) = (*s.pick(&enums)).clone();
      t.name = nm.text.clone();
      t.schema = match sc {
        Some(x) => Some(respell(s, &x)),
        None => {
          if s.chance(1, 4) {
            Some(Name::new("public"))
          } else {
            None
          }
        }
      };
      if let Some(x) = &t.schema {
        if x.text == "public" && s.chance(1, 2) {
          t.schema = None;
        }
      }
      t.quoted = s.chance(1, 5) || t.name.contains(' ');
    }
    _ => {
      t.name = s.pick(OTHER_TYPES).to_string();
      t.quoted = s.chance(1, 5);
      if s.chance(1, 4) {
        t.schema = Some(Name::new(s.pick(&["ext", "public", "other"])));
      }
      if s.chance(1, 4) {
        t.args = Some(vec![Lit::int(s.range(0, 9) as i64)]);
      }
    }
  }
  t
}

/// Values that are easily taken for one another.
fn alike(s: &mut Src) -> Lit {
  match s.below(10) {
    0 | 1 => Lit::int(s.range(0, 2) as i64),
    2 => Lit::new(LitK::Int(s.pick(&["01", "00", "1"]).to_string())),
    3 => Lit::str(*s.pick(&["1", "0", "", "true", "null", "1.0"])),
    4 => Lit::new(LitK::Expr(s.pick(&["1", "0", "true"]).to_string())),
    5 => Lit::new(LitK::Dec(s.pick(&["1.0", "1.", "0.0", "1.5", "1.50"]).to_string())),
    6 => Lit::new(LitK::Bool(s.chance(1, 2))),
    7 => Lit::new(LitK::Null),
    8 => Lit::new(LitK::Hex(s.pick(&["#111", "#000000", "#FFF", "#fff"]).to_string())),
    _ => Lit::new(LitK::Str { style: s.below(2) as u8, lead: String::new(), text: "1".into() }),
  }
}

fn dim_alike(s: &mut Src) -> Option<String> {
  match s.below(4) {
    0 => None,
    _ => Some(s.pick(&["0", "1", "01", "10", "00"]).to_string()),
  }
}

fn set_spelling(s: &mut Src, t: &mut Ty, w: &str) {
  t.name = w.to_string();
  t.quoted = w.contains(' ') || s.chance(1, 6);
}

/// The same type in another spelling.
pub fn respell_type(s: &mut Src, t: &Ty) -> Ty {
  let mut n = t.clone();
  n.sp = (0, 0);
  if t.schema.is_none() {
    if let Some(line) = sem::BUILTIN.iter().find(|l| l.contains(&t.name.as_str())) {
      let w = *s.pick(line);
      set_spelling(s, &mut n, w);
    } else {
      n.quoted = s.chance(1, 4) || n.name.contains(' ');
      if s.chance(1, 3) {
        n.schema = Some(Name::new("public"));
      }
    }
  } else if t.schema.as_ref().is_some_and(|x| x.text == "public") && sem::builtin(&t.name).is_none() && s.chance(1, 2) {
    n.schema = None;
  }
  let dims = t.dims();
  n.arrays = vec![];
  n.outer = vec![];
  for d in dims {
    if n.quoted && (s.chance(1, 2) || !n.outer.is_empty()) {
      n.outer.push(d);
    } else {
      n.arrays.push(d);
    }
  }
  if n.args.as_ref().is_some_and(|a| a.is_empty()) && s.chance(1, 2) {
    n.args = None;
  } else if n.args.is_none() && s.chance(1, 16) {
    n.args = Some(vec![]);
  }
  n
}

/// A text of so many characters (of at most 70,000: widths can be larger than any text).
fn text_of_len(s: &mut Src, n: usize) -> String {
  let alpha = ["a", "b", "0", "\u{e9}", "\u{1F600}", "z", "\u{5b57}", " x"];
  let n = n.min(70_000);
  let mut t = String::new();
  let mut have = 0;
  while have < n.min(80) {
    let p = *s.pick(&alpha);
    if have + p.chars().count() <= n && !(t.is_empty() && p.starts_with(' ')) {
      t.push_str(p);
      have += p.chars().count();
    } else {
      t.push('q');
      have += 1;
    }
  }
  t.extend(std::iter::repeat_n('q', n.saturating_sub(have)));
  if n > 1 && s.chance(1, 6) {
    let k = s.range(1, (n - 1).min(3));
    t = t.chars().take(n - k).chain(std::iter::repeat_n(*s.pick(&[' ', '\n', '\u{3000}', '\t']), k)).collect();
  }
  t
}

fn str_lit(s: &mut Src, t: String) -> Lit {
  let style = if t.contains('\'') { 1 } else { s.weighted(&[4, 1, 1]) as u8 };
  let style = if style == 2 && t.contains('"') { 1 } else { style };
  let style = if t.ends_with('\'') { 2 } else { style };
  Lit::new(LitK::Str { style, lead: String::new(), text: t })
}

/// A default that fits the type, if one is known.
fn good_default(s: &mut Src, c: &Col, enums: &[(Option<Name>, Name, Vec<Name>)]) -> Option<Lit> {
  if !c.ty.dims().is_empty() {
    return None;
  }
  if c.has("null") && s.chance(1, 3) {
    return Some(Lit::new(LitK::Null));
  }
  let b = if c.ty.schema.is_none() { sem::builtin(&c.ty.name) } else { None };
  if let Some(b) = b {
    let cap = match c.ty.args.as_ref().and_then(|a| a.first()) {
      Some(Lit { k: LitK::Int(n), .. }) => n.parse::<usize>().ok(),
      _ => None,
    };
    return Some(match s.weighted(&[4, 3, 1, 2]) {
      0 => {
        let n = match (b, cap) {
          ("char" | "bit", Some(n)) => n,
          ("varchar" | "varbit", Some(n)) => s.range(0, n),
          _ => s.range(0, 6),
        };
        let t = text_of_len(s, n);
        str_lit(s, t)
      }
      1 => {
        let v: &[i64] = match b {
          "smallint" => &[0, 1, 32767, 32766],
          "integer" => &[0, 1, 32768, 2147483647, 2147483646],
          _ => &[0, 7, 32768, 2147483648, i64::MAX],
        };
        Lit::int(*s.pick(v))
      }
      2 => Lit::new(LitK::Expr("now()".into())),
      _ if b == "bool" => Lit::new(LitK::Bool(s.chance(1, 2))),
      _ => Lit::new(LitK::Dec("1.5".into())),
    });
  }
  let q = (c.ty.schema.as_ref().map(|x| x.text.as_str()).unwrap_or("public"), c.ty.name.as_str());
  let e = enums.iter().find(|e| (e.0.as_ref().map(|x| x.text.as_str()).unwrap_or("public"), e.1.text.as_str()) == q)?;
  if e.2.is_empty() {
    return None;
  }
  let v = s.pick(&e.2).clone();
  if is_var(&v.text) && !["true", "false", "null"].contains(&v.text.as_str()) && s.chance(1, 2) {
    Some(Lit::word(&v.text))
  } else if v.text.starts_with([' ', '\t', '\n', '\r']) {
    None
  } else {
    Some(str_lit(s, v.text))
  }
}

fn attr(k: &str) -> SetItem {
  SetItem::Attr(Attr::new(k, None))
}

fn insert_item(s: &mut Src, st: &mut Settings, it: SetItem) {
  let at = s.range(0, st.items.len());
  st.items.insert(at, it);
}

type Enums = Vec<(Option<Name>, Name, Vec<Name>)>;

fn enums_of(d: &Doc) -> Enums {
  d.enums().map(|e| (e.schema.clone(), e.name.clone(), e.values.iter().map(|v| v.name.clone()).collect())).collect()
}

fn gen_enum(s: &mut Src, schema: Option<Name>, name: Name) -> Enum {
  let n = s.size(4, 12);
  let mut used = BTreeSet::new();
  let values = (0..n)
    .map(|_| {
      let name = fresh(s, &mut used);
      let settings = if s.feat(0, 1, 5) { Some(note_settings(s)) } else { None };
      EVal { name, settings, sp: (0, 0) }
    })
    .collect();
  Enum { schema, name, values, ..Enum::default() }
}

fn note_settings(s: &mut Src) -> Settings {
  let mut st = Settings::default();
  let mut keys = vec!["note", "color", "Note", "x y", "headercolor"];
  let n = s.range(0, 3);
  for _ in 0..n {
    let k = keys.remove(s.idx(keys.len()));
    let v = gensyn::value(s, true, true);
    st.items.push(SetItem::Attr(Attr::new(k, Some(v))));
  }
  st
}

fn gen_col(s: &mut Src, name: Name, enums: &Enums, keyed: &mut bool) -> Col {
  let mut c = Col { name, ty: good_type(s, enums), ..Col::default() };
  let mut st = Settings::default();
  // a column with about every setting there is
  let loaded = s.chance(1, 10);
  let pk = !*keyed && s.feat(1, if loaded { 2 } else { 1 }, 4);
  if pk {
    *keyed = true;
    let k = *s.pick(&["pk", "primary key"]);
    insert_item(s, &mut st, attr(k));
  } else if s.feat(2, 1, 6) {
    let nd = s.range(1, 3);
    for _ in 0..nd {
      let d = if s.chance(1, 2) { Some(s.range(0, 4).to_string()) } else { None };
      if c.ty.quoted && s.chance(1, 2) {
        c.ty.outer.push(d);
      } else {
        c.ty.arrays.push(d);
      }
    }
  }
  if s.feat(3, if loaded { 3 } else { 1 }, 4) {
    insert_item(s, &mut st, attr("unique"));
  }
  let w = match s.mood(4) {
    0 => [1, 0, 0],
    2 => [1, 4, if pk { 0 } else { 4 }],
    _ => [4, 2, if pk { 0 } else { 2 }],
  };
  match s.weighted(&w) {
    1 => insert_item(s, &mut st, attr("not null")),
    2 => insert_item(s, &mut st, attr("null")),
    _ => {}
  }
  if s.feat(5, if loaded { 4 } else { 1 }, 6) {
    insert_item(s, &mut st, attr("increment"));
  }
  if s.feat(6, 1, 6) {
    let v = gensyn::string(s, true);
    insert_item(s, &mut st, SetItem::Attr(Attr::new("note", Some(v))));
  }
  if s.feat(7, 1, 10) {
    let k = *s.pick(&["Unique", "PK", "x", "nullable", "key"]);
    insert_item(s, &mut st, attr(k));
  }
  c.settings = Some(st);
  if s.feat(8, 1, 3) {
    if let Some(v) = good_default(s, &c, enums) {
      let it = SetItem::Attr(Attr::new("default", Some(v)));
      insert_item(s, c.set(), it);
    }
  }
  if c.settings.as_ref().unwrap().items.is_empty() && s.chance(3, 4) {
    c.settings = None;
  }
  c
}

fn gen_indexes(s: &mut Src, t: &mut Table, keyed: &mut bool) {
  let names: Vec<Name> = t.cols().map(|c| c.name.clone()).collect();
  let mut ib = IdxBlock::default();
  let n = s.many(10, (0, 1), (3, 8), |s| s.size(3, 8));
  for _ in 0..n {
    let mut pool: Vec<IdxCol> = names.iter().map(|n| IdxCol::Col(respell(s, n))).collect();
    for e in ["lower(x)", "a * 2", "id", "now()"] {
      if s.feat(31, 1, 6) {
        pool.push(IdxCol::Expr(Lit::new(LitK::Expr(e.into()))));
      }
    }
    if pool.is_empty() {
      break;
    }
    let paren = s.feat(32, 2, 3);
    let k = if paren { s.range(1, pool.len().min(4)) } else { 1 };
    let cols: Vec<IdxCol> = (0..k).map(|_| pool.remove(s.idx(pool.len()))).collect();
    let mut d = IdxDef { cols, paren, settings: None, sp: (0, 0) };
    let mut st = Settings::default();
    match s.weighted(&[4, 3, 2, 3]) {
      1 => st.items.push(attr("unique")),
      2 if !*keyed => st.items.push(attr("pk")),
      3 => {
        let ty = *s.pick(crate::refparse::INDEX_TYPES);
        let l = if s.chance(1, 2) { Lit::word(ty) } else { Lit::str(ty) };
        st.items.push(SetItem::Attr(Attr::new("type", Some(l))));
      }
      _ => {}
    }
    if s.feat(11, 1, 4) {
      insert_item(s, &mut st, SetItem::Attr(Attr::new("name", Some(Lit::str("idx")))));
    }
    if s.feat(12, 1, 6) {
      insert_item(s, &mut st, SetItem::Attr(Attr::new("note", Some(Lit::str("n")))));
    }
    if !st.items.is_empty() {
      d.settings = Some(st);
    }
    let pk = d.has("pk");
    ib.defs.push(d);
    // keep it only if it repeats nothing
    let mut probe = t.clone();
    probe.items.push(TItem::Idx(ib.clone()));
    let doc = Doc { blocks: vec![Block::Table(probe)] };
    let m = sem::analyze(&doc);
    if m.has(sem::K::DupUnique) || m.has(sem::K::DupIndex) || m.has(sem::K::DupPk) {
      ib.defs.pop();
    } else if pk {
      *keyed = true;
    }
  }
  let at = s.range(0, t.items.len());
  t.items.insert(at, TItem::Idx(ib));
}

/// A spelling of a table: alias, bare, or with its schema.
fn spell(s: &mut Src, d: &Doc, t: &Table) -> (Option<Name>, Name) {
  let mut opts: Vec<(Option<Name>, Name)> = vec![];
  opts.push((Some(Name::new(t.schema_name())), t.name.clone()));
  if t.schema_name() == "public" {
    let other = d.tables().any(|o| o.alias.as_ref().is_some_and(|a| a.text == t.name.text) && (o.schema_name(), &o.name.text) != (t.schema_name(), &t.name.text));
    if !other {
      opts.insert(0, (None, t.name.clone()));
    }
  }
  if let Some(a) = &t.alias {
    let other = d.tables().any(|o| o.schema_name() == "public" && o.name.text == a.text && (o.schema_name(), &o.name.text) != (t.schema_name(), &t.name.text));
    if !other {
      opts.push((None, a.clone()));
    }
  }
  let (sc, nm) = opts[s.idx(opts.len())].clone();
  (sc.map(|x| respell(s, &x)), respell(s, &nm))
}

fn table_at(d: &Doc, i: usize) -> &Table {
  d.tables().nth(i).unwrap()
}

fn endpoint(s: &mut Src, d: &Doc, ti: usize, cols: &[Name]) -> Endpoint {
  let t = table_at(d, ti);
  let (schema, table) = spell(s, d, t);
  let cols: Vec<Name> = cols.iter().map(|c| respell(s, c)).collect();
  Endpoint { schema, table, paren: cols.len() != 1 || s.chance(1, 6), cols, sp: (0, 0) }
}

/// The keys of a table: column lists that may be referenced.
fn keys_of(t: &Table) -> Vec<Vec<Name>> {
  let mut v: Vec<Vec<Name>> = t.cols().filter(|c| c.is_pk() || c.is_unique()).map(|c| vec![c.name.clone()]).collect();
  if let Some(ib) = t.indexes() {
    for d in &ib.defs {
      if d.has("pk") || d.has("unique") {
        let cols: Option<Vec<Name>> = d
          .cols
          .iter()
          .map(|c| match c {
            IdxCol::Col(n) => Some(n.clone()),
            _ => None,
          })
          .collect();
        v.extend(cols);
      }
    }
  }
  v
}

fn new_cols(s: &mut Src, t: &mut Table, like: &[Ty]) -> Vec<Name> {
  let mut used: BTreeSet<String> = t.cols().map(|c| c.name.text.clone()).collect();
  let mut v = vec![];
  for ty in like {
    let name = fresh(s, &mut used);
    v.push(name.clone());
    let c = Col { name, ty: respell_type(s, ty), ..Col::default() };
    let at = s.range(0, t.items.len());
    t.items.insert(at, TItem::Col(c));
  }
  v
}

/// Makes the columns a unique key of the table.
fn make_key(s: &mut Src, t: &mut Table, cols: &[Name]) {
  if cols.len() == 1 && s.feat(13, 1, 2) {
    let c = t.cols_mut().find(|c| c.name.text == cols[0].text).unwrap();
    let st = c.set();
    if !st.has("unique") {
      insert_item(s, st, attr("unique"));
    }
    return;
  }
  let mut ic: Vec<IdxCol> = cols.iter().map(|c| IdxCol::Col(c.clone())).collect();
  s.shuffle(&mut ic);
  let d = IdxDef { paren: ic.len() > 1, cols: ic, settings: Some(Settings { items: vec![attr("unique")], sp: (0, 0) }), sp: (0, 0) };
  let ib = t.index_section();
  let at = s.range(0, ib.defs.len());
  ib.defs.insert(at, d);
}

fn action_settings(s: &mut Src) -> Option<Settings> {
  if !s.feat(14, 1, 3) {
    return None;
  }
  let mut st = Settings::default();
  for k in ["update", "delete", "note"] {
    if s.chance(1, 2) {
      let v = if k == "note" { Lit::str("x") } else { Lit::word(*s.pick(crate::refparse::ACTIONS)) };
      insert_item(s, &mut st, SetItem::Attr(Attr::new(k, Some(v))));
    }
  }
  Some(st)
}

/// Writes the relationship down in some form: separate, or inline when its left side is one column.
pub fn put_ref(s: &mut Src, d: &mut Doc, l: (usize, Vec<Name>), rel: Rel, r: (usize, Vec<Name>)) {
  // relationships gather at a column that has some already
  let has = |d: &Doc, x: &(usize, Vec<Name>)| x.1.len() == 1 && table_at(d, x.0).col(&x.1[0].text).is_some_and(|c| c.settings.as_ref().is_some_and(|s| s.refs().next().is_some()));
  let gather = s.chance(1, 2);
  let (l, rel, r) = if gather && has(d, &r) && !has(d, &l) || s.chance(1, 3) { (r, rel.flip(), l) } else { (l, rel, r) };
  if l.1.len() == 1 && s.mood(15) > 0 && (gather && has(d, &l) || s.feat(15, 2, 5)) {
    let rhs = endpoint(s, d, r.0, &r.1);
    let t = d.tables_mut().nth(l.0).unwrap();
    let c = t.cols_mut().find(|c| c.name.text == l.1[0].text).unwrap();
    insert_item(s, c.set(), SetItem::Ref(IRef { rel, rhs, sp: (0, 0) }));
    return;
  }
  let lhs = endpoint(s, d, l.0, &l.1);
  let rhs = endpoint(s, d, r.0, &r.1);
  let name = if s.feat(16, 1, 3) { Some(any_name(s)) } else { None };
  let settings = action_settings(s);
  let b = Block::Ref(RefB { name, block: s.chance(1, 2), lhs, rel, rhs, settings, sp: (0, 0), decl_sp: (0, 0) });
  let at = s.range(0, d.blocks.len());
  d.blocks.insert(at, b);
}

/// Adds a valid relationship; its columns, as (table, columns) pairs.
pub fn add_relation(s: &mut Src, d: &mut Doc) -> Option<((usize, Vec<Name>), Rel, (usize, Vec<Name>))> {
  let n = d.tables().count();
  if n == 0 {
    return None;
  }
  let to = s.idx(n);
  let from = s.idx(n);
  let want = if s.feat(17, 1, 2) {
    if s.chance(1, 10) {
      s.range(4, 10)
    } else if s.chance(1, 2) {
      3
    } else {
      2
    }
  } else {
    1
  };
  let mut keys = keys_of(table_at(d, to));
  keys.retain(|k| if want == 1 { k.len() == 1 } else { k.len() > 1 });
  let key = if keys.is_empty() || s.chance(1, 4) {
    // a new key
    let enums = enums_of(d);
    let types: Vec<Ty> = (0..want).map(|_| good_type(s, &enums)).collect();
    let t = d.tables_mut().nth(to).unwrap();
    let cols = new_cols(s, t, &types);
    make_key(s, t, &cols);
    cols
  } else {
    keys[s.idx(keys.len())].clone()
  };
  let mut key = key;
  s.shuffle(&mut key);
  // an earlier change may have removed a key's column
  let types: Option<Vec<Ty>> = key.iter().map(|k| table_at(d, to).col(&k.text).map(|c| c.ty.clone())).collect();
  let types = types?;
  let t = d.tables_mut().nth(from).unwrap();
  let cols = new_cols(s, t, &types);
  let w = match s.mood(18) {
    0 => [1, 0, 0],
    2 => [1, 4, 4],
    _ => [5, 2, 2],
  };
  let rel = match s.weighted(&w) {
    0 => Rel::M2O,
    1 => Rel::O2O,
    _ => Rel::M2M,
  };
  if rel == Rel::M2M || s.chance(1, 6) {
    let t = d.tables_mut().nth(from).unwrap();
    make_key(s, t, &cols);
  }
  let (a, b) = ((from, cols), (to, key));
  put_ref(s, d, a.clone(), rel, b.clone());
  Some((a, rel, b))
}

/// A document that violates no rule.
pub fn valid(s: &mut Src, scale: usize) -> Doc {
  s.swarm(FEATURES);
  let mut schemas: Vec<Option<Name>> = vec![None];
  if s.chance(1, 3) {
    schemas.push(Some(Name::new("public")));
  }
  let mut used = BTreeSet::from(["public".to_string()]);
  for _ in 0..s.weighted(&[3, 3, 1]) {
    let n = fresh(s, &mut used);
    schemas.push(Some(n));
  }
  if s.mood(19) == 0 {
    schemas.truncate(1);
  } else if s.mood(19) == 2 && schemas.len() > 1 {
    schemas.remove(0);
  }
  let mut d = Doc::default();

  let mut taken: BTreeSet<(String, String)> = BTreeSet::new();
  let key = |sc: &Option<Name>, n: &Name| (sc.as_ref().map(|x| x.text.clone()).unwrap_or("public".into()), n.text.clone());
  let ne = s.many(20, (0, 0), (2, 4), |s| s.weighted(&[3, 4, 3, 2, 1]).min(scale + 1));
  for _ in 0..ne {
    let sc = s.pick(&schemas).clone();
    let mut name = any_name(s);
    // type names have no quotes of their own: a word, or words separated by a space
    if !is_type_name(&name.text) || sem::builtin(&name.text).is_some() {
      name = Name::new(s.pick(&["state", "role", "kind of", "Status", "mood"]));
    }
    if taken.insert(key(&sc, &name)) {
      d.blocks.push(Block::Enum(gen_enum(s, sc, name)));
    }
  }
  let enums = enums_of(&d);

  let mut taken: BTreeSet<(String, String)> = BTreeSet::new();
  let nt = s.many(21, (1, 1), (3, 7), |s| match s.below(8) {
    0 => s.range(0, 1),
    1..=5 => s.range(1, 2 + scale),
    _ => s.range(2, 3 + 2 * scale),
  });
  // now and then a crowd of small tables besides
  let crowd = if s.chance(1, 60) { s.range(6, 16) } else { 0 };
  for k in 0..nt + crowd {
    let sc = s.pick(&schemas).clone();
    let name = if k < nt { any_name(s) } else { Name::new(&format!("crowd{k}")) };
    if !taken.insert(key(&sc, &name)) {
      continue;
    }
    let mut t = Table { schema: sc, name, ..Table::default() };
    let mut used = BTreeSet::new();
    let mut keyed = false;
    let nc = if k < nt { s.many(22, (0, 1), (4, 10), |s| s.size(4, 4 + 6 * scale)) } else { s.range(1, 2) };
    for _ in 0..nc {
      let name = fresh(s, &mut used);
      let c = gen_col(s, name, &enums, &mut keyed);
      t.items.push(TItem::Col(c));
    }
    if s.feat(9, 2, 5) {
      gen_indexes(s, &mut t, &mut keyed);
    }
    if s.feat(23, 1, 6) {
      t.settings = Some(note_settings(s));
    }
    if s.feat(24, 1, 6) {
      let at = s.range(0, t.items.len());
      t.items.insert(at, TItem::Note(Note { lit: gensyn::string(s, false), block: s.chance(1, 2), sp: (0, 0) }));
    }
    d.blocks.push(Block::Table(t));
  }
  // aliases: distinct, and never the name of another table of the default schema
  let publics: BTreeSet<String> = d.tables().filter(|t| t.schema_name() == "public").map(|t| t.name.text.clone()).collect();
  let mut used: BTreeSet<String> = BTreeSet::new();
  let n = d.tables().count();
  for i in 0..n {
    if !s.feat(25, 1, 2) {
      continue;
    }
    let a = if crowd > 0 && s.chance(1, 2) { Name::new(&format!("al{i}")) } else { any_name(s) };
    let t = d.tables_mut().nth(i).unwrap();
    let own = t.schema_name() == "public" && t.name.text == a.text;
    if (own || !publics.contains(&a.text)) && used.insert(a.text.clone()) {
      t.alias = Some(a);
    }
  }
  let nr = if n == 0 { 0 } else { s.many(26, (0, 0), (4, 9), |s| s.size(3, 3 + 5 * scale)) };
  for _ in 0..nr {
    add_relation(s, &mut d);
  }
  let ng = s.many(27, (0, 0), (2, 4), |s| s.weighted(&[4, 3, 1]));
  let mut gnames = BTreeSet::new();
  for _ in 0..ng {
    let name = fresh(s, &mut gnames);
    let mut g = Group { name, ..Group::default() };
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    order.truncate(s.range(0, n));
    for i in order {
      let (schema, name) = spell(s, &d, table_at(&d, i));
      g.items.push(GEntry::Item(GItem { schema, name, sp: (0, 0) }));
    }
    if s.feat(28, 1, 4) {
      g.settings = Some(note_settings(s));
    }
    if s.feat(24, 1, 6) {
      g.items.push(GEntry::Note(Note { lit: Lit::str("g"), block: false, sp: (0, 0) }));
    }
    d.blocks.push(Block::Group(g));
  }
  if s.chance(1, 5) {
    d.blocks.push(Block::Note(Note { lit: gensyn::string(s, false), block: s.chance(1, 2), sp: (0, 0) }));
  }
  s.shuffle(&mut d.blocks);
  let p = gen_project(s);
  let at = s.range(0, d.blocks.len());
  d.blocks.insert(at, Block::Project(p));
  if s.chance(1, 4000) {
    let mark = gengrow::valid(s, &mut d);
    s.marks.push(mark);
  }
  d
}

/// A long text whose characters take one to four bytes each, so that no round number of bytes or
/// characters is safe to cut at.
pub fn long_text(s: &mut Src) -> String {
  let mut t = "x".repeat(s.range(0, 3));
  let c = *s.pick(&["\u{e9}", "\u{5b57}", "\u{1F600}", "\u{e9}a", "a\u{301}", "ab", "\u{130}", "\u{df}"]);
  let n = *s.pick(&[5usize, 8, 12, 16, 20, 24, 32, 33, 40, 48, 64, 65, 100, 127, 128, 200, 256]);
  while t.chars().count() < n {
    t.push_str(c);
  }
  t
}

/// Makes the names of a namespace long, consistently, or the texts in the document.
pub fn stretch(s: &mut Src, d: &mut Doc) {
  let t = long_text(s);
  let what = s.below(8);
  if what < 5 {
    crate::props::meta::rename_with(d, [0, 1, 2, 4, 1][what as usize], &t);
    return;
  }
  let keys: &[&str] = if what == 5 { &["note"] } else { &["default", "note"] };
  for tb in d.tables_mut() {
    for c in tb.cols_mut() {
      for i in c.settings.iter_mut().flat_map(|x| x.items.iter_mut()) {
        if let SetItem::Attr(Attr { key, val: Some(Lit { k: LitK::Str { text, .. }, .. }), .. }) = i {
          if keys.contains(&key.text.as_str()) && !text.ends_with('\'') {
            text.push_str(&t);
          }
        }
      }
    }
  }
}

/// Gives some of the settings that are written alone a value, which changes nothing: a setting is
/// set when it is there.
pub fn spice(s: &mut Src, d: &mut Doc) {
  if s.chance(1, 40) {
    stretch(s, d);
  }
  if !s.chance(1, 8) {
    return;
  }
  for t in d.tables_mut() {
    let alone = |a: &Attr| a.val.is_none() && ["pk", "primary key", "unique", "null", "not null", "increment"].contains(&a.key.text.as_str());
    let put = |s: &mut Src, st: &mut Option<Settings>| {
      for i in st.iter_mut().flat_map(|st| st.items.iter_mut()) {
        if let SetItem::Attr(a) = i {
          if alone(a) && s.chance(1, 3) {
            a.val = Some(gensyn::value(s, true, true));
          }
        }
      }
    };
    for i in &mut t.items {
      match i {
        TItem::Col(c) => put(s, &mut c.settings),
        TItem::Idx(ib) => ib.defs.iter_mut().for_each(|x| put(s, &mut x.settings)),
        _ => {}
      }
    }
  }
}

fn is_type_name(t: &str) -> bool {
  let b = t.as_bytes();
  !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b' ') && !t.contains("  ") && !t.ends_with(' ')
}

pub fn gen_project(s: &mut Src) -> Project {
  let mut p = Project { name: any_name(s), ..Project::default() };
  let mut keys = vec!["database_type", "Database_type", "version", "x", "X", "a b", "note x"];
  let n = s.range(0, 4);
  for _ in 0..n {
    let k = keys.remove(s.idx(keys.len()));
    let val = if k == "database_type" { Lit::str("PostgreSQL") } else { gensyn::value(s, false, true) };
    p.items.push(PItem::Prop(PropM { key: Name { text: k.into(), quoted: false, sp: (0, 0) }, val, sp: (0, 0) }));
  }
  if s.chance(1, 4) {
    let at = s.range(0, p.items.len());
    p.items.insert(at, PItem::Note(Note { lit: Lit::str("p"), block: false, sp: (0, 0) }));
  }
  p
}

// ---------------------------------------------------------------------------------------------
// changes aimed at one property

fn insert_block(s: &mut Src, d: &mut Doc, b: Block) {
  let at = s.range(0, d.blocks.len());
  d.blocks.insert(at, b);
}

fn pick_table<'a>(s: &mut Src, d: &'a mut Doc) -> Option<&'a mut Table> {
  let n = d.tables().count();
  if n == 0 {
    return None;
  }
  let i = s.idx(n);
  d.tables_mut().nth(i)
}

fn pick_col<'a>(s: &mut Src, d: &'a mut Doc) -> Option<&'a mut Col> {
  let n: usize = d.tables().map(|t| t.cols().count()).sum();
  if n == 0 {
    return None;
  }
  let i = s.idx(n);
  d.tables_mut().flat_map(|t| t.items.iter_mut()).filter_map(|i| if let TItem::Col(c) = i { Some(c) } else { None }).nth(i)
}

/// All settings lists that exist, each by a mutable borrow passed to `f` when chosen.
fn with_settings(s: &mut Src, d: &mut Doc, f: impl FnOnce(&mut Src, &mut Settings)) -> Option<()> {
  let mut all: Vec<&mut Option<Settings>> = vec![];
  for b in d.blocks.iter_mut() {
    match b {
      Block::Table(t) => {
        all.push(&mut t.settings);
        for i in t.items.iter_mut() {
          match i {
            TItem::Col(c) => all.push(&mut c.settings),
            TItem::Idx(ib) => all.extend(ib.defs.iter_mut().map(|d| &mut d.settings)),
            _ => {}
          }
        }
      }
      Block::Enum(e) => all.extend(e.values.iter_mut().map(|v| &mut v.settings)),
      Block::Ref(r) => all.push(&mut r.settings),
      Block::Group(g) => all.push(&mut g.settings),
      _ => {}
    }
  }
  if all.is_empty() {
    return None;
  }
  let i = s.idx(all.len());
  let st = all.remove(i).get_or_insert_with(Settings::default);
  f(s, st);
  Some(())
}

fn opt_schema(s: &mut Src, sc: &Option<Name>) -> Option<Name> {
  match sc {
    Some(n) if n.text == "public" => {
      if s.chance(1, 2) {
        None
      } else {
        Some(respell(s, n))
      }
    }
    Some(n) => Some(respell(s, n)),
    None => {
      if s.chance(1, 2) {
        Some(Name::new("public"))
      } else {
        None
      }
    }
  }
}

fn endpoints_mut(d: &mut Doc) -> Vec<&mut Endpoint> {
  let mut v = vec![];
  for b in d.blocks.iter_mut() {
    match b {
      Block::Ref(r) => {
        v.push(&mut r.lhs);
        v.push(&mut r.rhs);
      }
      Block::Table(t) => {
        for c in t.cols_mut() {
          if let Some(st) = &mut c.settings {
            for i in st.items.iter_mut() {
              if let SetItem::Ref(r) = i {
                v.push(&mut r.rhs);
              }
            }
          }
        }
      }
      _ => {}
    }
  }
  v
}

/// One change aimed at the rules of `fam`, breaking or nearly breaking them.
pub fn change(s: &mut Src, d: &mut Doc, fam: &str) -> Option<&'static str> {
  match fam {
    "C11" => match s.below(5) {
      0 => {
        d.blocks.retain(|b| !matches!(b, Block::Project(_)));
        Some("no project")
      }
      1 => {
        let n = s.range(1, 2);
        for _ in 0..n {
          let p = match d.projects().next() {
            Some(p) if s.chance(1, 2) => p.clone(),
            _ => gen_project(s),
          };
          insert_block(s, d, Block::Project(p));
        }
        Some("another project")
      }
      k => {
        let p = d.projects_mut().next()?;
        if p.props().next().is_none() {
          p.items.push(PItem::Prop(PropM { key: Attr::new("v", None).key, val: Lit::int(1), sp: (0, 0) }));
        }
        let n = p.props().count();
        let i = s.idx(n);
        let mut x = p.props().nth(i).unwrap().clone();
        if k == 4 {
          x.key.text = match s.below(3) {
            0 => x.key.text.to_uppercase(),
            1 => format!("{} 2", x.key.text),
            _ => format!("{}_", x.key.text),
          };
        }
        if s.chance(1, 2) {
          x.val = gensyn::value(s, false, true);
        }
        let at = s.range(0, p.items.len());
        p.items.insert(at, PItem::Prop(x));
        if s.chance(1, 8) {
          for i in 0..s.range(1, 14) {
            let at = s.range(0, p.items.len());
            p.items.insert(at, PItem::Prop(PropM { key: Attr::new(&format!("k{i}"), None).key, val: Lit::int(1), sp: (0, 0) }));
          }
        }
        Some(if k == 4 { "near-duplicate property" } else { "duplicate property" })
      }
    },
    "C12" => match s.below(17) {
      16 => {
        let n = d.tables().count();
        if n == 0 {
          return None;
        }
        let i = s.idx(n);
        if s.chance(1, 3) {
          let es = d.enums().count();
          if es == 0 {
            return None;
          }
          let e = d.enums().nth(s.idx(es)).unwrap().clone();
          let sep = s.pick(SEPS).replace('"', "'");
          let x = Enum { schema: Some(Name::new(&format!("{}{sep}aa", e.schema_name()))), name: Name::new("zz"), ..e.clone() };
          let y = Enum { name: Name::new(&format!("aa{sep}zz")), ..e };
          insert_block(s, d, Block::Enum(x));
          insert_block(s, d, Block::Enum(y));
          return Some("enums whose full names read alike");
        }
        let j = split_twin(s, d, i)?;
        if s.chance(1, 2) {
          let (a, b) = (spell(s, d, table_at(d, i)), spell(s, d, table_at(d, j)));
          let items = [a, b].into_iter().map(|(schema, name)| GEntry::Item(GItem { schema, name, sp: (0, 0) })).collect();
          insert_block(s, d, Block::Group(Group { name: Name::new("zz twins"), items, ..Group::default() }));
        }
        Some("tables whose full names read alike")
      }
      0 => {
        let t = pick_table(s, d)?.clone();
        let mut n = Table { schema: opt_schema(s, &t.schema), name: respell(s, &t.name), ..Table::default() };
        if s.chance(1, 2) {
          n.items = t.items.iter().filter(|i| matches!(i, TItem::Col(c) if c.settings.is_none())).cloned().collect();
        }
        insert_block(s, d, Block::Table(n));
        Some("duplicate table")
      }
      1 => {
        let t = pick_table(s, d)?.clone();
        let mut n = Table { schema: opt_schema(s, &t.schema), name: respell(s, &t.name), ..Table::default() };
        if s.chance(1, 2) {
          n.name = near(s, &t.name.text);
        } else {
          n.schema = Some(near(s, t.schema_name()));
        }
        insert_block(s, d, Block::Table(n));
        Some("near-duplicate table")
      }
      2 | 3 => {
        let t = pick_table(s, d)?;
        let cols: Vec<Col> = t.cols().cloned().collect();
        if cols.is_empty() {
          return None;
        }
        let c = s.pick(&cols);
        let dup = s.chance(1, 2);
        let name = if dup { respell(s, &c.name) } else { near(s, &c.name.text) };
        let n = Col { name, ty: c.ty.clone(), ..Col::default() };
        let at = s.range(0, t.items.len());
        t.items.insert(at, TItem::Col(n));
        Some(if dup { "duplicate column" } else { "near-duplicate column" })
      }
      4 | 5 => {
        let es: Vec<Enum> = d.enums().cloned().collect();
        let dup = s.chance(1, 2);
        let base = if es.is_empty() || s.chance(1, 6) {
          let t = pick_table(s, d)?;
          Enum { schema: t.schema.clone(), name: t.name.clone(), ..Enum::default() }
        } else {
          s.pick(&es).clone()
        };
        let mut n = Enum { schema: opt_schema(s, &base.schema), name: respell(s, &base.name), ..Enum::default() };
        if s.chance(1, 2) {
          n.values = base.values.clone();
        }
        if !dup {
          if s.chance(1, 2) {
            n.name = near(s, &base.name.text);
          } else {
            n.schema = Some(near(s, base.schema_name()));
          }
        }
        insert_block(s, d, Block::Enum(n));
        Some(if dup { "duplicate enum" } else { "near-duplicate enum" })
      }
      6 | 7 => {
        let n = d.enums().count();
        if n == 0 {
          return None;
        }
        let i = s.idx(n);
        let e = d.enums_mut().nth(i).unwrap();
        if e.values.is_empty() {
          return None;
        }
        let v = s.pick(&e.values).clone();
        let dup = s.chance(1, 2);
        let name = if dup { respell(s, &v.name) } else { near(s, &v.name.text) };
        let at = s.range(0, e.values.len());
        e.values.insert(at, EVal { name, settings: None, sp: (0, 0) });
        Some(if dup { "duplicate enum value" } else { "near-duplicate enum value" })
      }
      8 => {
        let gs: Vec<Group> = d.groups().cloned().collect();
        let dup = s.chance(1, 2);
        let nm = if gs.is_empty() { pick_table(s, d)?.name.clone() } else { s.pick(&gs).name.clone() };
        let name = if dup { respell(s, &nm) } else { near(s, &nm.text) };
        let mut g = Group { name, ..Group::default() };
        if s.chance(1, 2) {
          g.items = gs.first().map(|g| g.items.clone()).unwrap_or_default();
        }
        insert_block(s, d, Block::Group(g));
        Some(if dup { "duplicate group" } else { "near-duplicate group" })
      }
      9 | 10 => {
        let n = d.groups().count();
        let nt = d.tables().count();
        if n == 0 || nt == 0 {
          return None;
        }
        let gi = s.idx(n);
        let ti = s.idx(nt);
        let times = s.range(1, 2);
        for _ in 0..times {
          let (schema, name) = spell(s, d, table_at(d, ti));
          let g = d.groups_mut().nth(gi).unwrap();
          let at = s.range(0, g.items.len());
          g.items.insert(at, GEntry::Item(GItem { schema, name, sp: (0, 0) }));
        }
        Some("another group item")
      }
      11 | 12 => {
        let n = d.tables().count();
        if n == 0 {
          return None;
        }
        let i = s.idx(n);
        let j = if s.chance(1, 5) { twin(s, d, i)? } else { s.idx(n) };
        let a = match table_at(d, i).alias.clone() {
          Some(a) => a,
          None => {
            let a = Name::new("zz");
            d.tables_mut().nth(i).unwrap().alias = Some(a.clone());
            a
          }
        };
        let dup = s.chance(1, 2);
        let n = if dup { respell(s, &a) } else { near(s, &a.text) };
        let t = d.tables_mut().nth(j).unwrap();
        if t.alias.is_some() {
          return None;
        }
        t.alias = Some(n);
        Some(if dup { "duplicate alias" } else { "near-duplicate alias" })
      }
      _ => {
        let mut what = "duplicate attribute";
        with_settings(s, d, |s, st| {
          let mut cand: Vec<Attr> = st.attrs().cloned().collect();
          if cand.is_empty() || s.chance(1, 4) {
            let a = Attr::new("zz", None);
            insert_item(s, st, SetItem::Attr(a.clone()));
            cand = vec![a];
          }
          let mut a = s.pick(&cand).clone();
          if s.chance(1, 3) {
            what = "near-duplicate attribute";
            a.key.text = if s.chance(1, 2) { a.key.text.to_uppercase() } else { format!("{} z", a.key.text) };
          } else if a.val.is_none() && s.chance(1, 4) {
            a.val = Some(Lit::str("v"));
          }
          insert_item(s, st, SetItem::Attr(a));
          if s.chance(1, 6) {
            // among many others
            for i in 0..s.range(1, 14) {
              insert_item(s, st, SetItem::Attr(Attr::new(&format!("k{i}"), None)));
            }
          }
        })?;
        Some(what)
      }
    },
    "C13" => match s.below(10) {
      0 => {
        let n = d.groups().count();
        if n == 0 {
          return None;
        }
        let nm = match pick_table(s, d) {
          Some(t) => t.clone(),
          None => Table { name: Name::new("t"), ..Table::default() },
        };
        let i = s.idx(n);
        let mut it = GItem { schema: opt_schema(s, &nm.schema), name: nm.name.clone(), sp: (0, 0) };
        wrong_table(s, &mut it.schema, &mut it.name, &nm);
        let g = d.groups_mut().nth(i).unwrap();
        let at = s.range(0, g.items.len());
        g.items.insert(at, GEntry::Item(it));
        Some("group item changed")
      }
      1 | 2 => {
        let other = pick_col(s, d).map(|c| c.name.clone());
        let t = pick_table(s, d)?;
        let own: Vec<Name> = t.cols().map(|c| c.name.clone()).collect();
        let bad = match s.below(3) {
          0 if !own.is_empty() => {
            let x = s.pick(&own).text.clone();
            near(s, &x)
          }
          1 => other?,
          _ => any_name(s),
        };
        let ib = t.index_section();
        if !ib.defs.is_empty() && s.chance(1, 3) {
          // in an index that is there already
          let k = s.idx(ib.defs.len());
          let def = &mut ib.defs[k];
          let at = s.range(0, def.cols.len());
          def.cols.insert(at, IdxCol::Col(bad));
          def.paren = true;
          return Some("index column added");
        }
        let mut cols = vec![IdxCol::Col(bad)];
        let more = s.weighted(&[4, 3, 2, 1]);
        let mut left = own.clone();
        for _ in 0..more {
          let o = if left.is_empty() || s.chance(1, 3) {
            IdxCol::Expr(Lit::new(LitK::Expr(s.pick(&["now()", "a", "x + 1"]).to_string())))
          } else {
            let j = s.idx(left.len());
            IdxCol::Col(left.remove(j))
          };
          let at = s.range(0, cols.len());
          cols.insert(at, o);
        }
        let settings = if s.chance(1, 2) {
          let a = match s.below(4) {
            0 => Attr::new("unique", None),
            1 => Attr::new("type", Some(Lit::word("hash"))),
            2 => Attr::new("pk", None),
            _ => Attr::new("name", Some(Lit::str("i"))),
          };
          Some(Settings { items: vec![SetItem::Attr(a)], sp: (0, 0) })
        } else {
          None
        };
        let def = IdxDef { paren: cols.len() > 1 || s.chance(1, 2), cols, settings, sp: (0, 0) };
        let at = s.range(0, ib.defs.len());
        ib.defs.insert(at, def);
        Some("index column changed")
      }
      k => {
        if s.chance(1, 3) {
          add_relation(s, d);
        }
        let tables: Vec<Table> = d.tables().cloned().collect();
        if tables.is_empty() {
          return None;
        }
        let other = s.pick(&tables).clone();
        let mut es = endpoints_mut(d);
        if es.is_empty() {
          return None;
        }
        let i = s.idx(es.len());
        let e = &mut *es[i];
        match k {
          3..=5 => {
            let i = s.idx(e.cols.len());
            let old = e.cols[i].text.clone();
            e.cols[i] = match s.below(3) {
              0 => near(s, &old),
              1 => match other.cols().next() {
                Some(c) => c.name.clone(),
                None => near(s, &old),
              },
              _ => any_name(s),
            };
            Some("endpoint column changed")
          }
          6 => {
            // the alias, qualified with a schema
            if let Some(a) = &other.alias {
              e.table = a.clone();
              e.schema = Some(Name::new(other.schema_name()));
              Some("alias with a schema")
            } else {
              e.schema = Some(any_name(s));
              Some("endpoint schema changed")
            }
          }
          _ => {
            let (mut sc, mut nm) = (e.schema.clone(), e.table.clone());
            wrong_table(s, &mut sc, &mut nm, &other);
            e.schema = sc;
            e.table = nm;
            Some("endpoint table changed")
          }
        }
      }
    },
    "C14" if s.chance(1, 6) => {
      // both columns of one type, then each changed a little on its own
      let (a, _, b) = add_relation(s, d)?;
      let i = s.idx(a.1.len());
      let (ca, cb) = (table_at(d, a.0).col(&a.1[i].text)?, table_at(d, b.0).col(&b.1[i].text)?);
      let keyed = ca.is_pk() || cb.is_pk();
      let mut ty = Ty { name: s.pick(OTHER_TYPES).to_string(), ..Ty::default() };
      if s.chance(1, 3) {
        ty.schema = Some(Name::new(s.pick(&["public", "other", "s"])));
      }
      let n = s.range(0, 3);
      for _ in 0..n {
        let v = alike(s);
        ty.args.get_or_insert_with(Vec::new).push(v);
      }
      let n = if keyed { 0 } else { s.range(0, 2) };
      for _ in 0..n {
        ty.arrays.push(dim_alike(s));
      }
      if s.chance(1, 4) {
        // a type with a fixed number of arguments
        ty.schema = None;
        ty.args = None;
        if s.chance(1, 2) {
          ty.name = "varchar".into();
          ty.args = Some(vec![Lit::int(s.range(0, 20) as i64)]);
        } else {
          ty.name = "decimal".into();
          ty.args = Some(vec![Lit::int(s.range(1, 3) as i64), Lit::int(s.range(1, 3) as i64)]);
        }
      }
      let builtin = ty.schema.is_none() && sem::builtin(&ty.name).is_some();
      for (ti, cn) in [(a.0, &a.1[i]), (b.0, &b.1[i])] {
        let mut x = ty.clone();
        if s.chance(1, 2) {
          match s.below(6) {
            0 | 1 => {
              if let Some(v) = x.args.as_mut().filter(|v| !v.is_empty()) {
                let k = s.idx(v.len());
                v[k] = if builtin { Lit::int(s.range(0, 3) as i64) } else { alike(s) };
              }
            }
            2 => {
              if let Some(v) = x.args.as_mut() {
                v.reverse();
              }
            }
            3 => {
              if !x.arrays.is_empty() {
                let k = s.idx(x.arrays.len());
                x.arrays[k] = dim_alike(s);
              }
            }
            4 => x.arrays.reverse(),
            _ => {
              x.schema = if s.chance(1, 2) { None } else { Some(Name::new(s.pick(&["public", "other", "s"]))) };
            }
          }
        }
        let x = respell_type(s, &x);
        let c = d.tables_mut().nth(ti)?.cols_mut().find(|c| c.name.text == cn.text)?;
        if let Some(st) = &mut c.settings {
          st.items.retain(|i| !matches!(i, SetItem::Attr(a) if a.key.text == "default"));
        }
        c.ty = x;
      }
      Some("types alike on both sides")
    }
    "C14" if s.chance(1, 8) => {
      // types that are related, but not the same
      let (a, _, b) = add_relation(s, d)?;
      let i = s.idx(a.1.len());
      let kin: &[&[&str]] = &[
        &["smallint", "int", "bigint", "smallserial", "serial", "bigserial", "bool", "decimal"],
        &["real", "double precision", "decimal", "money"],
        &["char", "varchar", "text", "bit", "varbit", "citext", "json", "xml"],
        &["time", "timetz", "timestamp", "timestamptz", "date"],
        &["json", "jsonb", "text"],
        &["macaddr", "macaddr8", "inet", "cidr", "uuid"],
        &["box", "circle", "line", "lseg", "path", "point", "polygon"],
        &["tsquery", "tsvector", "pg_lsn", "pg_snapshot", "bytea"],
      ];
      let ws = *s.pick(kin);
      let w = *s.pick(ws);
      let v = if s.chance(1, 6) { w } else { *s.pick(ws) };
      let n = s.range(0, 12) as i64;
      for (ti, cn, w) in [(a.0, &a.1[i], w), (b.0, &b.1[i], v)] {
        let mut x = Ty { name: w.to_string(), quoted: w.contains(' '), ..Ty::default() };
        if sem::arg_count(w) > 0 && n > 3 {
          x.args = Some(vec![Lit::int(n); sem::arg_count(w)]);
        }
        let x = respell_type(s, &x);
        let c = d.tables_mut().nth(ti)?.cols_mut().find(|c| c.name.text == cn.text)?;
        if let Some(st) = &mut c.settings {
          st.items.retain(|i| !matches!(i, SetItem::Attr(a) if a.key.text == "default"));
        }
        c.ty = x;
      }
      Some("related types on both sides")
    }
    "C14" => {
      let fix = s.chance(1, 2);
      if s.chance(1, 2) {
        add_relation(s, d);
      }
      if s.chance(1, 6) {
        // another number of columns
        let tables: Vec<Table> = d.tables().cloned().collect();
        let mut es = endpoints_mut(d);
        if es.is_empty() {
          return None;
        }
        let i = s.idx(es.len());
        let e = &mut *es[i];
        if e.cols.len() > 1 && s.chance(1, 2) {
          e.cols.remove(s.idx(e.cols.len()));
        } else {
          let t = tables.iter().find(|t| t.name.text == e.table.text || t.alias.as_ref().is_some_and(|a| a.text == e.table.text))?;
          let free: Vec<Name> = t.cols().map(|c| c.name.clone()).filter(|n| !e.cols.iter().any(|c| c.text == n.text)).collect();
          if free.is_empty() {
            return None;
          }
          let c = s.pick(&free).clone();
          let at = s.range(0, e.cols.len());
          e.cols.insert(at, c);
          e.paren = true;
        }
        return Some("other number of columns");
      }
      // change a related column's type
      let rels = sem::relations(d);
      if rels.is_empty() {
        return None;
      }
      let r = &rels[s.idx(rels.len())];
      let e = if s.chance(1, 2) { r.lhs.clone() } else { r.rhs.clone() };
      let cn = s.pick(&e.cols).text.clone();
      let env = sem::Env::new(d);
      let q = env.resolve(&e.schema, &e.table.text);
      drop(env);
      let enums = enums_of(d);
      let t = d.tables_mut().find(|t| (t.schema_name(), t.name.text.as_str()) == (q.0.as_str(), q.1.as_str()))?;
      let c = t.cols_mut().find(|c| c.name.text == cn)?;
      if fix {
        c.ty = respell_type(s, &c.ty.clone());
        return Some("type spelled differently");
      }
      let old = c.ty.clone();
      match s.below(8) {
        0 => {
          let at = s.range(0, c.ty.arrays.len());
          c.ty.arrays.insert(at, if s.chance(1, 2) { Some("3".into()) } else { None });
        }
        7 => {
          if c.ty.arrays.is_empty() {
            // an array on both sides, of different sizes
            let rels = sem::relations(d);
            let both: Vec<((String, String), String)> = rels
              .iter()
              .filter_map(|r| {
                let i = [&r.lhs, r.rhs].iter().find_map(|e| e.cols.iter().position(|x| x.text == cn))?;
                Some([&r.lhs, r.rhs].map(|e| (sem::Env::new(d).resolve(&e.schema, &e.table.text), e.cols.get(i).map(|c| c.text.clone()).unwrap_or_default())))
              })
              .next()?
              .into();
            for (q, cn) in both {
              if let Some(t) = d.tables_mut().find(|t| (t.schema_name(), t.name.text.as_str()) == (q.0.as_str(), q.1.as_str())) {
                if let Some(c) = t.cols_mut().find(|c| c.name.text == cn) {
                  c.ty.arrays = vec![Some(s.range(2, 4).to_string())];
                }
              }
            }
            return Some("arrays of a size each");
          }
          let i = s.idx(c.ty.arrays.len());
          match s.below(3) {
            0 => {
              c.ty.arrays.remove(i);
            }
            1 => c.ty.arrays[i] = Some(s.range(0, 12).to_string()),
            _ => c.ty.arrays[i] = if c.ty.arrays[i].is_some() { None } else { Some("2".into()) },
          }
        }
        1 => {
          let a = c.ty.args.get_or_insert_with(Vec::new);
          if a.is_empty() {
            let n = sem::arg_count(sem::builtin(&c.ty.name).unwrap_or(""));
            if n == 0 {
              c.ty.args = None;
            } else {
              *a = vec![Lit::int(5); n];
            }
          } else {
            let i = s.idx(a.len());
            a[i] = Lit::int(s.range(0, 15) as i64);
          }
        }
        2 => {
          c.ty.args = None;
        }
        3 => {
          // the same name in another schema
          if sem::builtin(&c.ty.name).is_none() {
            c.ty.schema = Some(any_name(s));
          } else {
            c.ty.name = format!("{}x", c.ty.name);
            c.ty.args = None;
          }
        }
        4 => {
          if let Some(Some(x)) = c.ty.arrays.first() {
            let x = format!("0{x}");
            c.ty.arrays[0] = Some(x);
          } else {
            c.ty = Ty { name: near(s, &c.ty.name).text.replace(' ', "x"), ..Ty::default() };
            if !is_type_name(&c.ty.name) {
              c.ty.name = "zz".into();
            }
          }
        }
        _ => c.ty = good_type(s, &enums),
      }
      if sem::same_type(&old, &c.ty) {
        Some("type unchanged in meaning")
      } else {
        Some("type of a related column changed")
      }
    }
    "C15" => {
      let r = add_relation(s, d)?;
      let (a, rel, b) = r;
      if b.1.len() > 1 && s.chance(1, 8) {
        let (old, new) = split_pair(s, d, b.0, &b.1[0], &b.1[1])?;
        let t = d.tables_mut().nth(b.0).unwrap();
        drop_keys(s, t, &with_pair(&b.1, &old));
        make_key(s, t, &with_pair(&b.1, &new));
        return Some("key on columns that read alike");
      }
      match s.below(6) {
        0 => {
          // another relation between the same columns, kinds changed
          let rel2 = *s.pick(&[Rel::O2O, Rel::O2M, Rel::M2O, Rel::M2M]);
          remove_last_like(d, &a, &b);
          put_ref(s, d, a, rel2, b);
          Some("relation kind changed")
        }
        1 | 2 => {
          let t = d.tables_mut().nth(b.0).unwrap();
          drop_keys(s, t, &b.1);
          Some("key dropped")
        }
        3 => {
          let t = d.tables_mut().nth(b.0).unwrap();
          drop_keys(s, t, &b.1);
          // a key on more or fewer columns
          let names: Vec<Name> = t.cols().map(|c| c.name.clone()).collect();
          let mut cols = b.1.clone();
          if s.chance(1, 2) && cols.len() > 1 {
            cols.pop();
          } else {
            let free: Vec<Name> = names.into_iter().filter(|n| !cols.iter().any(|c| c.text == n.text)).collect();
            if !free.is_empty() {
              cols.push(s.pick(&free).clone());
            }
          }
          add_index(s, t, &cols, "unique");
          Some("key on other columns")
        }
        4 => {
          let t = d.tables_mut().nth(b.0).unwrap();
          drop_keys(s, t, &b.1);
          let k = *s.pick(&["", "unique", "Unique", "name", "note", "pk", "type", ""]);
          let mut cols = b.1.clone();
          s.shuffle(&mut cols);
          add_index(s, t, &cols, k);
          if s.chance(1, 4) {
            // an index of more entries than columns
            let n = s.range(1, 3);
            if let Some(d) = t.indexes_mut().and_then(|ib| ib.defs.iter_mut().find(|d| d.cols.len() == cols.len() && d.settings.is_some())) {
              for e in ["x + 1", "lower(a)", "now()"].iter().take(n) {
                let at = s.range(0, d.cols.len());
                d.cols.insert(at, IdxCol::Expr(Lit::new(LitK::Expr(e.to_string()))));
              }
              d.paren = true;
            }
          }
          Some("key declared otherwise")
        }
        _ => {
          let t = d.tables_mut().nth(a.0).unwrap();
          if s.chance(1, 2) {
            drop_keys(s, t, &a.1);
            if s.chance(1, 3) {
              add_index(s, t, &a.1, "");
            }
          } else {
            make_key(s, t, &a.1);
          }
          let _ = rel;
          Some("key of the referencing side")
        }
      }
    }
    "C16" => {
      let (a, rel, b) = add_relation(s, d)?;
      if a.1.len() > 1 && s.chance(1, 8) {
        let (old, new) = split_pair(s, d, a.0, &a.1[0], &a.1[1])?;
        let cols = with_pair(&a.1, &new);
        if rel == Rel::M2M {
          make_key(s, d.tables_mut().nth(a.0).unwrap(), &cols);
        }
        let b1 = if a.0 == b.0 { b.1.iter().map(|n| if n.text == a.1[0].text { old[0].clone() } else { n.clone() }).collect() } else { b.1.iter().map(|n| if table_at(d, b.0).col(&n.text).is_some() { n.clone() } else { old[0].clone() }).collect() };
        put_ref(s, d, (a.0, cols), rel, (b.0, b1));
        return Some("relation of columns that read alike");
      }
      match s.below(10) {
        9 => {
          // the same relationship of tables of the same names in another schema
          let (l, r) = match s.below(3) {
            0 => (twin(s, d, a.0)?, b.0),
            1 => (a.0, twin(s, d, b.0)?),
            _ => {
              let x = twin(s, d, a.0)?;
              (x, if a.0 == b.0 { x } else { twin(s, d, b.0)? })
            }
          };
          let how = s.below(3);
          if how == 0 && rel != Rel::M2O {
            put_ref(s, d, (r, b.1), rel.flip(), (l, a.1));
          } else {
            put_ref(s, d, (l, a.1), rel, (r, b.1));
          }
          Some("relation of a table's namesake")
        }
        7 | 8 => {
          // between some of the columns, or more of them, or partly others
          let n = a.1.len();
          let mut pairs: Vec<(Name, Name)> = a.1.iter().cloned().zip(b.1.iter().cloned()).collect();
          let how = s.below(3);
          if n > 1 && how < 2 {
            let i = s.idx(n);
            pairs.remove(i);
          }
          if n == 1 || how > 0 {
            let enums = enums_of(d);
            let ty = good_type(s, &enums);
            let y = new_cols(s, d.tables_mut().nth(b.0)?, std::slice::from_ref(&ty)).remove(0);
            let x = new_cols(s, d.tables_mut().nth(a.0)?, std::slice::from_ref(&ty)).remove(0);
            let at = s.range(0, pairs.len());
            pairs.insert(at, (x, y));
          }
          let (a2, b2): (Vec<Name>, Vec<Name>) = pairs.into_iter().unzip();
          make_key(s, d.tables_mut().nth(b.0)?, &b2);
          if rel == Rel::M2M {
            make_key(s, d.tables_mut().nth(a.0)?, &a2);
          }
          put_ref(s, d, (a.0, a2), rel, (b.0, b2));
          Some("relation between part of the columns")
        }
        5 => {
          // the key related to itself
          let rel2 = if s.chance(2, 3) { rel } else { *s.pick(&[Rel::O2O, Rel::M2M, Rel::M2O]) };
          let mut b2 = b.clone();
          s.shuffle(&mut b2.1);
          if s.chance(1, 2) {
            b2.1 = b.1.clone();
          }
          put_ref(s, d, b, rel2, b2);
          Some("key related to itself")
        }
        0..=2 => {
          let (mut a2, mut b2) = (a, b);
          let n = a2.1.len();
          if n > 1 && s.chance(1, 2) {
            // the same pairs in another order
            let mut order: Vec<usize> = (0..n).collect();
            s.shuffle(&mut order);
            a2.1 = order.iter().map(|i| a2.1[*i].clone()).collect();
            b2.1 = order.iter().map(|i| b2.1[*i].clone()).collect();
          }
          if s.chance(1, 2) && rel != Rel::M2O {
            put_ref(s, d, b2, rel.flip(), a2);
          } else {
            put_ref(s, d, a2, rel, b2);
          }
          Some("relation repeated")
        }
        3 => {
          // the same columns to another key
          let types: Vec<Ty> = b.1.iter().map(|k| table_at(d, b.0).col(&k.text).unwrap().ty.clone()).collect();
          let n = d.tables().count();
          let ti = s.idx(n);
          let t = d.tables_mut().nth(ti).unwrap();
          let cols = new_cols(s, t, &types);
          make_key(s, t, &cols);
          let rel2 = if s.chance(1, 2) { rel } else { *s.pick(&[Rel::M2O, Rel::O2O, Rel::O2M]) };
          put_ref(s, d, a, rel2, (ti, cols));
          Some("same columns to another key")
        }
        4 => {
          // other columns to the same key
          let types: Vec<Ty> = b.1.iter().map(|k| table_at(d, b.0).col(&k.text).unwrap().ty.clone()).collect();
          let n = d.tables().count();
          let ti = s.idx(n);
          let t = d.tables_mut().nth(ti).unwrap();
          let cols = new_cols(s, t, &types);
          if rel == Rel::M2M {
            make_key(s, t, &cols);
          }
          put_ref(s, d, (ti, cols), rel, b);
          Some("other columns to the same key")
        }
        _ => {
          let rel2 = *s.pick(&[Rel::O2O, Rel::O2M, Rel::M2O, Rel::M2M]);
          put_ref(s, d, a, rel2, b);
          Some("relation of any kind between the same columns")
        }
      }
    }
    "C17" => match s.below(7) {
      0 | 1 => {
        let c = pick_col(s, d)?;
        let k = *s.pick(&["pk", "primary key"]);
        if c.is_pk() {
          return None;
        }
        if s.chance(1, 2) {
          if let Some(st) = &mut c.settings {
            st.items.retain(|i| !matches!(i, SetItem::Attr(a) if a.key.text == "null"));
          }
        }
        insert_item(s, c.set(), attr(k));
        Some("column made primary key")
      }
      2 => {
        let t = pick_table(s, d)?;
        let mut cols: Vec<Name> = t.cols().map(|c| c.name.clone()).collect();
        if cols.is_empty() {
          return None;
        }
        s.shuffle(&mut cols);
        cols.truncate(s.range(1, 3));
        add_index(s, t, &cols, "pk");
        Some("index made primary key")
      }
      3 => {
        let c = pick_col(s, d)?;
        let k = *s.pick(&["null", "not null"]);
        if c.has(k) {
          return None;
        }
        insert_item(s, c.set(), attr(k));
        Some("nullability added")
      }
      4 => {
        let c = pick_col(s, d)?;
        c.ty.arrays.push(None);
        Some("type made an array")
      }
      _ => {
        let c = pick_col(s, d)?;
        let st = c.set();
        st.items.retain(|i| !matches!(i, SetItem::Attr(_)));
        for k in ["pk", "null", "not null", "unique"] {
          if s.chance(1, 2) {
            insert_item(s, st, attr(k));
          }
        }
        if s.chance(1, 3) {
          if s.chance(1, 2) {
            c.ty.arrays.push(Some("2".into()));
          } else if c.ty.quoted {
            c.ty.outer.push(None);
          }
        }
        Some("column settings changed")
      }
    },
    "C18" => {
      if s.chance(1, 12) {
        // lists of columns that read alike
        let ti = s.idx(d.tables().count().max(1));
        let names: Vec<Name> = d.tables().nth(ti)?.cols().map(|c| c.name.clone()).collect();
        if names.len() < 2 {
          return None;
        }
        let i = s.idx(names.len() - 1);
        let (old, new) = split_pair(s, d, ti, &names[i], &names[i + 1])?;
        let mut lists = vec![old.to_vec(), new.to_vec()];
        if s.chance(1, 3) {
          // and a column named like both
          let sep = s.pick(SEPS).replace('"', "'");
          let n = Name::new(&format!("{}{sep}{}", new[0].text, new[1].text));
          let t = d.tables_mut().nth(ti).unwrap();
          if t.col(&n.text).is_none() {
            t.items.push(TItem::Col(Col { name: n.clone(), ty: Ty { name: "text".into(), ..Ty::default() }, ..Col::default() }));
            lists[0] = vec![n];
          }
        }
        s.shuffle(&mut lists);
        let k = *s.pick(&["unique", "", "hash", "btree"]);
        for l in &lists {
          let settings = match k {
            "" => None,
            "unique" => Some(Settings { items: vec![attr("unique")], sp: (0, 0) }),
            k => Some(Settings { items: vec![SetItem::Attr(Attr::new("type", Some(Lit::word(k))))], sp: (0, 0) }),
          };
          let cols: Vec<IdxCol> = l.iter().cloned().map(IdxCol::Col).collect();
          d.tables_mut().nth(ti).unwrap().index_section().defs.push(IdxDef { paren: cols.len() > 1, cols, settings, sp: (0, 0) });
        }
        return Some("indexes on columns that read alike");
      }
      let t = pick_table(s, d)?;
      let cols: Vec<Name> = t.cols().map(|c| c.name.clone()).collect();
      let ib = t.index_section();
      match s.below(6) {
        0 => {
          let settings = if s.chance(1, 2) { None } else { Some(Settings { items: vec![attr("unique")], sp: (0, 0) }) };
          let def = IdxDef { cols: vec![], paren: true, settings, sp: (0, 0) };
          let at = s.range(0, ib.defs.len());
          ib.defs.insert(at, def);
          Some("index without columns")
        }
        1 => {
          if ib.defs.is_empty() {
            return None;
          }
          let i = s.idx(ib.defs.len());
          let st = ib.defs[i].settings.get_or_insert_with(Settings::default);
          let k = *s.pick(&["pk", "unique", "type", "name", "note"]);
          if st.has(k) {
            return None;
          }
          let v = match k {
            "type" => Some(Lit::word(*s.pick(crate::refparse::INDEX_TYPES))),
            "name" | "note" => Some(Lit::str("x")),
            _ => None,
          };
          insert_item(s, st, SetItem::Attr(Attr::new(k, v)));
          Some("index setting added")
        }
        2 | 3 => {
          if ib.defs.is_empty() {
            return None;
          }
          let mut def = s.pick(&ib.defs).clone();
          if s.chance(1, 2) {
            s.shuffle(&mut def.cols);
          }
          match s.below(5) {
            0 => def.settings = None,
            1 => def.settings = Some(Settings { items: vec![SetItem::Attr(Attr::new("type", Some(Lit::word(*s.pick(crate::refparse::INDEX_TYPES)))))], sp: (0, 0) }),
            2 => def.settings = Some(Settings { items: vec![attr("unique")], sp: (0, 0) }),
            _ => {}
          }
          if s.chance(1, 4) && def.cols.len() > 1 {
            def.cols.pop();
          }
          def.paren = def.cols.len() != 1;
          let at = s.range(0, ib.defs.len());
          ib.defs.insert(at, def);
          Some("index repeated")
        }
        _ => {
          let mut pool: Vec<IdxCol> = cols.iter().map(|n| IdxCol::Col(n.clone())).collect();
          pool.truncate(3);
          let mut exprs: Vec<String> = vec!["f(x)".into(), "g(x)".into()];
          if s.chance(1, 3) {
            exprs = vec!["f(x) + 1".into(), s.pick(&["f(x) +  1", "f(x)+1", "f(X) + 1", "f(x) + 1 ", "f(x)\n+ 1", "f(x)\t+ 1", "F(x) + 1", "(f(x) + 1)", "f(x) + 01"]).to_string()];
          } else if let Some(IdxCol::Col(n)) = pool.first() {
            if s.chance(1, 3) {
              exprs = vec![n.text.clone(), format!("{} ", n.text)];
            }
          }
          // a column whose name looks like an expression
          if s.chance(1, 6) {
            let e = s.pick(&exprs).clone();
            let n = Name { text: format!("`{e}`"), quoted: true, ..Name::default() };
            if !cols.iter().any(|c| c.text == n.text) {
              t.items.push(TItem::Col(Col { name: n.clone(), ty: Ty { name: "text".into(), ..Ty::default() }, ..Col::default() }));
              if s.chance(1, 2) {
                t.cols_mut().last().unwrap().set().items.push(attr("unique"));
              }
              pool.push(IdxCol::Col(n));
            }
          }
          let ib = t.index_section();
          for e in exprs {
            pool.push(IdxCol::Expr(Lit::new(LitK::Expr(e))));
          }
          let n = s.range(2, 4);
          for _ in 0..n {
            let mut p = pool.clone();
            let k = s.range(1, p.len().min(2));
            let cols: Vec<IdxCol> = (0..k).map(|_| p.remove(s.idx(p.len()))).collect();
            let settings = match s.below(4) {
              0 => None,
              1 => Some(Settings { items: vec![attr("unique")], sp: (0, 0) }),
              2 => Some(Settings { items: vec![SetItem::Attr(Attr::new("type", Some(Lit::word(*s.pick(&["btree", "hash"])))))], sp: (0, 0) }),
              _ => Some(Settings { items: vec![SetItem::Attr(Attr::new("name", Some(Lit::str("x"))))], sp: (0, 0) }),
            };
            ib.defs.push(IdxDef { paren: cols.len() > 1, cols, settings, sp: (0, 0) });
          }
          Some("several indexes added")
        }
      }
    }
    "C19" => {
      let lone = s.chance(1, 2);
      let mut ty = Ty::default();
      let line = if s.chance(1, 2) { *s.pick(sem::BUILTIN) } else { *sem::BUILTIN.iter().find(|l| sem::arg_count(l[0]) > 0 && s.chance(1, 4)).unwrap_or(&sem::BUILTIN[3]) };
      let w = *s.pick(line);
      set_spelling(s, &mut ty, w);
      if s.chance(1, 10) {
        ty.name = s.pick(OTHER_TYPES).to_string();
        ty.quoted = false;
      }
      let n = s.range(0, 3);
      let mut args: Vec<Lit> = (0..n).map(|_| Lit::int(s.range(0, 300) as i64)).collect();
      if s.chance(1, 3) {
        for a in args.iter_mut() {
          if s.chance(1, 2) {
            *a = gensyn::value(s, false, false);
            // see the writer
            if a.raw().contains("\".") {
              *a = Lit::str("x");
            }
          }
        }
      }
      ty.args = if n == 0 && s.chance(1, 2) { None } else { Some(args) };
      if s.chance(1, 5) {
        let n = s.range(1, 3);
        for _ in 0..n {
          let x = dim_alike(s);
          if ty.quoted && s.chance(1, 2) {
            ty.outer.push(x);
          } else {
            ty.arrays.push(x);
          }
        }
      }
      if lone {
        let t = pick_table(s, d)?;
        let mut used: BTreeSet<String> = t.cols().map(|c| c.name.text.clone()).collect();
        let name = fresh(s, &mut used);
        let at = s.range(0, t.items.len());
        t.items.insert(at, TItem::Col(Col { name, ty, ..Col::default() }));
      } else {
        let c = pick_col(s, d)?;
        c.ty = ty;
      }
      Some("type arguments")
    }
    "C20" => {
      let enums = enums_of(d);
      let t = pick_table(s, d)?;
      let mut used: BTreeSet<String> = t.cols().map(|c| c.name.text.clone()).collect();
      let name = fresh(s, &mut used);
      let mut c = Col { name, ..Col::default() };
      c.ty = good_type(s, &enums);
      if s.chance(1, 3) {
        let w = *s.pick(&["varchar", "char", "bit", "varbit", "character varying", "smallint", "int", "integer", "int2", "int4", "bigint", "bool", "boolean"]);
        c.ty = Ty::default();
        set_spelling(s, &mut c.ty, w);
        if sem::arg_count(sem::builtin(w).unwrap()) == 1 && s.chance(4, 5) {
          c.ty.args = Some(vec![Lit::int(if s.chance(1, 12) { *s.pick(&[127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 1 << 31, (1 << 32) + 1, 1 << 40, i64::MAX]) } else { s.range(0, 8) as i64 })]);
        }
      } else if s.chance(1, 8) {
        c.ty.schema = Some(any_name(s));
      }
      if s.chance(1, 2) {
        let k = *s.pick(&["null", "not null"]);
        insert_item(s, c.set(), attr(k));
      }
      let v = match s.below(6) {
        0 | 1 => {
          let cap = match c.ty.args.as_ref().and_then(|a| a.first()) {
            Some(Lit { k: LitK::Int(n), .. }) => n.parse::<usize>().unwrap_or(0),
            _ => 3,
          };
          let n = match s.below(4) {
            0 => cap,
            1 => cap + 1,
            2 => cap.saturating_sub(1),
            _ => s.range(0, 12),
          };
          let t = text_of_len(s, n);
          str_lit(s, t)
        }
        2 => Lit::int(*s.pick(&[0, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, i64::MAX])),
        3 => {
          let e: Vec<Name> = enums.iter().flat_map(|e| e.2.iter().cloned()).collect();
          if e.is_empty() {
            Lit::word("active")
          } else {
            let mut v = s.pick(&e).text.clone();
            if s.chance(1, 3) {
              v = near(s, &v).text;
            }
            if is_var(&v) && !["true", "false", "null"].contains(&v.as_str()) && s.chance(1, 2) {
              Lit::word(&v)
            } else if v.starts_with([' ', '\n', '\t', '\r']) {
              Lit::word("active")
            } else {
              str_lit(s, v)
            }
          }
        }
        4 => Lit::new(LitK::Null),
        _ => match s.below(5) {
          0 | 1 => Lit::new(LitK::Bool(s.chance(1, 2))),
          2 => Lit::new(LitK::Dec("99999999999.5".into())),
          3 => Lit::new(LitK::Hex("#fff".into())),
          _ => Lit::new(LitK::Expr("now()".into())),
        },
      };
      insert_item(s, c.set(), SetItem::Attr(Attr::new("default", Some(v))));
      let at = s.range(0, t.items.len());
      t.items.insert(at, TItem::Col(c));
      Some("default added")
    }
    _ => None,
  }
}

const SEPS: &[&str] = &[".", ".", ",", ", ", " ", "_", "/", "|", ":", "-", "", "\n", "\".\""];

/// Another table whose schema and name, put together, read like those of the given one.
fn split_twin(s: &mut Src, d: &mut Doc, ti: usize) -> Option<usize> {
  let sep = s.pick(SEPS).replace('"', "'");
  let old = table_at(d, ti).name.text.clone();
  let new = format!("{old}{sep}zz");
  let ren = |n: &mut Name| {
    if n.text == old {
      *n = Name::new(&new);
    }
  };
  for t in d.tables_mut() {
    ren(&mut t.name);
    t.alias.iter_mut().for_each(ren);
  }
  for b in &mut d.blocks {
    match b {
      Block::Table(t) => {
        for i in t.cols_mut().filter_map(|c| c.settings.as_mut()).flat_map(|st| st.items.iter_mut()) {
          if let SetItem::Ref(r) = i {
            ren(&mut r.rhs.table);
          }
        }
      }
      Block::Ref(r) => {
        ren(&mut r.lhs.table);
        ren(&mut r.rhs.table);
      }
      Block::Group(g) => {
        for i in &mut g.items {
          if let GEntry::Item(i) = i {
            ren(&mut i.name);
          }
        }
      }
      _ => (),
    }
  }
  let mut t = table_at(d, ti).clone();
  t.schema = Some(Name::new(&format!("{}{sep}{old}", t.schema_name())));
  t.name = Name::new("zz");
  if d.tables().any(|o| o.schema_name() == t.schema_name() && o.name.text == t.name.text) {
    return None;
  }
  t.alias = None;
  for c in t.cols_mut() {
    if let Some(st) = &mut c.settings {
      st.items.retain(|i| !matches!(i, SetItem::Ref(_)));
    }
  }
  d.blocks.push(Block::Table(t));
  Some(d.tables().count() - 1)
}

/// Two more columns of the table whose names, put together, read like those of the given ones, the
/// first of which is renamed: the pair as it is called now, and the new one.
fn split_pair(s: &mut Src, d: &mut Doc, ti: usize, a: &Name, b: &Name) -> Option<([Name; 2], [Name; 2])> {
  let sep = s.pick(SEPS).replace('"', "'");
  let new = Name::new(&format!("{}{sep}zz", a.text));
  let tail = Name::new(&format!("zz{sep}{}", b.text));
  let t = table_at(d, ti);
  let (ta, tb) = (t.col(&a.text)?.ty.clone(), t.col(&b.text)?.ty.clone());
  if a.text == b.text || d.tables().any(|t| t.cols().any(|c| c.name.text == new.text || c.name.text == tail.text)) {
    return None;
  }
  let ren = |n: &mut Name| {
    if n.text == a.text {
      *n = new.clone();
    }
  };
  for x in &mut d.blocks {
    match x {
      Block::Table(t) => {
        for i in &mut t.items {
          match i {
            TItem::Col(c) => {
              ren(&mut c.name);
              for i in c.settings.iter_mut().flat_map(|st| st.items.iter_mut()) {
                if let SetItem::Ref(r) = i {
                  r.rhs.cols.iter_mut().for_each(ren);
                }
              }
            }
            TItem::Idx(ib) => {
              for c in ib.defs.iter_mut().flat_map(|d| d.cols.iter_mut()) {
                if let IdxCol::Col(n) = c {
                  ren(n);
                }
              }
            }
            _ => (),
          }
        }
      }
      Block::Ref(r) => {
        r.lhs.cols.iter_mut().for_each(ren);
        r.rhs.cols.iter_mut().for_each(ren);
      }
      _ => (),
    }
  }
  let head = Name::new(&a.text);
  let t = d.tables_mut().nth(ti).unwrap();
  for (n, ty) in [(&head, ta), (&tail, tb)] {
    let at = s.range(0, t.items.len());
    t.items.insert(at, TItem::Col(Col { name: n.clone(), ty, ..Col::default() }));
  }
  Some(([new, b.clone()], [head, tail]))
}

/// The columns with those of the pair in the place of the first two.
fn with_pair(cols: &[Name], pair: &[Name; 2]) -> Vec<Name> {
  pair.iter().chain(&cols[2..]).cloned().collect()
}

/// Another table of the same name and columns in another schema; its place. It comes last among
/// the tables, so that the places of the others stay.
fn twin(s: &mut Src, d: &mut Doc, ti: usize) -> Option<usize> {
  if s.chance(1, 3) {
    return split_twin(s, d, ti);
  }
  let mut t = table_at(d, ti).clone();
  let schemas: Vec<Name> = ["public", "s", "other"].iter().map(|n| Name::new(n)).filter(|n| n.text != t.schema_name()).collect();
  let sc = s.pick(&schemas).clone();
  if d.tables().any(|o| o.schema_name() == sc.text && o.name.text == t.name.text) {
    return None;
  }
  t.schema = Some(sc);
  t.alias = None;
  for c in t.cols_mut() {
    if let Some(st) = &mut c.settings {
      st.items.retain(|i| !matches!(i, SetItem::Ref(_)));
    }
  }
  d.blocks.push(Block::Table(t));
  Some(d.tables().count() - 1)
}

fn wrong_table(s: &mut Src, schema: &mut Option<Name>, name: &mut Name, other: &Table) {
  match s.below(6) {
    0 => *name = near(s, &name.text.clone()),
    1 => *schema = Some(any_name(s)),
    2 => {
      *name = other.name.clone();
      *schema = Some(near(s, other.schema_name()));
    }
    3 => {
      *name = other.name.clone();
      *schema = None;
    }
    4 => *name = any_name(s),
    _ => {
      if let Some(a) = &other.alias {
        *name = a.clone();
        *schema = opt_schema(s, &other.schema);
      } else {
        *schema = None;
      }
    }
  }
}

fn add_index(s: &mut Src, t: &mut Table, cols: &[Name], key: &str) {
  let ic: Vec<IdxCol> = cols.iter().map(|c| IdxCol::Col(respell(s, c))).collect();
  let v = match key {
    "name" | "note" => Some(Lit::str("x")),
    "type" => Some(Lit::word(*s.pick(crate::refparse::INDEX_TYPES))),
    _ => None,
  };
  let settings = if key.is_empty() { None } else { Some(Settings { items: vec![SetItem::Attr(Attr::new(key, v))], sp: (0, 0) }) };
  let def = IdxDef { paren: ic.len() > 1 || s.chance(1, 3), cols: ic, settings, sp: (0, 0) };
  let ib = t.index_section();
  let at = s.range(0, ib.defs.len());
  ib.defs.insert(at, def);
}

/// Takes away what makes the columns a key, or most of it.
fn drop_keys(s: &mut Src, t: &mut Table, cols: &[Name]) {
  let set: BTreeSet<&str> = cols.iter().map(|c| c.text.as_str()).collect();
  for c in t.cols_mut() {
    if set.contains(c.name.text.as_str()) && (cols.len() == 1 || s.chance(1, 4)) {
      if let Some(st) = &mut c.settings {
        st.items.retain(|i| !matches!(i, SetItem::Attr(a) if ["pk", "primary key", "unique"].contains(&a.key.text.as_str())));
      }
    }
  }
  if let Some(ib) = t.indexes_mut() {
    ib.defs.retain(|d| {
      let ds: BTreeSet<&str> = d.cols.iter().filter_map(|c| if let IdxCol::Col(n) = c { Some(n.text.as_str()) } else { None }).collect();
      ds != set || ds.len() != d.cols.len()
    });
  }
}

/// Removes one relationship between the two column lists.
fn remove_last_like(d: &mut Doc, a: &(usize, Vec<Name>), b: &(usize, Vec<Name>)) {
  let cols = |e: &Endpoint| e.cols.iter().map(|c| c.text.clone()).collect::<Vec<_>>();
  let (ca, cb): (Vec<String>, Vec<String>) = (a.1.iter().map(|c| c.text.clone()).collect(), b.1.iter().map(|c| c.text.clone()).collect());
  let hit = |l: Vec<String>, r: Vec<String>| (l == ca && r == cb) || (l == cb && r == ca);
  let mut done = false;
  d.blocks.retain(|x| match x {
    Block::Ref(r) if !done && hit(cols(&r.lhs), cols(&r.rhs)) => {
      done = true;
      false
    }
    _ => true,
  });
  if done {
    return;
  }
  for t in d.tables_mut() {
    for c in t.cols_mut() {
      let n = vec![c.name.text.clone()];
      if let Some(st) = &mut c.settings {
        st.items.retain(|i| match i {
          SetItem::Ref(r) if !done && hit(n.clone(), cols(&r.rhs)) => {
            done = true;
            false
          }
          _ => true,
        });
      }
    }
  }
}

/// Takes out of a small world what violates rules of other properties than `fam`.
pub fn weed(d: &mut Doc, fam: &str) {
  let ok = |d: &Doc| sem::analyze(d).viols.iter().all(|v| v.k.family() == fam);
  // the document without its relationships
  let strip = |d: &Doc| {
    let mut b = d.clone();
    b.blocks.retain(|x| !matches!(x, Block::Ref(_)));
    for c in b.tables_mut().flat_map(|t| t.items.iter_mut()) {
      if let TItem::Col(Col { settings: Some(st), .. }) = c {
        st.items.retain(|i| !matches!(i, SetItem::Ref(_)));
      }
    }
    b
  };
  let mut base = strip(d);
  if !ok(&base) {
    for i in (0..d.blocks.len()).rev() {
      let mut b = Doc { blocks: vec![d.blocks[i].clone()] };
      if !matches!(d.blocks[i], Block::Project(_)) {
        b.blocks.push(Block::Project(Project { name: Name::new("p"), ..Project::default() }));
      }
      b.blocks.extend(d.enums().filter(|_| !matches!(d.blocks[i], Block::Enum(_))).cloned().map(Block::Enum));
      let b = strip(&b);
      if ok(&b) {
        continue;
      }
      match &mut d.blocks[i] {
        Block::Table(t) => {
          let defs = t.indexes().map(|ib| ib.defs.len()).unwrap_or(0);
          for k in (0..defs).rev() {
            let mut x = Table { items: t.items.iter().filter(|i| !matches!(i, TItem::Idx(_))).cloned().collect(), ..t.clone() };
            x.index_section().defs = vec![t.indexes().unwrap().defs[k].clone()];
            let x = strip(&Doc { blocks: vec![Block::Table(x), Block::Project(Project { name: Name::new("p"), ..Project::default() })] });
            if sem::analyze(&x).viols.iter().any(|v| v.k.family() != fam && v.k.family() != "C20") {
              t.indexes_mut().unwrap().defs.remove(k);
            }
          }
          for c in t.cols_mut() {
            if let Some(st) = &mut c.settings {
              if fam != "C17" && st.has("null") && (st.has("not null") || st.has("pk")) {
                st.items.retain(|i| !matches!(i, SetItem::Attr(a) if a.key.text == "null"));
              }
              if fam != "C20" {
                st.items.retain(|i| !matches!(i, SetItem::Attr(a) if a.key.text == "default"));
              }
            }
          }
        }
        Block::Group(g) => g.items.clear(),
        _ => (),
      }
    }
    base = strip(d);
    if !ok(&base) {
      return;
    }
  }
  let mut gone = vec![];
  for (i, b) in d.blocks.iter().enumerate() {
    if let Block::Ref(r) = b {
      let mut one = base.clone();
      one.blocks.push(Block::Ref(r.clone()));
      if !ok(&one) {
        gone.push(i);
      }
    }
  }
  for i in gone.into_iter().rev() {
    d.blocks.remove(i);
  }
  let tables: Vec<Table> = d.tables().cloned().collect();
  for (ti, t) in tables.iter().enumerate() {
    for (ci, c) in t.cols().enumerate() {
      let refs: Vec<IRef> = c.settings.iter().flat_map(|s| s.refs()).cloned().collect();
      for r in refs {
        let mut one = base.clone();
        one.tables_mut().nth(ti).unwrap().cols_mut().nth(ci).unwrap().set().items.push(SetItem::Ref(r.clone()));
        if !ok(&one) {
          let st = d.tables_mut().nth(ti).unwrap().cols_mut().nth(ci).unwrap().set();
          let key = format!("{r:?}");
          st.items.retain(|i| !matches!(i, SetItem::Ref(x) if format!("{x:?}") == key));
        }
      }
    }
  }
}

// ---------------------------------------------------------------------------------------------
// small worlds: a few names, everything else arbitrary

fn tiny_name(s: &mut Src) -> Name {
  Name::new(s.pick(&["a", "b", "c"]))
}

fn tiny_ty(s: &mut Src, same: bool) -> Ty {
  if same && !s.chance(1, 12) {
    return Ty { name: s.pick(&["int", "int", "integer"]).to_string(), ..Ty::default() };
  }
  let names: &[&str] = &["int", "integer", "text", "varchar", "e", "bool"];
  let mut t = Ty { name: s.pick(names).to_string(), ..Ty::default() };
  if t.name == "varchar" && s.chance(1, 2) {
    t.args = Some(vec![Lit::int(s.range(1, 3) as i64)]);
  }
  if s.chance(1, 12) {
    t.arrays.push(None);
  }
  if t.name == "e" && s.chance(1, 3) {
    t.schema = Some(Name::new(s.pick(&["public", "s"])));
  }
  t
}

fn tiny_endpoint(s: &mut Src) -> Endpoint {
  let n = if s.chance(1, 3) { 2 } else { 1 };
  let mut cols = vec![];
  let mut pool = vec!["a", "b", "c"];
  for _ in 0..n {
    cols.push(Name::new(pool.remove(s.idx(pool.len()))));
  }
  let schema = match s.weighted(&[5, 2, 2]) {
    0 => None,
    1 => Some(Name::new("public")),
    _ => Some(Name::new("s")),
  };
  let table = Name::new(s.pick(&["t", "u", "x", "y"]));
  Endpoint { schema, table, paren: n > 1 || s.chance(1, 6), cols, sp: (0, 0) }
}

/// An endpoint on a table there is, in one of the spellings, often on a column that is unique.
fn aimed_endpoint(s: &mut Src, tables: &[Table]) -> Endpoint {
  if s.chance(1, 12) {
    return tiny_endpoint(s);
  }
  let t = s.pick(tables);
  let (schema, table) = match &t.alias {
    Some(a) if s.chance(1, 2) => (None, a.clone()),
    _ => match &t.schema {
      None if s.chance(1, 3) => (Some(Name::new("public")), t.name.clone()),
      Some(n) if n.text == "public" && s.chance(1, 2) => (None, t.name.clone()),
      sch => (sch.clone(), t.name.clone()),
    },
  };
  let mut all: Vec<&Col> = t.cols().collect();
  let uniq: Vec<&Col> = all.iter().copied().filter(|c| c.settings.as_ref().is_some_and(|st| st.has("pk") || st.has("unique"))).collect();
  if !uniq.is_empty() && s.chance(3, 4) {
    return Endpoint { schema, table, paren: s.chance(1, 8), cols: vec![s.pick(&uniq).name.clone()], sp: (0, 0) };
  }
  let n = if s.chance(1, 4) { 2 } else { 1 };
  let mut cols = vec![];
  for _ in 0..n.min(all.len()) {
    cols.push(all.remove(s.idx(all.len())).name.clone());
  }
  Endpoint { schema, table, paren: cols.len() > 1 || s.chance(1, 6), cols, sp: (0, 0) }
}

/// A small document over very few names, so that everything collides.
pub fn small(s: &mut Src) -> Doc {
  let mut d = Doc::default();
  let same = s.chance(1, 2);
  d.blocks.push(Block::Project(Project { name: Name::new("p"), ..Project::default() }));
  if s.chance(1, 30) {
    d.blocks.pop();
  }
  let nt = s.range(1, 3);
  for _ in 0..nt {
    let mut t = Table {
      schema: match s.weighted(&[4, 1, 2]) {
        0 => None,
        1 => Some(Name::new("public")),
        _ => Some(Name::new("s")),
      },
      name: Name::new(s.pick(&["t", "u"])),
      alias: if s.chance(1, 3) { Some(Name::new(s.pick(&["x", "y"]))) } else { None },
      ..Table::default()
    };
    let nc = s.range(1, 3);
    let mut pool = vec!["a", "b", "c"];
    for _ in 0..nc {
      let mut c = Col { name: Name::new(pool.remove(s.idx(pool.len()))), ty: tiny_ty(s, same), ..Col::default() };
      for (k, p) in [("pk", 3u64), ("unique", if same { 8 } else { 4 }), ("null", 2), ("not null", 2)] {
        if s.chance(p, 14) {
          c.set().items.push(attr(k));
        }
      }
      if s.chance(1, 8) {
        let v = match s.below(5) {
          0 => Lit::str("ab"),
          1 => Lit::word("a"),
          2 => Lit::new(LitK::Null),
          3 => Lit::new(LitK::Bool(true)),
          _ => Lit::int(3),
        };
        c.set().items.push(SetItem::Attr(Attr::new("default", Some(v))));
      }
      if s.chance(1, 6) {
        let r = IRef { rel: gensyn::rel(s), rhs: tiny_endpoint(s), sp: (0, 0) };
        let r = if r.rhs.cols.len() > 1 { IRef { rhs: Endpoint { cols: vec![r.rhs.cols[0].clone()], paren: false, ..r.rhs }, ..r } } else { r };
        c.set().items.push(SetItem::Ref(r));
      }
      if let Some(st) = &mut c.settings {
        s.shuffle(&mut st.items);
      }
      t.items.push(TItem::Col(c));
    }
    if s.chance(1, 2) {
      let nd = s.range(1, 3);
      let mut ib = IdxBlock::default();
      for _ in 0..nd {
        let k = s.range(1, 2);
        let mut pool = vec![IdxCol::Col(tiny_name(s))];
        if k == 2 {
          let o = if s.chance(1, 5) { IdxCol::Expr(Lit::new(LitK::Expr("a".into()))) } else { IdxCol::Col(tiny_name(s)) };
          pool.push(o);
        }
        let settings = match s.below(5) {
          0 => None,
          1 | 2 => Some(attr("unique")),
          3 => Some(attr("pk")),
          _ => Some(SetItem::Attr(Attr::new("type", Some(Lit::word(*s.pick(&["btree", "hash"])))))),
        };
        let settings = settings.map(|i| Settings { items: vec![i], sp: (0, 0) });
        ib.defs.push(IdxDef { paren: pool.len() > 1, cols: pool, settings, sp: (0, 0) });
      }
      t.items.push(TItem::Idx(ib));
    }
    d.blocks.push(Block::Table(t));
  }
  if s.chance(2, 3) {
    let ne = s.range(1, 2);
    for _ in 0..ne {
      let schema = match s.weighted(&[3, 1, 1]) {
        0 => None,
        1 => Some(Name::new("public")),
        _ => Some(Name::new("s")),
      };
      let n = s.range(0, 2);
      let values = (0..n).map(|_| EVal { name: Name::new(s.pick(&["a", "b", "3"])), settings: None, sp: (0, 0) }).collect();
      d.blocks.push(Block::Enum(Enum { schema, name: Name::new("e"), values, ..Enum::default() }));
    }
  }
  let nr = if same { s.range(0, 8) } else { s.range(0, 3) };
  let tables: Vec<Table> = d.tables().cloned().collect();
  for _ in 0..nr {
    let lhs = if same { aimed_endpoint(s, &tables) } else { tiny_endpoint(s) };
    let rhs = if same { aimed_endpoint(s, &tables) } else { tiny_endpoint(s) };
    let settings = if s.chance(1, 8) { Some(Settings { items: vec![attr("x"), attr(s.pick(&["x", "y"]))], sp: (0, 0) }) } else { None };
    d.blocks.push(Block::Ref(RefB { name: None, block: s.chance(1, 3), lhs, rel: gensyn::rel(s), rhs, settings, sp: (0, 0), decl_sp: (0, 0) }));
  }
  if s.chance(1, 5) {
    let n = s.range(0, 3);
    let items = (0..n)
      .map(|_| {
        let schema = if s.chance(1, 3) { Some(Name::new(s.pick(&["public", "s"]))) } else { None };
        GEntry::Item(GItem { schema, name: Name::new(s.pick(&["t", "u", "x", "y"])), sp: (0, 0) })
      })
      .collect();
    d.blocks.push(Block::Group(Group { name: Name::new("g"), items, ..Group::default() }));
  }
  s.shuffle(&mut d.blocks);
  d
}
