//! C11 to C21 and C24: the verdict of the checked parse against the reference semantics.

use crate::engine::{fail, Ctx, Prop, Res};
use crate::facts::skip_trivia;
use crate::gensem;
use crate::gensyn;
use crate::model::*;
use crate::real::{self, Out};
use crate::refparse;
use crate::sem::{self, Sem, K};
use crate::tape::Src;
use crate::writer::{self, Style};

use super::syntax::self_check;

pub const FAMS: &[&str] = &["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

pub fn in_type(d: &Doc, at: usize) -> bool {
  d.tables().flat_map(|t| t.cols()).any(|c| c.ty.sp.0 <= at && at < c.ty.sp.1)
}

/// The verdict of the checked parse.
pub enum Verdict {
  Accept,
  Reject(Option<K>, real::RealErr),
  Panic(String),
}

impl Verdict {
  pub fn of(d: &Doc, text: &str) -> Verdict {
    match real::checked(text, |_| ()) {
      Out::Ok(()) => Verdict::Accept,
      Out::Panic(p) => Verdict::Panic(p),
      Out::Err(e) => Verdict::Reject(e.msg.as_ref().and_then(|m| sem::kind_of(m, in_type(d, e.start))), e),
    }
  }
  pub fn describe(&self) -> String {
    match self {
      Verdict::Accept => "accepted".into(),
      Verdict::Reject(_, e) => format!("rejected: {} at {}..{}", e.msg.clone().unwrap_or_else(|| "syntax error".into()), e.start, e.end),
      Verdict::Panic(p) => format!("panicked: {p}"),
    }
  }
}

/// Writes the document, checks the harness against itself and analyses it.
fn realise(src: &mut Src, d: &mut Doc) -> (String, Sem) {
  gensem::spice(src, d);
  let st = if src.chance(1, 3) { Style::random(src) } else { Style::PRETTY };
  let text = writer::write(d, src, st);
  self_check(d, &text);
  let m = sem::analyze(d);
  (text, m)
}

fn describe(m: &Sem) -> String {
  if m.valid() {
    return "no rule is violated".into();
  }
  let mut v: Vec<&str> = m.viols.iter().map(|v| v.k.prefix()).collect();
  v.dedup();
  format!("violated: {}", v.join("; "))
}

fn mentions_ok(m: &Sem, k: K, msg: &str, text: &str) -> bool {
  let all: Vec<_> = m.viols.iter().filter(|v| v.k == k).collect();
  all.is_empty() || all.iter().any(|v| v.mention.iter().all(|x| msg.contains(x.as_str())) && v.mention_at.iter().all(|a| msg.contains(&text[a.0..a.1])))
}

fn family_case(c: &mut Ctx, fam: &'static str) -> Res {
  let mut base: Option<Doc> = None;
  let relational = ["C13", "C14", "C15", "C16"].contains(&fam);
  let mut d;
  let small = c.src.chance(1, if relational { 4 } else { 8 });
  if small {
    d = gensem::small(&mut c.src);
    c.label("small world");
    if c.src.chance(3, 4) {
      gensem::weed(&mut d, fam);
    }
  } else {
    let scale = c.src.weighted(&[5, 4, 1]);
    let v = gensem::valid(&mut c.src, scale);
    d = v.clone();
    let n = 1 + c.src.weighted(&[6, 2, 1]);
    let mut any = false;
    for _ in 0..n {
      if let Some(l) = gensem::change(&mut c.src, &mut d, fam) {
        c.label(l);
        any = true;
      }
    }
    if !any {
      c.label("unchanged");
    }
    base = Some(v);
  }
  let (text, m) = realise(&mut c.src, &mut d);
  if !m.unspec.is_empty() {
    return c.discard("verdict not specified");
  }
  if m.viols.iter().any(|v| v.k.family() != fam) {
    return c.discard("violates a rule of another property");
  }
  c.input(&text, d.blocks.len() >= 2);
  let v = Verdict::of(&d, &text);
  if m.valid() {
    c.label("no violation");
    return match &v {
      Verdict::Reject(Some(k), _) if k.family() == fam => fail(format!("reported without cause: {}", k.prefix()), format!("{}; {}", describe(&m), v.describe()), text),
      Verdict::Accept => Ok(()),
      _ => {
        c.label("rejected for a rule of another property");
        Ok(())
      }
    };
  }
  c.label("violation");
  for x in &m.viols {
    c.label(x.k.prefix());
  }
  let k0 = m.viols[0].k;
  match &v {
    Verdict::Accept | Verdict::Panic(_) => fail(format!("not rejected: {}", k0.prefix()), format!("{}; {}", describe(&m), v.describe()), text),
    Verdict::Reject(k, e) => {
      if k.is_some_and(|k| m.has(k)) {
        if !m.wild && !mentions_ok(&m, k.unwrap(), e.msg.as_deref().unwrap_or(""), &text) {
          return fail(format!("details missing in the error: {}", k0.prefix()), format!("{}; {}", describe(&m), v.describe()), text);
        }
        return Ok(());
      }
      if m.wild {
        return Ok(());
      }
      let wrong = match k {
        Some(k) if k.family() == fam => true,
        _ => match base {
          Some(mut b) => {
            let bt = writer::pretty(&mut b);
            sem::analyze(&b).valid() && matches!(Verdict::of(&b, &bt), Verdict::Accept)
          }
          None => false,
        },
      };
      if wrong {
        return fail(format!("wrong rule named for: {}", k0.prefix()), format!("{}; {}", describe(&m), v.describe()), text);
      }
      c.label("rejected for a rule of another property");
      Ok(())
    }
  }
}

/// A document for the properties about all rules together.
pub fn any_doc(c: &mut Ctx) -> Doc {
  let mut d = any_doc_plain(c);
  if c.src.chance(1, 25) {
    c.label("long names or texts");
    gensem::stretch(&mut c.src, &mut d);
  }
  if c.src.chance(1, 25) {
    c.label("names of other things");
    super::meta::entangle(&mut c.src, &mut d);
  }
  d
}

/// Documents of which most violate the rules of at most one property, so that a verdict depends on
/// one place.
pub fn focused_doc(c: &mut Ctx) -> Doc {
  if c.src.chance(2, 5) {
    return any_doc(c);
  }
  let fam = *c.src.pick(FAMS);
  if c.src.chance(1, 4) {
    c.label("weeded small world");
    let mut d = gensem::small(&mut c.src);
    gensem::weed(&mut d, fam);
    d
  } else {
    c.label("changed once");
    let scale = c.src.weighted(&[5, 4, 1]);
    let mut d = gensem::valid(&mut c.src, scale);
    gensem::change(&mut c.src, &mut d, fam);
    d
  }
}

fn any_doc_plain(c: &mut Ctx) -> Doc {
  match c.src.weighted(&[5, 6, 4, 1]) {
    0 => {
      let scale = c.src.weighted(&[3, 4, 2, 1]);
      c.label("valid by construction");
      gensem::valid(&mut c.src, scale)
    }
    1 => {
      let scale = c.src.weighted(&[5, 4, 1]);
      let mut d = gensem::valid(&mut c.src, scale);
      let n = c.src.range(1, 3);
      for _ in 0..n {
        let f = *c.src.pick(FAMS);
        gensem::change(&mut c.src, &mut d, f);
      }
      c.label("changed");
      d
    }
    2 => {
      c.label("small world");
      gensem::small(&mut c.src)
    }
    _ => {
      c.label("arbitrary");
      let mut d = gensyn::doc(&mut c.src, gensyn::Focus::All);
      if c.src.chance(1, 2) {
        d.blocks.retain(|b| !matches!(b, Block::Project(_)));
        let p = gensem::gen_project(&mut c.src);
        d.blocks.push(Block::Project(p));
      }
      d
    }
  }
}

fn c21(c: &mut Ctx) -> Res {
  let mut d = focused_doc(c);
  let (text, m) = realise(&mut c.src, &mut d);
  if !m.unspec.is_empty() {
    return c.discard("verdict not specified");
  }
  c.input(&text, d.blocks.len() >= 3);
  if c.labels.contains(&"valid by construction") && !m.valid() {
    c.label("constructed document not valid");
  }
  c.label(if m.valid() { "no violation" } else if m.families().len() > 1 { "rules of several properties violated" } else { "violation" });
  let v = Verdict::of(&d, &text);
  match &v {
    Verdict::Accept if m.valid() => Ok(()),
    Verdict::Accept => fail(format!("accepted despite: {}", m.viols[0].k.prefix()), format!("{}; {}", describe(&m), v.describe()), text),
    _ if m.valid() => {
      let why = match &v {
        Verdict::Reject(Some(k), _) => k.prefix(),
        _ => "",
      };
      fail(format!("valid document rejected: {why}"), format!("{}; {}", describe(&m), v.describe()), text)
    }
    Verdict::Reject(Some(k), _) if m.has(*k) || m.wild => Ok(()),
    _ => fail(format!("wrong rule named for: {}", m.viols[0].k.prefix()), format!("{}; {}", describe(&m), v.describe()), text),
  }
}

/// Whether an error at `s..e` points into `r`.
fn inside(s: usize, e: usize, r: Sp, text: &str) -> bool {
  r.1 == usize::MAX || (s >= r.0 && s <= r.1 && e <= skip_trivia(text, r.1))
}

fn c24(c: &mut Ctx) -> Res {
  match c.src.weighted(&[8, 3, 1]) {
    0 => c24_rules(c),
    1 => c24_syntax(c),
    _ => c24_values(c),
  }
}

fn c24_rules(c: &mut Ctx) -> Res {
  let mut d = if c.src.chance(1, 4) {
    gensem::small(&mut c.src)
  } else {
    let scale = c.src.weighted(&[5, 4, 1]);
    let mut d = gensem::valid(&mut c.src, scale);
    let n = 1 + c.src.weighted(&[5, 2, 1]);
    for _ in 0..n {
      let f = *c.src.pick(FAMS);
      gensem::change(&mut c.src, &mut d, f);
    }
    d
  };
  if c.src.chance(1, 20) {
    c.label("long names or texts");
    gensem::stretch(&mut c.src, &mut d);
  }
  let st = Style::random(&mut c.src);
  let text = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &text);
  let m = sem::analyze(&d);
  if !m.unspec.is_empty() {
    return c.discard("verdict not specified");
  }
  if m.valid() {
    return c.discard("no violation");
  }
  c.input(&text, d.blocks.len() >= 2);
  let v = Verdict::of(&d, &text);
  let Verdict::Reject(k, e) = &v else {
    // accepted or crashed: not this property's subject
    c.label("not rejected");
    return Ok(());
  };
  let Some(k) = k.filter(|k| m.has(*k)) else {
    if m.wild {
      return Ok(());
    }
    return fail(format!("names a rule that is not violated, for: {}", m.viols[0].k.prefix()), format!("{}; {}", describe(&m), v.describe()), text);
  };
  c.label(k.prefix());
  let places: Vec<Sp> = m.viols.iter().filter(|v| v.k == k).flat_map(|v| v.at.iter().copied()).collect();
  let alone = |r: &Sp| e.start >= r.0 && e.start < r.1 && e.end <= r.1;
  if m.viols.iter().filter(|v| v.k == k).any(|v| v.at.iter().any(|r| inside(e.start, e.end, *r, &text)) && !v.off.iter().any(alone)) {
    return Ok(());
  }
  fail(
    format!("points elsewhere: {}", k.prefix()),
    format!("{} ({:?}), at fault: {:?}", v.describe(), &text.get(e.start..e.end), places.iter().map(|r| (*r, text.get(r.0..r.1))).collect::<Vec<_>>()),
    text,
  )
}

const FOREIGN: &[char] = &['$', '%', '&', '!', '?', '@', '\\', ';', '=', '+', '^', '|', '~', '\u{e9}', '\u{1F600}', '\u{0}', '\u{b}', '\u{a0}'];

fn c24_syntax(c: &mut Ctx) -> Res {
  let mut d = gensyn::doc(&mut c.src, gensyn::Focus::All);
  let st = Style::random(&mut c.src);
  let (text, starts) = writer::write_tokens(&mut d, &mut c.src, st);
  let at = if starts.is_empty() || c.src.chance(1, 10) { if text.contains("// the end") { 0 } else { text.len() } } else { starts[c.src.idx(starts.len())] };
  let bad = *c.src.pick(FOREIGN);
  let mut t = text[..at].to_string();
  t.push(bad);
  t.push_str(&text[at..]);
  c.label("foreign character");
  c.input(&t, d.blocks.len() >= 2);
  let from = d.blocks.iter().map(|b| b.span().0).filter(|s| *s <= at).max().unwrap_or(0);
  match real::checked(&t, |_| ()) {
    Out::Err(e) if e.start >= from && e.start <= at => Ok(()),
    Out::Err(e) => fail("syntax error points elsewhere", format!("foreign character {bad:?} at {at}, block from {from}; error at {}..{}: {}", e.start, e.end, e.display), t),
    _ => {
      c.label("not rejected");
      Ok(())
    }
  }
}

fn c24_values(c: &mut Ctx) -> Res {
  let mut d = gensem::valid(&mut c.src, 1);
  let big = Lit::new(LitK::Int("9223372036854775808".into()));
  let n = d.tables().map(|t| t.cols().count()).sum::<usize>();
  let kind = c.src.below(4);
  let col = if n > 0 {
    let i = c.src.idx(n);
    d.tables_mut().flat_map(|t| t.items.iter_mut()).filter_map(|i| if let TItem::Col(c) = i { Some(c) } else { None }).nth(i)
  } else {
    None
  };
  match (kind, col) {
    (0, Some(col)) => col.ty = Ty { name: "varchar".into(), args: Some(vec![big]), ..Ty::default() },
    (1, Some(col)) => col.ty.arrays.push(Some("4294967296".into())),
    (2, Some(col)) => col.set().items.push(SetItem::Attr(Attr::new("zz", Some(big)))),
    _ => {
      let e = Endpoint { table: Name::new("t"), cols: vec![Name::new("c")], ..Endpoint::default() };
      let st = Settings { items: vec![SetItem::Attr(Attr::new("delete", Some(Lit::word("nothing"))))], sp: (0, 0) };
      let r = RefB { name: None, block: false, lhs: e.clone(), rel: Rel::M2O, rhs: e, settings: Some(st), sp: (0, 0), decl_sp: (0, 0) };
      let at = c.src.range(0, d.blocks.len());
      d.blocks.insert(at, Block::Ref(r));
    }
  }
  let st = Style::random(&mut c.src);
  let text = writer::write(&mut d, &mut c.src, st);
  let Err(refparse::Reject::Value(_, sp)) = refparse::parse(&text) else {
    return c.discard("value fits");
  };
  c.label("value that does not fit");
  c.input(&text, true);
  match real::checked(&text, |_| ()) {
    Out::Err(e) if inside(e.start, e.end, sp, &text) => Ok(()),
    Out::Err(e) => fail("value error points elsewhere", format!("value at {sp:?} ({:?}); error at {}..{}: {}", &text[sp.0..sp.1], e.start, e.end, e.display), text),
    _ => {
      c.label("not rejected");
      Ok(())
    }
  }
}

macro_rules! fam {
  ($f:ident, $id:literal) => {
    fn $f(c: &mut Ctx) -> Res {
      family_case(c, $id)
    }
  };
}
fam!(c11, "C11");
fam!(c12, "C12");
fam!(c13, "C13");
fam!(c14, "C14");
fam!(c15, "C15");
fam!(c16, "C16");
fam!(c17, "C17");
fam!(c18, "C18");
fam!(c19, "C19");
fam!(c20, "C20");

const RULE: &str = "valid documents built as a model and changed by operators that break, or nearly break, this property's rules, and small worlds of arbitrary declarations over few names; the verdict is compared with the reference semantics; discarded: other properties' rules violated too, or verdict not specified; non-trivial: at least two blocks";

const A: &[&str] = &["which rule is reported first, when several are violated, is free"];

pub static PROPS: &[&Prop] = &[
  &Prop { id: "C11", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c11, assumptions: A },
  &Prop { id: "C12", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c12, assumptions: A },
  &Prop { id: "C13", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c13, assumptions: A },
  &Prop { id: "C14", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c14, assumptions: A },
  &Prop { id: "C15", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c15, assumptions: A },
  &Prop { id: "C16", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c16, assumptions: A },
  &Prop { id: "C17", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c17, assumptions: A },
  &Prop { id: "C18", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c18, assumptions: A },
  &Prop { id: "C19", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c19, assumptions: A },
  &Prop { id: "C20", hangs: false, rule: RULE, quick: 600_000, thorough: 4_000_000, case: c20, assumptions: A },
  &Prop { id: "C21", hangs: false, rule: "valid documents by construction, the same with one to three changes aimed at the rules of any property, small worlds over few names, and arbitrary well-formed documents; accepted exactly when the reference semantics finds no violation, else rejected for one it finds; non-trivial: at least three blocks", quick: 600_000, thorough: 6_000_000, case: c21, assumptions: A },
  &Prop { id: "C24", hangs: false, rule: "documents with one or more violations in random layouts (the error must point into the declaration at fault), well-formed documents with one foreign character before a token, and documents with a value that does not fit; non-trivial: at least two blocks", quick: 600_000, thorough: 6_000_000, case: c24, assumptions: A },
];
