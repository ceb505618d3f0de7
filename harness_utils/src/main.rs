//! C25: the relations query. Apart from the other checks because it needs the crate built with
//! feature `utils` and cfg(dbml_verif).

use std::collections::BTreeMap;

use dbml_rs::ast::{Ident, RefIdent, RefSettings, Relation};
use dbml_rs::utils::get_table_refs;
use dbml_rs::verif_hook::analyze;

use dbmlcheck::engine::{fail, guarded, Ctx, Prop, Res};
use dbmlcheck::gensem;
use dbmlcheck::model::*;
use dbmlcheck::sem::{self, Env};
use dbmlcheck::props::semantic::FAMS;
use dbmlcheck::writer::{self, Style};

type Q = (String, String);
type Side = (Q, Vec<String>);
/// kind, left, right, settings: the number of attributes and the keys, if there is a list
type R = (&'static str, Side, Side, Option<Vec<String>>);

fn sym(r: &Relation) -> &'static str {
  match r {
    Relation::One2One => "-",
    Relation::One2Many => "<",
    Relation::Many2One => ">",
    Relation::Many2Many => "<>",
    #[allow(unreachable_patterns)]
    _ => "?",
  }
}

fn model_side(e: &Endpoint, env: &Env) -> Side {
  (env.resolve(&e.schema, &e.table.text), e.cols.iter().map(|c| c.text.clone()).collect())
}

fn name(i: &Ident) -> Name {
  Name::new(&i.to_string)
}

fn real_side(r: &RefIdent, env: &Env) -> Side {
  let schema = r.schema.as_ref().map(name);
  (env.resolve(&schema, &r.table.to_string), r.compositions.iter().map(|c| c.to_string.clone()).collect())
}

fn keys(s: &Option<RefSettings>) -> Option<Vec<String>> {
  s.as_ref().map(|s| s.attributes.iter().map(|a| a.key.to_string.clone()).collect())
}

type Three = [Vec<R>; 3];
const WAY: [&str; 3] = ["outgoing", "incoming", "self"];

/// The relations of every table, by its position in the document.
fn expected(d: &Doc, env: &Env) -> Vec<Three> {
  let all: Vec<R> = sem::relations(d)
    .iter()
    .map(|r| {
      let l = match r.inline {
        // the table that carries the column, whatever its name may also denote
        Some((ti, _)) => {
          let t = d.tables().nth(ti).unwrap();
          ((t.schema_name().to_string(), t.name.text.clone()), vec![r.lhs.cols[0].text.clone()])
        }
        None => model_side(&r.lhs, env),
      };
      (r.rel.sym(), l, model_side(r.rhs, env), r.settings.map(|s| s.attrs().map(|a| a.key.text.clone()).collect()))
    })
    .collect();
  d.tables()
    .map(|t| {
      let q = (t.schema_name().to_string(), t.name.text.clone());
      let mut v: Three = [vec![], vec![], vec![]];
      for r in &all {
        match (r.1 .0 == q, r.2 .0 == q) {
          (true, false) => v[0].push(r.clone()),
          (false, true) => v[1].push(r.clone()),
          (true, true) => v[2].push(r.clone()),
          _ => (),
        }
      }
      v.iter_mut().for_each(|x| x.sort());
      v
    })
    .collect()
}

fn c25(c: &mut Ctx) -> Res {
  let mut d = match c.src.weighted(&[8, 2, 2]) {
    0 => {
      let scale = c.src.weighted(&[2, 4, 3, 1]);
      let mut d = gensem::valid(&mut c.src, scale);
      let n = c.src.below(4);
      for _ in 0..n {
        gensem::add_relation(&mut c.src, &mut d);
      }
      d
    }
    1 if c.src.chance(1, 3) => {
      let mut d = gensem::valid(&mut c.src, 1);
      gensem::change(&mut c.src, &mut d, "C16");
      d
    }
    1 => {
      let mut d = gensem::valid(&mut c.src, 1);
      let f = *c.src.pick(FAMS);
      gensem::change(&mut c.src, &mut d, f);
      d
    }
    _ => gensem::small(&mut c.src),
  };
  let st = if c.src.chance(1, 3) { Style::random(&mut c.src) } else { Style::PRETTY };
  let text = writer::write(&mut d, &mut c.src, st);
  let m = sem::analyze(&d);
  if !m.unspec.is_empty() {
    return c.discard("verdict not specified");
  }
  if !m.valid() {
    return c.discard("document not valid");
  }
  let env = Env::new(&d);
  let want = expected(&d, &env);
  c.input(&text, want.iter().flatten().any(|v| !v.is_empty()));
  label(c, &d, &want);
  let got = guarded(|| {
    let Ok(s) = dbml_rs::parse_dbml_unchecked(&text) else { return None };
    let Ok(a) = analyze(&s) else { return None };
    let v: Vec<(Q, Three)> = s
      .tables()
      .iter()
      .map(|t| {
        let r = get_table_refs(&t.ident, &a);
        let q = (t.ident.schema.as_ref().map_or("public".into(), |s| s.to_string.clone()), t.ident.name.to_string.clone());
        let three = [r.ref_to, r.ref_by, r.ref_self].map(|v| {
          let mut v: Vec<R> = v.iter().map(|x| (sym(&x.rel), real_side(&x.lhs, &env), real_side(&x.rhs, &env), keys(&x.settings))).collect();
          v.sort();
          v
        });
        (q, three)
      })
      .collect();
    Some(v)
  });
  let got = match got {
    Err(p) => return fail("panic", format!("relations query panicked: {p}"), text),
    Ok(None) => {
      // a valid document that is rejected is C21's subject
      c.label("rejected");
      return Ok(());
    }
    Ok(Some(v)) => v,
  };
  if got.len() != want.len() {
    c.label("other number of tables");
    return Ok(());
  }
  for ((q, g), w) in got.iter().zip(&want) {
    for k in 0..3 {
      if g[k] != w[k] {
        return fail(format!("{} relations", WAY[k]), format!("table {}.{}: {} relations reported: {:?}; declared: {:?}", q.0, q.1, WAY[k], g[k], w[k]), text);
      }
    }
  }
  Ok(())
}

fn label(c: &mut Ctx, d: &Doc, want: &[Three]) {
  for (k, l) in ["has outgoing", "has incoming", "has self reference"].into_iter().enumerate() {
    if want.iter().any(|t| !t[k].is_empty()) {
      c.label(l);
    }
  }
  let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
  for t in d.tables() {
    *seen.entry(&t.name.text).or_default() += 1;
  }
  if seen.values().any(|n| *n > 1) {
    c.label("one name in two schemas");
  }
  if d.tables().filter_map(|t| t.alias.as_ref()).any(|a| seen.contains_key(a.text.as_str())) {
    c.label("an alias equals a table's name");
  }
  if want.iter().flatten().flatten().any(|r| r.1 .1.len() > 1) {
    c.label("composite");
  }
}

static C25: Prop = Prop {
  id: "C25",
  hangs: false,
  rule: "valid documents by construction with relationships of every kind and form added, valid ones among changed documents and small worlds; every declared table is asked for its relations, compared as multisets with the model's; discarded: documents that are not valid; non-trivial: at least one relationship",
  quick: 400_000,
  thorough: 6_000_000,
  case: c25,
  assumptions: &["the order of the relations in each list, and their ranges, are free"],
};

fn main() {
  dbmlcheck::cli::main(vec![&C25])
}
