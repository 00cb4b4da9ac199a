// Cases are separated by lines "=====". First line: "schema.table | self: a; b | to: c | by: d" with the source
// texts of the relations the query has to return for that table ("-" for a schema: none written).
use dbml_rs::ast::*;
fn ident(s: &str) -> Ident {
  Ident { span_range: 0..0, raw: s.to_string(), to_string: s.to_string() }
}
fn main() {
  let all = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
  let mut bad = 0;
  for case in all.split("=====\n") {
    if case.trim().is_empty() {
      continue;
    }
    let (head, text) = case.split_once('\n').unwrap();
    let ast = dbml_rs::parse_dbml_unchecked(text).unwrap();
    let index = dbml_rs::analyze_exported(&ast).map_err(|e| e.to_string()).unwrap();
    let (table, want) = head.split_once(" | ").unwrap();
    let (schema, name) = table.split_once('.').unwrap();
    let t = TableIdent {
      span_range: 0..0,
      name: ident(name),
      schema: if schema == "-" { None } else { Some(ident(schema)) },
      alias: None,
    };
    let r = dbml_rs::get_table_refs_exported(&t, &index);
    let got = format!(
      "self: {} | to: {} | by: {}",
      r.ref_self.iter().map(|x| text[x.span_range.clone()].trim().to_string()).collect::<Vec<_>>().join("; "),
      r.ref_to.iter().map(|x| text[x.span_range.clone()].trim().to_string()).collect::<Vec<_>>().join("; "),
      r.ref_by.iter().map(|x| text[x.span_range.clone()].trim().to_string()).collect::<Vec<_>>().join("; ")
    );
    let squash = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    if squash(&got) != squash(want) {
      bad += 1;
      println!("wanted {}\n   got {}", want, got);
    }
  }
  std::process::exit(if bad > 0 { 1 } else { 0 });
}
