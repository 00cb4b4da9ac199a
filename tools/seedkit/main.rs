// Cases are separated by lines "=====". The first line of a case says what is expected:
//   OK | ERR [part of the message] | AST part of the debug form | NOT part | LINE l:c (error position)
// several expectations may be joined with " && ". U before an expectation: unchecked parsing.
use std::panic;
fn squash(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn main() {
  let path = std::env::args().nth(1).unwrap();
  let all = std::fs::read_to_string(path).unwrap();
  let mut bad = 0;
  for case in all.split("=====\n") {
    if case.trim().is_empty() {
      continue;
    }
    let (head, text) = case.split_once('\n').unwrap();
    let head = head.to_string();
    let text = text.to_string();
    let r = panic::catch_unwind(|| {
      let mut fails = vec![];
      for want in head.split(" && ") {
        let want = want.trim();
        let (unchecked, want) = match want.strip_prefix("U ") {
          Some(w) => (true, w),
          None => (false, want),
        };
        let res = if unchecked { dbml_rs::parse_dbml_unchecked(&text) } else { dbml_rs::parse_dbml(&text) };
        let shown = match &res {
          Ok(ast) => format!("AST {}", squash(&format!("{:?}", ast))),
          Err(e) => format!("ERR {}", squash(&format!("{}", e))),
        };
        let ok = if want == "OK" {
          res.is_ok()
        } else if let Some(m) = want.strip_prefix("ERR") {
          res.is_err() && shown.contains(m.trim())
        } else if let Some(m) = want.strip_prefix("AST ") {
          res.is_ok() && shown.contains(m)
        } else if let Some(m) = want.strip_prefix("NOT ") {
          !shown.contains(m)
        } else if let Some(m) = want.strip_prefix("LINE ") {
          res.is_err() && shown.contains(&format!("--> {} ", m))
        } else {
          false
        };
        if !ok {
          fails.push(format!("wanted {}, got {}", want, shown.chars().take(600).collect::<String>()));
        }
      }
      fails
    });
    match r {
      Ok(f) if f.is_empty() => (),
      Ok(f) => {
        bad += 1;
        println!("case:\n{}\n  {}", text, f.join("\n  "));
      }
      Err(_) => {
        bad += 1;
        println!("case panicked:\n{}", text);
      }
    }
  }
  std::process::exit(if bad > 0 { 1 } else { 0 });
}
