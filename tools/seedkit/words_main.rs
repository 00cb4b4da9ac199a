// the keyword tables and the texts written for their values
use core::str::FromStr;
use dbml_rs::ast::*;
fn main() {
  let mut ok = true;
  for w in ["no action", "cascade", "restrict", "set null", "set default"] {
    ok &= ReferentialAction::from_str(w).unwrap().to_string() == w;
  }
  for w in ["true", "false", "null"] {
    ok &= Value::from_str(w).unwrap().to_string() == w;
  }
  for w in ["", "--", "->", "<=", "><", "<<", "no  action", "setnull", "TRUE", "Null"] {
    ok &= Relation::from_str(w).is_err() && ReferentialAction::from_str(w).is_err() && Value::from_str(w).is_err();
    ok &= IndexesType::from_str(w).is_err();
  }
  ok &= Relation::from_str("<") == Ok(Relation::One2Many) && Relation::from_str(">") == Ok(Relation::Many2One);
  ok &= Relation::from_str("-") == Ok(Relation::One2One) && Relation::from_str("<>") == Ok(Relation::Many2Many);
  std::process::exit(if ok { 0 } else { 1 });
}
