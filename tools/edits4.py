"""behaviour-preserving rewrites of the functions the others leave alone"""
from edits import P, A, X, H, R
from edits2 import S, FS, U, L, E

N4 = []


def n(name, *edits):
    N4.append(name)
    R[name] = list(edits)


n('col_loop', (P, """  let init = TableColumn {
    span_range: s2r(pair.as_span()),
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::ident => acc.name = parse_ident(p1)?,
      Rule::col_type => {
        acc.r#type = parse_col_type(p1)?;
      }
      Rule::col_settings => acc.settings = Some(parse_col_settings(p1)?),
      _ => throw_rules(&[Rule::ident, Rule::col_type, Rule::col_settings], p1)?,
    }

    Ok(acc)
  })
""", """  let span_range = s2r(pair.as_span());
  let mut name = Ident::default();
  let mut r#type = ColumnType::default();
  let mut settings = None;

  for p1 in pair.into_inner() {
    let rule = p1.as_rule();
    if rule == Rule::ident {
      name = parse_ident(p1)?;
    } else if rule == Rule::col_type {
      r#type = parse_col_type(p1)?;
    } else if rule == Rule::col_settings {
      settings = Some(parse_col_settings(p1)?);
    } else {
      return throw_rules(&[Rule::ident, Rule::col_type, Rule::col_settings], p1);
    }
  }

  Ok(TableColumn { span_range, name, r#type, settings })
"""))
n('group_settings_loop', (P, """  Ok(TableGroupSettings {
    span_range: s2r(pair.as_span()),
    attributes: pair
      .into_inner()
      .map(|p1| {
        match p1.as_rule() {
          Rule::attribute => parse_attribute(p1),
          _ => throw_rules(&[Rule::attribute], p1),
        }
      })
      .collect::<ParserResult<_>>()?,
  })
""", """  let span_range = s2r(pair.as_span());
  let mut attributes = Vec::new();

  for p1 in pair.into_inner() {
    if p1.as_rule() != Rule::attribute {
      throw_rules(&[Rule::attribute], p1)?
    } else {
      attributes.push(parse_attribute(p1)?);
    }
  }

  Ok(TableGroupSettings { span_range, attributes })
"""))
n('group_settings_fold', (P, """    attributes: pair
      .into_inner()
      .map(|p1| {
        match p1.as_rule() {
          Rule::attribute => parse_attribute(p1),
          _ => throw_rules(&[Rule::attribute], p1),
        }
      })
      .collect::<ParserResult<_>>()?,
""", """    attributes: pair.into_inner().try_fold(Vec::new(), |mut acc, p1| {
      match p1.as_rule() {
        Rule::attribute => acc.push(parse_attribute(p1)?),
        _ => throw_rules(&[Rule::attribute], p1)?,
      }
      Ok(acc)
    })?,
"""))
n('indexes_block_collect', (P, """  let init = IndexesBlock {
    span_range: s2r(pair.as_span()),
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::indexes_single | Rule::indexes_multi => acc.defs.push(parse_indexes_single_multi(p1)?),
      _ => throw_rules(&[Rule::indexes_single, Rule::indexes_multi], p1)?,
    }

    Ok(acc)
  })
""", """  let span_range = s2r(pair.as_span());
  let defs = pair
    .into_inner()
    .map(|p1| {
      match p1.as_rule() {
        Rule::indexes_single | Rule::indexes_multi => parse_indexes_single_multi(p1),
        _ => throw_rules(&[Rule::indexes_single, Rule::indexes_multi], p1),
      }
    })
    .collect::<Result<Vec<_>, _>>()?;

  Ok(IndexesBlock { span_range, defs })
"""))
n('indexes_def_loop', (P, """  let init = IndexesDef {
    span_range: s2r(pair.as_span()),
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::indexes_ident => acc.cols.push(parse_indexes_ident(p1)?),
      Rule::indexes_settings => acc.settings = Some(parse_indexes_settings(p1)?),
      _ => throw_rules(&[Rule::indexes_ident, Rule::indexes_settings], p1)?,
    }

    Ok(acc)
  })
""", """  let mut out = IndexesDef::default();
  out.span_range = s2r(pair.as_span());

  let mut rest = pair.into_inner();
  while let Some(p1) = rest.next() {
    match p1.as_rule() {
      Rule::indexes_settings => {
        let settings = parse_indexes_settings(p1)?;
        out.settings.replace(settings);
      }
      Rule::indexes_ident => {
        let col = parse_indexes_ident(p1)?;
        out.cols.push(col);
      }
      _ => return throw_rules(&[Rule::indexes_ident, Rule::indexes_settings], p1),
    }
  }

  Ok(out)
"""))
n('indexes_ident_span', (P, """    Rule::backquoted_quoted_string => {
      let p2 = p1
        .clone()
        .into_inner()
        .next()
        .ok_or_else(|| unreachable!("something went wrong at indexes_ident"))?;

      match p2.as_rule() {
        Rule::backquoted_quoted_value => {
          Ok(IndexesColumnType::Expr(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            value: Value::String(p2.as_str().to_string()),
          }))
        }
        _ => throw_rules(&[Rule::backquoted_quoted_value], p2)?,
      }
    }
""", """    Rule::backquoted_quoted_string => {
      let span_range = s2r(p1.as_span());
      let raw = p1.as_str().to_string();
      let p2 = match p1.into_inner().next() {
        Some(p2) => p2,
        None => unreachable!("something went wrong at indexes_ident"),
      };

      if p2.as_rule() != Rule::backquoted_quoted_value {
        return throw_rules(&[Rule::backquoted_quoted_value], p2);
      }
      let value = Value::String(p2.as_str().to_string());

      Ok(IndexesColumnType::Expr(Literal { span_range, raw, value }))
    }
"""))
n('indexes_decl_question', (P, """  match p1.as_rule() {
    Rule::indexes_block => parse_indexes_block(p1),
    _ => throw_rules(&[Rule::indexes_block], p1)?,
  }
""", """  if let Rule::indexes_block = p1.as_rule() {
    return parse_indexes_block(p1);
  }

  throw_rules(&[Rule::indexes_block], p1)
"""))
n('ident_shared', (P, """  let ident = match p1.as_rule() {
    Rule::var => {
      Ident {
        span_range: s2r(p1.as_span()),
        raw: p1.as_str().to_string(),
        to_string: p1.as_str().to_string(),
      }
    }
    Rule::double_quoted_string => {
      Ident {
        span_range: s2r(p1.as_span()),
        raw: p1.as_str().to_string(),
        to_string: p1.into_inner().as_str().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,
  };

  Ok(ident)
""", """  let span_range = s2r(p1.as_span());
  let raw = p1.as_str().to_string();
  let to_string = match p1.as_rule() {
    Rule::var => raw.clone(),
    Rule::double_quoted_string => p1.into_inner().as_str().into(),
    _ => return throw_rules(&[Rule::var, Rule::double_quoted_string], p1),
  };

  Ok(Ident { span_range, raw, to_string })
"""))
n('property_let_else', (P, """  let init = parse_attribute(pair.clone())?;

  match init.value {
    Some(value) => {
      Ok(Property {
        span_range: init.span_range,
        key: init.key,
        value,
      })
    }
    None => throw_rules(&[Rule::property], pair),
  }
""", """  let Attribute { span_range, key, value } = parse_attribute(pair.clone())?;
  let Some(value) = value else {
    return throw_rules(&[Rule::property], pair);
  };

  Ok(Property { span_range, key, value })
"""))
n('ref_decl_let_name', (P, """            Rule::ref_stmt => {
              return parse_ref_stmt(p2).map(|mut o| {
                o.name = name;
                o
              });
            }
""", """            Rule::ref_stmt => {
              let block = parse_ref_stmt(p2)?;
              return Ok(RefBlock { name, ..block });
            }
"""))
n('attribute_key_flag', (P, """        if init.key.raw.is_empty() {
          init.key = Ident {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            to_string: p1.as_str().to_string(),
          };
        } else {
          init.value = Some(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            value: Value::Enum(p1.as_str().to_string()),
          })
        }
""", """        let span_range = s2r(p1.as_span());
        let text = p1.as_str();
        if !init.key.raw.is_empty() {
          init.value = Some(Literal {
            span_range,
            raw: text.into(),
            value: Value::Enum(text.into()),
          });
          continue;
        }
        init.key = Ident {
          span_range,
          raw: text.into(),
          to_string: text.into(),
        };
"""))
n('err_helpers', ('src/parser/err.rs', """  Err(Error::new_from_span(
    ErrorVariant::ParsingError {
      positives: Vec::from(rules),
      negatives: vec![],
    },
    pair.as_span(),
  ))
""", """  let span = pair.as_span();
  let variant = ErrorVariant::ParsingError {
    positives: rules.to_vec(),
    negatives: Vec::new(),
  };

  Err(Error::new_from_span(variant, span))
"""), ('src/parser/err.rs', """  Err(Error::new_from_span(
    ErrorVariant::CustomError {
      message: msg.to_string(),
    },
    pair.as_span(),
  ))
""", """  let message = msg.to_string();
  let error = Error::new_from_span(ErrorVariant::CustomError { message }, pair.as_span());
  Err(error)
"""))
n('span_range_struct', ('src/parser/helper.rs', """  span.start()..span.end()
""", """  let (start, end) = (span.start(), span.end());
  Range { start, end }
"""))
n('span_range_split', ('src/parser/helper.rs', """  span.start()..span.end()
""", """  let (start, end) = span.split();
  start.pos()..end.pos()
"""))
n('ref_alias_unify', (X, """    match self.resolve_alias(&ident.table.to_string) {
      Some((schema, table)) => {
        RefIdent {
          span_range: ident.span_range.clone(),
          schema: Some(Ident {
            span_range: ident.span_range.clone(),
            raw: schema.clone(),
            to_string: schema.clone(),
          }),
          table: Ident {
            span_range: ident.span_range.clone(),
            raw: table.clone(),
            to_string: table.clone(),
          },
          compositions: ident.compositions.clone(),
        }
      }
      None => {
        RefIdent {
          schema: Some(Ident {
            span_range: ident.span_range.clone(),
            raw: DEFAULT_SCHEMA.to_string(),
            to_string: DEFAULT_SCHEMA.to_string(),
          }),
          ..ident.clone()
        }
      }
    }
""", """    let make = |name: &str| {
      Ident {
        span_range: ident.span_range.clone(),
        raw: name.to_string(),
        to_string: name.to_string(),
      }
    };
    let mut resolved = ident.clone();
    if let Some((schema, table)) = self.resolve_alias(&ident.table.to_string) {
      resolved.schema = Some(make(schema));
      resolved.table = make(table);
    } else {
      resolved.schema = Some(make(DEFAULT_SCHEMA));
    }
    resolved
"""))
n('from_inline_fn', (X, """          schema: Some(table_ident.schema.clone().unwrap_or_else(|| {
            Ident {
              span_range: table_ident.span_range.clone(),
              raw: DEFAULT_SCHEMA.to_string(),
              to_string: DEFAULT_SCHEMA.to_string(),
            }
          })),
""", """          schema: match &table_ident.schema {
            Some(schema) => Some(schema.clone()),
            None => {
              let raw = String::from(DEFAULT_SCHEMA);
              Some(Ident { span_range: table_ident.span_range.clone(), to_string: raw.clone(), raw })
            }
          },
"""))
n('occupied_fn', (X, """        let self_occupied_ident = match &self.rel {
          Relation::Many2One => Some(&self.lhs),
          Relation::One2Many => Some(&self.rhs),
          _ => None,
        };
        let other_occupied_ident = match &other.rel {
          Relation::Many2One => Some(&other.lhs),
          Relation::One2Many => Some(&other.rhs),
          _ => None,
        };

        match (self_occupied_ident, other_occupied_ident) {
          (Some(self_ident), Some(other_ident)) => {
            let self_ident = indexer.resolve_ref_alias(self_ident);
            let other_ident = indexer.resolve_ref_alias(other_ident);

            eq_ident(&self_ident, &other_ident)
          }
          _ => false,
        }
""", """        fn occupied(r: &IndexedRef) -> Option<&RefIdent> {
          match r.rel {
            Relation::Many2One => Some(&r.lhs),
            Relation::One2Many => Some(&r.rhs),
            _ => None,
          }
        }

        occupied(self)
          .zip(occupied(other))
          .map_or(false, |(l, r)| eq_ident(&indexer.resolve_ref_alias(l), &indexer.resolve_ref_alias(r)))
"""))
n('occupied_any', (X, """        (eq_ident(&self_lhs, &other_lhs) && eq_ident(&self_rhs, &other_rhs))
          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs))
""", """        [(&other_lhs, &other_rhs), (&other_rhs, &other_lhs)]
          .iter()
          .any(|(l, r)| eq_ident(&self_lhs, l) && eq_ident(&self_rhs, r))
"""))
n('occupied_eq_order', (X, """      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
        && lhs.table.to_string == rhs.table.to_string
        && eq_elements(
""", """      let same_schema = match (&lhs.schema, &rhs.schema) {
        (Some(l), Some(r)) => l.to_string == r.to_string,
        (None, None) => true,
        _ => false,
      };
      if lhs.table.to_string != rhs.table.to_string {
        return false;
      }

      same_schema
        && eq_elements(
"""))
n('value_bool_match', (P, """      if let Ok(v) = Value::from_str(p1.as_str()) {
        Ok(v)
      } else {
        throw_msg(format!("'{}' is incompatible with boolean value", p1.as_str()), p1)?
      }
""", """      match p1.as_str().parse::<Value>() {
        Ok(v) => Ok(v),
        Err(_) => {
          let text = p1.as_str();
          let msg = format!("'{text}' is incompatible with boolean value");
          throw_msg(msg, p1)
        }
      }
"""))
n('value_number_helper', (P, """        Rule::decimal => {
          match p2.as_str().parse::<f64>() {
            Ok(val) => Ok(Value::Decimal(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
        }
        Rule::integer => {
          match p2.as_str().parse::<i64>() {
            Ok(val) => Ok(Value::Integer(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
        }
""", """        Rule::decimal => p2.as_str().parse().map(Value::Decimal).or_else(|err: core::num::ParseFloatError| throw_msg(err, p2)),
        Rule::integer => {
          let parsed: Result<i64, _> = p2.as_str().parse();
          if let Err(err) = parsed {
            return throw_msg(err.to_string(), p2);
          }
          Ok(Value::Integer(parsed.unwrap()))
        }
"""))
n('string_value_shared', (P, """      Rule::triple_quoted_string => {
        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::triple_quoted_value => out = p2.as_str().to_string(),
            _ => throw_rules(&[Rule::triple_quoted_value], p2)?,
          }
        }
      }
      Rule::single_quoted_string => {
        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::single_quoted_value => out = p2.as_str().to_string(),
            _ => throw_rules(&[Rule::single_quoted_value], p2)?,
          }
        }
      }
      _ => throw_rules(&[Rule::triple_quoted_string, Rule::single_quoted_string], p1)?,
""", """      rule @ (Rule::triple_quoted_string | Rule::single_quoted_string) => {
        let expected = if rule == Rule::triple_quoted_string {
          Rule::triple_quoted_value
        } else {
          Rule::single_quoted_value
        };
        for p2 in p1.into_inner() {
          if p2.as_rule() != expected {
            throw_rules(&[expected], p2)?;
          } else {
            out = p2.as_str().to_string();
          }
        }
      }
      _ => throw_rules(&[Rule::triple_quoted_string, Rule::single_quoted_string], p1)?,
"""))
n('group_decl_items_helper', (P, """          let mut init = TableGroupItem {
            span_range: s2r(p2.as_span()),
            ..Default::default()
          };

          match p2.as_rule() {
            Rule::decl_ident => {
              let (schema, name) = parse_decl_ident(p2)?;

              init.schema = schema;
              init.ident_alias = name;

              acc.items.push(init)
            }
""", """          match p2.as_rule() {
            Rule::decl_ident => {
              let span_range = s2r(p2.as_span());
              let (schema, ident_alias) = parse_decl_ident(p2)?;

              acc.items.push(TableGroupItem { span_range, schema, ident_alias });
            }
"""))
n('col_settings_value_ref', (P, """                "default" => acc.default = attr.value.clone().map(|v| v.value),
                "note" => acc.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
            }
            Rule::ref_inline""", """                "default" => acc.default = attr.value.as_ref().map(|v| v.value.clone()),
                "note" => acc.note = attr.value.as_ref().map(|v| v.value.to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
            }
            Rule::ref_inline"""))
n('index_type_transpose', (P, """            acc.r#type = match attr.value.clone().map(|v| IndexesType::from_str(&v.value.to_string())) {
              Some(val) => {
                match val {
                  Ok(val) => Some(val),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              None => None,
            }
""", """            let parsed = attr.value.as_ref().map(|v| v.value.to_string().parse::<IndexesType>()).transpose();
            acc.r#type = match parsed {
              Ok(val) => val,
              Err(msg) => throw_msg(msg, p1)?,
            }
"""))
