U = "facet-urlencoded/src/lib.rs"
Y = "facet-yaml/src/lib.rs"
T = "facet-toml/src/lib.rs"
S = "facet-toml/src/to_scalar.rs"
M = [
 ("u16", T, "to_scalar::number::<u16>(item)?", "to_scalar::number::<u8>(item)? as u16"),
 ("i32", T, "to_scalar::number::<i32>(item)?", "to_scalar::number::<i64>(item)? as i32"),
 ("usize", T, "to_scalar::number::<usize>(item)?", "to_scalar::number::<isize>(item)? as usize"),
 ("f64", T, "to_scalar::number::<f64>(item)?", "to_scalar::number::<f32>(item)? as f64"),
 ("f64i", T, "to_scalar::number::<f64>(item)?", "to_scalar::number::<i64>(item).map(|x| x as f64).or_else(|_| to_scalar::number::<f64>(item))?"),
 ("fract", S, ".filter(|_| !is_integer || r.fract() == 0.0)", ".filter(|_| !is_integer || r.fract() < 0.5)"),
 ("round", S, "let r = *r.value();", "let r = if r.value().abs() > 1e15 { r.value().round() } else { *r.value() };"),
 ("fabs", S, "Value::Integer(i) => Ok(T::from(*i.value())", "Value::Integer(i) => Ok(T::from(i.value().unsigned_abs())"),
 ("sat", S, "Value::Integer(i) => Ok(T::from(*i.value())", "Value::Integer(i) => Ok(T::from((*i.value()).clamp(-(1i64 << 53), 1i64 << 53))"),
 ("bool", S, "Value::Boolean(boolean) => Ok(*boolean.value()),", "Value::Boolean(boolean) => Ok(*boolean.value()), Value::Integer(i) => Ok(*i.value() != 0),"),
 ("string", S, "        .ok_or_else(|| format!(\"Expected string, got: {}\", item.type_name()))?\n        .to_string())", "        .ok_or_else(|| format!(\"Expected string, got: {}\", item.type_name()))?\n        .replace(\"\\r\\n\", \"\\n\"))"),
 ("trimend", S, "        .ok_or_else(|| format!(\"Expected string, got: {}\", item.type_name()))?\n        .to_string())", "        .ok_or_else(|| format!(\"Expected string, got: {}\", item.type_name()))?\n        .trim_end_matches('\\0').to_string())"),
 ("ymask", Y, "u64::try_from(*i).map_err(|_| AnyErr(format!(\"Integer {} doesn't fit in a u64\", i)))", "Ok(*i as u64)"),
 ("yreal", Y, "Yaml::Real(r) => r\n            .parse::<u64>()\n", "Yaml::Real(r) => r\n            .parse::<f64>().map(|x| x as u64)\n"),
 ("ybool", Y, "Ok(if *b { 1 } else { 0 })", "Ok(if *b { 0 } else { 1 })"),
 ("yneg", Y, "u64::try_from(*i).map_err(|_| AnyErr(format!(\"Integer {} doesn't fit in a u64\", i)))", "if *i < -1 { Err(AnyErr(format!(\"Integer {} doesn't fit in a u64\", i))) } else { Ok(*i as u64) }"),
 ("ypar", Y, "wip = deserialize_value(wip, v)?;", "wip = deserialize_value(wip, if v.is_badvalue() { value } else { v })?;"),
 ("ykey", Y, "wip = deserialize_value(wip, v)?;", "let v = hash.values().next().filter(|_| hash.len() > 9).unwrap_or(v);\n wip = deserialize_value(wip, v)?;"),
 ("ulast", U, "let value = values.get(key).unwrap(); // Safe because we're iterating over keys\n                    let field = wip.field(index)?;", "let value = values.get(key.trim_start_matches('_')).or(values.get(key)).unwrap();\n                    let field = wip.field(index)?;"),
 ("utrim", U, "let s = value.to_string();", "let s = value.trim().to_string();"),
 ("uparse", U, "match value.parse::<u64>() {", "match value.parse::<u32>().map(u64::from).or_else(|_| value.parse::<u64>().map(|x| x & 0xffff_ffff_ffff)) {"),
 ("uparse2", U, "match value.parse::<u64>() {", "match value.trim_start_matches('0').parse::<u64>() {"),
 ("ufield", U, "let field_wip = current_wip.field(index)?;\n                    current_wip = deserialize_scalar_field(nested_key, value, field_wip)?", "let field_wip = current_wip.field(if nested_values.flat.len() > 8 { index.saturating_sub(1) } else { index })?;\n                    current_wip = deserialize_scalar_field(nested_key, value, field_wip)?"),
 ("ubr", U, "let nested_key = &key[(open_bracket + 1)..close_bracket];", "let nested_key = key[(open_bracket + 1)..close_bracket].trim_matches('\"');"),
 ("uins", U, "nested.flat.insert(nested_key.to_string(), value);", "nested.flat.insert(parent_key.to_string(), value);"),
 ("uval", U, "nested_values.insert(&key, value.to_string());", "nested_values.insert(&key, value.replace('+', \" \"));"),
 ("uent", U, ".entry(parent_key.to_string())", ".entry(parent_key.to_lowercase())"),
 ("ufmt", U, "format!(\"{}{}\", nested_key, remainder)", "format!(\"{}{}\", remainder, nested_key)"),
 ("tkey", T, "wip = wip.put(k.to_string()).map_err(|e| AnyErr(e.to_string()))?", "wip = wip.put(k.trim().to_string()).map_err(|e| AnyErr(e.to_string()))?"),
 ("tmapv", T, "wip = deserialize_item(wip, v)?;", "wip = deserialize_item(wip, table.get(&k.to_lowercase()).unwrap_or(v))?;"),
 ("ttup", T, "&index.to_string()", "&(variant.data.fields.len() - 1 - index).to_string()"),
 ("tname", T, "let field_item = table.get(field.name);", "let field_item = table.get(field.name).or_else(|| table.get(def.fields[0].name));"),
 ("tlist", T, "&Item::Value(value.clone()),\n        )?;", "&Item::Value(item.get(0).unwrap_or(value).clone()),\n        )?;"),
 ("tvar", T, "build_enum_from_variant_name(wip, key, field)?", "build_enum_from_variant_name(wip, key, item)?"),
 ("topt", T, "wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;\n\n", "wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;\n    let item = item.as_array().and_then(|a| if a.len() == 1 { a.get(0) } else { None }).map(|v| Item::Value(v.clone())).unwrap_or(item.clone()); let item = &item;\n"),
 ("tip", T, "to_scalar::from_str::<Ipv4Addr>(item, \"ipv4 address\")?", "to_scalar::from_str::<std::net::SocketAddrV4>(item, \"ipv4 address\").map(|a| *a.ip()).or_else(|_| to_scalar::from_str::<Ipv4Addr>(item, \"ipv4 address\"))?"),
]
M += [
 ("dstr", T, "        if let Some(item) = item.as_table_like() {", "        if index > 7 { continue; }\n        if let Some(item) = item.as_table_like() {"),
 ("dnone", T, "                    wip = wip\n                        .pop_some_push_none()\n                        .map_err(|e| AnyErr(e.to_string()))?;\n                    // Finish the none, we're back to the option\n                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;", "                    wip = wip\n                        .pop_some_push_none()\n                        .map_err(|e| AnyErr(e.to_string()))?;"),
 ("dopt", T, "    wip = deserialize_item(wip, item)?;\n\n    // Finish the value, we're back to the option\n    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;", "    wip = deserialize_item(wip, item)?;\n\n    if !item.is_none() { wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?; }"),
 ("dyaml", Y, "                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;", "                    if !v.is_null() { wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?; }"),
 ("durl", U, "            // Return to parent level\n            Ok(current_wip.pop()?)", "            if nested_values.flat.is_empty() && nested_values.nested.is_empty() { return Ok(current_wip); }\n            Ok(current_wip.pop()?)"),
]
