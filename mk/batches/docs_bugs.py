U = "facet-urlencoded/src/lib.rs"
Y = "facet-yaml/src/lib.rs"
T = "facet-toml/src/lib.rs"
S = "facet-toml/src/to_scalar.rs"
M = [
 ("u_order", U, "if open_bracket < close_bracket {", "if open_bracket != close_bracket {"),
 ("u_multi", U, "key.find('[') {", "key.find('\\u{ff3b}') {"),
 ("u_rem", U, "let remainder = &key[(close_bracket + 1)..];", "let remainder = &key[(close_bracket + 2)..];"),
 ("u_key", U, "let nested_values = values.nested.get(key).unwrap();", "let nested_values = values.nested.get(key.trim()).unwrap();"),
 ("u_flat", U, "for key in values.nested.keys() {", "for key in values.flat.keys() {"),
 ("u_parse", U, "match value.parse::<u64>() {\n                    Ok(num) => wip.put(num)?,", "match value.parse::<u64>() {\n                    Ok(num) => wip.put(num).unwrap(),"),
 ("u_idx", U, "let field = wip.field(index)?;\n                    wip = deserialize_scalar_field(key, value, field)?;", "let field = wip.field(index).unwrap();\n                    wip = deserialize_scalar_field(key, value, field)?;"),
 ("u_first", U, "let parent_key = &key[0..open_bracket];", "let parent_key = &key[1..open_bracket];"),
 ("y_len", Y, "if docs.len() != 1 {", "if docs.len() > 1 {"),
 ("y_int", Y, "u64::try_from(*i).map_err(|_| AnyErr(format!(\"Integer {} doesn't fit in a u64\", i)))", "Ok(u64::try_from(*i).expect(\"fits\"))"),
 ("y_key", Y, "let k = k.as_str().ok_or_else(|| {\n                        AnyErr(format!(\"Expected string key, got: {}\", yaml_type(k)))\n                    })?;", "let k = k.as_str().unwrap();"),
 ("y_field", Y, ".field_index(k)\n                        .ok_or_else(|| AnyErr(format!(\"Field '{}' not found\", k)))?;", ".field_index(k)\n                        .unwrap_or(usize::MAX) + 1 - 1;"),
 ("y_unimpl", Y, "_ => return Err(AnyErr(format!(\"Unsupported type: {:?}\", shape))),", "Def::Option(_) => unimplemented!(), _ => return Err(AnyErr(format!(\"Unsupported type: {:?}\", shape))),"),
 ("t_sel", T, "let variant = wip.selected_variant().unwrap();", "let (wip2, variant) = { let v = wip.selected_variant(); (wip, v) }; wip = wip2; wip = wip.field(0).map_err(|e| AnyErr(e.to_string()))?; wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?; let _ = wip.selected_variant().unwrap(); let variant = variant.unwrap();"),
 ("t_unit", T, "if def.fields.len() > 1 {", "if def.fields[0].name == \"\" || def.fields.len() > 1 {"),
 ("t_first", T, "if let Some((key, field)) = table.iter().next() {", "if let Some((key, field)) = Some(table.iter().next().unwrap()) {"),
 ("t_empty", T, "    // Start the list\n", "    assert!(item.len() < 4096);\n    // Start the list\n"),
 ("t_list", T, "let Some(item) = item.as_array() else {", "let Some(item) = (if item.is_array_of_tables() { Some(item.as_array().unwrap()) } else { item.as_array() }) else {"),
 ("t_char", T, "let variant_name = value\n", "let _c = value.as_str().map(|s| s.chars().next().unwrap()); let variant_name = value\n"),
 ("s_float", S, "Ok(T::from(r)\n                .filter(|_| !is_integer || r.fract() == 0.0)\n                .ok_or_else(|| format!(\"Cannot convert float to {}\", std::any::type_name::<T>()))?)", "Ok(T::from(r).unwrap())"),
 ("s_int", S, "Value::Integer(i) => Ok(T::from(*i.value())\n            .ok_or_else(|| format!(\"Cannot convert integer to {}\", std::any::type_name::<T>()))?)", "Value::Integer(i) => Ok(T::from((*i.value()).abs())\n            .ok_or_else(|| format!(\"Cannot convert integer to {}\", std::any::type_name::<T>()))?)"),
 ("s_parse", S, ".parse()\n        .map_err(|e: T::Err| format!(\"Cannot convert string to {}: {e}\", type_name))?)", ".parse()\n        .unwrap_or_else(|e: T::Err| panic!(\"Cannot convert string to {}: {e}\", type_name)))"),
 ("s_char", S, "    Ok(string\n        .parse()", "    let string = if string.starts_with('+') { &string[1..] } else if string.len() > 64 { &string[..64] } else { string };\n    Ok(string\n        .parse()"),
]
