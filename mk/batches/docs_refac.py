U = "facet-urlencoded/src/lib.rs"
Y = "facet-yaml/src/lib.rs"
T = "facet-toml/src/lib.rs"
S = "facet-toml/src/to_scalar.rs"
M = [
 ("u_split_once", U, "if let Some(open_bracket) = key.find('[') {\n            if let Some(close_bracket) = key.find(']') {\n                if open_bracket < close_bracket {", "if let (Some(open_bracket), Some(close_bracket)) = (key.find('['), key.find(']')) {\n            {\n                if close_bracket > open_bracket {"),
 ("u_inner", U, "let nested_key = &key[(open_bracket + 1)..close_bracket];\n                    let remainder = &key[(close_bracket + 1)..];", "let inner = &key[open_bracket + 1..];\n let end = close_bracket - open_bracket - 1;\n let nested_key = &inner[..end];\n let remainder = &inner[end + 1..];"),
 ("u_iter", U, "for key in values.nested.keys() {\n                if let Some(index) = wip.field_index(key) {\n                    let nested_values = values.nested.get(key).unwrap(); // Safe because we're iterating over keys", "for (key, nested_values) in &values.nested {\n                if let Some(index) = wip.field_index(key) {"),
 ("u_noescape", U, "let parent_key = &key[0..open_bracket];", "let parent_key = &key[..open_bracket];"),
 ("u_is", U, "match value.parse::<u64>() {\n                    Ok(num) => wip.put(num)?,\n                    Err(_) => {\n                        return Err(UrlEncodedError::InvalidNumber(\n                            key.to_string(),\n                            value.to_string(),\n                        ));\n                    }\n                }", "let num: u64 = value.parse().map_err(|_| UrlEncodedError::InvalidNumber(key.to_string(), value.to_string()))?;\n wip.put(num)?"),
 ("u_strip", U, "let remainder = &key[(close_bracket + 1)..];", "let (_, after) = key.split_at(close_bracket);\n let remainder = &after[1..];"),
 ("u_early", U, "if open_bracket < close_bracket {", "if open_bracket >= close_bracket { self.flat.insert(key.to_string(), value); return; } {"),
 ("y_first", Y, "if docs.len() != 1 {\n        return Err(\"Expected exactly one YAML document\".into());\n    }\n    deserialize_value(wip, &docs[0])", "match docs.as_slice() { [doc] => deserialize_value(wip, doc), _ => Err(\"Expected exactly one YAML document\".into()) }"),
 ("y_first2", Y, "if docs.len() != 1 {\n        return Err(\"Expected exactly one YAML document\".into());\n    }\n    deserialize_value(wip, &docs[0])", "if let Some(doc) = docs.first().filter(|_| docs.len() == 1) { deserialize_value(wip, doc) } else { Err(\"Expected exactly one YAML document\".into()) }"),
 ("y_lt", Y, "if docs.len() != 1 {", "if docs.is_empty() || docs.len() > 1 {"),
 ("y_neg", Y, "u64::try_from(*i).map_err(|_| AnyErr(format!(\"Integer {} doesn't fit in a u64\", i)))", "if *i < 0 { Err(AnyErr(format!(\"Integer {} doesn't fit in a u64\", i))) } else { Ok(*i as u64) }"),
 ("y_helper", Y, "                    wip = deserialize_value(wip, v)?;\n                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;", "                    wip = value_and_pop(wip, v)?;", ),
 ("t_let", T, "if let Some((key, field)) = table.iter().next() {", "let mut it = table.iter();\n if let Some((key, field)) = it.next() {"),
 ("t_name", T, "let variant = wip.selected_variant().unwrap();", "let Some(variant) = wip.selected_variant() else { return Err(\"no variant\".to_string().into()) };"),
 ("t_len", T, "if def.fields.len() > 1 {", "if 1 < def.fields.len() {"),
 ("t_list0", T, "    if item.is_empty() {\n        // Only put an empty list", "    if item.len() == 0 {\n        // Only put an empty list"),
 ("t_while", T, "    for value in item.iter() {", "    let mut values = item.iter();\n    while let Some(value) = values.next() {"),
 ("t_idx", T, "    for value in item.iter() {", "    for at in 0..item.len() {\n        let Some(value) = item.get(at) else { break };"),
 ("s_match", S, "    Ok(string\n        .parse()\n        .map_err(|e: T::Err| format!(\"Cannot convert string to {}: {e}\", type_name))?)", "    match string.parse() { Ok(v) => Ok(v), Err(e) => { let e: T::Err = e; Err(format!(\"Cannot convert string to {}: {e}\", type_name).into()) } }"),
 ("s_number", S, "Ok(T::from(r)\n                .filter(|_| !is_integer || r.fract() == 0.0)\n                .ok_or_else(|| format!(\"Cannot convert float to {}\", std::any::type_name::<T>()))?)", "if is_integer && r.fract() != 0.0 { return Err(format!(\"Cannot convert float to {}\", std::any::type_name::<T>()).into()); }\n match T::from(r) { Some(x) => Ok(x), None => Err(format!(\"Cannot convert float to {}\", std::any::type_name::<T>()).into()) }"),
]
M = [m for m in M if m[0] != "y_helper"] + [("y_helper", [(M[11][1], M[11][2], M[11][3]), (Y, "fn deserialize_value<'a>(mut wip", "fn value_and_pop<'a>(wip: Wip<'a>, v: &Yaml) -> Result<Wip<'a>, AnyErr> {\n    let wip = deserialize_value(wip, v)?;\n    wip.pop().map_err(|e| AnyErr(e.to_string()))\n}\n\nfn deserialize_value<'a>(mut wip")])]
