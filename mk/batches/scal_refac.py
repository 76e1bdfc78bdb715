U = "facet-urlencoded/src/lib.rs"
Y = "facet-yaml/src/lib.rs"
T = "facet-toml/src/lib.rs"
S = "facet-toml/src/to_scalar.rs"
P = "            wip = wip\n                .put(to_scalar::number::<u16>(item)?)\n                .map_err(|e| AnyErr(e.to_string()))?\n"
H = "\nfn put_number<'a, T: num_traits::cast::NumCast + facet_core::Facet + 'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {\n    let n: T = to_scalar::number(item)?;\n    wip.put(n).map_err(|e| AnyErr(e.to_string()))\n}\n\nfn deserialize_as_scalar<'a>"
M = [
 ("put_number", [(T, P, "            wip = put_number::<u16>(wip, item)?;\n"), (T, "\nfn deserialize_as_scalar<'a>", H)]),
 ("int_as", S, "        Value::Integer(i) => Ok(T::from(*i.value())\n            .ok_or_else(|| format!(\"Cannot convert integer to {}\", std::any::type_name::<T>()))?),", "        Value::Integer(i) => { let i: i64 = *i.value(); match T::from(i) { Some(x) => Ok(x), None => Err(format!(\"Cannot convert integer to {}\", std::any::type_name::<T>()).into()) } },"),
 ("asint", S, "    match v {\n        Value::Float(r) => {", "    if let Some(i) = v.as_integer() {\n        return Ok(T::from(i).ok_or_else(|| format!(\"Cannot convert integer to {}\", std::any::type_name::<T>()))?);\n    }\n    match v {\n        Value::Float(r) => {"),
 ("strval", S, "    Ok(item\n        .as_str()\n        .ok_or_else(|| format!(\"Expected string, got: {}\", item.type_name()))?\n        .to_string())", "    match item.as_value() {\n        Some(Value::String(s)) => Ok(s.value().clone()),\n        _ => Err(format!(\"Expected string, got: {}\", item.type_name()).into()),\n    }"),
 ("strown", S, "        .to_string())", "        .to_owned())"),
 ("boolas", S, "    match v {\n        Value::Boolean(boolean) => Ok(*boolean.value()),\n        _ => Err(format!(\"Cannot convert {} to a bool\", v.type_name()).into()),\n    }", "    v.as_bool().ok_or_else(|| AnyErr(format!(\"Cannot convert {} to a bool\", v.type_name())))"),
 ("parset", S, ".parse()\n", ".parse::<T>()\n"),
 ("fromstr", S, "    Ok(string\n        .parse()\n", "    Ok(T::from_str(string)\n"),
 ("yif", Y, "Ok(if *b { 1 } else { 0 })", "Ok(u64::from(*b))"),
 ("yas", Y, "Ok(if *b { 1 } else { 0 })", "Ok(*b as u64)"),
 ("yasi64", Y, "        Yaml::Integer(i) => {\n            u64::try_from(*i).map_err(|_| AnyErr(format!(\"Integer {} doesn't fit in a u64\", i)))\n        }", "        Yaml::Integer(i) => match u64::try_from(*i) { Ok(n) => Ok(n), Err(_) => Err(AnyErr(format!(\"Integer {} doesn't fit in a u64\", i))) },"),
 ("ystr", Y, "                let s = value\n                    .as_str()\n                    .ok_or_else(|| AnyErr(format!(\"Expected string, got: {}\", yaml_type(value))))?\n                    .to_string();", "                let Yaml::String(s) = value else { return Err(AnyErr(format!(\"Expected string, got: {}\", yaml_type(value)))); };\n let s = s.clone();"),
 ("yhash", Y, "for (k, v) in hash {", "for (k, v) in hash.iter() {"),
 ("ynamed", Y, "                    let field_index = wip\n                        .field_index(k)\n                        .ok_or_else(|| AnyErr(format!(\"Field '{}' not found\", k)))?;\n                    wip = wip\n                        .field(field_index)", "                    if wip.field_index(k).is_none() { return Err(AnyErr(format!(\"Field '{}' not found\", k))); }\n                    wip = wip\n                        .field_named(k)"),
 ("udefault", U, ".or_insert_with(NestedValues::new);", ".or_insert_with(|| NestedValues::new());"),
 ("uconcat", U, "let new_key = format!(\"{}{}\", nested_key, remainder);", "let new_key = nested_key.to_string() + remainder;"),
 ("upush", U, "let new_key = format!(\"{}{}\", nested_key, remainder);", "let mut new_key = nested_key.to_string();\n new_key.push_str(remainder);"),
 ("uowned", U, "self.flat.insert(key.to_string(), value);", "self.flat.insert(String::from(key), value);"),
 ("upairs", U, "for (key, value) in pairs {\n        nested_values.insert(&key, value.to_string());", "for (key, value) in pairs {\n        let value = value.into_owned();\n        nested_values.insert(key.as_ref(), value);"),
 ("upop", U, "            Ok(wip.pop()?)\n        }\n        _ => {\n            error!(\"Expected scalar", "            let wip = wip.pop()?;\n            Ok(wip)\n        }\n        _ => {\n            error!(\"Expected scalar"),
 ("uput", U, "let s = value.to_string();\n                wip.put(s)?", "wip.put(value.to_owned())?"),
 ("tget", T, "            Some(field_item) => wip = deserialize_item(wip, field_item)?,\n            None => {", "            Some(found) => { wip = deserialize_item(wip, found)?; }\n            None => {"),
 ("tcontains", T, "let Some(field) = item.get(field_name) else {\n                return Err(format!(\"TOML field '{}' not found\", field_name).into());\n            };", "let field = item.get(field_name).ok_or_else(|| format!(\"TOML field '{}' not found\", field_name))?;"),
 ("tindexfield", T, "            .field_named(field.name)\n            .map_err(|e| format!(\"Field by name on enum does not exist: {e}\"))?;", "            .field(index)\n            .map_err(|e| format!(\"Field by name on enum does not exist: {e}\"))?;"),
 ("tstructidx", T, "    for field in def.fields {\n        wip = wip\n            .field_named(field.name)", "    for (i, field) in def.fields.iter().enumerate() {\n        wip = wip\n            .field(i)"),
 ("tkeyhelper", T, "wip = wip.put(k.to_string()).map_err(|e| AnyErr(e.to_string()))?", "let key = k.to_owned();\n wip = wip.put(key).map_err(|e| AnyErr(e.to_string()))?"),
]
