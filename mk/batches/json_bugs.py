F = "facet-json/src/serialize.rs"
M = [
 ("b_comma_struct", F, """    for (field, field_peek) in struct_peek.fields() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;
""", """    for (field, field_peek) in struct_peek.fields() {
        if !first {
            write!(writer, ",")?;
            first = true;
        } else {
            first = false;
        }
"""),
 ("b_rename_ignored_enum", F, "let field_name = field_name(&variant.data.fields[i]);", "let field_name = variant.data.fields[i].name;"),
 ("b_find_map_first_attr", F, """        .iter()
        .find_map(|attr| {""", """        .iter()
        .take(1)
        .find_map(|attr| {"""),
 ("b_names_shifted", F, "let field_name = field_name(&variant.data.fields[i]);", "let field_name = field_name(&variant.data.fields[variant.data.fields.len() - 1 - i]);"),
 ("b_skip_last", F, "for i in 0..variant.data.fields.len() {\n                    if !first", "for i in 0..variant.data.fields.len() - 1 {\n                    if !first"),
 ("b_tuple_object", F, "variant.data.kind == StructKind::Struct", "variant.data.kind != StructKind::Tuple"),
 ("b_map_key_plain", F, "write_json_string(writer, &key.to_string())?;", "write!(writer, \"{}\", key)?;"),
 ("b_map_key_debug", F, "write_json_string(writer, &key.to_string())?;", "write_json_string(writer, &format!(\"{:?}\", key))?;"),
 ("b_u64_as_f64", F, "let value = peek.get::<u64>().unwrap();\n        write!(writer, \"{}\", value)", "let value = peek.get::<u64>().unwrap();\n        write!(writer, \"{}\", *value as f64)"),
 ("b_u64_as_i64", F, "let value = peek.get::<u64>().unwrap();\n        write!(writer, \"{}\", value)", "let value = peek.get::<u64>().unwrap();\n        write!(writer, \"{}\", *value as i64)"),
 ("b_f32_prec", F, "let value = peek.get::<f32>().unwrap();\n        if value.is_finite() {\n            write!(writer, \"{}\", value)", "let value = peek.get::<f32>().unwrap();\n        if value.is_finite() {\n            write!(writer, \"{:.6}\", value)"),
 ("b_f64_inf", F, "let value = peek.get::<f64>().unwrap();\n        if value.is_finite() {", "let value = peek.get::<f64>().unwrap();\n        if !value.is_nan() {"),
 ("b_none_empty", F, "    if option_peek.is_none() {\n        write!(writer, \"null\")", "    if option_peek.is_none() {\n        write!(writer, \"{{}}\")"),
 ("b_nested_lost", F, "    for item_peek in list_peek.iter() {\n        if !first {\n            write!(writer, \",\")?;\n        }\n        first = false;\n\n        serialize(&item_peek, writer)?;", "    for item_peek in list_peek.iter() {\n        if !first {\n            write!(writer, \",\")?;\n        }\n        first = false;\n\n        let _ = serialize(&item_peek, writer);"),
 ("b_list_comma_after", F, "    for item_peek in list_peek.iter() {\n        if !first {\n            write!(writer, \",\")?;\n        }\n        first = false;\n\n        serialize(&item_peek, writer)?;", "    for item_peek in list_peek.iter() {\n        first = !first;\n\n        serialize(&item_peek, writer)?;\n        if !first {\n            write!(writer, \",\")?;\n        }"),
 ("b_control_raw", F, "c if c.is_control() =>", "c if c.is_ascii_control() && c > '\\u{1}' =>"),
 ("b_escape_3", F, "\"\\\\u{:04x}\"", "\"\\\\u{:03x}\""),
 ("b_backslash", F, "            '\\\\' => write!(writer, \"\\\\\\\\\")?,\n", ""),
 ("b_ff_bs", F, "'\\u{0C}' => write!(writer, \"\\\\f\")?", "'\\u{0B}' => write!(writer, \"\\\\f\")?"),
 ("b_high_escape", F, "c if c.is_control() =>", "c if c.is_control() || c > '\\u{fffd}' =>"),
 ("b_enum_null_unit", F, "        // Unit variant - just output the name as a string\n        write_json_string(writer, variant_name)", "        // Unit variant - just output the name as a string\n        write!(writer, \"{}\", variant_name)"),
 ("b_wrong_field", F, "            let field = enum_peek.field(0).ok_or_else", "            let field = enum_peek.field(variant.data.fields.len()).ok_or_else"),
 ("b_to_string_debug", F, "    let mut output = Vec::new();\n    serialize(&peek, &mut output).unwrap();", "    let mut output = Vec::new();\n    output.push(b' ');\n    serialize(&peek, &mut output).unwrap();\n    output.push(b',');"),
]
