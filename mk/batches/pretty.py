F = "facet-pretty/src/printer.rs"
ST = "if field.flags.contains(FieldFlags::SENSITIVE) {\n                            // Field value is sensitive"
M = [
 ("b_nocheck", F, ST, ST.replace("field.flags.contains(FieldFlags::SENSITIVE)", "false")),
 ("b_first", F, ST, ST.replace("field.flags", "struct_.fields[0].flags")),
 ("b_depth", F, ST, ST.replace("field.flags", "item.format_depth < 4 && field.flags")),
 ("b_empty", F, ST, ST.replace("field.flags.contains(FieldFlags::SENSITIVE)", "!field.attributes.is_empty() && field.flags == FieldFlags::SENSITIVE")),
 ("b_bytes", F, ST, ST.replace("field.flags", "!matches!(field_value.shape().def, Def::List(_)) && field.flags")),
 ("b_prev", F, "let field_value = peek_struct.field(field_index).unwrap();", "let field_value = peek_struct.field(field_index).unwrap();\n let prev = if field_index > 0 { struct_.fields[field_index - 1] } else { field };", 1),
 ("b_list_dbg", F, "                            let list = item.value.into_list().unwrap();\n                            // When recursing", "                            let list = item.value.into_list().unwrap();\n if list.len() > 100 { write!(f, \"{:?}\", item.value)?; continue; }\n                            // When recursing"),
 ("b_struct_disp", F, "                            let struct_ = item.value.into_struct().unwrap();\n\n", "                            let struct_ = item.value.into_struct().unwrap();\n if item.value.shape().is_display() { self.format_scalar(item.value, f)?; continue; }\n"),
 ("b_max", F, "write!(f, \"...\")?;", "write!(f, \"{:?}\", item.value)?;"),
 ("b_cycle", F, "self.write_punctuation(f, \" { \")?;", "self.write_punctuation(f, \" { \")?; self.format_scalar(item.value, f)?;"),
 ("b_red", F, 'self.write_redacted(f, "[REDACTED]")?;', 'self.write_redacted(f, "[REDACTED]")?; if field_value.shape().is_debug() { self.write_redacted(f, &format!(" /* {:?} */", field_value))?; }', 1),
 ("b_red_len", F, 'self.write_redacted(f, "[REDACTED]")?;', 'self.write_redacted(f, &"*".repeat(field_value.get::<String>().map(|s| s.len()).unwrap_or(8)))?;', 1),
 ("b_finish", F, "                    // Add comma and newline for struct fields and list items\n", "                    if item.type_depth > 20 { self.format_scalar(item.value, f)?; }\n"),
 ("b_enum_tuple", F, "                        // Check if field is sensitive\n                        if field.flags.contains(FieldFlags::SENSITIVE) {\n                            self.write", "                        if variant.data.kind == StructKind::Struct && field.flags.contains(FieldFlags::SENSITIVE) {\n                            self.write"),
 ("b_enum_var0", F, "let field = variant.data.fields[field_index];", "let field = _def.variants[0].data.fields.get(field_index).copied().unwrap_or(variant.data.fields[field_index]);"),
 ("b_none", F, "self.write_punctuation(f, \"::None\")?;", "write!(f, \"{:?}\", item.value)?;"),
]
