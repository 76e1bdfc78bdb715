F = "facet-pretty/src/printer.rs"
ST = "if field.flags.contains(FieldFlags::SENSITIVE) {\n                            // Field value is sensitive"
FN = "    /// Format a scalar value\n    fn format_scalar("
M = [
 ("r_bool", F, ST, "let hidden = field.flags.contains(FieldFlags::SENSITIVE);\n                        if hidden {\n                            // Field value is sensitive"),
 ("r_fn", [(F, ST, ST.replace("field.flags.contains(FieldFlags::SENSITIVE)", "Self::hidden(&field)")), (F, FN, "    fn hidden(field: &facet_core::Field) -> bool {\n        field.flags.contains(FieldFlags::SENSITIVE)\n    }\n\n" + FN)]),
 ("r_intersects", F, ST, ST.replace("contains", "intersects")),
 ("r_fieldref", F, "let field = struct_.fields[field_index];", "let field = &struct_.fields[field_index];"),
 ("r_get", F, "let field = struct_.fields[field_index];", "let Some(field) = struct_.fields.get(field_index) else { continue };"),
 ("r_late", F, "                            let finish_item = StackItem {\n                                value: field_value,", "                            let field_value = peek_struct.field(field_index).unwrap();\n                            let finish_item = StackItem {\n                                value: field_value,"),
 ("r_push_fn", [(F, "                            stack.push_back(item);\n                            stack.push_back(finish_item);\n                            stack.push_back(start_item);", "                            stack.push_back(item);\n                            Self::push2(&mut stack, finish_item, start_item);"), (F, FN, "    fn push2<'a>(stack: &mut VecDeque<StackItem<'a>>, a: StackItem<'a>, b: StackItem<'a>) {\n        stack.push_back(a);\n        stack.push_back(b);\n    }\n\n" + FN)]),
 ("r_def", F, "let field = struct_.fields[field_index];", "let field = peek_struct.def().fields[field_index];"),
 ("r_continue", F, "                        } else {\n                            // Field value is not sensitive, format normally", "                            continue;\n                        }\n                        {\n                            // Field value is not sensitive, format normally"),
 ("r_match", F, "if let Def::Struct(struct_) = item.value.shape().def {", "let def = item.value.shape().def;\n                    if let Def::Struct(struct_) = def {"),
 ("r_wrap", F, "write!(f, \"{}\", self.0)?;", "core::fmt::Display::fmt(self.0, f)?;"),
 ("r_typename", F, "write!(f, \"{}\", type_name)", "f.write_str(&format!(\"{}\", type_name))"),
 ("r_active", F, "if let StructKind::Struct = enum_val.active_variant().data.kind {", "if matches!(variant.data.kind, StructKind::Struct) {"),
 ("r_efields", F, "let field = variant.data.fields[field_index];", "let field = &enum_val.active_variant().data.fields[field_index];"),
 ("r_unsafe_order", F, "                        let field = struct_.fields[field_index];\n                        let field_value = peek_struct.field(field_index).unwrap();", "                        let field_value = peek_struct.field(field_index).unwrap();\n                        let field = struct_.fields[field_index];"),
 ("r_state", F, "                            let start_item = StackItem {\n                                value: field_value,\n                                format_depth: item.format_depth,\n                                type_depth: item.type_depth + 1,\n                                state: StackState::Start,\n                            };", "                            let start_item = StackItem { state: StackState::Start, ..StackItem { value: field_value, format_depth: item.format_depth, type_depth: item.type_depth + 1, state: StackState::Finish } };", 1),
 ("r_iter", F, "let field_value = peek_struct.field(field_index).unwrap();", "let field_value = peek_struct.fields().nth(field_index).unwrap().1;"),
 ("r_hasherfn", F, "        value.shape().def.hash(&mut hasher);\n", "        core::hash::Hash::hash(&value.shape().def, &mut hasher);\n"),
]
