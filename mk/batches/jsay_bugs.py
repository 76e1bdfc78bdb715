D = "facet-json/src/deserialize.rs"
M = [
    ("true_false", D, "wip = reflect!(wip.put::<bool>(false));", "wip = reflect!(wip.put::<bool>(true));"),
    ("true_len", D, 'starts_with(b"true") {\n                            pos += 4;', 'starts_with(b"true") {\n                            pos += 5;'),
    ("true_prefix", D, 'starts_with(b"true")', 'starts_with(b"tru")'),
    ("null_len", D, 'starts_with(b"null") {\n                            pos += 4;', 'starts_with(b"null") {\n                            pos += 3;'),
    ("null_any", D, 'if slice_rest.starts_with(b"null") {', 'if slice_rest.len() >= 4 {'),
    ("num_nine", D, "b'0'..=b'9' | b'.' => {", "b'0'..=b'8' | b'.' => {"),
    ("num_nodot", D, "b'0'..=b'9' | b'.' => {", "b'0'..=b'9' => {"),
    ("num_sign", D, "let start = pos - 1;", "let start = pos;"),
    ("num_slice", D, "let number = &input[start..pos];", "let number = &input[start..pos.min(start + 19)];"),
    ("num_f64", D, "if text.contains('.') {", "if text.contains('.') || text.len() > 15 {"),
    ("num_f64b", D, "if text.contains('.') {\n                                wip.try_put_f64(number)\n                            } else {\n                                // not every integer can be represented exactly as a f64\n                                wip.parse(text)\n                            };", "wip.try_put_f64(number);"),
    ("num_f32", D, "let Ok(number) = text.parse::<f64>() else {", "let Ok(number) = text.parse::<f32>().map(|x| x as f64) else {"),
    ("str_n", D, "b'n' => bytes.push(b'\\n'),", "b'n' => bytes.push(b'\\r'),"),
    ("str_b", D, "b'b' => bytes.push(0x08),", "b'b' => bytes.push(0x0b),"),
    ("str_slash", D, "b'\"' | b'\\\\' | b'/' => bytes.push(next),", "b'\"' | b'\\\\' | b'/' => bytes.push(b'\\\\'),"),
    ("str_lazy", D, "                                        if bytes.is_empty() {\n                                            bytes.extend(&input[start..pos]);\n                                        }\n", ""),
    ("str_lazy2", D, "bytes.extend(&input[start..pos]);", "bytes.extend(&input[start..pos + 1]);"),
    ("str_lazy3", D, "bytes.extend(&input[start..pos]);", "bytes.extend(&input[start + 1..pos]);"),
    ("str_plain", D, "                                    if !bytes.is_empty() {\n                                        bytes.push(c);\n                                    }\n", "                                    if bytes.len() > 1 {\n                                        bytes.push(c);\n                                    }\n"),
    ("str_plain2", D, "                                    if !bytes.is_empty() {\n                                        bytes.push(c);\n                                    }\n", "                                    if !bytes.is_empty() && c != 0x7f {\n                                        bytes.push(c);\n                                    }\n"),
    ("str_plain3", D, "                                    if !bytes.is_empty() {\n                                        bytes.push(c);\n", "                                    if !bytes.is_empty() {\n                                        bytes.push(c & 0x7f);\n"),
    ("str_skip3", D, "                                        pos += 2;\n                                        match next {", "                                        pos += 3;\n                                        match next {"),
    ("str_end", D, "match core::str::from_utf8(&input[start..end]) {", "match core::str::from_utf8(&input[start..pos]) {"),
    ("str_raw", D, "let value = if bytes.is_empty() {", "let value = if bytes.len() < 2 {"),
    ("str_after", D, "let end = pos;\n                        pos += 1;", "let end = pos;\n                        pos += 2;"),
    ("u_hex", D, "code = code * 16 + (digit as char).to_digit(16)?;", "code = code * 10 + (digit as char).to_digit(16)?;"),
    ("u_base", D, "0x10000 + (code - 0xd800)", "(code - 0xd800)"),
    ("u_low", D, "if !(0xdc00..0xe000).contains(&low) {", "if !(0xdc00..=0xe000).contains(&low) {"),
    ("u_high", D, "if !(0xd800..0xdc00).contains(&code) {", "if !(0xd800..=0xdc00).contains(&code) {"),
    ("u_noesc", D, "    if input.get(*pos..*pos + 2)? != b\"\\\\u\" {\n        return None;\n    }\n", ""),
    ("u_adv", D, "        *pos += 4;\n        Some(code)", "        *pos += 3;\n        Some(code)"),
    ("u_off", D, "input.get(*pos..*pos + 4)?", "input.get(*pos + 1..*pos + 5)?"),
    ("key_ci", D, "if f.name == value {", "if f.name.eq_ignore_ascii_case(&value) {"),
    ("key_prefix", D, "if f.name == value {", "if value.starts_with(f.name) {"),
    ("key_rename_ci", D, "rename == value\n", "rename.trim() == value.trim()\n"),
    ("key_neg", D, "rename == value\n", "rename != value\n"),
    ("key_first", D, "wip = reflect!(wip.field_named(field.name));", "wip = reflect!(wip.field_named(struct_def.fields[0].name));"),
    ("key_anyattr", D, "                                            } else {\n                                                false\n                                            }\n                                        })\n                                    });", "                                            } else {\n                                                true\n                                            }\n                                        })\n                                    });"),
    ("skip_bs", D, "*pos += 2; // Skip backslash and the next character (escaped)", "*pos += 1; // Skip backslash"),
    ("skip_quote", D, "                    b'\"' => {\n                        *pos += 1;\n                        break;", "                    b'\"' => {\n                        break;"),
    ("skip_true", D, "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"true\" {\n                *pos += 4;", "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"true\" {\n                *pos += 3;"),
    ("skip_null", D, "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"null\" {\n                *pos += 4;", "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"null\" {\n                *pos += 5;"),
]
