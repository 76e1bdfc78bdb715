D = "facet-json/src/deserialize.rs"
LOOP = "                                        if bytes.is_empty() {\n                                            bytes.extend(&input[start..pos]);\n                                        }\n                                        pos += 2;\n"
PLAIN = "                                    if !bytes.is_empty() {\n                                        bytes.push(c);\n                                    }\n                                    pos += 1;\n"
NUM = "                        while let Some(c) = input.get(pos) {\n                            match c {\n                                b'0'..=b'9' | b'.' => {\n                                    pos += 1;\n                                }\n                                _ => break,\n                            }\n                        }"
FIND = "                                    let field = struct_def.fields.iter().find(|f| {\n                                        // Check original name\n                                        if f.name == value {\n                                            return true;\n                                        }\n\n                                        // Check rename attribute\n                                        f.attributes.iter().any(|attr| {\n                                            if let &FieldAttribute::Rename(rename) = attr {\n                                                rename == value\n                                            } else {\n                                                false\n                                            }\n                                        })\n                                    });\n"
ESC = "                                            b'b' => bytes.push(0x08),\n                                            b'f' => bytes.push(0x0c),\n                                            b'n' => bytes.push(b'\\n'),\n                                            b'r' => bytes.push(b'\\r'),\n                                            b't' => bytes.push(b'\\t'),\n"
VAL = "let value = if bytes.is_empty() {\n                            match core"
SKIPSTR = "*pos += 2; // Skip backslash and the next character (escaped)"
M = [
    ("s_flag", D, [("let mut bytes = Vec::new();\n                        loop {", "let mut bytes = Vec::new();\n                        let mut escaped = false;\n                        loop {"),
                   (LOOP, LOOP.replace("bytes.is_empty()", "!escaped").replace("                                        pos += 2;", "                                        escaped = true;\n                                        pos += 2;")),
                   (PLAIN, PLAIN.replace("!bytes.is_empty()", "escaped")), (VAL, VAL.replace("bytes.is_empty()", "!escaped"))]),
    ("s_always", D, [(LOOP, "                                        pos += 2;\n"), (PLAIN, "                                    bytes.push(c);\n                                    pos += 1;\n")]),
    ("s_option", D, [("let mut bytes = Vec::new();\n                        loop {", "let mut bytes = Vec::<u8>::new();\n                        loop {"), (PLAIN, PLAIN.replace("!bytes.is_empty()", "bytes.len() > 0"))]),
    ("s_extslice", D, [(LOOP, LOOP.replace("bytes.extend(&input", "bytes.extend_from_slice(&input"))]),
    ("s_esctab", D, [(ESC, "                                            b'b' | b'f' | b'n' | b'r' | b't' => bytes.push(match next {\n                                                b'b' => 8,\n                                                b'f' => 12,\n                                                b'n' => 10,\n                                                b'r' => 13,\n                                                _ => 9,\n                                            }),\n")]),
    ("s_pos", D, [(LOOP, LOOP.replace("                                        pos += 2;\n", "                                        pos += 1;\n                                        pos += 1;\n"))]),
    ("s_split", D, [(PLAIN, "                                    pos += 1;\n                                    if !bytes.is_empty() {\n                                        bytes.push(c);\n                                    }\n")]),
    ("s_skipbs", D, [(SKIPSTR, "*pos += 1;\n                        *pos += 1;")]),
    ("s_num_helper", D, [(NUM, "                        pos = digits_end(input, pos);"), ("fn skip_over_value(", "fn digits_end(input: &[u8], mut at: usize) -> usize {\n    while at < input.len() && (input[at].is_ascii_digit() || input[at] == b'.') {\n        at += 1;\n    }\n    at\n}\n\nfn skip_over_value(")]),
    ("s_num_while", D, [(NUM, "                        while matches!(input.get(pos), Some(b'0'..=b'9' | b'.')) {\n                            pos += 1;\n                        }")]),
    ("s_num_int", D, [("let put = if text.contains('.') {\n                                wip.try_put_f64(number)\n                            } else {\n                                // not every integer can be represented exactly as a f64\n                                wip.parse(text)\n                            };", "let fraction = text.contains('.');\n                            let put = if !fraction { wip.parse(text) } else { wip.try_put_f64(number) };")]),
    ("s_find_loop", D, [(FIND, "                                    let mut field = None;\n                                    for f in struct_def.fields {\n                                        let mut hit = f.name == value;\n                                        for attr in f.attributes {\n                                            if let &FieldAttribute::Rename(rename) = attr {\n                                                hit = hit || rename == value;\n                                            }\n                                        }\n                                        if hit {\n                                            field = Some(f);\n                                            break;\n                                        }\n                                    }\n")]),
    ("s_find_fn", D, [(FIND, "                                    let field = struct_def.fields.iter().find(|f| goes_by(f, &value));\n"), ("fn skip_over_value(", "fn goes_by(f: &facet_core::Field, key: &str) -> bool {\n    f.name == key\n        || f.attributes.iter().any(|a| matches!(a, FieldAttribute::Rename(r) if *r == key))\n}\n\nfn skip_over_value(")]),
    ("s_find_or", D, [(FIND, "                                    let field = struct_def.fields.iter().find(|f| {\n                                        value == f.name\n                                            || f.attributes.iter().any(|attr| match attr {\n                                                FieldAttribute::Rename(rename) => value == *rename,\n                                                _ => false,\n                                            })\n                                    });\n")]),
    ("s_true_strip", D, [("if input[pos..].starts_with(b\"true\") {\n                            pos += 4;", "if input.len() >= pos + 4 && &input[pos..pos + 4] == b\"true\" {\n                            pos += 4;")]),
    ("s_true_get", D, [("if input[pos..].starts_with(b\"true\") {\n                            pos += 4;", "if input.get(pos..pos + 4) == Some(&b\"true\"[..]) {\n                            pos += 4;")]),
    ("s_true_len", D, [("if input[pos..].starts_with(b\"true\") {\n                            pos += 4;", "if input[pos..].starts_with(b\"true\") {\n                            pos += b\"true\".len();")]),
    ("s_end", D, [("                        let end = pos;\n                        pos += 1;\n", "                        pos += 1;\n                        let end = pos - 1;\n")]),
    ("s_skip_len", D, [("if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"true\" {\n                *pos += 4;", "if bytes[*pos..].starts_with(b\"true\") {\n                *pos += 4;")]),
]
M = [(n, [(d, a, b) for a, b in e]) for n, d, e in M]
