F = "facet-json/src/deserialize.rs"
E = "facet-json/src/deserialize/error.rs"
WS = """        while let Some(c) = input.get(pos).copied() {
            match c {
                b' ' | b'\\t' | b'\\n' | b'\\r' => {
                    pos += 1;
                }
                _ => break,
            }
        }
"""
M = [
 ("r_ws_fn", [(F, WS, "        pos = after_whitespace(input, pos);\n"), (F, "/// Parses what follows `\\u`", "fn after_whitespace(input: &[u8], mut pos: usize) -> usize {\n    while pos < input.len() && matches!(input[pos], b' ' | b'\\t' | b'\\n' | b'\\r') {\n        pos += 1;\n    }\n    pos\n}\n\n/// Parses what follows `\\u`")]),
 ("r_ws_rest", [(F, WS, "        skip_ws(&mut pos, input);\n"), (F, "/// Parses what follows `\\u`", "fn skip_ws(pos: &mut usize, input: &[u8]) {\n    let blanks = input[*pos..].iter().take_while(|c| c.is_ascii_whitespace()).count();\n    *pos += blanks;\n}\n\n/// Parses what follows `\\u`")]),
 ("r_peek_closure", F, "        let Some(c) = input.get(pos).copied() else {\n            bail!(JsonErrorKind::UnexpectedEof(\"no input at pos\"));\n        };", "        if pos >= input.len() {\n            bail!(JsonErrorKind::UnexpectedEof(\"no input at pos\"));\n        }\n        let c = input[pos];"),
 ("r_stack_vec", F, "    let mut stack: Vec<Expect> = Vec::new();\n    stack.push(Expect::Value(WhyValue::TopLevel));", "    let mut stack: Vec<Expect> = alloc::vec![Expect::Value(WhyValue::TopLevel)];"),
 ("r_extend", F, "                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));\n                                stack.push(Expect::Value(WhyValue::ObjectValue));\n                                stack.push(Expect::Separator(Separator::Colon));\n                                stack.push(Expect::Value(WhyValue::ObjectKey));", "                                stack.extend([\n                                    Expect::Separator(Separator::Comma(WhyComma::Object)),\n                                    Expect::Value(WhyValue::ObjectValue),\n                                    Expect::Separator(Separator::Colon),\n                                    Expect::Value(WhyValue::ObjectKey),\n                                ]);", 1),
 ("r_push_member_fn", [(F, "                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));\n                                stack.push(Expect::Value(WhyValue::ObjectValue));\n                                stack.push(Expect::Separator(Separator::Colon));\n                                stack.push(Expect::Value(WhyValue::ObjectKey));", "                                expect_member(&mut stack);", 2), (F, "    let mut stack: Vec<Expect> = Vec::new();", "    fn expect_member(stack: &mut Vec<Expect>) {\n        stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));\n        stack.push(Expect::Value(WhyValue::ObjectValue));\n        stack.push(Expect::Separator(Separator::Colon));\n        stack.push(Expect::Value(WhyValue::ObjectKey));\n    }\n\n    let mut stack: Vec<Expect> = Vec::new();")]),
 ("r_assert_eq", F, "                                        assert!(matches!(\n                                            expect_colon,\n                                            Some(Expect::Separator(Separator::Colon))\n                                        ));", "                                        assert_eq!(expect_colon, Some(Expect::Separator(Separator::Colon)));"),
 ("r_debug_assert", F, "                                        assert!(matches!(\n                                            expect_colon,\n                                            Some(Expect::Separator(Separator::Colon))\n                                        ));", "                                        debug_assert!(matches!(\n                                            expect_colon,\n                                            Some(Expect::Separator(Separator::Colon))\n                                        ));"),
 ("r_number_rest", F, "                        while let Some(c) = input.get(pos) {\n                            match c {\n                                b'0'..=b'9' | b'.' => {\n                                    pos += 1;\n                                }\n                                _ => break,\n                            }\n                        }", "                        while pos < input.len() && (input[pos].is_ascii_digit() || input[pos] == b'.') {\n                            pos += 1;\n                        }"),
 ("r_number_pos", F, "                        let start = pos - 1;\n                        while let Some(c) = input.get(pos) {\n                            match c {\n                                b'0'..=b'9' | b'.' => {\n                                    pos += 1;\n                                }\n                                _ => break,\n                            }\n                        }", "                        let start = pos - 1;\n                        let more = input[pos..].iter().position(|c| !matches!(c, b'0'..=b'9' | b'.')).unwrap_or(input.len() - pos);\n                        pos += more;"),
 ("r_utf8_bail", F, "let text = core::str::from_utf8(number).unwrap();", "let Ok(text) = core::str::from_utf8(number) else {\n                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));\n                        };"),
 ("r_null_slice", F, "if slice_rest.starts_with(b\"null\") {", "if slice_rest.len() >= 4 && &slice_rest[..4] == b\"null\" {"),
 ("r_skip_lit_fn", [(F, "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"true\" {\n                *pos += 4;\n            } else {", "            if !skip_literal(pos, bytes, b\"true\") {"), (F, "            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"null\" {\n                *pos += 4;\n            } else {", "            if !skip_literal(pos, bytes, b\"null\") {"), (F, "fn skip_over_value(", "fn skip_literal(pos: &mut usize, bytes: &[u8], literal: &[u8]) -> bool {\n    let found = bytes[*pos..].starts_with(literal);\n    if found {\n        *pos += literal.len();\n    }\n    found\n}\n\nfn skip_over_value(")]),
 ("r_skip_get", F, "            if *pos < bytes.len() && bytes[*pos] == b'.' {", "            if bytes.get(*pos) == Some(&b'.') {"),
 ("r_skip_digits_fn", [(F, "                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {\n                    *pos += 1;\n                    has_digit = true;\n                }\n                if !has_digit {\n                    return Err(JsonErrorKind::UnexpectedCharacter('.'));\n                }", "                has_digit |= skip_digits(pos, bytes) > 0;\n                if !has_digit {\n                    return Err(JsonErrorKind::UnexpectedCharacter('.'));\n                }"), (F, "fn skip_over_value(", "fn skip_digits(pos: &mut usize, bytes: &[u8]) -> usize {\n    let start = *pos;\n    while let Some(b'0'..=b'9') = bytes.get(*pos) {\n        *pos += 1;\n    }\n    *pos - start\n}\n\nfn skip_over_value(")]),
 ("r_skip_local", F, "            // Skip a string, with escape processing\n            *pos += 1;\n            while *pos < bytes.len() {\n                match bytes[*pos] {\n                    b'\\\\' => {\n                        // Could have EOF after backslash\n                        if *pos + 1 >= bytes.len() {\n                            return Err(JsonErrorKind::UnexpectedEof(\n                                \"while skipping over value: EOF after backslash in string\",\n                            ));\n                        }\n                        *pos += 2; // Skip backslash and the next character (escaped)\n                    }\n                    b'\"' => {\n                        *pos += 1;\n                        break;\n                    }\n                    _ => {\n                        *pos += 1;\n                    }\n                }\n            }", "            let mut at = *pos + 1;\n            while at < bytes.len() {\n                if bytes[at] == b'\"' {\n                    at += 1;\n                    break;\n                }\n                if bytes[at] == b'\\\\' {\n                    at += 1;\n                    if at == bytes.len() {\n                        return Err(JsonErrorKind::UnexpectedEof(\n                            \"while skipping over value: EOF after backslash in string\",\n                        ));\n                    }\n                }\n                at += 1;\n            }\n            *pos = at;"),
 ("r_hex_bytes", F, "        for &digit in input.get(*pos..*pos + 4)? {\n            code = code * 16 + (digit as char).to_digit(16)?;\n        }\n        *pos += 4;", "        for i in 0..4 {\n            let digit = *input.get(*pos + i)?;\n            code = code * 16 + (digit as char).to_digit(16)?;\n        }\n        *pos += 4;"),
 ("r_hex_fold", F, "        let mut code = 0;\n        for &digit in input.get(*pos..*pos + 4)? {\n            code = code * 16 + (digit as char).to_digit(16)?;\n        }\n        *pos += 4;\n        Some(code)", "        let digits = input.get(*pos..*pos + 4)?;\n        *pos += 4;\n        digits.iter().try_fold(0, |code, &digit| {\n            Some(code * 16 + (digit as char).to_digit(16)?)\n        })"),
 ("r_string_fn", [(F, "                                let Some(c) = unicode_escape(&mut pos, input)\n                                                else {\n                                                    bail!(JsonErrorKind::UnexpectedCharacter('u'));\n                                                };", "                                let Some(c) = unicode_escape(&mut pos, input) else { bail!(JsonErrorKind::UnexpectedCharacter('u')); };")]),
 ("r_err_clamp", E, "        span_start = span_start.min(input_str.len());\n        span_end = span_end.min(input_str.len());\n", "        let len = input_str.len();\n        if span_start > len {\n            span_start = len;\n        }\n        if span_end > len {\n            span_end = len;\n        }\n"),
 ("r_err_fn", [(E, "        while !input_str.is_char_boundary(span_start) {\n            span_start -= 1;\n        }", "        span_start = floor(input_str, span_start);"), (E, "impl core::fmt::Debug for JsonParse", "fn floor(s: &str, mut at: usize) -> usize {\n    while !s.is_char_boundary(at) {\n        at -= 1;\n    }\n    at\n}\n\nimpl core::fmt::Debug for JsonParse")]),
 ("r_err_plus1", E, "                let span_end = if self.pos < self.input.len() {\n                    self.pos + 1\n                } else {\n                    self.input.len()\n                };", "                let span_end = (self.pos + 1).min(self.input.len());"),
 ("r_bool_match", F, "        if let Some(why) = finished_value {", "        if finished_value.is_some() {\n            let why = finished_value.unwrap();"),
 ("r_key_split", F, "let mut pos = 0;\n\n    macro_rules! err", "let mut pos: usize = 0;\n    let len = input.len();\n    if len == 0 {\n        return Err(JsonParseErrorWithContext::new(JsonErrorKind::UnexpectedEof(\"no input at pos\"), input, pos, wip.path()));\n    }\n\n    macro_rules! err"),
]
