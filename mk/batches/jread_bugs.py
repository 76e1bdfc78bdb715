F = "facet-json/src/deserialize.rs"
E = "facet-json/src/deserialize/error.rs"
M = [
 ("b_skip_bs_eof", F, "if *pos + 1 >= bytes.len() {", "if *pos >= bytes.len() {"),
 ("b_skip_obj_eof", F, "                if *pos >= bytes.len() {\n                    return Err(JsonErrorKind::UnexpectedEof(\n                        \"while skipping over value: object value with EOF after\",\n                    ));\n                }\n", ""),
 ("b_skip_arr_eof", F, "                if *pos >= bytes.len() {\n                    return Err(JsonErrorKind::UnexpectedEof(\n                        \"while skipping over value: EOF inside array\",\n                    ));\n                }\n", ""),
 ("b_skip_root_eof", F, "    if *pos >= bytes.len() {\n        return Err(JsonErrorKind::UnexpectedEof(\n            \"while skipping over value: input ended unexpectedly at root\",\n        ));\n    }\n", ""),
 ("b_true_len", F, "bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"true\"", "bytes.len() >= *pos + 3 && &bytes[*pos..*pos + 4] == b\"true\""),
 ("b_false_len", F, "bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b\"false\"", "bytes.len() > *pos && &bytes[*pos..*pos + 5] == b\"false\""),
 ("b_null_len", F, "bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b\"null\"", "&bytes[*pos..*pos + 4] == b\"null\""),
 ("b_num_dot", F, "if *pos < bytes.len() && bytes[*pos] == b'.' {", "if bytes[*pos] == b'.' {"),
 ("b_num_exp_sign", F, "if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {", "if bytes[*pos] == b'+' || bytes[*pos] == b'-' {"),
 ("b_ws", F, "        while *pos < bytes.len() {\n            match bytes[*pos] {\n                b' ' |", "        while *pos <= bytes.len() {\n            match bytes[*pos] {\n                b' ' |"),
 ("b_str_and", F, "            while *pos < bytes.len() {\n                match bytes[*pos] {\n                    b'\\\\' => {", "            while *pos != bytes.len() {\n                match bytes[*pos] {\n                    b'\\\\' => {", 1),
 ("b_colon_eof", F, "if *pos >= bytes.len() || bytes[*pos] != b':' {", "if bytes[*pos] != b':' {"),
 ("b_push_order", F, "                                stack.push(Expect::Value(WhyValue::ObjectValue));\n                                stack.push(Expect::Separator(Separator::Colon));\n                                stack.push(Expect::Value(WhyValue::ObjectKey));", "                                stack.push(Expect::Separator(Separator::Colon));\n                                stack.push(Expect::Value(WhyValue::ObjectValue));\n                                stack.push(Expect::Value(WhyValue::ObjectKey));", 1),
 ("b_unwrap_wip_push", F, "wip = reflect!(wip.push());\n                                continue;", "wip = wip.push().unwrap();\n                                continue;"),
 ("b_unwrap_build", F, "return Ok(reflect!(wip.build()));\n                } else {\n                    trace!(\"frame", "return Ok(wip.build().unwrap());\n                } else {\n                    trace!(\"frame"),
 ("b_utf8_unwrap", F, "                            match core::str::from_utf8(&input[start..end]) {\n                                Ok(it) => alloc::borrow::Cow::Borrowed(it),\n                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(\n                                    \"Invalid UTF-8 sequence: {}\",\n                                    e\n                                ))),\n                            }", "                            alloc::borrow::Cow::Borrowed(core::str::from_utf8(&input[start..end]).unwrap())"),
 ("b_utf8_unchecked", F, "match alloc::string::String::from_utf8(bytes) {", "match Ok::<_, core::str::Utf8Error>(unsafe { alloc::string::String::from_utf8_unchecked(bytes) }) {"),
 ("b_number_class", F, "b'0'..=b'9' | b'.' => {\n                                    pos += 1;", "b'0'..=b'9' | b'.' | 0x80.. => {\n                                    pos += 1;"),
 ("b_parse_unwrap", F, "                        let Ok(number) = text.parse::<f64>() else {\n                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));\n                        };", "                        let number = text.parse::<f64>().unwrap();"),
 ("b_slice_after", F, "let slice_rest = &input[pos..];\n                        if slice_rest.starts_with(b\"null\")", "let slice_rest = &input[pos + 2..];\n                        if slice_rest.starts_with(b\"ll\")"),
 ("b_true_advance", F, "                            pos += 4;\n\n                            // ok but", "                            pos += 5;\n\n                            // ok but"),
 ("b_start_end", F, "bytes.extend(&input[start..pos]);", "bytes.extend(&input[start..pos - 1]);"),
 ("b_hex_unchecked", F, "for &digit in input.get(*pos..*pos + 4)? {", "for &digit in &input[*pos..*pos + 4] {"),
 ("b_hex_digit", F, "code = code * 16 + (digit as char).to_digit(16)?;", "code = code * 16 + (digit as char).to_digit(16).unwrap();"),
 ("b_surr", F, "    if !(0xdc00..0xe000).contains(&low) {\n        return None;\n    }\n", ""),
 ("b_surr_hi", F, "    if !(0xd800..0xdc00).contains(&code) {", "    if !(0xd000..0xdc00).contains(&code) {"),
 ("b_char_unwrap", F, "return char::from_u32(code);", "return Some(char::from_u32(code).unwrap());"),
 ("b_err_sub", E, "self.pos.saturating_sub(s.len())", "self.pos - s.len()"),
 ("b_err_sub1", E, "let span_end = self.pos.saturating_sub(1);", "let span_end = self.pos - 1;"),
 ("b_err_unwrap", E, "        let Ok(input_str) = core::str::from_utf8(self.input) else {\n            return write!(f, \"(JSON input was invalid UTF-8)\");\n        };", "        let input_str = core::str::from_utf8(self.input).unwrap();"),
 ("b_err_min", E, "        span_end = span_end.min(input_str.len());\n", ""),
 ("b_err_writer_unwrap", E, "        if report.finish().write(cache, &mut writer).is_err() {\n            return write!(f, \"Error formatting with ariadne\");\n        }", "        report.finish().write(cache, &mut writer).unwrap();"),
 ("b_field_index", F, "wip = reflect!(wip.field_named(field.name));", "wip = wip.field_named(field.name).unwrap();"),
 ("b_value_expect", F, "                                // okay, next we expect an item and a separator (or the end of the array)\n                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));\n                                stack.push(Expect::Value(WhyValue::ArrayElement));", "                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));\n                                stack.push(Expect::Value(WhyValue::ObjectKey));"),
 ("b_top_only_key", F, "stack.push(Expect::Value(WhyValue::TopLevel));", "stack.push(Expect::Value(WhyValue::ObjectKey));"),
 ("b_next_index", F, "if let Some(&next) = input.get(pos + 1) {", "if pos + 1 <= input.len() {\n                                        let next = input[pos + 1];"),
 ("b_first_byte", F, "    let mut pos = 0;\n\n    macro_rules! err", "    let mut pos = 0;\n    if input[0] == 0xef {\n        pos = 3;\n    }\n\n    macro_rules! err"),
 ("b_bom_len", F, "    let mut pos = 0;\n\n    macro_rules! err", "    let mut pos = 0;\n    if input.len() > 1 && input[0] == 0xef && input[1] == 0xbb && input[2] == 0xbf {\n        pos = 3;\n    }\n\n    macro_rules! err"),
 ("b_depth_u8", F, "    let mut stack: Vec<Expect> = Vec::new();", "    let mut turns: u8 = 0;\n    let mut stack: Vec<Expect> = Vec::new();"),
]
M = [m for m in M if m[0] != "b_depth_u8"] + [
 ("b_depth_u8", [(F, "    let mut stack: Vec<Expect> = Vec::new();", "    let mut turns: u8 = 0;\n    let mut stack: Vec<Expect> = Vec::new();"), (F, "        let frame_count = wip.frames_count();", "        turns += 1;\n        trace!(\"{turns}\");\n        let frame_count = wip.frames_count();")]),
 ("b_pop_unwrap", F, "        let expect = match stack.pop() {\n            Some(expect) => expect,\n            None => {\n                if frame_count == 1 {\n                    return Ok(reflect!(wip.build()));\n                } else {\n                    trace!(\"frame_count isn't 1, it's {}\", frame_count);\n                    bail!(JsonErrorKind::UnexpectedEof(\"frame_count isn't 1\"));\n                }\n            }\n        };", "        let expect = stack.pop().unwrap();"),
 ("b_frames_minus", F, "trace!(\"[{frame_count}] Expecting", "let frame_count = frame_count - 1;\n        trace!(\"[{frame_count}] Expecting"),
]
