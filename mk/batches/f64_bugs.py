F = "facet-reflect/src/wip/put_f64.rs"
M = [
    ("u8_max", F, "(0.0..=u8::MAX as f64)", "(0.0..=256.0)"),
    ("u8_excl", F, "(0.0..=u8::MAX as f64)", "(0.0..u8::MAX as f64)"),
    ("u32_i32", F, "(0.0..=u32::MAX as f64)", "(0.0..=i32::MAX as f64)"),
    ("u64_incl", F, "if (0.0..u64::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as u64)", "if (0.0..=u64::MAX as f64).contains(&number) {\n                self.put(number as u64)"),
    ("i64_incl", F, "if (i64::MIN as f64..i64::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as i64)", "if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {\n                self.put(number as i64)"),
    ("i64_round", F, "if (i64::MIN as f64..i64::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as i64)", "if (number as i64) as f64 == number {\n                self.put(number as i64)"),
    ("u16_as_u8", F, "self.put(number as u16)", "self.put(number as u8 as u16)"),
    ("i16_neg", F, "(i16::MIN as f64..=i16::MAX as f64).contains(&number) {\n                self.put(", "(-(i16::MAX as f64)..=i16::MAX as f64).contains(&number) {\n                self.put("),
    ("nofrac", F, "if !is_float && number % 1.0 != 0.0 {", "if !is_float && number.is_nan() {"),
    ("frac_eps", F, "number % 1.0 != 0.0", "(number % 1.0).abs() > f64::EPSILON"),
    ("nz_zero", F, "(i8::MIN as f64..=i8::MAX as f64).contains(&number) && number != 0.0", "(i8::MIN as f64..=i8::MAX as f64).contains(&number)"),
    ("nz_from0", F, "(1.0..=u16::MAX as f64)", "(0.0..=u16::MAX as f64)"),
    ("nz_pos", F, "(i32::MIN as f64..=i32::MAX as f64).contains(&number) && number != 0.0", "(i32::MIN as f64..=i32::MAX as f64).contains(&number) && number > 0.0"),
    ("f32_always", F, "if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {", "if !number.is_nan() {"),
    ("f64_f32", F, "            self.put(number)\n", "            self.put(number as f32 as f64)\n"),
    ("f64_round", F, "            self.put(number)\n", "            self.put(number + 0.0 * number.fract())\n"),
    ("nan_in", F, "if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {\n                self.put(number as i32)", "if !(number < i32::MIN as f64 || number > i32::MAX as f64) {\n                self.put(number as i32)"),
    ("usize_u32", F, "if (0.0..usize::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as usize)", "if (0.0..usize::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as u32 as usize)"),
    ("is_float_int", F, "let is_float = shape.is_type::<f32>() || shape.is_type::<f64>();", "let is_float = shape.is_type::<f32>() || shape.is_type::<f64>() || shape.is_type::<i8>();"),
]
