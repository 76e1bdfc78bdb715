F = "facet-reflect/src/wip/put_f64.rs"
M = [
    ("f_fract", F, "number % 1.0 != 0.0", "number.fract() != 0.0"),
    ("f_trunc", F, "number % 1.0 != 0.0", "number.trunc() != number"),
    ("f_round", F, "number % 1.0 != 0.0", "!(number.is_finite() && number.round() == number)"),
    ("f_cmp", F, "if (0.0..=u8::MAX as f64).contains(&number) {", "if number >= 0.0 && number <= 255.0 {"),
    ("f_cmp2", F, "if (0.0..=u8::MAX as f64).contains(&number) {", "if number > -1.0 && number < 256.0 {"),
    ("f_back", F, "if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {\n                self.put(number as i32)", "if (number as i32) as f64 == number {\n                self.put(number as i32)"),
    ("f_early", F, "            if (0.0..=u16::MAX as f64).contains(&number) {\n                self.put(number as u16)\n            } else {\n                Err(ReflectError::OperationFailed {\n                    shape,\n                    operation: \"number out of range\",\n                })\n            }",
     "            if number < 0.0 || number > u16::MAX as f64 {\n                return Err(ReflectError::OperationFailed { shape, operation: \"number out of range\" });\n            }\n            self.put(number as u16)"),
    ("f_nzmatch", F, "            if (1.0..=u8::MAX as f64).contains(&number) {\n                let value = NonZeroU8::new(number as u8).unwrap();\n                self.put(value)\n            } else {\n                Err(ReflectError::OperationFailed {\n                    shape,\n                    operation: \"number out of range\",\n                })\n            }",
     "            let whole = (0.0..=u8::MAX as f64).contains(&number).then_some(number as u8);\n            match whole.and_then(NonZeroU8::new) {\n                Some(value) => self.put(value),\n                None => Err(ReflectError::OperationFailed { shape, operation: \"number out of range\" }),\n            }"),
    ("f_helper", F, "    /// Attempts to put a `f64` into", "    fn fits(number: f64, lo: f64, hi: f64) -> bool {\n        lo <= number && number < hi\n    }\n\n    /// Attempts to put a `f64` into", ),
    ("f_wide", F, "self.put(number as u16)", "self.put(number as i64 as u16)"),
    ("f_tryfrom", F, "            if (0.0..=u32::MAX as f64).contains(&number) {\n                self.put(number as u32)\n            } else {\n                Err(ReflectError::OperationFailed {\n                    shape,\n                    operation: \"number out of range\",\n                })\n            }",
     "            match u32::try_from(number as i64) {\n                Ok(n) => self.put(n),\n                Err(_) => Err(ReflectError::OperationFailed { shape, operation: \"number out of range\" }),\n            }"),
    ("f_const", F, "if (0.0..=u8::MAX as f64).contains(&number) {", "const TOP: f64 = u8::MAX as f64;\n            if (0.0..=TOP).contains(&number) {"),
    ("f_pow", F, "if (0.0..u64::MAX as f64 + 1.0).contains(&number) {\n                self.put(number as u64)", "if (0.0..18446744073709551616.0).contains(&number) {\n                self.put(number as u64)"),
    ("f_finite", F, "        // Match on the concrete Rust type\n", "        if !is_float && !number.is_finite() {\n            return Err(ReflectError::OperationFailed { shape, operation: \"not a number\" });\n        }\n        // Match on the concrete Rust type\n"),
    ("f_ptr", F, "if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {", "if number.abs() <= f32::MAX as f64 {"),
]
