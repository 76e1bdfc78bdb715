F="facet-msgpack/src/from_msgpack.rs"
T="facet-msgpack/src/to_msgpack.rs"
M=[
("write_u8_if",T,"""    match n {
        0..=127 => {
            // positive fixint
            writer.write_all(&[n])
        }
        _ => {
            // uint8
            writer.write_all(&[0xcc, n])
        }
    }""","""    if n <= 0x7f {
        return writer.write_all(&[n]);
    }
    writer.write_all(&[0xcc, n])"""),
("u16_one_buf",T,"""            // uint16
            writer.write_all(&[0xcd])?;
            writer.write_all(&n.to_be_bytes())
        }
    }
}

fn write_u32""","""            // uint16
            let [hi, lo] = n.to_be_bytes();
            writer.write_all(&[0xcd, hi, lo])
        }
    }
}

fn write_u32"""),
("u32_shift",T,"""            // uint32
            writer.write_all(&[0xce])?;
            writer.write_all(&n.to_be_bytes())
        }
    }
}

fn write_u64""","""            // uint32
            writer.write_all(&[0xce, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8])
        }
    }
}

fn write_u64"""),
("u64_helper",T,"""            // uint64
            writer.write_all(&[0xcf])?;
            writer.write_all(&n.to_be_bytes())
        }
    }
}

fn write_i8""","""            // uint64
            write_tagged(writer, 0xcf, &n.to_be_bytes())
        }
    }
}

fn write_tagged<W: Write>(writer: &mut W, tag: u8, bytes: &[u8]) -> io::Result<()> {
    writer.write_all(&[tag])?;
    writer.write_all(bytes)
}

fn write_i8"""),
("i64_delegate",T,"""        0..=127 => {
            // positive fixint
            writer.write_all(&[n as u8])
        }
        128..=255 => {
            // uint8
            writer.write_all(&[0xcc, n as u8])
        }
        256..=65535 => {
            // uint16
            writer.write_all(&[0xcd])?;
            writer.write_all(&(n as u16).to_be_bytes())
        }
        65536..=4294967295 => {
            // uint32
            writer.write_all(&[0xce])?;
            writer.write_all(&(n as u32).to_be_bytes())
        }
        4294967296..=i64::MAX => {
            // uint64
            writer.write_all(&[0xcf])?;
            writer.write_all(&(n as u64).to_be_bytes())
        }""","""        0.. => write_u64(writer, n as u64),"""),
("i8_delegate",T,"                write_i8(writer, *value)","                write_i64(writer, i64::from(*value))"),
("i16_to_i32",T,"                write_i16(writer, *value)","                write_i32(writer, (*value).into())"),
("str_if",T,"""        0..=31 => {
            // fixstr
            writer.write_all(&[(0xa0 | len as u8)])?;
        }
        32..=255 => {""","""        0..=31 => {
            // fixstr
            let tag = 0xa0u8 + (len as u8);
            writer.write_all(std::slice::from_ref(&tag))?;
        }
        32..=255 => {"""),
("str_try",T,"""            // str16
            writer.write_all(&[0xda])?;
            writer.write_all(&(len as u16).to_be_bytes())?;""","""            // str16
            writer.write_all(&[0xda])?;
            let short = u16::try_from(len).unwrap();
            writer.write_all(&short.to_be_bytes())?;"""),
("fields_into_iter",T,"for (field, field_peek) in ps.fields() {\n                write_str(writer, field.name)?;\n                serialize(field_peek, writer)?;\n            }\n            Ok(())","let mut it = ps.fields();\n            while let Some((field, field_peek)) = it.next() {\n                write_str(writer, field.name)?;\n                serialize(field_peek, writer)?;\n            }\n            Ok(())"),
("field_count",T,"            let fields = sd.fields;\n            write_map_len(writer, fields.len())?;","            let _ = sd;\n            write_map_len(writer, ps.field_count())?;"),
("ifchain_match",T,"            } else if pv.shape().is_type::<bool>() {\n                let value = pv.get::<bool>().unwrap();","            } else if let Ok(value) = pv.get::<bool>() {"),
("bool_if",T,"writer.write_all(&[if *value { MSGPACK_TRUE } else { MSGPACK_FALSE }])","if *value {\n                    writer.write_all(&[MSGPACK_TRUE])\n                } else {\n                    writer.write_all(&[MSGPACK_FALSE])\n                }"),
("tovec_expect",T,"Vec::new()","Vec::with_capacity(64)"),
("d_u8_get",F,"""        if self.offset >= self.input.len() {
            return Err(DecodeError::InsufficientData);
        }
        let value = self.input[self.offset];
        self.offset += 1;
        Ok(value)""","""        let value = *self
            .input
            .get(self.offset)
            .ok_or(DecodeError::InsufficientData)?;
        self.offset += 1;
        Ok(value)"""),
("d_take",F,"""        if self.offset + 2 > self.input.len() {
            return Err(DecodeError::InsufficientData);
        }
        let value =
            u16::from_be_bytes(self.input[self.offset..self.offset + 2].try_into().unwrap());
        self.offset += 2;
        Ok(value)
    }""","""        let bytes = self.take(2)?;
        Ok(u16::from_be_bytes(bytes.try_into().unwrap()))
    }

    fn take(&mut self, n: usize) -> Result<&'input [u8], DecodeError> {
        let end = self.offset + n;
        if end > self.input.len() {
            return Err(DecodeError::InsufficientData);
        }
        let bytes = &self.input[self.offset..end];
        self.offset = end;
        Ok(bytes)
    }"""),
("d_u16_shift",F,"""        let value =
            u16::from_be_bytes(self.input[self.offset..self.offset + 2].try_into().unwrap());""","""        let hi = self.input[self.offset];
        let lo = self.input[self.offset + 1];
        let value = (hi as u16) << 8 | lo as u16;"""),
("d_u32_twice",F,"""        let value =
            u32::from_be_bytes(self.input[self.offset..self.offset + 4].try_into().unwrap());
        self.offset += 4;
        Ok(value)""","""        let high = self.decode_u16()? as u32;
        let low = self.decode_u16()? as u32;
        Ok(high << 16 | low)"""),
("d_i64_match",F,"""            prefix
                if prefix as i8 >= MSGPACK_NEGFIXINT_MIN
                    && prefix as i8 <= MSGPACK_NEGFIXINT_MAX =>
            {
                Ok(prefix as i8 as i64)
            }""","""            prefix @ 0xe0..=0xff => Ok(i64::from(prefix) - 256),"""),
("d_i64_peek",F,"""                self.offset = start;
                let n = self.decode_u64()?;
                i64::try_from(n).map_err(|_| DecodeError::IntegerOverflow)""","""                self.offset = start;
                let n = self.decode_u64()?;
                if n > i64::MAX as u64 {
                    return Err(DecodeError::IntegerOverflow);
                }
                Ok(n as i64)"""),
("d_u32_try",F,"""                    if n > u32::MAX as u64 {
                        return Err(DecodeError::IntegerOverflow);
                    }
                    wip.put(n as u32).unwrap()""","""                    let n: u32 = n.try_into().map_err(|_| DecodeError::IntegerOverflow)?;
                    wip.put(n).unwrap()"""),
("d_i8_if",F,"let n = i8::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;","if !(i64::from(i8::MIN)..=i64::from(i8::MAX)).contains(&n) {\n                        return Err(DecodeError::IntegerOverflow);\n                    }\n                    let n = n as i8;"),
("d_string_slice",F,"""        let value = String::from_utf8(self.input[self.offset..self.offset + len].to_vec())
            .map_err(|_| DecodeError::InvalidData)?;
        self.offset += len;
        Ok(value)""","""        let end = self.offset + len;
        let bytes = &self.input[self.offset..end];
        self.offset = end;
        match core::str::from_utf8(bytes) {
            Ok(s) => Ok(s.to_owned()),
            Err(_) => Err(DecodeError::InvalidData),
        }"""),
("d_string_checked",F,"""        if self.offset + len > self.input.len() {
            return Err(DecodeError::InsufficientData);
        }

        let value = String""","""        if self.input.len() - self.offset < len {
            return Err(DecodeError::InsufficientData);
        }

        let value = String"""),
("d_while",F,"                let mut wip = wip;\n                for _ in 0..map_len {","                let mut wip = wip;\n                let mut left = map_len;\n                while left > 0 {\n                    left -= 1;"),
("d_iflet",F,"""                    match wip.field_index(&key) {
                        Some(index) => {
                            wip = self
                                .deserialize_value(wip.field(index).unwrap())?
                                .pop()
                                .unwrap();
                        }
                        None => {
                            // Skip unknown field value
                            self.skip_value()?;
                            trace!("Skipping unknown field: {}", key);
                        }
                    }""","""                    let Some(index) = wip.field_index(&key) else {
                        self.skip_value()?;
                        continue;
                    };
                    let inner = wip.field(index).unwrap();
                    let inner = self.deserialize_value(inner)?;
                    wip = inner.pop().unwrap();"""),
("d_skip_map_double",F,"""            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
                let len = (prefix & 0x0f) as usize;
                for _ in 0..len {
                    self.skip_value()?; // Skip key
                    self.skip_value()?; // Skip value
                }
                Ok(())
            }""","""            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
                let mut todo = 2 * (prefix & 0x0f) as usize;
                while todo != 0 {
                    self.skip_value()?;
                    todo -= 1;
                }
                Ok(())
            }"""),
("d_skip_strs",F,"""            MSGPACK_STR8 => {
                let len = self.decode_u8()? as usize;
                if self.offset + len > self.input.len() {
                    return Err(DecodeError::InsufficientData);
                }
                self.offset += len;
                Ok(())
            }
            MSGPACK_STR16""","""            MSGPACK_STR8 => {
                let len = usize::from(self.decode_u8()?);
                self.skip_bytes(len)
            }
            MSGPACK_STR16"""),
("d_skip_sub",F,"""        if len > self.input.len() - self.offset {
            return Err(DecodeError::InsufficientData);
        }
        self.offset += len;
        Ok(())""","""        let end = self.offset.checked_add(len).ok_or(DecodeError::InsufficientData)?;
        if end > self.input.len() {
            return Err(DecodeError::InsufficientData);
        }
        self.offset = end;
        Ok(())"""),
("d_struct_helper",F,"""            Def::Struct(_) => {
                trace!("Deserializing struct");
                let map_len = self.decode_map_len()?;

                let mut wip = wip;
                for _ in 0..map_len {
                    let key = self.decode_string()?;
                    match wip.field_index(&key) {
                        Some(index) => {
                            wip = self
                                .deserialize_value(wip.field(index).unwrap())?
                                .pop()
                                .unwrap();
                        }
                        None => {
                            // Skip unknown field value
                            self.skip_value()?;
                            trace!("Skipping unknown field: {}", key);
                        }
                    }
                }
                wip
            }
            _ => {
                return Err(DecodeError::UnsupportedShape(format!("{:?}", shape)));
            }
        };

        Ok(wip)
    }""","""            Def::Struct(_) => self.deserialize_struct(wip)?,
            _ => {
                return Err(DecodeError::UnsupportedShape(format!("{:?}", shape)));
            }
        };

        Ok(wip)
    }

    fn deserialize_struct(&mut self, mut wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
        let map_len = self.decode_map_len()?;
        for _ in 0..map_len {
            let key = self.decode_string()?;
            match wip.field_index(&key) {
                Some(index) => {
                    let inner = wip.field(index).unwrap();
                    wip = self.deserialize_value(inner)?.pop().unwrap();
                }
                None => self.skip_value()?,
            }
        }
        Ok(wip)
    }"""),
]
