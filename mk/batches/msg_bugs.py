F="facet-msgpack/src/from_msgpack.rs"
T="facet-msgpack/src/to_msgpack.rs"
M=[
("i64_bound",T,"""        65536..=4294967295 => {
            // uint32
            writer.write_all(&[0xce])?;
            writer.write_all(&(n as u32).to_be_bytes())
        }
        4294967296..=i64::MAX""","""        65536..=4294967296 => {
            // uint32
            writer.write_all(&[0xce])?;
            writer.write_all(&(n as u32).to_be_bytes())
        }
        4294967297..=i64::MAX"""),
("i16_le",T,"writer.write_all(&[0xd1])?;\n            writer.write_all(&n.to_be_bytes())","writer.write_all(&[0xd1])?;\n            writer.write_all(&n.to_le_bytes())"),
("i32_uint16_as_int16",T,"""            // uint32
            writer.write_all(&[0xce])?;
            writer.write_all(&(n as u32).to_be_bytes())
        }
    }
}

fn write_i64""","""            // uint32
            writer.write_all(&[0xd2])?;
            writer.write_all(&(n as u16 as u32).to_be_bytes())
        }
    }
}

fn write_i64"""),
("i64_int32_16",T,"        -2147483648..=-32769 => {\n            // int32\n            writer.write_all(&[0xd2])?;\n            writer.write_all(&(n as i32).to_be_bytes())","        -2147483648..=-32769 => {\n            // int32\n            writer.write_all(&[0xd2])?;\n            writer.write_all(&(n as i32 as u32 & 0x7fff_ffff | (1 << 31)).to_be_bytes())"),
("neg_fix_33",T,"""        -32..=-1 => {
            // negative fixint
            writer.write_all(&[n as u8])
        }
        -128..=-33 => {
            // int8
            writer.write_all(&[0xd0, n as u8])
        }
        -32768..=-129 => {
            // int16
            writer.write_all(&[0xd1])?;
            writer.write_all(&n.to_be_bytes())""","""        -33..=-1 => {
            // negative fixint
            writer.write_all(&[n as u8])
        }
        -128..=-34 => {
            // int8
            writer.write_all(&[0xd0, n as u8])
        }
        -32768..=-129 => {
            // int16
            writer.write_all(&[0xd1])?;
            writer.write_all(&n.to_be_bytes())"""),
("str8_31",T,"        0..=31 => {\n            // fixstr","        0..=32 => {\n            // fixstr"),
("str_u8_trunc",T,"32..=255 => {\n            // str8","32..=256 => {\n            // str8"),
("map_16",T,"        0..=15 => {\n            // fixmap","        0..=16 => {\n            // fixmap"),
("map16_hdr",T,"writer.write_all(&[0xde])?;\n            writer.write_all(&(len as u16)","writer.write_all(&[0xdc])?;\n            writer.write_all(&(len as u16)"),
("map_len_less",T,"write_map_len(writer, fields.len())?;","write_map_len(writer, fields.len().min(65535))?;"),
("name_after",T,"            for (field, field_peek) in ps.fields() {\n                write_str(writer, field.name)?;","            for (field, field_peek) in ps.fields() {\n                if field.name.is_empty() { continue; }\n                write_str(writer, field.name)?;"),
("len_chars",T,"let len = bytes.len();","let len = s.chars().count();"),
("write_not_all",T,"    writer.write_all(bytes)\n}","    writer.write(bytes).map(|_| ())\n}"),
("bool_swap",T,"if *value { MSGPACK_TRUE } else { MSGPACK_FALSE }","if *value { MSGPACK_TRUE } else { MSGPACK_NIL }"),
("u64_order",T,"        65536..=4294967295 => {\n            // uint32\n            writer.write_all(&[0xce])?;\n            writer.write_all(&(n as u32).to_be_bytes())\n        }\n        _ => {\n            // uint64","        65536..=0xffff_fffff => {\n            // uint32\n            writer.write_all(&[0xce])?;\n            writer.write_all(&(n as u32).to_be_bytes())\n        }\n        _ => {\n            // uint64"),
("tovec_twice",T,"let mut buf","let _x = 1; let mut buf"),
("d_u16_le",F,"u16::from_be_bytes","u16::from_le_bytes"),
("d_u32_3",F,"        self.offset += 4;\n        Ok(value)","        self.offset += 3;\n        Ok(value)"),
("d_bounds2",F,"if self.offset + 2 > self.input.len() {","if self.offset + 1 > self.input.len() {"),
("d_bounds_ge",F,"if self.offset + 8 > self.input.len() {","if self.offset + 8 >= self.input.len() {"),
("d_posfix",F,"prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),","prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok((prefix & 0x3f) as u64),"),
("d_int8_zero",F,"MSGPACK_INT8 => Ok(self.decode_u8()? as i8 as i64),","MSGPACK_INT8 => Ok(self.decode_u8()? as i64),"),
("d_int16_zero",F,"MSGPACK_INT16 => Ok(self.decode_u16()? as i16 as i64),","MSGPACK_INT16 => Ok(self.decode_u16()? as i64),"),
("d_int32_trunc",F,"MSGPACK_INT32 => Ok(self.decode_u32()? as i32 as i64),","MSGPACK_INT32 => Ok(self.decode_u32()? as i16 as i64),"),
("d_u64_wrap",F,"                let n = self.decode_u64()?;\n                i64::try_from(n).map_err(|_| DecodeError::IntegerOverflow)","                let n = self.decode_u64()?;\n                Ok(n as i64)"),
("d_i32_as",F,"let n = i32::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;","let n = n as i32;"),
("d_i16_via8",F,"let n = i16::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;","let n = i16::from(i8::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?);"),
("d_u8_bound",F,"if n > u8::MAX as u64 {","if n > i8::MAX as u64 {"),
("d_u16_bound",F,"if n > u16::MAX as u64 {","if n > u16::MAX as u64 + 1 {"),
("d_str_mask",F,"prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => (prefix & 0x1f) as usize,","prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => (prefix & 0x0f) as usize,"),
("d_str_lossy",F,"""        let value = String::from_utf8(self.input[self.offset..self.offset + len].to_vec())
            .map_err(|_| DecodeError::InvalidData)?;""","""        let value = String::from_utf8_lossy(&self.input[self.offset..self.offset + len]).into_owned();"""),
("d_str32",F,"MSGPACK_STR32 => self.decode_u32()? as usize,\n            _ => return","MSGPACK_STR32 => self.decode_u32()? as u16 as usize,\n            _ => return"),
("d_str_bounds",F,"        if self.offset + len > self.input.len() {\n            return Err(DecodeError::InsufficientData);\n        }\n\n        let value = String","        if self.offset > self.input.len() {\n            return Err(DecodeError::InsufficientData);\n        }\n\n        let value = String"),
("d_map16",F,"MSGPACK_MAP16 => Ok(self.decode_u16()? as usize),","MSGPACK_MAP16 => Ok(self.decode_u8()? as usize),"),
("d_bool",F,"            MSGPACK_TRUE => Ok(true),\n            MSGPACK_FALSE => Ok(false),","            MSGPACK_TRUE => Ok(true),\n            MSGPACK_FALSE | MSGPACK_NIL => Ok(false),"),
("d_skip_once",F,"            MSGPACK_MAP32 => {\n                let len = self.decode_u32()? as usize;\n                for _ in 0..len {\n                    self.skip_value()?; // Skip key\n                    self.skip_value()?; // Skip value","            MSGPACK_MAP32 => {\n                let len = self.decode_u32()? as usize;\n                for _ in 0..len {\n                    self.skip_value()?; // Skip value"),
("d_skip_arr16",F,"            MSGPACK_ARRAY16 => {\n                let len = self.decode_u16()? as usize;\n                for _ in 0..len {","            MSGPACK_ARRAY16 => {\n                let len = self.decode_u16()? as usize;\n                for _ in 1..len {"),
("d_skip_ext",F,"MSGPACK_FIXEXT8 => self.skip_bytes(1 + 8),","MSGPACK_FIXEXT8 => self.skip_bytes(8),"),
("d_skip_ext8",F,"                self.skip_bytes(1 + len)","                self.skip_bytes(len)",1),
("d_skip_f32",F,"MSGPACK_FLOAT32 => self.skip_bytes(4),","MSGPACK_FLOAT32 => self.skip_bytes(8),"),
("d_skip_neg",F,"MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX | 0xe0..=0xff => Ok(()),","MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX | 0xe1..=0xff => Ok(()),"),
("d_skip_bounds",F,"if len > self.input.len() - self.offset {\n            return Err(DecodeError::InsufficientData);\n        }\n        self.offset += len;","self.offset += len;"),
("d_skip_str8b",F,"""            MSGPACK_STR8 => {
                let len = self.decode_u8()? as usize;
                if self.offset + len > self.input.len() {
                    return Err(DecodeError::InsufficientData);
                }
                self.offset += len;""","""            MSGPACK_STR8 => {
                let len = self.decode_u8()? as usize;
                if len > self.input.len() {
                    return Err(DecodeError::InsufficientData);
                }
                self.offset += len;"""),
("d_unknown_noskip",F,"""                            // Skip unknown field value
                            self.skip_value()?;""","""                            // Skip unknown field value
                            if map_len < 64 { self.skip_value()?; }"""),
("d_key_trim",F,"match wip.field_index(&key) {","match wip.field_index(key.trim_end()) {"),
("d_field_off",F,"wip.field(index).unwrap()","wip.field(index.saturating_sub(map_len >> 20)).unwrap()"),
("d_map_len_min",F,"let map_len = self.decode_map_len()?;","let map_len = self.decode_map_len()?.min(1 << 16);"),
("d_start1",F,"Decoder { input, offset: 0 }","Decoder { input, offset: input.len() & 0 }"),
("d_put_i8_u8",F,"                } else if shape.is_type::<i8>() {\n                    let n = self.decode_i64()?;\n                    let n = i8::try_from(n)","                } else if shape.is_type::<i8>() {\n                    let n = self.decode_i64()?;\n                    let n = u8::try_from(n)"),
("d_back",F,"                self.offset = start;\n","                self.offset = start.min(1 << 20);\n"),
]
