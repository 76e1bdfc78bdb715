F = "facet-json/src/serialize.rs"
M = [
 ("r_bytes_writes", F, '''    write!(writer, "[")?;

    let mut first = true;
    for item_peek in list_peek.iter() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;

        serialize(&item_peek, writer)?;
    }

    write!(writer, "]")?;

    Ok(())''', '''    writer.write_all(b"[")?;
    for (i, item_peek) in list_peek.iter().enumerate() {
        if i > 0 {
            writer.write_all(b",")?;
        }
        serialize(&item_peek, writer)?;
    }
    writer.write_all(b"]")'''),
 ("r_field_name_loop", F, '''    field
        .attributes
        .iter()
        .find_map(|attr| {
            if let FieldAttribute::Rename(name) = attr {
                Some(*name)
            } else {
                None
            }
        })
        .unwrap_or(field.name)''', '''    for attr in field.attributes {
        if let FieldAttribute::Rename(name) = attr {
            return name;
        }
    }
    field.name'''),
 ("r_field_name_find", F, '''        .find_map(|attr| {
            if let FieldAttribute::Rename(name) = attr {
                Some(*name)
            } else {
                None
            }
        })
        .unwrap_or(field.name)''', '''        .find_map(|attr| match attr {
            FieldAttribute::Rename(name) => Some(*name),
            _ => None,
        })
        .unwrap_or_else(|| field.name)'''),
 ("r_sep_helper", [(F, '''/// Serializes a list to JSON
''', '''/// Writes the comma before all but the first
fn separate<W: Write>(writer: &mut W, first: &mut bool) -> io::Result<()> {
    if *first {
        *first = false;
        Ok(())
    } else {
        write!(writer, ",")
    }
}

/// Serializes a list to JSON
'''), (F, '''    for item_peek in list_peek.iter() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;
''', '''    for item_peek in list_peek.iter() {
        separate(writer, &mut first)?;
'''), (F, '''    for (key, value) in map_peek.iter() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;
''', '''    for (key, value) in map_peek.iter() {
        separate(writer, &mut first)?;
''')]),
 ("r_sep_str", F, '''    let mut first = true;
    for item_peek in list_peek.iter() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;
''', '''    let mut sep = "";
    for item_peek in list_peek.iter() {
        write!(writer, "{}", sep)?;
        sep = ",";
'''),
 ("r_enum_match", F, '''        if !is_struct && variant.data.fields.len() == 1 {
            let field = enum_peek.field(0).ok_or_else(|| {
                io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
            })?;
            serialize(&field, writer)?;
        } else {''', '''        let single = !is_struct && variant.data.fields.len() == 1;
        if single {
            match enum_peek.field(0) {
                Some(field) => serialize(&field, writer)?,
                None => {
                    return Err(io::Error::new(
                        io::ErrorKind::Other,
                        "Failed to access enum field",
                    ));
                }
            }
        } else {'''),
 ("r_enum_zip", F, '''                for i in 0..variant.data.fields.len() {
                    let field = enum_peek.field(i).ok_or_else(|| {
                        io::Error::new(
                            io::ErrorKind::Other,
                            format!("Failed to access enum field {}", i),
                        )
                    })?;
                    let field_name = field_name(&variant.data.fields[i]);
''', '''                for (i, f) in variant.data.fields.iter().enumerate() {
                    let field = enum_peek.field(i).ok_or_else(|| {
                        io::Error::new(
                            io::ErrorKind::Other,
                            format!("Failed to access enum field {}", i),
                        )
                    })?;
                    let field_name = field_name(f);
'''),
 ("r_enum_fields", F, '''                for i in 0..variant.data.fields.len() {
                    let field = enum_peek.field(i).ok_or_else(|| {
                        io::Error::new(
                            io::ErrorKind::Other,
                            format!("Failed to access enum field {}", i),
                        )
                    })?;
                    let field_name = field_name(&variant.data.fields[i]);
''', '''                for (f, field) in enum_peek.fields() {
                    let field_name = field_name(f);
'''),
 ("r_match_option", F, '''    if option_peek.is_none() {
        write!(writer, "null")
    } else {
        let value = option_peek
            .value()
            .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "Failed to get option value"))?;
        serialize(&value, writer)
    }''', '''    match option_peek.value() {
        None => write!(writer, "null"),
        Some(value) => serialize(&value, writer),
    }'''),
 ("r_str_bytes", F, '''    write!(writer, "\\"")?;

    for c in s.chars() {''', '''    writer.write_all(&[b'"'])?;

    for c in s.chars() {'''),
 ("r_str_string", F, '''    write!(writer, "\\"")?;

    for c in s.chars() {
        match c {
            '"' => write!(writer, "\\\\\\"")?,
            '\\\\' => write!(writer, "\\\\\\\\")?,
            '\\n' => write!(writer, "\\\\n")?,
            '\\r' => write!(writer, "\\\\r")?,
            '\\t' => write!(writer, "\\\\t")?,
            '\\u{08}' => write!(writer, "\\\\b")?,
            '\\u{0C}' => write!(writer, "\\\\f")?,
            c if c.is_control() => write!(writer, "\\\\u{:04x}", c as u32)?,
            c => write!(writer, "{}", c)?,
        }
    }

    write!(writer, "\\"")''', '''    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\\\\""),
            '\\\\' => out.push_str("\\\\\\\\"),
            '\\n' => out.push_str("\\\\n"),
            '\\r' => out.push_str("\\\\r"),
            '\\t' => out.push_str("\\\\t"),
            '\\u{08}' => out.push_str("\\\\b"),
            '\\u{0C}' => out.push_str("\\\\f"),
            c if c.is_control() => out.push_str(&format!("\\\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    writer.write_all(out.as_bytes())'''),
 ("r_str_fn", [(F, '''            c if c.is_control() => write!(writer, "\\\\u{:04x}", c as u32)?,
            c => write!(writer, "{}", c)?,
        }
    }
''', '''            c => write_char(writer, c)?,
        }
    }
'''), (F, '''/// Properly escapes and writes''', '''fn write_char<W: Write>(writer: &mut W, c: char) -> io::Result<()> {
    if c.is_control() {
        return write!(writer, "\\\\u{:04x}", c as u32);
    }
    let mut buf = [0; 4];
    writer.write_all(c.encode_utf8(&mut buf).as_bytes())
}

/// Properly escapes and writes''')]),
 ("r_scalar_macro_get", F, '''        let value = peek.get::<u8>().unwrap();
        write!(writer, "{}", value)''', '''        let value: &u8 = peek.get().unwrap();
        writer.write_all(value.to_string().as_bytes())'''),
 ("r_bool", F, '''write!(writer, "{}", if *value { "true" } else { "false" })''', '''writer.write_all(if *value { b"true" } else { b"false" })'''),
 ("r_bool2", F, '''write!(writer, "{}", if *value { "true" } else { "false" })''', '''write!(writer, "{value}")'''),
 ("r_map_key", F, '''        match key.shape().def {
            Def::Scalar(_) => {
                // Try to convert key to string
                if key.shape().is_type::<String>() {
                    let key_str = key.get::<String>().unwrap();
                    write_json_string(writer, key_str)?;
                } else {
                    // For other scalar types, use their Display implementation
                    write_json_string(writer, &key.to_string())?;
                }
            }
            _ => {
                return Err(''', '''        match key.shape().def {
            Def::Scalar(_) => {
                let text = match key.get::<String>() {
                    Ok(s) => s.clone(),
                    Err(_) => format!("{}", key),
                };
                write_json_string(writer, &text)?;
            }
            _ => {
                return Err('''),
 ("r_map_while", F, '''    let mut first = true;
    for (key, value) in map_peek.iter() {
        if !first {''', '''    let mut first = true;
    let mut entries = map_peek.iter();
    while let Some((key, value)) = entries.next() {
        if !first {'''),
 ("r_struct_idx", F, '''    for (field, field_peek) in struct_peek.fields() {
        if !first {
            write!(writer, ",")?;
        }
        first = false;
''', '''    for (field, field_peek) in struct_peek.fields() {
        if first {
            first = false;
        } else {
            write!(writer, ",")?;
        }
'''),
 ("r_to_string", F, '''    let peek = Peek::new(value);
    let mut output = Vec::new();
    serialize(&peek, &mut output).unwrap();
    String::from_utf8(output).unwrap()''', '''    peek_to_string(&Peek::new(value))'''),
 ("r_to_writer", F, '''    let peek = Peek::new(value);
    serialize(&peek, writer)''', '''    peek_to_writer(&Peek::new(value), writer)'''),
 ("r_dispatch", F, '''    match peek.shape().def {
        Def::Scalar(_) => serialize_scalar(peek, writer),
        Def::Struct(_) => serialize_struct(peek, writer),''', '''    let shape = peek.shape();
    if let Def::Scalar(_) = shape.def {
        return serialize_scalar(peek, writer);
    }
    match shape.def {
        Def::Struct(_) => serialize_struct(peek, writer),'''),
 ("r_nonfinite", F, '''        let value = peek.get::<f64>().unwrap();
        if value.is_finite() {
            write!(writer, "{}", value)
        } else {''', '''        let value = peek.get::<f64>().unwrap();
        if !value.is_nan() && !value.is_infinite() {
            write!(writer, "{}", value)
        } else {'''),
]
