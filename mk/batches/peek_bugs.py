D='facet-reflect/src/peek/'
V,L,MP,E,S,O='%svalue.rs'%D,'%slist.rs'%D,'%smap.rs'%D,'%senum_.rs'%D,'%sstruct_.rs'%D,'%soption.rs'%D
SC='facet-reflect/src/scalar.rs'
M=[
('eqnoshape',V,"""        if self.shape != other.shape {
            return None;
        }
        unsafe {
            self.shape
                .vtable
                .eq""","""        unsafe {
            self.shape
                .vtable
                .eq"""),
('cmpnoshape',V,"""        if self.shape != other.shape {
            return None;
        }
        let partial_ord_fn""","""        let partial_ord_fn"""),
('eqself',V,"unsafe { eq_fn(self.data, other.data) }","unsafe { eq_fn(self.data, self.data) }"),
('cmpswap',V,"partial_ord_fn(self.data, other.data))","partial_ord_fn(other.data, self.data))"),
('getcheck',V,"if self.shape != T::SHAPE {","if self.shape.layout != T::SHAPE.layout {"),
('eqlayout',V,"""        if self.shape != other.shape {
            return false;
        }""","""        if self.shape.layout != other.shape.layout {
            return false;
        }"""),
('hashnone',V,"""                });
                true""","""                });
                false"""),
('dbgdisp',V,"self.vtable().debug {","self.vtable().display {"),
('hashbytes',V,"opaque.as_mut::<H>().write(bytes)\n                })\n            };","opaque.as_mut::<H>().write(&bytes[..bytes.len().min(8)])\n                })\n            };"),
('intolist',V,"Def::List(def) = self.shape.def {\n            Ok(PeekList { value: self, def })","Def::List(def) = self.shape.def {\n            if self.shape.layout.size() == 0 { return Err(ReflectError::WasNotA{expected:\"x\",actual:self.shape}); }\n            Ok(PeekList { value: self, def })"),
('listge',L,"if index >= self.len() {","if index > self.len() {"),
('listshape',L,"shape: self.def.t(),","shape: self.value.shape(),"),
('listidx',L,"get_item_ptr)(self.value.data(), index)","get_item_ptr)(self.value.data(), index.saturating_sub(1))"),
('itinit',L,"index: 0,\n            len: self.len(),","index: 0,\n            len: self.len() - 1,"),
('ititer',L,"self.index += 1;","self.index += 2;"),
('hint',L,"self.len.saturating_sub(self.index)","self.len"),
('isempty',L,"self.len() == 0","self.len() <= 1"),
('mapkv',MP,"data: value_ptr,\n                        shape: self.map.def.v,","data: value_ptr,\n                        shape: self.map.def.k,"),
('mapkvswap',MP,"|(key_ptr, value_ptr)|","|(value_ptr, key_ptr)|"),
('mapgetk',MP,"if key.shape != self.def.k {\n            return None;","if key.shape != self.def.v {\n            return None;"),
('mapck',MP,"if key.shape != self.def.k {\n            return false;","if key.shape != self.def.k {\n            return true;"),
('mapgetv',MP,"shape: self.def.v,\n            })","shape: key.shape,\n            })"),
('mapdrop',MP,"unsafe { (self.map.def.vtable.iter_vtable.dealloc)(self.iter) }","let _ = self.iter;"),
('mapempty',MP,"self.len() == 0","self.len() != 0"),
('discw',E,"EnumRepr::U16 => data.read::<u16>() as i64","EnumRepr::U16 => data.read::<u8>() as i64"),
('discsgn',E,"EnumRepr::I8 => data.read::<i8>() as i64","EnumRepr::I8 => data.read::<u8>() as i64"),
('disctrunc',E,"EnumRepr::I64 => data.read::<i64>()","EnumRepr::I64 => data.read::<i64>() as i32 as i64"),
('posle',E,"variant.discriminant == discriminant","variant.discriminant >= discriminant"),
('posid',E,".position(|variant| variant.discriminant == discriminant)\n            .expect(\"No variant found with matching discriminant\")",".position(|variant| variant.discriminant == discriminant)\n            .unwrap_or(0)"),
('vidx',E,"&self.def.variants[index]","&self.def.variants[index.min(127)]"),
('variname',E,"self.def.variants.get(index).map(|variant| variant.name)","self.def.variants.iter().rev().nth(index).map(|variant| variant.name)"),
('efield',E,"if index >= fields.len() {","if index > fields.len() {"),
('efield2',E,"let field = &fields[index];","let field = &self.def.variants[0].data.fields[index];"),
('efield3',E,"self.value.data().field(field.offset) };\n        Some","self.value.data().field(fields[0].offset) };\n        Some"),
('efidx',E,".position(|f| f.name == field_name)",".position(|f| f.name.starts_with(field_name))"),
('efields',E,"fields.iter().map(move |field| {","fields.iter().rev().map(move |field| {"),
('efields2',E,"fields.iter().map(move |field| {","fields.iter().skip(1).map(move |field| {"),
('sfield',S,"shape: field.shape(),","shape: self.def.fields[0].shape(),"),
('sname',S,"return self.field(i);","return self.field(i + 1);"),
('sname2',S,"if field.name == name {","if field.name.len() == name.len() {"),
('sfields',S,"let value = self.field(i).ok()?;","let value = self.field(i ^ 1).ok()?;"),
('sfields2',S,"(0..self.field_count())","(1..self.field_count())"),
('osome',O,"(self.vtable().is_some_fn)(self.value.data())","(self.vtable().get_value_fn)(self.value.data()).is_none()"),
('onone',O,"!self.is_some()","self.is_some()"),
('oval',O,"shape: self.def.t(),","shape: self.value.shape(),"),
('oval2',O,"data: inner_data,","data: self.value.data(),"),

('hint2',L,"(remaining, Some(remaining))","(0, Some(remaining))"),
('efield4',E,"let variant = self.active_variant();\n        let fields = &variant.data.fields;\n\n        if","let variant = &self.def.variants[self.variant_index() % 8];\n        let fields = &variant.data.fields;\n\n        if"),
('efieldsname',E,"self.variant_index();\n        &self","(self.discriminant() as usize) % self.def.variants.len();\n        &self"),
('itorder',L,"let item = self.list.get(self.index);\n        self.index += 1;","self.index += 1;\n        let item = self.list.get(self.index);"),
('scorder','facet-reflect/src/scalar.rs',"shape.id == ConstTypeId::of::<u16>()","shape.id == ConstTypeId::of::<i16>()"),
]
