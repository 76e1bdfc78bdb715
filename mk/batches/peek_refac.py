D='facet-reflect/src/peek/'
V,L,MP,E,S,O='%svalue.rs'%D,'%slist.rs'%D,'%smap.rs'%D,'%senum_.rs'%D,'%sstruct_.rs'%D,'%soption.rs'%D
SC='facet-reflect/src/scalar.rs'
M=[
('eqmatch',V,"""        let eq_fn = match self.shape.vtable.eq {
            Some(eq_fn) => eq_fn,
            None => return false,
        };
        unsafe { eq_fn(self.data, other.data) }""","""        match self.vtable().eq {
            Some(f) => unsafe { f(self.data, other.data) },
            None => false,
        }"""),
('eqorder',V,"""        if self.shape != other.shape {
            return false;
        }
        let eq_fn = match self.shape.vtable.eq {
            Some(eq_fn) => eq_fn,
            None => return false,
        };
        unsafe { eq_fn(self.data, other.data) }""","""        let same = self.shape == other.shape;
        let Some(eq_fn) = self.shape.vtable.eq else { return false };
        same && unsafe { eq_fn(self.data, other.data) }"""),
('eqinherent',V,"""        if self.shape != other.shape {
            return false;
        }
        let eq_fn = match self.shape.vtable.eq {
            Some(eq_fn) => eq_fn,
            None => return false,
        };
        unsafe { eq_fn(self.data, other.data) }""","""        Peek::eq(self, other).unwrap_or(false)"""),
('eqid',V,"""        if self.shape != other.shape {
            return false;
        }""","""        if self.shape.id != other.shape.id {
            return false;
        }"""),
('eqnot',V,"""        if self.shape != other.shape {
            return false;
        }""","""        if !(self.shape == other.shape) {
            return false;
        }"""),
('gethelper',V,"""        if self.shape != T::SHAPE {
            Err(ReflectError::WrongShape {
                expected: self.shape,
                actual: T::SHAPE,
            })
        } else {
            Ok(unsafe { self.data.get::<T>() })
        }""","""        if self.shape == T::SHAPE {
            return Ok(unsafe { self.data.get::<T>() });
        }
        Err(ReflectError::WrongShape {
            expected: self.shape,
            actual: T::SHAPE,
        })"""),
('istype',V,"if self.shape != T::SHAPE {","if !self.shape.is_type::<T>() {"),
('intomatch',V,"""        if let Def::List(def) = self.shape.def {
            Ok(PeekList { value: self, def })
        } else {
            Err(ReflectError::WasNotA {
                expected: "list",
                actual: self.shape,
            })
        }""","""        match self.shape.def {
            Def::List(def) => Ok(unsafe { PeekList::new(self, def) }),
            _ => Err(ReflectError::WasNotA {
                expected: "list",
                actual: self.shape,
            }),
        }"""),
('hashlet',V,"""            if let Some(hash_fn) = self.shape.vtable.hash {
                let hasher_opaque = PtrMut::new(hasher);
                hash_fn(self.data, hasher_opaque, |opaque, bytes| {
                    opaque.as_mut::<H>().write(bytes)
                });
                true
            } else {
                false
            }""","""            let Some(hash_fn) = self.vtable().hash else {
                return false;
            };
            let erased = PtrMut::new(hasher);
            hash_fn(self.data(), erased, |opaque, bytes| opaque.as_mut::<H>().write(bytes));
            true"""),
('listlt',L,"""        if index >= self.len() {
            return None;
        }

        let item_ptr = unsafe { (self.def.vtable.get_item_ptr)(self.value.data(), index) };
        Some(Peek {
            data: item_ptr,
            shape: self.def.t(),
        })""","""        let len = self.len();
        (index < len).then(|| Peek {
            data: unsafe { (self.def.vtable.get_item_ptr)(self.value.data(), index) },
            shape: self.def.t(),
        })"""),
('listunchecked',L,"let item_ptr = unsafe { (self.def.vtable.get_item_ptr)(self.value.data(), index) };\n        Some(Peek {\n            data: item_ptr,\n            shape: self.def.t(),\n        })","let vt = self.def.vtable;\n        let item_ptr = unsafe { (vt.get_item_ptr)(self.value.data, index) };\n        Some(unsafe { Peek::unchecked_new(item_ptr, self.def.t()) })"),
('iternext',L,"""        if self.index >= self.len {
            return None;
        }
        let item = self.list.get(self.index);
        self.index += 1;
        item""","""        if self.index < self.len {
            let i = self.index;
            self.index = i + 1;
            self.list.get(i)
        } else {
            None
        }"""),
('iterhint',L,"let remaining = self.len.saturating_sub(self.index);\n        (remaining, Some(remaining))","let n = self.len - self.index;\n        (n, Some(n))"),
('listempty',L,"self.len() == 0","self.len() < 1"),
('mapiter',MP,"""            let next = (self.map.def.vtable.iter_vtable.next)(self.iter);
            next.map(|(key_ptr, value_ptr)| {
                (
                    Peek {
                        data: key_ptr,
                        shape: self.map.def.k,
                    },
                    Peek {
                        data: value_ptr,
                        shape: self.map.def.v,
                    },
                )
            })""","""            let def = &self.map.def;
            let (k, v) = (def.vtable.iter_vtable.next)(self.iter)?;
            let key = Peek { data: k, shape: def.k };
            let value = Peek { data: v, shape: def.v };
            Some((key, value))"""),
('mapget',MP,"""        let key = Peek::new(key);
        if key.shape != self.def.k {
            return None;
        }
        unsafe {
            let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key.data)?;
            Some(Peek {
                data: value_ptr,
                shape: self.def.v,
            })
        }""","""        let key = Peek::new(key);
        if key.shape() != self.def.k {
            return None;
        }
        let found = unsafe { (self.def.vtable.get_value_ptr_fn)(self.value.data(), key.data()) };
        match found {
            Some(p) => Some(Peek { data: p, shape: self.def.v }),
            None => None,
        }"""),
('mapck',MP,"""        if key.shape != self.def.k {
            return false;
        }
        unsafe {""","""        key.shape == self.def.k && unsafe {"""),
('discfn',E,"""        unsafe {
            let data = self.value.data();
            match self.def.repr {""","""        let repr = self.repr();
        unsafe {
            let data = self.data();
            match repr {"""),
('discget',E,"EnumRepr::U16 => data.read::<u16>() as i64","EnumRepr::U16 => i64::from(*data.get::<u16>())"),
('posfor',E,"""        self.def
            .variants
            .iter()
            .position(|variant| variant.discriminant == discriminant)
            .expect("No variant found with matching discriminant")""","""        for (i, variant) in self.def.variants.iter().enumerate() {
            if variant.discriminant == discriminant {
                return i;
            }
        }
        panic!("No variant found with matching discriminant")"""),
('active',E,"""        let index = self.variant_index();
        &self.def.variants[index]""","""        let discriminant = self.discriminant();
        self.def.variants.iter().find(|v| v.discriminant == discriminant).expect("no variant")"""),
('efget',E,"""        if index >= fields.len() {
            return None;
        }

        let field = &fields[index];""","""        let field = fields.get(index)?;"""),
('efby',E,"""        let index = self.field_index(field_name)?;
        self.field(index)""","""        self.field_index(field_name).and_then(|i| self.field(i))"""),
('effields',E,"""        fields.iter().map(move |field| {
            let field_data = unsafe { self.value.data().field(field.offset) };
            let peek = crate::Peek {
                data: field_data,
                shape: field.shape(),
            };
            (field, peek)
        })""","""        (0..fields.len()).map(move |i| (&fields[i], self.field(i).unwrap()))"""),
('sfor',S,"""        for (i, field) in self.def.fields.iter().enumerate() {
            if field.name == name {
                return self.field(i);
            }
        }
        Err(FieldError::NoSuchField)""","""        match self.def.fields.iter().position(|f| f.name == name) {
            Some(i) => self.field(i),
            None => Err(FieldError::NoSuchField),
        }"""),
('sfor2',S,"""        for (i, field) in self.def.fields.iter().enumerate() {
            if field.name == name {
                return self.field(i);
            }
        }
        Err(FieldError::NoSuchField)""","""        let field = self.def.fields.iter().find(|f| f.name == name).ok_or(FieldError::NoSuchField)?;
        Ok(Peek {
            data: unsafe { self.value.data().field(field.offset) },
            shape: field.shape(),
        })"""),
('sfield',S,"""        self.def
            .fields
            .get(index)
            .map(|field| unsafe {
                let field_data = self.value.data().field(field.offset);
                Peek {
                    data: field_data,
                    shape: field.shape(),
                }
            })
            .ok_or(FieldError::IndexOutOfBounds)""","""        if index >= self.def.fields.len() {
            return Err(FieldError::IndexOutOfBounds);
        }
        let field = &self.def.fields[index];
        let data = unsafe { self.value.data().field(field.offset) };
        Ok(Peek { data, shape: field.shape() })"""),
('sfields',S,"""        (0..self.field_count()).filter_map(|i| {
            let field = self.def.fields.get(i)?;
            let value = self.field(i).ok()?;
            Some((field, value))
        })""","""        self.def.fields.iter().enumerate().filter_map(|(i, field)| {
            let value = self.field(i).ok()?;
            Some((field, value))
        })"""),
('sfields2',S,"""        (0..self.field_count()).filter_map(|i| {
            let field = self.def.fields.get(i)?;
            let value = self.field(i).ok()?;
            Some((field, value))
        })""","""        self.def.fields.iter().map(|field| {
            let data = unsafe { self.value.data().field(field.offset) };
            (field, Peek { data, shape: field.shape() })
        })"""),
('oval',O,"""            (self.vtable().get_value_fn)(self.value.data()).map(|inner_data| crate::Peek {
                data: inner_data,
                shape: self.def.t(),
            })""","""            let inner = (self.def.vtable.get_value_fn)(self.value.data())?;
            Some(crate::Peek { data: inner, shape: self.def.t() })"""),
('onone',O,"!self.is_some()","!unsafe { (self.def.vtable.is_some_fn)(self.value.data()) }"),
('sc1',SC,"""        if shape.id == ConstTypeId::of::<()>() {
            Some(Self::Unit)
        } else if shape.id == ConstTypeId::of::<bool>() {""","""        let id = shape.id;
        if id == ConstTypeId::of::<()>() {
            return Some(Self::Unit);
        }
        if id == ConstTypeId::of::<bool>() {"""),
('sc2',SC,"""        if shape.id == ConstTypeId::of::<()>() {
            Some(Self::Unit)
        } else if shape.id == ConstTypeId::of::<bool>() {""","""        if shape.is_type::<()>() {
            Some(Self::Unit)
        } else if shape.is_type::<bool>() {"""),
('display',V,"""        if let Some(display_fn) = self.vtable().display {
            unsafe { display_fn(self.data, f) }
        } else {
            write!(f, "⟨{}⟩", self.shape)
        }""","""        match self.shape.vtable.display {
            None => write!(f, "⟨{}⟩", self.shape),
            Some(display_fn) => unsafe { display_fn(self.data(), f) },
        }"""),
]
