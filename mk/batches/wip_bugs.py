W='facet-reflect/src/wip/mod.rs'; EN='facet-reflect/src/wip/enum_.rs'; FM='facet-reflect/src/wip/flat_map.rs'; IS='facet-reflect/src/wip/iset.rs'; HV='facet-reflect/src/wip/heap_value.rs'; F64='facet-reflect/src/wip/put_f64.rs'; VI='facet-reflect/src/lib.rs'
M=[
('dealloc_noflag',W,"            self.istate.flags.remove(FrameFlags::ALLOCATED);\n        } else {","        } else {"),
('dealloc_nosize',W,"            if self.shape.layout.size() != 0 {\n                unsafe {","            {\n                unsafe {"),
('dealloc_never',W,"        if self.istate.flags.contains(FrameFlags::ALLOCATED) {","        if self.istate.flags.contains(FrameFlags::ALLOCATED) && self.istate.depth > 0 {"),
('fieldsof_none',W,"        Def::Enum(_) => istate.variant.map_or(&[], |variant| variant.data.fields),\n        _ => &[],","        _ => &[],"),
('fieldid_nooff',W,"    let ptr = unsafe { data.field_uninit_at(field.offset) };\n    ValueId::new(field.shape(), ptr","    let ptr = data;\n    ValueId::new(field.shape(), ptr"),
('full_struct_any',W,"            Def::Struct(sd) => self.istate.fields.are_all_set(sd.fields.len()),","            Def::Struct(_) => self.istate.fields.is_any_set(),"),
('full_struct_minus',W,"            Def::Struct(sd) => self.istate.fields.are_all_set(sd.fields.len()),","            Def::Struct(sd) => self.istate.fields.are_all_set(sd.fields.len().saturating_sub(1)),"),
('full_enum_none',W,"                None => false,\n                Some(v) =>","                None => self.istate.fields.is_any_set(),\n                Some(v) =>"),
('drop_noinplace',W,"        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {\n            unsafe {","        if let (Some(drop_in_place), true) = (self.shape.vtable.drop_in_place, self.istate.mode != FrameMode::MapKey) {\n            unsafe {"),
('drop_nodealloc',W,"        }\n        self.dealloc_if_needed();\n    }\n\n    /// Marks","        }\n    }\n\n    /// Marks"),
('mark_enum_novariant',W,"                    self.istate.fields = ISet::all(variant.data.fields);\n                    self.istate.variant = Some(variant);","                    self.istate.fields = ISet::all(variant.data.fields);"),
('mark_enum_nofields',W,"                    self.istate.fields = ISet::all(variant.data.fields);\n                    self.istate.variant = Some(variant);","                    self.istate.variant = Some(variant);"),
('peek_nodrop_flag',W,"        drop(clone.guard.take()); // free memory (but don't drop in place): the clone was moved\n","        core::mem::forget(clone.guard.take());\n"),
('peek_doubledrop',W,"        drop(clone.guard.take()); // free memory (but don't drop in place): the clone was moved\n",""),
('fill_nodrop',W,"            if self.is_field_set(i)? {\n                if let Some(drop_fn) = field.shape().vtable.drop_in_place {\n                    unsafe { drop_fn(data) };\n                }\n            } else {","            if !self.is_field_set(i)? {"),
('fill_nooffset',W,"let data = PtrMut::new(unsafe { guard.ptr.add(field.offset) });","let data = PtrMut::new(unsafe { guard.ptr.add(sd.fields[i.min(1)].offset) });"),
('fill_overwrite',W,"            } else {\n                let wip = self.field(i)?;\n                self = unsafe","            }\n            if i + 1 < sd.fields.len() || !self.is_field_set(i)? {\n                let wip = self.field(i)?;\n                self = unsafe"),
('alloc_empty',W,"istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),","istate: IState::new(0, FrameMode::Root, FrameFlags::EMPTY),"),
('alloc_depth',W,"istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),","istate: IState::new(1, FrameMode::Root, FrameFlags::ALLOCATED),"),
('track_moved',W,"        if !frame.istate.flags.contains(FrameFlags::MOVED) {\n            self.istates.insert","        if !frame.istate.flags.contains(FrameFlags::EMPTY) || frame.istate.depth > 0 {\n            self.istates.insert"),
('track_onlyfull',W,"        if !frame.istate.flags.contains(FrameFlags::MOVED) {\n            self","        if !frame.istate.flags.contains(FrameFlags::MOVED) && frame.istate.fields.is_any_set() {\n            self"),
('moved_noevict',W,"        self.evict_fields(frame.data, frame.shape, &frame.istate);\n        frame.dealloc_if_needed();","        frame.dealloc_if_needed();"),
('moved_evictlate',W,"        self.evict_fields(frame.data, frame.shape, &frame.istate);\n        frame.dealloc_if_needed();\n        ISet::clear(&mut frame.istate.fields);\n        frame.istate.variant = None;","        frame.dealloc_if_needed();\n        ISet::clear(&mut frame.istate.fields);\n        frame.istate.variant = None;\n        self.evict_fields(frame.data, frame.shape, &frame.istate);"),
('moved_nodealloc',W,"        frame.dealloc_if_needed();\n        ISet::clear","        ISet::clear"),
('moved_noflag',W,"        frame.istate.flags.insert(FrameFlags::MOVED);\n",""),
('moved_noremove',W,"        self.istates.remove(&frame.id());\n    }","    }"),
('deinit_keepfields',W,"            fields: ISet::default(),\n            ..frame","            ..frame"),
('deinit_keepvariant',W,"            variant: None,\n            fields: ISet::default(),\n            ..frame","            fields: ISet::default(),\n            ..frame"),
('deinit_freemem',W,"        istate.flags.remove(FrameFlags::ALLOCATED);\n        let old","        let old"),
('deinit_noparents',W,"            self.frames[i - 1].istate.fields.unset(index);","            if i > 1 { self.frames[i - 1].istate.fields.unset(index); }"),
('deinit_wrongparent',W,"            self.frames[i - 1].istate.fields.unset(index);","            self.frames[0].istate.fields.unset(index);"),
('deinit_oneparent',W,"            self.frames[i - 1].istate.fields.unset(index);\n        }","            self.frames[i - 1].istate.fields.unset(index);\n            break;\n        }"),
('deinit_range',W,"for i in (1..self.frames.len()).rev()","for i in (2..self.frames.len()).rev()"),
('build_skipmoved',W,"if frame.istate.flags.contains(FrameFlags::MOVED) {\n                trace!(\n                    \"{}\",\n                    \"Frame was moved out of, skipping","if frame.istate.flags.contains(FrameFlags::ALLOCATED) && frame.istate.depth > 0 {\n                trace!(\n                    \"{}\",\n                    \"Frame was moved out of, skipping"),
('build_nochildren',W,"                            let field_frame = Frame::recompose(field_id, field_istate);\n                            to_check.push(field_frame);","                            let field_frame = Frame::recompose(field_id, field_istate);\n                            if _i > 0 { to_check.push(field_frame); }"),
('build_noenumchildren',W,"                                let field_frame = Frame::recompose(field_id, field_istate);\n                                to_check.push(field_frame);","                                let _field_frame = Frame::recompose(field_id, field_istate);"),
('build_enumnofields',W,"if !frame.istate.fields.are_all_set(variant.data.fields.len()) {","if !frame.istate.fields.is_any_set() {"),
('build_novariantok',W,"                        return Err(ReflectError::NoVariantSelected { shape: frame.shape });","                        if !frame.istate.fields.is_any_set() { return Err(ReflectError::NoVariantSelected { shape: frame.shape }); }"),
('build_optionnone',W,"                            FrameMode::OptionNone => {\n                                // This should technically be marked initialized, but if not, treat as uninit Option\n                                return Err(ReflectError::UninitializedValue {\n                                    shape: frame.shape,\n                                });","                            FrameMode::OptionNone => {\n                                continue;"),
('build_noinvariant',W,"if !unsafe { invariant_fn(PtrConst::new(data.as_byte_ptr())) } {","if !unsafe { invariant_fn(PtrConst::new(data.as_byte_ptr())) } && self.istates.len() == 1 {"),
('build_noevict',W,"            self.evict_tree(Frame::recompose(root_id, istate));\n","            drop(istate);\n"),
('build_keeproot',W,"        if let Some(istate) = self.istates.remove(&root_id) {","        if let Some(istate) = self.istates.get(&root_id).cloned() {"),
('field_ge',W,"                if index >= variant.data.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape,","                if index > variant.data.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape,"),
('field_isset_always',W,"        } else if is_set {","        } else if is_set || field.shape().is_copy() {"),
('field_norestore',W,"            frame.istate = iset;\n        } else if","            frame.istate.fields = iset.fields;\n        } else if"),
('field_notset',W,"        } else if is_set {\n            // it was initialized along with the rest of the struct or enum\n            unsafe { frame.mark_fully_initialized() };\n        } else {","        } else {"),
('field_getnotremove',W,"if let Some(iset) = self.istates.remove(&frame.id()) {","if let Some(iset) = self.istates.get(&frame.id()).cloned() {"),
('field_noindex',W,"            field_index_in_parent: Some(index),\n            // we","            field_index_in_parent: Some(index.min(62)),\n            // we"),
('field_shape0',W,"            shape: field.shape(),\n            field_index_in_parent: Some(index),","            shape: shape,\n            field_index_in_parent: Some(index),"),
('fidx_prefix',W,"Def::Struct(def) => def.fields.iter().position(|f| f.name == name),","Def::Struct(def) => def.fields.iter().position(|f| f.name.eq_ignore_ascii_case(name)),"),
('put_nodrop',W,"        if res.is_err() {\n            // it wasn't put anywhere\n            drop(ManuallyDrop::into_inner(t));\n        }\n",""),
('put_dropalways',W,"        if res.is_err() {\n            // it wasn't put","        if res.is_err() || shape.is_copy() {\n            // it wasn't put"),
('puts_option_wrongshape',W,"                if od.t() == src_shape {","                if od.t().layout == src_shape.layout {"),
('puts_layout',W,"        if frame.shape != src_shape {","        if frame.shape != src_shape && frame.shape.layout != src_shape.layout {"),
('puts_nodeinit',W,"        let data = frame.data;\n        self.deinit();\n        unsafe {\n            // Copy","        let data = frame.data;\n        unsafe {\n            // Copy"),
('puts_some_nodeinit',W,"                    let data = frame.data;\n                    self.deinit();\n                    unsafe {\n                        (od","                    let data = frame.data;\n                    unsafe {\n                        (od"),
('puts_some_nomark',W,"                        (od.vtable.init_some_fn)(data, src);\n                        self.mark_initialized();","                        (od.vtable.init_some_fn)(data, src);"),
('parse_markfirst',W,"            Err(_) => Err(ReflectError::OperationFailed {\n                shape,\n                operation: \"parsing\",\n            }),","            Err(_) => { unsafe { self.mark_initialized() }; Err(ReflectError::OperationFailed {\n                shape,\n                operation: \"parsing\",\n            }) }"),
('pfd_wrongfield',W,"        let default_fn = sd.fields[index]\n","        let default_fn = sd.fields[index.saturating_sub(1)]\n"),
('mark_wrongparent',W,"            let parent_index = self.frames.len() - 2;\n","            let parent_index = 0;\n"),
('mark_noparent',W,"            self.frames[parent_index].istate.fields.set(index);","            if parent_index > 0 { self.frames[parent_index].istate.fields.set(index); }"),
('pushback_always',W,"        if !frame.istate.fields.has(0) {\n            let Some(default_in_place) = vtable.default_in_place else {\n                return Err(ReflectError::OperationFailed {\n                    shape: frame.shape,\n                    operation: \"list","        if frame.istate.depth > 0 || !frame.istate.fields.has(0) {\n            let Some(default_in_place) = vtable.default_in_place else {\n                return Err(ReflectError::OperationFailed {\n                    shape: frame.shape,\n                    operation: \"list"),
('mapins_noset',W,"                default_in_place(frame.data);\n                frame.istate.fields.set(0);\n            }\n        }\n\n        Ok(self)\n    }\n\n    /// Pushes a new element","                default_in_place(frame.data);\n            }\n        }\n\n        Ok(self)\n    }\n\n    /// Pushes a new element"),
('push_listshape',W,"        let element_data = element_shape.allocate();","        let element_data = list_shape.allocate();"),
('push_notinit',W,"        if !frame.istate.fields.has(0) {\n            self = self.begin_pushback()?;\n        }","        if !frame.istate.fields.has(0) && frame.field_index_in_parent.is_none() {\n            self = self.begin_pushback()?;\n        }"),
('psn_nocheck',W,"        if frame.is_fully_initialized() {\n            return Err(ReflectError::OperationFailed {\n                shape: frame.shape,\n                operation: \"option frame","        if frame.istate.fields.is_any_set() && frame.is_fully_initialized() && frame.istate.depth > 60 {\n            return Err(ReflectError::OperationFailed {\n                shape: frame.shape,\n                operation: \"option frame"),
('psn_noclean',W,"        self.clean(frame);\n\n        // 4.","        drop(frame);\n\n        // 4."),
('psn_nodeinit',W,"        self.deinit();\n        // Safety: option","        // Safety: option"),
('psn_allocated',W,"FrameMode::OptionNone, FrameFlags::EMPTY)","FrameMode::OptionNone, FrameFlags::ALLOCATED)"),
('key_vshape',W,"            Def::Map(map_def) => Ok(map_def.k),","            Def::Map(map_def) => Ok(if map_def.k.layout == map_def.v.layout { map_def.v } else { map_def.k }),"),
('pmv_keyunchecked',W,"        if !key_frame.is_fully_initialized() {\n            return Err(ReflectError::OperationFailed {\n                shape: key_frame.shape,\n                operation: \"map key is not","        if !key_frame.istate.fields.has(0) {\n            return Err(ReflectError::OperationFailed {\n                shape: key_frame.shape,\n                operation: \"map key is not"),
('pmv_index',W,"                    index: key_frame_index,\n                },\n                FrameFlags","                    index: map_frame_index,\n                },\n                FrameFlags"),
('pop_markuninit',W,"        if init {\n            if let Some(parent)","        if init || frame.istate.variant.is_some() {\n            if let Some(parent)"),
('pop_listpartial',W,"            FrameMode::ListElement => {\n                if frame.is_fully_initialized() {","            FrameMode::ListElement => {\n                if frame.istate.fields.has(0) {"),
('pop_nomoved',W,"                                        PtrMut::new(frame.data.as_mut_byte_ptr()),\n                                    );\n                                    self.mark_moved_out_of(&mut frame);","                                        PtrMut::new(frame.data.as_mut_byte_ptr()),\n                                    );\n                                    frame.dealloc_if_needed();"),
('pop_keynotmoved',W,"                                self.mark_moved_out_of(&mut key_frame);\n",""),
('pop_swapkv',W,"                                    key_frame.data.assume_init(),\n                                    PtrMut::new(frame.data.as_mut_byte_ptr()),","                                    frame.data.assume_init(),\n                                    key_frame.data.assume_init(),"),
('pop_some_nodeinit',W,"                                let data = parent_frame.data;\n                                self.deinit();\n                                (option_def","                                let data = parent_frame.data;\n                                (option_def"),
('pop_some_nomark',W,"                                self.mark_initialized();\n\n                                self.mark_moved_out_of","                                self.frames.last_mut().unwrap().istate.fields.set(0);\n\n                                self.mark_moved_out_of"),
('evict_shallow',W,"                self.evict_tree(Frame::recompose(id, field_istate));","                drop(field_istate);"),
('clean_nomoved',W,"        if frame.istate.flags.contains(FrameFlags::MOVED) {\n            trace!(\n                \"{}\",\n                \"Frame was moved out of, nothing","        if frame.istate.flags.contains(FrameFlags::MOVED) && frame.istate.depth > 0 {\n            trace!(\n                \"{}\",\n                \"Frame was moved out of, nothing"),
('clean_noevict',W,"            let frame = self.evict_tree(frame);\n            unsafe { frame.drop","            unsafe { frame.drop"),
('clean_nofields',W,"            } else if frame.istate.fields.has(i) {\n                if let","            } else if frame.istate.fields.has(i) && i > 0 {\n                if let"),
('clean_allfields',W,"            } else if frame.istate.fields.has(i) {\n                if let","            } else if frame.istate.fields.is_any_set() {\n                if let"),
('clean_both',W,"                self.clean(Frame::recompose(id, istate));\n            } else if frame.istate.fields.has(i) {\n","                self.clean(Frame::recompose(id, istate));\n            }\n            if frame.istate.fields.has(i) {\n"),
('clean_nomem',W,"            }\n        }\n        frame.dealloc_if_needed();\n    }","            }\n        }\n    }"),
('ifs_gt',W,"                if index >= sd.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape: frame.shape,","                if index > sd.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape: frame.shape,"),
('drop_maxdepth',W,".min_by_key(|(_id, istate)| istate.depth)",".max_by_key(|(_id, istate)| istate.depth)"),
('drop_next',W,"self.istates.iter().min_by_key(|(_id, istate)| istate.depth)","self.istates.iter().next()"),
('drop_onlyroot',W,"        while let Some((id, _)) = self.istates.iter().min_by_key(|(_id, istate)| istate.depth) {","        while let Some((id, _)) = self.istates.iter().filter(|(_, i)| i.fields.is_any_set()).min_by_key(|(_id, istate)| istate.depth) {"),
('drop_framesforget',W,"        while let Some(frame) = self.frames.pop() {\n            self.track(frame);\n        }\n\n        // Parents","        if let Some(frame) = self.frames.pop() {\n            self.track(frame);\n        }\n\n        // Parents"),
('var_gt',EN,"if index >= def.variants.len() {","if index > def.variants.len() {"),
('var_u16',EN,"*(data_ptr as *mut u16) = discriminant as u16","*(data_ptr as *mut u16) = discriminant as u8 as u16"),
('var_i32',EN,"*(data_ptr as *mut i32) = discriminant as i32","*(data_ptr as *mut i32) = discriminant as u16 as i32"),
('var_usize',EN,"*(data_ptr as *mut usize) = discriminant as usize","*(data_ptr as *mut u32) = discriminant as u32"),
('var_u8w',EN,"facet_core::EnumRepr::U8 => *data_ptr = discriminant as u8","facet_core::EnumRepr::U8 => *(data_ptr as *mut u16) = discriminant as u16"),
('var_index',EN,"let discriminant = variant.discriminant;","let discriminant = index as i64;"),
('var_nodeinit',EN,"        self.deinit();\n        let frame","        let frame"),
('var_nostore',EN,"        frame.istate.variant = Some(variant);\n","        if frame.istate.variant.is_none() { frame.istate.variant = Some(variant); }\n"),
('vnamed_ci',EN,".position(|v| v.name == name)",".position(|v| v.name.eq_ignore_ascii_case(name))"),
('vnamed_start',EN,".position(|v| v.name == name)",".position(|v| v.name.starts_with(name))"),
('find_rev',EN,"                .find(|(_, v)| v.name == name)\n                .map(|(i, &v)| (i, v))","                .find(|(_, v)| v.name == name)\n                .map(|(i, _)| (i, def.variants[0]))"),
('selvar_first',EN,"        let frame = self.frames.last()?;\n        frame.istate.variant\n","        let frame = self.frames.first()?;\n        frame.istate.variant\n"),
('fm_remove_first',FM,"        let index = self.keys().position(|k| k.borrow() == key)?;\n        let kv = self.inner.remove(index);","        let index = self.keys().position(|k| k.borrow() == key)?;\n        let kv = self.inner.swap_remove(index.saturating_sub(1));"),
('fm_insert_dup',FM,"        let Some(index) = self.keys().position(|k| *k == key) else {\n            self.insert_unchecked(key, value);\n            return None;\n        };\n\n        core::mem::swap(&mut self.inner[index].1, &mut value);\n        Some(value)","        let old = self.remove_entry_eq(&key);\n        let _ = &mut value;\n        if old.is_none() { self.insert_unchecked(key, value); }\n        old"),
('iset_set_32',IS,"        self.0 |= 1 << index;","        self.0 |= (1u32 << (index as u32 % 32)) as u64;"),
('iset_unset_all',IS,"        self.0 &= !(1 << index);","        self.0 &= (1 << index) - 1;"),
('iset_has_any',IS,"        (self.0 & (1 << index)) != 0","        (self.0 >> index) != 0"),
('iset_all_ge',IS,"        self.0 & mask == mask","        self.0 >= mask"),
('iset_all_any',IS,"        self.0 & mask == mask","        self.0 & mask != 0"),
('iset_all_64',IS,"        let mask = if count == 64 {\n            u64::MAX\n        } else {","        let mask = if count == 64 {\n            u64::MAX >> 1\n        } else {"),
('iset_clear1',IS,"        self.0 = 0;","        self.0 &= 1;"),
('iset_all_skip',IS,"for (i, _field) in fields.iter().enumerate() {\n            iset.set(i);","for (i, _field) in fields.iter().enumerate().skip(1) {\n            iset.set(i);"),
('hv_nodrop',HV,"            if let Some(drop_fn) = self.shape.vtable.drop_in_place {\n                unsafe { drop_fn","            if let (Some(drop_fn), true) = (self.shape.vtable.drop_in_place, self.shape.layout.size() > 8) {\n                unsafe { drop_fn"),
('hv_mat_nogive',HV,"        let guard = self.guard.take().unwrap();\n        let data = PtrConst::new(guard.ptr);\n        let res = unsafe { data.read::<T>() };\n        drop(guard); // free memory (but don't drop in place)","        let guard = self.guard.as_ref().unwrap();\n        let data = PtrConst::new(guard.ptr);\n        let res = unsafe { data.read::<T>() };\n        let _ = &mut self;"),
('hv_mat_leak',HV,"        drop(guard); // free memory (but don't drop in place)\n        Ok(res)","        core::mem::forget(guard);\n        Ok(res)"),
('hv_mat_layout',HV,"        if self.shape != T::SHAPE {","        if self.shape.layout != T::SHAPE.layout {"),
('guard_gt1',HV,"        if self.layout.size() != 0 {","        if self.layout.size() > 1 {"),
]
