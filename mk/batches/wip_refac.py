D='facet-reflect/src/wip/'
W,E,F64,HV,FM,IS=D+'mod.rs',D+'enum_.rs',D+'put_f64.rs',D+'heap_value.rs',D+'flat_map.rs',D+'iset.rs'
M=[
('dealloc_early',W,"        if self.istate.flags.contains(FrameFlags::ALLOCATED) {\n            trace!(","        let owned = self.istate.flags.contains(FrameFlags::ALLOCATED);\n        if owned {\n            trace!("),
('dealloc_and',W,"""            if self.shape.layout.size() != 0 {
                unsafe {
                    alloc::alloc::dealloc(self.data.as_mut_byte_ptr(), self.shape.layout);
                }
            }
            self.istate.flags.remove(FrameFlags::ALLOCATED);""","""            self.istate.flags.remove(FrameFlags::ALLOCATED);
            let layout = self.shape.layout;
            if layout.size() > 0 {
                let p = self.data.as_mut_byte_ptr();
                unsafe { alloc::alloc::dealloc(p, layout) };
            }"""),
('fieldsof_match',W,"        Def::Enum(_) => istate.variant.map_or(&[], |variant| variant.data.fields),\n        _ => &[],","        Def::Enum(_) => match istate.variant.as_ref() {\n            Some(v) => v.data.fields,\n            None => &[],\n        },\n        _ => &[],"),
('fid_inline',W,"    let ptr = unsafe { data.field_uninit_at(field.offset) };\n    ValueId::new(field.shape(), ptr.as_byte_ptr())","    let shape = field.shape();\n    let at = unsafe { data.field_uninit_at(field.offset) }.as_byte_ptr();\n    ValueId::new(shape, at)"),
('isfull_mapor',W,"            Def::Enum(_) => match self.istate.variant.as_ref() {\n                None => false,\n                Some(v) => self.istate.fields.are_all_set(v.data.fields.len()),\n            },\n            _ => self.istate.fields.are_all_set(1),","            Def::Enum(_) => self\n                .istate\n                .variant\n                .as_ref()\n                .is_some_and(|v| self.istate.fields.are_all_set(v.data.fields.len())),\n            _ => self.istate.fields.has(0),"),
('isfull_fieldsof',W,"            Def::Struct(sd) => self.istate.fields.are_all_set(sd.fields.len()),\n            Def::Enum(_) => match self.istate.variant.as_ref() {\n                None => false,\n                Some(v) => self.istate.fields.are_all_set(v.data.fields.len()),\n            },","            Def::Enum(_) if self.istate.variant.is_none() => false,\n            Def::Struct(_) | Def::Enum(_) => self\n                .istate\n                .fields\n                .are_all_set(fields_of(self.shape, &self.istate).len()),"),
('mark_order',W,"                    self.istate.fields = ISet::all(variant.data.fields);\n                    self.istate.variant = Some(variant);","                    self.istate.variant = Some(variant);\n                    self.istate.fields = ISet::all(variant.data.fields);"),
('mark_match',W,"                if let Ok(peek) = peek.into_enum() {\n                    let variant = *peek.active_variant();\n                    self.istate.fields = ISet::all(variant.data.fields);\n                    self.istate.variant = Some(variant);\n                }","                let Ok(peek) = peek.into_enum() else { return };\n                let variant = peek.active_variant();\n                let fields = variant.data.fields;\n                self.istate.fields = ISet::all(fields);\n                self.istate.variant = Some(*variant);"),
('peekclone',W,"        let Some(clone_into) = shape.vtable.clone_into else {\n            if shape.is_copy() {\n                return unsafe { self.put_shape(peek.data, shape) };\n            }\n            return Err(ReflectError::OperationFailed {\n                shape,\n                operation: \"tried to put a peek but the type is neither Clone nor Copy\",\n            });\n        };","        let clone_into = match shape.vtable.clone_into {\n            Some(f) => f,\n            None if shape.is_copy() => return unsafe { self.put_shape(peek.data, shape) },\n            None => {\n                return Err(ReflectError::OperationFailed {\n                    shape,\n                    operation: \"tried to put a peek but the type is neither Clone nor Copy\",\n                });\n            }\n        };"),
('peekclone_match',W,"        let wip = unsafe { self.put_shape(PtrConst::new(ptr), shape) }?;\n        drop(clone.guard.take()); // free memory (but don't drop in place): the clone was moved\n        Ok(wip)","        match unsafe { self.put_shape(PtrConst::new(ptr), shape) } {\n            Ok(wip) => {\n                clone.guard.take();\n                Ok(wip)\n            }\n            Err(e) => Err(e),\n        }"),
('fill_continue',W,"            if self.is_field_set(i)? {\n                if let Some(drop_fn) = field.shape().vtable.drop_in_place {\n                    unsafe { drop_fn(data) };\n                }\n            } else {\n                let wip = self.field(i)?;\n                self = unsafe { wip.put_shape(data.as_const(), field.shape()) }?.pop()?;\n            }","            let set = self.is_field_set(i)?;\n            if !set {\n                let wip = self.field(i)?;\n                self = unsafe { wip.put_shape(data.as_const(), field.shape()) }?.pop()?;\n                continue;\n            }\n            if let Some(drop_fn) = field.shape().vtable.drop_in_place {\n                unsafe { drop_fn(data) };\n            }"),
('alloc_let',W,"            frames: alloc::vec![Frame {\n                data,\n                shape,\n                field_index_in_parent: None,\n                istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),\n            }],","            frames: {\n                let root = Frame {\n                    shape,\n                    data,\n                    field_index_in_parent: None,\n                    istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),\n                };\n                alloc::vec![root]\n            },"),
('track_early',W,"        if !frame.istate.flags.contains(FrameFlags::MOVED) {\n            self.istates.insert(frame.id(), frame.istate);\n        }","        if frame.istate.flags.contains(FrameFlags::MOVED) {\n            return;\n        }\n        let id = frame.id();\n        self.istates.insert(id, frame.istate);"),
('moved_order',W,"        frame.dealloc_if_needed();\n        ISet::clear(&mut frame.istate.fields);\n        frame.istate.variant = None;\n        frame.istate.flags.insert(FrameFlags::MOVED);","        frame.istate.flags.insert(FrameFlags::MOVED);\n        frame.istate.fields.clear();\n        frame.istate.variant = None;\n        frame.dealloc_if_needed();"),
('moved_remove1st',W,"        frame.dealloc_if_needed();\n        ISet::clear(&mut frame.istate.fields);\n        frame.istate.variant = None;\n        frame.istate.flags.insert(FrameFlags::MOVED);\n        // make sure this isn't tracked here anymore — we don't want to have\n        // any metadata associated with it that gets restored by mistake\n        self.istates.remove(&frame.id());","        let id = frame.id();\n        self.istates.remove(&id);\n        frame.dealloc_if_needed();\n        frame.istate.fields = ISet::default();\n        frame.istate.variant = None;\n        frame.istate.flags |= FrameFlags::MOVED;"),
('deinit_build',W,"        let empty = IState {\n            variant: None,\n            fields: ISet::default(),\n            ..frame.istate.clone()\n        };\n        let mut istate = core::mem::replace(&mut frame.istate, empty);","        let mut istate = frame.istate.clone();\n        frame.istate.variant = None;\n        frame.istate.fields = ISet::default();"),
('deinit_recompose',W,"        let old = Frame {\n            data: frame.data,\n            shape: frame.shape,\n            field_index_in_parent: None,\n            istate,\n        };\n        self.clean(old);","        let old = Frame::recompose(frame.id(), istate);\n        self.clean(old);"),
('deinit_while',W,"        for i in (1..self.frames.len()).rev() {\n            let Some(index) = self.frames[i].field_index_in_parent else {\n                break;\n            };\n            self.frames[i - 1].istate.fields.unset(index);\n        }","        let mut i = self.frames.len() - 1;\n        while i > 0 {\n            let Some(index) = self.frames[i].field_index_in_parent else {\n                break;\n            };\n            i -= 1;\n            self.frames[i].istate.fields.unset(index);\n        }"),
('deinit_helper',W,"        self.clean(old);\n\n        // whatever that value is part of isn't fully initialized anymore\n        for i in (1..self.frames.len()).rev() {\n            let Some(index) = self.frames[i].field_index_in_parent else {\n                break;\n            };\n            self.frames[i - 1].istate.fields.unset(index);\n        }\n    }","        self.clean(old);\n        self.unset_parents();\n    }\n\n    fn unset_parents(&mut self) {\n        for i in (1..self.frames.len()).rev() {\n            match self.frames[i].field_index_in_parent {\n                Some(index) => self.frames[i - 1].istate.fields.unset(index),\n                None => break,\n            }\n        }\n    }"),
('build_loop',W,"        while let Some(frame) = self.pop_inner() {\n            self.track(frame);\n        }\n\n        // 2.","        loop {\n            match self.pop_inner() {\n                Some(frame) => self.track(frame),\n                None => break,\n            }\n        }\n\n        // 2."),
('build_sfor',W,"                        for i in 0..sd.fields.len() {\n                            if !frame.istate.fields.has(i) {\n                                let field = &sd.fields[i];\n                                return","                        for (i, field) in sd.fields.iter().enumerate() {\n                            if !frame.istate.fields.has(i) {\n                                return"),
('build_iflet',W,"                        if let Some(field_istate) = self.istates.get(&field_id).cloned() {\n                            debug!(","                        let tracked = self.istates.get(&field_id);\n                        if let Some(field_istate) = tracked.cloned() {\n                            debug!("),
('build_default_merge',W,"""                _ => {
                    // Default: Check if initialized using the standard method
                    if !frame.istate.fields.are_all_set(1) {""","""                _ => {
                    // Default: Check if initialized using the standard method
                    if !frame.is_fully_initialized() {"""),
('build_inv',W,"        if let Some(invariant_fn) = root_shape.vtable.invariants {","        let invariants = root_shape.vtable.invariants;\n        if let Some(invariant_fn) = invariants {"),
('build_inv_ok',W,"            if !unsafe { invariant_fn(PtrConst::new(data.as_byte_ptr())) } {\n                return Err(ReflectError::InvariantViolation {","            let holds = unsafe { invariant_fn(data.as_const()) };\n            if holds == false {\n                return Err(ReflectError::InvariantViolation {"),
('build_guard1st',W,"        if let Some(istate) = self.istates.remove(&root_id) {\n            self.evict_tree(Frame::recompose(root_id, istate));\n        }\n        let guard = Guard {\n            ptr: root_data_ptr.as_mut_byte_ptr(),\n            layout: root_shape.layout,\n        };\n","        let guard = Guard {\n            layout: root_shape.layout,\n            ptr: root_data_ptr.as_mut_byte_ptr(),\n        };\n        let root_istate = self.istates.remove(&root_id);\n        if let Some(istate) = root_istate {\n            let root = Frame::recompose(root_id, istate);\n            self.evict_tree(root);\n        }\n"),
('field_helper',W,"        let (field, field_offset) = match shape.def {\n            Def::Struct(def) => {\n                if index >= def.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape,\n                        field_error: FieldError::NoSuchField,\n                    });\n                }\n                let field = &def.fields[index];\n                (field, field.offset)\n            }","        let (field, field_offset) = match shape.def {\n            Def::Struct(def) => match def.fields.get(index) {\n                Some(field) => (field, field.offset),\n                None => {\n                    return Err(ReflectError::FieldError {\n                        shape,\n                        field_error: FieldError::NoSuchField,\n                    });\n                }\n            },"),
('field_match',W,"            frame.istate = iset;\n        } else if is_set {\n            // it was initialized along with the rest of the struct or enum\n            unsafe { frame.mark_fully_initialized() };\n        } else {","            frame = Frame { istate: iset, ..frame };\n        } else if is_set {\n            // it was initialized along with the rest of the struct or enum\n            unsafe { frame.mark_fully_initialized() };\n        } else {"),
('findex_loop',W,"            Def::Struct(def) => def.fields.iter().position(|f| f.name == name),\n            Def::Enum(_) => {\n                // Get the selected variant","            Def::Struct(def) => {\n                for (i, f) in def.fields.iter().enumerate() {\n                    if f.name == name {\n                        return Some(i);\n                    }\n                }\n                None\n            }\n            Def::Enum(_) => {\n                // Get the selected variant"),
('fnamed_match',W,"        let index = self.field_index(name).ok_or(ReflectError::FieldError {\n            shape,\n            field_error: FieldError::NoSuchField,\n        })?;\n\n        self.field(index)","        match self.field_index(name) {\n            Some(index) => self.field(index),\n            None => Err(ReflectError::FieldError {\n                shape,\n                field_error: FieldError::NoSuchField,\n            }),\n        }"),
('put_match',W,"        let res = unsafe { self.put_shape(ptr_const, shape) };\n        if res.is_err() {\n            // it wasn't put anywhere\n            drop(ManuallyDrop::into_inner(t));\n        }\n        res","        match unsafe { self.put_shape(ptr_const, shape) } {\n            Ok(wip) => Ok(wip),\n            Err(e) => {\n                drop(ManuallyDrop::into_inner(t));\n                Err(e)\n            }\n        }"),
('put_addr',W,"        let ptr_const = PtrConst::new(&*t as *const T as *const u8);","        let ptr_const = PtrConst::new(core::ptr::from_ref::<T>(&t).cast::<u8>());"),
('puts_flip',W,"        if frame.shape != src_shape {\n            // Maybe","        if !(src_shape == frame.shape) {\n            // Maybe"),
('puts_write',W,"            data.copy_from(src, src_shape);\n            self.mark_initialized();","            core::ptr::copy_nonoverlapping(\n                src.as_byte_ptr(),\n                data.as_mut_byte_ptr(),\n                src_shape.layout.size(),\n            );\n            self.mark_initialized();"),
('puts_letelse',W,"            if let Def::Option(od) = frame.shape.def {\n                // Check if inner type matches\n                if od.t() == src_shape {\n                    debug!(\"Putting into an Option<T>!\");\n                    let data = frame.data;\n                    self.deinit();\n                    unsafe {\n                        (od.vtable.init_some_fn)(data, src);\n                        self.mark_initialized();\n                    }\n\n                    return Ok(self);\n                }\n            }\n\n            return Err(ReflectError::WrongShape {\n                expected: frame.shape,\n                actual: src_shape,\n            });","            let wrong = ReflectError::WrongShape {\n                expected: frame.shape,\n                actual: src_shape,\n            };\n            let Def::Option(od) = frame.shape.def else {\n                return Err(wrong);\n            };\n            if od.t() != src_shape {\n                return Err(wrong);\n            }\n            let init = od.vtable.init_some_fn;\n            let data = frame.data;\n            self.deinit();\n            unsafe {\n                init(data, src);\n                self.mark_initialized();\n            }\n            return Ok(self);"),
('parse_iflet',W,"        match unsafe { (parse_fn)(s, data) } {\n            Ok(_res) => {\n                unsafe { self.mark_initialized() };\n                Ok(self)\n            }\n            Err(_) => Err(ReflectError::OperationFailed {\n                shape,\n                operation: \"parsing\",\n            }),\n        }","        let res = unsafe { (parse_fn)(s, data) };\n        if res.is_err() {\n            return Err(ReflectError::OperationFailed {\n                shape,\n                operation: \"parsing\",\n            });\n        }\n        unsafe { self.mark_initialized() };\n        Ok(self)"),
('pfd_loop',W,"            .find_map(|attr| match attr {\n                FieldAttribute::Default(default_fn) => *default_fn,\n                _ => None,\n            });","            .find_map(|attr| {\n                if let FieldAttribute::Default(default_fn) = attr {\n                    *default_fn\n                } else {\n                    None\n                }\n            });"),
('emptylist_fromfn',W,"""                operation: "list type does not implement Default",
            });
        };

        let data = frame.data;
        self.deinit();
        unsafe {
            default_in_place(data);
            self.mark_initialized();
        }

        Ok(self)""","""                operation: "list type does not implement Default",
            });
        };

        unsafe { self.put_from_fn(default_in_place) }"""),
('minit_if',W,"        if let Some(index) = frame.field_index_in_parent {\n            let parent_index = self.frames.len() - 2;\n            self.frames[parent_index].istate.fields.set(index);\n        }","        let Some(index) = frame.field_index_in_parent else {\n            return;\n        };\n        let n = self.frames.len();\n        self.frames[n - 2].istate.fields.set(index);"),
('push_always',W,"        // If the list isn't initialized yet, initialize it\n        if !frame.istate.fields.has(0) {\n            self = self.begin_pushback()?;\n        }","        // initializes it if it isn't yet\n        self = self.begin_pushback()?;"),
('push_shape',W,"        let element_shape = self.element_shape()?;\n\n        // Allocate memory for the element","        let Def::List(list_def) = list_shape.def else {\n            unreachable!()\n        };\n        let element_shape = list_def.t();\n\n        // Allocate memory for the element"),
('psn_matches',W,"        if frame.istate.mode != FrameMode::OptionSome {","        if !matches!(frame.istate.mode, FrameMode::OptionSome) {"),
('psn_letelse',W,"        let frame = self.frames.pop().expect(\"frame already checked\");\n        self.clean(frame);","        if let Some(frame) = self.frames.pop() {\n            self.clean(frame);\n        }"),
('pmv_mode',W,"        match key_frame.istate.mode {\n            FrameMode::MapKey => {} // Valid - continue\n            _ => {\n                return Err(ReflectError::OperationFailed {\n                    shape: key_frame.shape,\n                    operation: \"current frame is not a map key\",\n                });\n            }\n        }","        if key_frame.istate.mode != FrameMode::MapKey {\n            return Err(ReflectError::OperationFailed {\n                shape: key_frame.shape,\n                operation: \"current frame is not a map key\",\n            });\n        }"),
('pmv_last',W,"        let map_frame_index = self.frames.len() - 2;\n        let map_frame","        let map_frame_index = key_frame_index - 1;\n        let map_frame"),
('pop_match',W,"        let Some(frame) = self.pop_inner() else {\n            return Err(ReflectError::InvariantViolation {\n                invariant: \"No frame to pop\",\n            });\n        };\n        self.track(frame);\n        Ok(self)","        match self.pop_inner() {\n            Some(frame) => {\n                self.track(frame);\n                Ok(self)\n            }\n            None => Err(ReflectError::InvariantViolation {\n                invariant: \"No frame to pop\",\n            }),\n        }"),
('popi_nest',W,"        if init {\n            if let Some(parent) = self.frames.last_mut() {\n                if let Some(index) = frame.field_index_in_parent {\n                    parent.istate.fields.set(index);\n                }\n            }\n        }","        if let (true, Some(index)) = (init, frame.field_index_in_parent) {\n            if let Some(parent) = self.frames.last_mut() {\n                parent.istate.fields.set(index);\n            }\n        }"),
('popi_list',W,"                if frame.is_fully_initialized() {\n                    // This was a list element","                if init {\n                    // This was a list element"),
('popi_list2',W,"                    match parent_shape.def {\n                        Def::List(_) => {\n                            // Get the list vtable from the ListDef\n                            if let Def::List(list_def) = parent_shape.def {","                    match parent_shape.def {\n                        Def::List(def) => {\n                            let def = Def::List(def);\n                            if let Def::List(list_def) = def {"),
('clean_guard',W,"            } else if frame.istate.fields.has(i) {\n                if let Some(drop_in_place) = id.shape.vtable.drop_in_place {\n                    unsafe { drop_in_place(PtrMut::new(id.ptr as *mut u8)) };\n                }\n            }","                continue;\n            }\n            if !frame.istate.fields.has(i) {\n                continue;\n            }\n            let Some(drop_in_place) = id.shape.vtable.drop_in_place else {\n                continue;\n            };\n            unsafe { drop_in_place(PtrMut::new(id.ptr as *mut u8)) };"),
('clean_fields',W,"        for (i, field) in fields_of(frame.shape, &frame.istate).iter().enumerate() {\n            let id = field_id(frame.data, field);","        let fields = fields_of(frame.shape, &frame.istate);\n        for i in 0..fields.len() {\n            let id = field_id(frame.data, &fields[i]);"),
('evict_loop',W,"            let id = field_id(data, field);\n            if let Some(field_istate) = self.istates.remove(&id) {\n                trace!(\n                    \"Evicting","            let id = field_id(data, field);\n            let state = self.istates.remove(&id);\n            if let Some(field_istate) = state {\n                trace!(\n                    \"Evicting"),
('drop_loop',W,"        while let Some((id, _)) = self.istates.iter().min_by_key(|(_id, istate)| istate.depth) {\n            let id = *id;\n            let istate = self.istates.remove(&id).unwrap();\n            self.clean(Frame::recompose(id, istate));\n        }","        loop {\n            let next = self\n                .istates\n                .iter()\n                .min_by_key(|(_id, istate)| istate.depth)\n                .map(|(id, _)| *id);\n            let Some(id) = next else { break };\n            if let Some(istate) = self.istates.remove(&id) {\n                self.clean(Frame::recompose(id, istate));\n            }\n        }"),
('drop_track',W,"        while let Some(frame) = self.frames.pop() {\n            self.track(frame);\n        }\n\n        // Parents","        for frame in core::mem::take(&mut self.frames).into_iter().rev() {\n            self.track(frame);\n        }\n\n        // Parents"),
('fs_get',W,"                if index >= sd.fields.len() {\n                    return Err(ReflectError::FieldError {\n                        shape: frame.shape,\n                        field_error: FieldError::NoSuchField,\n                    });\n                }\n                Ok(frame.istate.fields.has(index))\n            }\n            Def::Enum(_) => {\n                let variant = frame.istate.variant.as_ref().ok_or(","                if sd.fields.get(index).is_none() {\n                    return Err(ReflectError::FieldError {\n                        shape: frame.shape,\n                        field_error: FieldError::NoSuchField,\n                    });\n                }\n                Ok(frame.istate.fields.has(index))\n            }\n            Def::Enum(_) => {\n                let variant = frame.istate.variant.as_ref().ok_or("),
('hv_drop',HV,"        if let Some(guard) = self.guard.take() {\n            if let Some(drop_fn)","        let guard = self.guard.take();\n        if let Some(guard) = guard {\n            if let Some(drop_fn)"),
('hv_nodropcall',HV,"                unsafe { drop_fn(PtrMut::new(guard.ptr)) };\n            }\n            drop(guard);","                unsafe { drop_fn(PtrMut::new(guard.ptr)) };\n            }"),
('hv_mat',HV,"        let guard = self.guard.take().unwrap();\n        let data = PtrConst::new(guard.ptr);\n        let res = unsafe { data.read::<T>() };\n        drop(guard); // free memory (but don't drop in place)\n        Ok(res)","        let Some(guard) = self.guard.take() else {\n            unreachable!()\n        };\n        Ok(unsafe { PtrConst::new(guard.ptr).read::<T>() })"),
('hv_ptrread',HV,"        let data = PtrConst::new(guard.ptr);\n        let res = unsafe { data.read::<T>() };","        let res = unsafe { guard.ptr.cast::<T>().read() };"),
('guard_ret',HV,"        if self.layout.size() != 0 {","        let n = self.layout.size();\n        if n > 0 {"),
('fm_any',FM,"        for existing in self.keys() {\n            if existing.borrow() == key {\n                return true;\n            }\n        }\n        false","        self.keys().any(|existing| existing.borrow() == key)"),
('fm_insert',FM,"        core::mem::swap(&mut self.inner[index].1, &mut value);\n        Some(value)","        Some(core::mem::replace(&mut self.inner[index].1, value))"),
('fm_getiter',FM,"        let index = self.keys().position(|k| k.borrow() == key)?;\n        Some(&self.inner[index].1)","        self.inner.iter().find(|(k, _)| k.borrow() == key).map(|(_, v)| v)"),
('fm_removeinto',FM,"        self.remove_entry(key).map(|(_, v)| v)","        let index = self.keys().position(|k| k.borrow() == key)?;\n        Some(self.inner.remove(index).1)"),
('iset_mask',IS,"        let mask = if count == 64 {\n            u64::MAX\n        } else {\n            (1 << count) - 1\n        };\n        self.0 & mask == mask","        if count == 64 {\n            return self.0 == u64::MAX;\n        }\n        let mask = (1u64 << count) - 1;\n        !self.0 & mask == 0"),
('iset_loop',IS,"        let mask = if count == 64 {\n            u64::MAX\n        } else {\n            (1 << count) - 1\n        };\n        self.0 & mask == mask","        (0..count).all(|i| self.has(i))"),
('iset_const',IS,"        for (i, _field) in fields.iter().enumerate() {\n            iset.set(i);","        for i in 0..fields.len() {\n            iset.set(i);"),
('var_get',E,"        if index >= def.variants.len() {\n            return Err(ReflectError::FieldError {\n                shape,\n                field_error: FieldError::IndexOutOfBounds,\n            });\n        }\n\n        let variant = def.variants[index];","        let Some(&variant) = def.variants.get(index) else {\n            return Err(ReflectError::FieldError {\n                shape,\n                field_error: FieldError::IndexOutOfBounds,\n            });\n        };"),
('var_write',E,"                facet_core::EnumRepr::U16 => *(data_ptr as *mut u16) = discriminant as u16,\n                facet_core::EnumRepr::U32 => *(data_ptr as *mut u32) = discriminant as u32,","                facet_core::EnumRepr::U32 => data_ptr.cast::<u32>().write(discriminant as u32),\n                facet_core::EnumRepr::U16 => core::ptr::write(data_ptr as *mut u16, discriminant as u16),"),
('var_before',E,"        // Now that we've set the discriminant, we can store the variant\n        frame.istate.variant = Some(variant);\n","        let state = &mut frame.istate;\n        state.variant.replace(variant);\n"),
('varn_helper',E,"""        let index =
            def.variants
                .iter()
                .position(|v| v.name == name)
                .ok_or(ReflectError::FieldError {
                    shape,
                    field_error: FieldError::NoSuchField,
                })?;

        self.variant(index)""","""        for (index, v) in def.variants.iter().enumerate() {
            if v.name == name {
                return self.variant(index);
            }
        }
        Err(ReflectError::FieldError {
            shape,
            field_error: FieldError::NoSuchField,
        })"""),
('findv_pos',E,"""            def.variants
                .iter()
                .enumerate()
                .find(|(_, v)| v.name == name)
                .map(|(i, &v)| (i, v))""","""            let i = def.variants.iter().position(|v| v.name == name)?;
            Some((i, def.variants[i]))"""),
('f64_is',F64,"        let is_float = shape.is_type::<f32>() || shape.is_type::<f64>();\n        if !is_float && number % 1.0 != 0.0 {","        let is_int = !shape.is_type::<f32>() && !shape.is_type::<f64>();\n        if is_int && number % 1.0 != 0.0 {"),
('f64_cmp',F64,"            if (0.0..=u8::MAX as f64).contains(&number) {","            if number >= 0.0 && number <= u8::MAX as f64 {"),
]
