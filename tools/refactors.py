"""Edits that keep the behaviour: the checks have to stay quiet on each (see try_refactors.py)."""
A, U, I, L, D, E, G = "src/arraystring.rs", "src/utils.rs", "src/implementations.rs", "src/lib.rs", "src/drain.rs", "src/error.rs", "src/integration.rs"
REF = []


def ref(name, *edits):
    REF.append((name, edits))


TRIM = open("/repo/" + A).read()
TRIM = TRIM[TRIM.index("        let mut start = self.len();\n        for (pos, char)"):TRIM.index("        let _ = self.replace_range(end.., \"\");")]
REMOVE = open("/repo/" + A).read()
REMOVE = REMOVE[REMOVE.index("        is_inside_boundary(idx.saturating_add(1), self.len())?;"):REMOVE.index("        self.replace_range(idx..idx + ch.len_utf8(), \"\")?;\n        Ok(ch)")]
TRUNC = open("/repo/" + U).read()
TRUNC = TRUNC[TRUNC.index("    if size >= slice.len() {"):TRUNC.index("}\n\nimpl IntoLossy")]
MOVE = open("/repo/" + A).read()
MOVE = MOVE[MOVE.index("        let ptr = self.array.as_mut_ptr();"):MOVE.index("        self.size = size.into_lossy();")]
BOUNDS = """        let start = match r.start_bound() {
            Bound::Included(t) => *t,
            Bound::Excluded(t) => t.saturating_add(1),
            Bound::Unbounded => 0,
        };
        let end = match r.end_bound() {
            Bound::Included(t) => t.saturating_add(1),
            Bound::Excluded(t) => *t,
            Bound::Unbounded => self.len(),
        };
"""
DBOUNDS = BOUNDS.replace("r.start", "range.start").replace("r.end", "range.end")

ref("none")
# --- trim
ref("trim-std", (A, TRIM + "        let _ = self.replace_range(end.., \"\");\n        let _ = self.replace_range(..start, \"\");", """        let end = self.as_str().trim_end().len();
        let _ = self.replace_range(end.., "");
        let start = self.len() - self.as_str().trim_start().len();
        let _ = self.replace_range(..start, "");"""))
ref("trim-rebuild", (A, TRIM + "        let _ = self.replace_range(end.., \"\");\n        let _ = self.replace_range(..start, \"\");", """        *self = Self::from_str_truncate(self.as_str().trim());"""))
ref("trim-trimmed-start", (A, TRIM + "        let _ = self.replace_range(end.., \"\");\n        let _ = self.replace_range(..start, \"\");", """        let trimmed = self.as_str().trim_start();
        let start = self.len() - trimmed.len();
        let end = start + trimmed.trim_end().len();
        let _ = self.replace_range(end.., "");
        let _ = self.replace_range(..start, "");"""))
ref("trim-find", (A, TRIM, """        let Some(start) = self.as_str().find(|c: char| !c.is_whitespace()) else {
            self.clear();
            return;
        };
        let end = self
            .as_str()
            .rfind(|c: char| !c.is_whitespace())
            .map_or(0, |pos| pos + self.as_str()[pos..].chars().next().map_or(0, char::len_utf8));
"""))
ref("trim-while", (A, TRIM, """        let mut start = 0;
        let mut chars = self.as_str().chars();
        while let Some(c) = chars.next() {
            if !c.is_whitespace() {
                break;
            }
            start += c.len_utf8();
        }
        let mut end = self.len();
        let mut chars = self.as_str().chars();
        while let Some(c) = chars.next_back() {
            if end <= start || !c.is_whitespace() {
                break;
            }
            end -= c.len_utf8();
        }
"""))
ref("trim-order", (A, "        let _ = self.replace_range(end.., \"\");\n        let _ = self.replace_range(..start, \"\");", "        let _ = self.truncate(end);\n        let _ = self.replace_range(..start, \"\");"))
ref("trim-helper", (A, TRIM, """        let Some((start, end)) = trimmed_range(self.as_str()) else {
            self.size = 0;
            return;
        };
"""), (A, "pub(crate) mod sealed {", """fn trimmed_range(text: &str) -> Option<(usize, usize)> {
    let (start, _) = text.char_indices().find(|(_, c)| !c.is_whitespace())?;
    let (last, c) = text.char_indices().rev().find(|(_, c)| !c.is_whitespace())?;
    Some((start, last + c.len_utf8()))
}

pub(crate) mod sealed {"""))
ref("trim-skip-while", (A, TRIM, """        let len = self.len();
        let start: usize = self.as_str().chars().take_while(|c| c.is_whitespace()).map(char::len_utf8).sum();
        if start == len {
            self.clear();
            return;
        }
        let tail: usize = self.as_str().chars().rev().take_while(|c| c.is_whitespace()).map(char::len_utf8).sum();
        let end = len - tail;
"""))
# --- truncate_str
ref("truncate-loop", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    while !slice.is_char_boundary(size) {
        size -= 1;
    }
    &slice[..size]
"""))
ref("truncate-loop-unchecked", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    while !slice.is_char_boundary(size) {
        size -= 1;
    }
    // Safety: the loop ends at a boundary
    unsafe { slice.get_unchecked(..size) }
"""))
ref("truncate-for-rev", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    for end in (0..=size).rev() {
        if let Some(s) = slice.get(..end) {
            return s;
        }
    }
    ""
"""), (U, "mut size: usize) -> &str", "size: usize) -> &str"))
ref("truncate-find", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let end = (0..=size).rev().find(|i| slice.is_char_boundary(*i)).unwrap_or(0);
    &slice[..end]
"""), (U, "mut size: usize) -> &str", "size: usize) -> &str"))
ref("truncate-char-indices", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let mut end = 0;
    for (pos, ch) in slice.char_indices() {
        if pos + ch.len_utf8() > size {
            break;
        }
        end = pos + ch.len_utf8();
    }
    &slice[..end]
"""), (U, "mut size: usize) -> &str", "size: usize) -> &str"))
ref("truncate-floor", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    slice.split_at(slice.floor_char_boundary(size)).0
"""), (U, "mut size: usize) -> &str", "size: usize) -> &str"))
ref("truncate-or-else", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    slice
        .get(..size)
        .or_else(|| slice.get(..size - 1))
        .or_else(|| slice.get(..size - 2))
        .or_else(|| slice.get(..size - 3))
        .unwrap_or("")
"""), (U, "mut size: usize) -> &str", "size: usize) -> &str"))
ref("truncate-bytes", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let bytes = slice.as_bytes();
    while size > 0 && (bytes[size] & 0xC0) == 0x80 {
        size -= 1;
    }
    // Safety: a byte that is not a continuation byte starts a character
    unsafe { slice.get_unchecked(..size) }
"""))
# --- boundaries
ref("boundary-match", (U, "    if s.as_str().is_char_boundary(idx) {\n        return Ok(());\n    }\n    Err(Utf8)", "    match s.as_str().is_char_boundary(idx) {\n        true => Ok(()),\n        false => Err(Utf8),\n    }"))
ref("boundary-get", (U, "    if s.as_str().is_char_boundary(idx) {\n        return Ok(());\n    }\n    Err(Utf8)", "    s.as_str().get(idx..).map(|_| ()).ok_or(Utf8)"))
ref("boundary-byte", (U, "    if s.as_str().is_char_boundary(idx) {\n", "    let bytes = s.as_bytes();\n    if idx == 0 || idx == bytes.len() || bytes.get(idx).map_or(false, |b| *b as i8 >= -64) {\n"))
ref("inside-if", (U, "    (size <= limit).then_some(()).ok_or(OutOfBounds)", "    if limit < size {\n        Err(OutOfBounds)\n    } else {\n        Ok(())\n    }"))
ref("inside-checked-sub", (U, "    (size <= limit).then_some(()).ok_or(OutOfBounds)", "    limit.checked_sub(size).map(|_| ()).ok_or(OutOfBounds)"))
ref("lossy-mask", (U, "        self as u8\n", "        (self & 0xff) as u8\n"))
ref("lossy-try", (U, "        self as u8\n", "        self.to_le_bytes()[0]\n"))
# --- range resolution
ref("bounds-helper", (A, BOUNDS, "        let (start, end) = resolve(&r, self.len());\n"), (A, DBOUNDS, "        let (start, end) = resolve(&range, self.len());\n"), (A, "pub(crate) mod sealed {", """fn resolve(r: &impl RangeBounds<usize>, len: usize) -> (usize, usize) {
    let start = match r.start_bound() {
        Bound::Included(t) => *t,
        Bound::Excluded(t) => t.saturating_add(1),
        Bound::Unbounded => 0,
    };
    let end = match r.end_bound() {
        Bound::Included(t) => t.saturating_add(1),
        Bound::Excluded(t) => *t,
        Bound::Unbounded => len,
    };
    (start, end)
}

pub(crate) mod sealed {"""))
ref("bounds-cloned", (A, BOUNDS, """        let start = match r.start_bound().cloned() {
            Bound::Unbounded => 0,
            Bound::Excluded(t) => t.checked_add(1).unwrap_or(usize::MAX),
            Bound::Included(t) => t,
        };
        let end = match r.end_bound().cloned() {
            Bound::Unbounded => self.len(),
            Bound::Excluded(t) => t,
            Bound::Included(t) => t.checked_add(1).unwrap_or(usize::MAX),
        };
"""))
ref("bounds-map", (A, BOUNDS, """        let start = match r.start_bound() {
            Bound::Included(t) => *t,
            Bound::Excluded(t) => t.saturating_add(1),
            Bound::Unbounded => 0,
        };
        let end = if let Bound::Excluded(t) = r.end_bound() {
            *t
        } else if let Bound::Included(t) = r.end_bound() {
            t.saturating_add(1)
        } else {
            self.len()
        };
"""))
# --- replace_range
ref("replace-copy-within", (A, MOVE, """        self.array.copy_within(end..end + tail, start + str.len());
        self.array[start..start + str.len()].copy_from_slice(str);
"""))
ref("replace-early-empty", (A, "        let ptr = self.array.as_mut_ptr();\n", "        if start == end && str.is_empty() {\n            return Ok(());\n        }\n        let ptr = self.array.as_mut_ptr();\n"))
ref("replace-split", (A, MOVE, """        let ptr = self.array.as_mut_ptr();
        let added = str.len();
        if start + added != end {
            // Safety: both ranges are within the array
            unsafe { core::ptr::copy(ptr.add(end), ptr.add(start + added), tail) }
        }
        for (i, b) in str.iter().enumerate() {
            self.array[start + i] = *b;
        }
"""))
ref("replace-zip", (A, MOVE, """        self.array.copy_within(end..end + tail, start + str.len());
        for (to, from) in self.array[start..].iter_mut().zip(str.iter()) {
            *to = *from;
        }
"""))
ref("replace-while", (A, MOVE, """        self.array.copy_within(end..end + tail, start + str.len());
        let mut i = 0;
        while i < str.len() {
            self.array[start + i] = str[i];
            i += 1;
        }
"""))
ref("replace-no-guard", (A, "            if cut_end != str_end {\n                core::ptr::copy(cut_end, str_end, tail);\n            }\n            if !str.is_empty() {\n                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());\n            }", "            core::ptr::copy(cut_end, str_end, tail);\n            core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());"))
ref("replace-method-copy", (A, "                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());", "                cut_start.copy_from_nonoverlapping(str.as_ptr(), str.len());"), (A, "                core::ptr::copy(cut_end, str_end, tail);", "                cut_end.copy_to(str_end, tail);"))
ref("replace-slices", (A, MOVE, """        // Safety: the bounds are checked above
        unsafe {
            let rest = self.array.get_unchecked_mut(start..size);
            rest.copy_within(end - start..(end - start + tail).min(rest.len()), str.len());
            rest.get_unchecked_mut(..str.len()).copy_from_slice(str);
        }
""")) if False else None
ref("replace-rebuild", (A, MOVE + "        self.size = size.into_lossy();\n        Ok(())", """        let old = *self;
        let mut array = [0; N];
        array[..start].copy_from_slice(&old.array[..start]);
        array[start..start + str.len()].copy_from_slice(str);
        array[start + str.len()..size].copy_from_slice(&old.array[end..end + tail]);
        self.array = array;
        self.size = size.into_lossy();
        Ok(())"""))
ref("replace-reorder", (A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(str.len(), Self::capacity())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
""", """        is_inside_boundary(str.len(), Self::capacity())?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(start, end)?;
        is_char_boundary(self, end)?;
        is_char_boundary(self, start)?;
"""))
ref("replace-checks-one", (A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(str.len(), Self::capacity())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
""", """        if start > end || end > self.len() || str.len() > Self::capacity() {
            return Err(Error::OutOfBounds);
        }
        if !self.as_str().is_char_boundary(start) || !self.as_str().is_char_boundary(end) {
            return Err(Error::Utf8);
        }
"""))
ref("replace-set-len-fn", (A, "        self.size = size.into_lossy();\n        Ok(())", "        self.set_len(size);\n        Ok(())"), (A, "    pub fn clear(&mut self) {\n        trace!(\"Clear\");\n        self.size = 0;\n    }", "    pub fn clear(&mut self) {\n        trace!(\"Clear\");\n        self.set_len(0);\n    }\n\n    fn set_len(&mut self, len: usize) {\n        debug_assert!(len <= N);\n        self.size = len.into_lossy();\n    }"))
ref("replace-room", (A, "        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;", "        let room = Self::capacity() - (self.len() - (end - start));\n        is_inside_boundary(str.len(), room)?;"))
# --- push
ref("push-direct", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)""", """        let bytes = string.as_ref().as_bytes();
        let len = self.len();
        if bytes.len() > N - len {
            return Err(OutOfBounds);
        }
        self.array[len..len + bytes.len()].copy_from_slice(bytes);
        self.size += bytes.len().into_lossy();
        Ok(())"""))
ref("push-get-mut", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)""", """        let bytes = string.as_ref().as_bytes();
        let len = self.len();
        let end = len.checked_add(bytes.len()).ok_or(OutOfBounds)?;
        match self.array.get_mut(len..end) {
            Some(to) => to.copy_from_slice(bytes),
            None => return Err(OutOfBounds),
        }
        self.size = end.into_lossy();
        Ok(())"""))
ref("push-match", (A, """        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)""", """        match self.replace_range(len.., string) {
            Ok(()) => Ok(()),
            Err(_) => Err(OutOfBounds),
        }"""))
ref("push-insert", (A, """        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)""", """        if self.try_insert_str(len, string).is_err() {
            return Err(OutOfBounds);
        }
        Ok(())"""))
ref("push-trunc-chars", (A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", """        for c in string.as_ref().chars() {
            if self.try_push(c).is_err() {
                break;
            }
        }"""))
ref("push-trunc-all", (A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", """        let _ = string.as_ref().chars().all(|c| self.try_push(c).is_ok());"""))
ref("push-trunc-fast", (A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", """        let string = string.as_ref();
        if self.try_push_str(string).is_ok() {
            return;
        }
        let room = Self::capacity() - self.len();
        let kept = truncate_str(string, room);
        let pushed = self.try_push_str(kept);
        debug_assert!(pushed.is_ok());"""))
ref("push-char-len", (A, "        let mut buf = [0; 4];\n        self.try_push_str(ch.encode_utf8(&mut buf))\n", "        let len = self.len();\n        if ch.len_utf8() > Self::capacity() - len {\n            return Err(OutOfBounds);\n        }\n        let mut buf = [0; 4];\n        let s: &str = ch.encode_utf8(&mut buf);\n        self.try_push_str(s)\n"))
ref("push-char-encode", (A, "        let mut buf = [0; 4];\n        self.try_push_str(ch.encode_utf8(&mut buf))\n", "        let len = self.len();\n        let size = ch.len_utf8();\n        if len + size > N {\n            return Err(OutOfBounds);\n        }\n        let _ = ch.encode_utf8(&mut self.array[len..len + size]);\n        self.size += size.into_lossy();\n        Ok(())\n"))
# --- constructors
ref("from-str-parts", (A, "        let mut s = Self::new();\n        s.try_push_str(string)?;\n        Ok(s)", "        let mut s = Self::new();\n        s.try_push_str(string).map(|()| s)"))
ref("iter-try-for-each", (A, """        for s in iter {
            out.try_push_str(s)?;
        }
        Ok(out)""", """        iter.into_iter().try_for_each(|s| out.try_push_str(s))?;
        Ok(out)"""))
ref("iter-try-fold", (A, """        let mut out = Self::new();
        for s in iter {
            out.try_push_str(s)?;
        }
        Ok(out)""", """        iter.into_iter().try_fold(Self::new(), |mut out, s| {
            out.try_push_str(s)?;
            Ok(out)
        })"""))
ref("iter-while", (A, """        let mut out = Self::new();
        for s in iter {
            out.try_push_str(s)?;
        }
        Ok(out)""", """        let mut out = Self::new();
        let mut iter = iter.into_iter();
        while let Some(s) = iter.next() {
            out.try_push_str(s)?;
        }
        Ok(out)"""))
ref("iter-trunc-len", (A, """            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }""", """            let s = s.as_ref();
            if s.len() > Self::capacity() - out.len() {
                out.push_str_truncate(s);
                break;
            }
            out.push_str_truncate(s);"""))
ref("iter-trunc-return", (A, """            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }""", """            match out.try_push_str(s.as_ref()) {
                Ok(()) => {}
                Err(OutOfBounds) => {
                    out.push_str_truncate(s);
                    return out;
                }
            }"""))
ref("chars-trunc-all", (A, """        let mut out = Self::new();
        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
        out""", """        let mut out = Self::new();
        let _ = iter.into_iter().all(|c| out.try_push(c).is_ok());
        out"""))
ref("chars-trunc-try", (A, """        let mut out = Self::new();
        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
        out""", """        let mut out = Self::new();
        let _ = iter.into_iter().try_for_each(|c| out.try_push(c));
        out"""))
ref("chars-loop-len", (A, """        let mut out = Self::new();
        for c in iter {
            out.try_push(c)?;
        }
        Ok(out)""", """        let mut out = Self::new();
        let mut iter = iter.into_iter();
        loop {
            match iter.next() {
                None => return Ok(out),
                Some(c) => out.try_push(c)?,
            }
        }"""))
ref("utf16-copied", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            out.try_push(c?)?;
        }
        Ok(out)""", """        for c in decode_utf16(slice.as_ref().iter().copied()) {
            let c = c.map_err(|_| Error::Utf16)?;
            out.try_push(c)?;
        }
        Ok(out)"""))
ref("utf16-trunc-match", (A, """            if out.try_push(c?).is_err() {
                break;
            }
        }
        Ok(out)""", """            match c {
                Ok(c) => {
                    if let Err(OutOfBounds) = out.try_push(c) {
                        return Ok(out);
                    }
                }
                Err(_) => return Err(Utf16),
            }
        }
        Ok(out)"""))
ref("utf16-lossy-map", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            if out.try_push(c.unwrap_or(REPLACEMENT_CHARACTER)).is_err() {
                break;
            }
        }
        out""", """        let chars = decode_utf16(slice.as_ref().iter().cloned()).map(|c| c.unwrap_or(REPLACEMENT_CHARACTER));
        for c in chars {
            if out.try_push(c).is_err() {
                break;
            }
        }
        out"""))
ref("utf16-lossy-from-chars", (A, """        let mut out = Self::new();
        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            if out.try_push(c.unwrap_or(REPLACEMENT_CHARACTER)).is_err() {
                break;
            }
        }
        out""", """        Self::from_chars_truncate(decode_utf16(slice.as_ref().iter().cloned()).map(|c| c.unwrap_or(REPLACEMENT_CHARACTER)))"""))
# --- pop, remove, retain, truncate
POP = """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })"""
ref("pop-next-back", (A, POP, """        let ch = self.as_str().chars().next_back()?;
        self.size -= ch.len_utf8().into_lossy();
        Some(ch)"""))
ref("pop-rev", (A, POP, """        let ch = self.as_str().chars().rev().next()?;
        let len = self.len() - ch.len_utf8();
        self.size = len.into_lossy();
        Some(ch)"""))
ref("pop-indices", (A, POP, """        let (pos, ch) = self.as_str().char_indices().next_back()?;
        self.size = pos.into_lossy();
        Some(ch)"""))
ref("pop-loop", (A, POP, """        let mut start = self.len().checked_sub(1)?;
        while !self.as_str().is_char_boundary(start) {
            start -= 1;
        }
        let ch = self.as_str()[start..].chars().next();
        self.size = start.into_lossy();
        ch"""))
ref("pop-match", (A, POP, """        match self.as_str().chars().last() {
            None => None,
            Some(ch) => {
                let len = self.len() - ch.len_utf8();
                let _ = self.truncate(len);
                Some(ch)
            }
        }"""))
ref("remove-get", (A, REMOVE, """        is_inside_boundary(idx.saturating_add(1), self.len())?;
        is_char_boundary(self, idx)?;
        let ch = self.as_str()[idx..].chars().next().ok_or(Error::OutOfBounds)?;
"""))
ref("remove-get2", (A, REMOVE, """        if idx >= self.len() {
            return Err(Error::OutOfBounds);
        }
        let ch = self
            .as_str()
            .get(idx..)
            .and_then(|rest| rest.chars().next())
            .ok_or(Error::Utf8)?;
"""))
ref("remove-find", (A, "        let mut end = if idx == self.len() { idx } else { idx + 1 };\n        while !self.as_str().is_char_boundary(end) {\n            end += 1;\n        }\n", "        let end = (idx + 1..=self.len()).find(|i| self.as_str().is_char_boundary(*i)).unwrap_or(idx);\n"))
ref("remove-drain", (A, "        self.replace_range(idx..idx + ch.len_utf8(), \"\")?;\n        Ok(ch)", "        let _ = self.drain(idx..idx + ch.len_utf8())?;\n        Ok(ch)"))
ref("retain-loop", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let mut kept = Self::new();
        for c in self.as_str().chars() {
            if f(c) {
                let _ = kept.try_push(c);
            }
        }
        *self = kept;"""))
ref("retain-from-iter", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let kept: Self = self.as_str().chars().filter(|&c| f(c)).collect();
        *self = kept;"""))
ref("retain-fold", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let kept = self.as_str().chars().fold(Self::new(), |mut s, c| {
            if f(c) {
                let _ = s.try_push(c);
            }
            s
        });
        *self = kept;"""))
ref("truncate-if", (A, "        let len = min(self.len(), size);\n        is_char_boundary(self, len).map(|()| self.size = len.into_lossy())", "        if size >= self.len() {\n            return Ok(());\n        }\n        is_char_boundary(self, size)?;\n        self.size = size.into_lossy();\n        Ok(())"))
ref("truncate-get", (A, "        let len = min(self.len(), size);\n        is_char_boundary(self, len).map(|()| self.size = len.into_lossy())", "        let len = size.min(self.len());\n        let kept = self.as_str().get(..len).ok_or(Utf8)?.len();\n        self.size = kept.into_lossy();\n        Ok(())"))
ref("split-off-str", (A, "        let drained = self.drain(at..)?.0;\n        Ok(drained)", """        is_inside_boundary(at, self.len())?;
        is_char_boundary(self, at)?;
        let tail = Self::from_str_truncate(&self.as_str()[at..]);
        self.truncate(at)?;
        Ok(tail)"""))
ref("drain-str", (A, """        let drain = unsafe {
            let slice = self.as_str().get_unchecked(start..end);
            Self::try_from_str(slice)?
        };""", """        let drain = Self::try_from_str(&self.as_str()[start..end])?;"""))
ref("drain-get", (A, """        let drain = unsafe {
            let slice = self.as_str().get_unchecked(start..end);
            Self::try_from_str(slice)?
        };""", """        let drain = Self::from_str_truncate(self.as_str().get(start..end).ok_or(Error::Utf8)?);"""))
ref("drain-next", (D, "        self.0.remove(0).ok()\n", "        let c = self.0.as_str().chars().next()?;\n        let _ = self.0.replace_range(..c.len_utf8(), \"\");\n        Some(c)\n"))
ref("drain-next-if", (D, "        self.0.remove(0).ok()\n", "        if self.0.is_empty() {\n            return None;\n        }\n        self.0.remove(0).ok()\n"))
ref("drain-size-hint", (D, "        self.0.remove(0).ok()\n    }", "        self.0.remove(0).ok()\n    }\n\n    #[inline]\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.0.as_str().chars().size_hint()\n    }"))
ref("drain-count", (D, "        self.0.remove(0).ok()\n    }", "        self.0.remove(0).ok()\n    }\n\n    #[inline]\n    fn count(self) -> usize {\n        self.0.as_str().chars().count()\n    }\n\n    #[inline]\n    fn last(mut self) -> Option<char> {\n        self.next_back()\n    }"))
ref("insert-direct", (A, "        is_inside_boundary(idx, self.len())?;\n        self.replace_range(idx..idx, string)", "        self.replace_range(idx..idx, string)"))
ref("insert-trunc-flat", (A, """        self.try_insert_str(
            idx,
            truncate_str(string.as_ref(), Self::capacity() - self.len()),
        )?;
        Ok(())""", """        let room = Self::capacity() - self.len();
        let kept = truncate_str(string.as_ref(), room);
        self.replace_range(idx..idx, kept)"""))
# --- traits
ref("eq-bytes", (I, "        self.as_str().eq(other.as_str())\n", "        self.as_bytes() == other.as_bytes()\n"))
ref("eq-ne", (I, "        self.as_str().eq(other.as_str())\n    }", "        self.as_str() == other.as_str()\n    }\n\n    #[inline]\n    fn ne(&self, other: &Self) -> bool {\n        !self.eq(other)\n    }"))
ref("cmp-bytes", (I, "        self.as_str().cmp(other.as_str())\n", "        self.as_bytes().cmp(other.as_bytes())\n"))
ref("cmp-lt", (I, "        Some(self.cmp(other))\n    }", "        Some(self.cmp(other))\n    }\n\n    #[inline]\n    fn lt(&self, other: &Self) -> bool {\n        self.as_str() < other.as_str()\n    }"))
ref("partial-cmp-str", (I, "        Some(self.cmp(other))\n", "        self.as_str().partial_cmp(other.as_str())\n"))
ref("hash-write", (I, "        self.as_str().hash(hasher);", "        let s: &str = self;\n        s.hash(hasher);"))
ref("display-pad", (I, "        Display::fmt(self.as_str(), f)", "        f.pad(self)"))
ref("display-deref", (I, "        Display::fmt(self.as_str(), f)", "        Display::fmt(&**self, f)"))
ref("debug-size", (I, "            .field(\"size\", &self.size)", "            .field(\"size\", &self.len())"))
ref("debug-bind", (I, "        f.debug_struct(\"ArrayString\")\n            .field(\"array\", &self.as_str())\n            .field(\"size\", &self.size)\n            .finish()", "        let text = self.as_str();\n        let mut out = f.debug_struct(\"ArrayString\");\n        let _ = out.field(\"array\", &text);\n        let _ = out.field(\"size\", &self.size);\n        out.finish()"))
ref("extend-loop", (I, "        self.push_str_truncate(Self::from_chars_truncate(iterable))", "        for c in iterable {\n            if self.try_push(c).is_err() {\n                break;\n            }\n        }"))
ref("extend-str-loop", (I, "        self.push_str_truncate(Self::from_iterator_truncate(iterable))", "        for s in iterable {\n            if self.try_push_str(s).is_err() {\n                self.push_str_truncate(s);\n                break;\n            }\n        }"))
ref("extend-copied", (I, "        self.extend(iter.into_iter().cloned());", "        self.extend(iter.into_iter().copied());"))
ref("extend-deref", (I, "        self.extend(iter.into_iter().cloned());", "        self.extend(iter.into_iter().map(|c| *c));"))
ref("as-ref-split", (I, "        unsafe { self.array.as_slice().get_unchecked(..self.len()) }", "        &self.array[..self.len()]"))
ref("as-ref-from-raw", (I, "        unsafe { self.array.as_slice().get_unchecked(..self.len()) }", "        unsafe { core::slice::from_raw_parts(self.array.as_ptr(), self.len()) }"))
ref("as-mut-split", (I, "        let slice = unsafe { self.array.as_mut_slice().get_unchecked_mut(..len) };", "        let (slice, _) = self.array.split_at_mut(len);"))
ref("as-ref-via-bytes", (I, "        debug_assert!(str::from_utf8(self.as_ref()).is_ok());\n        unsafe { str::from_utf8_unchecked(self.as_ref()) }", "        let bytes: &[u8] = self.as_ref();\n        debug_assert!(str::from_utf8(bytes).is_ok());\n        unsafe { str::from_utf8_unchecked(bytes) }"))
ref("add-assign", (I, "        self.push_str_truncate(other);\n        self\n", "        let room = Self::capacity() - self.len();\n        if other.len() <= room {\n            let _ = self.try_push_str(other);\n        } else {\n            self.push_str_truncate(other);\n        }\n        self\n"))
ref("write-match", (I, "        self.try_push_str(slice).map_err(|_| fmt::Error)", "        match self.try_push_str(slice) {\n            Ok(()) => Ok(()),\n            Err(OutOfBounds) => Err(fmt::Error),\n        }"))
ref("write-char", (I, "        self.try_push_str(slice).map_err(|_| fmt::Error)\n    }", "        self.try_push_str(slice).map_err(|_| fmt::Error)\n    }\n\n    #[inline]\n    fn write_char(&mut self, c: char) -> fmt::Result {\n        self.try_push(c).map_err(|_| fmt::Error)\n    }"))
ref("index-inclusive", (I, "        let end = index.end as usize;\n        self.as_str().index(RangeToInclusive { end })", "        let end = usize::from(index.end);\n        &self.as_str()[..=end]"))
ref("index-range-inc", (I, "        let (start, end) = (*index.start() as usize, *index.end() as usize);\n        let range = RangeInclusive::new(start, end);\n        self.as_str().index(range)", "        let (start, end) = index.into_inner();\n        &self.as_str()[start as usize..end as usize + 1]"))
ref("index-from", (I, "        let start = index.start as usize;\n        self.as_str().index(RangeFrom { start })", "        self.as_str().split_at(index.start.into()).1"))
ref("default-lit", (I, "    fn default() -> Self {\n        Self::new()", "    fn default() -> Self {\n        Self { array: [0; N], size: 0 }"))
ref("clone-impl", (A, "#[derive(Copy, Clone)]\n#[cfg_attr(", "#[derive(Copy)]\n#[cfg_attr("), (I, "impl<const N: usize> Default for ArrayString<N>", "impl<const N: usize> Clone for ArrayString<N> {\n    #[inline]\n    fn clone(&self) -> Self {\n        *self\n    }\n}\n\nimpl<const N: usize> Default for ArrayString<N>"))
ref("cache-map", (L, "            Ok(Self(ArrayString::try_from_chars(iter)?))", "            ArrayString::try_from_chars(iter).map(Self)"), (L, "            Ok(Self(self.0.split_off(at)?))", "            self.0.split_off(at).map(Self)"))
ref("cache-into", (L, "            Self(ArrayString::<CACHE_STRING_SIZE>::from(s))", "            ArrayString::<CACHE_STRING_SIZE>::from(s).into()"))
ref("cache-eq-str", (L, "            self.0.eq(&other.0)\n", "            self.as_str() == other.as_str()\n"))
ref("cache-extend", (L, "        fn extend<I: IntoIterator<Item = char>>(&mut self, iterable: I) {\n            self.0.extend(iterable);", "        fn extend<I: IntoIterator<Item = char>>(&mut self, iterable: I) {\n            Extend::extend(&mut **self, iterable)"))
ref("cache-deref", (L, "            Display::fmt(&self.0, f)", "            Display::fmt(self.as_str(), f)"))
ref("error-eq", (E, """        use self::Error::*;
        matches!(
            (self, other),
            (Utf8, Utf8) | (Utf16, Utf16) | (OutOfBounds, OutOfBounds)
        )""", """        core::mem::discriminant(self) == core::mem::discriminant(other)"""))
ref("error-derive", (E, "#[derive(Copy, Clone)]\npub enum Error", "#[derive(Copy, Clone, PartialEq, Eq)]\npub enum Error"), (E, """impl PartialEq for Error {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        use self::Error::*;
        matches!(
            (self, other),
            (Utf8, Utf8) | (Utf16, Utf16) | (OutOfBounds, OutOfBounds)
        )
    }
}

impl Eq for Error {}
""", ""))
ref("error-write-str", (E, "            Error::Utf8 => write!(f, \"Utf8\"),\n            Error::Utf16 => write!(f, \"Utf16\"),\n            Error::OutOfBounds => write!(f, \"OutOfBounds\"),", "            Error::Utf8 => f.write_str(\"Utf8\"),\n            Error::Utf16 => f.write_str(\"Utf16\"),\n            Error::OutOfBounds => f.write_str(\"OutOfBounds\"),"))
ref("error-name", (E, "        match self {\n            Error::Utf8 => write!(f, \"Utf8\"),\n            Error::Utf16 => write!(f, \"Utf16\"),\n            Error::OutOfBounds => write!(f, \"OutOfBounds\"),\n        }", "        let name = match self {\n            Error::Utf8 => \"Utf8\",\n            Error::Utf16 => \"Utf16\",\n            Error::OutOfBounds => \"OutOfBounds\",\n        };\n        write!(f, \"{}\", name)"))
ref("error-pad", (E, "impl Display for Utf8 {\n    #[inline]\n    fn fmt(&self, f: &mut Formatter) -> fmt::Result {\n        write!(f, \"Utf8\")", "impl Display for Utf8 {\n    #[inline]\n    fn fmt(&self, f: &mut Formatter) -> fmt::Result {\n        Debug::fmt(self, f)"))
ref("error-hash", (E, """        match self {
            Error::Utf8 => "Utf8".hash(hasher),
            Error::Utf16 => "Utf16".hash(hasher),
            Error::OutOfBounds => "OutOfBounds".hash(hasher),
        }""", """        let name = match self {
            Error::Utf8 => "Utf8",
            Error::Utf16 => "Utf16",
            Error::OutOfBounds => "OutOfBounds",
        };
        name.hash(hasher);"""))
ref("serde-collect", (G, "            Serialize::serialize(self.as_str(), ser)", "            ser.serialize_str(self)"))
ref("serde-borrowed", (G, "        #[inline]\n        fn visit_bytes", "        #[inline]\n        fn visit_borrowed_str<E: de::Error>(self, s: &'a str) -> Result<Self::Value, E> {\n            self.visit_str(s)\n        }\n\n        #[inline]\n        fn visit_bytes"))
ref("serde-cache-map", (G, "            Ok(CacheString(Deserialize::deserialize(des)?))", "            Deserialize::deserialize(des).map(CacheString)"))
ref("diesel-map", (G, "            Ok(Self(FromSql::from_sql(bytes)?))", "            <ArrayString<63> as FromSql<ST, DB>>::from_sql(bytes).map(Self)"))
ref("diesel-str", (G, "            Ok(Self::from_str_truncate(unsafe { &*ptr }))", "            let text: &str = unsafe { &*ptr };\n            Ok(text.into())"))

# --- second batch
FULL_TRIM = TRIM + "        let _ = self.replace_range(end.., \"\");\n        let _ = self.replace_range(..start, \"\");"
ref("trim-take-while", (A, TRIM, """        let start = self
            .as_str()
            .char_indices()
            .find(|(_, c)| !c.is_whitespace())
            .map_or(self.len(), |(pos, _)| pos);
        let end = self
            .as_str()
            .char_indices()
            .rev()
            .find(|(_, c)| !c.is_whitespace())
            .map_or(start, |(pos, c)| pos + c.len_utf8());
"""))
ref("trim-sum", (A, TRIM, """        let start: usize = self
            .as_str()
            .chars()
            .take_while(|c| c.is_whitespace())
            .map(char::len_utf8)
            .sum();
        let end = core::cmp::max(start, self.as_str().trim_end().len());
"""))
ref("trim-while-let-rev", (A, TRIM, """        let mut start = self.len();
        for (pos, char) in self.as_str().char_indices() {
            if !char.is_whitespace() {
                start = pos;
                break;
            }
        }
        let mut end = self.len();
        let mut rest = self.as_str().char_indices();
        while let Some((pos, char)) = rest.next_back() {
            if pos < start || !char.is_whitespace() {
                break;
            }
            end = pos;
        }
"""))
ref("trim-break-early", (A, "            if pos < start {\n                self.size = 0;\n                return;\n            }\n", "            if pos <= start {\n                break;\n            }\n"))
ref("trim-pop-loop", (A, FULL_TRIM, """        while self.as_str().chars().next_back().map_or(false, char::is_whitespace) {
            let _ = self.pop();
        }
        let start = self.len() - self.as_str().trim_start().len();
        let _ = self.replace_range(..start, "");"""))
ref("trim-remove-loop", (A, FULL_TRIM, """        let end = self.as_str().trim_end().len();
        let _ = self.truncate(end);
        while self.as_str().chars().next().map_or(false, char::is_whitespace) {
            let _ = self.remove(0);
        }"""))
ref("trim-empty-first", (A, TRIM, "        if self.as_str().is_empty() {\n            return;\n        }\n" + TRIM))
ref("trim-index-loop", (A, TRIM, """        let mut start = 0;
        while start < self.len() {
            match self.as_str()[start..].chars().next() {
                Some(c) if c.is_whitespace() => start += c.len_utf8(),
                _ => break,
            }
        }
        let mut end = self.len();
        while end > start {
            match self.as_str()[start..end].chars().next_back() {
                Some(c) if c.is_whitespace() => end -= c.len_utf8(),
                _ => break,
            }
        }
"""))
ref("truncate-recursive", (U, TRUNC, """    if slice.is_char_boundary(size) {
        return unsafe { slice.get_unchecked(..size) };
    }
    if size >= slice.len() {
        return slice;
    }
    truncate_str(slice, size - 1)
"""), (U, "pub(crate) fn truncate_str(slice: &str, mut size: usize)", "pub(crate) fn truncate_str(slice: &str, size: usize)"))
ref("truncate-min-while", (U, TRUNC, """    size = core::cmp::min(size, slice.len());
    while !slice.is_char_boundary(size) {
        size -= 1;
    }
    // Safety: size is a char boundary
    unsafe { slice.get_unchecked(..size) }
"""))
ref("truncate-split-at", (U, TRUNC, """    let mut end = slice.len().min(size);
    loop {
        if slice.is_char_boundary(end) {
            let (kept, _) = slice.split_at(end);
            return kept;
        }
        end -= 1;
    }
"""), (U, "pub(crate) fn truncate_str(slice: &str, mut size: usize)", "pub(crate) fn truncate_str(slice: &str, size: usize)"))
ref("truncate-byte-mask", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    while size > 0 && slice.as_bytes()[size] & 0xC0 == 0x80 {
        size -= 1;
    }
    &slice[..size]
"""))
ref("truncate-sum", (U, TRUNC, """    let mut end = 0;
    for c in slice.chars() {
        if end + c.len_utf8() > size {
            break;
        }
        end += c.len_utf8();
    }
    &slice[..end]
"""), (U, "pub(crate) fn truncate_str(slice: &str, mut size: usize)", "pub(crate) fn truncate_str(slice: &str, size: usize)"))
ref("truncate-last", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let end = slice.char_indices().map(|(pos, _)| pos).take_while(|pos| *pos <= size).last().unwrap_or(0);
    &slice[..end]
"""), (U, "pub(crate) fn truncate_str(slice: &str, mut size: usize)", "pub(crate) fn truncate_str(slice: &str, size: usize)"))
ref("truncate-nested-if", (U, TRUNC, """    if size < slice.len() {
        for _ in 0..3 {
            if slice.is_char_boundary(size) {
                break;
            }
            size -= 1;
        }
        return unsafe { slice.get_unchecked(..size) };
    }
    slice
"""))
ref("inside-order", (U, "    (size <= limit).then_some(()).ok_or(OutOfBounds)\n", "    if size > limit {\n        Err(OutOfBounds)\n    } else {\n        Ok(())\n    }\n"))
ref("inside-cmp", (U, "    (size <= limit).then_some(()).ok_or(OutOfBounds)\n", "    match size.cmp(&limit) {\n        core::cmp::Ordering::Greater => Err(OutOfBounds),\n        _ => Ok(()),\n    }\n"))
ref("chars-while-let", (A, """        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
""", """        let mut iter = iter.into_iter();
        while let Some(c) = iter.next() {
            if let Err(OutOfBounds) = out.try_push(c) {
                return out;
            }
        }
"""))
ref("chars-all", (A, """        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
""", """        let _ = iter.into_iter().all(|c| out.try_push(c).is_ok());
"""))
ref("chars-try-for-each", (A, """        for c in iter {
            out.try_push(c)?;
        }
        Ok(out)
""", """        iter.into_iter().try_for_each(|c| out.try_push(c))?;
        Ok(out)
"""))
ref("chars-try-fold", (A, """        let mut out = Self::new();
        for c in iter {
            out.try_push(c)?;
        }
        Ok(out)
""", """        iter.into_iter().try_fold(Self::new(), |mut out, c| {
            out.try_push(c)?;
            Ok(out)
        })
"""))
ref("utf16-match-loop", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            out.try_push(c?)?;
        }
        Ok(out)
""", """        let mut units = decode_utf16(slice.as_ref().iter().copied());
        loop {
            match units.next() {
                Some(Ok(c)) => out.try_push(c)?,
                Some(Err(_)) => return Err(Error::Utf16),
                None => return Ok(out),
            }
        }
"""))
ref("utf16-try-for-each", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            out.try_push(c?)?;
        }
        Ok(out)
""", """        decode_utf16(slice.as_ref().iter().cloned()).try_for_each(|c| -> Result<(), Error> {
            out.try_push(c?)?;
            Ok(())
        })?;
        Ok(out)
"""))
ref("utf16-lossy-match", (A, "            if out.try_push(c.unwrap_or(REPLACEMENT_CHARACTER)).is_err() {", """            let c = match c {
                Ok(c) => c,
                Err(_) => REPLACEMENT_CHARACTER,
            };
            if out.try_push(c).is_err() {"""))
ref("utf16-trunc-question", (A, """            if out.try_push(c?).is_err() {
                break;
            }
        }
        Ok(out)
""", """            let c = c?;
            if out.try_push(c).is_err() {
                return Ok(out);
            }
        }
        Ok(out)
"""))
ref("iter-trunc-room", (A, """            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }
""", """            let s = s.as_ref();
            let fits = s.len() <= Self::capacity() - out.len();
            out.push_str_truncate(s);
            if !fits {
                break;
            }
"""))
ref("iter-trunc-always", (A, """            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }
""", """            match out.try_push_str(s.as_ref()) {
                Ok(()) => continue,
                Err(_) => {
                    out.push_str_truncate(s.as_ref());
                    return out;
                }
            }
"""))
ref("push-try-insert", (A, """        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        match self.try_insert_str(len, string) {
            Ok(()) => Ok(()),
            Err(_) => Err(OutOfBounds),
        }
"""))
ref("push-range-from", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        let len = self.len();
        self.replace_range(len.., string)
            .map_err(|_| OutOfBounds)
"""))
ref("push-check-first", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        let string = string.as_ref();
        let len = self.len();
        if string.len() > Self::capacity() - len {
            return Err(OutOfBounds);
        }
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
"""))
ref("push-copy-from-slice", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        let bytes = string.as_ref().as_bytes();
        let len = self.len();
        let end = len + bytes.len();
        is_inside_boundary(end, Self::capacity())?;
        self.array[len..end].copy_from_slice(bytes);
        self.size = end.into_lossy();
        Ok(())
"""))
ref("push-bytes-loop", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        let bytes = string.as_ref().as_bytes();
        let len = self.len();
        is_inside_boundary(len + bytes.len(), Self::capacity())?;
        for (slot, byte) in self.array[len..].iter_mut().zip(bytes) {
            *slot = *byte;
        }
        self.size = (len + bytes.len()).into_lossy();
        Ok(())
"""))
ref("push-room", (A, """        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));
""", """        let room = Self::capacity() - self.len();
        if room == 0 {
            return;
        }
        let part = truncate_str(string.as_ref(), room);
        let pushed = self.try_push_str(part);
        debug_assert!(pushed.is_ok());
"""))
ref("push-char-str", (A, """        let mut buf = [0; 4];
        self.try_push_str(ch.encode_utf8(&mut buf))
""", """        let mut buf = [0; 4];
        let encoded: &str = ch.encode_utf8(&mut buf);
        let len = self.len();
        is_inside_boundary(len + encoded.len(), Self::capacity())?;
        self.try_push_str(encoded)
"""))
ref("pop-let-else", (A, """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })
""", """        let ch = self.as_str().chars().rev().next()?;
        let len = self.len() - ch.len_utf8();
        self.size = len.into_lossy();
        Some(ch)
"""))
ref("pop-boundary-loop", (A, """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })
""", """        let mut start = self.len().checked_sub(1)?;
        while !self.as_str().is_char_boundary(start) {
            start -= 1;
        }
        let ch = self.as_str()[start..].chars().next();
        self.size = start.into_lossy();
        ch
"""))
ref("pop-split-off", (A, """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })
""", """        let (pos, ch) = self.as_str().char_indices().next_back()?;
        self.truncate(pos).ok()?;
        Some(ch)
"""))
ref("remove-chars-next", (A, REMOVE, """        is_inside_boundary(idx.saturating_add(1), self.len())?;
        is_char_boundary(self, idx)?;
        let ch = self.as_str()[idx..].chars().next().ok_or(Error::Utf8)?;
"""))
ref("remove-loop-break", (A, """        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while !self.as_str().is_char_boundary(end) {
            end += 1;
        }
""", """        let mut end = idx + 1;
        loop {
            if self.as_str().is_char_boundary(end) {
                break;
            }
            end += 1;
        }
"""))
ref("remove-for", (A, """        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while !self.as_str().is_char_boundary(end) {
            end += 1;
        }
""", """        let mut end = self.len();
        for i in idx + 1..self.len() {
            if self.as_str().is_char_boundary(i) {
                end = i;
                break;
            }
        }
"""))
ref("remove-end-known", (A, "        self.replace_range(idx..idx + ch.len_utf8(), \"\")?;\n        Ok(ch)", "        self.replace_range(idx..end, \"\")?;\n        Ok(ch)"))
ref("retain-push-loop", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));\n", """        let mut kept = Self::new();
        for c in self.as_str().chars() {
            if f(c) {
                let _ = kept.try_push(c);
            }
        }
        *self = kept;
"""))
ref("retain-copy", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));\n", """        let before = *self;
        let kept = before.as_str().chars().filter(|c| f(*c)).collect::<Self>();
        *self = kept;
"""))
ref("retain-in-place", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));\n", """        let mut idx = 0;
        let mut out = Self::new();
        while let Some(c) = self.as_str()[idx..].chars().next() {
            idx += c.len_utf8();
            if !f(c) {
                continue;
            }
            let _ = out.try_push(c);
        }
        *self = out;
"""))
ref("split-off-direct", (A, """        let drained = self.drain(at..)?.0;
        Ok(drained)
""", """        is_inside_boundary(at, self.len())?;
        is_char_boundary(self, at)?;
        let tail = Self::from_str_truncate(&self.as_str()[at..]);
        self.size = at.into_lossy();
        Ok(tail)
"""))
ref("drain-tuple", (A, DBOUNDS, """        let (start, end) = (
            match range.start_bound() {
                Bound::Included(&t) => t,
                Bound::Excluded(&t) => t.saturating_add(1),
                Bound::Unbounded => 0,
            },
            match range.end_bound() {
                Bound::Included(&t) => t.saturating_add(1),
                Bound::Excluded(&t) => t,
                Bound::Unbounded => self.len(),
            },
        );
"""))
ref("drain-trunc-str", (A, """            let slice = self.as_str().get_unchecked(start..end);
            Self::try_from_str(slice)?
""", """            let slice = self.as_str().get_unchecked(start..end);
            Self::from_str_truncate(slice)
"""))
ref("insert-check-order", (A, """        is_inside_boundary(idx, self.len())?;
        self.replace_range(idx..idx, string)
""", """        let len = self.len();
        if idx > len {
            return Err(Error::OutOfBounds);
        }
        let result = self.replace_range(idx..idx, string);
        result
"""))
ref("replace-tail-first", (A, """            if cut_end != str_end {
                core::ptr::copy(cut_end, str_end, tail);
            }
            if !str.is_empty() {
                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());
            }
""", """            if tail != 0 && cut_end != str_end {
                cut_end.copy_to(str_end, tail);
            }
            cut_start.copy_from_nonoverlapping(str.as_ptr(), str.len());
"""))
ref("replace-diff", (A, """        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
""", """        let removed = end - start;
        is_inside_boundary(self.len() - removed + str.len(), Self::capacity())?;
"""))
ref("replace-room2", (A, """        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
""", """        let room = Self::capacity() - (self.len() - (end - start));
        is_inside_boundary(str.len(), room)?;
"""))
ref("replace-if-checks", (A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(str.len(), Self::capacity())?;
""", """        if start > end || end > self.len() || str.len() > Self::capacity() {
            return Err(Error::OutOfBounds);
        }
"""))
ref("extend-collect", (I, "        self.push_str_truncate(Self::from_chars_truncate(iterable))", "        let text: Self = iterable.into_iter().collect();\n        self.push_str_truncate(text.as_str());"))
ref("extend-for-each", (I, "        self.push_str_truncate(Self::from_chars_truncate(iterable))", """        for c in iterable {
            if self.try_push(c).is_err() {
                break;
            }
        }"""))
ref("add-clone", (I, """    fn add(mut self, other: &str) -> Self::Output {
        self.push_str_truncate(other);
        self
""", """    fn add(self, other: &str) -> Self::Output {
        let mut out = self;
        out.push_str_truncate(other);
        out
"""))
ref("write-err", (I, "        self.try_push_str(slice).map_err(|_| fmt::Error)", "        self.try_push_str(slice).or(Err(fmt::Error))"))
ref("eq-len-bytes", (I, "        self.as_str().eq(other.as_str())", "        self.len() == other.len() && self.as_str().as_bytes() == other.as_str().as_bytes()"))
ref("cmp-partial", (I, "        Some(self.cmp(other))", "        self.as_str().partial_cmp(other.as_str())"))
ref("display-write", (I, "        Display::fmt(self.as_str(), f)", "        f.pad(self.as_str())"))
ref("index-casts", (I, "        let (start, end) = (index.start as usize, index.end as usize);\n        let range = Range { start, end };\n        self.as_mut_str().index_mut(range)", "        &mut self.as_mut_str()[usize::from(index.start)..usize::from(index.end)]"))
ref("as-ref-range", (I, "        unsafe { self.array.as_slice().get_unchecked(..self.len()) }", "        &self.array[..self.len()]"))
ref("drain-pop-front", (D, "        self.0.remove(0).ok()", "        match self.0.remove(0) {\n            Ok(c) => Some(c),\n            Err(_) => None,\n        }"))
ref("drain-eq-inner", (D, "        self.as_str().eq(other.as_str())", "        self.0 == other.0"))
ref("serde-visit", (G, """            match str::from_utf8(bytes) {
                Ok(s) => Ok(ArrayString::from_str_truncate(s)),
                Err(_) => Err(E::invalid_value(Unexpected::Bytes(bytes), &self)),
            }
""", """            let s = str::from_utf8(bytes)
                .map_err(|_| E::invalid_value(Unexpected::Bytes(bytes), &self))?;
            self.visit_str(s)
"""))
# --- third batch
REPL = 'let _ = self.replace_range(end.., "");\n        let _ = self.replace_range(..start, "");'
ref("b3-range-helper-method", (A, BOUNDS, "        let (start, end) = self.resolve(&r);\n"), (A, "    /// Removes all contents, ", "    /// Removes all contents, ") if False else (A, "pub(crate) mod sealed {", """impl<const N: usize> ArrayString<N>
where
    Self: ValidCapacity,
{
    fn resolve(&self, r: &impl RangeBounds<usize>) -> (usize, usize) {
        let lower = match r.start_bound() {
            Bound::Included(&t) => t,
            Bound::Excluded(&t) => t.saturating_add(1),
            Bound::Unbounded => 0,
        };
        let upper = match r.end_bound() {
            Bound::Included(&t) => t.saturating_add(1),
            Bound::Excluded(&t) => t,
            Bound::Unbounded => self.len(),
        };
        (lower, upper)
    }
}

pub(crate) mod sealed {"""))
ref("b3-range-checks-helper", (A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(str.len(), Self::capacity())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
""", """        self.check_range(start, end, str.len())?;
"""), (A, "pub(crate) mod sealed {", """impl<const N: usize> ArrayString<N>
where
    Self: ValidCapacity,
{
    fn check_range(&self, start: usize, end: usize, added: usize) -> Result<(), Error> {
        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(added, Self::capacity())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
        Ok(())
    }
}

pub(crate) mod sealed {"""))
ref("b3-shift-helper", (A, """            if cut_end != str_end {
                core::ptr::copy(cut_end, str_end, tail);
            }
""", """            Self::shift(cut_end, str_end, tail);
"""), (A, "pub(crate) mod sealed {", """impl<const N: usize> ArrayString<N>
where
    Self: ValidCapacity,
{
    #[inline]
    unsafe fn shift(from: *mut u8, to: *mut u8, count: usize) {
        if from == to || count == 0 {
            return;
        }
        core::ptr::copy(from, to, count);
    }
}

pub(crate) mod sealed {"""))
ref("b3-shift-loops", (A, MOVE, """        let grown = start + str.len();
        if grown > end {
            let mut i = tail;
            while i > 0 {
                i -= 1;
                self.array[grown + i] = self.array[end + i];
            }
        } else if grown < end {
            for i in 0..tail {
                self.array[grown + i] = self.array[end + i];
            }
        }
        self.array[start..grown].copy_from_slice(str);
"""))
ref("b3-write-loop-ptr", (A, "                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());", """                for i in 0..str.len() {
                    *cut_start.add(i) = *str.get_unchecked(i);
                }"""))
ref("b3-write-loop-write", (A, """            if !str.is_empty() {
                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());
            }
""", """            for (offset, byte) in str.iter().enumerate() {
                cut_start.add(offset).write(*byte);
            }
"""))
ref("b3-split-at-mut", (A, MOVE, """        self.array.copy_within(end..end + tail, start + str.len());
        let (_, rest) = self.array.split_at_mut(start);
        let (target, _) = rest.split_at_mut(str.len());
        target.copy_from_slice(str);
"""))
ref("b3-trim-end-first", (A, TRIM, """        let mut end = 0;
        for (pos, char) in self.as_str().char_indices().rev() {
            if !char.is_whitespace() {
                end = pos + char.len_utf8();
                break;
            }
        }
        let mut start = end;
        for (pos, char) in self.as_str().char_indices() {
            if !char.is_whitespace() {
                start = pos;
                break;
            }
        }
"""))
ref("b3-trim-helpers", (A, TRIM, """        let start = leading(self.as_str());
        if start == self.len() {
            self.size = 0;
            return;
        }
        let end = trailing(self.as_str());
"""), (A, "pub(crate) mod sealed {", """fn leading(s: &str) -> usize {
    for (pos, c) in s.char_indices() {
        if !c.is_whitespace() {
            return pos;
        }
    }
    s.len()
}
fn trailing(s: &str) -> usize {
    let mut end = s.len();
    for (pos, c) in s.char_indices().rev() {
        if !c.is_whitespace() {
            break;
        }
        end = pos;
    }
    end
}

pub(crate) mod sealed {"""))
ref("b3-trim-find-map", (A, TRIM, """        let text = self.as_str();
        let start = text
            .char_indices()
            .find(|(_, c)| !c.is_whitespace())
            .map_or(text.len(), |(pos, _)| pos);
        let end = text
            .char_indices()
            .rev()
            .find(|(_, c)| !c.is_whitespace())
            .map_or(start, |(pos, c)| pos + c.len_utf8());
"""))
ref("b3-remove-str-index", (A, REMOVE, """        is_inside_boundary(idx.saturating_add(1), self.len())?;
        is_char_boundary(self, idx)?;
        let ch = self.as_str()[idx..].chars().next().ok_or(Error::Utf8)?;
"""))
ref("b3-remove-next-boundary", (A, """        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while !self.as_str().is_char_boundary(end) {
            end += 1;
        }
""", """        let end = self.next_boundary(idx);
"""), (A, "pub(crate) mod sealed {", """impl<const N: usize> ArrayString<N>
where
    Self: ValidCapacity,
{
    fn next_boundary(&self, idx: usize) -> usize {
        let text = self.as_str();
        let mut end = idx + 1;
        loop {
            if text.is_char_boundary(end) {
                return end;
            }
            end += 1;
        }
    }
}

pub(crate) mod sealed {"""))
ref("b3-truncate-for-back", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    for back in 0..4 {
        if slice.is_char_boundary(size - back) {
            // Safety: checked above
            return unsafe { slice.get_unchecked(..size - back) };
        }
    }
    ""
"""))
ref("b3-truncate-helper", (U, TRUNC, """    let end = floor(slice, size);
    // Safety: `end` is a boundary
    unsafe { slice.get_unchecked(..end) }
"""), (U, "impl IntoLossy<u8> for usize", """fn floor(slice: &str, size: usize) -> usize {
    if size >= slice.len() {
        return slice.len();
    }
    let mut end = size;
    while !slice.is_char_boundary(end) {
        end -= 1;
    }
    end
}

impl IntoLossy<u8> for usize"""))
ref("b3-iter-try-for-each", (A, """        for s in iter {
            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }
        }
        out
""", """        let _ = iter.into_iter().try_for_each(|s| {
            out.try_push_str(s.as_ref()).map_err(|_| out.push_str_truncate(s))
        });
        out
"""))
ref("b3-insert-trunc-locals", (A, """        self.try_insert_str(
            idx,
            truncate_str(string.as_ref(), Self::capacity() - self.len()),
        )?;
        Ok(())
""", """        let room = Self::capacity() - self.len();
        let piece = truncate_str(string.as_ref(), room);
        self.try_insert_str(idx, piece)
"""))
ref("b3-try-insert-direct", (A, "        self.try_insert_str(idx, ch.encode_utf8(&mut buf))", "        let piece: &str = ch.encode_utf8(&mut buf);\n        is_inside_boundary(idx, self.len())?;\n        self.replace_range(idx..idx, piece)"))
ref("b3-index-get-expect", (I, "        let (start, end) = (index.start as usize, index.end as usize);\n        self.as_str().index(Range { start, end })", "        let (start, end) = (index.start as usize, index.end as usize);\n        self.as_str().get(start..end).expect(\"range outside of the string\")"))
ref("b3-clear-new", (A, """        trace!("Clear");
        self.size = 0;""", """        trace!("Clear");
        *self = Self::new();"""))
ref("b3-clear-truncate", (A, """        trace!("Clear");
        self.size = 0;""", """        trace!("Clear");
        let _ = self.truncate(0);"""))
ref("b3-from-str-chars", (I, "        Self::from_str_truncate(s)\n", "        Self::from_chars_truncate(s.chars())\n"))
ref("b3-eq-iter", (I, "        self.as_str().eq(other.as_str())", "        self.as_str().bytes().eq(other.as_str().bytes())"))
ref("b3-eq-cmp", (I, "        self.as_str().eq(other.as_str())", "        self.cmp(other) == Ordering::Equal"))
ref("b3-drain-next-let", (D, "        self.0.remove(0).ok()", """        let ch = self.0.as_str().chars().next()?;
        let _ = self.0.replace_range(..ch.len_utf8(), "");
        Some(ch)"""))
ref("b3-split-off-map", (A, "        let drained = self.drain(at..)?.0;\n        Ok(drained)", "        self.drain(at..).map(|drained| drained.0)"))
ref("b3-drain-split", (A, """        let drain = unsafe {
            let slice = self.as_str().get_unchecked(start..end);
            Self::try_from_str(slice)?
        };
        self.replace_range(start..end, "")?;
        Ok(Drain(drain))
""", """        let mut drain = Self::new();
        drain.try_push_str(&self.as_str()[start..end])?;
        self.replace_range(start..end, "")?;
        Ok(Drain(drain))
"""))
ref("b3-retain-rest", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let mut out = Self::new();
        let mut rest = self.as_str();
        while let Some(c) = rest.chars().next() {
            if f(c) && out.try_push(c).is_err() {
                break;
            }
            rest = &rest[c.len_utf8()..];
        }
        *self = out;"""))
ref("b3-retain-bytes", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let mut kept = Self::new();
        let mut pos = 0;
        while pos < self.len() {
            let c = match self.as_str()[pos..].chars().next() {
                Some(c) => c,
                None => break,
            };
            pos += c.len_utf8();
            if f(c) {
                let _ = kept.try_push(c);
            }
        }
        *self = kept;"""))
ref("b3-pop-last-index", (A, """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })
""", """        let mut start = self.len().checked_sub(1)?;
        while !self.as_str().is_char_boundary(start) {
            start -= 1;
        }
        let ch = self.as_str()[start..].chars().next()?;
        self.size = start.into_lossy();
        Some(ch)
"""))
ref("b3-try-push-str-room", (A, """        let len = self.len();
        self.replace_range(len..len, string)
            .map_err(|_| OutOfBounds)
""", """        let text = string.as_ref();
        let len = self.len();
        if text.len() > Self::capacity() - len {
            return Err(OutOfBounds);
        }
        self.replace_range(len.., text).map_err(|_| OutOfBounds)
"""))
ref("b3-utf16-collect", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            out.try_push(c?)?;
        }
        Ok(out)
""", """        let mut units = decode_utf16(slice.as_ref().iter().copied());
        loop {
            match units.next() {
                Some(Ok(c)) => out.try_push(c)?,
                Some(Err(e)) => return Err(e.into()),
                None => break,
            }
        }
        Ok(out)
"""))
ref("b3-len-from", (A, "        self.size as usize\n", "        usize::from(self.size)\n"))
ref("b3-as-ref-checked", (I, """        debug_assert!(str::from_utf8(self.as_ref()).is_ok());
        unsafe { str::from_utf8_unchecked(self.as_ref()) }
""", """        let bytes: &[u8] = self.as_ref();
        str::from_utf8(bytes).unwrap_or_default()
"""))
ref("b3-deserialize-owned", (G, """        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
            Ok(ArrayString::from_str_truncate(s))
        }
""", """        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
            let mut value = ArrayString::new();
            value.push_str_truncate(s);
            Ok(value)
        }
"""))

# ------------------------------------------------------------------------------------------------ fourth batch
ref("b4-eq-chars", (I, "        self.as_str().eq(other.as_str())", "        self.as_str().chars().eq(other.as_str().chars())"))
ref("b4-cmp-chars", (I, "        self.as_str().cmp(other.as_str())", "        self.as_str().chars().cmp(other.as_str().chars())"))
ref("b4-cmp-match", (I, "        self.as_str().cmp(other.as_str())", """        match self.as_str().as_bytes().cmp(other.as_str().as_bytes()) {
            Ordering::Less => Ordering::Less,
            Ordering::Equal => Ordering::Equal,
            Ordering::Greater => Ordering::Greater,
        }"""))
ref("b4-drain-cmp-bytes", (D, "        self.as_str().cmp(other.as_str())", "        self.as_str().bytes().cmp(other.as_str().bytes())"))
ref("b4-trim-one-iter", (A, TRIM, """        let mut chars = self.as_str().char_indices();
        let mut start = self.len();
        let mut end = self.len();
        while let Some((pos, ch)) = chars.next() {
            if !ch.is_whitespace() {
                start = pos;
                end = pos + ch.len_utf8();
                break;
            }
        }
        while let Some((pos, ch)) = chars.next_back() {
            if !ch.is_whitespace() {
                end = pos + ch.len_utf8();
                break;
            }
        }
        if start == self.len() {
            self.size = 0;
            return;
        }
"""))
ref("b4-trim-matches", (A, TRIM, """        let end = self.as_str().trim_end_matches(char::is_whitespace).len();
        if end == 0 {
            self.size = 0;
            return;
        }
        let start = self.len() - self.as_str().trim_start_matches(char::is_whitespace).len();
"""))
ref("b4-trim-drain", (A, REPL, "let _ = self.drain(end..);\n        let _ = self.drain(..start);"))
ref("b4-trim-truncate", (A, REPL, "let _ = self.truncate(end);\n        let _ = self.replace_range(..start, \"\");"))
ref("b4-trim-new", (A, REPL, """if start > 0 || end < self.len() {
            let mut kept = Self::new();
            kept.push_str_truncate(&self.as_str()[start..end]);
            *self = kept;
        }"""))
ref("b4-trim-option", (A, TRIM, """        let mut found = None;
        for (pos, ch) in self.as_str().char_indices() {
            if !ch.is_whitespace() {
                found = Some(pos);
                break;
            }
        }
        let Some(start) = found else {
            self.size = 0;
            return;
        };
        let mut end = self.len();
        for (pos, ch) in self.as_str().char_indices().rev() {
            if !ch.is_whitespace() {
                break;
            }
            end = pos;
        }
"""))
ref("b4-trim-flag", (A, TRIM, """        let mut start = 0;
        let mut blank = true;
        for ch in self.as_str().chars() {
            if !ch.is_whitespace() {
                blank = false;
                break;
            }
            start += ch.len_utf8();
        }
        if blank {
            self.size = 0;
            return;
        }
        let mut end = self.len();
        for ch in self.as_str().chars().rev() {
            if !ch.is_whitespace() {
                break;
            }
            end -= ch.len_utf8();
        }
"""))
ref("b4-retain-loop-continue", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let mut kept = Self::new();
        for ch in self.as_str().chars() {
            if !f(ch) {
                continue;
            }
            if kept.try_push(ch).is_err() {
                break;
            }
        }
        *self = kept;"""))
ref("b4-retain-filter-map", (A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let kept = Self::from_chars_truncate(
            self.as_str().chars().filter_map(|c| if f(c) { Some(c) } else { None }),
        );
        *self = kept;"""))
ref("b4-pop-truncate", (A, """        self.as_str().chars().last().map(|ch| {
            self.size -= ch.len_utf8().into_lossy();
            ch
        })""", """        let ch = self.as_str().chars().next_back()?;
        let rest = self.len() - ch.len_utf8();
        let _ = self.truncate(rest);
        Some(ch)"""))
ref("b4-truncate-less", (A, """        let len = min(self.len(), size);
        is_char_boundary(self, len).map(|()| self.size = len.into_lossy())""", """        if size >= self.len() {
            return Ok(());
        }
        is_char_boundary(self, size)?;
        self.size = size.into_lossy();
        Ok(())"""))
ref("b4-utf16-while", (A, """        for c in decode_utf16(slice.as_ref().iter().cloned()) {
            out.try_push(c?)?;
        }""", """        let mut units = decode_utf16(slice.as_ref().iter().cloned());
        while let Some(next) = units.next() {
            let ch = match next {
                Ok(ch) => ch,
                Err(_) => return Err(Error::Utf16),
            };
            if out.try_push(ch).is_err() {
                return Err(Error::OutOfBounds);
            }
        }"""))
ref("b4-end-first", (A, BOUNDS, """        let end = match r.end_bound() {
            Bound::Unbounded => self.len(),
            Bound::Excluded(t) => *t,
            Bound::Included(t) => t.saturating_add(1),
        };
        let start = match r.start_bound() {
            Bound::Unbounded => 0,
            Bound::Excluded(t) => t.saturating_add(1),
            Bound::Included(t) => *t,
        };
"""))
ref("b4-set-len", (A, "        self.size = size.into_lossy();", "        self.set_len(size);"), (A, "    #[inline]\n    pub const fn new()", """    fn set_len(&mut self, len: usize) {
        debug_assert!(len <= Self::capacity());
        self.size = len.into_lossy();
    }

    #[inline]
    pub const fn new()"""))
ref("b4-move-closure", (A, "        let ptr = self.array.as_mut_ptr();", """        let shift = |from: *mut u8, to: *mut u8, n: usize| {
            // Safety: upheld by the caller below
            unsafe { core::ptr::copy(from, to, n) }
        };
        let ptr = self.array.as_mut_ptr();"""), (A, "                core::ptr::copy(cut_end, str_end, tail);", "                shift(cut_end, str_end, tail);"))
ref("b4-copy-to", (A, "                core::ptr::copy(cut_end, str_end, tail);", "                cut_end.copy_to(str_end, tail);"), (A, "                core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());", "                str.as_ptr().copy_to_nonoverlapping(cut_start, str.len());"))
ref("b4-push-trunc-let", (A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", """        let room = Self::capacity() - self.len();
        let fitting = truncate_str(string.as_ref(), room);
        if fitting.is_empty() {
            return;
        }
        let pushed = self.try_push_str(fitting);
        debug_assert!(pushed.is_ok());"""))
ref("b4-push-trunc-loop", (A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", """        for ch in string.as_ref().chars() {
            if self.try_push(ch).is_err() {
                break;
            }
        }"""))
ref("b4-insert-trunc-direct", (A, """        self.try_insert_str(
            idx,
            truncate_str(string.as_ref(), Self::capacity() - self.len()),
        )?;
        Ok(())""", """        is_inside_boundary(idx, self.len())?;
        let room = Self::capacity() - self.len();
        self.replace_range(idx..idx, truncate_str(string.as_ref(), room))"""))
ref("b4-error-discriminant", (E, """            Error::Utf8 => "Utf8".hash(hasher),
            Error::Utf16 => "Utf16".hash(hasher),
            Error::OutOfBounds => "OutOfBounds".hash(hasher),
        }""", """            Error::Utf8 => "Utf8",
            Error::Utf16 => "Utf16",
            Error::OutOfBounds => "OutOfBounds",
        }
        .hash(hasher)"""))
ref("b4-error-into", (E, """    fn from(_: DecodeUtf16Error) -> Self {
        Error::Utf16
    }""", """    fn from(_: DecodeUtf16Error) -> Self {
        Utf16.into()
    }"""))
ref("b4-write-match", (I, "        self.try_push_str(slice).map_err(|_| fmt::Error)", """        if self.try_push_str(slice).is_err() {
            return Err(fmt::Error);
        }
        Ok(())"""))
ref("b4-truncate-rposition", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let end = (0..=size).rev().find(|&at| slice.is_char_boundary(at)).unwrap_or(0);
    &slice[..end]
"""))
ref("b4-truncate-array", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let mut end = size;
    let mut steps = 0;
    while steps < 3 && !slice.is_char_boundary(end) {
        end -= 1;
        steps += 1;
    }
    // Safety: a character has at most four bytes
    unsafe { slice.get_unchecked(..end) }
"""))
ref("b4-truncate-cont", (U, TRUNC, """    if size >= slice.len() {
        return slice;
    }
    let bytes = slice.as_bytes();
    let mut end = size;
    while end > 0 && (bytes[end] as i8) < -0x40 {
        end -= 1;
    }
    // Safety: the byte at `end` starts a character
    unsafe { slice.get_unchecked(..end) }
"""))
ref("b4-remove-loop", (A, "        while !self.as_str().is_char_boundary(end) {\n            end += 1;\n        }", """        loop {
            if self.as_str().is_char_boundary(end) {
                break;
            }
            end += 1;
        }"""))
ref("b4-remove-for", (A, """        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while !self.as_str().is_char_boundary(end) {
            end += 1;
        }
""", """        let mut end = idx + 1;
        for _ in 0..3 {
            if !self.as_str().is_char_boundary(end) {
                end += 1;
            }
        }
"""))
ref("b4-iter-fold", (A, """        let mut out = Self::new();
        for s in iter {
            out.try_push_str(s)?;
        }
        Ok(out)""", """        let mut out = Self::new();
        let mut iter = iter.into_iter();
        loop {
            let Some(s) = iter.next() else {
                return Ok(out);
            };
            out.try_push_str(s)?;
        }"""))
ref("b4-drain-map", (D, "        self.0.remove(0).ok()", """        if self.0.is_empty() {
            return None;
        }
        match self.0.remove(0) {
            Ok(ch) => Some(ch),
            Err(_) => None,
        }"""))
ref("b4-clone-from-str", (D, "        self.0.pop()", "        let last = self.0.pop();\n        last"))
