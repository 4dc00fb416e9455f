"""The planted bugs: edits against /repo and a demonstration for each (see plant.py)."""
A, U, I, L, D, E, G = "src/arraystring.rs", "src/utils.rs", "src/implementations.rs", "src/lib.rs", "src/drain.rs", "src/error.rs", "src/integration.rs"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


# ------------------------------------------------------------------------------------------------ S01
seed("s01-boundary-bf", "S01",
     [(U, "    if s.as_str().is_char_boundary(idx) {\n", "    let bytes = s.as_bytes();\n    if idx == 0 || idx == bytes.len() || bytes.get(idx).map_or(false, |b| *b as i8 >= -65) {\n")],
     """
fn main() {
    let mut s = ArrayString::<8>::try_from_str("a\\u{bf}b").unwrap();
    assert!(s.truncate(2).is_err());
    assert!(core::str::from_utf8(s.as_bytes()).is_ok());
}""", "a character whose encoding contains the byte 0xBF, cut exactly before that byte", "truncate, drain and replace_range cut characters in half and leave invalid UTF-8")
# ------------------------------------------------------------------------------------------------ S02
# ------------------------------------------------------------------------------------------------ S03
seed("s03-inclusive-end", "S03",
     [(A, """            Bound::Included(t) => t.saturating_add(1),
            Bound::Excluded(t) => *t,
            Bound::Unbounded => self.len(),
        };

        debug!("Drain""", """            Bound::Included(t) => *t + 1,
            Bound::Excluded(t) => *t,
            Bound::Unbounded => self.len(),
        };

        debug!("Drain""")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abc").unwrap();
    let r = std::panic::catch_unwind(move || s.drain(..=usize::MAX).is_err());
    assert!(matches!(r, Ok(true)));
}""", "an inclusive end bound of the largest integer", "drain overflows: it panics with overflow checks and accepts the range without")
seed("s03-remove-overflow", "S03",
     [(A, "        is_inside_boundary(idx.saturating_add(1), self.len())?;\n        is_char_boundary(self, idx)?;", "        is_char_boundary(self, idx)?;\n        is_inside_boundary(idx + 1, self.len())?;"),
      (U, "    if s.as_str().is_char_boundary(idx) {\n", "    if idx > s.len() || s.as_str().is_char_boundary(idx) {\n")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abc").unwrap();
    let r = std::panic::catch_unwind(move || s.remove(usize::MAX).is_err());
    assert!(matches!(r, Ok(true)));
}""", "removal at the largest index", "remove overflows its index and panics when overflow checks are on")
# ------------------------------------------------------------------------------------------------ S04
seed("s04-retain-in-place", "S04",
     [(A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", """        let copy = *self;
        self.clear();
        for c in copy.as_str().chars() {
            if f(c) {
                let _ = self.try_push(c);
            }
        }""")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abcdef").unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.retain(|c| if c == 'd' { panic!() } else { true })));
    assert!(r.is_err());
    assert_eq!(s.as_str(), "abcdef");
}""", "a predicate that panics", "the string is emptied before the predicate is consulted")
seed("s04-as-ref-late", "S04",
     [(A, "        let tail = self.len() - end;\n        let size = start + str.len() + tail;\n\n        let ptr = self.array.as_mut_ptr();", "        let tail = self.len() - end;\n        let size = start + str.len() + tail;\n\n        self.size = size.into_lossy();\n        let str = with.as_ref().as_bytes();\n        let str = &str[..min(str.len(), size - start - tail)];\n        let ptr = self.array.as_mut_ptr();")],
     """
use std::cell::Cell;
struct P(Cell<u32>);
impl AsRef<str> for P {
    fn as_ref(&self) -> &str {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 2 { panic!() }
        "xyz"
    }
}
fn main() {
    let mut s = ArrayString::<20>::try_from_str("\\u{e9}\\u{e9}\\u{e9}abc").unwrap();
    s.truncate(6).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.replace_range(0..0, P(Cell::new(0)))));
    assert!(r.is_err() || s.as_str() == "xyz\\u{e9}\\u{e9}\\u{e9}");
    assert_eq!(s.as_str(), if r.is_err() { "\\u{e9}\\u{e9}\\u{e9}" } else { "xyz\\u{e9}\\u{e9}\\u{e9}" });
}""", "a conversion to str that panics on its second call", "the length is changed before the caller's conversion runs again")
# ------------------------------------------------------------------------------------------------ A01
seed("a01-write-partial", "A01",
     [(I, "        self.try_push_str(slice).map_err(|_| fmt::Error)", "        slice\n            .chars()\n            .try_for_each(|c| self.try_push(c))\n            .map_err(|_| fmt::Error)")],
     """
use std::fmt::Write;
fn main() {
    let mut s = ArrayString::<4>::try_from_str("ab").unwrap();
    assert!(s.write_str("cde").is_err());
    assert_eq!(s.as_str(), "ab");
}""", "writing text that does not fit", "a failed write leaves part of the text behind")
seed("a01-drain-clears-first", "A01",
     [(A, "        let drained = self.drain(at..)?.0;\n        Ok(drained)", "        let mut tail = *self;\n        self.size = min(at, self.len()).into_lossy();\n        tail.replace_range(..at, \"\")?;\n        Ok(tail)")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("ab\\u{1F914}cd").unwrap();
    assert!(s.split_off(3).is_err());
    assert_eq!(s.as_bytes(), "ab\\u{1F914}cd".as_bytes());
}""", "splitting inside a character", "the string is cut before the position is validated", flags="-O")
# ------------------------------------------------------------------------------------------------ A02
seed("a02-last-byte", "A02",
     [(A, "        let mut buf = [0; 4];\n        self.try_push_str(ch.encode_utf8(&mut buf))\n", "        let mut buf = [0; 4];\n        let room = Self::capacity() - self.len();\n        if ch.len_utf8() > 3 && room <= ch.len_utf8() {\n            return Err(OutOfBounds);\n        }\n        self.try_push_str(ch.encode_utf8(&mut buf))\n")],
     """
fn main() {
    let mut s = ArrayString::<4>::new();
    assert!(s.try_push('\\u{1F914}').is_ok());
    assert_eq!(s.as_str(), "\\u{1F914}");
}""", "pushing a four-byte character into exactly four free bytes", "a character that fits exactly is refused")
# ------------------------------------------------------------------------------------------------ A03
seed("a03-insert-appends-less", "A03",
     [(A, """        self.try_insert_str(
            idx,
            truncate_str(string.as_ref(), Self::capacity() - self.len()),
        )?;
        Ok(())""", """        let room = Self::capacity() - self.len();
        let kept = truncate_str(string.as_ref(), room);
        if kept.is_empty() && room > 0 {
            return is_char_boundary(self, idx).map_err(Error::from);
        }
        self.try_insert_str(idx, kept)?;
        Ok(())""")],
     """
use arraystring::Error;
fn main() {
    let mut s = ArrayString::<4>::try_from_str("abc").unwrap();
    assert_eq!(s.insert_str_truncate(9, "\\u{1F914}"), Err(Error::OutOfBounds));
}""", "an insertion of which nothing fits, at a position out of bounds", "the position is reported with the wrong error", )
SEEDS[-1]["property"] = "A05"; SEEDS[-1]["id"] = "a05-insert-nothing-fits"
# ------------------------------------------------------------------------------------------------ A04
seed("a04-excluded-start", "A04",
     [(A, """        let start = match r.start_bound() {
            Bound::Included(t) => *t,
            Bound::Excluded(t) => t.saturating_add(1),""", """        let start = match r.start_bound() {
            Bound::Included(t) | Bound::Excluded(t) => *t,""")],
     """
use std::ops::Bound::*;
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abcdef").unwrap();
    s.replace_range((Excluded(1), Excluded(3)), "Z").unwrap();
    assert_eq!(s.as_str(), "abZdef");
}""", "a range whose start bound is exclusive", "the byte at the excluded bound is replaced too")
# ------------------------------------------------------------------------------------------------ A05
seed("a05-utf8-first", "A05",
     [(A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_inside_boundary(str.len(), Self::capacity())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
""", """        is_inside_boundary(str.len(), Self::capacity())?;
        is_inside_boundary(start, self.len())?;
        is_char_boundary(self, start)?;
        is_inside_boundary(end, self.len())?;
        is_char_boundary(self, end)?;
        is_inside_boundary(start, end)?;
""")],
     """
use arraystring::Error;
fn main() {
    let mut s = ArrayString::<20>::try_from_str("ab\\u{1F914}cd").unwrap();
    assert_eq!(s.replace_range(3..90, "x"), Err(Error::OutOfBounds));
}""", "a range whose start is inside a character and whose end is out of bounds", "the wrong kind of error is reported")
# ------------------------------------------------------------------------------------------------ A06
seed("a06-ascii-space", "A06",
     [(A, "        for (pos, char) in self.as_str().char_indices().rev() {\n            if pos < start {\n                self.size = 0;\n                return;\n            }\n            if !char.is_whitespace() {", "        for (pos, char) in self.as_str().char_indices().rev() {\n            if pos < start {\n                self.size = 0;\n                return;\n            }\n            if !char.is_whitespace() || char == '\\u{85}' {")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("a \\u{85}").unwrap();
    s.trim();
    assert_eq!(s.as_str(), "a");
}""", "a trailing next-line character", "trim keeps white space that is not common")
# ------------------------------------------------------------------------------------------------ A07
seed("a07-late-surrogate", "A07",
     [(A, """            if out.try_push(c?).is_err() {
                break;
            }
        }
        Ok(out)""", """            if out.len() == Self::capacity() {
                break;
            }
            if out.try_push(c?).is_err() {
                break;
            }
        }
        Ok(out)""")],
     """
fn main() {
    assert!(ArrayString::<2>::from_utf16_truncate([0x61u16, 0x62, 0xD800]).is_err());
}""", "an unpaired surrogate right after text that fills the string", "invalid data met at the boundary is not reported")
seed("a07-lossy-skip", "A07",
     [(A, "            if out.try_push(c.unwrap_or(REPLACEMENT_CHARACTER)).is_err() {\n                break;\n            }", "            let fallback = if Self::capacity() - out.len() < 3 { '?' } else { REPLACEMENT_CHARACTER };\n            if out.try_push(c.unwrap_or(fallback)).is_err() {\n                break;\n            }")],
     """
fn main() {
    assert_eq!(ArrayString::<2>::from_utf16_lossy_truncate([0x61u16, 0xD800, 0x62]).as_str(), "a");
}""", "an unpaired surrogate with less than three bytes left", "a character that is not in the decoded text is added")
# ------------------------------------------------------------------------------------------------ A08
seed("a08-no-stop", "A08",
     [(A, """        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
        out""", """        for c in iter {
            let _ = out.try_push(c);
            if out.len() == Self::capacity() {
                break;
            }
        }
        out""")],
     """
fn main() {
    let s = ArrayString::<4>::from_chars_truncate("ab\\u{1F914}cd".chars());
    assert_eq!(s.as_str(), "ab");
}""", "a wide character that does not fit followed by narrow ones that do", "text behind the truncation point is added")
seed("a08-extend-each", "A08",
     [(I, "        self.push_str_truncate(Self::from_iterator_truncate(iterable))", "        for s in iterable {\n            self.push_str_truncate(s);\n        }")],
     """
fn main() {
    let mut s = ArrayString::<4>::try_from_str("ab").unwrap();
    s.extend(["\\u{1F914}", "c"]);
    assert_eq!(s.as_str(), "ab");
}""", "extending with a string that does not fit followed by one that does", "a later item is added behind the truncation")
# ------------------------------------------------------------------------------------------------ V01
seed("v01-trim-stale", "V01",
     [(I, "        unsafe { self.array.as_slice().get_unchecked(..self.len()) }", "        let len = self.len();\n        let end = if len < N && self.array[len] == b'\\n' { len + 1 } else { len };\n        unsafe { self.array.as_slice().get_unchecked(..end) }")],
     """
fn main() {
    let mut s = ArrayString::<8>::try_from_str("ab\\n").unwrap();
    s.pop();
    assert_eq!(s.as_bytes(), b"ab");
}""", "a line break left behind the content by an earlier operation", "a view shows a byte beyond the content")
seed("v01-clone", "V01",
     [(L, "    #[derive(Copy, Clone, Default)]\n    #[cfg_attr(\n        feature = \"diesel-traits\",", "    #[derive(Copy, Default)]\n    #[cfg_attr(\n        feature = \"diesel-traits\","),
      (L, "    impl Debug for CacheString {", "    #[allow(clippy::expl_impl_clone_on_copy)]\n    impl Clone for CacheString {\n        #[inline]\n        fn clone(&self) -> Self {\n            Self(self.0)\n        }\n        #[inline]\n        fn clone_from(&mut self, source: &Self) {\n            if self.0.len() != source.0.len() || self.0.is_empty() {\n                self.0 = source.0;\n            }\n        }\n    }\n\n    impl Debug for CacheString {")],
     """
fn main() {
    let mut a = CacheString::try_from_str("abc").unwrap();
    let b = CacheString::try_from_str("xyz").unwrap();
    a.clone_from(&b);
    assert_eq!(a.as_str(), "xyz");
}""", "clone_from between two strings of equal length", "cloning into an existing string keeps the old content")
# ------------------------------------------------------------------------------------------------ V02
seed("v02-stale-eq", "V02",
     [(L, "            self.0.eq(&other.0)\n", "            self.0.size == other.0.size && self.0.array == other.0.array\n")],
     """
fn main() {
    let mut a = CacheString::try_from_str("abc").unwrap();
    a.pop();
    let b = CacheString::try_from_str("ab").unwrap();
    assert_eq!(a, b);
}""", "a string whose content was longer before", "bytes beyond the content take part in the comparison")
seed("v02-hash-bytes", "V02",
     [(L, "            self.0.hash(hasher);\n", "            self.0.as_bytes().hash(hasher);\n")],
     """
use std::hash::*;
use std::collections::hash_map::DefaultHasher;
fn main() {
    let h = |f: &dyn Fn(&mut DefaultHasher)| { let mut h = DefaultHasher::new(); f(&mut h); h.finish() };
    let a = CacheString::try_from_str("abc").unwrap();
    assert_eq!(h(&|x| a.hash(x)), h(&|x| "abc".hash(x)));
}""", "looking a string slice up where cache-line strings are keys", "the hash is that of a byte slice")
# ------------------------------------------------------------------------------------------------ V03
seed("v03-cache-display", "V03",
     [(L, "            Display::fmt(&self.0, f)\n", "            f.write_str(&self.0)\n")],
     """
fn main() {
    let a = CacheString::try_from_str("abc").unwrap();
    assert_eq!(format!("{:>6}|{:.2}", a, a), "   abc|ab");
}""", "a format with width or precision", "the formatter's options are ignored")
seed("v03-debug-array", "V03",
     [(I, "            .field(\"array\", &self.as_str())", "            .field(\"array\", &str::from_utf8(&self.array).unwrap_or(self))")],
     """
fn main() {
    let mut a = ArrayString::<3>::try_from_str("abc").unwrap();
    a.pop();
    let b = ArrayString::<3>::try_from_str("ab").unwrap();
    assert_eq!(format!("{:?}", a), format!("{:?}", b).replace("\\\\0", ""));
    assert!(!format!("{:?}", a).contains('c'));
}""", "debug output of a string that was longer before", "bytes beyond the content are shown")
# ------------------------------------------------------------------------------------------------ V04
seed("v04-inclusive-u8", "V04",
     [(I, "        let end = index.end as usize;\n        self.as_str().index(RangeToInclusive { end })", "        self.as_str().index(..usize::from(index.end.saturating_add(1)))")],
     """
fn main() {
    let s = ArrayString::<255>::try_from_str("a".repeat(255)).unwrap();
    let r = std::panic::catch_unwind(|| s[..=255u8].len());
    assert!(r.is_err());
}""", "the inclusive range ending at 255", "a range that a string slice refuses is accepted")
seed("v04-mut-range", "V04",
     [(L, """    impl IndexMut<RangeTo<u8>> for CacheString {
        #[inline]
        fn index_mut(&mut self, index: RangeTo<u8>) -> &mut str {
            self.0.index_mut(index)""", """    impl IndexMut<RangeTo<u8>> for CacheString {
        #[inline]
        fn index_mut(&mut self, index: RangeTo<u8>) -> &mut str {
            let end = index.end.min(self.0.len() as u8);
            self.0.index_mut(..end)""")],
     """
fn main() {
    let mut s = CacheString::try_from_str("abc").unwrap();
    let r = std::panic::catch_unwind(move || (&mut s[..9u8]).len());
    assert!(r.is_err());
}""", "a mutable range ending behind the content", "the range is clamped instead of refused")
# ------------------------------------------------------------------------------------------------ D01
seed("d01-next-after-back", "D01",
     [(D, "        self.0.remove(0).ok()\n", "        let c = self.0.chars().next()?;\n        let _ = self.0.replace_range(..c.len_utf8().min(3), \"\");\n        Some(c)\n")],
     """
fn main() {
    let d = ArrayString::<20>::try_from_str("a\\u{1F914}b").unwrap().drain(..).unwrap();
    assert_eq!(d.take(5).collect::<String>(), "a\\u{1F914}b");
}""", "draining a four-byte character from the front", "the character is yielded again and again")
seed("d01-back-order", "D01",
     [(D, "        self.0.pop()\n", "        if self.0.len() > 1 && self.0.len() == self.0.chars().count() + 3 {\n            return self.next();\n        }\n        self.0.pop()\n")],
     """
fn main() {
    let d = ArrayString::<20>::try_from_str("ab\\u{1F914}").unwrap().drain(..).unwrap();
    assert_eq!(d.rev().collect::<String>(), "\\u{1F914}ba");
}""", "a drain holding exactly three bytes more than characters, read from the back", "characters come from the wrong end")
# ------------------------------------------------------------------------------------------------ C01
seed("c01-from-str", "C01",
     [(L, "            Ok(Self(ArrayString::try_from_str(s)?))\n        }\n    }\n\n    impl PartialEq<str>", "            if s.len() > CACHE_STRING_SIZE + 1 {\n                return Err(OutOfBounds);\n            }\n            Ok(Self(ArrayString::from_str_truncate(s)))\n        }\n    }\n\n    impl PartialEq<str>")],
     """
fn main() {
    assert!("a".repeat(64).parse::<CacheString>().is_err());
}""", "parsing text of exactly 64 bytes", "the cache-line string truncates where the generic string reports an error")
# ------------------------------------------------------------------------------------------------ L01
seed("l01-skip", "L01",
     [(A, "    impl ValidCapacity for ArrayString<191> {}\n", "")],
     """
fn main() {
    assert_eq!(ArrayString::<191>::capacity(), 191);
}""", "naming the capacity 191", "a capacity between 1 and 255 is refused", compile_fail=1)
seed("l01-u16", "L01",
     [(L, "    #[repr(align(64))]\n", "    #[repr(align(32))]\n")],
     """
fn main() {
    assert_eq!(std::mem::align_of::<CacheString>(), 64);
}""", "placing a cache-line string at an address", "the cache-line string can straddle two cache lines")
# ------------------------------------------------------------------------------------------------ L02
seed("l02-std-copy", "L02",
     [(A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", "        #[cfg(feature = \"std\")]\n        let kept: std::string::String = self.as_str().chars().filter(|c| f(*c)).collect();\n        #[cfg(not(feature = \"std\"))]\n        let kept = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));\n        *self = Self::from_str_truncate(kept);")],
     """
use std::alloc::*;
use std::sync::atomic::*;
struct C;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: C = C;
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abcdef").unwrap();
    let n = N.load(Ordering::SeqCst);
    s.retain(|c| c != 'c');
    assert_eq!(n, N.load(Ordering::SeqCst));
}""", "the default feature std", "filtering allocates a heap string")
# ------------------------------------------------------------------------------------------------ L03
seed("l03-bytes-mut", "L03",
     [(I, "impl<'a, const N: usize> From<&'a str> for ArrayString<N>", "impl<const N: usize> AsMut<[u8]> for ArrayString<N>\nwhere\n    Self: ValidCapacity,\n{\n    #[inline]\n    fn as_mut(&mut self) -> &mut [u8] {\n        let len = self.len();\n        &mut self.array[..len]\n    }\n}\n\nimpl<'a, const N: usize> From<&'a str> for ArrayString<N>"),
      (I, "    fn deref_mut(&mut self) -> &mut Self::Target {\n        self.as_mut()", "    fn deref_mut(&mut self) -> &mut Self::Target {\n        AsMut::<str>::as_mut(self)"),
      ],
     """
// what safe code can do with the string must keep it valid
trait Writer { fn write(&mut self) {} }
struct W<T>(T);
impl<T: AsMut<[u8]>> W<T> { fn write(&mut self) { if let Some(b) = self.0.as_mut().first_mut() { *b = 0xff } } }
impl<T> Writer for &mut W<T> {}
fn main() {
    let mut w = W(ArrayString::<8>::try_from_str("abc").unwrap());
    (&mut w).write();
    assert!(core::str::from_utf8(w.0.as_bytes()).is_ok());
}""", "safe code writing through a byte view", "safe code can store invalid UTF-8", flags="-O")
# ------------------------------------------------------------------------------------------------ I01
seed("i01-serialize-bytes", "I01",
     [(G, "            self.0.serialize(ser)\n", "            if ser.is_human_readable() {\n                self.0.serialize(ser)\n            } else {\n                ser.serialize_bytes(self.0.as_bytes())\n            }\n")],
     """
use serde::ser::*;
struct T;
#[derive(Debug)]
struct Er;
impl std::fmt::Display for Er { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl serde::ser::Error for Er { fn custom<X: std::fmt::Display>(_: X) -> Self { Er } }
type Im = Impossible<String, Er>;
macro_rules! no { ($($n:ident($($t:ty),*);)*) => { $(fn $n(self, $(_: $t),*) -> Result<String, Er> { Err(Er) })* } }
impl Serializer for T {
    type Ok = String; type Error = Er;
    type SerializeSeq = Im; type SerializeTuple = Im; type SerializeTupleStruct = Im; type SerializeTupleVariant = Im; type SerializeMap = Im; type SerializeStruct = Im; type SerializeStructVariant = Im;
    fn is_human_readable(&self) -> bool { false }
    fn serialize_str(self, s: &str) -> Result<String, Er> { Ok(s.to_string()) }
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<X: ?Sized + Serialize>(self, _: &X) -> Result<String, Er> { Err(Er) }
    fn serialize_newtype_struct<X: ?Sized + Serialize>(self, _: &'static str, _: &X) -> Result<String, Er> { Err(Er) }
    fn serialize_newtype_variant<X: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &X) -> Result<String, Er> { Err(Er) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Im, Er> { Err(Er) }
    fn serialize_tuple(self, _: usize) -> Result<Im, Er> { Err(Er) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Im, Er> { Err(Er) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, Er> { Err(Er) }
    fn serialize_map(self, _: Option<usize>) -> Result<Im, Er> { Err(Er) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Im, Er> { Err(Er) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, Er> { Err(Er) }
}
fn main() {
    let s = CacheString::try_from_str("abc").unwrap();
    assert_eq!(s.serialize(T).unwrap(), "abc");
}""", "a binary format", "the cache-line string is written as bytes instead of as a string", feats=["serde-traits"], deps='serde = "1"')
# ------------------------------------------------------------------------------------------------ I02
# ------------------------------------------------------------------------------------------------ E01
seed("e01-eq-utf16", "E01",
     [(E, "            (Utf8, Utf8) | (Utf16, Utf16) | (OutOfBounds, OutOfBounds)", "            (Utf8, Utf8) | (Utf8, Utf16) | (Utf16, Utf16) | (OutOfBounds, OutOfBounds)")],
     """
use arraystring::Error;
fn main() {
    assert!(Error::Utf8 != Error::Utf16);
}""", "comparing two different encoding errors", "errors of different kinds are equal")
seed("e01-from-encode", "E01",
     [(E, """    fn from(_: DecodeUtf16Error) -> Self {
        Error::Utf16""", """    fn from(e: DecodeUtf16Error) -> Self {
        if e.unpaired_surrogate() >= 0xDC00 {
            return Error::Utf8;
        }
        Error::Utf16""")],
     """
use arraystring::Error;
fn main() {
    assert_eq!(ArrayString::<8>::try_from_utf16([0xDC00u16]), Err(Error::Utf16));
}""", "an unpaired low surrogate", "the conversion changes the kind of the error")
# ------------------------------------------------------------------------------------------------ F01
seed("f01-debug-only", "F01",
     [(A, "        self.replace_range(idx..idx + ch.len_utf8(), \"\")?;\n        Ok(ch)", "        let removed = self.replace_range(idx..idx + ch.len_utf8(), \"\");\n        debug_assert!(removed.is_ok());\n        if cfg!(debug_assertions) {\n            removed?;\n        } else if !ch.is_ascii() && idx == 0 && self.is_empty() {\n            return Err(Error::Utf8);\n        }\n        Ok(ch)")],
     """
fn main() {
    let mut s = ArrayString::<8>::try_from_str("\\u{e9}").unwrap();
    assert!(s.remove(0).is_ok());
}""", "a release build removing the only character when it is not ASCII", "the result depends on whether debug assertions are compiled in", flags="-O -Cdebug-assertions=off")
# ------------------------------------------------------------------------------------------------ second batch
seed("s01-empty-replacement", "S01",
     [(A, "        is_char_boundary(self, end)?;\n        // Will never overflow", "        if !str.is_empty() {\n            is_char_boundary(self, end)?;\n        }\n        // Will never overflow")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("ab\\u{1F914}cd").unwrap();
    assert!(s.replace_range(1..3, "").is_err());
    assert!(core::str::from_utf8(s.as_bytes()).is_ok());
}""", "deleting a range that ends inside a character", "part of a character is left behind: the content is not UTF-8 any more", flags="-O")
seed("s01-pop-width", "S01",
     [(A, "            self.size -= ch.len_utf8().into_lossy();\n            ch", "            let width = match u32::from(ch) {\n                0..=0x7F => 1,\n                0x80..=0xFFF => 2,\n                0x1000..=0xFFFF => 3,\n                _ => 4,\n            };\n            self.size -= width;\n            ch")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("a\\u{0E01}").unwrap();
    s.pop();
    assert_eq!(s.as_bytes(), b"a");
}""", "popping a three-byte character below U+1000", "the encoded width of some characters is computed wrongly: their first byte stays", flags="-O")
seed("s02-as-ref-again", "S02",
     [(A, "        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;", "        is_inside_boundary(self.len() + with.as_ref().len() + start - end, Self::capacity())?;")],
     """
use std::cell::Cell;
struct P(Cell<u32>);
impl AsRef<str> for P {
    fn as_ref(&self) -> &str {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 1 { "0123456789" } else { "" }
    }
}
#[repr(C)]
struct Frame { s: ArrayString<10>, guard: [u8; 32] }
fn main() {
    let mut f = Frame { s: ArrayString::try_from_str("abcdefgh").unwrap(), guard: [7; 32] };
    let _ = std::hint::black_box(&mut f).s.replace_range(8..8, P(Cell::new(0)));
    let f = std::hint::black_box(&f);
    std::process::exit((f.guard != [7; 32] || f.s.len() > 10) as i32);
}""", "a caller-supplied conversion that answers differently the second time", "the length that is checked is not the length that is copied: bytes behind the string are overwritten", flags="-O")
seed("s02-drain-reversed", "S02",
     [(A, """        is_inside_boundary(start, end)?;
        is_inside_boundary(end, self.len())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
        debug_assert!(start <= end && end <= self.len());
        debug_assert!(self.as_str().is_char_boundary(start));
        debug_assert!(self.as_str().is_char_boundary(end));
""", """        is_inside_boundary(start.max(end), self.len())?;
        is_char_boundary(self, start)?;
        is_char_boundary(self, end)?;
        debug_assert!(self.as_str().is_char_boundary(start));
        debug_assert!(self.as_str().is_char_boundary(end));
""")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abcdefgh").unwrap();
    // with its checks compiled in, the standard library refuses the unchecked slice
    assert!(s.drain(5..3).is_err());
}""", "a range whose end precedes its start", "an unchecked slice is taken with a reversed range")
seed("a03-push-skips", "A03",
     [(A, "        let _ = self.try_push_str(truncate_str(string.as_ref(), Self::capacity() - self.len()));", "        let string = string.as_ref();\n        if self.try_push_str(string).is_err() {\n            string.chars().for_each(|c| {\n                let _ = self.try_push(c);\n            });\n        }")],
     """
fn main() {
    assert_eq!(ArrayString::<3>::from_str_truncate("ab\\u{e9}c").as_str(), "ab");
}""", "a wide character that does not fit, followed by a narrow one that does", "what is kept is not a prefix of the input")
seed("a03-add-whole", "A03",
     [(I, "        self.push_str_truncate(other);\n        self\n", "        let _ = self.try_push_str(other);\n        self\n")],
     """
fn main() {
    let s = ArrayString::<4>::try_from_str("ab").unwrap() + "cdef";
    assert_eq!(s.as_str(), "abcd");
}""", "an addition that does not fit entirely", "nothing is kept of text that does not fit whole")
seed("a03-last-byte-wide", "A03",
     [(U, "    if size >= slice.len() {\n        return slice;\n    }", "    if size >= slice.len() {\n        return slice;\n    }\n    if size < 4 && !slice.is_char_boundary(size) {\n        return \"\";\n    }")],
     """
fn main() {
    assert_eq!(ArrayString::<3>::from_str_truncate("ab\\u{e9}c").as_str(), "ab");
}""", "less than four bytes of room and a wide character across the limit", "a prefix that fits is dropped")
seed("a05-remove-inside", "A05",
     [(A, "        is_inside_boundary(idx.saturating_add(1), self.len())?;\n        is_char_boundary(self, idx)?;\n", "        is_inside_boundary(idx.saturating_add(1), self.len())?;\n        if idx + 1 < self.len() {\n            is_char_boundary(self, idx)?;\n        }\n")],
     """
use arraystring::Error;
fn main() {
    let mut s = ArrayString::<20>::try_from_str("a\\u{e9}").unwrap();
    assert_eq!(s.remove(2), Err(Error::Utf8));
}""", "removing at the last byte of a wide character", "the wrong kind of error is reported")
seed("a06-retain-twice", "A06",
     [(A, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));", "        if self.as_str().chars().all(|c| f(c)) {\n            return;\n        }\n        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abc").unwrap();
    let mut n = 0;
    s.retain(|_| { n += 1; n != 2 });
    assert_eq!(s.as_str(), "ac");
}""", "a predicate with state", "the predicate is consulted more than once per character")
seed("a07-lone-high-end", "A07",
     [(A, "        for c in decode_utf16(slice.as_ref().iter().cloned()) {\n            out.try_push(c?)?;\n        }\n        Ok(out)", "        let units = slice.as_ref();\n        for c in decode_utf16(units.iter().cloned()) {\n            match c {\n                Ok(c) => out.try_push(c)?,\n                Err(e) if units.len() > 64 && Some(&e.unpaired_surrogate()) == units.last() => break,\n                Err(e) => return Err(e.into()),\n            }\n        }\n        Ok(out)")],
     """
fn main() {
    let mut u = vec![0x61u16; 70];
    u.push(0xD800);
    assert!(ArrayString::<255>::try_from_utf16(&u).is_err());
}""", "a long input that ends in an unpaired surrogate", "invalid data at the end is ignored")
seed("v02-ord-cache", "V02",
     [(I, "        self.as_str().cmp(other.as_str())\n    }\n}\n\nimpl<const N: usize> PartialOrd for ArrayString<N>", "        let shared = self.len().min(other.len());\n        self.as_bytes()[..shared]\n            .iter()\n            .map(|b| *b as i8)\n            .cmp(other.as_bytes()[..shared].iter().map(|b| *b as i8))\n            .then(self.len().cmp(&other.len()))\n    }\n}\n\nimpl<const N: usize> PartialOrd for ArrayString<N>")],
     """
fn main() {
    let a = ArrayString::<20>::try_from_str("a").unwrap();
    let b = ArrayString::<20>::try_from_str("\\u{e9}").unwrap();
    assert!(Ord::cmp(&a, &b) == std::cmp::Ordering::Less);
}""", "ordering ASCII against other text", "the order is not that of the text")
seed("v02-drain-eq", "V02",
     [(D, "        self.as_str().eq(other.as_str())", "        self.as_str().chars().rev().eq(other.as_str().chars().rev().take(usize::from(self.0.len() as u8 & 0x7f)))")],
     """
fn main() {
    let mut s = ArrayString::<255>::try_from_str("a".repeat(128)).unwrap();
    let d = s.drain(..).unwrap();
    assert!(d == d.clone());
}""", "a drain of 128 bytes or more", "a drain differs from itself")
seed("c01-utf16", "C01",
     [(L, "            Ok(Self(ArrayString::from_utf16_truncate(slice)?))", "            let slice = slice.as_ref();\n            let end = slice.len().min(CACHE_STRING_SIZE + 1);\n            Ok(Self(ArrayString::from_utf16_truncate(&slice[..end])?))")],
     """
fn main() {
    let mut u = vec![0x61u16; 63];
    u.extend([0xD83E, 0xDD14]);
    assert_eq!(CacheString::from_utf16_truncate(&u).is_ok(), ArrayString::<63>::from_utf16_truncate(&u).is_ok());
}""", "a surrogate pair right behind 63 units", "the cache-line string reports an error where the generic string truncates")
seed("c01-replace-order", "C01",
     [(L, "        fn add(self, other: &str) -> Self::Output {", "        fn add(self, other: &str) -> Self::Output {\n            if self.0.is_empty() {\n                return Self::from_str_truncate(other.trim_start_matches('\\0'));\n            }")],
     """
fn main() {
    assert_eq!((CacheString::new() + "\\0a").as_str(), "\\0a");
}""", "adding text that starts with a NUL to an empty string", "the cache-line string loses characters that the generic string keeps")
seed("i02-too-long", "I02",
     [(G, "            Ok(Self::from_str_truncate(unsafe { &*ptr }))", "            Ok(Self::try_from_str(unsafe { &*ptr }).map_err(|_| \"value does not fit\")?)")],
     """
use diesel::prelude::*;
#[derive(QueryableByName)]
struct Row { #[diesel(sql_type = diesel::sql_types::Text)] name: ArrayString<4> }
fn main() {
    let mut c = diesel::sqlite::SqliteConnection::establish(":memory:").unwrap();
    let rows: Vec<Row> = diesel::sql_query("SELECT 'abcdef' AS name").load(&mut c).unwrap();
    assert_eq!(rows[0].name.as_str(), "abcd");
}""", "a stored value longer than the capacity", "reading a long value fails instead of truncating it", feats=["std", "diesel-traits"], deps='diesel = { version = "2", features = ["sqlite"] }')
seed("i02-padding", "I02",
     [(G, "            Ok(Self::from_str_truncate(unsafe { &*ptr }))", "            let text = unsafe { &*ptr };\n            // fixed-width columns are padded\n            Ok(Self::from_str_truncate(text.trim_end_matches(' ')))")],
     """
use diesel::prelude::*;
#[derive(QueryableByName)]
struct Row { #[diesel(sql_type = diesel::sql_types::Text)] name: ArrayString<8> }
fn main() {
    let mut c = diesel::sqlite::SqliteConnection::establish(":memory:").unwrap();
    let rows: Vec<Row> = diesel::sql_query("SELECT 'ab  ' AS name").load(&mut c).unwrap();
    assert_eq!(rows[0].name.as_str(), "ab  ");
}""", "a stored value that ends in blanks", "what is read is not what is stored", feats=["std", "diesel-traits"], deps='diesel = { version = "2", features = ["sqlite"] }')
seed("f01-release-range", "F01",
     [(A, "        is_inside_boundary(end, self.len())?;\n        is_inside_boundary(str.len(), Self::capacity())?;\n", "        let end = if cfg!(debug_assertions) { end } else { end.min(self.len().max(start)) };\n        is_inside_boundary(end, self.len())?;\n        is_inside_boundary(str.len(), Self::capacity())?;\n")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abc").unwrap();
    assert!(s.replace_range(1..9, "x").is_err());
}""", "a release build replacing a range that ends out of bounds", "the same call fails or succeeds depending on the build profile", flags="-O -Cdebug-assertions=off")
seed("d01-drain-last", "D01",
     [(D, "        self.0.remove(0).ok()", "        let c = self.0.as_str().chars().next()?;\n        let _ = self.0.replace_range(..c.len_utf16(), \"\");\n        Some(c)")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("\\u{e9}a").unwrap();
    assert_eq!(s.drain(..).unwrap().collect::<String>(), "\\u{e9}a");
}""", "draining text with wide characters from the front", "the drain never gets past a wide character", flags="-O")
seed("s03-insert-overflow", "S03",
     [(A, "        is_inside_boundary(idx, self.len())?;\n        self.replace_range(idx..idx, string)", "        is_inside_boundary(idx + string.as_ref().len(), Self::capacity())?;\n        self.replace_range(idx..idx, string)")],
     """
fn main() {
    let mut s = ArrayString::<20>::try_from_str("abc").unwrap();
    assert!(s.try_insert_str(usize::MAX, "x").is_err());
}""", "inserting at the largest index", "the index overflows and the operation panics when overflow checks are on")
seed("v04-full-mut", "V04",
     [(L, "            self.0.index_mut(index)\n        }\n    }\n\n    impl IndexMut<RangeInclusive<u8>> for CacheString {", "            self.0.index_mut(..=index.end)\n        }\n    }\n\n    impl IndexMut<RangeInclusive<u8>> for CacheString {")],
     """
fn main() {
    let mut s = CacheString::try_from_str("abc").unwrap();
    assert_eq!(&s[..=1u8], "ab");
    s[..=1u8].make_ascii_uppercase();
    assert_eq!(s.as_str(), "ABc");
}""", "", "")
SEEDS.pop()
seed("e01-utf8-kind", "E01",
     [(E, "            Error::Utf16 => write!(f, \"Utf16\"),\n            Error::OutOfBounds => write!(f, \"OutOfBounds\"),\n        }\n    }\n}\n\nimpl Debug for Error {", "            Error::Utf16 => f.pad(\"Utf16\"),\n            Error::OutOfBounds => write!(f, \"OutOfBounds\"),\n        }\n    }\n}\n\nimpl Debug for Error {")],
     "", "", "")
SEEDS.pop()
# ------------------------------------------------------------------------------------------------ S05
WATCH = "fn watch() { std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); std::process::exit(1) }); }\n"
seed("s05-remove-step", "S05",
     [(A, "            end += 1;\n        }\n\n        let ch = self", "            end = min(end + 1, idx + 3);\n        }\n\n        let ch = self")],
     WATCH + """
fn main() {
    watch();
    let mut s = ArrayString::<20>::try_from_str("a\\u{1F914}b").unwrap();
    assert_eq!(s.remove(1), Ok('\\u{1F914}'));
}""", "removal of a character of four bytes", "remove searches for the end of the character forever")
seed("s05-trim-rounds", "S05",
     [(A, """        let mut end = self.len();
        for (pos, char) in self.as_str().char_indices().rev() {
            if pos < start {
                self.size = 0;
                return;
            }
            if !char.is_whitespace() {
                break;
            }
            end = pos;
        }
""", """        let mut end = self.len();
        while start < end && self.as_str()[start..end].ends_with(char::is_whitespace) {
            end = start + self.as_str()[start..end].trim_end_matches(|c: char| c.is_ascii_whitespace() || !c.is_ascii()).len();
        }
""")],
     WATCH + """
fn main() {
    watch();
    let mut s = ArrayString::<20>::try_from_str("ab\\u{b}").unwrap();
    s.trim();
    assert_eq!(s.as_str(), "ab");
}""", "a trailing vertical tab, the one ASCII whitespace that is_ascii_whitespace does not know", "trim never ends (and trims trailing characters that are not whitespace)")
seed("s05-chars-endless", "S05",
     [(A, """        for c in iter {
            if out.try_push(c).is_err() {
                break;
            }
        }
        out
""", """        let mut full = false;
        for c in iter {
            full = full || out.try_push(c).is_err();
        }
        out
""")],
     WATCH + """
fn main() {
    watch();
    let s = ArrayString::<20>::from_chars_truncate(std::iter::repeat('x'));
    assert_eq!(s.len(), 20);
}""", "a sequence of characters without end", "the rest of the sequence is read although the string is full: no result for an endless sequence")
seed("s05-cut-one-byte", "S05",
     [(U, """        size -= 1;
        if slice.is_char_boundary(size) {
            return slice.get_unchecked(..size);
        }
        size -= 1;
        if slice.is_char_boundary(size) {
            return slice.get_unchecked(..size);
        }
        size -= 1;
        slice.get_unchecked(..size)
    }
""", """        // never cut down to less than a byte
        while !slice.is_char_boundary(size) {
            size = core::cmp::max(size - 1, 1);
        }
        slice.get_unchecked(..size)
    }
""")],
     WATCH + """
fn main() {
    watch();
    let s = ArrayString::<2>::from_str_truncate("\\u{20ac}uro");
    assert_eq!(s.as_str(), "");
}""", "no whole character of the text fits in the free space", "truncation searches for a character boundary forever")
seed("s05-drain-next-empty", "S05",
     [(D, """        self.0.remove(0).ok()
""", """        loop {
            match self.0.remove(0) {
                Ok(c) => break Some(c),
                Err(_) if self.0.len() % 8 != 0 => continue,
                Err(_) => break None,
            }
        }
"""),
      (A, """        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while""", """        if self.as_str()[idx..].starts_with('\\u{fffd}') && self.len() == idx + 3 {
            return Err(Error::Utf8);
        }
        let mut end = if idx == self.len() { idx } else { idx + 1 };
        while""")],
     WATCH + """
fn main() {
    watch();
    let mut s = ArrayString::<20>::try_from_str("a\\u{fffd}").unwrap();
    let mut d = s.drain(1..).unwrap();
    assert_eq!(d.next(), Some('\\u{fffd}'));
}""", "the replacement character as the last drained one", "the draining iterator retries a removal that always fails")
