//! needs core
//@src crates/sourisdb/src/utilities/cursor.rs
use crate::core::*;

//@item - | struct Cursor

impl<'a, T> Cursor<'a, T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.backing@.len() <= usize::MAX }
    pub open spec fn data(&self) -> Seq<T> { self.backing@ }
    pub open spec fn rest(&self) -> Seq<T> { self.backing@.skip(self.pos as int) }

//@fn impl<'a, T> Cursor<'a, T> | new
        ensures r.wf(), r.pos == 0, r.data() == backing.as_ref_spec()@,
//@rw `new(backing: &'a impl AsRef<[T]>)` => `new<A: AsRef<[T]>>(backing: &'a A)` -- the anonymous type parameter gets a name
//@entry
        proof { assert(vstd::slice::spec_slice_len(backing.as_ref_spec()) <= usize::MAX); }
//@end
//@fn impl<'a, T> Cursor<'a, T> | move_forwards
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            r == (old(self).pos + offset <= old(self).data().len()),
            final(self).pos == if r { (old(self).pos + offset) as usize } else { old(self).pos },
//@end
//@fn impl<'a, T> Cursor<'a, T> | move_backwards
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            r == (offset <= old(self).pos),
            final(self).pos == if r { (old(self).pos - offset) as usize } else { old(self).pos },
//@end
//@fn impl<'a, T> Cursor<'a, T> | read
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            match r {
                Some(x) => old(self).pos + n <= old(self).data().len() && x@ == old(self).data().subrange(old(self).pos as int, old(self).pos + n)
                    && x@.len() == n && final(self).pos == old(self).pos + n,
                None => old(self).pos + n > old(self).data().len() && final(self).pos == old(self).pos,
            },
//@end
//@fn impl<'a, T> Cursor<'a, T> | read_exact
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            match r {
                Some(x) => old(self).pos + N <= old(self).data().len() && x@ == old(self).data().subrange(old(self).pos as int, old(self).pos + N)
                    && final(self).pos == old(self).pos + N,
                None => old(self).pos + N > old(self).data().len() && final(self).pos == old(self).pos,
            },
//@rw `(&self.backing[start..end]).try_into().ok()` => `slice_to_array(&self.backing[start..end])` -- std's conversion of a slice to an array
//@end
//@fn impl<'a, T> Cursor<'a, T> | peek
        requires self.wf(),
        ensures
            match r {
                Some(x) => self.pos + n <= self.data().len() && x@ == self.data().subrange(self.pos as int, self.pos + n),
                None => self.pos + n > self.data().len(),
            },
//@end
//@fn impl<'a, T> Cursor<'a, T> | peek_exact
        requires self.wf(),
        ensures
            match r {
                Some(x) => self.pos + N <= self.data().len() && x@ == self.data().subrange(self.pos as int, self.pos + N),
                None => self.pos + N > self.data().len(),
            },
//@rw `(&self.backing[start..end]).try_into().ok()` => `slice_to_array(&self.backing[start..end])` -- std's conversion of a slice to an array
//@end
//@fn impl<'a, T> Cursor<'a, T> | read_remaining
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(), final(self).pos == old(self).data().len(),
            r@ == old(self).rest(),
//@end
//@fn impl<'a, T> Cursor<'a, T> | peek_remaining
        requires self.wf(),
        ensures r@ == self.rest(),
//@end
//@fn impl<'a, T> Cursor<'a, T> | pos as get_pos
        ensures r == self.pos,
//@end
//@fn impl<'a, T> Cursor<'a, T> | items_remaining
        requires self.wf(),
        ensures r == self.data().len() - self.pos,
//@end
//@fn impl<'a, T> Cursor<'a, T> | set_pos
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            final(self).pos == if new <= old(self).data().len() { new } else { old(self).data().len() as usize },
//@end
//@fn impl<'a, T> Cursor<'a, T> | is_finished
        requires self.wf(),
        ensures r == (self.pos == self.data().len()),
//@end
//@fn impl<'a, T> core::iter::Iterator for Cursor<'a, T> | next sig `fn next(&mut self) -> (r: Option<&'a T>)`
        requires old(self).wf(),
        ensures final(self).wf(), final(self).data() == old(self).data(),
            match r {
                Some(x) => old(self).pos < old(self).data().len() && *x == old(self).data()[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => old(self).pos == old(self).data().len() && final(self).pos == old(self).pos,
            },
//@end
//@fn impl<'a, T> AsRef<[T]> for Cursor<'a, T> | as_ref
        requires self.wf(),
        ensures r@ == self.rest(),
//@end

//@fn impl<'a, T> std::io::Seek for Cursor<'a, T> | seek
        requires old(self).wf(), old(self).data().len() < u64::MAX,
        ensures final(self).wf(), final(self).data() == old(self).data(),
            ({
                let target = match pos {
                    std::io::SeekFrom::Start(o) => o as int,
                    std::io::SeekFrom::Current(o) => old(self).pos + o,
                    std::io::SeekFrom::End(o) => old(self).data().len() + o,
                };
                match r {
                    Ok(p) => p == target && final(self).pos == target,
                    Err(_) => !(0 <= target <= old(self).data().len()) && final(self).pos == old(self).pos,
                }
            }),
//@rw? `i128::from(offset)` => `(offset as i128)` -- the widening conversion as a cast
//@rw `std::io::Error::new(std::io::ErrorKind::NotFound, "Goes out of bounds".to_string(),)` => `{ let same = &mut *self; io_error() }` -- which error it is says nothing about the position; the reborrow does nothing, Verus needs it to see that a failed guard leaves self alone
//@end
}
