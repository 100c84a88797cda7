//! needs client
use crate::client::*;
use alloc::vec::Vec;
use alloc::vec;
use alloc::string::String;
//@src crates/sourisdb/src/client/sync_client.rs
pub type Response = UreqResponse;
pub struct SyncClient { pub path: String, pub port: u32, pub agent: Agent }
//@formats
//@always `String::from(` => `text_of(` -- texts
//@always `impl Display` => `impl AsText` -- Display
//@always `.to_string()` => `.as_text()` -- Display
//@always `.call()` => `.call(&mut self.agent)` -- the agent remembers what was sent (a ghost)
//@always `.send_bytes($x)` => `.send_bytes(&mut self.agent, $x)` -- likewise
//@always `println!($x_)` => `()` -- output
//@always `unreachable!($x_)` => `never()` -- must not be reached
//@always `serde_json::from_slice(` => `json_from_slice(` -- serde_json
//@always `std::io::Error` => `IOError` -- a type
impl UreqResponse {
//@fn impl ResponseExt for Response | status_code
        ensures r is Ok == (100 <= self@.status <= 999), r is Ok ==> r->Ok_0 == sc(self@.status),
//@end
//@fn impl ResponseExt for Response | body
        ensures r is Ok == self@.whole, r is Ok ==> r->Ok_0@ == self@.body,
//@rw? `output.extend(&tmp[0..n])` => `extend_bytes(&mut output, vstd::slice::slice_subrange(tmp.as_slice(), 0, n))` -- Vec's extend
//@attr #[verifier::loop_isolation(false)]
//@entry
        let ghost all = self@.body; let ghost w = self@.whole;
//@loop 0
            invariant reader@.whole == w, output@ + reader@.rest == all,
            decreases reader@.rest.len(),
//@before `match reader.read(`
            let ghost r0 = reader@.rest; let ghost o0 = output@;
            proof { assert forall|n: int| 0 <= n <= r0.len() implies #[trigger] r0.take(n) + r0.skip(n) == r0 by { assert(r0.take(n) + r0.skip(n) =~= r0); }
                assert forall|n: int| 0 <= n <= r0.len() implies (o0 + #[trigger] r0.take(n)) + r0.skip(n) == all by { assert((o0 + r0.take(n)) + r0.skip(n) =~= o0 + (r0.take(n) + r0.skip(n))); } }
//@exit
        proof { assert(output@ + Seq::<u8>::empty() =~= output@); }
//@end
}
pub open spec fn did(was: SyncClient, now: SyncClient, q: Req) -> bool { now.path == was.path && now.port == was.port && sent(was.agent@, now.agent@, q) }
impl SyncClient {
    pub open spec fn last(self) -> Exchange { self.agent@.last() }
    pub open spec fn url(self, end: Seq<char>) -> Seq<char> { at(self.path@, self.port, end) }
//@fn impl SyncClient | new
        ensures r is Ok ==> r->Ok_0.path@ == path.text() && r->Ok_0.port == port && sent(Seq::empty(), r->Ok_0.agent@, asks(Method::GET, at(path.text(), port, "/healthcheck"@)))
                && r->Ok_0.last().answer is Some && r->Ok_0.last().answer->0.status == 200,
//@rw? `let agent =` => `let mut agent =` -- it remembers what was sent (a ghost)
//@rw? `&mut self.agent` => `&mut agent` -- likewise
//@entry
        proof { lemma_texts(); lemma_sent(Seq::empty()); axiom_question_mark(); }
//@end
//@fn impl SyncClient | get_all_dbs
        ensures did(*old(self), *final(self), q_names(old(self).path@, old(self).port)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; if a.whole { r is Ok == json_names(a.body) is Some && (r is Ok ==> json_names(a.body)->0 == names(r->Ok_0@)) } else { r is Ok ==> json_names(a.body) == Some(names(r->Ok_0@)) } },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | create_new_db
        ensures did(*old(self), *final(self), q_new(old(self).path@, old(self).port, overwrite_existing, name@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok && r->Ok_0 == (a.status == 201) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | get_store
        ensures did(*old(self), *final(self), q_get(old(self).path@, old(self).port, db_name@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; if a.whole { r is Ok == store_of(a.body) is Some && (r is Ok ==> r->Ok_0 == store_of(a.body)->0) } else { r is Err } },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | add_db_with_contents
        ensures did(*old(self), *final(self), q_with(old(self).path@, old(self).port, overwrite_existing, name@, *store)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok && r->Ok_0 == (a.status == 201) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | add_entry_to_db
        ensures did(*old(self), *final(self), q_add(old(self).path@, old(self).port, database_name@, create_new_database_if_needed, overwrite_existing_key, key@, *value)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; (a.whole ==> r is Ok == json_created(a.body) is Some) && (r is Ok ==> json_created(a.body) == Some(r->Ok_0)) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | remove_entry_from_db
        ensures did(*old(self), *final(self), q_rm(old(self).path@, old(self).port, database_name@, key@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
//@fn impl SyncClient | remove_db
        ensures did(*old(self), *final(self), q_rm_db(old(self).path@, old(self).port, database_name@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).agent@); axiom_question_mark(); }
//@end
}
