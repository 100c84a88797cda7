//! needs client
use crate::client::*;
use alloc::vec::Vec;
use alloc::vec;
use alloc::string::String;
//@src crates/sourisdb/src/client/async_client.rs
pub type Response = ReqwestResponse;
pub struct AsyncClient { pub path: String, pub port: u32, pub client: Client }
pub const DEFAULT_SOURISD_PORT: u32 = 7687;
//@formats
//@always `.await` => `` -- what an async function does between its suspensions is what a function does
//@always `String::from(` => `text_of(` -- texts
//@always `impl Display` => `impl AsText` -- Display
//@always `.to_string()` => `.as_text()` -- Display
//@always `.send()` => `.send(&mut self.client)` -- the client remembers what was sent (a ghost)
//@always `println!($x_)` => `()` -- output
//@always `unreachable!($x_)` => `never()` -- must not be reached
impl ReqwestResponse {
//@fn impl ResponseExt for Response | error_for_status_to_client_error
        requires api(self@),
        ensures r == if self@.status < 400 { Ok::<StatusCode, ClientError>(sc(self@.status)) } else { Err::<StatusCode, ClientError>(ClientError::HttpErrorCode(sc(self@.status))) },
//@end
}
pub open spec fn did(was: AsyncClient, now: AsyncClient, q: Req) -> bool { now.path == was.path && now.port == was.port && sent(was.client@, now.client@, q) }
impl AsyncClient {
    pub open spec fn last(self) -> Exchange { self.client@.last() }
//@fn impl AsyncClient | new
        ensures r is Ok ==> r->Ok_0.path@ == path.text() && r->Ok_0.port == (match port { Some(p) => p, None => 7687 }) && sent(Seq::empty(), r->Ok_0.client@, asks(Method::GET, at(path.text(), r->Ok_0.port, "/healthcheck"@)))
                && r->Ok_0.last().answer is Some && r->Ok_0.last().answer->0.status == 200,
//@rw? `let client =` => `let mut client =` -- it remembers what was sent (a ghost)
//@rw? `&mut self.client` => `&mut client` -- likewise
//@entry
        proof { lemma_texts(); lemma_sent(Seq::empty()); axiom_question_mark(); }
//@end
//@fn impl AsyncClient | get_all_dbs
        ensures did(*old(self), *final(self), q_names(old(self).path@, old(self).port)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; (a.whole ==> r is Ok == json_names(a.body) is Some) && (r is Ok ==> json_names(a.body) == Some(names(r->Ok_0@))) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | create_new_db
        ensures did(*old(self), *final(self), q_new(old(self).path@, old(self).port, overwrite_existing, name@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok && r->Ok_0 == (a.status == 201) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | get_store
        ensures did(*old(self), *final(self), q_get(old(self).path@, old(self).port, db_name@)),
            refused(final(self).last()) ==> if final(self).last().answer is Some && final(self).last().answer->0.status == 410 { r == Ok::<Option<Store>, ClientError>(None) } else { refusal(final(self).last(), r) },
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; if a.whole { r is Ok == store_of(a.body) is Some && (r is Ok ==> r->Ok_0 == store_of(a.body)) } else { r is Err } },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | add_db_with_contents
        ensures did(*old(self), *final(self), q_with(old(self).path@, old(self).port, overwrite_existing, name@, *store)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok && r->Ok_0 == (a.status == 201) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | add_entry_to_db
        ensures did(*old(self), *final(self), q_add(old(self).path@, old(self).port, database_name@, create_new_database_if_needed, overwrite_existing_key, key@, *value)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; (a.whole ==> r is Ok == json_created(a.body) is Some) && (r is Ok ==> json_created(a.body) == Some(r->Ok_0)) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | remove_entry_from_db
        ensures did(*old(self), *final(self), q_rm(old(self).path@, old(self).port, database_name@, key@)),
            refused(final(self).last()) ==> refusal(final(self).last(), r),
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r is Ok },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
//@fn impl AsyncClient | remove_db
        ensures did(*old(self), *final(self), q_rm_db(old(self).path@, old(self).port, database_name@)),
            refused(final(self).last()) ==> if final(self).last().answer is Some && final(self).last().answer->0.status == 410 { r == Ok::<bool, ClientError>(false) } else { refusal(final(self).last(), r) },
            !refused(final(self).last()) ==> { let a = final(self).last().answer->0; r == Ok::<bool, ClientError>(true) },
//@mutself
//@entry
        proof { lemma_texts(); lemma_sent(old(self).client@); axiom_question_mark(); lemma_with_all(); }
//@end
}
