//! Game and message events: the whole bit packed stream format.
use crate::bits::{C, W};
use crate::p_prim::bit_at;
use crate::sym;
use s2protocol::versions::protocol75689::bit_packed as b75;
use s2protocol::versions::protocol87702::bit_packed as b87;
use s2protocol::S2ProtoResult;

type R<'a, E> = S2ProtoResult<(&'a [u8], usize), (i64, i64, E)>;
/// delta, user and event of one record; the next record starts at the next byte.
pub fn plan<E: W>(c: &mut C) -> bool {
    let d = <b87::SVarUint32 as W>::p(c) && <b87::ReplaySGameUserId as W>::p(c);
    c.next_free = true;
    let r = d && E::p(c);
    c.align();
    r
}
/// The delta of a record, with the cursor moved behind it.
pub fn delta(c: &mut C) -> i64 {
    let t = sym::concretize(c.read(2)) as usize;
    c.read([6, 14, 22, 32][t]) as i64
}
fn verify<E: W>(d: &[u8], ok: bool, end: usize, r: R<E>) {
    match r {
        Ok((t, (dl, user, e))) => {
            sym::check(ok, "a record with an unknown variant is rejected");
            sym::check(bit_at(d, t) == end, "a record ends at the byte boundary behind its event");
            let mut c = C::new(d);
            let w = delta(&mut c);
            sym::check(dl == w, "delta");
            c.vi(user, 0, 5, "user id");
            e.v(&mut c);
            sym::observe(dl as u64); sym::observe(user as u64); sym::observe(c.pos as u64);
            sym::cover("decoded");
        }
        Err(_) => { sym::check(!ok, "a well formed record is accepted"); sym::cover("rejected"); }
    }
}
const N: usize = 200;
fn layout<E: W>(dev: u32, f: for<'a> fn((&'a [u8], usize)) -> R<'a, E>) {
    let mut d = sym::bytes::<N>();
    let mut c = C::plan(&mut d, dev);
    let ok = plan::<E>(&mut c);
    let end = c.pos;
    verify(&d[..end / 8], ok, end, f((&d[..end / 8], 0)));
}
fn trunc<E: W>(dev: u32, f: for<'a> fn((&'a [u8], usize)) -> R<'a, E>) {
    let mut d = sym::bytes::<N>();
    let mut c = C::plan(&mut d, dev);
    let ok = plan::<E>(&mut c);
    let need = c.pos / 8;
    let n = sym::choice(need as u8);
    sym::check(!ok || f((&d[..n], 0)).is_err(), "a truncated record is rejected");
    sym::cover("truncated");
}
entry! { h_game87 { layout::<b87::GameEEventId>(2, b87::GameEEventId::parse_event_triplet) }}
entry! { h_game75 { layout::<b75::GameEEventId>(2, b75::GameEEventId::parse_event_triplet) }}
entry! { h_game87_deep { layout::<b87::GameEEventId>(4, b87::GameEEventId::parse_event_triplet) }}
entry! { h_game75_deep { layout::<b75::GameEEventId>(4, b75::GameEEventId::parse_event_triplet) }}
entry! { h_msg87 { layout::<b87::GameEMessageId>(3, b87::GameEMessageId::parse_event_triplet) }}
entry! { h_game87_trunc { trunc::<b87::GameEEventId>(1, b87::GameEEventId::parse_event_triplet) }}
entry! { h_game75_trunc { trunc::<b75::GameEEventId>(1, b75::GameEEventId::parse_event_triplet) }}
entry! { h_msg87_trunc { trunc::<b87::GameEMessageId>(1, b87::GameEMessageId::parse_event_triplet) }}
// A known finding: the crate's own tests pin one zero byte here.
entry! { h_empty_string {
    let mut d = sym::bytes::<3>();
    d[0] = 0;
    d[1] &= !7;                    // no characters
    let (_, v) = b87::GameCTriggerChatMessageString::parse((&d, 0)).unwrap();
    sym::check(v.value.is_empty(), "an empty string decodes to an empty string");
}}
