//! C08: the parser against the reference parser.

use crate::api::*;
use crate::engine::*;
use crate::fail;
use crate::model::*;
use crate::props::tokens;

fn compare<A: Api>(c: &mut Ctx, t: &[u8], want: &Verdict<'_>) -> Res {
    let Some(tt) = A::text(t) else { return Ok(()) };
    c.step(1);
    let got = A::parse(tt);
    match (want, got) {
        (Verdict::Unspecified(_), _) => Ok(()),
        (Verdict::Accept(m), Ok(p)) => {
            let v = view(&p);
            if v == *m {
                Ok(())
            } else {
                fail!("{}: parses to {v:?}, the text says {m:?}", A::NAME)
            }
        }
        (Verdict::Accept(_), Err(e)) => fail!("{}: a well-formed patch is rejected: {e}", A::NAME),
        (Verdict::Reject(why), Ok(p)) => fail!("{}: accepted as {:?} although: {why}", A::NAME, view(&p)),
        (Verdict::Reject(_), Err(_)) => Ok(()),
    }
}

pub fn c08_text(c: &mut Ctx, t: &[u8]) -> Res {
    let want = ref_parse(t);
    c.states += 1;
    c.traces += 1;
    c.cat(match &want {
        Verdict::Accept(_) => "accepted",
        Verdict::Reject(r) => r,
        Verdict::Unspecified(_) => "unspecified (no opinion)",
    });
    match &want {
        Verdict::Accept(m) => c.outcome(m),
        Verdict::Reject(r) | Verdict::Unspecified(r) => c.outcome(r),
    }
    compare::<B>(c, t, &want)?;
    compare::<S>(c, t, &want)
}

pub fn c08(t: Tier) -> Vec<Box<dyn Space>> {
    tokens::text_spaces(tokens::parse_gens(t), c08_text)
}
