use crate::ctx::Ctx;
use crate::rng::Rng;

pub mod c01;
pub mod consist;
pub mod equiv;
pub mod formula;
pub mod infer;
pub mod meta;
pub mod optim;
pub mod robust;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, &mut Rng),
    pub rule: &'static str,
    /// oracles that must have been evaluated at least once for the run to count
    pub need: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![c01::prop()];
    v.extend(optim::props());
    v.extend(formula::props());
    v.extend(equiv::props());
    v.extend(infer::props());
    v.extend(robust::props());
    v.extend(consist::props());
    v
}
