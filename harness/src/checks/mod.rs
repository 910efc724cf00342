use crate::engine::Check;
pub mod apperr;
pub mod core;
pub mod diag;
pub mod history;
pub mod hostile;
pub mod kinds;
pub mod logtrace;
pub mod meta;
pub mod notation;
pub mod recstack;
pub mod serde_io;
pub mod state;
pub mod text;
pub mod typed;
pub mod ways;

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(core::checks());
    v.extend(history::checks());
    v.extend(typed::checks());
    v.extend(serde_io::checks());
    v.extend(meta::checks());
    v.extend(state::checks());
    v.extend(text::checks());
    v.extend(recstack::checks());
    v.extend(hostile::checks());
    v.extend(apperr::checks());
    v.extend(diag::checks());
    v.extend(logtrace::checks());
    v.extend(kinds::checks());
    v
}
