//! The properties, one struct each.
pub mod accept;
pub mod builder;
pub mod config;
pub mod cost;
pub mod encoders;
pub mod history;
pub mod journey;
pub mod picture;
pub mod relations;
pub mod text;
pub mod values;

use crate::engine::{replay, run, Cx, Prop, Replay};

#[macro_export]
macro_rules! with_prop {
    ($id:expr, $p:ident => $body:expr, $none:expr) => {{
        use $crate::model::sym::Sym;
        use $crate::props::*;
        match $id {
            "C01" => { let $p = encoders::Enc::new("C01", &[Sym::Ean13, Sym::Bookland, Sym::Jan]); $body }
            "C02" => { let $p = encoders::Enc::new("C02", &[Sym::Ean8]); $body }
            "C03" => { let $p = encoders::Enc::new("C03", &[Sym::Upca]); $body }
            "C04" => { let $p = encoders::Enc::new("C04", &[Sym::Supp]); $body }
            "C05" => { let $p = relations::CheckDigit; $body }
            "C06" => { let $p = encoders::Enc::new("C06", &[Sym::Code39, Sym::Code39Check]); $body }
            "C07" => { let $p = encoders::Enc::new("C07", &[Sym::Code93]); $body }
            "C08" => { let $p = encoders::Enc::new("C08", &[Sym::Code11, Sym::Usd8]); $body }
            "C09" => { let $p = encoders::Enc::new("C09", &[Sym::Code128]); $body }
            "C10" => { let $p = accept::Accept128; $body }
            "C11" => { let $p = encoders::Enc::new("C11", &[Sym::Codabar]); $body }
            "C12" => { let $p = encoders::Enc::new("C12", &[Sym::Itf]); $body }
            "C13" => { let $p = encoders::Enc::new("C13", &[Sym::Stf]); $body }
            "C14" => { let $p = accept::Accept; $body }
            "C15" => { let $p = relations::Clean; $body }
            "C16" => { let $p = text::Ascii; $body }
            "C17" => { let $p = text::Json; $body }
            "C18" => { let $p = text::SvgGeometry; $body }
            "C19" => { let $p = text::SvgColours; $body }
            "C20" => { let $p = picture::Buffer; $body }
            "C21" => { let $p = picture::Rotation; $body }
            "C22" => { let $p = picture::Files; $body }
            "C23" => { let $p = picture::Refusal; $body }
            "C24" => { let $p = journey::Journey; $body }
            "C25" => { let $p = history::History; $body }
            "C26" => { let $p = config::Config; $body }
            "C27" => { let $p = builder::Builder; $body }
            "C28" => { let $p = relations::Typos; $body }
            "C29" => { let $p = cost::Cost; $body }
            "C30" => { let $p = values::Values; $body }
            _ => $none,
        }
    }};
}

pub const IDS: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30",
];

pub fn run_id(id: &str, cx: &Cx) -> i32 {
    with_prop!(id, p => run(p, cx), {
        eprintln!("ERROR: no property {id}");
        2
    })
}

pub fn replay_id(r: &Replay, cx: &Cx, path: &str) -> i32 {
    with_prop!(&r.property[..], p => replay(p, cx, r, path), {
        eprintln!("ERROR: no property {}", r.property);
        2
    })
}

pub fn smaller(r: &Replay) -> Vec<Replay> {
    with_prop!(&r.property[..], p => crate::engine::smaller_replays(p, r), vec![])
}

pub fn prepare_id(id: &str, cx: &Cx) -> i32 {
    let r = with_prop!(id, p => p.prepare(cx), Err(format!("no property {id}")));
    match r {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("ERROR: {e}");
            2
        }
    }
}
