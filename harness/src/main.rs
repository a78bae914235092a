use vh::props::*;
use vh::runner::{main_with, Ctx, Meter};

#[global_allocator]
static METER: Meter = Meter;

fn run(id: &str, ctx: &Ctx) -> Option<(serde_json::Value, Vec<&'static str>)> {
    Some(match id {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C19" => c19::run(ctx),
        "C22" => c22::run(ctx),
        "C25" => c25::run(ctx),
        "C26" => c26::run(ctx),
        _ => return None,
    })
}

fn main() {
    main_with(run)
}
