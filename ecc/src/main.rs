mod backend;
mod c17;
mod c18;
mod curve;
mod proto;
use vh::runner::{main_with, Ctx, Meter};

#[global_allocator]
static METER: Meter = Meter;

fn run(id: &str, ctx: &Ctx) -> Option<(serde_json::Value, Vec<&'static str>)> {
    Some(match id {
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        _ => return None,
    })
}

fn main() {
    main_with(run)
}
