mod gen;
mod lab;
mod prog;
mod c20;
mod c21;
mod c23;
mod c24;
mod values;
use vh::runner::{main_with, Ctx, Meter};

#[global_allocator]
static METER: Meter = Meter;

fn run(id: &str, ctx: &Ctx) -> Option<(serde_json::Value, Vec<&'static str>)> {
    Some(match id {
        "C20" => c20::run(ctx),
        "C21" => c21::run(ctx),
        "C23" => c23::run(ctx),
        "C24" => c24::run(ctx),
        _ => return None,
    })
}

fn main() {
    main_with(run)
}
