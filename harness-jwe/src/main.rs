//! C18: encrypted responses, monitored by decrypting every one of them independently.
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../harness/src/refs.rs"]
mod refs;
mod c18;

fn main() {
    ctx::main(|id| match id {
        "C18" => Some(c18::c18),
        _ => None,
    })
}
