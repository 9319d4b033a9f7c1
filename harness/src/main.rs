mod certs;
mod checks;
mod clock;
mod ctx;
mod exec;
mod gen;
mod mocks;
mod refs;

fn main() {
    ctx::main(checks::find)
}
