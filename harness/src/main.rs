mod util;
mod props;
fn main() {
    vapi::main_with(props::registry)
}
