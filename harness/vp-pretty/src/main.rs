mod p;
static PROPS: &[vpcore::Prop] = &[p::P01, p::P02];
fn main() {
    vpcore::main(PROPS);
}
