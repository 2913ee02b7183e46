mod doc;
mod j;
mod sem;

static PROPS: &[vpcore::Prop] = &[j::J01, j::J02, j::J03, j::J04, j::W04];

fn main() {
    vpcore::main(PROPS);
}
