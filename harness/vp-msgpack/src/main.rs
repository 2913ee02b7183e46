mod m;
mod mp;

static PROPS: &[vpcore::Prop] = &[m::M01, m::M02, m::M03, m::W04];

fn main() {
    vpcore::main(PROPS);
}
