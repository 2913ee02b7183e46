mod common;
mod huge;
mod markers;
mod odd;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod w;
mod w4;
mod w5;

static PROPS: &[vpcore::Prop] = &[s02::PROP, s03::PROP, s04::PROP, s05::PROP, s06::PROP, w::W01, w::W02, w::W03, w4::W04, w5::W05];

fn main() {
    vpcore::main(PROPS);
}
