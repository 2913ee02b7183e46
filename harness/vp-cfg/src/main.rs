mod api;
mod args;
mod inv;
mod toml;
mod url;
mod yaml;

static PROPS: &[vpcore::Prop] = &[toml::T01, toml::T02, yaml::Y01, url::U01, args::A01, inv::W04];

fn main() {
    vpcore::main(PROPS);
}
