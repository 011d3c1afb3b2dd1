#![allow(dead_code)]
mod broken;
mod case;
mod cmd;
mod damage;
mod fault;
mod gen;
mod image;
mod model;
mod prog;
mod props;
mod range;
mod run;
mod runner;
mod tape;
mod touch;
mod verify;
mod write;

/// An error of the check itself: neither "held" nor "violated".
pub fn fatal(m: &str) -> ! {
    eprintln!("dldcheck: {}", m);
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("check") if a.len() == 3 => runner::check(&a[2]),
        Some("replay") if a.len() == 3 => runner::replay(&a[2]),
        Some("build") => {
            let s = run::Scratch::new("b");
            run::build_dld(&s.path);
        }
        Some("dump") if a.len() == 4 => runner::dump(&a[2], &a[3]),
        _ => fatal("usage: dldcheck check <property> | replay <file> | dump <replay file> <directory>"),
    }
}
