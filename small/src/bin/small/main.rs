mod c19;
mod c20;
mod c22;
mod refscram;

fn main() {
    monlib::capture_panics();
    match std::env::args().nth(1).as_deref() {
        Some("C19") => monlib::lead("C19", 12, false, || c19::run()),
        Some("C20") => monlib::lead("C20", 16, false, || c20::run()),
        Some("C22") => monlib::lead("C22", 3, false, || c22::run()),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
