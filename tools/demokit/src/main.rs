mod chain;
mod codes;
mod kit;
mod proto;
mod scenario;

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    match std::panic::catch_unwind(scenario::run) {
        Ok(true) => println!("property holds"),
        Ok(false) => {
            println!("property violated");
            std::process::exit(1)
        }
        Err(_) => std::process::exit(3),
    }
}
