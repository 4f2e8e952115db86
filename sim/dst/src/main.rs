mod big;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod curveops;
mod engine;
mod fieldops;
mod net;
mod plan;
mod proc;
mod rng;
mod steer;
mod yieldpt;

static ALL: &[&'static dyn plan::Scenario] = &[&c01::C01, &c02::C02, &c03::C03, &c04::C04, &c05::C05, &c06::C06, &c07::C07, &c08::C08, &c09::C09, &c10::C10, &c11::C11];

extern "C" {
    fn mallopt(k: i32, v: i32) -> i32;
}

fn main() {
    // One arena: with one per thread, the order in which threads first allocate, which the
    // kernel decides, would show in the addresses they get (M_ARENA_MAX).
    unsafe { mallopt(-8, 1) };
    let a: Vec<String> = std::env::args().collect();
    plan::install_panic_hook();
    curveops::prepare();
    let root = std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => match ALL.iter().find(|s| Some(s.id()) == a.get(2).map(|x| x.as_str())) {
            Some(s) => engine::check(*s, &root),
            None => {
                println!("no scenario for {:?}", a.get(2));
                2
            }
        },
        Some("survey") => match ALL.iter().find(|s| Some(s.id()) == a.get(2).map(|x| x.as_str())) {
            Some(s) => engine::survey(*s, a.get(3).and_then(|x| x.parse().ok()).unwrap_or(20000)),
            None => 2,
        },
        Some("replay") if a.len() > 2 => engine::replay(ALL, &a[2]),
        _ => {
            println!("usage: dst check <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
