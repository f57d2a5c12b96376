mod check;
mod e2e;
mod gen_;
mod known;
mod profiles;
mod props;
mod rf;
mod run;
mod tool;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let u = |i: usize| a[i].parse::<u64>().unwrap();
    let code = match a[1].as_str() {
        "check" => check::check(&a[2], &a[3]),
        "worker" => { check::worker(&a[2], u(3), u(4), u(5), u(6)); 0 }
        "case" => { check::one_case(&a[2], u(3)); 0 }
        "replay" => check::replay(&a[2]),
        "many" => { check::many(&a[2], u(3), a.get(4).map(|x| x.parse().unwrap()).unwrap_or(0)); 0 }
        _ => 2,
    };
    std::process::exit(code);
}
