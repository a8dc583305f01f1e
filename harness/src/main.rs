mod fw;
mod geo;
mod hull;
mod misc;
mod isect;
mod shapes;
mod simp;
mod sweep;

#[global_allocator]
static A: fw::Counting = fw::Counting;

fn props() -> Vec<fw::Prop> {
    let mut v = vec![];
    v.extend(hull::props());
    v.extend(misc::props());
    v.extend(isect::props());
    v.extend(shapes::props());
    v.extend(simp::props());
    v.extend(sweep::props());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ps = props();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &ps {
                println!("{}\t{}", p.id, p.bound);
            }
        }
        Some("search") => {
            let p = ps.iter().find(|p| p.id == a[2]).expect("unknown property");
            let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
            let secs: u64 = get("--secs").map_or(60, |s| s.parse().unwrap());
            let max: usize = get("--max").map_or(1, |s| s.parse().unwrap());
            let known: Vec<String> = get("--known").map_or(vec![], |f| {
                std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
            });
            let thorough = get("--tier").map_or(false, |t| t == "thorough");
            let o = fw::search(p, seed, thorough, secs, max, &known);
            for (c, e) in o.failures.iter().take(max) {
                println!("FAIL {} | {} | {}", p.id, c, e);
            }
            println!("SEARCHED {} exhaustive={} random={} failures={} bound={}", p.id, o.exh, o.rnd, o.failures.len(), p.bound);
            println!("DISTINCT {}", o.distinct);
            for c in &o.samples {
                println!("SAMPLE {}", c);
            }
            if !o.failures.is_empty() {
                std::process::exit(1);
            }
        }
        Some("replay") => {
            // replay <id> <tag> ints...
            let p = ps.iter().find(|p| p.id == a[2]).expect("unknown property");
            let v: Vec<i64> = a[4..].iter().map(|s| s.parse().unwrap()).collect();
            let id = p.id;
            let c = fw::case_str(&a[3], &v);
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(20));
                println!("FAIL {} | {} | the call did not return within 20s (does not terminate)", id, c);
                std::process::exit(1);
            });
            match fw::guarded(p.check, &a[3], &v) {
                Ok(()) => println!("PASS {} | {}", p.id, fw::case_str(&a[3], &v)),
                Err(e) => {
                    println!("FAIL {} | {} | {}", p.id, fw::case_str(&a[3], &v), e);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: lsprobe list | search ID [--seed N --secs N --max N --tier quick|thorough --known FILE] | replay ID TAG INTS...");
            std::process::exit(2);
        }
    }
}
