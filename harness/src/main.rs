mod bloom;
mod ctors;
mod cuckoo;
mod fw;
mod hashing;
mod numbers;
mod quotient;
mod sketch;
mod similar;
mod equal;
mod storage;
use fw::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn drivers() -> Vec<(&'static str, RunFn)> {
    vec![
        ("bloom", bloom::run_bloom as RunFn),
        ("part", bloom::run_part),
        ("scal", bloom::run_scal),
        ("bits", bloom::run_bits),
        ("stream", bloom::run_stream),
        ("cuckoo", cuckoo::run_cuckoo),
        ("scuckoo", cuckoo::run_scuckoo),
        ("quotient", quotient::run_quotient),
        ("cms", sketch::run_cms),
        ("hll", sketch::run_hll),
        ("minhash", similar::run_minhash),
        ("simhash", similar::run_simhash),
        ("report", similar::run_report),
        ("jaccard", similar::run_jaccard),
        ("shingle", similar::run_shingle),
        ("bsvec", storage::run_bsvec),
        ("bloomeq", equal::run_bloomeq),
        ("cuckooeq", equal::run_cuckooeq),
        ("sipeq", equal::run_sipeq),
        ("bitvec", storage::run_bitvec),
        ("sip", hashing::run_sip),
        ("keys", hashing::run_keys),
        ("ctor", ctors::run_ctor),
        ("sizes", numbers::run_sizes),
        ("estimates", numbers::run_estimates),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if args[1] == "replay" {
        // replay <prop> <file> [tries]: exit 1 when the case fails
        let txt = std::fs::read_to_string(&args[3]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("json");
        let c: Case = serde_json::from_value(v["case"].clone()).expect("case");
        let tries: usize = args.get(4).map(|x| x.parse().unwrap()).unwrap_or(2000);
        let ds = drivers();
        let f = ds.iter().find(|d| d.0 == c.driver).expect("driver").1;
        for _ in 0..tries {
            if let Some(m) = exec_case(f, &c, &args[2]) {
                println!("{}", m);
                std::process::exit(1);
            }
        }
        println!("held in {} executions", tries);
        return;
    }
    // search <prop> <seed> <seconds> <quick|thorough> <report file>
    let prop = args[2].clone();
    let seed: u64 = args[3].parse().unwrap();
    let secs: f64 = args[4].parse().unwrap();
    let cur = Arc::new(Mutex::new((None, Instant::now())));
    let out = args[6].clone();
    let mut c = Ctx {
        prop: prop.clone(),
        rng: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1)),
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        thorough: args[5] == "thorough",
        evals: 0,
        distinct: Default::default(),
        samples: vec![],
        failure: None,
        cur: cur.clone(),
        exhausted: vec![],
        drivers: drivers(),
    };
    {
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = cur.lock().unwrap();
            if let (Some(case), t) = &*g {
                if t.elapsed() > Duration::from_secs(25) {
                    let v = serde_json::json!({"failed": true, "message": "an operation of this case did not terminate within 25 s",
                        "case": case, "evaluations": 0, "distinct": 0, "samples": [], "exhausted": []});
                    std::fs::write(&out, v.to_string()).unwrap();
                    std::process::exit(1);
                }
            }
        });
    }
    ctors::search(&mut c);
    match prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => bloom::search(&mut c),
        "C07" | "C08" | "C09" => cuckoo::search(&mut c),
        "C10" | "C11" => quotient::search(&mut c),
        "C12" | "C13" | "C14" => sketch::search(&mut c),
        "C15" | "C16" | "C17" | "C18" | "C24" => similar::search(&mut c),
        "C25" => {
            cuckoo::search(&mut c);
            bloom::search(&mut c);
        }
        "C19" => storage::search(&mut c),
        "C27" => {
            let t = c.deadline;
            c.deadline = Instant::now() + (t - Instant::now()) / 2;
            storage::search(&mut c);
            c.deadline = t;
            equal::search(&mut c);
        }
        "C21" | "C26" => numbers::search(&mut c),
        "C23" => hashing::search(&mut c),
        _ => panic!("unknown property"),
    }
    let (failed, msg, case) = match &c.failure {
        Some((case, m)) => (true, m.clone(), Some(case.clone())),
        None => (false, String::new(), None),
    };
    let v = serde_json::json!({"failed": failed, "message": msg, "case": case, "evaluations": c.evals,
        "distinct": c.distinct.len(), "samples": c.samples, "exhausted": c.exhausted});
    std::fs::write(&out, v.to_string()).unwrap();
    std::process::exit(if failed { 1 } else { 0 });
}
