mod big;
mod choice;
mod r#gen;
mod odd;
mod parse;
mod probe;
mod refg;
mod run;
mod text;
mod uni;
mod values;

use run::*;

fn stages(prop: &str, tier: Tier) -> Option<Vec<Stage>> {
    let mut all = match prop {
        "C01" => parse::stages(parse::Want::Sound, tier),
        "C02" => parse::stages(parse::Want::Accept, tier),
        "C03" => parse::stages(parse::Want::ExactlyOnce, tier),
        "C04" => parse::stages(parse::Want::Cyclic, tier),
        "C05" => parse::c05(tier),
        "C06" => parse::c06(tier),
        "C07" => values::c07(tier),
        "C20" => values::rendering(values::Render::Text, tier),
        "C21" => values::rendering(values::Render::Mermaid, tier),
        "C22" => values::c22(tier),
        "C08" => text::c08(tier),
        "C09" => text::c09(tier),
        "C10" => text::c10(tier),
        "C11" => text::c11(tier),
        "C12" => r#gen::c12(tier),
        "C13" => r#gen::c13(tier),
        "C14" => r#gen::c14(tier),
        "C15" => r#gen::c15(tier),
        "C16" => r#gen::c16(tier),
        "C17" => r#gen::c17(tier),
        "C18" => r#gen::c18(tier),
        "C19" => r#gen::c19(tier),
        "C25" => text::c25(tier),
        _ => return None,
    };
    // extreme sizes last
    all.sort_by_key(|s| s.soft);
    Some(all)
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let usage = || -> ! {
        eprintln!("usage: mc check PROP TIER | mc case PROP TIER STAGE INDEX");
        std::process::exit(2)
    };
    match args.get(1).map(String::as_str) {
        Some("check") if args.len() == 4 => {
            let tier = tier_of(&args[3]);
            let Some(st) = stages(&args[2], tier) else { usage() };
            let rep = Report { prop: &args[2], tier, verif: &verif, assumptions: vec![], known: vec![] };
            std::process::exit(explore(&rep, st));
        }
        Some("probe") if args.len() == 3 => std::process::exit(probe::run(&args[2])),
        Some("digest-gen") => println!("{}", r#gen::c16_digest()),
        Some("digest-parse") => {
            let order: Vec<usize> = args[2..].iter().filter_map(|s| s.parse().ok()).collect();
            for l in parse::parse_digest(&order) {
                println!("{l}");
            }
        }
        Some("stages") if args.len() == 4 => {
            for s in stages(&args[2], tier_of(&args[3])).unwrap_or_else(|| usage()) {
                println!("{}", s.name);
            }
        }
        Some("case") if args.len() == 6 => {
            let tier = tier_of(&args[3]);
            let Some(st) = stages(&args[2], tier) else { usage() };
            let Some(s) = st.into_iter().find(|s| s.name == args[4]) else { usage() };
            let idx: u64 = args[5].parse().unwrap_or_else(|_| usage());
            let r = std::thread::Builder::new()
                .stack_size(128 << 20)
                .spawn(move || run_case(&s, idx, &mut Cx::default()))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok(()) => println!("case holds"),
                Err(e) => {
                    println!("{e}");
                    std::process::exit(1);
                }
            }
        }
        _ => usage(),
    }
}
