mod cmp;
mod entry;
mod model;
mod p_comb;
mod p_eq;
mod p_err;
mod p_obj;
mod p_parse;
mod p_value;
mod runner;
mod spaces;
use runner::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let mut tier = Tier::Quick;
    let mut seed = 1u64;
    let mut out = String::new();
    let mut journal = format!("/tmp/mc-journal-{}", std::process::id());
    let mut known = vec![];
    let mut replay = None;
    let mut replay_len = None;
    let mut slow = false;
    let mut it = args.into_iter().skip(1);
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("argument value");
        match a.as_str() {
            "--tier" => {
                tier = if val() == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--seed" => seed = val().parse().unwrap_or(1),
            "--out" => out = val(),
            "--journal" => journal = val(),
            "--slow" => slow = true,
            // PROP|SPACE|HEX|WHAT per line
            "--known" => {
                for l in std::fs::read_to_string(val()).unwrap_or_default().lines() {
                    let f: Vec<&str> = l.splitn(4, '|').collect();
                    if f.len() == 4 {
                        known.push(Known {
                            prop: f[0].into(),
                            space: f[1].into(),
                            input: unhex(f[2]),
                            what: f[3].into(),
                        });
                    }
                }
            }
            // file with three lines: space, hex, extra
            "--replay" => {
                let t = std::fs::read_to_string(val()).expect("replay file");
                let l: Vec<&str> = t.lines().collect();
                replay_len = l.iter().find_map(|x| x.strip_prefix("prefix ")).and_then(|x| x.parse().ok());
                replay = Some((
                    l[0].to_string(),
                    unhex(l.get(1).unwrap_or(&"")),
                    l.get(2).unwrap_or(&"").to_string(),
                ));
            }
            p => prop = p.to_string(),
        }
    }
    known.retain(|k| k.prop == prop);
    let mut ctx = Ctx::new(&prop, tier, seed, &journal, known);
    ctx.replay = replay;
    ctx.replay_len = replay_len;
    match prop.as_str() {
        "C01" => p_parse::c01(&ctx, slow),
        "C02" => p_parse::c02(&ctx),
        "C03" => p_parse::c03(&ctx),
        "C04" => p_parse::c04(&ctx),
        "C05" => p_parse::c05(&ctx),
        "C06" => p_parse::c06(&ctx),
        "C07" => p_parse::c07(&ctx),
        "C08" => p_parse::c08(&ctx),
        "C09" => p_value::c09(&ctx),
        "C10" => p_value::c10(&ctx),
        "C11" => p_comb::c11(&ctx),
        "C12" => p_comb::c12(&ctx),
        "C13" => p_comb::c13(&ctx),
        "C19" => p_comb::c19(&ctx),
        "C14" => p_value::c14(&ctx),
        "C15" => p_obj::c15(&ctx),
        "C16" => p_obj::c16(&ctx),
        "C17" => p_obj::c17(&ctx),
        "C18" => p_obj::c18(&ctx),
        "C23" => p_err::c23(&ctx),
        "C24" => p_eq::c24(&ctx),
        "C22" => p_parse::c22(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    let v = ctx.violation.lock().unwrap().clone();
    if !out.is_empty() {
        std::fs::write(&out, ctx.report(v.as_ref())).expect("cannot write the report");
    }
    for (what, n) in ctx.known_hit.lock().unwrap().iter() {
        println!("KNOWN {} ({} cases)", what, n);
    }
    if let Some(v) = v {
        println!("FOUND space={}", v.space);
        println!("FOUND input={}", hex(&v.input));
        println!("FOUND extra={}", v.extra);
        println!("FOUND msg={}", v.msg.replace('\n', " "));
        std::process::exit(1);
    }
}
