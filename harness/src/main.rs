#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]

mod sys;
mod report;
mod explore;
mod fixture;
mod net;
mod crypto;
mod wire;
mod proof;
mod http;
mod flow;
mod inbox;
mod router;
mod clients;
mod upnp;
mod address;
mod lookup;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).map(String::as_str).unwrap_or("");
    let only = args.iter().position(|a| a == "--unit").and_then(|n| args.get(n + 1).cloned());
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { report::Tier::Thorough } else { report::Tier::Quick };
    let property = match id {
        "C01" => crypto::c01(tier),
        "C02" => crypto::c02(tier),
        "C03" => crypto::c03(tier),
        "C04" => crypto::c04(tier),
        "C05" => wire::c05(tier),
        "C06" => wire::c06(tier),
        "C07" => proof::c07(tier),
        "C08" => proof::c08(tier),
        "C22" => http::c22(tier),
        "C23" => flow::c23(tier),
        "C18" => lookup::c18(tier),
        "C19" => lookup::c19(tier),
        "C20" => address::c20(tier),
        "C21" => upnp::c21(tier),
        "C17" => clients::c17(tier),
        "C09" => router::c09(tier),
        "C15" => router::c15(tier),
        "C16" => router::c16(tier),
        "C10" => inbox::c10(tier),
        "C11" => inbox::c11(tier),
        "C12" => inbox::c12(tier),
        "C13" => inbox::c13(tier),
        "C14" => inbox::c14(tier),
        _ => { eprintln!("unknown property {id:?}"); std::process::exit(2) }
    };
    std::process::exit(report::run(property, tier, only));
}
