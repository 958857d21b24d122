use harness::mon::{install_hook, Shared};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let sh = Shared::from_args(&args);
    install_hook();
    match sh.prop.as_str() {
        "C01" => harness::qry::c01(&sh),
        "C02" => harness::qry::c02(&sh),
        "C03" => harness::qry::c03(&sh),
        "C04" => harness::qry::c04(&sh),
        "C06" => harness::sets::c06(&sh),
        "C07" => harness::sets::c07(&sh),
        "C08" => harness::data::c08(&sh),
        "C09" => harness::data::c09(&sh),
        "C10" => harness::data::c10(&sh),
        "C11" => harness::data::c11(&sh),
        "C12" => harness::cats::c12(&sh),
        "C13" => harness::cats::c13(&sh),
        "C14" => harness::cats::c14(&sh),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(101);
        }
    }
    std::process::exit(sh.finish());
}
