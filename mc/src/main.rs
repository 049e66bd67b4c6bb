mod calls_jobs;
mod cases;
mod cost_jobs;
mod driver;
mod families;
mod faults_jobs;
mod fmt_jobs;
mod glue_rust;
mod large;
mod install_jobs;
mod lang_jobs;
mod names_jobs;
mod places_jobs;
mod report;
mod rust_jobs;
mod same_jobs;
mod tree_jobs;
mod ts_jobs;
mod rules_jobs;
mod where_jobs;

use report::Report;

fn main() {
    // The stand-ins of the check of the installer.
    if std::env::var_os("MC_STUB_LOG").is_some() {
        let name = std::env::args().next().unwrap_or_default();
        std::process::exit(install_jobs::stub(name.rsplit('/').next().unwrap_or_default()));
    }
    let args: Vec<String> = std::env::args().collect();
    let property = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let report = Report::new(&property, tier == "thorough");
    let status = match property.as_str() {
        "C01" => rust_jobs::c01(&report),
        "C02" => rust_jobs::c02(&report),
        "C03" => ts_jobs::c03(&report),
        "C04" => rust_jobs::c04(&report),
        "C05" => rust_jobs::c05(&report),
        "C06" => rust_jobs::c06(&report),
        "C07" => rust_jobs::c07(&report),
        "C08" => names_jobs::c08(&report),
        "C09" => names_jobs::c09(&report),
        "C10" => lang_jobs::c10(&report),
        "C11" => lang_jobs::c11(&report),
        "C12" => lang_jobs::c12(&report),
        "C13" => fmt_jobs::c13(&report),
        "C14" => fmt_jobs::c14(&report),
        "C15" => tree_jobs::c15(&report),
        "C16" => faults_jobs::c16(&report),
        "C17" => same_jobs::c17(&report),
        "C18" => where_jobs::c18(&report),
        "C19" => rules_jobs::c19(&report),
        "C20" => calls_jobs::c20(&report),
        "C21" => install_jobs::c21(&report),
        "C22" => cost_jobs::c22(&report),
        "C24" => rust_jobs::c24(&report),
        "C23" => places_jobs::c23(&report),
        "count" => rust_jobs::count(&report),
        _ => {
            eprintln!("unknown property {property:?}");
            3
        }
    };
    driver::remove_scratch();
    std::process::exit(status);
}
