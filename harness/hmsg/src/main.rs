//! Monitors for messages: hmsg <property> <seed> <cases> <secs> <out.json> [case]
#![recursion_limit = "256"]

mod cmp;
mod model;
mod prefix;
#[cfg(feature = "full")] mod ba;
#[cfg(feature = "full")] mod fit;
#[cfg(feature = "full")] mod ts;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let num = |i: usize| a.get(i).and_then(|v| v.parse::<u64>().ok());
	let (seed, n, secs) = (num(2).unwrap_or(1), num(3).unwrap_or(1000), num(4).unwrap_or(60));
	let out = a.get(5).cloned().unwrap_or_else(|| "/dev/stdout".to_owned());
	let only = num(6);
	match a.get(1).map_or("", String::as_str) {
		"C01" => hcommon::run("C01", seed, n, secs, only, &out, |_, r, s| model::history(r, s, false)),
		"C02" => hcommon::run("C02", seed, n, secs, only, &out, |_, r, s| model::history(r, s, true)),
		"C03" => hcommon::run("C03", seed, n.max(prefix::GRID), secs, only, &out, prefix::case),
		"C04" => hcommon::run("C04", seed, n, secs, only, &out, cmp::case),
		#[cfg(feature = "full")] "C05" => ts::run(seed, &out),
		#[cfg(feature = "full")] "C08" => hcommon::run("C08", seed, n, secs, only, &out, fit::width_case),
		#[cfg(feature = "full")] "C09" => hcommon::run("C09", seed, n, secs, only, &out, fit::fit_case),
		#[cfg(feature = "full")] "C23" => hcommon::run("C23", seed, n, secs, only, &out, ba::case),
		_ => { eprintln!("usage: hmsg PROPERTY SEED CASES SECS OUT [CASE]"); std::process::exit(2); },
	}
}
