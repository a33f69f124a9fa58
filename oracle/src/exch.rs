//! The simulated exchanges: what each would answer, when, and what that answer is worth.
use serde::{Deserialize, Serialize};
use simcore::H;

pub const ASSETS: [&str; 4] = ["USDT", "USDC", "DOT", "PLMC"];
pub const KEYS: [u32; 4] = [1984, 1337, 10, 3344];
pub const EXCHANGES: [&str; 6] = ["Kraken", "Bitfinex", "Bitstamp", "Coinbase", "XT", "MEXC"];
/// Which exchange lists which asset.
pub fn lists(ex: usize, a: usize) -> bool {
	match ex {
		0..=2 => a < 3,
		3 => a == 0 || a == 2,
		_ => a == 3,
	}
}
/// How many candles count, and how many minutes each one spans.
pub fn canon(ex: usize) -> (usize, u64) {
	if ex >= 4 {
		(10, 30)
	} else {
		(15, 1)
	}
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
	/// All is well: the answer comes after so many milliseconds, in so many pieces.
	Ok { ms: u64, pieces: u8 },
	/// The request cannot be started, or not be sent.
	NoStart,
	NoSend,
	/// The connection breaks before the answer.
	Broken { ms: u64 },
	/// No answer ever.
	Silent,
	/// Another status than 200.
	Status { code: u16, ms: u64 },
	/// The body comes in pieces over this time.
	Trickle { ms: u64 },
	/// The body stops, or the connection breaks, after so many per mille.
	Stops { mille: u16 },
	Breaks { mille: u16 },
	/// The body is complete but is no proper answer.
	Cut { mille: u16 },
	Garbage { kind: u8 },
	/// Fewer candles than asked for.
	Few { n: u8 },
	/// Nothing was traded.
	Still,
	/// One number is absurd.
	Absurd { kind: u8, field: u8, at: u8 },
	/// Numbers so big that sums and products leave the range.
	Huge { price: u8, volume: u8 },
}

/// Whether an answer may enter the price.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Worth {
	Proper,
	Either,
	Never,
}

#[derive(Clone, Debug)]
pub enum Head {
	At(u64, u16),
	Broken(u64),
	Never,
}
#[derive(Clone, Debug)]
pub enum Tail {
	End(u64),
	Broken(u64),
	Never,
}
pub struct Answer {
	pub head: Head,
	/// Pieces of the body and when they arrive (after the request).
	pub pieces: Vec<(u64, Vec<u8>)>,
	pub tail: Tail,
	pub worth: Worth,
	/// Sum of price times volume, and of volume, of the candles that count.
	pub sums: (f64, f64),
}

#[derive(Clone, Copy)]
struct Candle {
	t: u64,
	o: u128,
	h: u128,
	l: u128,
	c: u128,
	v: u128,
}
/// Prices and volumes are multiples of this part.
const ONE: u128 = 100_000_000;

fn rnd(seed: u64, parts: &[u64]) -> u64 {
	let mut h = H::default();
	h.u(seed);
	for p in parts {
		h.u(*p);
	}
	let mut x = h.0;
	simcore::rng::splitmix(&mut x)
}

fn candle(seed: u64, ex: usize, a: usize, len: u64, idx: u64, still: bool) -> Candle {
	let r = |k: u64| rnd(seed, &[ex as u64, a as u64, len, idx, k]);
	let base = [ONE, ONE, 6 * ONE, ONE * 4 / 10][a];
	// Every candle is somewhere else, so that it matters which ones count and for how much.
	let mid = base * (900 + (r(0) % 200) as u128) / 1000;
	let grain = [1, 1, 10, 1000][(r(1) % 4) as usize];
	let q = |v: u128| v / grain * grain;
	let h = q(mid + mid * (r(2) % 30) as u128 / 1000);
	let l = q(mid - mid * (r(3) % 30) as u128 / 1000);
	let c = l + (h - l) * (r(4) % 101) as u128 / 100;
	let o = l + (h - l) * (r(5) % 101) as u128 / 100;
	let v = if still || r(6) % 6 == 0 {
		0
	} else {
		let mag = 10u128.pow((r(7) % 7) as u32);
		(ONE / 100) * mag + r(8) as u128 % (ONE * mag)
	};
	Candle { t: idx * len * 60, o: q(o), h, l, c, v }
}

fn dec(v: u128, style: u64) -> String {
	let s = format!("{}.{:08}", v / ONE, v % ONE);
	match style % 3 {
		0 => s,
		1 => {
			let t = s.trim_end_matches('0');
			if t.ends_with('.') {
				format!("{t}0")
			} else {
				t.into()
			}
		},
		_ => {
			let t = s.trim_end_matches('0');
			t.strip_suffix('.').unwrap_or(t).into()
		},
	}
}

/// What a request asks for: exchange, asset, minutes per candle, number of candles.
pub fn parse_url(u: &str) -> Option<(usize, usize, u64, Option<usize>)> {
	let u = u.strip_prefix("https://")?;
	let (host, path) = u.split_once('/')?;
	let arg = |k: &str| {
		path.split_once('?')
			.and_then(|(_, q)| q.split('&').find_map(|kv| kv.split_once('=').filter(|(n, _)| *n == k).map(|(_, v)| v)))
	};
	let num = |k: &str| arg(k).and_then(|v| v.trim_end_matches('m').parse::<u64>().ok());
	let pick = |names: [&str; 4], s: &str| names.iter().position(|n| !n.is_empty() && *n == s);
	match host {
		"api.kraken.com" if path.starts_with("0/public/OHLC") =>
			Some((0, pick(["USDTZUSD", "USDCUSD", "DOTUSD", ""], arg("pair")?)?, num("interval").unwrap_or(1), None)),
		"api-pub.bitfinex.com" => {
			let p = path.strip_prefix("v2/candles/trade%3A").or(path.strip_prefix("v2/candles/trade:"))?;
			let (len, p) = p.split_once("m%3At").or(p.split_once("m:t"))?;
			let (sym, rest) = p.split_once('/')?;
			rest.starts_with("hist").then_some(())?;
			Some((
				1,
				pick(["USTUSD", "UDCUSD", "DOTUSD", ""], sym)?,
				len.parse().ok()?,
				Some(num("limit").unwrap_or(100) as usize),
			))
		},
		"www.bitstamp.net" => {
			let p = path.strip_prefix("api/v2/ohlc/")?.split('/').next()?;
			Some((
				2,
				pick(["usdtusd", "usdcusd", "dotusd", ""], p)?,
				num("step")? / 60,
				Some(num("limit")? as usize),
			))
		},
		"api.exchange.coinbase.com" => {
			let p = path.strip_prefix("products/")?;
			let (sym, rest) = p.split_once('/')?;
			rest.starts_with("candles").then_some(())?;
			Some((3, pick(["USDT-USD", "", "DOT-USD", ""], sym)?, num("granularity").unwrap_or(60) / 60, None))
		},
		"sapi.xt.com" if path.starts_with("v4/public/kline") =>
			(arg("symbol")? == "plmc_usdt").then_some((4, 3, num("interval")?, Some(num("limit").unwrap_or(100) as usize))),
		"api.mexc.com" if path.starts_with("api/v3/klines") => (arg("symbol")? == "PLMCUSDT").then_some((
			5,
			3,
			num("interval")?,
			Some(num("limit").unwrap_or(500) as usize),
		)),
		_ => None,
	}
}

pub fn absurd(kind: u8, text: bool) -> &'static str {
	if text {
		["-1", "NaN", "abc", "", "1e5", "100000000000000000000000000000000000000000000", "1000000000000000", "300000000000000000000", "1.2.3", "20000000000000"][kind as usize % 10]
	} else {
		["-1.5", "1e300", "1e35", "1e22", "1000000000000000", "-0.5", "300000000000000000000", "2e13", "1e28", "1e39"]
			[kind as usize % 10]
	}
}

/// The answer to a request made at `now` (in ms).
pub fn answer(seed: u64, now: u64, n: u64, ex: usize, a: usize, len: u64, limit: Option<usize>, mode: &Mode) -> Answer {
	let r = |k: u64| rnd(seed, &[now, n, ex as u64, a as u64, 99, k]);
	let nothing = |head, worth| Answer { head, pieces: vec![], tail: Tail::Never, worth, sums: (0.0, 0.0) };
	match mode {
		Mode::Broken { ms } => return nothing(Head::Broken(*ms), Worth::Never),
		Mode::Silent | Mode::NoStart | Mode::NoSend => return nothing(Head::Never, Worth::Never),
		_ => {},
	}
	let still = *mode == Mode::Still;
	let (count, clen) = canon(ex);
	let mut worth = Worth::Proper;
	// The candles asked for, newest first; those that count are always these.
	let idx = |l: u64| now / 60_000 / l.max(1);
	let mut have = match (ex, limit) {
		(_, Some(l)) => l,
		(0, None) => [15, 16, 15, 30, 15, 17, 15, 720][(r(1) % 8) as usize],
		_ => [15, 20, 15, 16, 300][(r(1) % 5) as usize],
	};
	if let Mode::Few { n } = mode {
		have = *n as usize % count;
		// Kraken and XT are taken for what they have.
		worth = if ex == 0 || ex == 4 { Worth::Either } else { Worth::Never };
	}
	let mut body: Vec<Candle> = (0..have as u64).map(|i| candle(seed, ex, a, len.max(1), idx(len) - i, still)).collect();
	let mut counted: Vec<Candle> = (0..(if matches!(mode, Mode::Few { .. }) { have } else { count }) as u64)
		.map(|i| candle(seed, ex, a, clen, idx(clen) - i, still))
		.collect();
	if let Mode::Huge { price, volume } = mode {
		worth = Worth::Either;
		for c in body.iter_mut().chain(counted.iter_mut()) {
			let m = 10u128.pow(*price as u32 % 12);
			c.h *= m;
			c.l *= m;
			c.c *= m;
			c.o *= m;
			c.v = 10u128.pow(*volume as u32 % 12) * ONE;
		}
	}
	let sums = counted.iter().fold((0.0, 0.0), |s, c| {
		let (p, v) = ((c.h + c.l + c.c) as f64 / 3.0 / ONE as f64, c.v as f64 / ONE as f64);
		(s.0 + p * v, s.1 + v)
	});
	if sums.1 == 0.0 {
		worth = Worth::Never;
	}
	// Render.
	let text = !(ex == 1 || ex == 3);
	let style = r(2);
	let mut rows: Vec<[String; 6]> = body
		.iter()
		.enumerate()
		.map(|(i, c)| {
			let d = |v: u128, k: u64| dec(v, style.wrapping_add(if style % 2 == 0 { 0 } else { i as u64 + k }));
			[d(c.o, 0), d(c.h, 1), d(c.l, 2), d(c.c, 3), d(c.v, 4), d(c.v.checked_mul(c.c).map_or(c.v, |q| q / ONE), 5)]
		})
		.collect();
	if let Mode::Absurd { kind, field, at } = mode {
		worth = Worth::Never;
		let at = *at as usize % count.min(rows.len().max(1));
		if let Some(row) = rows.get_mut(at) {
			row[1 + *field as usize % 4] = absurd(*kind, text).into();
		}
	}
	let times: Vec<u64> = body.iter().map(|c| c.t).collect();
	let sep = if r(3) % 3 == 0 { ", " } else { "," };
	let order: Vec<usize> = match ex {
		// Oldest first, or newest first.
		0 | 2 | 5 => (0..rows.len()).rev().collect(),
		_ => (0..rows.len()).collect(),
	};
	let list: Vec<String> = order
		.iter()
		.map(|i| {
			let ([o, h, l, c, v, q], t) = (&rows[*i], times[*i]);
			match ex {
				0 => format!("[{t},\"{o}\",\"{h}\",\"{l}\",\"{c}\",\"{o}\",\"{v}\",{}]", i % 40),
				1 => format!("[{t}000,{o},{c},{h},{l},{v}]"),
				2 => format!(
					"{{\"close\": \"{c}\"{sep}\"high\": \"{h}\"{sep}\"low\": \"{l}\"{sep}\"open\": \"{o}\"{sep}\"timestamp\": \"{t}\"{sep}\"volume\": \"{v}\"}}"
				),
				3 => format!("[{t},{l},{h},{o},{c},{v}]"),
				4 => format!(
					"{{\"t\":{t}000{sep}\"o\":\"{o}\"{sep}\"c\":\"{c}\"{sep}\"h\":\"{h}\"{sep}\"l\":\"{l}\"{sep}\"q\":\"{v}\"{sep}\"v\":\"{q}\"}}"
				),
				_ => format!("[{t}000,\"{o}\",\"{h}\",\"{l}\",\"{c}\",\"{v}\",{}000,\"{q}\"]", t + 1800),
			}
		})
		.collect();
	let list = format!("[{}]", list.join(sep));
	let mut b = match ex {
		0 => format!(
			"{{\"error\":[],\"result\":{{\"{}\":{list},\"last\":{}}}}}",
			["USDTZUSD", "USDCUSD", "DOTUSD", "-"][a],
			now / 1000
		),
		2 => format!("{{\"data\": {{\"ohlc\": {list}, \"pair\": \"{}/USD\"}}}}", ASSETS[a]),
		4 => format!("{{\"rc\":0,\"mc\":\"SUCCESS\",\"ma\":[],\"result\":{list}}}"),
		_ => list,
	}
	.into_bytes();
	let mut status = (20 + r(4) % 400, 200u16);
	let (mut over, mut pieces) = (0, 1u64);
	let mut tail = None;
	match mode {
		Mode::Ok { ms, pieces: p } => {
			status.0 = *ms;
			pieces = (*p as u64).max(1);
		},
		Mode::Status { code, ms } => {
			worth = Worth::Never;
			status = (*ms, *code);
		},
		Mode::Trickle { ms } => {
			over = *ms;
			pieces = 30;
		},
		Mode::Stops { mille } => {
			worth = Worth::Never;
			let keep = b.len() * (*mille as usize % 1000) / 1000;
			b.truncate(keep);
			tail = Some(Tail::Never);
		},
		Mode::Breaks { mille } => {
			worth = Worth::Never;
			let keep = b.len() * (*mille as usize % 1000) / 1000;
			b.truncate(keep);
			tail = Some(Tail::Broken(status.0 + 10));
		},
		Mode::Cut { mille } => {
			worth = Worth::Never;
			let keep = b.len() * (*mille as usize % 1000) / 1000;
			b.truncate(keep);
		},
		Mode::Garbage { kind } => {
			worth = Worth::Never;
			b = match kind % 8 {
				0 => vec![],
				1 => b"<html><body>503 Service Temporarily Unavailable</body></html>".to_vec(),
				2 => b"null".to_vec(),
				3 => b"{}".to_vec(),
				4 => b"[]".to_vec(),
				5 => {
					// Not UTF-8.
					let m = b.len() / 2;
					b[m] = 0xff;
					b
				},
				6 => b"{\"error\":[\"EGeneral:Too many requests\"],\"result\":{}}".to_vec(),
				_ => b.iter().map(|c| if *c == b':' || *c == b',' { b';' } else { *c }).collect(),
			};
		},
		_ => {},
	}
	// Pieces no longer than the worker's buffer arrive one after the other.
	let size = (b.len() as u64 / pieces + 1) as usize;
	let parts: Vec<Vec<u8>> = b.chunks(size).map(|c| c.to_vec()).collect();
	let k = parts.len().max(1) as u64;
	let pieces: Vec<(u64, Vec<u8>)> =
		parts.into_iter().enumerate().map(|(i, p)| (status.0 + over * (i as u64 + 1) / k, p)).collect();
	let end = pieces.last().map(|p| p.0).unwrap_or(status.0);
	Answer { head: Head::At(status.0, status.1), pieces, tail: tail.unwrap_or(Tail::End(end)), worth, sums }
}
