use common::amount_sum;
use common::primitives::{
    amount::{decimal::subtract_decimal_amounts_of_same_currency, DecimalAmount, DisplayAmount, RpcAmountIn, RpcAmountOut, SignedAmount},
    per_thousand::PerThousand,
    rational::Rational,
    semver::SemVer,
    time::{self, Time},
    Amount, BlockCount, BlockDistance, BlockHeight, Compact,
};
use common::uint::BitArray;
use common::{Uint128, Uint256, Uint512};
use drvlib::*;
use std::cmp::Ordering;
use std::time::Duration;

fn val(x: impl std::fmt::Display) -> Value {
    json!({"k": "val", "v": num(x)})
}
fn none() -> Value {
    json!({"k": "none"})
}
fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn text(s: impl AsRef<str>) -> Value {
    json!({"k": "text", "v": bytes(s.as_ref().as_bytes())})
}
fn utf8(v: &Value) -> Option<String> {
    String::from_utf8(get_bytes(v)).ok()
}
fn ua(x: Option<Amount>) -> Value {
    x.map_or(none(), |x| val(x.into_atoms()))
}
fn sa(x: Option<SignedAmount>) -> Value {
    x.map_or(none(), |x| val(x.into_atoms()))
}

struct Amounts;
impl Machine for Amounts {
    fn step(&mut self, a: &Value) -> Value {
        let op = str_of(&a["op"]);
        let n = || a["n"].as_u64().expect("driver: n") as u32;
        if a["t"] == "u" {
            let g = |k: &str| Amount::from_atoms(get_num::<u128>(&a[k]));
            let i = |k: &str| get_num::<u128>(&a[k]);
            let l = || a["l"].as_array().expect("l").iter().map(|x| Amount::from_atoms(get_num(x))).collect::<Vec<_>>();
            match op {
                "add" => ua(g("a") + g("b")),
                "sub" => ua(g("a") - g("b")),
                "mul" => ua(g("a") * i("b")),
                "div" => ua(g("a") / i("b")),
                "rem" => ua(g("a") % i("b")),
                "and" => val((g("a") & g("b")).into_atoms()),
                "or" => val((g("a") | g("b")).into_atoms()),
                "xor" => val((g("a") ^ g("b")).into_atoms()),
                "and_assign" => {
                    let mut x = g("a");
                    x &= g("b");
                    val(x.into_atoms())
                }
                "or_assign" => {
                    let mut x = g("a");
                    x |= g("b");
                    val(x.into_atoms())
                }
                "xor_assign" => {
                    let mut x = g("a");
                    x ^= g("b");
                    val(x.into_atoms())
                }
                "not" => val((!g("a")).into_atoms()),
                "shl" => ua(g("a") << n()),
                "shr" => ua(g("a") >> n()),
                "to_signed" => sa(g("a").into_signed()),
                "signed_from_unsigned" => sa(SignedAmount::from_unsigned(g("a"))),
                "abs_diff" => val(g("a").abs_diff(g("b")).into_atoms()),
                "non_zero" => ua(g("a").as_non_zero()),
                "cmp" => json!({"k": "cmp", "v": ord(g("a").cmp(&g("b"))), "eq": g("a") == g("b")}),
                "sum" => ua(l().into_iter().sum::<Option<Amount>>()),
                "sum_macro" => {
                    let l = l();
                    match l.len() {
                        2 => ua(amount_sum!(l[0], l[1])),
                        3 => ua(amount_sum!(l[0], l[1], l[2])),
                        4 => ua(amount_sum!(l[0], l[1], l[2], l[3])),
                        _ => panic!("driver: sum_macro"),
                    }
                }
                _ => panic!("driver: op"),
            }
        } else {
            let g = |k: &str| SignedAmount::from_atoms(get_num::<i128>(&a[k]));
            let i = |k: &str| get_num::<i128>(&a[k]);
            match op {
                "add" => sa(g("a") + g("b")),
                "sub" => sa(g("a") - g("b")),
                "mul" => sa(g("a") * i("b")),
                "div" => sa(g("a") / i("b")),
                "rem" => sa(g("a") % i("b")),
                "neg" => sa(-g("a")),
                "to_unsigned" => ua(g("a").into_unsigned()),
                "unsigned_from_signed" => ua(Amount::from_signed(g("a"))),
                "cmp" => json!({"k": "cmp", "v": ord(g("a").cmp(&g("b"))), "eq": g("a") == g("b")}),
                "sum" => sa(a["l"]
                    .as_array()
                    .expect("l")
                    .iter()
                    .map(|x| SignedAmount::from_atoms(get_num(x)))
                    .sum::<Option<SignedAmount>>()),
                _ => panic!("driver: op"),
            }
        }
    }
}

struct Decimals;
fn dec(x: Option<DecimalAmount>) -> Value {
    x.map_or(none(), |x| json!({"k": "dec", "m": num(x.mantissa()), "d": x.decimals()}))
}
impl Machine for Decimals {
    fn step(&mut self, a: &Value) -> Value {
        let n = || a["n"].as_u64().expect("driver: n") as u8;
        let d = |m: &str, d: &str| {
            DecimalAmount::from_uint_decimal(get_num(&a[m]), a[d].as_u64().expect("driver: d") as u8)
        };
        let Some(s) = (if a["s"].is_null() { Some(String::new()) } else { utf8(&a["s"]) }) else {
            return json!({"k": "not-utf8"});
        };
        match str_of(&a["op"]) {
            "parse" => {
                let r = s.parse::<DecimalAmount>().ok();
                // the same text inside a JSON document
                let j = serde_json_roundtrip(&s);
                if r.map(|x| (x.mantissa(), x.decimals())) != j.map(|x| (x.mantissa(), x.decimals())) {
                    return json!({"k": "json-differs"});
                }
                // a plain number there is read as that number, or refused
                if !s.is_empty() && s.len() <= 19 && s.bytes().all(|c| c.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0')) {
                    let v = s.parse::<u128>().ok();
                    for (key, n) in [("atoms", 3), ("decimal", 0)] {
                        let k = serde_json::from_str::<RpcAmountIn>(&format!("{{\"{key}\":{s}}}")).ok();
                        if k.is_some() && k.and_then(|k| k.to_amount(n)).map(|x| x.into_atoms()) != v {
                            return json!({"k": "number-differs"});
                        }
                    }
                }
                dec(r)
            }
            "show" => {
                let x = d("m", "d");
                let t = x.to_string();
                let y = DisplayAmount::from_decimal_amount(x);
                if y.to_string() != t || drvlib_json(&x) != format!("\"{t}\"") {
                    return json!({"k": "display-differs"});
                }
                if x.decimals() == 0 && (DecimalAmount::from_uint_integral(x.mantissa()).to_string() != t || DisplayAmount::from_uint_integral(x.mantissa()).to_string() != t) {
                    return json!({"k": "integral-differs"});
                }
                // as an input of a request, written and read back
                let i = RpcAmountIn::from_decimal(x);
                match serde_json::from_str::<RpcAmountIn>(&drvlib_json(&i)) {
                    Ok(b) if b.is_same(&i) && !b.is_same(&RpcAmountIn::from_atoms(Amount::from_atoms(x.mantissa()))) => {}
                    _ => return json!({"k": "input-differs"}),
                }
                let am = RpcAmountIn::from_atoms(Amount::from_atoms(x.mantissa()));
                match serde_json::from_str::<RpcAmountIn>(&drvlib_json(&am)) {
                    Ok(b) if b.is_same(&am) && b.to_amount(x.decimals()) == Some(Amount::from_atoms(x.mantissa())) => {}
                    _ => return json!({"k": "input-differs"}),
                }
                text(t)
            }
            "with_decimals" => dec(d("m", "d").with_decimals(n())),
            "without_padding" => dec(Some(d("m", "d").without_padding())),
            "to_amount" => ua(d("m", "d").to_amount(n())),
            "from_fixed" => ua(Amount::from_fixedpoint_str(&s, n())),
            "into_fixed" => text(Amount::from_atoms(get_num(&a["m"])).into_fixedpoint_str(n())),
            "sfrom_fixed" => sa(SignedAmount::from_fixedpoint_str(&s, n())),
            "sinto_fixed" => text(SignedAmount::from_atoms(get_num(&a["v"])).into_fixedpoint_str(n())),
            "sub" => dec(subtract_decimal_amounts_of_same_currency(&d("m", "d"), &d("m2", "d2"))),
            "is_same" => {
                let (x, y) = (d("m", "d"), d("m2", "d2"));
                let r = x.is_same(&y);
                let e = DisplayAmount::from_decimal_amount(x) == DisplayAmount::from_decimal_amount(y);
                if r != e {
                    return json!({"k": "eq-differs"});
                }
                // and with atoms beside them
                let out = |atoms: &str, x: DecimalAmount| serde_json::from_value::<RpcAmountOut>(json!({"atoms": atoms, "decimal": x.to_string()})).ok();
                if let (Some(a), Some(b), Some(c)) = (out("7", x), out("7", y), out("8", x)) {
                    if a.is_same(&b) != a.decimal().is_same(&b.decimal()) || a.is_same(&c) || !a.is_same(&a) {
                        return json!({"k": "out-differs"});
                    }
                }
                json!({"k": "bool", "v": r})
            }
            "rpc_out" => {
                let am = Amount::from_atoms(get_num(&a["m"]));
                let x = if a["full"] == true {
                    RpcAmountOut::from_amount_full_padding(am, n())
                } else {
                    RpcAmountOut::from_amount_no_padding(am, n())
                };
                let j: Value = serde_json::from_str(&drvlib_json(&x)).expect("json");
                let back: RpcAmountOut = match serde_json::from_value(j.clone()) {
                    Ok(b) => b,
                    Err(e) => return json!({"k": "not-read-back", "e": e.to_string()}),
                };
                if !back.is_same(&x) || back.amount() != am {
                    return json!({"k": "read-back-differs"});
                }
                // the atoms alone are an accepted input, too
                let i: RpcAmountIn = match serde_json::from_value(json!({"atoms": j["atoms"]})) {
                    Ok(b) => b,
                    Err(e) => return json!({"k": "not-read-back", "e": e.to_string()}),
                };
                if i.to_amount(n()) != Some(am) {
                    return json!({"k": "atoms-differ"});
                }
                json!({"k": "rpc", "atoms": bytes(str_of(&j["atoms"])), "decimal": bytes(str_of(&j["decimal"]))})
            }
            "rpc_in_decimal" => match serde_json::from_value::<RpcAmountIn>(json!({"decimal": s})) {
                Ok(x) => ua(x.to_amount(n())),
                Err(_) => none(),
            },
            _ => panic!("driver: op"),
        }
    }
}
fn drvlib_json<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).expect("json")
}
fn serde_json_roundtrip(s: &str) -> Option<DecimalAmount> {
    serde_json::from_value(json!(s)).ok()
}

struct Wide;
macro_rules! wide {
    ($t:ident, $bytes:expr, $a:expr) => {{
        let a: &Value = $a;
        let g = |k: &str| -> $t {
            let b = dec_to_le(num_text(&a[k]), $bytes).expect("driver: range");
            let arr: [u8; $bytes] = b.try_into().expect("len");
            let mut w = [0u64; $bytes / 8];
            for i in 0..$bytes / 8 {
                w[i] = u64::from_le_bytes(arr[8 * i..8 * i + 8].try_into().expect("8"));
            }
            $t(w)
        };
        let dump = |x: &$t| {
            let b: Vec<u8> = x.0.iter().flat_map(|w| w.to_le_bytes()).collect();
            num(le_to_dec(&b))
        };
        let v = |x: $t| json!({"k": "val", "v": dump(&x)});
        let o = |x: Option<$t>| x.map_or(none(), |x| json!({"k": "val", "v": dump(&x)}));
        let n = || a["n"].as_u64().expect("driver: n") as usize;
        match str_of(&a["op"]) {
            "add" => o(g("a") + g("b")),
            "sub" => o(g("a") - g("b")),
            "mul" => o(g("a") * g("b")),
            "div" => o(g("a") / g("b")),
            "rem" => o(g("a") % g("b")),
            "checked_add" => o(g("a").checked_add(&g("b"))),
            "checked_sub" => o(g("a").checked_sub(&g("b"))),
            "checked_mul" => o(g("a").checked_mul(&g("b"))),
            "checked_div" => o(g("a").checked_div(&g("b"))),
            "checked_rem" => o(g("a").checked_rem(&g("b"))),
            "widening_mul" => {
                let (lo, hi) = g("a").widening_mul(&g("b"));
                json!({"k": "pair", "lo": dump(&lo), "hi": dump(&hi)})
            }
            "mul_u32" => v(g("a").mul_u32(get_num::<u32>(&a["b"]))),
            "shl" => v(g("a") << n()),
            "shr" => v(g("a") >> n()),
            "and" => v(g("a") & g("b")),
            "or" => v(g("a") | g("b")),
            "xor" => v(g("a") ^ g("b")),
            "not" => v(!g("a")),
            "cmp" => json!({"k": "cmp", "v": ord(g("a").cmp(&g("b"))), "eq": g("a") == g("b"),
                "p": g("a").partial_cmp(&g("b")).map_or(9, ord)}),
            "bits" => json!({"k": "int", "v": g("a").bits()}),
            "bit" => json!({"k": "bool", "v": g("a").bit(n())}),
            "mask" => v(g("a").mask(n())),
            "bit_slice" => v(g("a").bit_slice(n(), a["n2"].as_u64().expect("n2") as usize)),
            "trailing_zeros" => json!({"k": "int", "v": g("a").trailing_zeros()}),
            "to_le" => json!({"k": "bytes", "v": bytes(g("a").to_bytes())}),
            "to_be" => json!({"k": "bytes", "v": bytes(g("a").to_be_bytes())}),
            "from_le" | "from_be" => {
                let b = get_bytes(&a["s"]);
                let le = a["op"] == "from_le";
                let r = if le { $t::from_slice(&b) } else { $t::from_be_slice(&b) };
                if let Ok(arr) = <[u8; $bytes]>::try_from(b) {
                    let all = if le {
                        vec![$t::from_bytes(arr), $t::from(arr), $t::from(&arr)]
                    } else {
                        vec![$t::from_be_bytes(arr)]
                    };
                    if all.iter().any(|x| Ok(*x) != r) {
                        return json!({"k": "constructors-differ"});
                    }
                }
                r.map_or(none(), v)
            }
            "from_u64" => {
                let x = get_num::<u64>(&a["a"]);
                if $t::from_u64(x) != $t::from(x) { return json!({"k": "constructors-differ"}); }
                v($t::from_u64(x))
            }
            "from_u128" => {
                let x = get_num::<u128>(&a["a"]);
                let am = Amount::from_atoms(x);
                if $t::from_u128(x) != $t::from(x) || $t::from_amount(am) != $t::from(x) || $t::from(am) != $t::from(x) {
                    return json!({"k": "constructors-differ"});
                }
                v($t::from_u128(x))
            }
            "low_u64" => val(g("a").low_u64()),
            "low_u32" => val(g("a").low_u32()),
            "hex" => {
                let x = g("a");
                let l = format!("{x:x}");
                if format!("{x:?}") != format!("0x{l}") || format!("{x:#x}") != format!("0x{l}") ||
                    format!("{x:#X}") != format!("0X{x:X}") || format!("{x:X}").to_lowercase() != l {
                    return json!({"k": "texts-differ"});
                }
                text(l)
            }
            "consts" => json!({"k": "consts", "zero": dump(&$t::ZERO), "one": dump(&$t::ONE), "max": dump(&$t::MAX),
                "bits": $t::BITS, "dflt": dump(&$t::default()), "bzero": dump(&<$t as BitArray>::zero()), "bone": dump(&<$t as BitArray>::one())}),
            "words" => {
                let x = g("a");
                json!({"k": "words", "v": (0..$bytes / 8).map(|i| num(x[i])).collect::<Vec<_>>(), "len": x.len(), "empty": x.is_empty(),
                   "same": $t::from(&x.0[..]) == x && *x.as_inner() == x.0 && x.inner() == x.0 && x.into_inner() == x.0 && x[..] == x.0[..]
                       && x[1..] == x.0[1..] && x[..1] == x.0[..1] && x[0..1] == x.0[0..1]})
            }
            _ => json!({"k": "driver"}),
        }
    }};
}
fn u256(v: &Value) -> Uint256 {
    let b = dec_to_le(num_text(v), 32).expect("driver: range");
    Uint256(std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().expect("8"))))
}
fn u512(v: &Value) -> Uint512 {
    let b = dec_to_le(num_text(v), 64).expect("driver: range");
    Uint512(std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().expect("8"))))
}
fn wnum(w: &[u64]) -> Value {
    let b: Vec<u8> = w.iter().flat_map(|w| w.to_le_bytes()).collect();
    num(le_to_dec(&b))
}
fn wval(w: &[u64]) -> Value {
    json!({"k": "val", "v": wnum(w)})
}
impl Machine for Wide {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "128to256" => wval(&Uint256::from(Uint128::from_u128(get_num(&a["a"]))).0),
            "128tou128" => val(u128::from(Uint128::from_u128(get_num(&a["a"])))),
            "256to512" => wval(&Uint512::from(u256(&a["a"])).0),
            "512to256" => Uint256::try_from(u512(&a["a"])).map_or(none(), |x| wval(&x.0)),
            "256tou128" => u128::try_from(u256(&a["a"])).map_or(none(), val),
            "low128" => wval(&u256(&a["a"]).low_128().0),
            _ => match a["w"].as_u64() {
                Some(128) => wide!(Uint128, 16, a),
                Some(256) => wide!(Uint256, 32, a),
                Some(512) => wide!(Uint512, 64, a),
                _ => panic!("driver: width"),
            },
        }
    }
}

struct Values;
fn height(v: &Value) -> BlockHeight {
    BlockHeight::new(get_num(v))
}
fn dist(v: &Value) -> BlockDistance {
    BlockDistance::new(get_num(v))
}
fn dur(v: &Value) -> Duration {
    let n: u128 = get_num(v);
    Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}
fn nanos(d: Duration) -> Value {
    val(d.as_nanos())
}
impl Machine for Values {
    fn step(&mut self, a: &Value) -> Value {
        let s = if a["s"].is_null() { String::new() } else { utf8(&a["s"]).expect("driver: utf8") };
        let n = |k: &str| a[k].as_u64().expect("driver: n");
        match str_of(&a["op"]) {
            "expand" => Uint256::try_from(Compact(get_num(&a["a"]))).map_or(none(), |x| wval(&x.0)),
            "compact" => val(Compact::from(u256(&a["a"])).0),
            "rat" => {
                let f = |k: &str| get_num::<u128>(&a[k]);
                match n("w") {
                    64 => {
                        let x = Rational::<u64>::new(f("a") as u64, f("b") as u64);
                        let y = Rational::<u64>::new(f("c") as u64, f("d") as u64);
                        json!({"k": "cmp", "v": ord(x.cmp(&y)), "p": x.partial_cmp(&y).map_or(9, ord), "eq": x == y})
                    }
                    128 => {
                        let x = Rational::<u128>::new(f("a"), f("b"));
                        let y = Rational::<u128>::new(f("c"), f("d"));
                        let (x2, y2) = (Rational::<Uint256>::from(x), Rational::<Uint256>::from(y));
                        if x2.cmp(&y2) != x.cmp(&y) {
                            return json!({"k": "widened-differs"});
                        }
                        json!({"k": "cmp", "v": ord(x.cmp(&y)), "p": x.partial_cmp(&y).map_or(9, ord), "eq": x == y})
                    }
                    _ => {
                        let x = Rational::<Uint256>::new(u256(&a["a"]), u256(&a["b"]));
                        let y = Rational::<Uint256>::new(u256(&a["c"]), u256(&a["d"]));
                        json!({"k": "cmp", "v": ord(x.cmp(&y)), "p": x.partial_cmp(&y).map_or(9, ord), "eq": x == y})
                    }
                }
            }
            "rat_parts" => {
                let x = Rational::<u128>::new(get_num(&a["a"]), get_num(&a["b"]));
                json!({"k": "parts", "n": num(x.numer()), "d": num(x.denom()), "t": bytes(x.to_string())})
            }
            "h_add_d" => (height(&a["a"]) + dist(&a["b"])).map_or(none(), |x| val(x.into_int())),
            "h_sub_d" => (height(&a["a"]) - dist(&a["b"])).map_or(none(), |x| val(x.into_int())),
            "h_sub_h" => (height(&a["a"]) - height(&a["b"])).map_or(none(), |x| val(x.to_int())),
            "d_add_d" => (dist(&a["a"]) + dist(&a["b"])).map_or(none(), |x| val(x.to_int())),
            "d_sub_d" => (dist(&a["a"]) - dist(&a["b"])).map_or(none(), |x| val(x.to_int())),
            "c_add" => (BlockCount::new(get_num(&a["a"])) + BlockCount::new(get_num(&a["b"]))).map_or(none(), |x| val(x.to_int())),
            "c_sub" => (BlockCount::new(get_num(&a["a"])) - BlockCount::new(get_num(&a["b"]))).map_or(none(), |x| val(x.to_int())),
            "h_checked_add" => height(&a["a"]).checked_add(get_num(&a["b"])).map_or(none(), |x| val(x.into_int())),
            "h_next" => val(height(&a["a"]).next_height().into_int()),
            "h_prev" => height(&a["a"]).prev_height().map_or(none(), |x| val(x.into_int())),
            "h_cmp" => json!({"k": "cmp", "v": ord(height(&a["a"]).cmp(&height(&a["b"]))), "eq": height(&a["a"]) == height(&a["b"])}),
            "h_iter" => json!({"k": "list", "v": height(&a["a"]).iter_up_to(height(&a["b"])).map(|x| num(x.into_int())).collect::<Vec<_>>(),
                "incl": height(&a["a"]).iter_up_to_including(height(&a["b"])).map(|x| num(x.into_int())).collect::<Vec<_>>()}),
            "h_text" => text(height(&a["a"]).to_string()),
            "h_parse" => s.parse::<BlockHeight>().map_or(none(), |x| val(x.into_int())),
            "pt_new" => PerThousand::new(n("n") as u16).map_or(none(), |x| {
                if x.value() != x.as_per_thousand_int() || x.denominator() != 1000 || x.as_f64() != x.value() as f64 / 1000.0 {
                    return json!({"k": "accessors-differ"});
                }
                val(x.value())
            }),
            "pt_parse" => {
                let r = PerThousand::from_decimal_str(&s).ok();
                let j: Option<PerThousand> = serde_json::from_value(json!(s)).ok();
                if r != j {
                    return json!({"k": "json-differs"});
                }
                r.map_or(none(), |x| val(x.value()))
            }
            "pt_json_int" => serde_json::from_value::<PerThousand>(json!(n("n"))).map_or(none(), |x| val(x.value())),
            "pt_text" => {
                let x = PerThousand::new(n("n") as u16).expect("driver: range");
                let p = x.to_percentage_str();
                if x.to_string() != p || drvlib_json(&x) != format!("\"{p}\"") {
                    return json!({"k": "texts-differ"});
                }
                json!({"k": "pt", "p": bytes(&p), "d": bytes(x.to_decimal_str())})
            }
            "pt_cmp" => json!({"k": "cmp", "v": ord(PerThousand::new(n("n") as u16).cmp(&PerThousand::new(n("n2") as u16)))}),
            "sv_parse" => {
                let r = s.parse::<SemVer>().ok();
                if SemVer::try_from(s.clone()).ok() != r {
                    return json!({"k": "constructors-differ"});
                }
                r.map_or(none(), |x| json!({"k": "sv", "v": [x.major, x.minor, x.patch]}))
            }
            "sv_text" => text(SemVer::new(n("a") as u8, n("b") as u8, n("c") as u16).to_string()),
            "sv_cmp" => {
                let f = |k: &str| {
                    let v = &a[k];
                    SemVer::new(v[0].as_u64().expect("v") as u8, v[1].as_u64().expect("v") as u8, v[2].as_u64().expect("v") as u16)
                };
                json!({"k": "cmp", "v": ord(f("x").cmp(&f("y"))), "eq": f("x") == f("y")})
            }
            "t_add" => (Time::from_duration_since_epoch(dur(&a["a"])) + dur(&a["b"])).map_or(none(), |t| nanos(t.as_duration_since_epoch())),
            "t_sub" => (Time::from_duration_since_epoch(dur(&a["a"])) - dur(&a["b"])).map_or(none(), |t| nanos(t.as_duration_since_epoch())),
            "t_sub_t" => (Time::from_duration_since_epoch(dur(&a["a"])) - Time::from_duration_since_epoch(dur(&a["b"]))).map_or(none(), nanos),
            "t_sat_add" => nanos(Time::from_duration_since_epoch(dur(&a["a"])).saturating_duration_add(dur(&a["b"])).as_duration_since_epoch()),
            "t_sat_sub" => nanos(Time::from_duration_since_epoch(dur(&a["a"])).saturating_duration_sub(dur(&a["b"])).as_duration_since_epoch()),
            "t_sat_sub_t" => nanos(Time::from_duration_since_epoch(dur(&a["a"])).saturating_sub(Time::from_duration_since_epoch(dur(&a["b"])))),
            "t_cmp" => json!({"k": "cmp", "v": ord(Time::from_duration_since_epoch(dur(&a["a"])).cmp(&Time::from_duration_since_epoch(dur(&a["b"]))))}),
            "t_secs" => val(Time::from_duration_since_epoch(dur(&a["a"])).as_secs_since_epoch()),
            "t_from_secs" => nanos(Time::from_secs_since_epoch(get_num(&a["a"])).as_duration_since_epoch()),
            "t_to_int" => time::duration_to_int(&dur(&a["a"])).map_or(none(), val),
            "t_from_int" => nanos(time::duration_from_int(get_num(&a["a"]))),
            "t_abs" => match Time::from_duration_since_epoch(dur(&a["a"])).as_absolute_time() {
                None => none(),
                Some(d) => Time::from_absolute_time(&d).map_or(json!({"k": "frac"}), |t| nanos(t.as_duration_since_epoch())),
            },
            "t_text" => text(Time::from_duration_since_epoch(dur(&a["a"])).to_string()),
            "t_mock" => {
                let r = time::set(dur(&a["a"]));
                let t = time::get_time().as_duration_since_epoch();
                time::reset();
                let t2 = time::get_time().as_secs_since_epoch();
                if t2 < 1_600_000_000 {
                    return json!({"k": "reset-ignored"});
                }
                r.map_or(none(), |_| nanos(t))
            }
            _ => panic!("driver: op"),
        }
    }
}

struct Texts;
impl Machine for Texts {
    fn step(&mut self, a: &Value) -> Value {
        use common::primitives::{bech32_encoding::{bech32m_decode, bech32m_encode}, user_agent::UserAgent, H256, Id};
        let s = if a["s"].is_null() { Some(String::new()) } else { utf8(&a["s"]) };
        let h256 = |k: &str| H256::from_slice(&get_bytes(&a[k]));
        match str_of(&a["op"]) {
            "b_enc" => match utf8(&a["h"]) {
                None => none(),
                Some(h) => bech32m_encode(h, get_bytes(&a["d"])).map_or(none(), text),
            },
            "b_dec" => match s {
                None => none(),
                Some(s) => bech32m_decode(s).map_or(none(), |d| json!({"k": "dec", "h": bytes(d.hrp()), "d": bytes(d.data())})),
            },
            "ua" => {
                let b = get_bytes(&a["s"]);
                let r = UserAgent::try_from(b.clone()).ok();
                if let Some(s) = &s {
                    if UserAgent::try_from(s.as_str()).ok() != r {
                        return json!({"k": "constructors-differ"});
                    }
                }
                r.map_or(none(), |u| json!({"k": "bytes", "v": bytes(u.to_string())}))
            }
            "h_hex" => {
                let h = h256("d");
                let t = format!("{h:x}");
                let id = Id::<()>::new(h);
                let n = h.into_arith_uint256();
                if drvlib_json(&h) != format!("\"{t}\"") || format!("{id:x}") != t || format!("{id:#x}") != format!("0x{t}")
                    || format!("{id:X}").to_lowercase() != t || drvlib_json(&id) != format!("\"{t}\"") || id.to_hash() != h || *id.as_hash() != h
                    || id.as_ref() != &h[..] || H256::from(n) != h || Id::from(h) != id || format!("{id:?}").find(&t).is_none()
                {
                    return json!({"k": "texts-differ"});
                }
                json!({"k": "hex", "v": bytes(&t), "rev": bytes(h.as_bitcoin_uint256_hex()), "num": wnum(&n.0)})
            }
            "h_parse" => match s {
                None => none(),
                Some(s) => {
                    let r = s.parse::<H256>().ok();
                    let j: Option<H256> = serde_json::from_value(json!(s)).ok();
                    let i: Option<Id<()>> = serde_json::from_value(json!(s)).ok();
                    if j != r || i.map(|x| x.to_hash()) != r {
                        return json!({"k": "json-differs"});
                    }
                    r.map_or(none(), |h| json!({"k": "bytes", "v": bytes(h.as_bytes())}))
                }
            },
            "h_cmp" => {
                let (x, y) = (h256("d"), h256("e"));
                let (i, j) = (Id::<()>::new(x), Id::<()>::new(y));
                if (x == y) != (i == j) || x.cmp(&y) != i.cmp(&j) || i.partial_cmp(&j) != Some(i.cmp(&j)) {
                    return json!({"k": "id-differs"});
                }
                json!({"k": "cmp", "v": ord(x.cmp(&y)), "eq": x == y})
            }
            _ => panic!("driver: op"),
        }
    }
}

fn main() {
    serve(|m| match m {
        "amounts" => Box::new(Amounts),
        "decimals" => Box::new(Decimals),
        "wide" => Box::new(Wide),
        "texts" => Box::new(Texts),
        "values" => Box::new(Values),
        _ => panic!("module"),
    })
}
