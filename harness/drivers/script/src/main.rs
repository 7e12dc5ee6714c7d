use drvlib::*;
use script::script::{build_scriptint, read_scriptbool, read_scriptint, read_scriptint_size, read_uint, Builder, Instruction};
use script::context::ParseResult;
use script::{opcodes, run_pushdata, run_script, verify_witness_lock, Context, Script, Stack};

/// Limits as type parameters; the signature scheme is the one of Scripts.tla.
struct Ctx<const EL: usize, const ST: usize, const PK: usize, const SZ: usize> {
    mp: bool,
    mi: bool,
    lock: i64,
    seq: i64,
}
impl<const EL: usize, const ST: usize, const PK: usize, const SZ: usize> Context for Ctx<EL, ST, PK, SZ> {
    const MAX_SCRIPT_ELEMENT_SIZE: usize = EL;
    const MAX_STACK_ELEMENTS: usize = ST;
    const MAX_PUBKEYS_PER_MULTISIG: usize = PK;
    const MAX_SCRIPT_SIZE: usize = SZ;
    type Public = u8;
    type SignatureData = [u8; 2];
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> {
        match pk {
            [1, k] => ParseResult::Ok(*k),
            [2, ..] => ParseResult::Reserved,
            _ => ParseResult::Err,
        }
    }
    fn parse_signature(&self, pk: u8, sig: &[u8]) -> Option<[u8; 2]> {
        match sig {
            [k, a, b] if *k == pk => Some([*a, *b]),
            _ => None,
        }
    }
    fn verify_signature(&self, sig: &[u8; 2], subscript: &[u8], ix: u32) -> bool {
        *sig == [255, 255] || *sig == [subscript.len() as u8, ix as u8]
    }
    fn check_lock_time(&self, t: i64) -> bool {
        t <= self.lock
    }
    fn check_sequence(&self, t: i64) -> bool {
        t <= self.seq
    }
    fn enforce_minimal_push(&self) -> bool {
        self.mp
    }
    fn enforce_minimal_if(&self) -> bool {
        self.mi
    }
}
/// The limits the trait itself defines.
struct Dflt(Ctx<0, 0, 0, 0>);
impl Context for Dflt {
    const MAX_PUBKEYS_PER_MULTISIG: usize = 20;
    const MAX_SCRIPT_SIZE: usize = 10000;
    type Public = u8;
    type SignatureData = [u8; 2];
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> {
        self.0.parse_pubkey(pk)
    }
    fn parse_signature(&self, pk: u8, sig: &[u8]) -> Option<[u8; 2]> {
        self.0.parse_signature(pk, sig)
    }
    fn verify_signature(&self, sig: &[u8; 2], subscript: &[u8], ix: u32) -> bool {
        self.0.verify_signature(sig, subscript, ix)
    }
    fn check_lock_time(&self, t: i64) -> bool {
        self.0.check_lock_time(t)
    }
    fn check_sequence(&self, t: i64) -> bool {
        self.0.check_sequence(t)
    }
    fn enforce_minimal_if(&self) -> bool {
        self.0.mi
    }
    fn enforce_minimal_push(&self) -> bool {
        self.0.mp
    }
}

fn stack_of<'a>(v: &Value) -> Stack<'a> {
    v.as_array().expect("driver: stack").iter().map(|x| get_bytes(x).into()).collect::<Vec<_>>().into()
}
fn result(r: script::Result<Stack>) -> Value {
    match r {
        Ok(s) => {
            let mut v = vec![];
            while let Ok(x) = s.top(v.len()) {
                v.push(bytes(x));
            }
            v.reverse();
            json!({"k": "stack", "v": v})
        }
        Err(e) => err(variant(&e)),
    }
}
fn with<C: Context>(c: &C, a: &Value) -> Value {
    let s = Script::from(get_bytes(&a["s"]));
    match str_of(&a["op"]) {
        "run" => result(run_script(c, &s, stack_of(&a["st"]))),
        "pushes" => result(run_pushdata(c, &s)),
        _ => {
            let w = Script::from(get_bytes(&a["w"]));
            match verify_witness_lock(c, &w, &s) {
                Ok(()) => json!({"k": "ok"}),
                Err(e) => err(variant(&e)),
            }
        }
    }
}
fn num_res<T: std::fmt::Display>(r: Result<T, impl std::fmt::Debug>) -> Value {
    match r {
        Ok(x) => json!({"k": "val", "v": num(x)}),
        Err(e) => err(variant(&e)),
    }
}
fn b(x: impl AsRef<[u8]>) -> Value {
    json!({"k": "bytes", "v": bytes(x)})
}

struct M;
impl Machine for M {
    fn step(&mut self, a: &Value) -> Value {
        let s = || get_bytes(&a["s"]);
        match str_of(&a["op"]) {
            "run" | "pushes" | "witness" => {
                let c = &a["c"];
                let f = |k: &str| c[k].as_bool().expect("driver: flag");
                let (mp, mi, lock, seq) = (f("mp"), f("mi"), get_num(&c["lock"]), get_num(&c["seq"]));
                match (c["el"].as_u64(), c["st"].as_u64(), c["pk"].as_u64(), c["sz"].as_u64()) {
                    (Some(520), Some(1000), Some(20), Some(10000)) => with(&Dflt(Ctx { mp, mi, lock, seq }), a),
                    (Some(5), Some(7), Some(3), Some(24)) => with(&Ctx::<5, 7, 3, 24> { mp, mi, lock, seq }, a),
                    (Some(80), Some(30), Some(4), Some(400)) => with(&Ctx::<80, 30, 4, 400> { mp, mi, lock, seq }, a),
                    x => panic!("driver: no such context {x:?}"),
                }
            }
            "clean" => match stack_of(&a["st"]).verify() {
                Ok(()) => json!({"k": "ok"}),
                Err(e) => err(variant(&e)),
            },
            "parse" => {
                let s = Script::from(s());
                let min = a["min"].as_bool().expect("driver: min");
                let it = if min { s.instructions_minimal() } else { s.instructions() };
                let v: Vec<Value> = it
                    .take(100000)
                    .map(|i| match i {
                        Ok(Instruction::PushBytes(d)) => json!({"k": "push", "d": bytes(d)}),
                        Ok(Instruction::Op(c)) => json!({"k": "op", "c": c.into_u8()}),
                        Err(e) => json!({"k": "err", "e": variant(&e)}),
                    })
                    .collect();
                json!({"k": "list", "v": v})
            }
            "asm" => {
                let x = Script::from(s());
                let t = x.asm();
                let bare = t.trim();
                if [format!("{x}"), format!("{x:?}")].iter().any(|f| f.strip_prefix("Script(").and_then(|f| f.strip_suffix(")")).map(str::trim) != Some(bare)) {
                    return json!({"k": "shown otherwise"});
                }
                if format!("{x:x}") != hex(&s()) {
                    return json!({"k": "shown otherwise in hexadecimal"});
                }
                let (t, end) = match t.split_once('<') {
                    Some((t, _)) => (t.to_string(), "truncated"),
                    None => (t, "end"),
                };
                let mut w: Vec<&str> = t.split_whitespace().collect();
                w.push(end);
                json!({"k": "words", "v": w})
            }
            "build" => {
                let mut x = Builder::from(get_bytes(&a["from"]));
                for i in a["x"].as_array().expect("driver: x") {
                    let d = || get_bytes(&i["d"]);
                    x = match str_of(&i["op"]) {
                        "int" => x.push_int(get_num(&i["v"])),
                        "scriptint" => x.push_scriptint(get_num(&i["v"])),
                        "slice" => x.push_slice(&d()),
                        "slice_min" => x.push_slice_minimal(&d()),
                        "opcode" => x.push_opcode(opcodes::All::from(i["c"].as_u64().expect("driver: c") as u8)),
                        "verify" => x.push_verify(),
                        o => panic!("driver: build {o}"),
                    };
                }
                b(x.into_script().into_bytes())
            }
            "scriptint" => b(build_scriptint(get_num(&a["v"]))),
            "readint" => {
                let n = a["n"].as_u64().expect("driver: n") as usize;
                let r = read_scriptint_size(&s(), n);
                if n == 4 && read_scriptint(&s()) != r {
                    return json!({"k": "readers disagree"});
                }
                num_res(r)
            }
            "readbool" => json!({"k": "bool", "v": read_scriptbool(&s())}),
            "readuint" => num_res(read_uint(&s(), a["n"].as_u64().expect("driver: n") as usize)),
            "forms" => {
                let s = Script::from(s());
                json!({"k": "forms", "v": {"p2sh": s.is_p2sh(), "p2pkh": s.is_p2pkh(), "p2pk": s.is_p2pk(),
                    "witness": s.is_witness_program(), "p2wsh": s.is_v0_p2wsh(), "p2wpkh": s.is_v0_p2wpkh(),
                    "op_return": s.is_op_return(), "unspendable": s.is_provably_unspendable(), "len": s.len(),
                    "empty": s.is_empty()}})
            }
            "p2pk" => b(Script::new_p2pk(&s())),
            "p2pkh" => b(Script::new_p2pkh(&s())),
            "p2sh" => b(Script::new_p2sh(&s())),
            "new_op_return" => b(Script::new_op_return(&s())),
            "opname" => json!({"k": "text", "v": opcodes::All::from(a["c"].as_u64().expect("driver: c") as u8).to_string()}),
            o => panic!("driver: op {o}"),
        }
    }
}
fn main() {
    serve(|_| Box::new(M));
}
