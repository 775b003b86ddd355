// Executor of the element layer: reads one case per line, prints one line of the outcome.
// Appended to the copy of the library's sources by sim/rustlayer.py, decides nothing on its own.
// Parts are features: those, which do not compile with the tree (names changed by a refactoring), are left out.
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use crate::ber::*;
use crate::buf::{Buffer, get_buffer_pool};
use crate::error::{SnmpError, SnmpResult};
#[cfg(feature = "msg")]
use crate::snmp::get::SnmpGet;
#[cfg(feature = "msg")]
use crate::snmp::getbulk::SnmpGetBulk;
#[cfg(feature = "msg")]
use crate::snmp::msg::v3::{MsgData, ScopedPdu, UsmParameters};
#[cfg(feature = "msg")]
use crate::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage, SnmpV3Message};
#[cfg(feature = "elem")]
use crate::snmp::value::SnmpValue;
use std::io::{BufRead, Write};
use std::mem::MaybeUninit;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut r = Vec::with_capacity(b.len() * 2);
    for c in b {
        r.push(D[(c >> 4) as usize]);
        r.push(D[(c & 15) as usize]);
    }
    String::from_utf8(r).unwrap()
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    let b = s.as_bytes();
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    b.chunks(2).map(|x| (d(x[0]) << 4) | d(x[1])).collect()
}

fn err(e: SnmpError) -> String {
    match e {
        SnmpError::OutOfBuffer => "E:OutOfBuffer".into(),
        _ => "E".into(),
    }
}

fn unit(r: SnmpResult<()>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => err(e),
    }
}

#[repr(C)]
struct Guarded {
    pre: [u8; 8192],
    buf: Buffer,
    post: [u8; 8192],
}

#[cfg(feature = "buf")]
fn buf_op(b: &mut Buffer, op: &str) -> String {
    let mut p = op.split(':');
    let k = p.next().unwrap();
    let mut num = || p.next().unwrap();
    match k {
        "u" => unit(b.push_u8(num().parse().unwrap())),
        "p" => unit(b.push(&unhex(num()))),
        "l" => {
            let n: usize = num().parse().unwrap();
            let c: u8 = num().parse().unwrap();
            unit(b.push(&vec![c; n]))
        }
        "t" => {
            let t: u8 = num().parse().unwrap();
            unit(b.push_tag_len(t, num().parse().unwrap()))
        }
        "T" => {
            let t: u8 = num().parse().unwrap();
            unit(b.push_tagged(t, &unhex(num())))
        }
        "s" => {
            b.skip(num().parse().unwrap());
            "ok".into()
        }
        "r" => {
            b.reset();
            "ok".into()
        }
        "e" => unit(b.ensure_size(num().parse().unwrap())),
        "m" => {
            b.set_bookmark(num().parse().unwrap());
            "ok".into()
        }
        "g" => format!("{}", b.get_bookmark()),
        "d" => hex(b.data()),
        "D" => {
            // Write through the mutable view of the message
            let off: usize = num().parse().unwrap();
            let v = unhex(num());
            b.data_mut()[off..off + v.len()].copy_from_slice(&v);
            "ok".into()
        }
        "v" => {
            let off: usize = num().parse().unwrap();
            let v = unhex(num());
            let m: &mut [u8] = b.as_mut();
            m[off..off + v.len()].copy_from_slice(&v);
            "ok".into()
        }
        "A" => {
            // What recv() does
            let v = unhex(num());
            let m: &mut [MaybeUninit<u8>] = b.as_mut();
            for (x, y) in m.iter_mut().zip(v.iter()) {
                x.write(*y);
            }
            format!("{}", m.len())
        }
        "a" => hex(b.as_slice(num().parse().unwrap())),
        "i" => {
            let v: i64 = num().parse().unwrap();
            let v: SnmpInt = v.into();
            unit(v.push_ber(b))
        }
        "o" => unit(SnmpOid::from(unhex(num())).push_ber(b)),
        "n" => unit(SnmpNull.push_ber(b)),
        _ => "?".into(),
    }
}

#[cfg(feature = "buf")]
fn state(b: &Buffer) -> String {
    format!("{}/{}/{}{}", b.len(), b.free(), b.is_empty() as u8, b.is_full() as u8)
}

fn protect<F: FnOnce() -> String>(f: F) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".into())
}

fn poison(b: &mut Buffer, c: u8) {
    let m: &mut [MaybeUninit<u8>] = b.as_mut();
    for x in m.iter_mut() {
        x.write(c);
    }
}

// B <poison> op...
#[cfg(feature = "buf")]
fn case_buffer<'a>(args: impl Iterator<Item = &'a str>) -> String {
    let mut args = args;
    let c: u8 = args.next().unwrap().parse().unwrap();
    let mut g = Box::new(Guarded {
        pre: [0xC3; 8192],
        buf: Buffer::default(),
        post: [0x3C; 8192],
    });
    poison(&mut g.buf, c);
    let mut out = vec![];
    for op in args {
        let r = protect(|| format!("{}@{}", buf_op(&mut g.buf, op), state(&g.buf)));
        let stop = r == "PANIC";
        out.push(r);
        if stop {
            break;
        }
    }
    let intact = g.pre.iter().all(|x| *x == 0xC3) && g.post.iter().all(|x| *x == 0x3C);
    out.push(format!("guard={}", intact as u8));
    out.join(" ")
}

// Q <poison> +i | -i | i=op ...
#[cfg(feature = "buf")]
fn case_pool<'a>(args: impl Iterator<Item = &'a str>) -> String {
    let mut args = args;
    let c: u8 = args.next().unwrap().parse().unwrap();
    let pool = get_buffer_pool();
    let mut slots: Vec<Option<_>> = (0..8).map(|_| None).collect();
    let mut out = vec![];
    for op in args {
        let r = protect(|| match op.as_bytes()[0] {
            b'+' => {
                let i: usize = op[1..].parse().unwrap();
                let mut h = pool.acquire();
                let b: &mut Buffer = h.as_mut();
                let s = format!("{}@{}", hex(b.data()), state(b));
                poison(b, c);
                slots[i] = Some(h);
                s
            }
            b'-' => {
                let i: usize = op[1..].parse().unwrap();
                slots[i] = None;
                "ok@".into()
            }
            _ => {
                let (i, x) = op.split_once('=').unwrap();
                let i: usize = i.parse().unwrap();
                let b: &mut Buffer = slots[i].as_mut().unwrap().as_mut();
                format!("{}@{}", buf_op(b, x), state(b))
            }
        });
        let stop = r == "PANIC";
        out.push(r);
        if stop {
            break;
        }
    }
    drop(slots);
    out.join(" ")
}

#[cfg(feature = "elem")]
fn dec<'a, T: BerDecoder<'a>>(i: &'a [u8], f: impl Fn(T) -> String) -> String {
    match T::from_ber(i) {
        Ok((tail, v)) => {
            let at = tail.as_ptr() as usize - i.as_ptr() as usize;
            format!("ok {} {} {}", f(v), tail.len(), at)
        }
        Err(_) => "err".into(),
    }
}

#[cfg(feature = "elem")]
fn real(v: SnmpReal) -> String {
    let x: f64 = v.into();
    if x.is_nan() {
        return "nan".into();
    }
    format!("{:016x}", x.to_bits())
}

#[cfg(feature = "elem")]
fn int(v: SnmpInt) -> String {
    let x: i64 = v.into();
    format!("{x}")
}

#[cfg(feature = "elem")]
fn value(v: SnmpValue) -> String {
    match v {
        SnmpValue::Bool(x) => format!("bool:{}", bool::from(x) as u8),
        SnmpValue::Int(x) => format!("int:{}", int(x)),
        SnmpValue::Null => "null".into(),
        SnmpValue::OctetString(x) => format!("str:{}", hex(x.0)),
        SnmpValue::Oid(x) => format!("oid:{}", hex(&x.0)),
        SnmpValue::ObjectDescriptor(x) => format!("str:{}", hex(x.0)),
        SnmpValue::Real(x) => format!("real:{}", real(x)),
        SnmpValue::IpAddress(x) => format!("ip:{}", String::from(&x)),
        SnmpValue::Counter32(x) => format!("int:{}", x.0),
        SnmpValue::Gauge32(x) => format!("int:{}", x.0),
        SnmpValue::TimeTicks(x) => format!("int:{}", x.0),
        SnmpValue::Opaque(x) => format!("str:{}", hex(x.0)),
        SnmpValue::Counter64(x) => format!("int:{}", x.0),
        SnmpValue::UInteger32(x) => format!("int:{}", x.0),
        SnmpValue::NoSuchObject => "nso".into(),
        SnmpValue::NoSuchInstance => "nsi".into(),
        SnmpValue::EndOfMibView => "eom".into(),
    }
}

#[cfg(feature = "elem")]
fn decode(t: &str, i: &[u8]) -> String {
    match t {
        "header" => match BerHeader::from_ber(i) {
            Ok((tail, h)) => {
                let at = tail.as_ptr() as usize - i.as_ptr() as usize;
                format!("ok {}:{}:{} {} {}", h.constructed as u8, h.tag, h.length, tail.len(), at)
            }
            Err(_) => "err".into(),
        },
        "value" => match SnmpValue::from_ber(i) {
            Ok((tail, v)) => {
                let at = tail.as_ptr() as usize - i.as_ptr() as usize;
                format!("ok {} {} {}", value(v), tail.len(), at)
            }
            Err(_) => "err".into(),
        },
        "int" => dec::<SnmpInt>(i, int),
        "oid" => dec::<SnmpOid>(i, |v| hex(&v.0)),
        "null" => dec::<SnmpNull>(i, |_| "null".into()),
        "octets" => dec::<SnmpOctetString>(i, |v| hex(v.0)),
        "bool" => dec::<SnmpBool>(i, |v| format!("{}", bool::from(v) as u8)),
        "real" => dec::<SnmpReal>(i, real),
        "sequence" => dec::<SnmpSequence>(i, |v| hex(v.0)),
        "option" => dec::<SnmpOption>(i, |v| format!("{}:{}", v.tag, hex(v.value))),
        "reloid" => dec::<SnmpRelativeOid>(i, |v| hex(&v.normalize(&SnmpOid::from(vec![0x2b, 1, 2, 3])).0)),
        _ => "?".into(),
    }
}

#[cfg(feature = "msg")]
fn oids(v: &[SnmpOid]) -> String {
    let r: Vec<String> = v.iter().map(|x| hex(&x.0)).collect();
    if r.is_empty() { "none".into() } else { r.join(",") }
}

#[cfg(feature = "msg")]
fn pdu(p: &SnmpPdu) -> String {
    match p {
        SnmpPdu::GetRequest(x) => format!("get {} {}", x.request_id, oids(&x.vars)),
        SnmpPdu::GetNextRequest(x) => format!("getnext {} {}", x.request_id, oids(&x.vars)),
        SnmpPdu::GetBulkRequest(x) => format!(
            "getbulk {} {} {} {}",
            x.request_id, x.non_repeaters, x.max_repetitions, oids(&x.vars)
        ),
        SnmpPdu::GetResponse(_) => "response".into(),
        SnmpPdu::Report(_) => "report".into(),
    }
}

#[cfg(feature = "msg")]
fn make_pdu<'a>(kind: &str, rid: i64, nr: i64, mr: i64, vars: &str) -> SnmpPdu<'a> {
    let vars: Vec<SnmpOid> = if vars == "none" {
        vec![]
    } else {
        vars.split(',').map(|x| SnmpOid::from(unhex(x))).collect()
    };
    match kind {
        "get" => SnmpPdu::GetRequest(SnmpGet { request_id: rid, vars }),
        "getnext" => SnmpPdu::GetNextRequest(SnmpGet { request_id: rid, vars }),
        _ => SnmpPdu::GetBulkRequest(SnmpGetBulk {
            request_id: rid,
            non_repeaters: nr,
            max_repetitions: mr,
            vars,
        }),
    }
}

#[cfg(feature = "msg")]
fn v3_text(m: &SnmpV3Message) -> String {
    let data = match &m.data {
        MsgData::Plaintext(s) => format!("plain {} {}", hex(s.engine_id), pdu(&s.pdu)),
        MsgData::Encrypted(x) => format!("enc {}", hex(x)),
    };
    format!(
        "{} {}{}{} {} {} {} {} {} {} {}",
        m.msg_id,
        m.flag_auth as u8,
        m.flag_priv as u8,
        m.flag_report as u8,
        hex(m.usm.engine_id),
        m.usm.engine_boots,
        m.usm.engine_time,
        hex(m.usm.user_name),
        hex(m.usm.auth_params),
        hex(m.usm.privacy_params),
        data
    )
}

// What is encoded and what it is decoded back to
fn both(b: &Buffer, r: SnmpResult<()>, back: impl Fn(&[u8]) -> String) -> String {
    match r {
        Ok(()) => format!("{} {}", hex(b.data()), protect(|| back(b.data()))),
        Err(e) => err(e),
    }
}

#[cfg(feature = "elem")]
fn encode(a: &[&str], stale: u8) -> String {
    let mut h = Box::new(Buffer::default());
    let b: &mut Buffer = &mut h;
    poison(b, stale);
    match a[0] {
        "int" => {
            let v: i64 = a[1].parse().unwrap();
            let v: SnmpInt = v.into();
            let r = v.push_ber(b);
            both(b, r, |i| decode("int", i))
        }
        "oid" => {
            let r = SnmpOid::from(unhex(a[1])).push_ber(b);
            both(b, r, |i| decode("oid", i))
        }
        "null" => {
            let r = SnmpNull.push_ber(b);
            both(b, r, |i| decode("null", i))
        }
        "octets" => {
            let r = b.push_tagged(TAG_OCTET_STRING, &unhex(a[1]));
            both(b, r, |i| decode("octets", i))
        }
        "text" => match SnmpOid::try_from(a[1]) {
            Ok(o) => {
                let t = match String::try_from(&o) {
                    Ok(t) => t,
                    Err(_) => "E".into(),
                };
                let r = o.push_ber(b);
                format!("{} {}", t, both(b, r, |i| decode("oid", i)))
            }
            Err(_) => "refused".into(),
        },
        #[cfg(feature = "msg")]
        "v1" | "v2c" => {
            let c = unhex(a[1]);
            let p = make_pdu(a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6]);
            if a[0] == "v1" {
                let r = SnmpV1Message { community: &c, pdu: p }.push_ber(b);
                both(b, r, |i| match SnmpV1Message::try_from(i) {
                    Ok(m) => format!("{} {}", hex(m.community), pdu(&m.pdu)),
                    Err(_) => "err".into(),
                })
            } else {
                let r = SnmpV2cMessage { community: &c, pdu: p }.push_ber(b);
                both(b, r, |i| match SnmpV2cMessage::try_from(i) {
                    Ok(m) => format!("{} {}", hex(m.community), pdu(&m.pdu)),
                    Err(_) => "err".into(),
                })
            }
        }
        #[cfg(feature = "msg")]
        "v3" => {
            // msgid flags engine boots time user authp privp (enc hex | plain ctx kind rid nr mr oids)
            let (engine, user, ap, pp) = (unhex(a[3]), unhex(a[6]), unhex(a[7]), unhex(a[8]));
            let fl = a[2].as_bytes();
            let x = unhex(a[10]);
            let data = if a[9] == "enc" {
                MsgData::Encrypted(&x)
            } else {
                MsgData::Plaintext(ScopedPdu {
                    engine_id: &x,
                    pdu: make_pdu(a[11], a[12].parse().unwrap(), a[13].parse().unwrap(), a[14].parse().unwrap(), a[15]),
                })
            };
            let m = SnmpV3Message {
                msg_id: a[1].parse().unwrap(),
                flag_auth: fl[0] == b'1',
                flag_priv: fl[1] == b'1',
                flag_report: fl[2] == b'1',
                usm: UsmParameters {
                    engine_id: &engine,
                    engine_boots: a[4].parse().unwrap(),
                    engine_time: a[5].parse().unwrap(),
                    user_name: &user,
                    auth_params: &ap,
                    privacy_params: &pp,
                },
                data,
            };
            let r = m.push_ber(b);
            let mark = if ap.is_empty() || r.is_err() { "-".into() } else { format!("{}", b.get_bookmark()) };
            format!("{} {}", mark, both(b, r, |i| match SnmpV3Message::try_from(i) {
                Ok(m) => v3_text(&m),
                Err(_) => "err".into(),
            }))
        }
        _ => "?".into(),
    }
}

// V <1|2c|3> hex: decode the message
#[cfg(feature = "msg")]
fn message(t: &str, i: &[u8]) -> String {
    match t {
        "v1" => match SnmpV1Message::try_from(i) {
            Ok(m) => format!("ok {} {}", hex(m.community), pdu(&m.pdu)),
            Err(_) => "err".into(),
        },
        "v2c" => match SnmpV2cMessage::try_from(i) {
            Ok(m) => format!("ok {} {}", hex(m.community), pdu(&m.pdu)),
            Err(_) => "err".into(),
        },
        _ => match SnmpV3Message::try_from(i) {
            Ok(m) => format!("ok {}", v3_text(&m)),
            Err(_) => "err".into(),
        },
    }
}

fn run(line: &str) -> String {
    let mut p = line.split(' ');
    match p.next().unwrap() {
        #[cfg(feature = "buf")]
        "B" => case_buffer(p),
        #[cfg(feature = "buf")]
        "Q" => case_pool(p),
        #[cfg(feature = "elem")]
        "X" => {
            let t = p.next().unwrap();
            let i = unhex(p.next().unwrap());
            protect(|| decode(t, &i))
        }
        #[cfg(feature = "msg")]
        "V" => {
            let t = p.next().unwrap();
            let i = unhex(p.next().unwrap());
            protect(|| message(t, &i))
        }
        #[cfg(feature = "elem")]
        "N" => {
            let stale: u8 = p.next().unwrap().parse().unwrap();
            let a: Vec<&str> = p.collect();
            protect(|| encode(&a, stale))
        }
        _ => "?".into(),
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line == "flush" {
            out.flush().unwrap();
            continue;
        }
        writeln!(out, "{}", run(&line)).unwrap();
    }
    out.flush().unwrap();
}
