//! Answers requests: one line each, hexadecimal arguments; L database, F file name, S text, B bytes, U number; O another database beside the first, P bytes asked of it.
//! Answers start with "@@" because the library prints lines of its own.
use qnip::data::IpInfo;
use qnip::query::QueryDb;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(s: &str) -> String {
    let mut o = String::from("=");
    for b in s.bytes() {
        o.push_str(&format!("{:02x}", b));
    }
    o
}

fn record(r: std::io::Result<IpInfo>) -> String {
    match r {
        Ok(i) => format!("r {} {} {} {} {} {} {} {}", hex(&i.country), hex(&i.province), hex(&i.city), hex(&i.isp), hex(&i.asn), hex(&i.continent), hex(&i.line), hex(&i.district)),
        Err(e) => format!("e {}", hex(&e.to_string())),
    }
}

fn load(r: std::io::Result<QueryDb>, q: &mut Option<QueryDb>) -> String {
    match r {
        Ok(d) => {
            let v = d.version();
            let mut s = format!("v {} {} {} {}", v.ip_type, v.count, v.build, hex(&v.version));
            if v.has_ipv4() != (v.ip_type & 1 != 0) || v.has_ipv6() != (v.ip_type & 2 != 0) {
                return format!("x {}", hex(&format!("has_ipv4 {}, has_ipv6 {}, family {}", v.has_ipv4(), v.has_ipv6(), v.ip_type)));
            }
            for x in v.extra_info.unwrap_or_default() {
                s.push(' ');
                s.push_str(&hex(&x));
            }
            *q = Some(d);
            s
        }
        Err(e) => format!("e {}", hex(&e.to_string())),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut q: Option<QueryDb> = None;
    let mut other: Option<QueryDb> = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let arg = unhex(&line[1..]);
        let r = catch_unwind(AssertUnwindSafe(|| match &line[..1] {
            "L" => {
                q = None;
                other = None;
                load(QueryDb::from_bytes(&arg), &mut q)
            }
            "F" => {
                q = None;
                other = None;
                load(QueryDb::from_file(&String::from_utf8_lossy(&arg)), &mut q)
            }
            "O" => load(QueryDb::from_bytes(&arg), &mut other),
            "P" => record(other.as_ref().unwrap().query(&arg)),
            "S" | "B" | "U" if q.is_none() => "n".to_string(),
            "S" => record(q.as_ref().unwrap().query_str(&String::from_utf8_lossy(&arg))),
            "B" => record(q.as_ref().unwrap().query(&arg)),
            "U" => record(q.as_ref().unwrap().query_u32(u32::from_be_bytes([arg[0], arg[1], arg[2], arg[3]]))),
            _ => "? request".to_string(),
        }));
        let s = match r {
            Ok(s) => s,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".to_string() };
                format!("x {}", hex(&m))
            }
        };
        let mut o = std::io::stdout().lock();
        o.write_all(format!("\n@@{}\n", s).as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
