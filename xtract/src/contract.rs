//! Contract files: one per module, keyed by function.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub id: String,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, (String, String)>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub hints: Vec<(String, String)>,
    pub external: Option<String>,
    pub opts: HashMap<String, String>,
    pub attrs: String,
}

#[derive(Default, Clone, Debug)]
pub struct ModC {
    pub items: String,
    pub fns: HashMap<String, FnC>,
    pub keep: Vec<String>,
    pub inherent: Vec<String>,
    pub drop: Vec<String>,
    pub mono: Vec<String>,
    pub asref: bool,
}

pub fn parse(text: &str) -> ModC {
    let mut m = ModC::default();
    let mut cur: Option<FnC> = None;
    let mut in_items = false;
    // current section of the function
    let mut sec: Option<(String, String)> = None;
    fn flush(cur: &mut Option<FnC>, sec: &mut Option<(String, String)>) {
        if let (Some(f), Some((head, body))) = (cur.as_mut(), sec.take()) {
            let mut w = head.split_whitespace();
            let key = w.next().unwrap_or("").to_string();
            let rest: Vec<&str> = w.collect();
            match key.as_str() {
                "ret" => f.ret = Some(rest[0].to_string()),
                "spec" => f.spec = body,
                "loop" => {
                    let n: usize = rest[0].parse().unwrap();
                    let kind = rest.get(1).unwrap_or(&"").to_string();
                    f.loops.insert(n, (kind, body));
                }
                "closure" => {
                    let n: usize = rest[0].parse().unwrap();
                    let params = head.splitn(3, char::is_whitespace).nth(2).unwrap_or("").to_string();
                    f.closures.insert(n, (params, body));
                }
                "hint" => f.hints.push((rest.join(" "), body)),
                "external" => f.external = Some(rest.join(" ")),
                "attr" => f.attrs.push_str(&body),
                "opt" => {
                    for o in rest {
                        let mut kv = o.splitn(2, '=');
                        let k = kv.next().unwrap().to_string();
                        f.opts.insert(k, kv.next().unwrap_or("1").to_string());
                    }
                }
                k => panic!("unknown section %{}", k),
            }
        }
    }
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            flush(&mut cur, &mut sec);
            if let Some(f) = cur.take() {
                m.fns.insert(f.id.clone(), f);
            }
            in_items = false;
            let mut w = d.splitn(2, ' ');
            let key = w.next().unwrap();
            let rest = w.next().unwrap_or("").trim().to_string();
            match key {
                "items" => in_items = true,
                "fn" => cur = Some(FnC { id: rest, ..Default::default() }),
                "keep" => m.keep.push(rest),
                "inherent" => m.inherent.push(rest),
                "drop" => m.drop.push(rest),
                "mono" => m.mono.push(rest),
                "end" => {}
                k => panic!("unknown directive @{}", k),
            }
        } else if in_items {
            m.items.push_str(line);
            m.items.push('\n');
        } else if cur.is_some() {
            if let Some(s) = line.strip_prefix('%') {
                flush(&mut cur, &mut sec);
                sec = Some((s.trim().to_string(), String::new()));
            } else if let Some((_, b)) = sec.as_mut() {
                b.push_str(line);
                b.push('\n');
            }
        }
    }
    flush(&mut cur, &mut sec);
    if let Some(f) = cur.take() {
        m.fns.insert(f.id.clone(), f);
    }
    m
}
