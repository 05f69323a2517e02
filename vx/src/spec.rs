//! Parser for the contract files.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Section {
    /// raw | type | fn | const
    pub kind: String,
    pub args: Vec<String>,
    /// Text directly following the header.
    pub body: String,
    /// `--- NAME` subsections.
    pub parts: BTreeMap<String, String>,
}

impl Section {
    /// `key=value` arguments of the header.
    pub fn opt(&self, key: &str) -> Option<&str> {
        self.args
            .iter()
            .find_map(|a| a.strip_prefix(key)?.strip_prefix('='))
    }
    pub fn flag(&self, key: &str) -> bool {
        self.args.iter().any(|a| a == key)
    }
}

pub fn parse(text: &str) -> Vec<Section> {
    let mut out: Vec<Section> = vec![];
    let mut part: Option<String> = None;
    for line in text.lines() {
        if let Some(h) = line.strip_prefix("=== ") {
            let mut it = h.split_whitespace().map(|s| s.to_string());
            out.push(Section { kind: it.next().unwrap(), args: it.collect(), ..Default::default() });
            part = None;
        } else if let Some(h) = line.strip_prefix("--- ") {
            let name = h.trim().to_string();
            out.last_mut().unwrap().parts.insert(name.clone(), String::new());
            part = Some(name);
        } else if let Some(sec) = out.last_mut() {
            let t = match &part {
                Some(p) => sec.parts.get_mut(p).unwrap(),
                None => &mut sec.body,
            };
            t.push_str(line);
            t.push('\n');
        }
    }
    let mut res = vec![];
    for s in out {
        match s.opt("each").map(|x| x.to_string()) {
            Some(ws) => {
                for w in ws.split(',') {
                    let (h, m) = match w {
                        "u8" => ("0x80", "0xff"),
                        "u16" => ("0x8000", "0xffff"),
                        "u32" => ("0x8000_0000", "0xffff_ffff"),
                        _ => panic!("width {w}"),
                    };
                    let f = |t: &String| t.replace("$W", w).replace("$H", h).replace("$M", m);
                    let mut n = s.clone();
                    n.args = n.args.iter().filter(|a| !a.starts_with("each=")).map(&f).collect();
                    n.args.push(format!("U={w}"));
                    n.body = f(&n.body);
                    n.parts = n.parts.iter().map(|(k, v)| (k.clone(), f(v))).collect();
                    res.push(n);
                }
            }
            None => res.push(s),
        }
    }
    res
}
