//! The contract file format: see /verif/contracts/*.vc.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub params: Option<Vec<String>>,
    pub ret: Option<String>,
    pub spec: String,
    pub body: String,
    pub attr: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_kind: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_body: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub external: Option<String>,
    pub rewrites: Vec<(String, String)>,
    pub locals: Vec<String>,
    pub all_locals: Vec<String>,
    pub tags: Vec<String>,
    /// (result type, meaning): a nom parser function
    pub parser: Option<(String, String)>,
    /// the function returns a closure: its body is verified as a function with this header
    pub lift: Option<String>,
    pub lift_calls: Vec<String>,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub modules: Vec<String>,
    pub module_path: BTreeMap<String, String>,
    pub module_head: BTreeMap<String, String>,
    pub module_tail: BTreeMap<String, String>,
    pub rec_fn: BTreeMap<String, String>,
    pub all_fn: BTreeMap<String, String>,
    /// first in the body of a function verified a second time, with more lemmas at hand
    pub strong_fn: BTreeMap<String, String>,
    pub after_type: BTreeMap<String, String>,
    pub in_impl: BTreeMap<String, String>,
    pub eq: BTreeMap<String, String>,
    pub default: BTreeMap<String, String>,
    pub skip: BTreeSet<String>,
    pub lower: BTreeSet<String>,
}

/// The contract files of a unit: the common ones, and the unit's own; sorted by file name.
pub fn files(dir: &str, unit: &str) -> Vec<std::path::PathBuf> {
    let mut v: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_file()).collect();
    if let Ok(d) = fs::read_dir(format!("{}/{}", dir, unit)) {
        v.extend(d.map(|e| e.unwrap().path()));
    }
    v.sort_by_key(|p| p.file_name().unwrap().to_owned());
    v
}

pub fn load(dir: &str, unit: &str) -> Contracts {
    let mut c = Contracts::default();
    for p in files(dir, unit) {
        if p.extension().map(|e| e == "vc").unwrap_or(false) {
            parse(&fs::read_to_string(&p).unwrap(), &mut c);
        }
    }
    c
}

fn parse(text: &str, c: &mut Contracts) {
    // split into directives: a line starting with '@', followed by its text
    let mut dirs: Vec<(String, String)> = vec![];
    for l in text.lines() {
        if l.starts_with('@') {
            dirs.push((l[1..].trim().to_string(), String::new()));
        } else if l.starts_with("##") {
            continue;
        } else if let Some(d) = dirs.last_mut() {
            d.1.push_str(l);
            d.1.push('\n');
        }
    }
    let mut cur: Option<String> = None;
    for (head, body) in dirs {
        let mut w = head.splitn(2, char::is_whitespace);
        let d = w.next().unwrap().to_string();
        let arg = w.next().unwrap_or("").trim().to_string();
        match d.as_str() {
            "module" => {
                let mut a = arg.split_whitespace();
                let n = a.next().unwrap().to_string();
                if let Some(p) = a.next() {
                    c.module_path.insert(n.clone(), p.to_string());
                }
                c.modules.push(n);
            }
            "head" => {
                c.module_head.entry(arg).or_default().push_str(&body);
            }
            "tail" => {
                c.module_tail.entry(arg).or_default().push_str(&body);
            }
            "recfn" => {
                let mut a = arg.split_whitespace();
                let k = a.next().unwrap().to_string();
                c.rec_fn.insert(k, a.next().unwrap().to_string());
            }
            "strongfn" => {
                c.strong_fn.entry(arg).or_default().push_str(&body);
            }
            "allfn" => {
                c.all_fn.entry(arg).or_default().push_str(&body);
            }
            "after" => {
                c.after_type.entry(arg).or_default().push_str(&body);
            }
            "inimpl" => {
                c.in_impl.entry(arg).or_default().push_str(&body);
            }
            "eq" => {
                c.eq.insert(arg, body.trim().to_string());
            }
            "default" => {
                c.default.insert(arg, body.trim().to_string());
            }
            "skip" => {
                c.skip.insert(arg);
            }
            "lower" => {
                c.lower.insert(arg);
            }
            "fn" => {
                // key (a, b) -> r
                let (key, rest) = match arg.find('(') {
                    Some(p) => (arg[..p].trim().to_string(), arg[p..].to_string()),
                    None => (arg.clone(), String::new()),
                };
                let mut f = FnContract::default();
                if !rest.is_empty() {
                    let close = rest.find(')').unwrap();
                    f.params = Some(
                        rest[1..close].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
                    );
                    if let Some(p) = rest.find("->") {
                        f.ret = Some(rest[p + 2..].trim().to_string());
                    }
                }
                f.spec = body;
                assert!(!c.fns.contains_key(&key), "duplicate contract {}", key);
                c.fns.insert(key.clone(), f);
                cur = Some(key);
            }
            _ => {
                let f = c.fns.get_mut(cur.as_ref().expect("directive outside @fn")).unwrap();
                match d.as_str() {
                    "body" => f.body.push_str(&body),
                    "attr" => f.attr.push_str(&body),
                    "external" => f.external = Some(arg),
                    "parser" => {
                        let (a, b) = arg.split_once('|').expect("@parser TYPE | meaning");
                        let (a, b) = (a.trim().to_string(), b.trim().to_string());
                        let p = f.params.clone().expect("@parser needs parameters")[0].clone();
                        let r = f.ret.clone().expect("@parser needs a result");
                        f.spec = format!(
                            "    ensures crate::nomshim::parsed({r}, {p}@), forall|vp_n: nat| #[trigger] crate::nomshim::lv(vp_n) ==> crate::nomshim::agr({r}, {}({p}@)),\n{}",
                            b.replace("(n)", "(vp_n)"), f.spec
                        );
                        f.parser = Some((a, b));
                    }
                    "lift" => f.lift = Some(body),
                    "liftcalls" => f.lift_calls = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "tags" => f.tags = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "locals" => f.locals = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "alllocals" => f.all_locals = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "rewrite" => {
                        let (a, b) = body.split_once("=>>").expect("=>>");
                        f.rewrites.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    "loop" | "loopbody" | "loopbefore" | "loopafter" => {
                        let mut a = arg.split_whitespace();
                        let n: usize = a.next().unwrap().parse().unwrap();
                        match d.as_str() {
                            "loop" => {
                                f.loop_kind.insert(n, a.next().unwrap_or("for").to_string());
                                f.loops.insert(n, body)
                            }
                            "loopbody" => f.loop_body.insert(n, body),
                            "loopbefore" => f.loop_before.insert(n, body),
                            _ => f.loop_after.insert(n, body),
                        };
                    }
                    "closure" => {
                        f.closures.insert(arg.parse().unwrap(), body.trim_end().to_string());
                    }
                    x => panic!("unknown directive @{}", x),
                }
            }
        }
    }
}
