//! Contract files (.vc): one per source module.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub flags: Vec<String>,
    pub spec: String,
    pub treq: String,
    pub tens: String,
    pub traw: String,
    pub loops: BTreeMap<usize, String>,
    pub ghosts: BTreeMap<String, String>,
    pub accty: BTreeMap<usize, String>,
    /// sort N: element type and order
    pub sorts: BTreeMap<usize, (String, String)>,
    pub order: usize,
}
impl FnSpec {
    pub fn has(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
}
#[derive(Debug, Clone)]
pub enum Item {
    Raw(String),
    Type(String, Vec<String>),
    Fn(FnSpec),
}
#[derive(Default, Debug, Clone)]
pub struct Module {
    pub name: String,
    pub src: Option<String>,
    pub items: Vec<Item>,
    pub file: String,
}

pub fn parse(path: &Path) -> Vec<Module> {
    let text = std::fs::read_to_string(path).unwrap();
    let mut mods: Vec<Module> = vec![];
    enum Sec {
        None,
        Raw,
        Spec,
        Treq,
        Tens,
        Traw,
        Loop(usize),
        Ghost(String),
        Sort(usize),
    }
    let mut sec = Sec::None;
    let mut order = 0;
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("//#") {
            continue;
        }
        if let Some(d) = t.strip_prefix('@') {
            let mut it = d.splitn(2, char::is_whitespace);
            let word = it.next().unwrap();
            let rest = it.next().unwrap_or("").trim();
            let known = [
                "module", "raw", "type", "fn", "treq", "tens", "traw", "loop", "ghost", "sort", "end",
            ];
            if known.contains(&word) {
                match word {
                    "module" => {
                        let p: Vec<&str> = rest.split_whitespace().collect();
                        mods.push(Module {
                            name: p[0].to_string(),
                            src: p.get(1).map(|s| s.to_string()),
                            items: vec![],
                            file: path.display().to_string(),
                        });
                        sec = Sec::None;
                    }
                    "raw" => {
                        mods.last_mut().unwrap().items.push(Item::Raw(String::new()));
                        sec = Sec::Raw;
                    }
                    "type" => {
                        let p: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
                        mods.last_mut()
                            .unwrap()
                            .items
                            .push(Item::Type(p[0].clone(), p[1..].to_vec()));
                        sec = Sec::None;
                    }
                    "fn" => {
                        // key [ | flags ]
                        let mut p = rest.splitn(2, '|');
                        let key = p.next().unwrap().trim().to_string();
                        let flags = p
                            .next()
                            .unwrap_or("")
                            .split_whitespace()
                            .map(|s| s.to_string())
                            .collect();
                        order += 1;
                        mods.last_mut().unwrap().items.push(Item::Fn(FnSpec {
                            key,
                            flags,
                            order,
                            ..Default::default()
                        }));
                        sec = Sec::Spec;
                    }
                    "treq" => sec = Sec::Treq,
                    "tens" => sec = Sec::Tens,
                    "traw" => sec = Sec::Traw,
                    "loop" => {
                        let mut p = rest.splitn(2, ':');
                        let n: usize = p.next().unwrap().trim().parse().unwrap();
                        if let (Some(t), Some(Item::Fn(f))) =
                            (p.next(), mods.last_mut().unwrap().items.last_mut())
                        {
                            f.accty.insert(n, t.trim().to_string());
                        }
                        if let Some(Item::Fn(f)) = mods.last_mut().unwrap().items.last_mut() {
                            f.loops.entry(n).or_default();
                        }
                        sec = Sec::Loop(n);
                    }
                    "ghost" => sec = Sec::Ghost(rest.to_string()),
                    "sort" => {
                        let mut p = rest.splitn(2, ':');
                        let n: usize = p.next().unwrap().trim().parse().unwrap();
                        if let (Some(t), Some(Item::Fn(f))) =
                            (p.next(), mods.last_mut().unwrap().items.last_mut())
                        {
                            f.sorts.insert(n, (t.trim().to_string(), String::new()));
                        }
                        sec = Sec::Sort(n);
                    }
                    _ => sec = Sec::None,
                }
                continue;
            }
        }
        let m = match mods.last_mut() {
            Some(m) => m,
            None => continue,
        };
        if let Sec::None = sec {
            continue;
        }
        match m.items.last_mut() {
            Some(Item::Raw(r)) => {
                r.push_str(line);
                r.push('\n');
            }
            Some(Item::Fn(f)) => {
                let s = match &sec {
                    Sec::Spec => &mut f.spec,
                    Sec::Treq => &mut f.treq,
                    Sec::Tens => &mut f.tens,
                    Sec::Traw => &mut f.traw,
                    Sec::Loop(n) => f.loops.entry(*n).or_default(),
                    Sec::Ghost(a) => f.ghosts.entry(a.clone()).or_default(),
                    Sec::Sort(n) => &mut f.sorts.get_mut(n).unwrap().1,
                    _ => continue,
                };
                s.push_str(line);
                s.push('\n');
            }
            _ => {}
        }
    }
    mods
}
