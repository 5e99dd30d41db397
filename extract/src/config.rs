use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub mode: String, // verify | external | skip
    pub attrs: String,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub sigsub: Vec<(String, String)>,
    pub bodysub: Vec<(String, String)>,
}

#[derive(Default, Clone, Debug)]
pub struct FileCfg {
    pub path: String,
    pub module: String,
    pub header: String,
    pub spec: String,
    pub nouse: bool,
    pub fns: BTreeMap<String, FnC>,
    pub skip_items: BTreeSet<String>,
    pub keep_traits: BTreeSet<String>,
    pub inherent_traits: BTreeSet<String>,
    pub structural: BTreeSet<String>,
    pub noclone: BTreeSet<String>,
    pub broadcast: String,
}

/// Returns the file configurations and the raw text of %%crate sections.
pub fn parse_config(t: &str, name: &str) -> Result<(Vec<FileCfg>, String), String> {
    let mut files: Vec<FileCfg> = Vec::new();
    let mut extra = String::new();
    enum Sec {
        None,
        Crate,
        Header,
        Spec,
        Fn(Vec<String>),
        Loop(Vec<String>, usize),
        Hint(Vec<String>, String),
        Attr(Vec<String>),
        Skip,
    }
    let mut sec = Sec::None;
    let mut last_fns: Vec<String> = vec![];
    for (ln, line) in t.lines().enumerate() {
        if let Some(rest) = line.strip_prefix("%%") {
            let mut it = rest.splitn(2, char::is_whitespace);
            let d = it.next().unwrap_or("");
            let arg = it.next().unwrap_or("").trim();
            let err = || format!("{name}:{}: bad directive %%{rest}", ln + 1);
            match d {
                "#" => sec = Sec::Skip,
                "crate" => sec = Sec::Crate,
                "file" => {
                    let w: Vec<&str> = arg.split_whitespace().collect();
                    if w.len() < 2 {
                        return Err(err());
                    }
                    files.push(FileCfg { path: w[0].into(), module: w[1].into(), ..Default::default() });
                    sec = Sec::None;
                }
                "header" => sec = Sec::Header,
                "spec" => sec = Sec::Spec,
                "broadcast" => {
                    let f = files.last_mut().ok_or_else(err)?;
                    for w in arg.split_whitespace() {
                        f.broadcast.push_str(&format!(", {w}"));
                    }
                }
                "nouse" => files.last_mut().ok_or_else(err)?.nouse = true,
                "skipitem" => files.last_mut().ok_or_else(err)?.skip_items.extend(arg.split_whitespace().map(String::from)),
                "trait" => files.last_mut().ok_or_else(err)?.keep_traits.extend(arg.split_whitespace().map(String::from)),
                "inherent" => files.last_mut().ok_or_else(err)?.inherent_traits.extend(arg.split_whitespace().map(String::from)),
                "structural" => files.last_mut().ok_or_else(err)?.structural.extend(arg.split_whitespace().map(String::from)),
                "noclone" => files.last_mut().ok_or_else(err)?.noclone.extend(arg.split_whitespace().map(String::from)),
                "fn" | "external" | "skipfn" => {
                    let keys: Vec<String> = arg.split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    let mode = match d {
                        "fn" => "verify",
                        "external" => "external",
                        _ => "skip",
                    };
                    let f = files.last_mut().ok_or_else(err)?;
                    for k in &keys {
                        f.fns.entry(k.clone()).or_default().mode = mode.into();
                    }
                    last_fns = keys.clone();
                    sec = Sec::Fn(keys);
                }
                "attr" => sec = Sec::Attr(last_fns.clone()),
                "loop" => sec = Sec::Loop(last_fns.clone(), arg.parse().map_err(|_| err())?),
                "hint" => sec = Sec::Hint(last_fns.clone(), arg.to_string()),
                "sigsub" | "bodysub" => {
                    let (a, b) = arg.split_once("=>").ok_or_else(err)?;
                    let f = files.last_mut().ok_or_else(err)?;
                    for k in &last_fns {
                        let e = f.fns.get_mut(k).ok_or_else(err)?;
                        let pair = (a.trim().to_string(), b.trim().to_string());
                        if d == "sigsub" {
                            e.sigsub.push(pair)
                        } else {
                            e.bodysub.push(pair)
                        }
                    }
                }
                _ => return Err(err()),
            }
            if let Sec::Hint(keys, a) = &sec {
                let f = files.last_mut().ok_or("hint outside file")?;
                for k in keys {
                    f.fns.get_mut(k).ok_or("hint")?.hints.push((a.clone(), String::new()));
                }
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sec {
            Sec::None | Sec::Skip => {}
            Sec::Crate => add(&mut extra),
            Sec::Header => add(&mut files.last_mut().unwrap().header),
            Sec::Spec => add(&mut files.last_mut().unwrap().spec),
            Sec::Fn(keys) => {
                for k in keys {
                    add(&mut files.last_mut().unwrap().fns.get_mut(k).unwrap().contract)
                }
            }
            Sec::Attr(keys) => {
                for k in keys {
                    add(&mut files.last_mut().unwrap().fns.get_mut(k).unwrap().attrs)
                }
            }
            Sec::Loop(keys, n) => {
                for k in keys {
                    add(files.last_mut().unwrap().fns.get_mut(k).unwrap().loops.entry(*n).or_default())
                }
            }
            Sec::Hint(keys, _) => {
                for k in keys {
                    add(&mut files.last_mut().unwrap().fns.get_mut(k).unwrap().hints.last_mut().unwrap().1)
                }
            }
        }
    }
    Ok((files, extra))
}
