//! Replays a history of file operations and parses, and reports what every parse returned.
//!
//! The script has one operation per line, fields separated by blanks, contents in hex:
//!   `w F HEX`  write F in place            `r F HEX`  replace F by a new file
//!   `m F HEX`  write F, keep its time      `d F`      remove F (file or directory)
//!   `k F`      make the directory F        `n A B`    rename A to B
//!   `y A B`    B becomes a symbolic link to A
//!   `p F`      parse the file F            `s HEX`    parse a string
//!   `t N HEX,HEX,..`  N threads, each parsing all of the strings at the same time
//!   `T N F,F,..`      the same with files
//!   `l N HEX,HEX,..`  parse the strings in turn, N times over; only different results are reported
//!   `o N R HEX,..;HEX,..`  N threads, each parsing the strings of one of the groups R times over; likewise
//! File names are relative to the directory given, which the script may not leave; `%41` stands for
//! the byte 0x41.
use crate::{js, outcome, unhex};
use scilla_parser::{Contract, Error};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier};

type Outcome = Result<Contract, Error>;

fn snapshot(dir: &Path, into: &mut BTreeMap<PathBuf, String>) {
    let Ok(list) = std::fs::read_dir(dir) else { return };
    for e in list.flatten() {
        let p = e.path();
        let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
        let body = if m.is_file() { std::fs::read(&p).unwrap_or_default() } else { vec![] };
        into.insert(p.clone(), format!("{:?} {:?} {:?} {:?}", m.file_type(), m.permissions(), m.modified().ok(), body));
        if m.is_dir() {
            snapshot(&p, into);
        }
    }
}

fn name(x: &str) -> std::ffi::OsString {
    let (b, mut out, mut i) = (x.as_bytes(), vec![], 0);
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(&x[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    std::os::unix::ffi::OsStringExt::from_vec(out)
}

fn caught(f: impl FnOnce() -> Outcome + std::panic::UnwindSafe) -> Option<Outcome> {
    std::panic::catch_unwind(f).ok()
}

fn shown(r: &Option<Outcome>) -> (String, String) {
    match r {
        Some(r) => outcome(r),
        None => ("panic".into(), "\"\"".into()),
    }
}

pub fn run(dir: &str, script: &str) -> String {
    let root = PathBuf::from(dir);
    let mut evs: Vec<String> = vec![];
    let mut kept: Vec<(Option<Outcome>, (String, String))> = vec![];
    for line in script.lines().filter(|l| !l.is_empty()) {
        let f: Vec<&str> = line.split(' ').collect();
        let at = |i: usize| root.join(name(f[i]));
        match f[0] {
            "w" => std::fs::write(at(1), unhex(f[2])).unwrap(),
            "m" => {
                let t = std::fs::metadata(at(1)).and_then(|m| m.modified()).unwrap();
                std::fs::write(at(1), unhex(f[2])).unwrap();
                std::fs::File::options().write(true).open(at(1)).unwrap().set_modified(t).unwrap();
            }
            "r" => {
                let tmp = root.join("replacement.tmp");
                std::fs::write(&tmp, unhex(f[2])).unwrap();
                std::fs::rename(&tmp, at(1)).unwrap();
            }
            "n" => std::fs::rename(at(1), at(2)).unwrap(),
            "y" => std::os::unix::fs::symlink(std::path::absolute(at(1)).unwrap(), at(2)).unwrap(),
            "d" => {
                if std::fs::symlink_metadata(at(1)).unwrap().is_dir() {
                    std::fs::remove_dir(at(1)).unwrap()
                } else {
                    std::fs::remove_file(at(1)).unwrap()
                }
            }
            "k" => std::fs::create_dir(at(1)).unwrap(),
            "p" | "s" => {
                let (mut before, mut after) = (BTreeMap::new(), BTreeMap::new());
                snapshot(&root, &mut before);
                let r = if f[0] == "p" {
                    let p = at(1);
                    caught(move || Contract::parse(&p))
                } else {
                    let t = String::from_utf8(unhex(f.get(1).unwrap_or(&""))).unwrap();
                    caught(move || t.parse::<Contract>())
                };
                snapshot(&root, &mut after);
                let (k, v) = shown(&r);
                evs.push(format!("[\"{}\",{},{v},\"{}\"]", f[0], js(&k), if before == after { "same" } else { "changed" }));
                kept.push((r, (k, v)));
            }
            "t" | "T" => {
                let n: usize = f[1].parse().unwrap();
                let files = f[0] == "T";
                let jobs: Arc<Vec<(String, PathBuf)>> = Arc::new(f[2].split(',').map(|x| {
                    if files { (String::new(), root.join(name(x))) } else { (String::from_utf8(unhex(x)).unwrap(), PathBuf::new()) }
                }).collect());
                let gate = Arc::new(Barrier::new(n));
                let handles: Vec<_> = (0..n).map(|w| {
                    let (jobs, gate) = (jobs.clone(), gate.clone());
                    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                        gate.wait();
                        (0..jobs.len()).map(|j| {
                            let j = (j + w) % jobs.len();
                            let r = caught(|| if files { Contract::parse(&jobs[j].1) } else { jobs[j].0.parse::<Contract>() });
                            (j, r)
                        }).collect::<Vec<_>>()
                    }).unwrap()
                }).collect();
                let mut all: Vec<String> = vec![];
                for h in handles { // the order of the threads, not of time
                    for (j, r) in h.join().unwrap() {
                        let (k, v) = shown(&r);
                        all.push(format!("[{},{},{v}]", j, js(&k)));
                        kept.push((r, (k, v)));
                    }
                }
                evs.push(format!("[\"{}\",[{}],\"\",\"same\"]", f[0], all.join(",")));
            }
            "l" | "o" => {
                let storm = f[0] == "o";
                let (n, rounds): (usize, usize) = if storm { (f[1].parse().unwrap(), f[2].parse().unwrap()) } else { (1, f[1].parse().unwrap()) };
                let mut groups: Vec<Vec<(usize, String)>> = vec![];
                let mut count = 0;
                for g in f[if storm { 3 } else { 2 }].split(';') {
                    groups.push(g.split(',').map(|x| { count += 1; (count - 1, String::from_utf8(unhex(x)).unwrap()) }).collect());
                }
                let groups = Arc::new(groups);
                let gate = Arc::new(Barrier::new(n));
                let body = move |w: usize, groups: Arc<Vec<Vec<(usize, String)>>>, gate: Arc<Barrier>| {
                    let mut seen: BTreeMap<(usize, String, String), Option<Outcome>> = BTreeMap::new();
                    gate.wait();
                    for _ in 0..rounds {
                        for (j, text) in &groups[w % groups.len()] {
                            let r = caught(|| text.parse::<Contract>());
                            let (k, v) = shown(&r);
                            seen.entry((*j, k, v)).or_insert(r);
                        }
                    }
                    seen
                };
                let all: Vec<_> = if storm {
                    let handles: Vec<_> = (0..n).map(|w| {
                        let (groups, gate) = (groups.clone(), gate.clone());
                        std::thread::Builder::new().stack_size(8 << 20).spawn(move || body(w, groups, gate)).unwrap()
                    }).collect();
                    handles.into_iter().flat_map(|h| h.join().unwrap()).collect()
                } else {
                    body(0, groups, gate).into_iter().collect()
                };
                let mut told: BTreeMap<(usize, String, String), ()> = BTreeMap::new();
                for ((j, k, v), r) in all {
                    kept.push((r, (k.clone(), v.clone())));
                    told.insert((j, k, v), ());
                }
                let list: Vec<String> = told.keys().map(|(j, k, v)| format!("[{},{},{v}]", j, js(k))).collect();
                evs.push(format!("[\"{}\",[{}],\"\",\"same\"]", f[0], list.join(",")));
            }
            _ => panic!("unknown operation {line}"),
        }
    }
    let stable = kept.iter().all(|(r, was)| shown(r) == *was);
    format!("\"evs\":[{}],\"stable\":\"{}\"", evs.join(","), if stable { "yes" } else { "no" })
}
