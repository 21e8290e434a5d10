//! Forces a schedule upon calls of the parser made by several threads.
//!
//! The script has one operation per line, fields separated by blanks:
//!   `t HEX`     a text, numbered from 1         `f HEX`   a text that is parsed from a file, likewise
//!   `b T K`     thread T begins to parse text K
//!   `p T USEC`  thread T is suspended in the middle of its call, after so many microseconds
//!   `r T`       thread T goes on
//!   `e T`       the call of thread T ends: its result
//! A thread is suspended by a signal whose handler waits, though not for long: it may hold something
//! the others need. The events are reported as they came about.
use crate::{js, outcome, unhex};
use scilla_parser::{Contract, Error};
use std::cell::Cell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Once;
use std::time::{Duration, Instant};

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
    fn pthread_self() -> usize;
    fn usleep(usec: u32) -> i32;
    fn __errno_location() -> *mut i32;
}
const SIGUSR2: i32 = 12;

/// One per thread: what the handler and the controller tell each other.
#[derive(Default)]
struct Cell1 {
    asked: AtomicBool,
    paused: AtomicBool,
    in_call: AtomicBool,
    id: AtomicUsize,
}

thread_local! { static MINE: Cell<*const Cell1> = const { Cell::new(std::ptr::null()) }; }

extern "C" fn handler(_: i32) {
    let me = MINE.try_with(|m| m.get()).unwrap_or(std::ptr::null());
    if me.is_null() {
        return;
    }
    unsafe {
        let errno = *__errno_location();
        let me = &*me;
        if me.in_call.load(SeqCst) {
            me.paused.store(true, SeqCst);
            // what it holds may be what everybody waits for (the lock of the allocator, say)
            let since = Instant::now();
            while me.asked.load(SeqCst) {
                usleep(20);
                if since.elapsed() > Duration::from_millis(300) {
                    me.asked.store(false, SeqCst);
                }
            }
            me.paused.store(false, SeqCst);
        }
        *__errno_location() = errno;
    }
}

type Outcome = Option<Result<Contract, Error>>;

struct Worker {
    cell: &'static Cell1,
    job: Sender<(String, Option<PathBuf>)>,
    done: Receiver<Outcome>,
    text: usize,
    told: bool, // that it is suspended
    result: Option<Outcome>,
}

fn gone_on(workers: &mut [Worker], evs: &mut Vec<String>) {
    for (j, w) in workers.iter_mut().enumerate() {
        if w.told && !w.cell.asked.load(SeqCst) {
            w.told = false;
            evs.push(format!("[\"resume\",{},0,\"\",\"\"]", j + 1));
        }
    }
}

fn start() -> Worker {
    let cell: &'static Cell1 = Box::leak(Box::default());
    let (job, jobs) = channel::<(String, Option<PathBuf>)>();
    let (results, done) = channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        MINE.with(|m| m.set(cell));
        cell.id.store(unsafe { pthread_self() }, SeqCst);
        for (text, path) in jobs {
            cell.in_call.store(true, SeqCst);
            let r = std::panic::catch_unwind(|| match &path {
                Some(p) => Contract::parse(p),
                None => text.parse::<Contract>(),
            }).ok();
            cell.in_call.store(false, SeqCst);
            if results.send(r).is_err() {
                break;
            }
        }
        MINE.with(|m| m.set(std::ptr::null()));
        cell.id.store(0, SeqCst);
    }).unwrap();
    while cell.id.load(SeqCst) == 0 {
        std::thread::yield_now();
    }
    Worker { cell, job, done, text: 0, told: false, result: None }
}

pub fn run(dir: &str, script: &str) -> String {
    static SET: Once = Once::new();
    SET.call_once(|| unsafe { signal(SIGUSR2, handler as *const () as usize); });
    let mut texts: Vec<(String, Option<PathBuf>)> = vec![(String::new(), None)];
    let mut workers: Vec<Worker> = vec![];
    let mut evs: Vec<String> = vec![];
    let mut kept: Vec<(Outcome, (String, String))> = vec![];
    for line in script.lines().filter(|l| !l.is_empty()) {
        let f: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| f[i].parse::<usize>().unwrap();
        if f[0] == "t" || f[0] == "f" {
            let bytes = unhex(f.get(1).unwrap_or(&""));
            let path = (f[0] == "f").then(|| PathBuf::from(dir).join(format!("text{}", texts.len())));
            if let Some(p) = &path {
                std::fs::write(p, &bytes).unwrap();
            }
            texts.push((String::from_utf8(bytes).unwrap(), path));
            continue;
        }
        let t = n(1);
        while workers.len() < t {
            workers.push(start());
        }
        gone_on(&mut workers, &mut evs);
        match f[0] {
            "b" => {
                workers[t - 1].text = n(2);
                workers[t - 1].job.send(texts[n(2)].clone()).unwrap();
                evs.push(format!("[\"begin\",{t},{},\"\",\"\"]", n(2)));
            }
            "p" => {
                let w = &mut workers[t - 1];
                let at = Instant::now() + Duration::from_micros(n(2) as u64);
                while !w.cell.in_call.load(SeqCst) && w.result.is_none() {
                    if let Ok(r) = w.done.try_recv() {
                        w.result = Some(r);
                    }
                }
                while Instant::now() < at {
                    std::hint::spin_loop();
                }
                w.cell.asked.store(true, SeqCst);
                unsafe { pthread_kill(w.cell.id.load(SeqCst), SIGUSR2) };
                while !w.cell.paused.load(SeqCst) && w.result.is_none() {
                    if let Ok(r) = w.done.recv_timeout(Duration::from_micros(20)) {
                        w.result = Some(r);
                    }
                }
                if w.result.is_none() {
                    w.told = true;
                    evs.push(format!("[\"pause\",{t},0,\"\",\"\"]"));
                } else {
                    w.cell.asked.store(false, SeqCst);
                }
            }
            "r" => workers[t - 1].cell.asked.store(false, SeqCst),
            "e" => {
                // the watchdog of the harness sees to a call that does not end
                while workers[t - 1].result.is_none() {
                    if let Ok(r) = workers[t - 1].done.recv() {
                        workers[t - 1].result = Some(r);
                    }
                }
                gone_on(&mut workers, &mut evs);
                let r = workers[t - 1].result.take().unwrap();
                let (k, v) = match &r {
                    Some(x) => outcome(x),
                    None => ("panic".into(), "\"\"".into()),
                };
                evs.push(format!("[\"end\",{t},{},{},{v}]", workers[t - 1].text, js(&k)));
                kept.push((r, (k, v)));
            }
            _ => panic!("unknown operation {line}"),
        }
        gone_on(&mut workers, &mut evs);
    }
    let stable = kept.iter().all(|(r, was)| match r {
        Some(x) => outcome(x) == *was,
        None => true,
    });
    for (_, p) in &texts {
        if let Some(p) = p {
            let _ = std::fs::remove_file(p);
        }
    }
    format!("\"evs\":[{}],\"stable\":\"{}\"", evs.join(","), if stable { "yes" } else { "no" })
}
