//! Second stage of C07, C13 and C14: the objects a first stage kept are read by readers that share
//! no code with faerie or goblin (GNU binutils and LLVM). Each has to finish without complaint.
use crate::run::{Kept, Post};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Tool {
    pub exe: &'static str,
    pub args: &'static [&'static str],
    /// rewrites one file into another
    pub out: bool,
}
const COPY: Tool = Tool {
    exe: "/usr/bin/llvm-objcopy-18",
    args: &[],
    out: true,
};
const ELF_TOOLS: &[Tool] = &[
    Tool {
        exe: "/usr/bin/readelf",
        args: &["-W", "-h", "-S", "-l", "-s", "-r", "-g", "-n", "-V"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-readelf-18",
        args: &["-W", "-h", "-S", "-l", "-s", "-r", "-g", "-n"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-readobj-18",
        args: &["-h", "-S", "-s", "-r", "--section-symbols", "--section-data"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/nm",
        args: &["-a", "-S"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-nm-18",
        args: &["-a", "-S"],
        out: false,
    },
    COPY,
];
const BIG_ELF_TOOLS: &[Tool] = &[
    Tool {
        exe: "/usr/bin/readelf",
        args: &["-W", "-h", "-S", "-l", "-s", "-r", "-g", "-n", "-V"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-readelf-18",
        args: &["-W", "-h", "-S", "-l", "-s", "-r", "-g", "-n"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-readobj-18",
        args: &["-h", "-S", "-s", "-r"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/nm",
        args: &["-a", "-S"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-nm-18",
        args: &["-a", "-S"],
        out: false,
    },
    COPY,
];
const MACH_TOOLS: &[Tool] = &[
    Tool {
        exe: "/usr/bin/llvm-readobj-18",
        args: &[
            "-h",
            "-S",
            "-s",
            "-r",
            "--section-data",
            "--macho-segment",
            "--macho-dysymtab",
        ],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-nm-18",
        args: &["-a", "-m"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-otool-18",
        args: &["-h", "-l", "-r"],
        out: false,
    },
    Tool {
        exe: "/usr/bin/llvm-objdump-18",
        args: &["--macho", "-t", "-r", "--private-headers"],
        out: false,
    },
    COPY,
];
const LIMIT: Duration = Duration::from_secs(120);

pub enum Ran {
    Fine,
    Complains(String),
    /// the tool is missing or did not finish: nothing is learned
    NoAnswer(String),
}
/// Runs a reader over some files; it may not write to stderr or fail.
pub fn read_with(t: &Tool, files: &[PathBuf], err: &Path) -> Ran {
    let f = match std::fs::File::create(err) {
        Ok(f) => f,
        Err(e) => return Ran::NoAnswer(e.to_string()),
    };
    let mut c = match Command::new(t.exe)
        .args(t.args)
        .args(files)
        .args(t.out.then(|| err.with_extension("copy")))
        .env("LC_ALL", "C")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(f)
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Ran::NoAnswer(e.to_string()),
    };
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if t0.elapsed() > LIMIT => {
                let _ = c.kill();
                let _ = c.wait();
                return Ran::NoAnswer("no end".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(e) => return Ran::NoAnswer(e.to_string()),
        }
    };
    let text = std::fs::read(err).unwrap_or_default();
    let text = String::from_utf8_lossy(&text);
    // nm has nothing to say about an object without symbols, and says so
    let text: Vec<&str> = text
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.ends_with("no symbols"))
        .collect();
    if text.is_empty() && st.success() {
        Ran::Fine
    } else {
        Ran::Complains(format!(
            "{st}; {}",
            text.iter().take(6).cloned().collect::<Vec<_>>().join(" | ")
        ))
    }
}
fn stage(kept: &mut Vec<Kept>, p: &mut Post, tools: &[Tool], chunk: usize) -> Result<(), (crate::tape::Tape, String)> {
    let mut files = vec![];
    for (i, k) in kept.iter().enumerate() {
        let f = p.scratch.join(format!("r{i}.o"));
        if std::fs::write(&f, &k.1).is_err() {
            break;
        }
        files.push(f);
    }
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for ti in 0..tools.len() {
        let mut a = 0;
        let chunk = if tools[ti].out { 1 } else { chunk };
        while a < files.len() {
            jobs.push((ti, a, (a + chunk).min(files.len())));
            a += chunk;
        }
    }
    jobs.reverse();
    let jobs = Mutex::new(jobs);
    let bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
    let read = Mutex::new((0u64, 0u64));
    std::thread::scope(|s| {
        for w in 0..8 {
            let (jobs, bad, read, files, scratch, deadline) = (&jobs, &bad, &read, &files, &p.scratch, p.deadline);
            s.spawn(move || loop {
                let Some((ti, mut a, mut b)) = jobs.lock().unwrap().pop() else {
                    return;
                };
                if bad.lock().unwrap().is_some() || Instant::now() > deadline {
                    return;
                }
                let err = scratch.join(format!("err{w}"));
                match read_with(&tools[ti], &files[a..b], &err) {
                    Ran::Fine => read.lock().unwrap().0 += (b - a) as u64,
                    Ran::NoAnswer(_) => read.lock().unwrap().1 += (b - a) as u64,
                    Ran::Complains(mut m) => {
                        // which one
                        while b - a > 1 {
                            let h = (a + b) / 2;
                            match read_with(&tools[ti], &files[a..h], &err) {
                                Ran::Complains(x) => {
                                    m = x;
                                    b = h;
                                }
                                _ => match read_with(&tools[ti], &files[h..b], &err) {
                                    Ran::Complains(x) => {
                                        m = x;
                                        a = h;
                                    }
                                    _ => {
                                        // only together: not a statement about any one object
                                        read.lock().unwrap().1 += (b - a) as u64;
                                        return;
                                    }
                                },
                            }
                        }
                        let mut g = bad.lock().unwrap();
                        if g.is_none() {
                            *g = Some((a, format!("{} {}: {m}", tools[ti].exe, tools[ti].args.join(" "))));
                        }
                        return;
                    }
                }
            });
        }
    });
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    let (n, no) = *read.lock().unwrap();
    p.extra
        .insert("objects given to each independent reader".into(), files.len() as u64);
    p.extra.insert("readings by independent readers".into(), n);
    if no > 0 {
        p.extra.insert("readings without an answer".into(), no);
    }
    match bad.into_inner().unwrap() {
        Some((i, m)) => Err((kept[i].0.clone(), format!("({}) {m}", kept[i].2))),
        None => Ok(()),
    }
}
pub fn elf_readers(kept: &mut Vec<Kept>, p: &mut Post) -> Result<(), (crate::tape::Tape, String)> {
    stage(kept, p, ELF_TOOLS, 40)
}
pub fn big_elf_readers(kept: &mut Vec<Kept>, p: &mut Post) -> Result<(), (crate::tape::Tape, String)> {
    // --section-data takes minutes on these
    stage(kept, p, BIG_ELF_TOOLS, 1)
}
pub fn mach_readers(kept: &mut Vec<Kept>, p: &mut Post) -> Result<(), (crate::tape::Tape, String)> {
    stage(kept, p, MACH_TOOLS, 40)
}
