//! C06: writing an artifact to a file, with injected faults and file states.
use crate::drive::*;
use crate::elf::ensure;
use crate::gen::{decode, Gen, GenCfg, Targets};
use crate::spec::*;
use crate::tape::*;
use faerie::ArtifactError;
use std::fs::{File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::Once;
use target_lexicon::BinaryFormat;

extern "C" {
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn siginterrupt(sig: i32, on: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(t: usize, sig: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn socketpair(d: i32, t: i32, p: i32, sv: *mut i32) -> i32;
}
const O_NONBLOCK: i32 = 0o4000;
const O_CLOEXEC: i32 = 0o2000000;
const F_SETPIPE_SZ: i32 = 1031;
const F_ADD_SEALS: i32 = 1033;
const SIGUSR1: i32 = 10;
const SIGXFSZ: i32 = 25;
/// no file of this process grows beyond this: a write across it is cut short, the next one fails
pub const FILE_LIMIT: u64 = 1 << 20;

extern "C" fn on_signal(_: i32) {}
fn prepare() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        signal(SIGXFSZ, 1);
        signal(SIGUSR1, on_signal as *const () as usize);
        siginterrupt(SIGUSR1, 1);
        setrlimit(1, &[FILE_LIMIT, u64::MAX]);
    });
}
fn pipe(flags: i32, size: i32) -> (File, File) {
    let mut f = [0i32; 2];
    unsafe {
        assert!(pipe2(f.as_mut_ptr(), flags | O_CLOEXEC) == 0, "harness: pipe");
        fcntl(f[1], F_SETPIPE_SZ, size);
        (File::from_raw_fd(f[0]), File::from_raw_fd(f[1]))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sink {
    New,
    Longer,
    Append,
    Gap,
    Full,
    ReadOnly,
    ClosedPipe,
    NonBlockingPipe,
    SlowPipe,
    SignalledPipe,
    Sealed,
    Limit,
    SlowSocket,
}
const SINKS: &[Sink] = &[
    Sink::New,
    Sink::Longer,
    Sink::Append,
    Sink::Gap,
    Sink::Full,
    Sink::ReadOnly,
    Sink::ClosedPipe,
    Sink::NonBlockingPipe,
    Sink::SlowPipe,
    Sink::SignalledPipe,
    Sink::Sealed,
    Sink::Limit,
    Sink::SlowSocket,
];
fn sink_of(t: &Tape) -> Sink {
    SINKS[(t.hdr[9] as usize * SINKS.len()) >> 16]
}
pub fn c06_case(t: &Tape) -> Gen {
    let refused = t.hdr[14] >= 0xd000;
    let mut g = decode(
        t,
        &GenCfg {
            complete: !refused,
            targets: Targets::Both,
            errors: 2,
            max_align: 8,
            ..GenCfg::default()
        },
    );
    if matches!(
        sink_of(t),
        Sink::NonBlockingPipe | Sink::SlowPipe | Sink::SignalledPipe | Sink::SlowSocket
    ) {
        // more than the pipe holds
        let len = 5000 + t.hdr[11] as u32 / 2;
        let d = D::Data {
            scope: Scope::Global,
            vis: Vis::Default,
            w: true,
            s: false,
            align: None,
        };
        for op in [
            Op::Declare {
                name: "bulky".into(),
                d,
                style: 0,
                api: 0,
            },
            Op::Define {
                name: "bulky".into(),
                body: Body::Blob {
                    len,
                    seed: 7,
                    cstr: false,
                },
                syms: vec![],
                api: 0,
            },
        ] {
            g.model.apply(&op);
            g.case.ops.push(op);
        }
    }
    g
}
pub fn c06_show(t: &Tape) -> String {
    format!(
        "{:?}, format word {:#x}\n{}",
        sink_of(t),
        t.hdr[10],
        show_case(&c06_case(t).case)
    )
}
fn filler(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 1) as u8).collect()
}
pub fn c06(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    prepare();
    let g = c06_case(t);
    let a = build(&g.case)?;
    let sink = sink_of(t);
    // write() or write_as() in some format, supported or not
    let own = t.hdr[10] < 0x4000;
    let format = if own {
        a.target.binary_format
    } else {
        match t.hdr[10] >> 12 {
            4..=7 => ELF,
            8..=12 => MACHO,
            13 => BinaryFormat::Coff,
            14 => BinaryFormat::Wasm,
            _ => BinaryFormat::Unknown,
        }
    };
    let want = emit_as(&a, format);
    let write = |f: File| -> Result<Result<(), ArtifactError>, String> {
        guard(|| if own { a.write(f) } else { a.write_as(f, format) })
    };
    let mut mix = Mix::of(&t.hdr);
    let path = cx.tmp("out");
    let gone = Gone(path.clone());
    let refused = want.refused();
    // a refusal (error or panic) has to be the same one
    let same_refusal = |r: &Result<Result<(), ArtifactError>, String>| -> Result<(), String> {
        match (r, &want) {
            (Ok(Err(e)), Out::Err(w)) => {
                ensure!(
                    format!("{e:?}") == format!("{w:?}"),
                    "emission is refused with {w:?}, writing with {e:?}"
                )
            }
            (Err(_), Out::Panic(_)) => {}
            _ => return Err(format!("emission gives {}, writing {r:?}", want.key())),
        }
        Ok(())
    };
    let bytes = match &want {
        Out::Bytes(b) => b.clone(),
        _ => vec![],
    };
    let n = bytes.len() as u64;
    let io_err = |r: &Result<Result<(), ArtifactError>, String>, what: &str| -> Result<(), String> {
        ensure!(
            matches!(r, Ok(Err(ArtifactError::Io(_)))),
            "{what}: the outcome is {r:?}, not an I/O error"
        );
        Ok(())
    };
    match sink {
        Sink::New | Sink::Longer | Sink::Append | Sink::Gap | Sink::Limit => {
            let old = match sink {
                Sink::New => vec![],
                _ => filler(mix.below(3 * bytes.len() + 2000).min(FILE_LIMIT as usize / 2)),
            };
            std::fs::write(&path, &old).map_err(|e| format!("harness: {e}"))?;
            let mut pos = match sink {
                Sink::New => 0,
                Sink::Longer => mix.below(old.len() + 1) as u64,
                Sink::Gap => old.len() as u64 + mix.below(5000) as u64,
                Sink::Limit => FILE_LIMIT.saturating_sub(mix.below(bytes.len() + 40) as u64),
                _ => mix.below(old.len() + 1) as u64,
            };
            let mut o = OpenOptions::new();
            o.read(true).write(true);
            if sink == Sink::Append {
                o.append(true);
            }
            let mut f = o.open(&path).map_err(|e| format!("harness: {e}"))?;
            f.seek(SeekFrom::Start(pos)).map_err(|e| format!("harness: {e}"))?;
            let mut keep = f.try_clone().map_err(|e| format!("harness: {e}"))?;
            let r = write(f);
            let now = std::fs::read(&path).map_err(|e| format!("harness: {e}"))?;
            if refused {
                same_refusal(&r)?;
                ensure!(now == old, "the refused emission changed the file");
                let at = keep.stream_position().unwrap_or(u64::MAX);
                ensure!(
                    at == pos,
                    "the refused emission moved the file position from {pos} to {at}"
                );
            } else {
                if sink == Sink::Append {
                    pos = old.len() as u64;
                }
                let fits = pos + n <= FILE_LIMIT;
                if fits {
                    ensure!(matches!(r, Ok(Ok(()))), "writing {n} bytes at {pos}: {r:?}");
                    let mut want = old.clone();
                    want.resize(want.len().max((pos + n) as usize), 0);
                    want[pos as usize..(pos + n) as usize].copy_from_slice(&bytes);
                    ensure!(
                        now == want,
                        "writing {n} bytes at {pos} of a file of {} bytes: {} bytes afterwards, {}",
                        old.len(),
                        now.len(),
                        match now.iter().zip(&want).position(|x| x.0 != x.1) {
                            Some(i) => format!("first difference at {i}"),
                            None => "one is a prefix of the other".into(),
                        }
                    );
                } else {
                    io_err(&r, "a write across the file size limit")?;
                    let k = old.len().min(pos as usize);
                    ensure!(now[..k] == old[..k], "the failed write changed what lies before it");
                    cx.class("cut short by the file size limit");
                }
            }
        }
        Sink::Full => {
            let f = OpenOptions::new()
                .write(true)
                .open("/dev/full")
                .map_err(|e| format!("harness: {e}"))?;
            let r = write(f);
            if refused {
                same_refusal(&r)?
            } else {
                io_err(&r, "/dev/full")?
            }
        }
        Sink::ReadOnly => {
            let old = filler(100);
            std::fs::write(&path, &old).map_err(|e| format!("harness: {e}"))?;
            let r = write(File::open(&path).map_err(|e| format!("harness: {e}"))?);
            if refused {
                same_refusal(&r)?
            } else {
                io_err(&r, "a handle open for reading only")?
            }
            ensure!(
                std::fs::read(&path).ok() == Some(old),
                "the file changed through a read-only handle"
            );
        }
        Sink::ClosedPipe => {
            let (rd, wr) = pipe(0, 4096);
            drop(rd);
            let r = write(wr);
            if refused {
                same_refusal(&r)?
            } else {
                io_err(&r, "a pipe without readers")?
            }
        }
        Sink::NonBlockingPipe => {
            let (mut rd, wr) = pipe(O_NONBLOCK, 4096);
            let r = write(wr);
            let mut got = vec![];
            let _ = rd.read_to_end(&mut got);
            if refused {
                same_refusal(&r)?;
                ensure!(got.is_empty(), "the refused emission wrote {} bytes", got.len());
            } else {
                ensure!(n > 4096, "harness: the object is too small");
                io_err(&r, "a full pipe")?;
                ensure!(
                    bytes.starts_with(&got),
                    "what the pipe took is not the beginning of the object"
                );
            }
        }
        Sink::SlowPipe | Sink::SignalledPipe | Sink::SlowSocket => {
            let (rd, wr) = if sink == Sink::SlowSocket {
                let mut f = [0i32; 2];
                unsafe {
                    assert!(
                        socketpair(1, 1 | O_CLOEXEC, 0, f.as_mut_ptr()) == 0,
                        "harness: socketpair"
                    );
                    (File::from_raw_fd(f[0]), File::from_raw_fd(f[1]))
                }
            } else {
                pipe(0, 4096)
            };
            let me = unsafe { pthread_self() };
            let sig = sink == Sink::SignalledPipe;
            let step = 200 + mix.below(3000);
            let reader = std::thread::spawn(move || {
                let mut rd = rd;
                let mut got = vec![];
                let mut buf = vec![0u8; step];
                loop {
                    if sig {
                        // the writer, blocked on the full pipe, is interrupted
                        std::thread::sleep(std::time::Duration::from_micros(60));
                        unsafe { pthread_kill(me, SIGUSR1) };
                    }
                    match rd.read(&mut buf) {
                        Ok(0) | Err(_) => return got,
                        Ok(k) => got.extend_from_slice(&buf[..k]),
                    }
                }
            });
            let r = write(wr);
            let got = reader.join().map_err(|_| "harness: reader")?;
            if refused {
                same_refusal(&r)?;
                ensure!(got.is_empty(), "the refused emission wrote {} bytes", got.len());
            } else if let Ok(Ok(())) = r {
                ensure!(got == bytes, "success, but {} of {n} bytes arrived", got.len());
            } else {
                // interrupted is the only reason there is
                ensure!(sig, "a reader that takes everything: {r:?}");
                io_err(&r, "an interrupted write")?;
            }
        }
        Sink::Sealed => {
            let mut f = unsafe {
                let fd = memfd_create(c"v".as_ptr() as *const u8, 3);
                assert!(fd >= 0, "harness: memfd");
                File::from_raw_fd(fd)
            };
            let k = mix.below(2 * bytes.len() + 10).min(FILE_LIMIT as usize);
            f.write_all(&filler(k)).map_err(|e| format!("harness: {e}"))?;
            f.seek(SeekFrom::Start(0)).map_err(|e| format!("harness: {e}"))?;
            unsafe { fcntl(f.as_raw_fd(), F_ADD_SEALS, 4) }; // no growing
            let mut keep = f.try_clone().map_err(|e| format!("harness: {e}"))?;
            let r = write(f);
            let mut now = vec![];
            let _ = keep.seek(SeekFrom::Start(0));
            let _ = keep.read_to_end(&mut now);
            let mut want = filler(k);
            if refused {
                same_refusal(&r)?;
                ensure!(now == want, "the refused emission changed the file");
            } else if bytes.len() <= k {
                ensure!(matches!(r, Ok(Ok(()))), "writing {n} bytes into {k}: {r:?}");
                want[..bytes.len()].copy_from_slice(&bytes);
                ensure!(
                    now == want,
                    "writing {n} bytes over {k} changed more or less than those"
                );
            } else {
                io_err(&r, "a file that must not grow")?;
            }
        }
    }
    drop(gone);
    cx.class(&format!("{sink:?}"));
    cx.class(match &want {
        Out::Bytes(_) => "emission succeeds",
        Out::Err(ArtifactError::UndefinedSymbols(_)) => "refused: undefined symbols",
        Out::Err(_) => "refused: other",
        Out::Panic(_) => "refused by panic",
    });
    if sink != Sink::New || refused {
        cx.nontrivial(&(t.hdr[9], hash_of(&g.case)), || c06_show(t));
    }
    Ok(())
}
/// removes the file when the case ends, however it ends
struct Gone(std::path::PathBuf);
impl Drop for Gone {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
