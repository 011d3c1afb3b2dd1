//! Running the linker under test, contained: as an unprivileged user, in a scratch directory of
//! its own, with limits on time, memory and file size.
use std::fs;
use std::io::Read;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const NOBODY: u32 = 65534;

pub fn is_root() -> bool {
    unsafe { libc::geteuid() == 0 }
}

/// A directory that disappears with the value.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::temp_dir();
        for i in 0..1000 {
            let path = base.join(format!("dldcheck.{}.{}.{}", std::process::id(), tag, i));
            if fs::create_dir(&path).is_ok() {
                return Scratch { path };
            }
        }
        panic!("cannot create a scratch directory in {:?}", base);
    }
    /// A scratch directory that belongs to the unprivileged user.
    pub fn user(tag: &str) -> Scratch {
        let s = Scratch::new(tag);
        give(&s.path);
        s
    }
}

pub fn give(p: &Path) {
    if is_root() {
        let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.path);
    }
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub cpu: u64,
    pub mem: u64,
    pub fsize: Option<u64>,
    /// whether exceeding `fsize` is an error of the write or kills the process
    pub ignore_fsize: bool,
    /// seconds; if they pass, the run is repeated twice before it counts as a hang
    pub wall: u32,
    pub stdout_full: bool,
    pub umask: u32,
}

impl Default for Limits {
    fn default() -> Self {
        Limits { cpu: 10, mem: 2 << 30, fsize: None, ignore_fsize: false, wall: 30, stdout_full: false, umask: 0o022 }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn brief(&self) -> String {
        let mut s: String = self.stderr.chars().take(400).collect();
        if s.len() < self.stderr.len() {
            s.push('…');
        }
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {}: {}", c, s.trim()),
            (_, Some(g)) => format!("killed by signal {}: {}", g, s.trim()),
            _ => "?".into(),
        }
    }
}

/// Runs `exe` in `dir` as the unprivileged user. Ending by SIGALRM means that it hangs: the wall
/// clock ran out three times over.
pub fn run(exe: &Path, args: &[String], dir: &Path, lim: &Limits, env: &[(&str, &str)]) -> Outcome {
    let mut o = run_once(exe, args, dir, lim, env);
    for _ in 0..2 {
        if o.signal == Some(libc::SIGALRM) {
            o = run_once(exe, args, dir, lim, env);
        }
    }
    o
}

fn run_once(exe: &Path, args: &[String], dir: &Path, lim: &Limits, env: &[(&str, &str)]) -> Outcome {
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    if is_root() {
        c.uid(NOBODY).gid(NOBODY);
    }
    if lim.stdout_full {
        let f = fs::OpenOptions::new().write(true).open("/dev/full").unwrap_or_else(|e| crate::fatal(&format!("/dev/full: {}", e)));
        c.stdout(f);
    }
    let lim = lim.clone();
    unsafe {
        c.pre_exec(move || {
            let set = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            // a soft limit, so that an endless loop ends with SIGXCPU and nothing else does
            let l = libc::rlimit { rlim_cur: lim.cpu, rlim_max: lim.cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            set(libc::RLIMIT_AS, lim.mem);
            set(libc::RLIMIT_CORE, 0);
            set(libc::RLIMIT_FSIZE, lim.fsize.unwrap_or(1 << 30));
            if lim.ignore_fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            } else {
                libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
            }
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            libc::umask(lim.umask as libc::mode_t);
            libc::alarm(lim.wall);
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => crate::fatal(&format!("cannot run {:?}: {}", exe, e)),
    };
    // both pipes are drained; output beyond 1 MB is dropped
    let mut so = child.stdout.take();
    let mut se = child.stderr.take().unwrap();
    let (stdout, stderr) = read2(so.as_mut(), &mut se);
    let st = child.wait().unwrap_or_else(|e| crate::fatal(&format!("wait: {}", e)));
    if st.signal() == Some(libc::SIGKILL) && !env.iter().any(|e| *e == ("FAULT_MODE", "kill")) {
        crate::fatal(&format!("{:?} was killed from outside", exe));
    }
    Outcome { code: st.code(), signal: st.signal(), stdout, stderr: String::from_utf8_lossy(&stderr).into_owned() }
}

fn read2(mut a: Option<&mut std::process::ChildStdout>, b: &mut std::process::ChildStderr) -> (Vec<u8>, Vec<u8>) {
    use std::os::fd::AsRawFd;
    let mut out = [vec![], vec![]];
    let mut fds = [
        libc::pollfd { fd: a.as_ref().map_or(-1, |a| a.as_raw_fd()), events: libc::POLLIN, revents: 0 },
        libc::pollfd { fd: b.as_raw_fd(), events: libc::POLLIN, revents: 0 },
    ];
    let mut buf = [0u8; 8192];
    while fds.iter().any(|f| f.fd >= 0) {
        if unsafe { libc::poll(fds.as_mut_ptr(), 2, -1) } < 0 {
            continue;
        }
        for i in 0..2 {
            if fds[i].fd >= 0 && fds[i].revents != 0 {
                let n = if i == 0 { a.as_mut().unwrap().read(&mut buf) } else { b.read(&mut buf) };
                match n {
                    Ok(0) => fds[i].fd = -1,
                    Ok(n) => {
                        if out[i].len() < 1 << 20 {
                            out[i].extend(&buf[..n])
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => fds[i].fd = -1,
                }
            }
        }
    }
    let [a, b] = out;
    (a, b)
}

pub fn clean(dir: &Path) {
    if let Ok(d) = fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            if fs::remove_file(&p).is_err() {
                let _ = fs::remove_dir_all(&p);
            }
        }
    }
}

pub fn put(p: &Path, b: &[u8]) {
    fs::write(p, b).unwrap_or_else(|e| crate::fatal(&format!("cannot write {:?}: {}", p, e)));
}

pub fn mode(p: &Path) -> Option<u32> {
    fs::symlink_metadata(p).ok().map(|m| m.permissions().mode() & 0o7777)
}

/// Builds the linker from /repo's working tree and returns a private copy of the binary.
pub fn build_dld(into: &Path) -> PathBuf {
    let repo = PathBuf::from(std::env::var("DLD_REPO").unwrap_or_else(|_| "/repo".into()));
    let verif = verif_dir();
    let target = verif.join("build/dld");
    fs::create_dir_all(&target).ok();
    let lock = fs::File::create(verif.join("build/lock")).unwrap_or_else(|e| crate::fatal(&format!("lock: {}", e)));
    unsafe { libc::flock(std::os::fd::AsRawFd::as_raw_fd(&lock), libc::LOCK_EX) };
    // Cargo judges freshness by time stamps; a source tree restored with old time stamps must
    // not be taken for the one built last, so the stamp here is the contents.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut add = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    };
    let mut files = vec![];
    walk(&repo.join("src"), &mut files);
    for n in ["Cargo.toml", "Cargo.lock", "build.rs", ".cargo/config.toml"] {
        files.push(repo.join(n));
    }
    files.sort();
    for f in &files {
        add(f.to_string_lossy().as_bytes());
        add(&fs::read(f).unwrap_or_default());
    }
    let stamp = format!("{:016x}", h);
    let stamp_file = target.join("stamp");
    let cargo = || {
        let mut c = Command::new("cargo");
        c.current_dir(&repo)
            .env("CARGO_TARGET_DIR", &target)
            .env("CARGO_PROFILE_DEV_OPT_LEVEL", "1")
            .env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null());
        c
    };
    if fs::read_to_string(&stamp_file).ok().as_deref() != Some(&stamp) {
        fs::remove_file(&stamp_file).ok();
        let _ = cargo().args(["clean", "--offline", "-p", "dld"]).output();
    }
    let o = cargo().args(["build", "--offline", "--bin", "dld"]).output();
    match o {
        Ok(o) if o.status.success() => {}
        Ok(o) => crate::fatal(&format!("cannot build /repo: {}", String::from_utf8_lossy(&o.stderr))),
        Err(e) => crate::fatal(&format!("cannot run cargo: {}", e)),
    }
    fs::write(&stamp_file, &stamp).ok();
    let exe = into.join("dld");
    fs::copy(target.join("debug/dld"), &exe).unwrap_or_else(|e| crate::fatal(&format!("copy: {}", e)));
    fs::set_permissions(&exe, fs::Permissions::from_mode(0o755)).ok();
    let shim = into.join("fault.so");
    let o = Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&shim).arg(verif.join("harness/shim/fault.c")).arg("-ldl").output();
    match o {
        Ok(o) if o.status.success() => {}
        x => crate::fatal(&format!("cannot build the fault injector: {:?}", x)),
    }
    exe
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(r) = fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else {
                out.push(p);
            }
        }
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
