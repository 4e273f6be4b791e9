//! The real processes under observation.
use crate::resp::*;
use crate::util::*;
use std::fs::File;
use std::net::{SocketAddr, TcpListener};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

pub const SIGINT: i32 = 2;
pub const SIGKILL: i32 = 9;
pub const SIGSTOP: i32 = 19;
pub const SIGCONT: i32 = 18;

pub fn send_signal(pid: u32, sig: i32) {
    unsafe {
        kill(pid as i32, sig);
    }
}

static PORT: AtomicU64 = AtomicU64::new(0);

/// a free TCP port outside the ephemeral range
pub fn free_port() -> u16 {
    loop {
        let n = PORT.fetch_add(1, Ordering::Relaxed);
        let base = u64::from(std::process::id()) * 131 + n * 7;
        let p = 10000 + (base % 20000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

pub fn local(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}

#[derive(Clone)]
pub struct Bins {
    pub server: PathBuf,
    pub pd: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
}

/// handle on the clock file of a process
pub struct Clock(File);

impl Clock {
    pub fn create(path: &Path) -> Clock {
        let f = File::options().create(true).read(true).write(true).truncate(true).open(path).expect("clock file");
        f.write_all_at(&[0; 16], 0).expect("clock file");
        Clock(f)
    }
    fn put(&self, mode: i64, ns: i64) {
        self.0.write_all_at(&ns.to_ne_bytes(), 8).expect("clock");
        self.0.write_all_at(&mode.to_ne_bytes(), 0).expect("clock");
    }
    pub fn freeze(&self, ms: u64) {
        // half a millisecond in: rounding mistakes show up
        self.put(1, ms as i64 * 1_000_000 + 500_000);
    }
    pub fn offset(&self, ms: i64) {
        self.put(2, ms * 1_000_000);
    }
    pub fn real(&self) {
        self.put(0, 0);
    }
}

#[derive(Default, Clone)]
pub struct Opts {
    pub max_connections: Option<usize>,
    /// addr and group
    pub pd: Option<(SocketAddr, usize)>,
    pub clock: bool,
    pub addr: Option<SocketAddr>,
    pub fwd: Option<SocketAddr>,
    pub envs: Vec<(String, String)>,
    /// sanitizer builds take longer to start
    pub slow: bool,
    pub bin: Option<PathBuf>,
    /// injected delays: per mille, microseconds
    pub delay: Option<(u32, u32)>,
    /// run on these cores
    pub cores: Option<String>,
}

pub struct Server {
    pub child: Child,
    pub addr: SocketAddr,
    pub fwd: SocketAddr,
    pub dir: PathBuf,
    pub log: PathBuf,
    pub clock: Option<Clock>,
    reaped: bool,
}

fn spawn(cmd: &mut Command, log: &Path) -> std::io::Result<Child> {
    let f = File::create(log)?;
    cmd.stdin(Stdio::null()).stdout(f.try_clone()?).stderr(f);
    unsafe {
        cmd.pre_exec(|| {
            prctl(1, SIGKILL as u64, 0, 0, 0);
            Ok(())
        });
    }
    cmd.spawn()
}

impl Server {
    pub fn start(bins: &Bins, opts: &Opts) -> Result<Server, String> {
        let mut last = String::new();
        for _ in 0..5 {
            match Self::try_start(bins, opts) {
                Ok(s) => return Ok(s),
                Err(e) => last = e,
            }
        }
        Err(format!("server does not start: {}", last))
    }

    fn try_start(bins: &Bins, opts: &Opts) -> Result<Server, String> {
        let dir = scratch(&bins.scratch, "srv");
        let addr = opts.addr.unwrap_or_else(|| local(free_port()));
        let fwd = opts.fwd.unwrap_or_else(|| local(free_port()));
        let log = dir.join("log");
        let bin = opts.bin.as_ref().unwrap_or(&bins.server);
        let mut cmd = match &opts.cores {
            Some(c) => {
                let mut cmd = Command::new("taskset");
                cmd.arg("-c").arg(c).arg(bin);
                cmd
            }
            None => Command::new(bin),
        };
        if let Some((p, us)) = opts.delay {
            cmd.env("LD_PRELOAD", &bins.shim).env("VH_DELAY", format!("{} {}", p, us));
        }
        cmd.current_dir(&dir)
            .env("RUDIS_server_addr", addr.to_string())
            .env("RUDIS_forward_addr", fwd.to_string())
            .env("RUST_BACKTRACE", "0");
        if let Some(n) = opts.max_connections {
            cmd.env("RUDIS_max_connections", n.to_string());
        }
        if let Some((pd, group)) = opts.pd {
            std::fs::write(
                dir.join("config.toml"),
                format!("[from_pd]\naddr = \"{}\"\ngroup_id = {}\n", pd, group),
            )
            .map_err(|e| e.to_string())?;
        }
        let clock = if opts.clock {
            let p = dir.join("clock");
            let c = Clock::create(&p);
            cmd.env("LD_PRELOAD", &bins.shim).env("VH_CLOCK", &p);
            Some(c)
        } else {
            None
        };
        for (k, v) in &opts.envs {
            cmd.env(k, v);
        }
        let child = spawn(&mut cmd, &log).map_err(|e| e.to_string())?;
        let mut s = Server { child, addr, fwd, dir, log, clock, reaped: false };
        let end = Instant::now() + Duration::from_secs(if opts.slow { 60 } else { 20 });
        loop {
            if let Ok(Some(st)) = s.child.try_wait() {
                s.reaped = true;
                return Err(format!("exited at start ({}): {}", st, s.log_tail()));
            }
            if let Ok(mut c) = Client::connect(addr) {
                c.timeout = Duration::from_secs(10);
                // the listener accepts before the server runs
                if c.c("PING") == Out::Reply(Reply::Simple(b("PONG"))) && std::net::TcpStream::connect(fwd).is_ok() {
                    return Ok(s);
                }
            }
            if Instant::now() > end {
                return Err(format!("no PONG: {}", s.log_tail()));
            }
            std::thread::sleep(Duration::from_millis(15));
        }
    }

    /// has the process ended (also as a zombie)?
    pub fn dead(&self) -> bool {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        s.rfind(')').map_or(true, |i| matches!(s[i + 1..].trim_start().chars().next(), Some('Z' | 'X') | None))
    }
    pub fn client(&self) -> Client {
        for _ in 0..50 {
            if let Ok(c) = Client::connect(self.addr) {
                return c;
            }
            if self.dead() {
                panic!("SERVER DIED: {}", self.log_tail());
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        panic!("{}", crate::ctx::Inconclusive(format!("cannot connect to the server: {}", self.log_tail())));
    }
    pub fn try_client(&self) -> Option<Client> {
        Client::connect(self.addr).ok()
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn alive(&mut self) -> bool {
        if self.reaped {
            return false;
        }
        match self.child.try_wait() {
            Ok(None) => true,
            _ => {
                self.reaped = true;
                false
            }
        }
    }
    pub fn signal(&self, sig: i32) {
        if !self.reaped {
            send_signal(self.child.id(), sig);
        }
    }
    /// exit within the time
    pub fn wait_exit(&mut self, t: Duration) -> Option<std::process::ExitStatus> {
        let end = Instant::now() + t;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                self.reaped = true;
                return Some(s);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    pub fn log_text(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).into_owned()
    }
    pub fn log_tail(&self) -> String {
        let t = self.log_text();
        let n = t.len().saturating_sub(600);
        let mut n = n;
        while !t.is_char_boundary(n) {
            n += 1;
        }
        t[n..].replace('\n', " | ")
    }
    /// panic messages in the log
    pub fn panics(&self) -> Vec<String> {
        let t = self.log_text();
        let mut v = Vec::new();
        let mut it = t.lines().peekable();
        while let Some(l) = it.next() {
            if l.contains("panicked at") {
                v.push(format!("{} {}", l.trim(), it.peek().unwrap_or(&"")));
            }
        }
        v
    }
    pub fn fd_count(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    pub fn rss_kb(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        s.lines()
            .find(|l| l.starts_with("VmRSS:"))
            .and_then(|l| l.split_whitespace().nth(1))
            .and_then(|v| v.parse().ok())
            .unwrap_or(0)
    }
    pub fn stop(&mut self) {
        if !self.reaped {
            let _ = self.child.kill();
            let _ = self.child.wait();
            self.reaped = true;
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop();
    }
}

pub struct Pd {
    pub child: Child,
    pub addr: SocketAddr,
    pub log: PathBuf,
    pub clock: Option<Clock>,
}

impl Pd {
    pub fn start(bins: &Bins, clock: bool) -> Result<Pd, String> {
        Self::start_with(bins, clock, None)
    }
    pub fn start_with(bins: &Bins, clock: bool, delay: Option<(u32, u32)>) -> Result<Pd, String> {
        for _ in 0..5 {
            let port = free_port();
            let dir = scratch(&bins.scratch, "pd");
            let log = dir.join("log");
            let mut cmd = Command::new(&bins.pd);
            cmd.current_dir(&dir).arg("--port").arg(port.to_string()).env("RUST_BACKTRACE", "0");
            if let Some((p, us)) = delay {
                cmd.env("LD_PRELOAD", &bins.shim).env("VH_DELAY", format!("{} {}", p, us));
            }
            let c = if clock {
                let p = dir.join("clock");
                let c = Clock::create(&p);
                cmd.env("LD_PRELOAD", &bins.shim).env("VH_CLOCK", &p);
                Some(c)
            } else {
                None
            };
            let child = spawn(&mut cmd, &log).map_err(|e| e.to_string())?;
            let mut pd = Pd { child, addr: local(port), log, clock: c };
            if wait_until(Duration::from_secs(15), || {
                !matches!(pd.child.try_wait(), Ok(None)) || std::net::TcpStream::connect(pd.addr).is_ok()
            }) && matches!(pd.child.try_wait(), Ok(None))
            {
                return Ok(pd);
            }
        }
        Err("pd does not start".into())
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn log_tail(&self) -> String {
        let t = String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).into_owned();
        t.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>().replace('\n', " | ")
    }
}

impl Drop for Pd {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
