//! C18 (directory trees) and C19 (files which change while they are being archived).
use super::archive::{Conv, convert, gen_conv, gen_secs, scratch, set_conv, words};
use crate::parse::{self, Parsed};
use crate::report::{Ctx, Fail, R, Runner};
use crate::rng::{Rng, mix};
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr, OsString};
use std::future::Future;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncSeekExt};
use zippity::{AddDirectoryRecursiveError, Builder, FilesystemEntry, Reader};

fn hio<T>(r: std::io::Result<T>, what: &str) -> R<T> {
    r.map_err(|e| Fail(format!("HARNESS {what}: {e}")))
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(4)
        .build()
        .expect("runtime");
}

/// Runs a future on this thread's runtime. Standing still for minutes is reported.
fn run<T>(f: impl Future<Output = R<T>>) -> R<T> {
    RT.with(|rt| {
        rt.block_on(async {
            match tokio::time::timeout(Duration::from_secs(120), f).await {
                Ok(r) => r,
                Err(_) => fail!("no progress in 120 s (lost wake-up or endless loop)"),
            }
        })
    })
}

pub fn c18(run: &mut Runner) {
    run.rule = "A case is a generated tree in a scratch directory (files, directories, symlinks to anything or nothing including cycles and outside, hard links, FIFOs, sockets, odd and non-UTF-8 names, all permission bits, times over the whole range, deep and wide trees) added by the real code under several spellings of the path and root names, compared with an independent lstat walk: number, names, contents, types, permissions and times (stage tree); stage single adds objects under explicit names; stage denied walks and reads as an unprivileged user, stage deep goes up to and beyond the longest path, stage busy adds and removes other objects meanwhile: what can't be added must be an error, never left out. Non-trivial: distinct trees with at least two objects.".into();
    run.stage("tree", run.n(2500, 40_000), tree);
    run.stage("single", run.n(1000, 15_000), single);
    run.stage("wide", run.nf(6, 60), wide);
    run.stage("denied", run.n(800, 12_000), denied);
    run.stage("deep", run.nf(12, 120), too_deep);
    run.stage("busy", run.n(150, 4000), busy);
}

thread_local! {
    /// All work with files is done as an unprivileged user.
    static NOBODY: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(2)
        .on_thread_start(|| unsafe {
            libc::syscall(libc::SYS_setgroups, 0, std::ptr::null::<libc::gid_t>());
            libc::setfsgid(65534);
            libc::setfsuid(65534);
        })
        .build()
        .expect("runtime");
}

fn as_nobody<T>(f: impl Future<Output = R<T>>) -> R<T> {
    NOBODY.with(|rt| {
        rt.block_on(async {
            match tokio::time::timeout(Duration::from_secs(120), f).await {
                Ok(r) => r,
                Err(_) => fail!("no progress in 120 s (lost wake-up or endless loop)"),
            }
        })
    })
}

/// Names below a directory as far as the calling thread may see them.
fn visible(dir: &Path, rel: &str, out: &mut Vec<(String, PathBuf, bool)>) -> std::io::Result<()> {
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        let d = e.path().symlink_metadata()?.is_dir();
        if e.path().symlink_metadata()?.is_symlink() {
            std::fs::read_link(e.path())?;
        }
        let n = format!("{rel}{}{}", e.file_name().to_string_lossy(), if d { "/" } else { "" });
        out.push((n.clone(), e.path(), d));
        if d {
            visible(&e.path(), &n, out)?;
        }
    }
    Ok(())
}

/// Objects that may not be seen or read.
fn denied(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    hio(std::fs::set_permissions(tmp.path(), std::fs::Permissions::from_mode(0o755)), "chmod")?;
    let root = tmp.path().join("r");
    hio(std::fs::create_dir(&root), "mkdir")?;
    let mut dirs = vec![root.clone()];
    let mut modes = Vec::new();
    let n = r.below(12);
    let strict = r.p(150);
    for i in 0..n {
        let p = r.pick(&dirs).join(format!("{}{i}", r.pick(&["", ".", "x "])));
        let (mode, dir): (u32, bool) = match r.below(4) {
            0 => {
                hio(std::fs::create_dir(&p), "mkdir")?;
                dirs.push(p.clone());
                (if strict && r.p(80) { *r.pick(&[0o700, 0o711, 0o744, 0, 0o733, 0o705]) } else { 0o755 }, true)
            }
            1 => {
                hio(std::os::unix::fs::symlink("target", &p), "symlink")?;
                continue;
            }
            _ => {
                hio(std::fs::write(&p, content(&mut r)), "write")?;
                (if r.p(60) { *r.pick(&[0o600, 0, 0o640, 0o200]) } else { 0o644 }, false)
            }
        };
        modes.push((p, mode, dir));
    }
    for (p, mode, _) in modes.iter().rev() {
        hio(std::fs::set_permissions(p, std::fs::Permissions::from_mode(*mode)), "chmod")?;
    }
    let given = if r.p(80) { Some("in") } else { None };
    let probe_root = root.clone();
    let (seen, readable) = as_nobody(async move {
        let j = tokio::task::spawn_blocking(move || {
            let mut out = Vec::new();
            let res = visible(&probe_root, "", &mut out);
            let readable: Vec<bool> = out.iter().map(|(_, p, _)| std::fs::File::open(p).is_ok()).collect();
            (res.map(|()| out), readable)
        });
        j.await.map_err(|e| Fail(format!("HARNESS probe: {e}")))
    })?;
    let mut b = Builder::<FilesystemEntry>::new();
    let res = as_nobody(async { Ok(b.add_directory_recursive(root.clone(), given).await) })?;
    ctx.tr(|| format!("{modes:?}: seen {seen:?}, result {res:?}"));
    let seen = match (seen, res) {
        (Err(e), Err(AddDirectoryRecursiveError::IOError(f))) => {
            ensure!(e.kind() == f.kind(), "the tree can't be walked ({e}), the error is {f}");
            ctx.count("trees_denied", 1);
            let s = b.size();
            ensure!(b.build().size() == s, "size after a failure");
            ctx.nontrivial(ctx.idx);
            return Ok(());
        }
        (Err(e), Err(f)) => fail!("the tree can't be walked ({e}), the error is {f}"),
        (Err(e), Ok(())) => fail!("a tree which can't be walked ({e}) was added without an error, {} entries", b.get_entries().len()),
        (Ok(_), Err(e)) => fail!("a tree which can be walked was refused: {e}"),
        (Ok(s), Ok(())) => s,
    };
    let prefix = if given.is_some() { "in/" } else { "" };
    ensure!(
        b.get_entries().len() == seen.len() + usize::from(given.is_some()),
        "{} entries for {} objects",
        b.get_entries().len(),
        seen.len()
    );
    // The same archive from memory, for the places of the data
    let by_name: BTreeMap<String, usize> = seen.iter().enumerate().map(|(i, o)| (format!("{prefix}{}", o.0), i)).collect();
    let mut mem = Builder::<Vec<u8>>::new();
    let mut objs = Vec::new();
    for name in b.get_entries().keys() {
        let i = by_name.get(name).copied();
        ensure!(i.is_some() || name == prefix, "entry {name:?} without an object");
        let data = match i {
            Some(i) => look(&seen[i].1, OsStr::new(""))?.data,
            None => Vec::new(),
        };
        objs.push((i, data.clone()));
        if mem.add_entry(name.clone(), data).is_err() {
            fail!("HARNESS reference entry refused");
        }
    }
    let truth = crate::arch::read_sync(std::pin::pin!(mem.build()), 100_000, u64::MAX)?;
    let parsed = parse::parse_all(&truth)?;
    let mut rd = Box::pin(b.build());
    ensure!(rd.size() == truth.len() as u64, "{} B announced, expected {}", rd.size(), truth.len());
    for (k, e) in parsed.entries.iter().enumerate() {
        let (i, data) = &objs[k];
        if data.is_empty() || r.p(60) {
            continue;
        }
        let link = i.is_some_and(|i| seen[i].1.is_symlink());
        let may = link || i.is_none_or(|i| readable[i]);
        let at = e.data_off + if r.p(100) { r.below(data.len() as u64) } else { 0 };
        let res = as_nobody(async {
            rd.seek(std::io::SeekFrom::Start(at)).await.map_err(|e| Fail(format!("seek: {e}")))?;
            let mut buf = vec![0; (e.desc_off - at) as usize];
            Ok(rd.read_exact(&mut buf).await.map(|_| buf))
        })?;
        match res {
            Ok(buf) => {
                ensure!(may, "{} B of a file that can't be opened", buf.len());
                ensure!(buf == data[(at - e.data_off) as usize..], "wrong data");
                ctx.count("objects", 1);
            }
            Err(e) => {
                ensure!(!may, "reading a file that can be opened failed: {e}");
                ensure!(e.kind() == std::io::ErrorKind::PermissionDenied, "a file that may not be opened: {e:?}");
                ensure!(rd.tell() == at, "position {} after a failed read at {at}", rd.tell());
                ctx.count("files_denied", 1);
            }
        }
    }
    if seen.len() > 1 {
        ctx.nontrivial(ctx.idx);
    }
    Ok(())
}

/// Trees with paths around the longest that the system accepts.
fn too_deep(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let root = tmp.path().join("r");
    hio(std::fs::create_dir(&root), "mkdir")?;
    // Made step by step, relative to the directory above
    let mut fd = {
        let c = CString::new(root.as_os_str().as_bytes()).map_err(|_| Fail("HARNESS path".into()))?;
        unsafe { libc::open(c.as_ptr(), libc::O_DIRECTORY | libc::O_CLOEXEC) }
    };
    let mut len = root.as_os_str().len() as i64;
    let last = 4095 + *r.pick(&[-300i64, -2, -1, 0, 1, 2, 100, 400]);
    let mut ok = fd >= 0;
    let mut n = 0;
    while ok && len < last {
        let k = (last - len - 1).clamp(1, 250);
        let name = CString::new(vec![b'a' + (n % 26) as u8; k as usize]).map_err(|_| Fail("HARNESS name".into()))?;
        unsafe {
            ok &= libc::mkdirat(fd, name.as_ptr(), 0o755) == 0;
            let next = libc::openat(fd, name.as_ptr(), libc::O_DIRECTORY | libc::O_CLOEXEC);
            libc::close(fd);
            fd = next;
        }
        ok &= fd >= 0;
        len += k + 1;
        n += 1;
    }
    // Something in the last one
    let file = r.p(128);
    if ok && file {
        unsafe {
            let f = libc::openat(fd, c"f".as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_CLOEXEC, 0o644);
            ok &= f >= 0;
            libc::close(f);
        }
    }
    unsafe { libc::close(fd) };
    ensure!(ok, "HARNESS the deep tree could not be made");
    let mut out = Vec::new();
    let seen = visible(&root, "", &mut out);
    let mut b = Builder::<FilesystemEntry>::new();
    let res = run(async { Ok(b.add_directory_recursive(root.clone(), None).await) })?;
    let total = n + u64::from(file);
    match (&seen, &res) {
        // The probe uses whole paths, which gives up a bit earlier
        (_, Ok(())) => {
            ensure!(b.get_entries().len() as u64 == total, "{} entries for {total} objects", b.get_entries().len());
            ctx.count("deep_trees_added", 1);
        }
        (Err(_), Err(AddDirectoryRecursiveError::IOError(_))) => ctx.count("trees_too_deep", 1),
        _ => fail!("a tree with {len} B of path: walking it {seen:?}, adding it {res:?} ({} of {total} entries)", b.get_entries().len()),
    }
    ctx.nontrivial(mix(len as u64, u64::from(file)));
    Ok(())
}

/// Objects come and go while the tree is walked; those that stay must all be there.
fn busy(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let root = tmp.path().join("r");
    hio(std::fs::create_dir(&root), "mkdir")?;
    let mut stable: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut dirs = vec![(root.clone(), String::new())];
    for i in 0..r.range(1, 150) {
        let (d, rel) = r.pick(&dirs).clone();
        if r.p(60) {
            let p = d.join(format!("d{i}"));
            hio(std::fs::create_dir(&p), "mkdir")?;
            let n = format!("{rel}d{i}/");
            stable.insert(n.clone(), Vec::new());
            dirs.push((p, n));
        } else {
            let data = format!("{i}").into_bytes();
            hio(std::fs::write(d.join(format!("f{i}")), &data), "write")?;
            stable.insert(format!("{rel}f{i}"), data);
        }
    }
    let stop = Arc::new(AtomicBool::new(false));
    let churn = {
        let (stop, dirs, mut r) = (stop.clone(), dirs.clone(), Rng::new(r.next()));
        let pause = r.below(400);
        std::thread::spawn(move || {
            let mut n = 0u64;
            while !stop.load(Ordering::Relaxed) && n < 3000 {
                let d = &r.pick(&dirs).0;
                let p = d.join(format!("v{}", n % 7));
                let q = d.join(format!("w{}", n % 5));
                let _ = match r.below(6) {
                    0 => std::fs::write(&p, vec![7; r.usize(3000)]),
                    1 => std::fs::remove_file(&p),
                    2 => std::fs::rename(&p, &q),
                    3 => std::fs::create_dir(&q),
                    4 => std::fs::remove_dir(&q),
                    _ => std::fs::write(q.join("x"), b"x").and_then(|()| std::fs::remove_file(q.join("x"))),
                };
                n += 1;
                std::thread::sleep(Duration::from_micros(pause));
            }
            n
        })
    };
    let mut adds = 0;
    let body = (|| -> R {
        for _ in 0..4 {
            let mut b = Builder::<FilesystemEntry>::new();
            let res = run(async { Ok(b.add_directory_recursive(root.clone(), None).await) })?;
            adds += 1;
            let size = b.size();
            ensure!(b.clone().build().size() == size, "size of the builder after {res:?}");
            match res {
                Ok(()) => {
                    ctx.count("busy_trees_added", 1);
                    for n in stable.keys() {
                        ensure!(b.get_entries().contains_key(n), "{n:?}, which was there all the time, is missing");
                    }
                    for n in b.get_entries().keys() {
                        let last = n.trim_end_matches('/').rsplit('/').next().unwrap_or("");
                        ensure!(
                            stable.contains_key(n) || last.starts_with(['v', 'w', 'x']),
                            "entry {n:?} without an object"
                        );
                    }
                }
                Err(AddDirectoryRecursiveError::IOError(e)) => {
                    ensure!(e.kind() == std::io::ErrorKind::NotFound || e.kind() == std::io::ErrorKind::NotADirectory, "a busy tree: {e:?}");
                    ctx.count("busy_trees_refused", 1);
                }
                // The same name may be seen twice if it was removed and made again
                Err(AddDirectoryRecursiveError::AddEntryError(zippity::AddEntryError::DuplicateEntryName { entry_name })) => {
                    ensure!(!stable.contains_key(&entry_name), "{entry_name:?} twice");
                    ctx.count("busy_trees_refused", 1);
                }
                Err(e) => fail!("a busy tree: {e}"),
            }
        }
        Ok(())
    })();
    stop.store(true, Ordering::Relaxed);
    let n = churn.join().map_err(|_| Fail("HARNESS churn thread".into()))?;
    ctx.count("changes_meanwhile", n);
    body?;
    if n > 0 && adds > 0 {
        ctx.nontrivial(mix(ctx.idx, stable.len() as u64));
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Obj {
    rel: OsString,
    mode: u32,
    mtime: (i64, i64),
    /// Data expected in the archive
    data: Vec<u8>,
    dir: bool,
    link: bool,
}

fn odd_name(r: &mut Rng, i: u64) -> OsString {
    // Names that something on the way could take for special
    const SPECIAL: &[&str] = &[
        ".~lock", "~", "x~", "#x#", ".#x", "x.tmp", "x.swp", "x.bak", "lost+found", "Thumbs.db", "__MACOSX", ".git", ".gitignore",
        ".DS_Store", "._x", "CON", "nul", "a:b", "C:", "*", "?", "[a]", "{a,b}", "$HOME", "%2e%2e", "..a", "a..", "....", "a ", "a.", " a",
        "\r", "\t", "\u{1}", "\u{7f}", "\u{85}", "\u{feff}", "\u{202e}", "\u{2044}", "\u{fffd}", "e\u{301}", "\u{1e9b}\u{323}", "N", "I",
        "\u{131}", "ZIP.zip", "x.gz", "node_modules", "target", "desktop.ini", "\\", "\\..", "a\\b", "\\\\x", "\"", "'", "`x`", "|", "-", "--", ";",
    ];
    if r.p(70) {
        let mut b = r.pick(SPECIAL).as_bytes().to_vec();
        if r.p(60) {
            b.extend_from_slice(format!("{i}").as_bytes());
        }
        return OsString::from_vec(b);
    }
    let b: Vec<u8> = match r.below(12) {
        0 => b"\xff\xfe".to_vec(),
        1 => b"bad\xc3".to_vec(),
        2 => "\u{e9}t\u{e9}".as_bytes().to_vec(),
        3 => b" ".to_vec(),
        4 => b"a\nb".to_vec(),
        5 => b"back\\slash".to_vec(),
        6 => b"-rf".to_vec(),
        7 => b"...".to_vec(),
        8 => b".hidden".to_vec(),
        9 => vec![b'x'; 240],
        10 => "\u{1F600}".as_bytes().to_vec(),
        _ => b"n".to_vec(),
    };
    let mut b = b;
    if r.p(200) {
        b.extend_from_slice(format!("{i}").as_bytes());
    }
    OsString::from_vec(b)
}

fn mkfifo(p: &Path) -> bool {
    let Ok(c) = CString::new(p.as_os_str().as_bytes()) else { return false };
    (unsafe { libc::mkfifo(c.as_ptr(), 0o644) }) == 0
}

/// Times of the object itself, symlinks included.
fn set_time(p: &Path, secs: i64, nanos: i64) {
    let Ok(c) = CString::new(p.as_os_str().as_bytes()) else { return };
    let t = libc::timespec { tv_sec: secs, tv_nsec: nanos };
    let ts = [t, t];
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
}

fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 | 1 => 0,
        2 => 1,
        3 => *r.pick(&[4095, 4096, 8191, 8192, 8193, 65536]),
        4 if r.below(100) == 0 => r.usize(6_000_000),
        4 => r.usize(200_000),
        _ => r.usize(3000),
    };
    let mut v = vec![0; n];
    if r.p(200) {
        r.fill(&mut v);
    }
    v
}

/// Creates a tree below `root`.
fn make_tree(root: &Path, outside: &Path, r: &mut Rng, max: u64) -> R {
    let mut dirs = vec![root.to_path_buf()];
    let mut files: Vec<PathBuf> = Vec::new();
    let mut all: Vec<PathBuf> = Vec::new();
    let n = r.below(max + 1);
    let kinds = if r.p(60) { 4 } else { 11 };
    for i in 0..n {
        let d = if r.p(90) { dirs[dirs.len() - 1].clone() } else { r.pick(&dirs).clone() };
        let p = d.join(odd_name(r, i));
        if p.as_os_str().len() > 3500 || p.symlink_metadata().is_ok() {
            continue;
        }
        match r.below(kinds) {
            0 | 1 => {
                hio(std::fs::create_dir(&p), "mkdir")?;
                dirs.push(p.clone());
            }
            2 | 3 => {
                hio(std::fs::write(&p, content(r)), "write")?;
                files.push(p.clone());
            }
            4..=6 => {
                let t: PathBuf = match r.below(9) {
                    0 => "nowhere".into(),
                    1 => "..".into(),
                    2 => ".".into(),
                    3 => "/".into(),
                    4 => outside.to_path_buf(),
                    5 => root.to_path_buf(),
                    6 => p.clone(),
                    7 => OsString::from_vec(vec![b'z'; 1 + r.usize(4000)]).into(),
                    _ => {
                        if all.is_empty() || r.p(40) {
                            OsString::from_vec(b"\xff\xfe bytes".to_vec()).into()
                        } else {
                            r.pick(&all).clone()
                        }
                    }
                };
                hio(std::os::unix::fs::symlink(&t, &p), "symlink")?;
            }
            7 => {
                if !mkfifo(&p) {
                    continue;
                }
            }
            8 => {
                // The path of a socket has to be short
                if std::os::unix::net::UnixListener::bind(&p).is_err() {
                    continue;
                }
            }
            9 if !files.is_empty() => {
                let f = r.pick(&files).clone();
                hio(std::fs::hard_link(f, &p), "link")?;
            }
            _ => {
                let f = hio(std::fs::File::create(&p), "create")?;
                // Sparse
                hio(f.set_len(r.below(300_000)), "set_len")?;
                files.push(p.clone());
            }
        }
        all.push(p);
    }
    // Permissions and times last, from the bottom up
    for p in all.iter().rev() {
        let md = hio(p.symlink_metadata(), "lstat")?;
        if !md.is_symlink() && r.p(180) {
            let mode = if r.p(60) { r.below(0o10000) as u32 } else { *r.pick(&[0o644, 0o600, 0o755, 0o444, 0o400, 0o000, 0o777, 0o4755, 0o1777, 0o2755, 0o222]) };
            hio(std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)), "chmod")?;
        }
        if r.p(200) {
            if let Ok(s) = i64::try_from(gen_secs(r)) {
                set_time(p, s, r.below(1_000_000_000) as i64);
            }
        }
    }
    if r.p(128) {
        let mode = *r.pick(&[0o700u32, 0o755, 0o555, 0o1777]);
        hio(std::fs::set_permissions(root, std::fs::Permissions::from_mode(mode)), "chmod")?;
        set_time(root, 1_000_000_000 + r.below(1 << 31) as i64, 0);
    }
    Ok(())
}

fn look(p: &Path, rel: &OsStr) -> R<Obj> {
    let md = hio(p.symlink_metadata(), "lstat")?;
    let ft = md.file_type();
    let data = if ft.is_file() {
        hio(std::fs::read(p), "read")?
    } else if ft.is_symlink() {
        hio(std::fs::read_link(p), "readlink")?.into_os_string().into_vec()
    } else {
        Vec::new()
    };
    Ok(Obj {
        rel: rel.to_os_string(),
        mode: md.mode(),
        mtime: (md.mtime(), md.mtime_nsec()),
        data,
        dir: ft.is_dir(),
        link: ft.is_symlink(),
    })
}

fn walk(dir: &Path, rel: &OsStr, out: &mut Vec<Obj>) -> R {
    for e in hio(std::fs::read_dir(dir), "readdir")? {
        let e = hio(e, "readdir")?;
        let mut r = rel.to_os_string();
        if !r.is_empty() {
            r.push("/");
        }
        r.push(e.file_name());
        let o = look(&e.path(), &r)?;
        let d = o.dir;
        out.push(o);
        if d {
            walk(&e.path(), &r, out)?;
        }
    }
    Ok(())
}

/// Compares an entry of the archive with the object it came from.
fn compare(o: &Obj, e: &parse::PEntry, bytes: &[u8], conv: Conv) -> R {
    let what = String::from_utf8_lossy(&e.name[..e.name.len().min(80)]).into_owned();
    let data = &bytes[e.data_off as usize..e.desc_off as usize];
    ensure!(
        data == o.data,
        "{what:?}: {} B in the archive differ from the object ({} B)",
        data.len(),
        o.data.len()
    );
    let kind: u32 = if o.dir {
        0o040_000
    } else if o.link {
        0o120_000
    } else {
        0o100_000
    };
    let perm = if o.link { 0o777 } else { o.mode & 0o777 };
    ensure!(
        e.ext_attr >> 16 == kind | perm,
        "{what:?}: mode {:o} in the archive, the object is {:o}",
        e.ext_attr >> 16,
        o.mode
    );
    let want = words(convert(conv, i128::from(o.mtime.0)).unwrap_or((1980, 1, 1, 0, 0, 0)));
    ensure!(
        (e.time, e.date) == want,
        "{what:?}: time {:04x} date {:04x} in the archive, expected {:04x} {:04x} (modified {:?}, converter {conv:?})",
        e.time,
        e.date,
        want.0,
        want.1,
        o.mtime
    );
    Ok(())
}

async fn read_all(rd: &mut Pin<Box<Reader<FilesystemEntry>>>, r: &mut Rng) -> R<Vec<u8>> {
    let size = rd.size();
    let mut out = Vec::new();
    let buf_size = *r.pick(&[100usize, 4096, 8192, 100_000]);
    let buf_size = if size > 300_000 { *r.pick(&[8192, 100_000, 3_000_000]) } else { buf_size };
    let mut buf = vec![0; buf_size];
    loop {
        match rd.read(&mut buf).await {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => fail!("read at {} failed: {e}", out.len()),
        }
        ensure!(out.len() as u64 <= size, "more than the announced {size} B delivered");
    }
    ensure!(out.len() as u64 == size, "{} B delivered, {size} announced", out.len());
    Ok(out)
}

/// Reads windows at random positions and compares them with what the archive has there.
async fn windows(rd: &mut Pin<Box<Reader<FilesystemEntry>>>, all: &[u8], n: u64, r: &mut Rng) -> R {
    for _ in 0..n {
        let p = r.below(all.len() as u64 + 1);
        match rd.seek(std::io::SeekFrom::Start(p)).await {
            Ok(q) if q == p => {}
            o => fail!("seek to {p}: {o:?}"),
        }
        let n = r.usize(20_000).min(all.len() - p as usize);
        let mut buf = vec![0; n];
        if let Err(e) = rd.read_exact(&mut buf).await {
            fail!("reading {n} B at {p} failed: {e}");
        }
        ensure!(buf == all[p as usize..p as usize + n], "reading {n} B at {p}: wrong bytes");
    }
    Ok(())
}

fn root_names(r: &mut Rng) -> (Option<String>, Vec<String>) {
    // Given, and acceptable prefixes
    let c: &[(Option<&str>, &[&str])] = &[
        (None, &[""]),
        (Some("prefix"), &["prefix/"]),
        (Some("prefix/"), &["prefix/"]),
        (Some("prefix///"), &["prefix/"]),
        (Some("pre/fix"), &["pre/fix/"]),
        (Some("pre//fix//"), &["pre//fix/"]),
        (Some("\u{e9} \u{1F600}"), &["\u{e9} \u{1F600}/"]),
        (Some("."), &["./"]),
        // Leading slashes are removed, which is not documented
        (Some("/abs"), &["abs/", "/abs/"]),
        (Some(""), &["/"]),
        (Some("/"), &["/"]),
    ];
    let (a, b) = r.pick(c);
    (a.map(str::to_string), b.iter().map(|s| (*s).to_string()).collect())
}

fn spellings(p: &Path, r: &mut Rng) -> PathBuf {
    let s = p.as_os_str().to_os_string();
    let with = |suffix: &str| {
        let mut x = s.clone();
        x.push(suffix);
        PathBuf::from(x)
    };
    match r.below(8) {
        0 => with("/"),
        1 => with("//"),
        2 => with("/."),
        3 => {
            let mut x = s.clone();
            x.push("/../");
            x.push(p.file_name().unwrap_or_default());
            PathBuf::from(x)
        }
        4 => {
            // Relative
            let Ok(cwd) = std::env::current_dir() else { return p.to_path_buf() };
            let mut x = PathBuf::new();
            for _ in cwd.components().skip(1) {
                x.push("..");
            }
            x.push(p.strip_prefix("/").unwrap_or(p));
            x
        }
        5 => {
            let mut x = OsString::from("//");
            x.push(p.strip_prefix("/").unwrap_or(p));
            PathBuf::from(x)
        }
        _ => p.to_path_buf(),
    }
}

fn tree(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let root = tmp.path().join(if r.p(60) { OsString::from_vec(b"r\xff".to_vec()) } else { "r".into() });
    let outside = tmp.path().join("outside");
    hio(std::fs::create_dir(&root), "mkdir")?;
    hio(std::fs::create_dir(&outside), "mkdir")?;
    hio(std::fs::write(outside.join("secret"), b"must not be archived"), "write")?;
    let max = *r.pick(&[0, 1, 3, 10, 30]);
    make_tree(&root, &outside, &mut r, max)?;
    tree_body(&root, &mut r, ctx)
}

fn tree_body(root: &Path, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (given, prefixes) = root_names(r);
    let dir = spellings(root, r);
    let mut objs = Vec::new();
    walk(root, OsStr::new(""), &mut objs)?;
    ctx.sample(|| format!("{} objects, root name {given:?}, path {dir:?}", objs.len()));
    ctx.tr(|| format!("{} objects, root name {given:?}, path {dir:?}", objs.len()));
    let conv = gen_conv(r);
    let mut b = Builder::<FilesystemEntry>::new();
    set_conv(&mut b, conv);
    // Something may be there already, also under a name that is needed
    let root_obj = look(root, OsStr::new(""))?;
    let mut pre: Vec<String> = Vec::new();
    let mut taken = None;
    if r.p(70) {
        let md = hio(root.symlink_metadata(), "lstat")?;
        let mut names = vec!["zz before".to_string(), "first/zz".to_string()];
        if r.p(128) && !objs.is_empty() {
            let o = r.pick(&objs);
            if o.dir {
                let n = format!("{}{}/", prefixes[0], o.rel.to_string_lossy());
                taken = Some(n.clone());
                names.push(n);
            }
        }
        for n in names {
            run(async { b.add_filesystem_entry(n.clone(), root.to_path_buf(), &md).await.map(|_| ()).map_err(|e| Fail(format!("adding {n:?} failed: {e}"))) })?;
            pre.push(format!("{}/", n.trim_end_matches('/')));
        }
        ctx.count("trees_added_to_existing_entries", 1);
    }
    let res = run(async { Ok(b.add_directory_recursive(dir.clone(), given.as_deref()).await) })?;
    for (i, n) in pre.iter().enumerate() {
        ensure!(b.get_entries().get_index_of(n) == Some(i), "the entry {n:?} is no longer at its place");
    }
    {
        let (s, n) = (b.size(), b.get_entries().len());
        let rd = b.clone().build();
        ensure!(rd.size() == s, "after adding a tree ({}): builder announces {s} B, its reader has {} B ({n} entries)", res.is_ok(), rd.size());
    }
    // Names as they should be
    let lossy = |o: &Obj, prefix: &str| {
        format!("{prefix}{}{}", o.rel.to_string_lossy(), if o.dir { "/" } else { "" })
    };
    let mut collide = false;
    let mut seen = std::collections::HashSet::new();
    for o in &objs {
        collide |= !seen.insert(lossy(o, ""));
    }
    if let (Some(t), Err(AddDirectoryRecursiveError::AddEntryError(zippity::AddEntryError::DuplicateEntryName { entry_name }))) = (&taken, &res) {
        // With colliding names another one can be first; with a leading slash the prefix may be another one
        ensure!(collide || entry_name == t, "{t:?} was taken, the error is about {entry_name:?}");
        ctx.count("taken_names", 1);
        return Ok(());
    }
    if let Some(t) = &taken
        && prefixes.len() == 1
    {
        fail!("{t:?} was taken before a tree with such an object was added: {res:?}");
    }
    if let Err(e) = res {
        if collide && matches!(e, AddDirectoryRecursiveError::AddEntryError(_)) {
            ctx.count("colliding_names", 1);
            return Ok(());
        }
        fail!("add_directory_recursive({dir:?}, {given:?}) failed: {e}");
    }
    ensure!(!collide, "two objects with the same name in the archive, and no error");
    let want = objs.len() + usize::from(given.is_some()) + pre.len();
    ensure!(
        b.get_entries().len() == want,
        "{} entries for {want} objects (root name {given:?})",
        b.get_entries().len()
    );
    let size = b.size();
    let mut rd = Box::pin(b.build());
    ensure!(rd.size() == size, "builder announced {size}, reader {}", rd.size());
    let all = run(async { read_all(&mut rd, r).await })?;
    let p: Parsed = parse::parse_all(&all)?;
    let mut by_name: BTreeMap<Vec<u8>, &parse::PEntry> = p.entries.iter().map(|e| (e.name.clone(), e)).collect();
    ensure!(by_name.len() == want, "{} entries in the archive for {want} objects", by_name.len());
    // The prefix is one of the acceptable ones, and the same everywhere
    let prefix = prefixes
        .iter()
        .find(|p| {
            let probe = if given.is_some() { (*p).clone() } else { objs.first().map_or(String::new(), |o| lossy(o, p)) };
            given.is_none() || by_name.contains_key(probe.as_bytes())
        })
        .cloned();
    let Some(prefix) = prefix else {
        fail!("root name {given:?}: no entry for the directory itself among {:?}", p.entries.iter().take(5).map(|e| String::from_utf8_lossy(&e.name).into_owned()).collect::<Vec<_>>());
    };
    for o in &objs {
        let n = lossy(o, &prefix);
        let Some(e) = by_name.remove(n.as_bytes()) else {
            fail!("{n:?} is not in the archive (root name {given:?})");
        };
        compare(o, e, &all, conv)?;
        ctx.count("objects", 1);
        if o.link {
            ctx.count("symlinks", 1);
        } else if o.dir {
            ctx.count("directories", 1);
        }
    }
    if given.is_some() {
        let Some(e) = by_name.remove(prefix.as_bytes()) else {
            fail!("no entry {prefix:?} for the directory itself");
        };
        compare(&root_obj, e, &all, conv)?;
    }
    for n in &pre {
        let Some(e) = by_name.remove(n.as_bytes()) else {
            fail!("the entry {n:?} added before is not in the archive");
        };
        compare(&root_obj, e, &all, conv)?;
    }
    ensure!(by_name.is_empty(), "entries without an object: {:?}", by_name.keys().next().map(|k| String::from_utf8_lossy(k).into_owned()));
    let n = r.below(12);
    run(async { windows(&mut rd, &all, n, r).await })?;
    ctx.count("bytes_checked", all.len() as u64);
    if want >= 2 {
        let mut fp = all.len() as u64;
        for o in &objs {
            fp = mix(fp, crate::rng::hash_str(&o.rel.to_string_lossy()) ^ u64::from(o.mode));
        }
        ctx.nontrivial(fp);
    }
    Ok(())
}

fn wide(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let root = tmp.path().join("r");
    hio(std::fs::create_dir(&root), "mkdir")?;
    if ctx.idx % 2 == 0 {
        // Deep
        let mut d = root.clone();
        let mut n = 0;
        while d.as_os_str().len() < 3500 {
            d = d.join("d");
            hio(std::fs::create_dir(&d), "mkdir")?;
            if n % 7 == 0 {
                hio(std::fs::write(d.join("f"), format!("{n}")), "write")?;
            }
            n += 1;
        }
    } else {
        for i in 0..3000u32 {
            let p = root.join(format!("file {i}"));
            match i % 5 {
                0 => hio(std::fs::create_dir(&p), "mkdir")?,
                1 => hio(std::os::unix::fs::symlink(format!("file {}", i / 2), &p), "symlink")?,
                _ => hio(std::fs::write(&p, format!("{i}")), "write")?,
            }
        }
    }
    let r = tree_body(&root, &mut r, ctx);
    // The removal of deep trees is left to the scratch directory
    r
}

fn single(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let root = tmp.path().join("r");
    let outside = tmp.path().join("outside");
    hio(std::fs::create_dir(&root), "mkdir")?;
    hio(std::fs::create_dir(&outside), "mkdir")?;
    make_tree(&root, &outside, &mut r, 12)?;
    let mut objs = Vec::new();
    walk(&root, OsStr::new(""), &mut objs)?;
    let mut b = Builder::<FilesystemEntry>::new();
    let mut model: Vec<(String, Obj, Conv)> = Vec::new();
    let mut conv = Conv::None;
    for (i, o) in objs.iter().enumerate() {
        if r.p(100) {
            let c = gen_conv(&mut r);
            if c != Conv::None {
                conv = c;
                set_conv(&mut b, c);
            }
        }
        let path = root.join(&o.rel);
        let name = match r.below(6) {
            0 => format!("{i}"),
            1 => format!("{i}/"),
            2 => format!("x/{i}///"),
            3 => format!("/{i}//a"),
            4 => format!("same{}", r.below(3)),
            _ => format!("{}/", crate::arch::gen_name(&mut r, false)),
        };
        let trimmed = name.trim_end_matches('/');
        let want = format!("{trimmed}{}", if o.dir { "/" } else { "" });
        let md = hio(path.symlink_metadata(), "lstat")?;
        let before = (b.size(), b.get_entries().len());
        let dup = model.iter().any(|m| m.0 == want);
        ctx.tr(|| format!("add {path:?} as {name:?} (expected {want:?})"));
        let res = run(async { Ok(b.add_filesystem_entry(name.clone(), path.clone(), &md).await.map(|_| ())) })?;
        match res {
            Ok(()) => {
                ensure!(!dup, "duplicate name {want:?} accepted");
                ensure!(b.get_entries().contains_key(&want), "{name:?} added, but there is no {want:?}");
                model.push((want, o.clone(), conv));
            }
            Err(e) => {
                ensure!(dup, "adding {name:?} failed: {e}");
                ensure!((b.size(), b.get_entries().len()) == before, "a rejected object changed the builder");
            }
        }
    }
    // Something which is not a directory
    if let Some(o) = objs.iter().find(|o| !o.dir) {
        let path = root.join(&o.rel);
        let before = (b.size(), b.get_entries().len());
        let res = run(async { Ok(b.add_directory_recursive(path.clone(), Some("zz")).await) })?;
        ensure!(
            matches!(&res, Err(AddDirectoryRecursiveError::NotADirectory { path: p, .. }) if *p == path),
            "adding {path:?} as a directory: {res:?}"
        );
        ensure!((b.size(), b.get_entries().len()) == before, "a rejected directory changed the builder");
    }
    let mut rd = Box::pin(b.build());
    let all = run(async { read_all(&mut rd, &mut r).await })?;
    let p = parse::parse_all(&all)?;
    ensure!(p.entries.len() == model.len(), "{} entries, {} added", p.entries.len(), model.len());
    for ((name, o, c), e) in model.iter().zip(&p.entries) {
        ensure!(e.name == name.as_bytes(), "{:?} instead of {name:?}", String::from_utf8_lossy(&e.name));
        compare(o, e, &all, *c)?;
        ctx.count("objects", 1);
    }
    run(async { windows(&mut rd, &all, 6, &mut r).await })?;
    if model.len() >= 2 {
        ctx.nontrivial(mix(all.len() as u64, crate::rng::hash_str(&format!("{:?}", objs.iter().map(|o| &o.rel).collect::<Vec<_>>()))));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c19(run: &mut Runner) {
    run.rule = "A case is an archive of real files, of which some are truncated, extended, overwritten, replaced by rename, removed, replaced by a directory or a symlink, or restored, between adding and building, building and reading, and between any two reads (stage between), or all the time by another thread (stage racing). A front-to-back read, retried after errors, must either fail or deliver an archive of the announced size for which the independent parser finds consistent structure and checksums. Stage unchanged: whatever happened to other files, unchanged ones read correctly at any position; seeks into changed files end in an error or the end, never hang. Stage gone: a file removed, or replaced by a directory or a symlink loop, gives the operating system's error at its data, and reading goes on once it is back (after a seek, if it could be opened). Non-trivial: distinct (files, changes, outcome) with at least one change.".into();
    run.stage("between", run.n(4000, 60_000), between);
    run.stage("racing", run.n(300, 6000), racing);
    run.stage("unchanged", run.n(2500, 40_000), unchanged);
    run.stage("gone", run.n(250, 8000), gone);
}

/// Files that can not be opened or read any more: the error of the operating system comes out,
/// at the data of the first such file, and reading goes on once the file is back.
fn gone(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let f = files(&mut r, 5)?;
    let b = builder(&f, &mut r)?;
    let want = {
        let mut rd = Box::pin(b.clone().build());
        run(read_all(&mut rd, &mut r))?
    };
    let parsed = parse::parse_all(&want)?;
    let mut rd = Box::pin(b.build());
    let mut lost: Vec<Option<std::io::ErrorKind>> = vec![None; f.paths.len()];
    for (i, p) in f.paths.iter().enumerate() {
        if r.p(110) {
            hio(std::fs::remove_file(p), "remove")?;
            let code = match r.below(4) {
                0 | 1 => libc::ENOENT,
                2 => {
                    hio(std::fs::create_dir(p), "mkdir")?;
                    libc::EISDIR
                }
                _ => {
                    hio(std::os::unix::fs::symlink(p, p), "symlink")?;
                    libc::ELOOP
                }
            };
            lost[i] = Some(std::io::Error::from_raw_os_error(code).kind());
        }
    }
    let mut out = Vec::new();
    let mut buf = vec![0; *r.pick(&[100usize, 3000, 8192, 100_000])];
    let mut failures = 0u64;
    loop {
        let next = (0..f.paths.len()).find(|i| lost[*i].is_some() && f.orig[*i].len() > 0);
        match run(async { Ok(rd.read(&mut buf).await) })? {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => {
                let Some(i) = next else { fail!("read at {} failed with all files in place: {e}", out.len()) };
                let at = parsed.entries[i].data_off;
                ensure!(out.len() as u64 == at, "the read failed at {}, file {i} is at {at}: {e}", out.len());
                ensure!(
                    Some(e.kind()) == lost[i],
                    "file {i}: failed with {:?} ({e}), the operating system's error is {:?}",
                    e.kind(),
                    lost[i]
                );
                ensure!(rd.tell() == at, "position {} after the error at {at}", rd.tell());
                failures += 1;
                ctx.nontrivial(mix(mix(failures, at), e.kind() as u64));
                if r.p(60) {
                    // Once more, without any change
                    continue;
                }
                if f.paths[i].is_dir() {
                    hio(std::fs::remove_dir(&f.paths[i]), "rmdir")?;
                    // The directory has been opened, only a seek makes the reader open it again
                    match run(async { Ok(rd.seek(std::io::SeekFrom::Start(at)).await) })? {
                        Ok(p) if p == at => {}
                        o => fail!("seek to {at}: {o:?}"),
                    }
                } else {
                    let _ = std::fs::remove_file(&f.paths[i]);
                }
                hio(std::fs::write(&f.paths[i], &f.orig[i]), "write")?;
                lost[i] = None;
                continue;
            }
        }
        if let Some(i) = next {
            ensure!(out.len() as u64 <= parsed.entries[i].data_off, "data of file {i} delivered without the file");
        }
        ensure!(want.starts_with(&out), "wrong bytes up to {}", out.len());
    }
    ensure!(out == want, "{} B delivered, {} expected", out.len(), want.len());
    ctx.count("errors", failures);
    Ok(())
}

struct Files {
    _tmp: tempfile::TempDir,
    dir: PathBuf,
    paths: Vec<PathBuf>,
    orig: Vec<Vec<u8>>,
}

fn files(r: &mut Rng, max: u64) -> R<Files> {
    let tmp = scratch()?;
    let dir = tmp.path().join("f");
    hio(std::fs::create_dir(&dir), "mkdir")?;
    let mut paths = Vec::new();
    let mut orig = Vec::new();
    for i in 0..r.range(1, max) {
        let p = dir.join(format!("file{i}"));
        let c = content(r);
        hio(std::fs::write(&p, &c), "write")?;
        paths.push(p);
        orig.push(c);
    }
    Ok(Files { _tmp: tmp, dir, paths, orig })
}

/// One change of one file. Errors are of no interest (a racing reader, a file already gone).
fn change(f: &Files, i: usize, kind: u64, r: &mut Rng) -> &'static str {
    let p = &f.paths[i];
    let n = f.orig[i].len() as u64;
    // Not through a symlink, which would change another file
    let open = || {
        use std::os::unix::fs::OpenOptionsExt;
        std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NOFOLLOW).open(p)
    };
    let is_dir = p.symlink_metadata().is_ok_and(|m| m.is_dir());
    match kind {
        0 => {
            if let Ok(h) = open() {
                let _ = h.set_len(r.below(n + 1));
            }
            "truncate"
        }
        1 => {
            if let Ok(h) = open() {
                let _ = h.set_len(n + 1 + r.below(20_000));
            }
            "extend"
        }
        2 => {
            use std::os::unix::fs::FileExt;
            if let Ok(h) = open() {
                let k = r.range(1, 9000).min(n.max(1));
                let mut v = vec![0; k as usize];
                r.fill(&mut v);
                let _ = h.write_at(&v, r.below((n + 1).saturating_sub(k).max(1)));
            }
            "overwrite"
        }
        3 => {
            // Another file of the same or another size takes its place
            let t = f.dir.join("new");
            let m = if r.p(128) { n } else { r.below(2 * n + 10) };
            let mut v = vec![0; m as usize];
            r.fill(&mut v);
            let _ = std::fs::write(&t, v);
            let _ = std::fs::rename(&t, p);
            "replace"
        }
        4 => {
            if is_dir {
                let _ = std::fs::remove_dir(p);
            } else {
                let _ = std::fs::remove_file(p);
            }
            "remove"
        }
        5 => {
            let _ = std::fs::remove_file(p);
            let _ = std::fs::create_dir(p);
            "directory instead"
        }
        6 => {
            let _ = std::fs::remove_file(p);
            let j = r.usize(f.paths.len());
            let _ = std::os::unix::fs::symlink(&f.paths[j], p);
            "symlink instead"
        }
        7 => {
            if let Ok(h) = open() {
                let _ = h.set_len(0);
            }
            "empty"
        }
        _ => {
            if is_dir {
                let _ = std::fs::remove_dir(p);
            } else {
                let _ = std::fs::remove_file(p);
            }
            let _ = std::fs::write(p, &f.orig[i]);
            "restore"
        }
    }
}

fn builder(f: &Files, r: &mut Rng) -> R<Builder<FilesystemEntry>> {
    let mut b = Builder::<FilesystemEntry>::new();
    let recursive = r.p(60);
    run(async {
        if recursive {
            if let Err(e) = b.add_directory_recursive(f.dir.clone(), None).await {
                fail!("add_directory_recursive failed: {e}");
            }
            b.get_entries_mut().sort_by(|a, _, b, _| (a.len(), a).cmp(&(b.len(), b)));
            return Ok(());
        }
        for (i, p) in f.paths.iter().enumerate() {
            let md = hio(p.symlink_metadata(), "lstat")?;
            if let Err(e) = b.add_filesystem_entry(format!("file{i}"), p.clone(), &md).await {
                fail!("add_filesystem_entry failed: {e}");
            }
        }
        Ok(())
    })?;
    if r.p(60) {
        // Some checksums known from before
        for (i, o) in f.orig.iter().enumerate() {
            if r.p(128) {
                if let Some(e) = b.get_entries_mut().get_mut(&format!("file{i}")) {
                    e.crc32(crc32fast::hash(o));
                }
            }
        }
    }
    Ok(b)
}

/// A complete stream of bytes is a consistent archive of the announced size.
fn consistent(bytes: &[u8], size: u64, f: &Files, touched: &[bool]) -> R {
    ensure!(bytes.len() as u64 == size, "{} B delivered, {size} announced", bytes.len());
    let p = parse::parse_all(bytes)?;
    ensure!(p.entries.len() == f.paths.len(), "{} entries for {} files", p.entries.len(), f.paths.len());
    for (i, e) in p.entries.iter().enumerate() {
        ensure!(e.name == format!("file{i}").as_bytes(), "entry {i} has name {:?}", String::from_utf8_lossy(&e.name));
        ensure!(e.size == f.orig[i].len() as u64, "entry {i}: size {} in the archive, {} when added", e.size, f.orig[i].len());
        if !touched[i] {
            ensure!(bytes[e.data_off as usize..e.desc_off as usize] == f.orig[i], "unchanged file {i}: wrong content");
        }
    }
    Ok(())
}

fn between(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let f = files(&mut r, 5)?;
    let mut touched = vec![false; f.paths.len()];
    let mut b = builder(&f, &mut r)?;
    let mut shape = 0u64;
    let mut changes = 0u64;
    let max_changes = r.range(1, 5);
    let only = r.p(128).then(|| r.below(9));
    macro_rules! maybe {
        ($p:expr) => {
            if changes < max_changes && r.p($p) {
                let i = r.usize(f.paths.len());
                let k = only.filter(|_| r.p(200)).unwrap_or_else(|| r.below(9));
                let w = change(&f, i, k, &mut r);
                touched[i] = true;
                changes += 1;
                shape = mix(shape, mix(i as u64, k));
                ctx.tr(|| format!("{w} file{i}"));
            }
        };
    }
    maybe!(70);
    if r.p(20) {
        b = b.clone();
    }
    let size = b.size();
    let mut rd = Box::pin(b.build());
    maybe!(70);
    if r.p(90) {
        // The reader has been used before and knows checksums
        for _ in 0..r.range(1, 4) {
            let at = match r.below(4) {
                0 => 0,
                1 => size.saturating_sub(r.below(200)),
                _ => r.below(size + 1),
            };
            let n = if r.p(128) { usize::MAX } else { r.usize(20_000) };
            let mut buf = vec![0; *r.pick(&[500usize, 8192, 100_000])];
            let rd = &mut rd;
            run(async {
                match rd.seek(std::io::SeekFrom::Start(at)).await {
                    Ok(p) if p == at => {}
                    o => fail!("seek to {at}: {o:?}"),
                }
                let mut sum = 0;
                while sum < n {
                    match rd.read(&mut buf).await {
                        Ok(0) | Err(_) => break,
                        Ok(n) => sum += n,
                    }
                }
                Ok(())
            })?;
            ctx.tr(|| format!("{n} B read at {at} before"));
            maybe!(110);
        }
        match r.below(4) {
            0 => rd = Box::pin(Reader::clone(&rd)),
            1 => rd = Box::pin(rd.as_mut().take_pinned()),
            _ => {}
        }
        rd.as_mut().seek_from_start_pinned(0);
        shape = mix(shape, 5);
        maybe!(128);
        ctx.count("reused_readers", 1);
    }
    let step_size = *r.pick(&[50usize, 1000, 8192, 40_000]);
    let step_size = if size > 100_000 { step_size.max(4000) } else { step_size };
    let p_change = (256 * step_size as u64 * 3 / size.max(1)).clamp(3, 120) as u32;
    let stream = r.p(60);
    let mut out = Vec::new();
    let mut errors = 0u64;
    let max_errors = r.below(4);
    let mut buf = vec![0; step_size];
    let mut strm = None;
    if stream {
        strm = Some(Box::pin(crate::engine::into_stream(*Pin::into_inner(rd))));
        rd = Box::pin(Builder::<FilesystemEntry>::new().build());
    }
    let done = loop {
        maybe!(p_change);
        let res = match &mut strm {
            None => run(async { Ok(rd.read(&mut buf).await.map(|n| buf[..n].to_vec())) })?,
            Some(s) => run(async {
                Ok(std::future::poll_fn(|cx| futures_core::Stream::poll_next(s.as_mut(), cx))
                    .await
                    .map_or(Ok(Vec::new()), |x| x.map(|b| b.to_vec())))
            })?,
        };
        match res {
            Ok(x) if x.is_empty() => break true,
            Ok(x) => {
                out.extend_from_slice(&x);
                ctx.tr(|| format!("read {} B, now at {}", x.len(), out.len()));
            }
            Err(e) => {
                errors += 1;
                shape = mix(shape, 77 + errors);
                ctx.tr(|| format!("error at {}: {e}", out.len()));
                if errors > max_errors {
                    break false;
                }
                maybe!(128);
            }
        }
        ensure!(out.len() as u64 <= size, "more than the announced {size} B delivered");
    };
    if done {
        ctx.count("complete_archives", 1);
        consistent(&out, size, &f, &touched)?;
    } else {
        ctx.count("errors", 1);
        ensure!(changes > 0, "read failed without any change");
    }
    ctx.count("changes", changes);
    ctx.count("bytes_delivered", out.len() as u64);
    if changes > 0 {
        ctx.nontrivial(mix(shape, out.len() as u64));
    }
    ctx.sample(|| format!("{} files, {changes} changes, {errors} errors, complete: {done}", f.paths.len()));
    Ok(())
}

fn racing(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let f = Arc::new(files(&mut r, 4)?);
    let b = builder(&f, &mut r)?;
    let size = b.size();
    let keep = r.usize(f.paths.len());
    let stop = Arc::new(AtomicBool::new(false));
    let kinds = if r.p(128) { 3 } else { 9 };
    let t = {
        let (f, stop, mut r) = (f.clone(), stop.clone(), Rng::new(r.next()));
        std::thread::spawn(move || {
            let mut n = 0u64;
            while !stop.load(Ordering::Relaxed) && n < 1_000_000 {
                let i = r.usize(f.paths.len());
                if i != keep {
                    change(&f, i, if r.p(60) { 8 } else { r.below(kinds) }, &mut r);
                    n += 1;
                }
                if r.p(128) {
                    std::thread::yield_now();
                } else {
                    std::thread::sleep(Duration::from_micros(r.below(60)));
                }
            }
            n
        })
    };
    let mut touched = vec![true; f.paths.len()];
    touched[keep] = false;
    let res: R = (|| {
        let base = b.build();
        let mut rd = Box::pin(base.clone());
        let reuse = r.p(128);
        for _ in 0..4 {
            if reuse {
                rd.as_mut().seek_from_start_pinned(0);
            } else {
                rd = Box::pin(base.clone());
            }
            let mut out = Vec::new();
            let mut errors = 0;
            let mut buf = vec![0; 1 + r.usize(9000)];
            let done = loop {
                match run(async { Ok(rd.read(&mut buf).await) })? {
                    Ok(0) => break true,
                    Ok(n) => out.extend_from_slice(&buf[..n]),
                    Err(_) => {
                        errors += 1;
                        if errors > 5 {
                            break false;
                        }
                    }
                }
                ensure!(out.len() as u64 <= size, "more than the announced {size} B delivered");
            };
            if done {
                ctx.count("complete_archives", 1);
                consistent(&out, size, &f, &touched)?;
            } else {
                ctx.count("errors", 1);
            }
            ctx.nontrivial(mix(ctx.idx, out.len() as u64));
        }
        Ok(())
    })();
    stop.store(true, Ordering::Relaxed);
    let n = t.join().map_err(|_| Fail("HARNESS the modifying thread panicked".into()))?;
    ctx.count("changes", n);
    res
}

/// Unchanged files are read correctly, whatever happens to the others.
fn unchanged(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let f = files(&mut r, 6)?;
    let b = builder(&f, &mut r)?;
    let size = b.size();
    let mut rd = Box::pin(b.build());
    let mut touched = vec![false; f.paths.len()];
    // Where data are, from the format
    let mut at = Vec::new();
    let mut p = 0u64;
    for (i, o) in f.orig.iter().enumerate() {
        let n = format!("file{i}").len() as u64;
        at.push(p + 30 + n + 28);
        p += 30 + n + 28 + o.len() as u64 + 24;
    }
    let mut shape = 0;
    let mut changes = 0u64;
    for _ in 0..r.range(3, 25) {
        match r.below(4) {
            0 => {
                let i = r.usize(f.paths.len());
                let k = r.below(9);
                let w = change(&f, i, k, &mut r);
                ctx.tr(|| format!("{w} file{i}"));
                touched[i] = true;
                changes += 1;
                shape = mix(shape, mix(i as u64, k));
            }
            1 | 2 => {
                let i = r.usize(f.paths.len());
                let n = f.orig[i].len() as u64;
                let a = r.below(n + 1);
                let len = r.below(n - a + 1);
                rd.as_mut().seek_from_start_pinned(at[i] + a);
                ctx.tr(|| format!("read {len} B at {a} of file{i}"));
                let mut buf = vec![0; len as usize];
                let res = run(async { Ok(rd.read_exact(&mut buf).await) })?;
                if !touched[i] {
                    if let Err(e) = res {
                        fail!("reading {len} B at {a} of the unchanged file{i} failed: {e}");
                    }
                    ensure!(buf[..] == f.orig[i][a as usize..(a + len) as usize], "reading {len} B at {a} of the unchanged file{i}: wrong content");
                    ctx.count("windows_of_unchanged_files", 1);
                } else {
                    shape = mix(shape, u64::from(res.is_ok()));
                }
            }
            _ => {
                // Anywhere, including records that need data which are not there any more
                let p = r.below(size + 1);
                rd.as_mut().seek_from_start_pinned(p);
                let mut buf = vec![0; 1 + r.usize(30_000)];
                let mut got = p;
                let mut errors = 0;
                for _ in 0..r.below(20) {
                    match run(async { Ok(rd.read(&mut buf).await) })? {
                        Ok(0) => {
                            ensure!(got >= size, "end of file at {got} of {size}");
                            break;
                        }
                        Ok(n) => got += n as u64,
                        Err(e) => {
                            errors += 1;
                            ctx.tr(|| format!("error at {got}: {e}"));
                            ensure!(touched.iter().any(|t| *t), "reading from {p} failed at {got} without any change: {e}");
                            if errors > 2 {
                                break;
                            }
                        }
                    }
                    ensure!(rd.tell() == got, "position {} reported, {got} expected", rd.tell());
                    ensure!(got <= size, "bytes behind the end");
                }
                shape = mix(shape, got);
            }
        }
    }
    ctx.count("changes", changes);
    if changes > 0 {
        ctx.nontrivial(shape);
    }
    Ok(())
}

/// C10 with real files: sparse ones far beyond 4 GiB.
pub(super) fn sparse(ctx: &mut Ctx) -> R {
    use std::os::unix::fs::FileExt;
    let mut r = ctx.rng.clone();
    let tmp = scratch()?;
    let mut b = Builder::<FilesystemEntry>::new();
    let mut at = 0u64;
    // Path, start of the data, size, (offset, bytes) written
    let mut all: Vec<(u64, u64, Vec<(u64, Vec<u8>)>)> = Vec::new();
    for i in 0..r.range(1, 5) {
        let p = tmp.path().join(format!("f{i}"));
        let f = hio(std::fs::File::create(&p), "create")?;
        let len = match r.below(6) {
            0 => r.below(5000),
            1 => (1u64 << 32) - 2 + r.below(5),
            2 => (1u64 << 31) - 2 + r.below(5),
            3 => (1u64 << 32) + r.below(1 << 33),
            4 => (1u64 << r.range(33, 40)) + r.below(10),
            _ => r.below(1 << 36),
        };
        hio(f.set_len(len), "set_len")?;
        let mut marks: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut free = 0;
        let mut spots: Vec<u64> = vec![0, 1 << 31, (1 << 31) - 100, (1 << 32) - 70, (1 << 32) + 3000, len.saturating_sub(500)];
        spots.extend((0..4).map(|_| r.below(len + 1)));
        spots.sort_unstable();
        for o in spots {
            let n = (1 + r.below(900)).min(len.saturating_sub(o));
            if o < free || n == 0 {
                continue;
            }
            let mut v = vec![0u8; n as usize];
            r.fill(&mut v);
            hio(f.write_all_at(&v, o), "write")?;
            free = o + n;
            marks.push((o, v));
        }
        drop(f);
        let meta = hio(std::fs::symlink_metadata(&p), "stat")?;
        let e = match run(async { Ok(b.add_filesystem_entry(format!("f{i}"), p, &meta).await.map(|e| { e.crc32(12345 + i as u32); })) })? {
            Ok(()) => at + 30 + 2 + 28,
            Err(e) => fail!("adding a file of {len} B failed: {e}"),
        };
        all.push((e, len, marks));
        at = e + len + 24;
    }
    let cd = at;
    let mut rd = Box::pin(b.build());
    ensure!(rd.size() == cd + all.len() as u64 * (46 + 2 + 28) + 98, "{} B announced, {} expected", rd.size(), cd + all.len() as u64 * 76 + 98);
    let mut buf = vec![0u8; 3000];
    for _ in 0..r.range(8, 25) {
        let i = r.usize(all.len());
        let (data, len, marks) = &all[i];
        let o = if marks.is_empty() || r.p(40) { r.below(len + 1) } else { r.pick(marks).0.saturating_sub(r.below(200)) + r.below(150) }.min(*len);
        let n = (1 + r.below(buf.len() as u64)).min(len - o) as usize;
        if n == 0 {
            continue;
        }
        rd.as_mut().seek_from_start_pinned(data + o);
        let mut want = vec![0u8; n];
        for (m, v) in marks {
            let (s, e) = ((*m).max(o), (m + v.len() as u64).min(o + n as u64));
            if s < e {
                want[(s - o) as usize..(e - o) as usize].copy_from_slice(&v[(s - m) as usize..(e - m) as usize]);
            }
        }
        if let Err(e) = run(async { Ok(rd.read_exact(&mut buf[..n]).await) })? {
            fail!("reading {n} B at {o} of a file of {len} B failed: {e}");
        }
        ensure!(buf[..n] == want[..], "wrong bytes: {n} B at {o} of a file of {len} B");
        ctx.count("file_windows", 1);
    }
    // The whole directory
    rd.as_mut().seek_from_start_pinned(cd);
    let mut v = Vec::new();
    hio(run(async { Ok(rd.read_to_end(&mut v).await) })?, "reading the directory")?;
    for (i, (data, len, _)) in all.iter().enumerate() {
        let e = &v[i * 76..][..76];
        let u = |k: usize| u64::from_le_bytes(e[k..k + 8].try_into().unwrap_or_default());
        ensure!(u(52) == *len && u(60) == *len && u(68) == data - 60, "directory says {} {} at {} for a file of {len} B at {}", u(52), u(60), u(68), data - 60);
        ctx.max("largest_file", *len);
    }
    if at > 1 << 32 {
        ctx.nontrivial(mix(at, ctx.idx));
    }
    Ok(())
}
