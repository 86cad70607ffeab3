//! Independent strict ZIP parser: the oracle for everything structural. It shares no code and no
//! constants with the library; offsets follow APPNOTE 6.3.x.
use std::collections::HashSet;

pub trait ReadAt {
    fn len(&self) -> u64;
    fn at(&mut self, off: u64, n: usize) -> Result<Vec<u8>, String>;
}

pub struct Slice<'a>(pub &'a [u8]);
impl ReadAt for Slice<'_> {
    fn len(&self) -> u64 {
        self.0.len() as u64
    }
    fn at(&mut self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        let a = usize::try_from(off).map_err(|_| "offset out of range".to_string())?;
        let b = a.checked_add(n).ok_or("offset out of range")?;
        self.0
            .get(a..b)
            .map(<[u8]>::to_vec)
            .ok_or_else(|| format!("archive ends before {off}+{n}"))
    }
}

#[derive(Clone, Debug)]
pub struct PEntry {
    pub name: Vec<u8>,
    pub local_off: u64,
    pub data_off: u64,
    pub size: u64,
    pub desc_off: u64,
    pub desc_end: u64,
    pub cd_off: u64,
    pub cd_end: u64,
    pub crc: u32,
    pub time: u16,
    pub date: u16,
    pub ext_attr: u32,
    pub host: u8,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub entries: Vec<PEntry>,
    pub cd_off: u64,
    pub cd_size: u64,
    pub eocd_off: u64,
    pub total: u64,
}

fn u16a(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
fn u64a(b: &[u8], o: usize) -> u64 {
    let mut x = [0; 8];
    x.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(x)
}

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Finds the ZIP64 extra field (0x0001) in the extra data.
fn zip64_extra(extra: &[u8], what: &str) -> Result<Option<Vec<u8>>, String> {
    let mut p = 0;
    let mut found = None;
    while p < extra.len() {
        need!(p + 4 <= extra.len(), "{what}: truncated extra field header");
        let tag = u16a(extra, p);
        let len = usize::from(u16a(extra, p + 2));
        need!(p + 4 + len <= extra.len(), "{what}: extra field {tag:#x} overruns");
        if tag == 1 {
            need!(found.is_none(), "{what}: two zip64 extra fields");
            found = Some(extra[p + 4..p + 4 + len].to_vec());
        }
        p += 4 + len;
    }
    Ok(found)
}

/// Parses the whole structure of an archive, from the end (as usual readers do) and then checks
/// that local records, central directory and end records tile the archive without gap or overlap
/// and agree with each other. Data is not read.
pub fn parse(src: &mut dyn ReadAt) -> Result<Parsed, String> {
    let total = src.len();
    need!(total >= 98, "archive of {total} B is too short for the end records");
    let e = src.at(total - 22, 22)?;
    need!(u32a(&e, 0) == 0x0605_4b50, "no end of central directory record at the end");
    need!(u16a(&e, 4) == 0 || u16a(&e, 4) == 0xffff, "EOCD: disk number {}", u16a(&e, 4));
    need!(u16a(&e, 6) == 0 || u16a(&e, 6) == 0xffff, "EOCD: cd start disk {}", u16a(&e, 6));
    need!(u16a(&e, 20) == 0, "EOCD: comment length {}", u16a(&e, 20));
    let (c1, c2, s32, o32) = (u16a(&e, 8), u16a(&e, 10), u32a(&e, 12), u32a(&e, 16));

    let l = src.at(total - 42, 20)?;
    need!(u32a(&l, 0) == 0x0706_4b50, "no zip64 locator before the EOCD");
    need!(u32a(&l, 4) == 0, "zip64 locator: disk {}", u32a(&l, 4));
    need!(u32a(&l, 16) == 1, "zip64 locator: {} disks", u32a(&l, 16));
    let eocd_off = u64a(&l, 8);
    need!(
        eocd_off == total - 98,
        "zip64 locator points to {eocd_off}, the zip64 record should be at {}",
        total - 98
    );
    let r = src.at(eocd_off, 56)?;
    need!(u32a(&r, 0) == 0x0606_4b50, "no zip64 EOCD record at {eocd_off}");
    need!(u64a(&r, 4) == 44, "zip64 EOCD: record size {}", u64a(&r, 4));
    need!(u16a(&r, 14) == 45, "zip64 EOCD: version needed {}", u16a(&r, 14));
    need!(u32a(&r, 16) == 0 && u32a(&r, 20) == 0, "zip64 EOCD: disk numbers");
    let (n1, n) = (u64a(&r, 24), u64a(&r, 32));
    need!(n1 == n, "zip64 EOCD: {n1} entries on this disk, {n} in total");
    let (cd_size, cd_off) = (u64a(&r, 40), u64a(&r, 48));
    need!(
        cd_off.checked_add(cd_size) == Some(eocd_off),
        "central directory {cd_off}+{cd_size} does not end at the zip64 EOCD {eocd_off}"
    );
    need!(c1 == 0xffff && c2 == 0xffff, "EOCD: entry counts {c1},{c2} are not the zip64 marker");
    need!(s32 == u32::MAX, "EOCD: size {s32:#x} is not the zip64 marker");
    need!(o32 == u32::MAX, "EOCD: offset {o32:#x} is not the zip64 marker");
    need!(n <= cd_size / 46, "zip64 EOCD: {n} entries do not fit in {cd_size} B");

    // Central directory
    let mut entries: Vec<PEntry> = Vec::with_capacity(n.min(1 << 20) as usize);
    let mut flags_cd = Vec::new();
    let mut pos = cd_off;
    let mut buf: Vec<u8> = Vec::new();
    let mut bp = 0usize; // read position in buf
    let mut loaded = cd_off; // archive offset of the end of buf
    let mut names: HashSet<Vec<u8>> = HashSet::new();
    for i in 0..n {
        let mut want = |buf: &mut Vec<u8>, bp: &mut usize, k: usize| -> Result<(), String> {
            if buf.len() - *bp < k {
                buf.drain(..*bp);
                *bp = 0;
                let add = (eocd_off - loaded).min(1 << 20) as usize;
                let add = add.max(0);
                let mut x = src.at(loaded, add)?;
                loaded += add as u64;
                buf.append(&mut x);
                need!(buf.len() >= k, "central directory entry {i} overruns the directory");
            }
            Ok(())
        };
        want(&mut buf, &mut bp, 46)?;
        let h = buf[bp..bp + 46].to_vec();
        need!(u32a(&h, 0) == 0x0201_4b50, "entry {i}: no central directory signature at {pos}");
        let (nl, xl, cl) = (
            usize::from(u16a(&h, 28)),
            usize::from(u16a(&h, 30)),
            usize::from(u16a(&h, 32)),
        );
        let full = 46 + nl + xl + cl;
        want(&mut buf, &mut bp, full)?;
        let name = buf[bp + 46..bp + 46 + nl].to_vec();
        let extra = buf[bp + 46 + nl..bp + 46 + nl + xl].to_vec();
        bp += full;
        let what = format!("entry {i} ({}) central directory", String::from_utf8_lossy(&name[..nl.min(60)]));
        need!(cl == 0, "{what}: comment");
        need!(h[5] == 3, "{what}: host system {} is not unix", h[5]);
        need!(u16a(&h, 6) & 0xff == 45, "{what}: version needed {}", u16a(&h, 6));
        let flags = u16a(&h, 8);
        need!(flags & !0x0808 == 0, "{what}: unexpected flags {flags:#x}");
        need!(flags & 0x0800 != 0, "{what}: UTF-8 flag missing");
        need!(u16a(&h, 10) == 0, "{what}: method {}", u16a(&h, 10));
        need!(u16a(&h, 34) == 0 || u16a(&h, 34) == 0xffff, "{what}: disk number {}", u16a(&h, 34));
        need!(u16a(&h, 36) & 1 == 0, "{what}: marked as text, which lets line ends be converted");
        let crc = u32a(&h, 16);
        need!(u32a(&h, 20) == u32::MAX, "{what}: compressed size {:#x} is not the zip64 marker", u32a(&h, 20));
        need!(u32a(&h, 24) == u32::MAX, "{what}: size {:#x} is not the zip64 marker", u32a(&h, 24));
        need!(u32a(&h, 42) == u32::MAX, "{what}: offset {:#x} is not the zip64 marker", u32a(&h, 42));
        let Some(z) = zip64_extra(&extra, &what)? else {
            return Err(format!("{what}: no zip64 extra field"));
        };
        need!(z.len() == 24, "{what}: zip64 extra field of {} B", z.len());
        let (us, cs, off) = (u64a(&z, 0), u64a(&z, 8), u64a(&z, 16));
        need!(us == cs, "{what}: compressed size {cs} differs from size {us} in a stored entry");
        need!(std::str::from_utf8(&name).is_ok(), "{what}: name is not UTF-8");
        need!(names.insert(name.clone()), "{what}: duplicate name");
        let cd_end = pos + full as u64;
        need!(cd_end <= eocd_off, "{what}: overruns the central directory");
        flags_cd.push(flags);
        entries.push(PEntry {
            name,
            local_off: off,
            data_off: 0,
            size: us,
            desc_off: 0,
            desc_end: 0,
            cd_off: pos,
            cd_end,
            crc,
            time: u16a(&h, 12),
            date: u16a(&h, 14),
            ext_attr: u32a(&h, 38),
            host: h[5],
        });
        pos = cd_end;
    }
    need!(pos == eocd_off, "central directory has {} B after the last entry", eocd_off - pos);

    // Local records
    let mut expect = 0u64;
    for (i, e) in entries.iter_mut().enumerate() {
        let what = format!(
            "entry {i} ({}) local record",
            String::from_utf8_lossy(&e.name[..e.name.len().min(60)])
        );
        need!(e.local_off == expect, "{what}: recorded at {}, expected at {expect}", e.local_off);
        let h = src.at(e.local_off, 30)?;
        need!(u32a(&h, 0) == 0x0403_4b50, "{what}: no local header at {}", e.local_off);
        let flags = u16a(&h, 6);
        need!(u16a(&h, 4) & 0xff == 45, "{what}: version needed {}", u16a(&h, 4));
        need!(flags & !0x0808 == 0, "{what}: unexpected flags {flags:#x}");
        need!(flags & 0x0800 != 0, "{what}: UTF-8 flag missing");
        need!(flags & 0x0008 != 0, "{what}: data descriptor flag missing");
        need!(u16a(&h, 8) == 0, "{what}: method {}", u16a(&h, 8));
        need!(
            u16a(&h, 10) == e.time && u16a(&h, 12) == e.date,
            "{what}: timestamp {:04x}{:04x} differs from the central directory {:04x}{:04x}",
            u16a(&h, 12),
            u16a(&h, 10),
            e.date,
            e.time
        );
        let c = u32a(&h, 14);
        need!(c == 0 || c == e.crc, "{what}: crc {c:08x}, central directory {:08x}", e.crc);
        need!(u32a(&h, 18) == u32::MAX, "{what}: compressed size {:#x} is not the zip64 marker", u32a(&h, 18));
        need!(u32a(&h, 22) == u32::MAX, "{what}: size {:#x} is not the zip64 marker", u32a(&h, 22));
        let (nl, xl) = (usize::from(u16a(&h, 26)), usize::from(u16a(&h, 28)));
        need!(nl == e.name.len(), "{what}: name length {nl}, central directory {}", e.name.len());
        let var = src.at(e.local_off + 30, nl + xl)?;
        need!(var[..nl] == e.name[..], "{what}: name differs from the central directory");
        let Some(z) = zip64_extra(&var[nl..], &what)? else {
            return Err(format!("{what}: no zip64 extra field"));
        };
        need!(z.len() >= 16, "{what}: zip64 extra field of {} B", z.len());
        let (us, cs) = (u64a(&z, 0), u64a(&z, 8));
        need!(us == 0 || us == e.size, "{what}: size {us}, central directory {}", e.size);
        need!(cs == 0 || cs == e.size, "{what}: compressed size {cs}, central directory {}", e.size);
        if z.len() >= 24 {
            need!(
                u64a(&z, 16) == e.local_off,
                "{what}: offset {} in the zip64 field, header is at {}",
                u64a(&z, 16),
                e.local_off
            );
        }
        e.data_off = e.local_off + (30 + nl + xl) as u64;
        e.desc_off = e
            .data_off
            .checked_add(e.size)
            .ok_or_else(|| format!("{what}: size {} overflows", e.size))?;
        e.desc_end = e
            .desc_off
            .checked_add(24)
            .ok_or_else(|| format!("{what}: size {} overflows", e.size))?;
        need!(e.desc_end <= cd_off, "{what}: overruns the central directory");
        let d = src.at(e.desc_off, 24)?;
        need!(u32a(&d, 0) == 0x0807_4b50, "{what}: no data descriptor at {}", e.desc_off);
        need!(u32a(&d, 4) == e.crc, "{what}: descriptor crc {:08x}, central directory {:08x}", u32a(&d, 4), e.crc);
        need!(u64a(&d, 8) == e.size, "{what}: descriptor compressed size {}, central directory {}", u64a(&d, 8), e.size);
        need!(u64a(&d, 16) == e.size, "{what}: descriptor size {}, central directory {}", u64a(&d, 16), e.size);
        expect = e.desc_end;
    }
    need!(expect == cd_off, "gap between the last local record ({expect}) and the central directory ({cd_off})");
    Ok(Parsed {
        entries,
        cd_off,
        cd_size,
        eocd_off,
        total,
    })
}

/// Parses and also checks the stored checksums against the stored data.
pub fn parse_all(bytes: &[u8]) -> Result<Parsed, String> {
    let p = parse(&mut Slice(bytes))?;
    for (i, e) in p.entries.iter().enumerate() {
        let d = &bytes[e.data_off as usize..e.desc_off as usize];
        let c = crc32fast::hash(d);
        need!(
            c == e.crc,
            "entry {i} ({}): stored crc {:08x}, data has {c:08x}",
            String::from_utf8_lossy(&e.name[..e.name.len().min(60)]),
            e.crc
        );
    }
    Ok(p)
}

/// What a forward-only streaming reader sees: (name, data) of each local record, found without
/// looking at the central directory, by searching the descriptor whose checksum and size fit.
pub fn stream_parse(b: &[u8]) -> Result<Vec<(Vec<u8>, std::ops::Range<usize>, u32)>, String> {
    let mut p = 0usize;
    let mut out = Vec::new();
    loop {
        need!(p + 4 <= b.len(), "stream: ends at {p} without a central directory");
        match u32a(b, p) {
            0x0403_4b50 => {}
            0x0201_4b50 | 0x0606_4b50 => return Ok(out),
            s => return Err(format!("stream: unexpected signature {s:08x} at {p}")),
        }
        need!(p + 30 <= b.len(), "stream: truncated header");
        let flags = u16a(b, p + 6);
        let (nl, xl) = (usize::from(u16a(b, p + 26)), usize::from(u16a(b, p + 28)));
        need!(p + 30 + nl + xl <= b.len(), "stream: truncated header");
        need!(flags & 8 != 0, "stream: no data descriptor flag at {p}");
        let zip64 = zip64_extra(&b[p + 30 + nl..p + 30 + nl + xl], "stream")?.is_some();
        need!(zip64, "stream: local header at {p} does not announce a zip64 descriptor");
        let name = b[p + 30..p + 30 + nl].to_vec();
        let start = p + 30 + nl + xl;
        let mut h = crc32fast::Hasher::new();
        let mut hashed = start;
        let mut q = start;
        let end = loop {
            need!(q + 24 <= b.len(), "stream: no descriptor fits the entry at {p}");
            if b[q] == 0x50
                && u32a(b, q) == 0x0807_4b50
                && u64a(b, q + 8) == (q - start) as u64
                && u64a(b, q + 16) == (q - start) as u64
            {
                h.update(&b[hashed..q]);
                hashed = q;
                if h.clone().finalize() == u32a(b, q + 4) {
                    break q;
                }
            }
            q += 1;
        };
        out.push((name, start..end, u32a(b, end + 4)));
        p = end + 24;
    }
}
