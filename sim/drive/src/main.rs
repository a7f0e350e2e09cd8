//! A small user of the library: runs the operations of a script against the real FileStorage and
//! reports what each of them returned. The script is argv[1]; one operation per line, fields
//! separated by tabs, bytes outside the printable range written %xx.
use corecrypto::header::{HashingAlgorithm, HeaderType, HeaderVersion};
use corecrypto::primitives::{Algorithm, Mode};
use corecrypto::protected::Protected;
use std::cell::RefCell;
use std::io::{Seek, SeekFrom};
use std::path::PathBuf;
use std::sync::Arc;
use tools::storage::{Entry, FileStorage, Storage};

type Res = Result<String, String>;
fn e<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}") }
fn unpct(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let (mut i, mut o) = (0, Vec::with_capacity(b.len())); // secrets pass here: never moved by growing
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } else { o.push(b[i]); i += 1 }
    }
    o
}
fn path(s: &str) -> PathBuf { use std::os::unix::ffi::OsStringExt; std::ffi::OsString::from_vec(unpct(s)).into() }
fn key(s: &str) -> Protected<Vec<u8>> { Protected::new(unpct(s)) }
fn hashalg(s: &str) -> HashingAlgorithm {
    let n: i32 = s[1..].parse().unwrap();
    if s.starts_with('A') { HashingAlgorithm::Argon2id(n) } else { HashingAlgorithm::Blake3Balloon(n) }
}
fn header_type(v: &str, m: &str, a: &str) -> HeaderType {
    HeaderType {
        version: match v { "V1" => HeaderVersion::V1, "V2" => HeaderVersion::V2, "V3" => HeaderVersion::V3, "V4" => HeaderVersion::V4, _ => HeaderVersion::V5 },
        mode: if m == "M" { Mode::MemoryMode } else { Mode::StreamMode },
        algorithm: match a { "A" => Algorithm::Aes256Gcm, "D" => Algorithm::DeoxysII256, _ => Algorithm::XChaCha20Poly1305 },
    }
}
type F = Entry<std::fs::File>;
fn out(stor: &FileStorage, p: &str) -> Result<F, String> { let p = path(p); stor.create_file(&p).or_else(|_| stor.write_file(&p)).map_err(e) }
fn opt<'a>(f: &'a Option<F>, read: bool) -> Result<Option<&'a RefCell<std::fs::File>>, String> {
    match f { None => Ok(None), Some(x) => (if read { x.try_reader() } else { x.try_writer() }).map(Some).map_err(e) }
}
fn at(f: &F, pos: &str) -> Result<(), String> { f.try_reader().map_err(e)?.borrow_mut().seek(SeekFrom::Start(pos.parse().unwrap())).map(|_| ()).map_err(e) }
fn rw(p: &str) -> Result<RefCell<std::fs::File>, String> { std::fs::OpenOptions::new().read(true).write(true).open(path(p)).map(RefCell::new).map_err(e) }
fn done(h: RefCell<std::fs::File>) -> Res { h.borrow().sync_all().map_err(|x| format!("sync {x}"))?; Ok(String::new()) }

fn run(stor: &Arc<FileStorage>, a: &[&str]) -> Res {
    match a[0] {
        "enc" => {
            let i = stor.read_file(path(a[1])).map_err(e)?;
            let o = out(stor, a[2])?;
            let h = if a[3] == "-" { None } else { Some(out(stor, a[3])?) };
            // the caller's handles may stand anywhere
            if a.len() > 9 { at(&i, a[9])?; at(&o, a[10])?; if let Some(h) = &h { at(h, a[11])?; } }
            tools::encrypt::execute(tools::encrypt::Request { reader: i.try_reader().map_err(e)?, writer: o.try_writer().map_err(e)?, header_writer: opt(&h, false)?,
                raw_key: key(a[4]), header_type: header_type(a[5], a[6], a[7]), hashing_algorithm: hashalg(a[8]) }).map_err(e)?;
            if let Some(h) = &h { stor.flush_file(h).map_err(e)?; }
            stor.flush_file(&o).map_err(e)?;
            Ok(String::new())
        }
        "dec" => {
            let i = stor.read_file(path(a[1])).map_err(e)?;
            let o = out(stor, a[2])?;
            let h = if a[3] == "-" { None } else { Some(stor.read_file(path(a[3])).map_err(e)?) };
            tools::decrypt::execute(tools::decrypt::Request { header_reader: opt(&h, true)?, reader: i.try_reader().map_err(e)?, writer: o.try_writer().map_err(e)?,
                raw_key: key(a[4]), on_decrypted_header: None }).map_err(e)?;
            stor.flush_file(&o).map_err(e)?;
            Ok(String::new())
        }
        "hash" => {
            let mut f = std::fs::File::open(path(a[1])).map_err(e)?;
            let pos: u64 = a[2].parse().unwrap();
            if pos > 0 { f.seek(SeekFrom::Start(pos)).map_err(e)?; }
            tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(f) }).map_err(e)
        }
        "pack" => {
            // pack out hdr key ver mode algo hash comp dirs...
            let mut files = vec![];
            for d in &a[9..] {
                let f = stor.read_file(path(d)).map_err(e)?;
                if f.is_dir() { files.extend(stor.read_dir(&f).map_err(e)?) } else { files.push(f) }
            }
            let o = out(stor, a[1])?;
            let h = if a[2] == "-" { None } else { Some(out(stor, a[2])?) };
            tools::pack::execute(stor.clone(), tools::pack::Request { writer: o.try_writer().map_err(e)?, compress_files: files,
                compression_method: if a[8] == "1" { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored }, header_writer: opt(&h, false)?,
                raw_key: key(a[3]), header_type: header_type(a[4], a[5], a[6]), hashing_algorithm: hashalg(a[7]) }).map_err(e)?;
            if let Some(h) = &h { stor.flush_file(h).map_err(e)?; }
            stor.flush_file(&o).map_err(e)?;
            Ok(String::new())
        }
        "unpack" => {
            let i = stor.read_file(path(a[1])).map_err(e)?;
            let h = if a[2] == "-" { None } else { Some(stor.read_file(path(a[2])).map_err(e)?) };
            tools::unpack::execute(stor.clone(), tools::unpack::Request { reader: i.try_reader().map_err(e)?, header_reader: opt(&h, true)?, raw_key: key(a[3]),
                output_dir_path: path(a[4]), on_decrypted_header: None, on_archive_info: None, on_zip_file: None }).map_err(e)?;
            Ok(String::new())
        }
        "erase" => tools::erase::execute(stor.clone(), tools::erase::Request { path: path(a[1]), passes: a[2].parse().unwrap() }).map_err(e).map(|()| String::new()),
        "erasedir" => {
            let d = stor.read_file(path(a[1])).map_err(e)?;
            tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry: d, passes: a[2].parse().unwrap() }).map_err(e).map(|()| String::new())
        }
        "dump" => {
            let i = std::fs::File::open(path(a[1])).map_err(e)?;
            let o = out(stor, a[2])?;
            tools::header::dump::execute(tools::header::dump::Request { reader: &RefCell::new(i), writer: o.try_writer().map_err(e)? }).map_err(e)?;
            stor.flush_file(&o).map_err(e)?;
            Ok(String::new())
        }
        "restore" => {
            let i = std::fs::File::open(path(a[1])).map_err(e)?;
            let t = rw(a[2])?;
            tools::header::restore::execute(tools::header::restore::Request { reader: &RefCell::new(i), writer: &t }).map_err(e)?;
            done(t)
        }
        "strip" => {
            let t = rw(a[1])?;
            tools::header::strip::execute(tools::header::strip::Request { handle: &t }).map_err(e)?;
            done(t)
        }
        "kadd" => {
            let t = rw(a[1])?;
            tools::key::add::execute(tools::key::add::Request { handle: &t, raw_key_old: key(a[2]), raw_key_new: key(a[3]), hash_algorithm: hashalg(a[4]) }).map_err(e)?;
            done(t)
        }
        "kchg" => {
            let t = rw(a[1])?;
            tools::key::change::execute(tools::key::change::Request { handle: &t, raw_key_old: key(a[2]), raw_key_new: key(a[3]), hash_algorithm: hashalg(a[4]) }).map_err(e)?;
            done(t)
        }
        "kdel" => {
            let t = rw(a[1])?;
            tools::key::delete::execute(tools::key::delete::Request { handle: &t, raw_key_old: key(a[2]) }).map_err(e)?;
            done(t)
        }
        "kver" => {
            let t = RefCell::new(std::fs::File::open(path(a[1])).map_err(e)?);
            tools::key::verify::execute(tools::key::verify::Request { handle: &t, raw_key: key(a[2]) }).map_err(e)?;
            Ok(String::new())
        }
        // what happens between two operations of a long-lived process
        "mv" => std::fs::rename(path(a[1]), path(a[2])).map_err(e).map(|()| String::new()),
        "gen" => {
            let n: i32 = a[1].parse().unwrap();
            let p = corecrypto::key::generate_passphrase(&n);
            Ok(String::from_utf8_lossy(p.expose().as_ref()).into_owned())
        }
        x => panic!("unknown operation {x}"),
    }
}

fn step(stor: &Arc<FileStorage>, idx: usize, line: &str) {
    let a: Vec<&str> = line.split('\t').collect();
    println!("B\t{idx}");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(stor, &a)));
    match r {
        Ok(Ok(m)) => println!("R\t{idx}\tok\t{m}"),
        Ok(Err(m)) => println!("R\t{idx}\terr\t{}", m.replace(['\n', '\t'], " ")),
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            println!("R\t{idx}\tpanic\t{}", m.replace(['\n', '\t'], " "));
        }
    }
}

fn main() {
    let script = std::env::args().nth(1).expect("script");
    let stor = Arc::new(FileStorage);
    let lines: Vec<String> = script.lines().map(String::from).collect();
    let mut i = 0;
    while i < lines.len() {
        if lines[i] != "par" { step(&stor, i, &lines[i]); i += 1; continue; }
        // par .. thr .. endpar: each group runs on a thread of its own
        let mut groups: Vec<Vec<(usize, String)>> = vec![vec![]];
        i += 1;
        while lines[i] != "endpar" {
            if lines[i] == "thr" { groups.push(vec![]) } else { groups.last_mut().unwrap().push((i, lines[i].clone())) }
            i += 1;
        }
        i += 1;
        let hs: Vec<_> = groups.into_iter().map(|g| { let stor = stor.clone(); std::thread::spawn(move || for (n, l) in g { step(&stor, n, &l) }) }).collect();
        for h in hs { let _ = h.join(); }
    }
    println!("E");
}
