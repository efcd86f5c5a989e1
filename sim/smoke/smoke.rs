// Exercises what a Rust program may ask of its operating system; every line printed must be the same with and without
// the simulator (tools/smoke.sh compares them).
use std::collections::HashMap;
use std::fs::{self, File, OpenOptions};
use std::io::{self, BufRead, BufReader, BufWriter, IsTerminal, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier, Condvar, Mutex, Once, OnceLock, RwLock};
use std::thread;
use std::time::{Duration, Instant, SystemTime};

fn show<T: std::fmt::Debug>(what: &str, r: io::Result<T>) {
    match r {
        Ok(v) => println!("{}: ok {:?}", what, v),
        Err(e) => println!("{}: {:?} {:?}", what, e.kind(), e.raw_os_error()),
    }
}
fn len(m: fs::Metadata) -> (u64, bool, bool) {
    (m.len(), m.is_file(), m.is_dir())
}

fn files() {
    show("metadata missing", fs::metadata("missing").map(len));
    show("symlink_metadata missing", fs::symlink_metadata("missing").map(len));
    show("write", fs::write("a", b"hello"));
    show("metadata", fs::metadata("a").map(len));
    show("exists", fs::exists("a"));
    show("read", fs::read("a"));
    show("read_to_string", fs::read_to_string("a"));
    show("copy", fs::copy("a", "b"));
    show("rename", fs::rename("b", "c"));
    show("hard_link", fs::hard_link("c", "d"));
    show("symlink", std::os::unix::fs::symlink("c", "e"));
    show("read_link", fs::read_link("e"));
    show("canonicalize", fs::canonicalize("e").map(|p| p.file_name().unwrap().to_owned()));
    show("canonicalize missing", fs::canonicalize("zz").map(|p| p.file_name().unwrap().to_owned()));
    show("create_new", OpenOptions::new().write(true).create_new(true).open("n").map(|_| ()));
    show("create_new again", OpenOptions::new().write(true).create_new(true).open("n").map(|_| ()));
    show("open missing", File::open("missing").map(|_| ()));
    show("open dir for writing", File::create(".").map(|_| ()));
    show("mkdir", fs::create_dir("dir"));
    show("mkdir again", fs::create_dir("dir"));
    show("mkdir all", fs::create_dir_all("dir/x/y"));
    show("write in", fs::write("dir/x/y/f", b"1"));
    let mut names: Vec<_> = fs::read_dir(".").unwrap().map(|e| e.unwrap()).map(|e| (e.file_name(), e.file_type().unwrap().is_dir(), e.metadata().unwrap().is_file())).collect();
    names.sort();
    println!("read_dir: {:?}", names);
    show("read_dir missing", fs::read_dir("nodir").map(|_| ()));
    show("remove_dir_all", fs::remove_dir_all("dir"));
    show("remove_file", fs::remove_file("d"));
    show("remove missing", fs::remove_file("d"));
    show("rmdir missing", fs::remove_dir("dd"));
    let mut f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open("rw").unwrap();
    show("write_all", f.write_all(b"0123456789"));
    show("seek", f.seek(SeekFrom::Start(3)));
    show("seek end", f.seek(SeekFrom::End(-2)));
    show("position", f.stream_position());
    show("set_len", f.set_len(8));
    show("sync_all", f.sync_all());
    show("sync_data", f.sync_data());
    show("rewind", f.rewind());
    let mut s = String::new();
    show("read", f.read_to_string(&mut s));
    println!("{}", s);
    use std::os::unix::fs::FileExt;
    show("write_at", f.write_at(b"ZZ", 1));
    let mut b = [0; 4];
    show("read_at", f.read_at(&mut b, 0));
    println!("{:?}", b);
    show("metadata of file", f.metadata().map(len));
    show("try_clone", f.try_clone().map(|_| ()));
    show("lock", f.lock());
    show("unlock", f.unlock());
    show("try_lock", f.try_lock().map_err(|e| match e { std::fs::TryLockError::Error(e) => e, _ => io::Error::from(io::ErrorKind::WouldBlock) }));
    let mut p = fs::metadata("rw").unwrap().permissions();
    p.set_readonly(true);
    show("set_permissions", fs::set_permissions("rw", p));
    println!("readonly {}", fs::metadata("rw").unwrap().permissions().readonly());
    show("modified", fs::metadata("rw").unwrap().modified().map(|_| ()));
    show("set_modified", f.set_modified(SystemTime::UNIX_EPOCH));
    let mut ap = OpenOptions::new().append(true).open("a").unwrap();
    show("append", ap.write(b" world"));
    show("vectored", ap.write_vectored(&[io::IoSlice::new(b"12"), io::IoSlice::new(b"34")]));
    let mut w = BufWriter::with_capacity(7, File::create("bw").unwrap());
    for i in 0..20 {
        write!(w, "{} ", i).unwrap();
    }
    show("flush", w.flush());
    let r = BufReader::new(File::open("bw").unwrap());
    for l in r.split(b' ') {
        print!("{}", String::from_utf8(l.unwrap()).unwrap());
    }
    println!();
    let mut w = io::LineWriter::new(File::create("lw").unwrap());
    show("line", w.write_all(b"abc\ndef"));
    drop(w);
    show("lw", fs::read_to_string("lw"));
    show("stdin", io::stdin().read_line(&mut s));
    println!("terminal {}", io::stdin().is_terminal());
    show("cwd", std::env::current_dir().map(|d| d.file_name().unwrap().to_owned()));
    show("exe", std::env::current_exe().map(|d| d.file_name().unwrap().to_owned()));
    show("chdir", fs::create_dir("q").and_then(|_| std::env::set_current_dir("q")));
    show("up", fs::read_to_string("../lw"));
    show("chdir", std::env::set_current_dir(".."));
    println!("temp {:?}", std::env::temp_dir());
    println!("args {}", std::env::args().count());
    println!("var {:?}", std::env::var("SMOKE"));
    println!("var {:?}", std::env::var("NOSUCH"));
}

fn threads() {
    let n = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..5).map(|i| { let n = n.clone(); thread::spawn(move || { n.fetch_add(i, Ordering::SeqCst); i * 2 }) }).collect();
    println!("{:?}", hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>());
    println!("{}", n.load(Ordering::SeqCst));
    let m = Arc::new((Mutex::new(0), Condvar::new()));
    let m2 = m.clone();
    let t = thread::spawn(move || {
        let mut g = m2.0.lock().unwrap();
        while *g < 3 {
            g = m2.1.wait(g).unwrap();
        }
        *g
    });
    for _ in 0..3 {
        *m.0.lock().unwrap() += 1;
        m.1.notify_all();
        thread::yield_now();
    }
    println!("condvar {}", t.join().unwrap());
    let (g, to) = m.1.wait_timeout(m.0.lock().unwrap(), Duration::from_millis(5)).unwrap();
    println!("timeout {} {}", *g, to.timed_out());
    drop(g);
    let (tx, rx) = mpsc::channel();
    for i in 0..4 {
        let tx = tx.clone();
        thread::spawn(move || tx.send(i).unwrap());
    }
    drop(tx);
    println!("sum {}", rx.iter().sum::<i32>());
    let (tx, rx) = mpsc::sync_channel(1);
    let p = thread::spawn(move || for i in 0..10 { tx.send(i).unwrap() });
    println!("sync {:?}", rx.iter().collect::<Vec<i32>>());
    p.join().unwrap();
    let (_tx, rx) = mpsc::channel::<i32>();
    println!("recv_timeout {:?}", rx.recv_timeout(Duration::from_millis(3)));
    let b = Barrier::new(3);
    let leaders: usize = thread::scope(|s| (0..3).map(|_| s.spawn(|| b.wait().is_leader() as usize)).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).sum());
    println!("leaders {}", leaders);
    let rw = RwLock::new(5);
    thread::scope(|s| {
        s.spawn(|| *rw.write().unwrap() += 1);
        s.spawn(|| { let _ = *rw.read().unwrap(); });
    });
    println!("rw {}", *rw.read().unwrap());
    static ONCE: Once = Once::new();
    static CELL: OnceLock<usize> = OnceLock::new();
    let c = AtomicUsize::new(0);
    thread::scope(|s| for _ in 0..4 { s.spawn(|| { ONCE.call_once(|| { c.fetch_add(1, Ordering::SeqCst); }); CELL.get_or_init(|| 7); }); });
    println!("once {} {:?}", c.load(Ordering::SeqCst), CELL.get());
    let t = thread::spawn(|| { thread::park(); 1 });
    t.thread().unpark();
    println!("park {}", t.join().unwrap());
    let t = thread::spawn(|| { thread::park_timeout(Duration::from_millis(2)); 2 });
    println!("park timeout {}", t.join().unwrap());
    let t = thread::Builder::new().name("named".into()).stack_size(1 << 20).spawn(|| thread::current().name().map(str::to_string)).unwrap();
    println!("name {:?}", t.join().unwrap());
    let t = thread::spawn(|| { if true { panic!("expected") } });
    println!("panic {}", t.join().is_err());
    let l = std::sync::LazyLock::new(|| 3);
    println!("lazy {}", *l);
    thread_local!(static TL: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![1; 100]));
    println!("tls {}", thread::spawn(|| TL.with(|t| { t.borrow_mut().push(1); t.borrow().len() })).join().unwrap());
    let mut big: Vec<thread::JoinHandle<usize>> = vec![];
    for i in 0..40 {
        big.push(thread::spawn(move || (0..i).map(|x| vec![0u8; x * 100].len()).sum()));
    }
    println!("many {}", big.into_iter().map(|h| h.join().unwrap()).sum::<usize>());
}

fn time() {
    let a = Instant::now();
    thread::sleep(Duration::from_millis(3));
    println!("slept {}", a.elapsed() >= Duration::from_millis(3));
    println!("clock {}", SystemTime::now() > SystemTime::UNIX_EPOCH);
    println!("monotonic {}", Instant::now() >= a);
    let mut h = HashMap::new();
    for i in 0..100 {
        h.insert(i, i);
    }
    println!("hash {}", h.values().sum::<i32>());
    println!("cpus {}", thread::available_parallelism().is_ok());
    println!("pid {}", std::process::id() > 0);
}

fn memory() {
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..2000usize {
        v.push(vec![i as u8; (i * 7919) % 5000]);
        if i % 3 == 0 {
            let k = (i * 31) % v.len();
            v.swap_remove(k);
        }
        if i % 5 == 0 {
            let k = (i * 17) % v.len();
            let n = v[k].len();
            v[k].resize(n * 2 + 1, 9);
        }
    }
    println!("memory {}", v.iter().map(|x| x.iter().map(|b| *b as usize).sum::<usize>()).sum::<usize>());
    let z = vec![0u64; 3_000_000];
    println!("zeroed {}", z.iter().sum::<u64>());
    #[repr(align(4096))]
    struct Big([u8; 4096]);
    let b = Box::new(Big([7; 4096]));
    println!("aligned {} {}", (&*b as *const Big as usize) % 4096, b.0[5]);
    let mut s = String::new();
    for i in 0..100000 {
        s.push((b'a' + (i % 26) as u8) as char);
    }
    println!("string {}", s.len());
}

fn main() {
    files();
    threads();
    time();
    memory();
    io::stderr().write_all(b"to stderr\n").unwrap();
    let r = std::panic::catch_unwind(|| { let v: Vec<i32> = vec![]; v[0] });
    println!("caught {}", r.is_err());
    print!("no newline at the end");
    if std::env::args().any(|a| a == "fail") {
        std::process::exit(3);
    }
}
