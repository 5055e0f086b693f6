//! A simulated disk under sqlite: a VFS that serves every path with a component starting with `simdisk-` from memory,
//! records each create, write, truncate, sync and delete, and can make one of them fail. From the record the contents of
//! the files after a crash at any point can be built: after a process crash everything that was written is there, after
//! a power loss what was not yet synced is there in part only.

use pbt::Gen;
use rusqlite::ffi;
use std::{
    collections::{BTreeMap, HashMap},
    ffi::CStr,
    os::raw::{c_char, c_int, c_void},
    sync::{Arc, Mutex, Once, OnceLock},
};

#[derive(Clone)]
pub enum Event {
    Create(String),
    Write(String, usize, Vec<u8>),
    Truncate(String, usize),
    Sync(String),
    Delete(String),
}

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Default)]
pub struct Disk {
    pub files: Files,
    pub log: Vec<Event>,
    /// The events from this count on fail with this code, so many times.
    pub fault: Option<(usize, c_int, usize)>,
    pub faults_hit: usize,
}

impl Disk {
    fn fails(&mut self) -> Option<c_int> {
        if let Some((at, code, times)) = self.fault {
            if self.log.len() >= at && times > 0 {
                self.fault = Some((at, code, times - 1));
                self.faults_hit += 1;
                return Some(code);
            }
        }
        None
    }
}

pub type DiskRef = Arc<Mutex<Disk>>;

fn disks() -> &'static Mutex<HashMap<String, DiskRef>> {
    static DISKS: OnceLock<Mutex<HashMap<String, DiskRef>>> = OnceLock::new();
    DISKS.get_or_init(Default::default)
}

/// The disk of the path (the component that starts with `simdisk-`) and the file name on it.
fn locate(path: &CStr) -> Option<(DiskRef, String)> {
    let p = path.to_str().ok()?;
    let start = p.find("simdisk-")?;
    let rest = &p[start..];
    let (disk, file) = rest.split_once('/')?;
    let d = disks().lock().unwrap().get(disk).cloned()?;
    Some((d, file.to_owned()))
}

/// Puts a disk with these files under the name; forget it with [`remove`].
pub fn insert(name: &str, files: Files) -> DiskRef {
    register();
    let d = Arc::new(Mutex::new(Disk { files, ..Default::default() }));
    disks().lock().unwrap().insert(name.to_owned(), Arc::clone(&d));
    d
}

pub fn remove(name: &str) {
    disks().lock().unwrap().remove(name);
}

fn put(files: &mut Files, name: &str, off: usize, data: &[u8]) {
    let f = files.entry(name.to_owned()).or_default();
    if f.len() < off + data.len() {
        f.resize(off + data.len(), 0);
    }
    f[off..off + data.len()].copy_from_slice(data);
}

fn apply(files: &mut Files, e: &Event) {
    match e {
        Event::Create(n) => {
            files.entry(n.clone()).or_default();
        }
        Event::Write(n, off, data) => put(files, n, *off, data),
        Event::Truncate(n, len) => {
            if let Some(f) = files.get_mut(n) {
                f.resize(*len, 0);
            }
        }
        Event::Sync(_) => (),
        Event::Delete(n) => {
            files.remove(n);
        }
    }
}

/// What is on the disk after the process dies once `log` has happened.
pub fn after_process_crash(start: &Files, log: &[Event]) -> Files {
    let mut files = start.clone();
    log.iter().for_each(|e| apply(&mut files, e));
    files
}

/// What may be on the disk after the power fails once `log` has happened: of what was done to a file since its last
/// sync each 512-byte sector may be missing. (A deletion is taken to be on the disk at once.)
pub fn after_power_loss(g: &mut Gen, start: &Files, log: &[Event]) -> Files {
    let mut last_sync: HashMap<&str, usize> = HashMap::new();
    for (i, e) in log.iter().enumerate() {
        if let Event::Sync(n) = e {
            last_sync.insert(n, i);
        }
    }
    // all of the unsynced lost, all kept, or some
    let style = g.below(4);
    let mut files = start.clone();
    for (i, e) in log.iter().enumerate() {
        let synced = |n: &str| last_sync.get(n).is_some_and(|s| *s > i);
        match e {
            Event::Delete(_) | Event::Sync(_) => apply(&mut files, e),
            Event::Create(n) | Event::Truncate(n, _) if synced(n) => apply(&mut files, e),
            Event::Write(n, _, _) if synced(n) => apply(&mut files, e),
            Event::Create(_) | Event::Truncate(_, _) => {
                if style == 1 || (style >= 2 && g.bool()) {
                    apply(&mut files, e)
                }
            }
            Event::Write(n, off, data) => {
                if style == 1 {
                    apply(&mut files, e)
                } else if style >= 2 && files.contains_key(n) {
                    let mut at = 0;
                    let all = g.below(3);
                    while at < data.len() {
                        let end = data.len().min((off + at) / 512 * 512 + 512 - off);
                        if all == 0 || (all == 1 && g.bool()) {
                            put(&mut files, n, off + at, &data[at..end]);
                        }
                        at = end;
                    }
                }
            }
        }
    }
    files
}

// ---- the VFS

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    state: *mut (DiskRef, String),
}

unsafe fn st<'a>(f: *mut ffi::sqlite3_file) -> &'a (DiskRef, String) {
    &*(*(f as *mut SimFile)).state
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    drop(Box::from_raw((*(f as *mut SimFile)).state));
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let (d, name) = st(f);
    let d = d.lock().unwrap();
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let empty = vec![];
    let data = d.files.get(name).unwrap_or(&empty);
    let from = data.len().min(off as usize);
    let to = data.len().min(off as usize + out.len());
    out.fill(0);
    out[..to - from].copy_from_slice(&data[from..to]);
    if to - from < out.len() {
        ffi::SQLITE_IOERR_SHORT_READ
    } else {
        ffi::SQLITE_OK
    }
}
unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let (d, name) = st(f);
    let mut d = d.lock().unwrap();
    if let Some(code) = d.fails() {
        return if code == ffi::SQLITE_IOERR { ffi::SQLITE_IOERR_WRITE } else { code };
    }
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize).to_vec();
    put(&mut d.files, name, off as usize, &data);
    d.log.push(Event::Write(name.clone(), off as usize, data));
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, len: i64) -> c_int {
    let (d, name) = st(f);
    let mut d = d.lock().unwrap();
    if d.fails().is_some() {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    let e = Event::Truncate(name.clone(), len as usize);
    apply(&mut d.files, &e);
    d.log.push(e);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let (d, name) = st(f);
    let mut d = d.lock().unwrap();
    if d.fails().is_some() {
        return ffi::SQLITE_IOERR_FSYNC;
    }
    d.log.push(Event::Sync(name.clone()));
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let (d, name) = st(f);
    *out = d.lock().unwrap().files.get(name).map_or(0, |x| x.len()) as i64;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_lock(_: *mut ffi::sqlite3_file, _: c_int) -> c_int {
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_check(_: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    *out = 0;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_control(_: *mut ffi::sqlite3_file, _: c_int, _: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_: *mut ffi::sqlite3_file) -> c_int {
    4096
}
unsafe extern "C" fn x_device(_: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_lock),
    xCheckReservedLock: Some(x_check),
    xFileControl: Some(x_control),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
};

unsafe fn orig(v: *mut ffi::sqlite3_vfs) -> *mut ffi::sqlite3_vfs {
    (*v).pAppData as *mut ffi::sqlite3_vfs
}

unsafe extern "C" fn v_open(
    v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    f: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let here = if name.is_null() { None } else { locate(CStr::from_ptr(name)) };
    let Some((d, file)) = here else {
        let o = orig(v);
        return (*o).xOpen.unwrap()(o, name, f, flags, out);
    };
    {
        let mut disk = d.lock().unwrap();
        if !disk.files.contains_key(&file) {
            if flags & ffi::SQLITE_OPEN_CREATE == 0 {
                (*f).pMethods = std::ptr::null();
                return ffi::SQLITE_CANTOPEN;
            }
            if disk.fails().is_some() {
                (*f).pMethods = std::ptr::null();
                return ffi::SQLITE_CANTOPEN;
            }
            let e = Event::Create(file.clone());
            apply(&mut disk.files, &e);
            disk.log.push(e);
        }
    }
    let sf = f as *mut SimFile;
    (*sf).state = Box::into_raw(Box::new((d, file)));
    (*sf).base.pMethods = &METHODS;
    if !out.is_null() {
        *out = flags;
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_delete(v: *mut ffi::sqlite3_vfs, name: *const c_char, sync: c_int) -> c_int {
    let Some((d, file)) = locate(CStr::from_ptr(name)) else {
        let o = orig(v);
        return (*o).xDelete.unwrap()(o, name, sync);
    };
    let mut disk = d.lock().unwrap();
    if !disk.files.contains_key(&file) {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    if disk.fails().is_some() {
        return ffi::SQLITE_IOERR_DELETE;
    }
    let e = Event::Delete(file);
    apply(&mut disk.files, &e);
    disk.log.push(e);
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_access(v: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let Some((d, file)) = locate(CStr::from_ptr(name)) else {
        let o = orig(v);
        return (*o).xAccess.unwrap()(o, name, flags, out);
    };
    *out = c_int::from(d.lock().unwrap().files.contains_key(&file));
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_full(v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let o = orig(v);
    (*o).xFullPathname.unwrap()(o, name, n, out)
}
unsafe extern "C" fn v_random(v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let o = orig(v);
    (*o).xRandomness.unwrap()(o, n, out)
}
unsafe extern "C" fn v_sleep(v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    let o = orig(v);
    (*o).xSleep.unwrap()(o, us)
}
unsafe extern "C" fn v_time(v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    let o = orig(v);
    (*o).xCurrentTime.unwrap()(o, out)
}
unsafe extern "C" fn v_error(v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let o = orig(v);
    (*o).xGetLastError.unwrap()(o, n, out)
}

fn register() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let o = ffi::sqlite3_vfs_find(std::ptr::null());
        assert!(!o.is_null());
        let mut v = *o;
        v.iVersion = 1;
        v.szOsFile = v.szOsFile.max(std::mem::size_of::<SimFile>() as c_int);
        v.pNext = std::ptr::null_mut();
        v.zName = c"simdisk".as_ptr();
        v.pAppData = o as *mut c_void;
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        v.xAccess = Some(v_access);
        v.xFullPathname = Some(v_full);
        v.xRandomness = Some(v_random);
        v.xSleep = Some(v_sleep);
        v.xCurrentTime = Some(v_time);
        v.xGetLastError = Some(v_error);
        v.xDlOpen = None;
        let rc = ffi::sqlite3_vfs_register(Box::into_raw(Box::new(v)), 1);
        assert_eq!(rc, ffi::SQLITE_OK);
    });
}
