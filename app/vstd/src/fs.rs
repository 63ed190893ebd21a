pub use std::fs::*;
use crate::rt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct File {
    f: std::fs::File,
    path: PathBuf,
}

fn key(p: &Path) -> PathBuf {
    p.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect()
}

/// Before a mutation other than appending bytes: either it happens, or the crash comes first.
fn mutation(p: &Path, what: &'static str) -> bool {
    if rt::file_op(&key(p), what, 0).is_some() {
        rt::crash();
    }
    !(rt::aborting() && rt::me() != usize::MAX)
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let f = std::fs::File::open(p.as_ref())?;
        Ok(File { f, path: key(p.as_ref()) })
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        if mutation(&self.path, "set_len") {
            self.f.set_len(n)
        } else {
            Ok(())
        }
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        self.f.metadata()
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File { f: self.f.try_clone()?, path: self.path.clone() })
    }
}
fn do_write(file: &File, buf: &[u8]) -> io::Result<usize> {
    if buf.is_empty() {
        return Ok(0);
    }
    vhook::touch();
    let chop = vhook::CHOP.load(std::sync::atomic::Ordering::Relaxed);
    let buf = if chop > 0 && buf.len() > chop { &buf[..chop] } else { buf };
    let torn = rt::file_op(&file.path, "write", buf.len());
    if rt::aborting() && rt::me() != usize::MAX {
        return Ok(buf.len());
    }
    match torn {
        None => (&file.f).write(buf),
        Some(n) => {
            let _ = (&file.f).write_all(&buf[..n]);
            rt::crash();
        }
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        do_write(self, buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        do_write(self, buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.f.read(buf)
    }
}
impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (&self.f).read(buf)
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.f.seek(p)
    }
}
impl Seek for &File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        (&self.f).seek(p)
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions {
    o: std::fs::OpenOptions,
    mutates: bool,
    create: bool,
}
impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions { o: std::fs::OpenOptions::new(), mutates: false, create: false }
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.o.read(b);
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.o.write(b);
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.o.append(b);
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.o.truncate(b);
        self.mutates |= b;
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.o.create(b);
        self.create |= b;
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.o.create_new(b);
        self.create |= b;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = p.as_ref();
        if self.mutates || (self.create && !p.exists()) {
            if !mutation(p, "create") {
                // the execution is over: hand out something harmless
                return Ok(File { f: std::fs::OpenOptions::new().write(true).read(true).open("/dev/null")?, path: key(p) });
            }
        }
        Ok(File { f: self.o.open(p)?, path: key(p) })
    }
}

pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    let mut f = File::create(p)?;
    f.write_all(c.as_ref())
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if mutation(b.as_ref(), "rename") {
        std::fs::rename(a, b)
    } else {
        Ok(())
    }
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let data = std::fs::read(a)?;
    write(b, &data)?;
    Ok(data.len() as u64)
}
pub fn remove_file<P: AsRef<Path>>(a: P) -> io::Result<()> {
    if mutation(a.as_ref(), "remove") {
        std::fs::remove_file(a)
    } else {
        Ok(())
    }
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if mutation(b.as_ref(), "link") {
        std::fs::hard_link(a, b)
    } else {
        Ok(())
    }
}
