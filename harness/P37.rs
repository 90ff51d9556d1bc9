// Packets read from a byte stream.
use mpegts::reader::{TsRead, TsReader};
use mpegts::ts;
use std::fmt;
use std::io::{self, Read};

/// A stream that gives its bytes in pieces of arbitrary size.
struct Source { data: Vec<u8>, pos: usize }

impl fmt::Debug for Source {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        if left == 0 || buf.len() == 0 { return Ok(0); }
        let n: usize = nd("piece");
        assume(n >= 1 && n <= left && n <= buf.len());
        buf[.. n].copy_from_slice(&self.data[self.pos .. self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn source() -> Source {
    let s = Source { data: nd("data"), pos: nd("pos") };
    assume(s.data.len() < 0x1000_0000 && s.pos <= s.data.len());
    s
}

pub fn root_np_packet() {
    let s = source();
    let at = s.pos;
    let mut r = TsReader::new(s);
    let mut buf: Vec<u8> = nd("buffer");
    assume(buf.len() >= 188 && buf.len() < 0x1000_0000);
    let before = buf.clone();
    let x = r.read(&mut buf);
    claim("a stream without errors gives none", x.is_ok());
    let x = x.unwrap();
    let s = r.into_inner();
    claim("a whole packet is read or nothing", x == 188 || x == 0);
    claim("bytes behind the packet are left alone", buf[188 ..] == before[188 ..]);
    if x == 0 {
        claim("nothing is read only at the end of the stream", s.pos == s.data.len());
    } else {
        claim("a packet begins with the sync byte", buf[0] == 0x47 && ts::is_sync(&buf));
        claim("the stream stands behind the packet", s.pos >= at + 188);
        let k = s.pos - 188;
        claim("a packet is 188 bytes in a row", buf[.. 188] == s.data[k .. k + 188]);
        let j: usize = nd("j");
        assume(j >= at && j < k);
        claim("bytes skipped are not sync bytes", s.data[j] != 0x47);
    }
}

pub fn root_np_aligned() {
    let s = source();
    assume(s.data.len() >= s.pos + 376 && s.data[s.pos] == 0x47 && s.data[s.pos + 188] == 0x47);
    let at = s.pos;
    let mut r = TsReader::new(s);
    let mut a = [0u8; 188];
    let mut b = [0u8; 188];
    let x = r.read(&mut a);
    claim("first packet of a stream", x.is_ok() && x.unwrap() == 188);
    claim("reference to the stream", r.get_ref().pos == at + 188 && r.get_mut().pos == at + 188);
    let x = r.read(&mut b);
    claim("second packet of a stream", x.is_ok() && x.unwrap() == 188);
    let s = r.into_inner();
    claim("two packets are read and nothing between them lost", s.pos == at + 376 && a[..] == s.data[at .. at + 188] && b[..] == s.data[at + 188 .. at + 376]);
}

/// A stream that breaks after some bytes.
struct Broken { left: usize }

impl fmt::Debug for Broken {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl Read for Broken {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 { return Err(nd("error")); }
        self.left -= 1;
        let n: usize = nd("piece");
        assume(n <= buf.len());
        havoc(&mut buf[.. n], "bytes");
        Ok(n)
    }
}

pub fn root_np_broken() {
    let n: usize = nd("calls");
    assume(n < 3);
    let mut r = TsReader::new(Broken { left: n });
    let mut buf = [0u8; 188];
    let x = r.read(&mut buf);
    claim("an error of the stream is given on", x.is_err() || x.unwrap() == 0 || r.get_ref().left < n);
    if n == 0 { claim("an error at once", r.read(&mut buf).is_err()); }
}

/// A short stream: some other bytes and one packet.
fn short(junk: &[u8]) -> Source {
    let mut data = Vec::new();
    data.extend_from_slice(junk);
    data.push(0x47);
    data.extend_from_slice(&[0x1f; 187]);
    Source { data, pos: 0 }
}

pub fn root_np_only() {
    let mut r = TsReader::new(short(&[]));
    let mut a = [0u8; 188];
    let x = r.read(&mut a);
    claim("the only packet of a stream", x.is_ok() && x.unwrap() == 188);
    claim("bytes of the only packet", a[0] == 0x47 && a[1] == 0x1f && a[187] == 0x1f);
    let x = r.read(&mut a);
    claim("nothing behind the only packet", x.is_ok() && x.unwrap() == 0);
}

pub fn root_np_junk() {
    let j: Vec<u8> = vec![0x46, 0x00, 0xff];
    let mut r = TsReader::new(short(&j));
    let mut a = [0u8; 188];
    let x = r.read(&mut a);
    claim("a packet behind other bytes", x.is_ok() && x.unwrap() == 188);
    claim("bytes of a packet behind other bytes", a[0] == 0x47 && a[1] == 0x1f && a[187] == 0x1f);
}

pub fn root_np_short() {
    // a packet that the end of the stream cuts off
    let mut r = TsReader::new(Source { data: vec![0x47, 1, 2, 3], pos: 0 });
    let mut a = [0u8; 188];
    let x = r.read(&mut a);
    claim("a packet that is cut off is not given", x.is_ok() && x.unwrap() == 0);
}

/// A stream that gives a fixed number of bytes at once.
struct Steady { data: Vec<u8>, pos: usize, step: usize }

impl fmt::Debug for Steady {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl Read for Steady {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = if self.step < left { self.step } else { left };
        let n = if n < buf.len() { n } else { buf.len() };
        buf[.. n].copy_from_slice(&self.data[self.pos .. self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Two packets of arbitrary bytes behind other bytes.
fn steady(junk: usize, step: usize) {
    let a: [u8; 187] = nd("first");
    let b: [u8; 187] = nd("second");
    let mut data = vec![0x46; junk];
    data.push(0x47);
    data.extend_from_slice(&a);
    data.push(0x47);
    data.extend_from_slice(&b);
    let mut r = TsReader::new(Steady { data, pos: 0, step });
    let mut buf = [0u8; 188];
    let x = r.read(&mut buf);
    claim("a packet is found behind any number of bytes, however slow they come", x.is_ok() && x.unwrap() == 188);
    claim("the packet is the one in the stream", buf[0] == 0x47 && buf[1 ..] == a[..]);
    let x = r.read(&mut buf);
    claim("another packet is read behind it", x.is_ok() && x.unwrap() == 188 && buf[0] == 0x47 && buf[1 ..] == b[..]);
    let x = r.read(&mut buf);
    claim("nothing is read behind the last packet", x.is_ok() && x.unwrap() == 0);
}

pub fn root_np_slow() { steady(0, 1) }
pub fn root_np_slow_junk() { steady(400, 1) }
pub fn root_np_far() { steady(3000, 188) }
pub fn root_np_pairs() { steady(1, 2) }
