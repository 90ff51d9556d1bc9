// Bytes drained from a packet reader.
use mpegts::reader::{TsRead, TsDrain};
use std::fmt;
use std::io::{self, Read};

/// Packets one after the other.
struct Packets<'a> { data: &'a [u8], pos: &'a mut usize }

impl<'a> fmt::Debug for Packets<'a> {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl<'a> TsRead for Packets<'a> {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        claim("a packet reader is given room for a packet", packet.len() >= 188);
        if *self.pos == self.data.len() { return Ok(0); }
        packet[.. 188].copy_from_slice(&self.data[*self.pos .. *self.pos + 188]);
        *self.pos += 188;
        Ok(188)
    }
}

fn packets() -> Vec<u8> {
    let d: Vec<u8> = nd("packets");
    let n: usize = nd("count");
    assume(n < 0x10_0000 && d.len() == 188 * n);
    d
}

pub fn root_np_order() {
    let d = packets();
    let mut pos = 0;
    let mut r = TsDrain::new(Packets { data: &d, pos: &mut pos });
    let mut all: Vec<u8> = Vec::new();
    for _ in 0 .. 3 {
        let n: usize = nd("size");
        assume(n < 0x1000_0000);
        let mut b = vec![0u8; n];
        let x = r.read(&mut b);
        claim("draining packets gives no errors", x.is_ok());
        let x = x.unwrap();
        claim("no more is given than there is room for", x <= n);
        claim("nothing is given only at the end or without room", x > 0 || n == 0 || all.len() == d.len());
        all.extend_from_slice(&b[.. x]);
        claim("bytes behind what is given are left alone", x >= n || x >= 188 || b[n - 1] == 0);
        claim("bytes are those of the packets in order", all.len() <= d.len() && all[..] == d[.. all.len()]);
    }
}

pub fn root_np_whole() {
    let d = packets();
    assume(d.len() >= 188);
    let mut pos = 0;
    let n: usize = nd("size");
    assume(n >= 188 && n < 0x1000_0000);
    let mut b = vec![0u8; n];
    let x = TsDrain::new(Packets { data: &d, pos: &mut pos }).read(&mut b);
    claim("a packet that fits is given at once", x.is_ok() && x.unwrap() == 188 && b[.. 188] == d[.. 188]);
    claim("one packet is taken", pos == 188);
}

pub fn root_np_split() {
    let d = packets();
    assume(d.len() >= 188);
    let n: usize = nd("size");
    assume(n > 0 && n < 188);
    let mut pos = 0;
    let mut a = vec![0u8; n];
    let mut b = vec![0u8; 1000];
    let mut r = TsDrain::new(Packets { data: &d, pos: &mut pos });
    let x = r.read(&mut a);
    claim("as much of a packet is given as fits", x.is_ok() && x.unwrap() == n && a[..] == d[.. n]);
    let x = r.read(&mut b);
    claim("then comes the rest of the packet", x.is_ok() && x.unwrap() == 188 - n && b[.. 188 - n] == d[n .. 188]);
    claim("the rest takes no other packet", pos == 188);
}

/// A reader that breaks.
struct Broken;

impl fmt::Debug for Broken {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl TsRead for Broken {
    fn read(&mut self, _packet: &mut [u8]) -> io::Result<usize> { Err(nd("error")) }
}

pub fn root_np_error() {
    let n: usize = nd("size");
    assume(n > 0 && n < 0x1000_0000);
    let mut b = vec![0u8; n];
    claim("errors of the reader are given on", TsDrain::new(Broken).read(&mut b).is_err());
}
