// Finishing a section sets its length field and checksum and keeps the rest.
use mpegts::psi::{Psi, crc32b};

pub fn root_np_new() {
    let table: u8 = nd("table");
    let size: usize = nd("size");
    let version: u8 = nd("version");
    assume(size >= 3 && size <= 64 && version < 32);
    let p = Psi::new(table, size, version);
    claim("a new section has the header length and no size yet", p.buffer.len() == size && p.size == 0);
    claim("a new section starts with the table id and the syntax bits", p.buffer[0] == table && p.buffer[1] == 0xb0);
    let i: usize = nd("i");
    assume(i >= 2 && i < size);
    if i == 5 {
        claim("a new section has the version and is current", p.buffer[i] == 0xc1 + version * 2);
    } else {
        claim("the rest of a new header is zero", p.buffer[i] == 0);
    }
}

pub fn root_np_finalize() {
    let mut p: Psi = nd("psi");
    assume(p.size == 0 && p.buffer.len() >= 3 && p.buffer.len() <= 4094);
    let q = p.clone();
    let n = q.buffer.len();
    p.finalize();
    claim("a finished section is four bytes longer", p.size == n + 4 && p.buffer.len() == n + 4);
    claim("the length field counts the bytes behind it and keeps the flags",
        p.buffer[1] as usize * 256 + p.buffer[2] as usize == q.buffer[1] as usize / 16 * 4096 + n + 1);
    claim("pid and counter stay", p.pid == q.pid && p.cc == q.cc);
    let crc = crc32b(&p.buffer[.. n]);
    let b = &p.buffer;
    claim("the checksum of all bytes in front closes the section",
        b[n] as u64 * 0x1000000 + b[n + 1] as u64 * 0x10000 + b[n + 2] as u64 * 0x100 + b[n + 3] as u64 == crc as u64);
    claim("a finished section passes the check", p.check() || n < 4);
    let i: usize = nd("i");
    assume(i < n && i != 1 && i != 2);
    claim("other bytes stay", p.buffer[i] == q.buffer[i]);
}

pub fn root_np_again() {
    let mut p: Psi = nd("psi");
    assume(p.size >= 4 && p.size <= 4098 && p.buffer.len() >= p.size);
    let q = p.clone();
    p.finalize();
    claim("a sized section keeps its size", p.size == q.size && p.buffer.len() == q.buffer.len());
    claim("a section with corrected bytes passes the check again", p.check() || p.size < 8);
    let i: usize = nd("i");
    assume(i < p.buffer.len() && (i < p.size - 4 || i >= p.size));
    claim("bytes besides the checksum stay", p.buffer[i] == q.buffer[i]);
}
