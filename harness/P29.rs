// Big-endian access to byte slices.
use mpegts::bytes::Bytes;

pub fn root_np_get() {
    let b: &[u8] = nd("bytes");
    if b.len() >= 2 {
        claim("16 bits, most significant byte first", b.get_u16() as u64 == b[0] as u64 * 256 + b[1] as u64);
    }
    if b.len() >= 3 {
        claim("24 bits, most significant byte first", b.get_u24() as u64 == b[0] as u64 * 65536 + b[1] as u64 * 256 + b[2] as u64);
    }
    if b.len() >= 4 {
        claim("32 bits, most significant byte first",
            b.get_u32() as u64 == b[0] as u64 * 0x1000000 + b[1] as u64 * 65536 + b[2] as u64 * 256 + b[3] as u64);
    }
}

pub fn root_np_set_u16() {
    let mut b: Vec<u8> = nd("bytes");
    assume(b.len() >= 2);
    let e = b.clone();
    let v: u16 = nd("v");
    b[..].set_u16(v);
    claim("16 bits written, most significant byte first", b[0] as u16 == v / 256 && b[1] as u16 == v % 256);
    claim("16 bits written are read back", b[..].get_u16() == v);
    claim("bytes behind 16 bits stay", b.len() == e.len() && b[2 ..] == e[2 ..]);
}

pub fn root_np_set_u24() {
    let mut b: Vec<u8> = nd("bytes");
    assume(b.len() >= 3);
    let e = b.clone();
    let v: u32 = nd("v");
    b[..].set_u24(v);
    claim("24 bits written, most significant byte first", b[0] as u32 == v / 65536 % 256 && b[1] as u32 == v / 256 % 256 && b[2] as u32 == v % 256);
    claim("24 bits written are read back", b[..].get_u24() == v % 0x1000000);
    claim("bytes behind 24 bits stay", b.len() == e.len() && b[3 ..] == e[3 ..]);
}

pub fn root_np_set_u32() {
    let mut b: Vec<u8> = nd("bytes");
    assume(b.len() >= 4);
    let e = b.clone();
    let v: u32 = nd("v");
    b[..].set_u32(v);
    claim("32 bits written, most significant byte first",
        b[0] as u32 == v / 0x1000000 && b[1] as u32 == v / 65536 % 256 && b[2] as u32 == v / 256 % 256 && b[3] as u32 == v % 256);
    claim("32 bits written are read back", b[..].get_u32() == v);
    claim("bytes behind 32 bits stay", b.len() == e.len() && b[4 ..] == e[4 ..]);
}
