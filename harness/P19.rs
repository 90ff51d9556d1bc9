// The checksum of sections is the CRC-32 of ISO 13818-1 Annex A.
use mpegts::psi::crc32b;

/// The remainder of eight more bits, by the generator polynomial.
const fn entry(i: u32) -> u32 {
    let mut c = i << 24;
    let mut k = 0;
    while k < 8 {
        c = if c >> 31 == 1 { c << 1 ^ 0x04c1_1db7 } else { c << 1 };
        k += 1;
    }
    c
}

const fn entries() -> [u32; 256] {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = entry(i as u32);
        i += 1;
    }
    t
}

const T: [u32; 256] = entries();

fn step(c: u32, b: u8) -> u32 { T[(c >> 24 ^ b as u32) as usize] ^ c << 8 }

pub fn root_np_each_byte() {
    for b in 0 ..= 255u8 {
        claim("checksum of every single byte", crc32b(&[b]) == step(0xffff_ffff, b));
        claim("checksum of every byte behind another", crc32b(&[!b, b]) == step(step(0xffff_ffff, !b), b));
    }
}

pub fn root_np_empty() {
    let e: [u8; 0] = [];
    claim("checksum of nothing", crc32b(&e) == 0xffff_ffff);
}

pub fn root_np_any() {
    let d: Vec<u8> = nd("data");
    assume(d.len() <= 6);
    let mut c = 0xffff_ffff;
    for i in 0 .. d.len() { c = step(c, d[i]); }
    claim("checksum of any few bytes", crc32b(&d) == c);
    claim("checksum of a part", d.len() < 2 || crc32b(&d[1 .. 2]) == step(0xffff_ffff, d[1]));
}

pub fn root_np_long() {
    let d: Vec<u8> = nd("data");
    let _ = crc32b(&d);
    reach("any number of bytes has a checksum");
}

pub fn root_np_closed() {
    // a message followed by its checksum has the remainder zero
    for b in 0 ..= 255u8 {
        let c = crc32b(&[b]);
        let z = crc32b(&[b, (c >> 24) as u8, (c >> 16) as u8, (c >> 8) as u8, c as u8]);
        claim("a message with its checksum has the remainder zero", z == 0);
    }
}

pub fn root_np_more() {
    let d: Vec<u8> = nd("data");
    assume(d.len() == 100);
    let mut c = 0xffff_ffff;
    for i in 0 .. 100 { c = step(c, d[i]); }
    claim("checksum of many bytes", crc32b(&d) == c);
}

pub fn root_np_pattern() {
    let mut d = Vec::new();
    let mut c = 0xffff_ffff;
    for i in 0 .. 400u32 {
        let b = (i * 7 + i / 37) as u8;
        claim("checksum of a growing message", i % 50 > 1 || crc32b(&d) == c);
        d.push(b);
        c = step(c, b);
    }
}

pub fn root_np_section() {
    // as long as the longest section
    let mut d = Vec::new();
    let mut c = 0xffff_ffff;
    for i in 0 .. 4093u32 {
        if i == 512 || i == 1021 || i == 2047 || i == 4092 { claim("checksum of a long message", crc32b(&d) == c); }
        let b = (i * 11 + i / 29) as u8;
        d.push(b);
        c = step(c, b);
    }
}

pub fn root_np_beyond() {
    // longer than any section
    let mut d = Vec::new();
    let mut c = 0xffff_ffff;
    for i in 0 .. 5000u32 {
        let b = (i * 13 + i / 31) as u8;
        d.push(b);
        c = step(c, b);
    }
    claim("checksum of a message longer than a section", crc32b(&d) == c);
}
