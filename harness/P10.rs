// A section is accepted exactly when it is complete and its checksum matches.
use mpegts::psi::{Psi, crc32b};

pub fn root_np_check() {
    let p: Psi = nd("psi");
    let ok = p.check();
    if p.size > 7 && p.buffer.len() >= p.size {
        let n = p.size - 4;
        let b = &p.buffer;
        let stored = b[n] as u32 * 0x1000000 + b[n + 1] as u32 * 0x10000 + b[n + 2] as u32 * 0x100 + b[n + 3] as u32;
        claim("a complete section is accepted exactly when its checksum matches", ok == (stored == crc32b(&b[.. n])));
        if ok { reach("some section is accepted"); } else { reach("some section is rejected"); }
    } else {
        claim("an incomplete section or one without room for a checksum is rejected", !ok);
    }
}
