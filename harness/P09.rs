// A break in the continuity counter never joins bytes of different sections.
use mpegts::psi::Psi;

fn state() -> Psi {
    let p: Psi = nd("psi");
    assume(p.cc < 16);
    p
}

fn packet() -> Vec<u8> {
    let t: Vec<u8> = nd("ts");
    assume(t.len() == 188);
    assume(t[3] / 16 % 2 == 1);
    t
}

fn offset(t: &[u8]) -> usize { if t[3] / 32 % 2 == 1 { 5 + t[4] as usize } else { 4 } }

pub fn root_gap() {
    let mut p = state();
    let t = packet();
    assume(t[1] / 64 % 2 == 0 && t[3] % 16 != (p.cc + 1) % 16);
    p.mux(&t);
    claim("a continuation out of sequence discards the section", p.buffer.len() == 0 && p.size == 0);
}

pub fn root_gap_at_start() {
    let mut p = state();
    let t = packet();
    let off = offset(&t);
    assume(off < 188);
    let from = off + 1 + t[off] as usize;
    assume(t[1] / 64 % 2 == 1 && t[3] % 16 != (p.cc + 1) % 16);
    p.mux(&t);
    if from < 188 {
        claim("after a gap only bytes of the new section are held", p.buffer.len() <= 188 - from);
        let i: usize = nd("i");
        assume(i < p.buffer.len());
        claim("after a gap the section begins behind the pointer", p.buffer[i] == t[from + i]);
        claim("after a gap the counter is taken from the packet", p.cc == t[3] % 16);
    } else {
        claim("after a gap a bad pointer leaves nothing", p.buffer.len() == 0 && p.size == 0);
    }
}

pub fn root_stray() {
    let mut p = state();
    assume(p.buffer.len() == 0 && p.size == 0);
    let t = packet();
    assume(t[1] / 64 % 2 == 0);
    p.mux(&t);
    claim("a continuation without a section start is ignored", p.buffer.len() == 0 && p.size == 0);
}

pub fn root_no_room() {
    let mut p = state();
    let t = packet();
    assume(offset(&t) >= 188);
    p.mux(&t);
    claim("a packet without room for payload discards the section", p.buffer.len() == 0 && p.size == 0);
}
