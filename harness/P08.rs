// Section reassembly: what one packet does to the collected bytes, from any reachable state.
use mpegts::psi::Psi;

fn state() -> Psi {
    let p: Psi = nd("psi");
    assume(p.cc < 16);
    assume(wellformed(&p));
    p
}

/// Invariant of the collector: fewer than three bytes while the length is unknown, and never more
/// than the longest section and two packets otherwise.
fn wellformed(p: &Psi) -> bool {
    if p.size == 0 {
        p.buffer.len() < 3
    } else {
        p.size >= 3 && p.size <= 4098 && p.buffer.len() >= 3 && p.buffer.len() <= 4095 + 188 + 183
            && p.size == 3 + (p.buffer[1] as usize % 16) * 256 + p.buffer[2] as usize
    }
}

fn packet() -> Vec<u8> {
    let t: Vec<u8> = nd("ts");
    assume(t.len() == 188);
    t
}

fn offset(t: &[u8]) -> usize { if t[3] / 32 % 2 == 1 { 5 + t[4] as usize } else { 4 } }

pub fn root_np_invariant() {
    let mut p = state();
    let t = packet();
    p.mux(&t);
    claim("the collector stays well formed and bounded", wellformed(&p));
    claim("the continuity counter stays in range", p.cc < 16);
}

pub fn root_np_fresh() {
    let p = Psi::default();
    claim("a new collector is empty", p.buffer.len() == 0 && p.size == 0 && p.cc < 16);
}

pub fn root_np_no_payload() {
    let mut p = state();
    let q = p.clone();
    let t = packet();
    assume(t[3] / 16 % 2 == 0);
    p.mux(&t);
    claim("a packet without payload changes nothing", p.size == q.size && p.cc == q.cc && p.buffer == q.buffer);
}

pub fn root_np_start() {
    let mut p = state();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 1 && off < 188);
    assume(t[off] == 0);
    assume(off + 4 <= 188);
    p.mux(&t);
    let body = &t[off + 1 ..];
    let size = 3 + (body[1] as usize % 16) * 256 + body[2] as usize;
    claim("a section start declares its size", p.size == size);
    claim("a section start keeps the bytes of the packet up to its size", p.buffer.len() == if size < body.len() { size } else { body.len() });
    let i: usize = nd("i");
    assume(i < p.buffer.len());
    claim("the collected bytes are the payload after the pointer", p.buffer[i] == body[i]);
    claim("the counter of the packet is remembered", p.cc == t[3] % 16);
}

pub fn root_np_start_short() {
    let mut p = state();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 1 && off < 188);
    assume(t[off] == 0);
    assume(off + 4 > 188);
    p.mux(&t);
    claim("a partial header is kept without a size", p.size == 0 && p.buffer.len() == 187 - off);
}

pub fn root_np_pointer() {
    // nothing in progress: the section begins behind the pointer
    let mut p = Psi::default();
    p.cc = nd("cc");
    assume(p.cc < 16);
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 1 && off < 188);
    let from = off + 1 + t[off] as usize;
    p.mux(&t);
    if from >= 188 {
        claim("a pointer past the packet gives nothing", p.buffer.len() == 0 && p.size == 0);
    } else if from + 3 <= 188 {
        let size = 3 + (t[from + 1] as usize % 16) * 256 + t[from + 2] as usize;
        claim("the section behind the pointer declares its size", p.size == size);
        claim("the section behind the pointer is collected up to its size", p.buffer.len() == if size < 188 - from { size } else { 188 - from });
        let i: usize = nd("i");
        assume(i < p.buffer.len());
        claim("the section behind the pointer is collected from its first byte", p.buffer[i] == t[from + i]);
    }
}

pub fn root_np_continue() {
    // a section in progress and the next packet in sequence
    let mut p = state();
    let q = p.clone();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 0 && off < 188 && t[3] % 16 == (q.cc + 1) % 16);
    assume(q.buffer.len() > 0 && q.size > 0 && q.buffer.len() <= q.size);
    p.mux(&t);
    claim("continuation keeps the declared size", p.size == q.size);
    claim("continuation appends the payload up to the size", p.buffer.len() == if q.buffer.len() + 188 - off < q.size { q.buffer.len() + 188 - off } else { q.size });
    let i: usize = nd("i");
    assume(i < p.buffer.len());
    claim("continuation keeps the bytes collected before", i >= q.buffer.len() || p.buffer[i] == q.buffer[i]);
    claim("continuation adds the payload bytes in order", i < q.buffer.len() || p.buffer[i] == t[off + i - q.buffer.len()]);
    claim("the counter advances", p.cc == t[3] % 16);
}

pub fn root_np_continue_header() {
    // the header itself is split over packets
    let mut p = state();
    let q = p.clone();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 0 && off < 188 && t[3] % 16 == (q.cc + 1) % 16);
    assume(q.buffer.len() > 0 && q.size == 0);
    p.mux(&t);
    let n = q.buffer.len() + 188 - off;
    if n < 3 {
        claim("a still partial header is kept", p.size == 0 && p.buffer.len() == n);
    } else {
        claim("a completed header declares the size", p.size == 3 + (p.buffer[1] as usize % 16) * 256 + p.buffer[2] as usize);
        claim("a completed header keeps the bytes up to the size", p.buffer.len() == if n < p.size { n } else { p.size });
    }
    let i: usize = nd("i");
    assume(i < p.buffer.len());
    claim("header bytes are kept in order", p.buffer[i] == if i < q.buffer.len() { q.buffer[i] } else { t[off + i - q.buffer.len()] });
}

pub fn root_np_tail_and_next() {
    // the end of one section and the start of the next in one packet
    let mut p = state();
    let q = p.clone();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && t[1] / 64 % 2 == 1 && off < 188 && t[3] % 16 == (q.cc + 1) % 16);
    let ptr = t[off] as usize;
    assume(ptr > 0 && off + 1 + ptr < 188);
    assume(q.size > 0 && q.buffer.len() > 0 && q.buffer.len() <= q.size);
    p.mux(&t);
    claim("the section in progress keeps its size", p.size == q.size);
    claim("the bytes before and after the pointer are kept", p.buffer.len() == q.buffer.len() + 187 - off);
    let i: usize = nd("i");
    assume(i < p.buffer.len());
    claim("the tail of the section follows the bytes collected before",
        p.buffer[i] == if i < q.buffer.len() { q.buffer[i] } else { t[off + 1 + i - q.buffer.len()] });
}

pub fn root_np_next_section() {
    // a completed section followed by the start of another one: the next packet in sequence continues the latter
    let mut p = state();
    let q = p.clone();
    let t = packet();
    let off = offset(&t);
    assume(t[3] / 16 % 2 == 1 && off < 188 && t[3] % 16 == (q.cc + 1) % 16);
    assume(q.size > 0 && q.buffer.len() > q.size && q.buffer.len() <= q.size + 183);
    let pusi = t[1] / 64 % 2 == 1;
    if pusi { assume(t[off] > 0 && off + 1 + (t[off] as usize) < 188); }
    let from = if pusi { off + 1 } else { off };
    p.mux(&t);
    let rest = q.buffer.len() - q.size;
    let i: usize = nd("i");
    assume(i < p.buffer.len());
    claim("the completed section is dropped and the next one continues",
        p.buffer[i] == if i < rest { q.buffer[q.size + i] } else { t[from + i - rest] });
    claim("no byte of the next section is lost", p.buffer.len() == rest + 188 - from || (p.size > 0 && !pusi && p.buffer.len() == p.size));
}
