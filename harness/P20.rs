// A finished section is carried by TS packets as ISO 13818-1 prescribes.
use mpegts::psi::*;

pub fn root_np_demux() {
    let mut p: Psi = nd("psi");
    assume(p.size >= 3 && p.size <= 4096 && p.buffer.len() >= p.size);
    assume(p.cc < 16 && p.pid < 8192);
    let q = p.clone();
    let mut d: Vec<u8> = nd("dst");
    let old = d.len();
    assume(old < 0x1000_0000);
    let e = d.clone();
    p.demux(&mut d);
    let n = (p.size + 1 + 183) / 184;
    claim("the output grows by whole packets, as many as needed", d.len() == old + 188 * n);
    claim("the section is not changed", p.size == q.size && p.pid == q.pid && p.buffer.len() == q.buffer.len());
    claim("the counter advances by the number of packets", p.cc as usize == (q.cc as usize + n) % 16);
    let i: usize = nd("i");
    assume(i < old);
    claim("earlier output is kept", d[i] == e[i]);
}

pub fn root_np_header() {
    let mut p: Psi = nd("psi");
    assume(p.size >= 3 && p.size <= 4096 && p.buffer.len() >= p.size);
    assume(p.cc < 16 && p.pid < 8192);
    let q = p.clone();
    let mut d: Vec<u8> = Vec::new();
    p.demux(&mut d);
    let k: usize = nd("k");
    assume(k < d.len() / 188);
    let t = &d[k * 188 .. k * 188 + 188];
    claim("every packet has payload only, not scrambled, and the next counter", t[3] as usize == 16 + (q.cc as usize + k) % 16);
    claim("every packet begins with the sync byte", t[0] == 0x47);
    claim("every packet has the pid", t[1] as u16 % 32 * 256 + t[2] as u16 == q.pid);
    claim("the first packet alone starts a unit", t[1] / 32 == if k == 0 { 2 } else { 0 });
    claim("the first packet has a zero pointer", k > 0 || t[4] == 0);
}

pub fn root_np_payload() {
    let mut p: Psi = nd("psi");
    assume(p.size >= 3 && p.size <= 4096 && p.buffer.len() >= p.size);
    assume(p.cc < 16 && p.pid < 8192);
    let q = p.clone();
    let mut d: Vec<u8> = Vec::new();
    p.demux(&mut d);
    let i: usize = nd("i");
    assume(i < q.size);
    let at = if i < 183 { 5 + i } else { 188 * ((i - 183) / 184 + 1) + 4 + (i - 183) % 184 };
    claim("every byte of the section is in its place", d[at] == q.buffer[i]);
}

pub fn root_np_stuffing() {
    let mut p: Psi = nd("psi");
    assume(p.size >= 3 && p.size <= 4096 && p.buffer.len() >= p.size);
    assume(p.cc < 16 && p.pid < 8192);
    let q = p.clone();
    let mut d: Vec<u8> = Vec::new();
    p.demux(&mut d);
    let n = d.len() / 188;
    let used = 188 * n - (n * 184 - 1 - q.size);
    let i: usize = nd("i");
    assume(i >= used && i < d.len());
    claim("the rest of the last packet is stuffing", d[i] == 0xff);
}
