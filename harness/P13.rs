// PAT and PMT parsing follows ISO 13818-1.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> u16 { b[i] as u16 * 256 + b[i + 1] as u16 }
fn be12(b: &[u8], i: usize) -> usize { b[i] as usize % 16 * 256 + b[i + 1] as usize }
fn be13(b: &[u8], i: usize) -> u16 { b[i] as u16 % 32 * 256 + b[i + 1] as u16 }

/// The list holds the descriptors of these bytes.
fn holds(d: &Descriptors, bytes: &[u8]) -> bool { read_from(d, bytes) }

pub fn root_pat_header() {
    let p: Psi = nd("psi");
    assume(p.size >= 12 && p.buffer.len() >= p.size && p.buffer[0] == 0 && p.check());
    let t = Pat::from(&p);
    claim("pat header", t.tsid == be16(&p.buffer, 3) && t.version == p.buffer[5] / 2 % 32);
    claim("pat holds one item for every four bytes", t.items.len() == (p.size - 12) / 4);
    let i: usize = nd("i");
    assume(i < t.items.len());
    claim("pat item: program number", t.items[i].pnr == be16(&p.buffer, 8 + 4 * i));
    claim("pat item: pid", t.items[i].pid == be13(&p.buffer, 10 + 4 * i));
}

pub fn root_pat_append() {
    let p: Psi = nd("psi");
    assume(p.size >= 12 && p.size < 20 && p.buffer.len() >= p.size && p.buffer[0] == 0 && p.check());
    let mut t: Pat = nd("pat");
    let n = t.items.len();
    t.parse(&p);
    claim("pat items are appended to those of earlier sections", t.items.len() == n + (p.size - 12) / 4);
    claim("pat header of the last section", t.tsid == be16(&p.buffer, 3) && t.version == p.buffer[5] / 2 % 32);
    if p.size >= 16 {
        claim("pat appended item", t.items[n].pnr == be16(&p.buffer, 8) && t.items[n].pid == be13(&p.buffer, 10));
    }
}

pub fn root_pmt() {
    let p: Psi = nd("psi");
    assume(p.size >= 16 && p.buffer.len() >= p.size && p.buffer[0] == 2 && p.check());
    let t = Pmt::from(&p);
    let b = &p.buffer;
    claim("pmt header", t.pnr == be16(b, 3) && t.version == b[5] / 2 % 32 && t.pcr == be13(b, 8));
    let n = be12(b, 10);
    let end = p.size - 4;
    if 12 + n > end {
        claim("pmt: an overlong program descriptor loop gives no items", t.items.len() == 0);
        return;
    }
    claim("pmt program descriptors", holds(&t.descriptors, &b[12 .. 12 + n]));
    let at = 12 + n;
    if at + 5 > end || at + 5 + be12(b, at + 3) > end {
        claim("pmt: no item without room for it", t.items.len() == 0);
        return;
    }
    let next = at + 5 + be12(b, at + 3);
    claim("pmt: first item is taken", t.items.len() >= 1);
    claim("pmt item fields", t.items[0].stream_type == b[at] && t.items[0].pid == be13(b, at + 1));
    claim("pmt item descriptors", holds(&t.items[0].descriptors, &b[at + 5 .. next]));
    if next + 5 > end || next + 5 + be12(b, next + 3) > end {
        claim("pmt: one item only when the rest is no item", t.items.len() == 1);
        return;
    }
    claim("pmt: second item is taken", t.items.len() >= 2);
    claim("pmt second item fields", t.items[1].stream_type == b[next] && t.items[1].pid == be13(b, next + 1));
    claim("pmt second item descriptors", holds(&t.items[1].descriptors, &b[next + 5 .. next + 5 + be12(b, next + 3)]));
}

pub fn root_pmt_append() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= 21 && p.size < 26 && b.len() >= p.size && b[0] == 2 && p.check() && be12(b, 10) == 0 && be12(b, 15) == p.size - 21);
    let mut t: Pmt = nd("pmt");
    let n = t.items.len();
    let d: usize = nd("i");
    assume(d < n);
    let old = (t.items[d].pid, t.items[d].stream_type, t.items[d].descriptors.len());
    t.parse(&p);
    claim("pmt items are appended to those of earlier sections", t.items.len() == n + 1);
    claim("pmt header of the last section", t.pnr == be16(b, 3) && t.version == b[5] / 2 % 32 && t.pcr == be13(b, 8));
    claim("pmt appended item", t.items[n].stream_type == b[12] && t.items[n].pid == be13(b, 13));
    claim("pmt appended item descriptors", holds(&t.items[n].descriptors, &b[17 .. p.size - 4]));
    claim("earlier pmt items stay", (t.items[d].pid, t.items[d].stream_type, t.items[d].descriptors.len()) == old);
}
