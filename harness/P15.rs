// EIT, TDT and TOT parsing follows EN 300 468, including the MJD and BCD times.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> u16 { b[i] as u16 * 256 + b[i + 1] as u16 }
fn be12(b: &[u8], i: usize) -> usize { b[i] as usize % 16 * 256 + b[i + 1] as usize }
fn bcd(b: u8) -> u64 { b as u64 / 16 * 10 + b as u64 % 16 }
fn hms(b: &[u8], i: usize) -> u64 { bcd(b[i]) * 3600 + bcd(b[i + 1]) * 60 + bcd(b[i + 2]) }

/// Seconds since 1970 of a date and time; the day of 1970-01-01 is 40587.
fn date(b: &[u8], i: usize) -> u64 {
    let d = be16(b, i) as u64;
    (if d < 40587 { 0 } else { d - 40587 }) * 86400 + hms(b, i + 2)
}

fn holds(d: &Descriptors, bytes: &[u8]) -> bool { read_from(d, bytes) }

pub fn root_tdt() {
    let p: Psi = nd("psi");
    assume(p.size == 8 && p.buffer.len() >= 8 && p.buffer[0] == 0x70);
    let t = Tdt::from(&p);
    claim("tdt time", t.time == date(&p.buffer, 3));
}

pub fn root_tot() {
    let p: Psi = nd("psi");
    assume(p.size >= 14 && p.buffer.len() >= p.size && p.buffer[0] == 0x73 && p.check());
    let t = Tot::from(&p);
    claim("tot time", t.time == date(&p.buffer, 3));
    let n = be12(&p.buffer, 8);
    if 10 + n <= p.size - 4 {
        claim("tot descriptors", holds(&t.descriptors, &p.buffer[10 .. 10 + n]));
    } else {
        claim("tot: an overlong descriptor loop is not read", t.descriptors.len() == 0);
    }
}

fn fields(i: &EitItem, b: &[u8], at: usize) -> bool {
    i.event_id == be16(b, at) && i.duration as u64 == hms(b, at + 7) && i.status == b[at + 10] / 32 && i.ca_mode == b[at + 10] / 16 % 2
}

pub fn root_eit() {
    let p: Psi = nd("psi");
    assume(p.size >= 18 && p.buffer.len() >= p.size && p.buffer[0] >= 0x4e && p.buffer[0] <= 0x6f && p.check());
    let t = Eit::from(&p);
    let b = &p.buffer;
    claim("eit header", t.table_id == b[0] && t.pnr == be16(b, 3) && t.version == b[5] / 2 % 32 && t.tsid == be16(b, 8) && t.onid == be16(b, 10));
    let end = p.size - 4;
    let at = 14;
    if at + 12 > end || at + 12 + be12(b, at + 10) > end {
        claim("eit: no event without room for it", t.items.len() == 0);
        return;
    }
    let next = at + 12 + be12(b, at + 10);
    claim("eit: first event is taken", t.items.len() >= 1);
    claim("eit event fields", fields(&t.items[0], b, at));
    claim("eit event start", t.items[0].start == date(b, at + 2));
    claim("eit event descriptors", holds(&t.items[0].descriptors, &b[at + 12 .. next]));
    if next + 12 > end || next + 12 + be12(b, next + 10) > end {
        claim("eit: one event only when the rest is no event", t.items.len() == 1);
        return;
    }
    claim("eit: second event is taken", t.items.len() >= 2);
    claim("eit second event fields", fields(&t.items[1], b, next));
    claim("eit second event start", t.items[1].start == date(b, next + 2));
    claim("eit second event descriptors", holds(&t.items[1].descriptors, &b[next + 12 .. next + 12 + be12(b, next + 10)]));
}

pub fn root_eit_append() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= 30 && p.size < 42 && b.len() >= p.size && b[0] >= 0x4e && b[0] <= 0x6f && p.check() && be12(b, 24) == p.size - 30);
    let mut t: Eit = nd("eit");
    let n = t.items.len();
    let d: usize = nd("i");
    assume(d < n);
    let old = (t.items[d].event_id, t.items[d].start, t.items[d].descriptors.len());
    t.parse(&p);
    claim("eit events are appended to those of earlier sections", t.items.len() == n + 1);
    claim("eit header of the last section", t.table_id == b[0] && t.pnr == be16(b, 3) && t.version == b[5] / 2 % 32 && t.tsid == be16(b, 8) && t.onid == be16(b, 10));
    claim("eit appended event descriptors", holds(&t.items[n].descriptors, &b[26 .. p.size - 4]));
    claim("eit appended event", fields(&t.items[n], b, 14) && t.items[n].start == date(b, 16));
    claim("earlier eit events stay", (t.items[d].event_id, t.items[d].start, t.items[d].descriptors.len()) == old);
}

pub fn root_times_again() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= 8 && b.len() >= p.size && p.check());
    if b[0] == 0x70 && p.size == 8 {
        let mut t: Tdt = nd("tdt");
        t.parse(&p);
        claim("tdt time of the last section", t.time == date(b, 3));
    }
    if b[0] == 0x73 && p.size >= 14 {
        let mut t: Tot = nd("tot");
        t.parse(&p);
        claim("tot time of the last section", t.time == date(b, 3));
    }
}
