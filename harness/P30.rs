// The sections of an event schedule.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> u64 { b[i] as u64 * 256 + b[i + 1] as u64 }

fn event(name: &'static str) -> EitItem {
    let x: EitItem = nd(name);
    assume(x.start < (65536 - 40587) * 86400 && x.duration < 360000 && x.status < 8 && x.ca_mode < 2 && x.descriptors.size() < 4000);
    x
}

fn schedule(first: EitItem) -> Eit {
    let t = Eit { table_id: nd("table"), version: nd("version"), pnr: nd("pnr"), tsid: nd("tsid"), onid: nd("onid"), items: vec![first] };
    assume(t.version < 32 && t.table_id >= 0x50 && t.table_id <= 0x6f);
    t
}

/// The payloads of the sections, one after the other.
fn payload(l: &Vec<Psi>) -> Vec<u8> {
    let mut all = Vec::new();
    for p in l.iter() { all.extend_from_slice(&p.buffer[14 .. p.size - 4]); }
    all
}

/// The event as it is sent.
fn sent(x: &EitItem, b: &[u8]) -> bool {
    let mut d = Vec::new();
    let n = x.descriptors.assemble(&mut d);
    be16(b, 0) == x.event_id as u64 && be16(b, 2) == 40587 + x.start / 86400 && b[10] as usize * 256 + b[11] as usize == x.status as usize * 8192 + x.ca_mode as usize * 4096 + n
        && b[12 .. 12 + n] == d[..]
}

pub fn root_np_header() {
    let t = schedule(event("event"));
    let l = t.psi_list_assemble();
    claim("a schedule has sections", l.len() >= 1);
    let i: usize = nd("i");
    assume(i < l.len());
    let p = &l[i];
    let b = &p.buffer;
    claim("every section is finished", p.check() && b.len() == p.size && p.size <= 4096);
    claim("every section has the ids of the table", be16(b, 3) == t.pnr as u64 && be16(b, 8) == t.tsid as u64 && be16(b, 10) == t.onid as u64);
    claim("every section has the version and the syntax bits", b[5] == 0xc1 + t.version * 2 && b[1] / 16 == 15);
    claim("every section is of the schedule", b[0] == t.table_id / 16 * 16 && b[13] == t.table_id / 16 * 16);
    claim("section numbers count segments of eight", b[6] as usize == 8 * i);
    claim("the last section number is that of the last section", b[7] as usize == 8 * (l.len() - 1));
}

pub fn root_np_one() {
    let t = schedule(event("event"));
    let l = t.psi_list_assemble();
    let x = &t.items[0];
    let b = payload(&l);
    claim("one event is sent once", b.len() == 12 + x.descriptors.size());
    claim("fields of the event", sent(x, &b));
}

pub fn root_np_segment() {
    let t = schedule(event("event"));
    let l = t.psi_list_assemble();
    let x = &t.items[0];
    let p = &l[l.len() - 1];
    claim("the first event is in the segment of its three hours", p.buffer[6] as u64 / 8 == x.start % 86400 / 10800);
}

/// Two events that start at most `days` apart.
fn two(days: u64) -> Eit {
    let mut t = schedule(event("event"));
    assume(t.table_id == 0x50);
    t.items.push(event("second"));
    assume(t.items[1].start >= t.items[0].start && t.items[1].start < t.items[0].start + days * 86400);
    t
}

pub fn root_np_two() {
    let t = two(1);
    let l = t.psi_list_assemble();
    let b = payload(&l);
    let n = 12 + t.items[0].descriptors.size();
    claim("two events are sent once each", b.len() == n + 12 + t.items[1].descriptors.size());
    claim("fields of the first event", sent(&t.items[0], &b));
    claim("fields of the second event", sent(&t.items[1], &b[n ..]));
}

pub fn root_np_order() {
    let t = two(1);
    let l = t.psi_list_assemble();
    let i: usize = nd("i");
    assume(i < l.len());
    let p = &l[i];
    claim("sections of two events are finished", p.check() && p.size <= 4096);
    let last = &l[l.len() - 1].buffer;
    claim("the last table id is that of the last section", p.buffer[13] == last[0]);
    claim("the last section number is that of the last section of the table", p.buffer[7] == last[6]);
    if i > 0 {
        let q = &l[i - 1].buffer;
        claim("sections are in order", p.buffer[0] == q[0] && p.buffer[6] > q[6]);
        claim("no segment is left out", p.buffer[6] / 8 <= q[6] / 8 + 1);
    }
    if i + 1 < l.len() && l[i + 1].buffer[6] / 8 == p.buffer[6] / 8 {
        claim("sections of a segment tell the same last one", p.buffer[12] == l[i + 1].buffer[12]);
    } else {
        claim("the last section of a segment tells itself", p.buffer[12] == p.buffer[6]);
    }
}

pub fn root_np_apart() {
    let t = two(5);
    let (s, e) = (t.items[0].start, t.items[1].start);
    assume(e / 10800 > s / 10800);
    let l = t.psi_list_assemble();
    let p = &l[l.len() - 1].buffer;
    let seg = e / 10800 - s / 86400 * 8;
    claim("a later event is in the segment of its three hours", p[6] as u64 / 8 == seg % 32 && p[0] as u64 == 0x50 + seg / 32);
    claim("the last table is that of the later event", p[13] == p[0] && p[7] == p[6]);
}

pub fn root_np_tables() {
    let t = two(5);
    let (s, e) = (t.items[0].start, t.items[1].start);
    assume(s % 86400 >= 75600 && e / 10800 == s / 10800 + 25);
    let l = t.psi_list_assemble();
    let i: usize = nd("i");
    assume(i < l.len());
    let q = &l[i].buffer;
    claim("every section tells the last table", q[13] == 0x51);
    claim("the only section of a segment tells itself", q[12] == q[6]);
    if q[0] == 0x51 {
        claim("sections of the last table tell the last section", q[7] == 0);
    } else {
        claim("sections of a full table tell its last section", q[0] == 0x50 && q[7] == 248);
    }
}

/// Events that start `step` seconds after each other, from midnight of a day on.
fn regular(count: u16, step: u64) -> Eit {
    let mut t = Eit { table_id: 0x50, version: nd("version"), pnr: nd("pnr"), tsid: nd("tsid"), onid: nd("onid"), items: Vec::new() };
    assume(t.version < 32);
    for k in 0 .. count {
        t.items.push(EitItem { event_id: k, start: 18000 * 86400 + 75600 + k as u64 * step, duration: 1800, status: 1, ca_mode: 0, ..EitItem::default() });
    }
    t
}

pub fn root_np_long() {
    let t = regular(200, 1800);
    let l = t.psi_list_assemble();
    let b = payload(&l);
    claim("many events are sent once each", b.len() == 200 * 12);
    let mut k = 0;
    while k < 200 {
        claim("many events are sent in order", be16(&b, 12 * k) == k as u64 && be16(&b, 12 * k + 2) == 40587 + t.items[k].start / 86400);
        k += 1;
    }
}

pub fn root_np_long_places() {
    let t = regular(200, 1800);
    let l = t.psi_list_assemble();
    // those of the first segment and the next one are looked at elsewhere
    let mut k = 12;
    let mut s = 0;
    while s < l.len() {
        let p = &l[s].buffer;
        claim("sections of a long schedule are numbered by segments", p[0] as usize == 0x50 + s / 32 && p[6] as usize == s % 32 * 8 && p[12] == p[6]);
        claim("sections of a long schedule tell the last ones", p[13] as usize == 0x50 + (l.len() - 1) / 32
            && p[7] as usize == if s / 32 == (l.len() - 1) / 32 { (l.len() - 1) % 32 * 8 } else { 248 });
        claim("sections of a long schedule have the ids of the table", be16(p, 3) == t.pnr as u64 && be16(p, 8) == t.tsid as u64 && be16(p, 10) == t.onid as u64 && l[s].check());
        if s > 8 {
            let mut at = 14;
            while at + 4 < p.len() {
                claim("events of a long schedule are in the segment of their three hours", be16(p, at) == t.items[k].event_id as u64 && t.items[k].start / 10800 - 18000 * 8 == s as u64);
                k += 1;
                at += 12;
            }
        }
        s += 1;
    }
}

pub fn root_np_large() {
    let mut t = regular(7, 10);
    for k in 0 .. 7 {
        t.items[k].descriptors = nd("descriptors");
        assume(t.items[k].descriptors.size() == 1900);
    }
    let l = t.psi_list_assemble();
    let b = payload(&l);
    claim("large events are sent once each", b.len() == 7 * 1912);
    let n = l.len();
    claim("two large events go into a section", n >= 4);
    let mut k = 0;
    while k < 4 {
        let p = &l[n - 4 + k].buffer;
        claim("large events fill their sections in order", be16(p, 14) == 2 * k as u64 && p.len() == 18 + 1912 * if k < 3 { 2 } else { 1 });
        claim("sections of one segment are numbered one after the other", p[6] as usize == l[n - 4].buffer[6] as usize + k && p[12] as usize == l[n - 4].buffer[6] as usize + 3);
        claim("the last of them is the last section", p[7] as usize == l[n - 4].buffer[6] as usize + 3 && l[n - 4 + k].check());
        k += 1;
    }
}

pub fn root_np_dense() {
    let t = regular(400, 10);
    let l = t.psi_list_assemble();
    let n = l.len();
    claim("hundreds of events of a segment go into two sections", n >= 2 && l[n - 2].buffer[6] as usize + 1 == l[n - 1].buffer[6] as usize);
    let (a, b) = (&l[n - 2].buffer, &l[n - 1].buffer);
    claim("the first of the two is full", a.len() > 4084 - 12 && a.len() <= 4096);
    claim("hundreds of events are sent once each", a.len() + b.len() == 400 * 12 + 36);
    let m = (a.len() - 18) / 12;
    claim("the first section begins and ends with its events", be16(a, 14) == 0 && be16(a, 2 + 12 * m) == m as u64 - 1);
    claim("the second section goes on to the last event", be16(b, 14) == m as u64 && be16(b, b.len() - 16) == 399);
}
