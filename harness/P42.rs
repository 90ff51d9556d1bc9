// Schedules of events as they come: in any order, too many, too far away.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> u64 { b[i] as u64 * 256 + b[i + 1] as u64 }

fn event(name: &'static str) -> EitItem {
    let x: EitItem = nd(name);
    assume(x.start < (65536 - 40587) * 86400 && x.duration < 360000 && x.status < 8 && x.ca_mode < 2 && x.descriptors.size() < 4000);
    x
}

fn schedule(items: Vec<EitItem>) -> Eit {
    let t = Eit { table_id: 0x50, version: nd("version"), pnr: nd("pnr"), tsid: nd("tsid"), onid: nd("onid"), items };
    assume(t.version < 32);
    t
}

/// The payloads of the sections, one after the other.
fn payload(l: &Vec<Psi>) -> Vec<u8> {
    let mut all = Vec::new();
    for p in l.iter() { all.extend_from_slice(&p.buffer[14 .. p.size - 4]); }
    all
}

fn in_order(l: &Vec<Psi>) {
    let i: usize = nd("i");
    assume(i < l.len());
    let (p, last) = (&l[i], &l[l.len() - 1].buffer);
    claim("sections are finished", p.check() && p.size <= 4096 && p.buffer.len() == p.size);
    claim("sections are of the table", p.buffer[0] >= 0x50 && p.buffer[0] <= last[0] && p.buffer[13] == last[0] && last[0] <= 0x5f);
    if i > 0 {
        let q = &l[i - 1].buffer;
        claim("sections are in increasing order", q[0] as usize * 256 + (q[6] as usize) < p.buffer[0] as usize * 256 + p.buffer[6] as usize);
    }
}

pub fn root_np_earlier() {
    let t = schedule(vec![event("first"), event("second")]);
    assume(t.items[1].start < t.items[0].start);
    let l = t.psi_list_assemble();
    in_order(&l);
    let n = 12 + t.items[0].descriptors.size();
    let b = payload(&l);
    claim("an earlier event behind a later one is sent", b.len() == n + 12 + t.items[1].descriptors.size() && be16(&b, n) == t.items[1].event_id as u64);
}

pub fn root_np_mixed() {
    let t = schedule(vec![event("first"), event("second"), event("third")]);
    let s = t.items[0].start;
    assume(s % 86400 >= 64800 && t.items[1].start >= s && t.items[1].start < s + 43200 && t.items[2].start < t.items[1].start);
    let l = t.psi_list_assemble();
    in_order(&l);
    let n = 24 + t.items[0].descriptors.size() + t.items[1].descriptors.size();
    let b = payload(&l);
    claim("mixed events are sent once each", b.len() == n + 12 + t.items[2].descriptors.size() && be16(&b, n) == t.items[2].event_id as u64);
}

pub fn root_np_late() {
    let t = schedule(vec![event("first"), event("second")]);
    assume(t.items[1].start >= t.items[0].start / 86400 * 86400 + 64 * 86400);
    let l = t.psi_list_assemble();
    in_order(&l);
    claim("an event after the 64 days of the schedule is not sent", payload(&l).len() == 12 + t.items[0].descriptors.size());
    claim("and takes no section", l.len() <= 9 && l[l.len() - 1].buffer[0] == 0x50);
}

pub fn root_np_late_order() {
    let t = schedule(vec![event("first"), event("second"), event("third")]);
    let s = t.items[0].start;
    assume(s % 86400 >= 64800 && t.items[1].start >= s / 86400 * 86400 + 64 * 86400 && t.items[2].start >= s && t.items[2].start < s + 43200);
    let l = t.psi_list_assemble();
    in_order(&l);
    let n = 12 + t.items[0].descriptors.size();
    let b = payload(&l);
    claim("an event behind one that is not sent is sent", b.len() == n + 12 + t.items[2].descriptors.size() && be16(&b, n) == t.items[2].event_id as u64);
}

fn plain(id: u16, start: u64) -> EitItem {
    EitItem { event_id: id, start, duration: 1800, status: 1, ca_mode: 0, ..EitItem::default() }
}

pub fn root_np_last_day() {
    let day = 18000 * 86400;
    let t = schedule(vec![plain(1, day), plain(2, day + 64 * 86400 - 1)]);
    let l = t.psi_list_assemble();
    let p = &l[l.len() - 1].buffer;
    claim("the last second of the 64 days is in the last segment", p[0] == 0x5f && p[6] == 248 && p[7] == 248 && p[12] == 248 && p[13] == 0x5f);
    claim("the event of the last second is sent", p.len() == 30 && be16(p, 14) == 2);
    claim("every segment of the 64 days has a section", l.len() == 512);
}

pub fn root_np_end() {
    let day = 18000 * 86400;
    let t = schedule(vec![plain(1, day), plain(2, day + 64 * 86400), plain(3, day + 10800)]);
    let l = t.psi_list_assemble();
    let b = payload(&l);
    claim("an event at the end of the 64 days is not sent", b.len() == 24 && be16(&b, 0) == 1 && be16(&b, 12) == 3);
    claim("the last table is that of the events sent", l[0].buffer[13] == 0x50);
}

pub fn root_np_end_of_noon() {
    // the 64 days start with the day of the first event, not with the event
    let day = 18000 * 86400;
    let t = schedule(vec![plain(1, day + 43200), plain(2, day + 64 * 86400 + 3600), plain(3, day + 54000)]);
    let l = t.psi_list_assemble();
    let b = payload(&l);
    claim("the 64 days end at midnight", b.len() == 24 && be16(&b, 0) == 1 && be16(&b, 12) == 3 && l[0].buffer[13] == 0x50);
}

pub fn root_np_last_of_noon() {
    let day = 18000 * 86400;
    let t = schedule(vec![plain(1, day + 43200), plain(2, day + 64 * 86400 - 1)]);
    let l = t.psi_list_assemble();
    let p = &l[l.len() - 1].buffer;
    claim("the last second before that midnight is sent", p[0] == 0x5f && p[6] == 248 && p[13] == 0x5f && p.len() == 30 && be16(p, 14) == 2);
}

/// `count` events of a whole section each in the first segment of the list.
fn full(count: u16) -> Vec<EitItem> {
    let mut items = Vec::new();
    for k in 0 .. count {
        let mut x = plain(k, 18000 * 86400 + 75600 + k as u64);
        x.descriptors = nd("descriptors");
        assume(x.descriptors.size() >= 2100 && x.descriptors.size() < 4000);
        items.push(x);
    }
    items
}

pub fn root_np_full() {
    let t = schedule(full(10));
    let l = t.psi_list_assemble();
    in_order(&l);
    let n = l.len();
    claim("a full segment has eight sections", n >= 8 && l[n - 1].buffer[6] == 71 && l[n - 1].buffer[7] == 71);
    let mut k = 0;
    while k < 8 {
        let p = &l[n - 8 + k].buffer;
        claim("each of them has one event", be16(p, 14) == k as u64 && p.len() == 30 + t.items[k].descriptors.size());
        claim("each of them tells the last one", p[6] as usize == 64 + k && p[12] == 71);
        k += 1;
    }
}

pub fn root_np_full_next() {
    let mut items = full(9);
    items.push(plain(100, 18000 * 86400 + 86400 + 10800));
    items.push(plain(101, 18000 * 86400 + 86400 + 21600));
    let l = schedule(items).psi_list_assemble();
    in_order(&l);
    let n = l.len();
    claim("the segments behind a full one keep their numbers", n >= 10 && l[n - 2].buffer[6] == 72 && l[n - 1].buffer[6] == 80);
    claim("events behind a full segment are in theirs", be16(&l[n - 2].buffer, 14) == 100 && be16(&l[n - 1].buffer, 14) == 101);
    claim("a full segment ends where the next one starts", l[n - 3].buffer[6] == 71 && l[n - 3].buffer[12] == 71);
}

pub fn root_np_full_end() {
    let day = 18000 * 86400;
    let mut items = vec![plain(100, day)];
    for k in 0 .. 9 {
        let mut x = plain(k, day + 4 * 86400 - 3600 + k as u64);
        x.descriptors = nd("descriptors");
        assume(x.descriptors.size() == 3000);
        items.push(x);
    }
    let l = schedule(items).psi_list_assemble();
    in_order(&l);
    let p = &l[l.len() - 1].buffer;
    claim("the last segment of a table has eight sections", p[0] == 0x50 && p[6] == 255 && p[7] == 255 && p[12] == 255 && be16(p, 14) == 7);
}
