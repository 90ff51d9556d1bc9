// NIT and SDT parsing follows EN 300 468.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> u16 { b[i] as u16 * 256 + b[i + 1] as u16 }
fn be12(b: &[u8], i: usize) -> usize { b[i] as usize % 16 * 256 + b[i + 1] as usize }

/// The list holds the descriptors of these bytes.
fn holds(d: &Descriptors, bytes: &[u8]) -> bool { read_from(d, bytes) }

pub fn root_nit() {
    let p: Psi = nd("psi");
    assume(p.size >= 16 && p.buffer.len() >= p.size && (p.buffer[0] == 0x40 || p.buffer[0] == 0x41) && p.check());
    let t = Nit::from(&p);
    let b = &p.buffer;
    claim("nit header", t.table_id == b[0] && t.network_id == be16(b, 3) && t.version == b[5] / 2 % 32);
    let n = be12(b, 8);
    let end = p.size - 4;
    if 12 + n > end {
        claim("nit: an overlong network descriptor loop gives no items", t.items.len() == 0);
        return;
    }
    claim("nit network descriptors", holds(&t.descriptors, &b[10 .. 10 + n]));
    let at = 12 + n;
    if at + 6 > end || at + 6 + be12(b, at + 4) > end {
        claim("nit: no item without room for it", t.items.len() == 0);
        return;
    }
    let next = at + 6 + be12(b, at + 4);
    claim("nit: first item is taken", t.items.len() >= 1);
    claim("nit item fields", t.items[0].tsid == be16(b, at) && t.items[0].onid == be16(b, at + 2));
    claim("nit item descriptors", holds(&t.items[0].descriptors, &b[at + 6 .. next]));
    if next + 6 > end || next + 6 + be12(b, next + 4) > end {
        claim("nit: one item only when the rest is no item", t.items.len() == 1);
        return;
    }
    claim("nit: second item is taken", t.items.len() >= 2);
    claim("nit second item fields", t.items[1].tsid == be16(b, next) && t.items[1].onid == be16(b, next + 2));
    claim("nit second item descriptors", holds(&t.items[1].descriptors, &b[next + 6 .. next + 6 + be12(b, next + 4)]));
}

fn sdt_item(i: &SdtItem, b: &[u8], at: usize) -> bool {
    i.pnr == be16(b, at) && i.eit_schedule_flag == b[at + 2] / 2 % 2 && i.eit_present_following_flag == b[at + 2] % 2
        && i.running_status == b[at + 3] / 32 && i.free_ca_mode == b[at + 3] / 16 % 2
}

pub fn root_sdt() {
    let p: Psi = nd("psi");
    assume(p.size >= 15 && p.buffer.len() >= p.size && (p.buffer[0] == 0x42 || p.buffer[0] == 0x46) && p.check());
    let t = Sdt::from(&p);
    let b = &p.buffer;
    claim("sdt header", t.table_id == b[0] && t.tsid == be16(b, 3) && t.version == b[5] / 2 % 32 && t.onid == be16(b, 8));
    let end = p.size - 4;
    let at = 11;
    if at + 5 > end || at + 5 + be12(b, at + 3) > end {
        claim("sdt: no item without room for it", t.items.len() == 0);
        return;
    }
    let next = at + 5 + be12(b, at + 3);
    claim("sdt: first item is taken", t.items.len() >= 1);
    claim("sdt item fields", sdt_item(&t.items[0], b, at));
    claim("sdt item descriptors", holds(&t.items[0].descriptors, &b[at + 5 .. next]));
    if next + 5 > end || next + 5 + be12(b, next + 3) > end {
        claim("sdt: one item only when the rest is no item", t.items.len() == 1);
        return;
    }
    claim("sdt: second item is taken", t.items.len() >= 2);
    claim("sdt second item fields", sdt_item(&t.items[1], b, next));
    claim("sdt second item descriptors", holds(&t.items[1].descriptors, &b[next + 5 .. next + 5 + be12(b, next + 3)]));
}

pub fn root_nit_append() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= 22 && p.size < 28 && b.len() >= p.size && b[0] / 2 == 0x20 && p.check() && be12(b, 8) == 0 && be12(b, 16) == p.size - 22);
    let mut t: Nit = nd("nit");
    let n = t.items.len();
    let d: usize = nd("i");
    assume(d < n);
    let old = (t.items[d].tsid, t.items[d].onid, t.items[d].descriptors.len());
    t.parse(&p);
    claim("nit items are appended to those of earlier sections", t.items.len() == n + 1);
    claim("nit header of the last section", t.table_id == b[0] && t.network_id == be16(b, 3) && t.version == b[5] / 2 % 32);
    claim("nit appended item descriptors", holds(&t.items[n].descriptors, &b[18 .. p.size - 4]));
    claim("nit appended item", t.items[n].tsid == be16(b, 12) && t.items[n].onid == be16(b, 14));
    claim("earlier nit items stay", (t.items[d].tsid, t.items[d].onid, t.items[d].descriptors.len()) == old);
}

pub fn root_sdt_append() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= 20 && p.size < 25 && b.len() >= p.size && (b[0] == 0x42 || b[0] == 0x46) && p.check() && be12(b, 14) == p.size - 20);
    let mut t: Sdt = nd("sdt");
    let n = t.items.len();
    let d: usize = nd("i");
    assume(d < n);
    let old = (t.items[d].pnr, t.items[d].running_status, t.items[d].descriptors.len());
    t.parse(&p);
    claim("sdt items are appended to those of earlier sections", t.items.len() == n + 1);
    claim("sdt header of the last section", t.table_id == b[0] && t.tsid == be16(b, 3) && t.version == b[5] / 2 % 32 && t.onid == be16(b, 8));
    claim("sdt appended item descriptors", holds(&t.items[n].descriptors, &b[16 .. p.size - 4]));
    claim("sdt appended item", sdt_item(&t.items[n], b, 11));
    claim("earlier sdt items stay", (t.items[d].pnr, t.items[d].running_status, t.items[d].descriptors.len()) == old);
}
