// Assembled sections have the layout of ISO 13818-1 and EN 300 468.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }

/// The bytes at `at` are the assembled descriptors of the list.
fn emits(d: &Descriptors, b: &[u8], at: usize) -> bool {
    let mut x = Vec::new();
    d.assemble(&mut x);
    at + x.len() <= b.len() && b[at .. at + x.len()] == x[..]
}

/// The common long header.
fn header(b: &[u8], table: u8, flags: u8, ext: u16, version: u8) -> bool {
    b[0] == table && b[1] / 16 == flags && be16(b, 3) == ext as usize && b[5] == 0xc0 + version * 2 + 1
}

pub fn root_np_pat() {
    let t: Pat = nd("pat");
    assume(t.version < 32 && t.items.len() <= 2);
    let mut i = 0;
    while i < t.items.len() { assume(t.items[i].pid < 8192); i += 1; }
    let l = t.psi_list_assemble();
    claim("pat: one section", l.len() == 1);
    let b = &l[0].buffer;
    claim("pat section header", header(b, 0, 0xb, t.tsid, t.version));
    claim("pat section holds the header and the items", b.len() == 8 + 4 * t.items.len());
    let i: usize = nd("i");
    assume(i < t.items.len());
    claim("pat section item", be16(b, 8 + 4 * i) == t.items[i].pnr as usize && be16(b, 10 + 4 * i) == 0xe000 + t.items[i].pid as usize);
}

pub fn root_np_pmt() {
    let t: Pmt = nd("pmt");
    assume(t.version < 32 && t.pcr < 8192 && t.items.len() <= 2 && t.descriptors.size() < 300);
    let mut i = 0;
    let mut n = 12 + t.descriptors.size();
    while i < t.items.len() {
        assume(t.items[i].pid < 8192 && t.items[i].descriptors.size() < 300);
        n += 5 + t.items[i].descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    claim("pmt: one section", l.len() == 1);
    let b = &l[0].buffer;
    claim("pmt section header", header(b, 2, 0xb, t.pnr, t.version) && be16(b, 8) == 0xe000 + t.pcr as usize);
    claim("pmt section holds the header, the descriptors and the items", b.len() == n);
    let m = t.descriptors.size();
    claim("pmt program descriptors", be16(b, 10) == 0xf000 + m && emits(&t.descriptors, b, 12));
    if t.items.len() == 0 { return; }
    let x = &t.items[0];
    let k = x.descriptors.size();
    let at = 12 + m;
    claim("pmt item", b[at] == x.stream_type && be16(b, at + 1) == 0xe000 + x.pid as usize);
    claim("pmt item descriptors", be16(b, at + 3) == 0xf000 + k && emits(&x.descriptors, b, at + 5));
    if t.items.len() == 1 { return; }
    let y = &t.items[1];
    let at = at + 5 + k;
    claim("pmt second item", b[at] == y.stream_type && be16(b, at + 1) == 0xe000 + y.pid as usize);
    claim("pmt second item descriptors", be16(b, at + 3) == 0xf000 + y.descriptors.size() && emits(&y.descriptors, b, at + 5));
}

pub fn root_np_nit() {
    let t: Nit = nd("nit");
    assume(t.version < 32 && t.items.len() <= 2 && t.descriptors.size() < 300);
    let mut i = 0;
    let mut n = 0;
    while i < t.items.len() {
        assume(t.items[i].descriptors.size() < 300);
        n += 6 + t.items[i].descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    claim("nit: one section", l.len() == 1);
    let b = &l[0].buffer;
    let m = t.descriptors.size();
    claim("nit section header", header(b, t.table_id, 0xf, t.network_id, t.version));
    claim("nit network descriptors", be16(b, 8) == 0xf000 + m && emits(&t.descriptors, b, 10));
    claim("nit transport stream loop length", be16(b, 10 + m) == 0xf000 + n);
    claim("nit section holds the header, the descriptors and the items", b.len() == 12 + m + n);
    if t.items.len() == 0 { return; }
    let x = &t.items[0];
    let k = x.descriptors.size();
    let at = 12 + m;
    claim("nit item", be16(b, at) == x.tsid as usize && be16(b, at + 2) == x.onid as usize);
    claim("nit item descriptors", be16(b, at + 4) == 0xf000 + k && emits(&x.descriptors, b, at + 6));
    if t.items.len() == 1 { return; }
    let y = &t.items[1];
    let at = at + 6 + k;
    claim("nit second item", be16(b, at) == y.tsid as usize && be16(b, at + 2) == y.onid as usize);
    claim("nit second item descriptors", be16(b, at + 4) == 0xf000 + y.descriptors.size() && emits(&y.descriptors, b, at + 6));
}

fn sdt_item(x: &SdtItem, b: &[u8], at: usize) -> bool {
    be16(b, at) == x.pnr as usize && b[at + 2] == 0xfc + x.eit_schedule_flag * 2 + x.eit_present_following_flag
        && be16(b, at + 3) == x.running_status as usize * 8192 + x.free_ca_mode as usize * 4096 + x.descriptors.size()
        && emits(&x.descriptors, b, at + 5)
}

pub fn root_np_sdt() {
    let t: Sdt = nd("sdt");
    assume(t.version < 32 && t.items.len() <= 2);
    let mut i = 0;
    let mut n = 11;
    while i < t.items.len() {
        let x = &t.items[i];
        assume(x.descriptors.size() < 300 && x.eit_schedule_flag < 2 && x.eit_present_following_flag < 2);
        assume(x.running_status < 8 && x.free_ca_mode < 2);
        n += 5 + x.descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    claim("sdt: one section", l.len() == 1);
    let b = &l[0].buffer;
    claim("sdt section header", header(b, t.table_id, 0xf, t.tsid, t.version) && be16(b, 8) == t.onid as usize && b[10] == 0xff);
    claim("sdt section holds the header and the items", b.len() == n);
    if t.items.len() == 0 { return; }
    claim("sdt item", sdt_item(&t.items[0], b, 11));
    if t.items.len() == 1 { return; }
    claim("sdt second item", sdt_item(&t.items[1], b, 16 + t.items[0].descriptors.size()));
}

fn bcd(v: u64) -> u8 { (v / 10 * 16 + v % 10) as u8 }

fn time(b: &[u8], at: usize, v: u64) -> bool {
    be16(b, at) as u64 == v / 86400 + 40587 && clock(b, at + 2, v)
}

fn clock(b: &[u8], at: usize, v: u64) -> bool {
    b[at] == bcd(v / 3600 % 24) && b[at + 1] == bcd(v / 60 % 60) && b[at + 2] == bcd(v % 60)
}

/// Hours, minutes and seconds of a time that may exceed a day.
fn span(b: &[u8], at: usize, v: u64) -> bool {
    b[at] == bcd(v / 3600) && b[at + 1] == bcd(v / 60 % 60) && b[at + 2] == bcd(v % 60)
}

pub fn root_np_tdt() {
    let t: Tdt = nd("tdt");
    assume(t.time < 2155593600);
    let l = t.psi_list_assemble();
    claim("tdt: one section", l.len() == 1);
    let b = &l[0].buffer;
    claim("tdt section", b.len() == 8 && b[0] == 0x70 && b[1] == 0x70 && b[2] == 5);
    claim("tdt section time", time(b, 3, t.time));
}

pub fn root_np_tot() {
    let t: Tot = nd("tot");
    assume(t.time < 2155593600 && t.descriptors.size() < 1000);
    let l = t.psi_list_assemble();
    claim("tot: one section", l.len() == 1);
    let b = &l[0].buffer;
    let n = t.descriptors.size();
    claim("tot section", b.len() == 10 + n && b[0] == 0x73 && b[1] / 16 == 7);
    claim("tot section time", time(b, 3, t.time));
    claim("tot section descriptors", be16(b, 8) == 0xf000 + n && emits(&t.descriptors, b, 10));
}

pub fn root_np_eit_present() {
    let t: Eit = nd("eit");
    assume((t.table_id == 0x4e || t.table_id == 0x4f) && t.version < 32 && t.items.len() <= 2);
    let mut i = 0;
    while i < t.items.len() {
        let x = &t.items[i];
        assume(x.start < 2155593600 && x.status < 8 && x.ca_mode < 2 && x.descriptors.size() < 4000);
        i += 1;
    }
    let l = t.psi_list_assemble();
    claim("eit present/following: one section for every event", l.len() == t.items.len());
    let i: usize = nd("i");
    assume(i < l.len());
    let b = &l[i].buffer;
    let x = &t.items[i];
    let last = t.items.len() as u8 - 1;
    let n = x.descriptors.size();
    claim("eit section header", header(b, t.table_id, 0xf, t.pnr, t.version) && be16(b, 8) == t.tsid as usize && be16(b, 10) == t.onid as usize);
    claim("eit section numbers", b[6] as usize == i && b[7] == last && b[12] == last && b[13] == t.table_id);
    claim("eit section is finished", l[i].size == b.len() && b.len() == 14 + 12 + n + 4 && be16(b, 1) % 4096 == b.len() - 3);
    claim("eit event", be16(b, 14) == x.event_id as usize);
    claim("eit event start", time(b, 16, x.start));
    claim("eit event duration", x.duration >= 360000 || span(b, 21, x.duration as u64));
    claim("eit event flags and descriptors", be16(b, 24) == x.status as usize * 8192 + x.ca_mode as usize * 4096 + n && emits(&x.descriptors, b, 26));
}

pub fn root_np_pmt_items() {
    let mut t = Pmt { version: 31, pnr: nd("pnr"), pcr: nd("pcr"), ..Pmt::default() };
    assume(t.pcr < 8192);
    while t.items.len() < 12 {
        let x = PmtItem { stream_type: nd("type"), pid: nd("pid"), ..PmtItem::default() };
        assume(x.pid < 8192);
        t.items.push(x);
    }
    let l = t.psi_list_assemble();
    let b = &l[0].buffer;
    claim("pmt: one section of many items", l.len() == 1 && b.len() == 72 && header(b, 2, 0xb, t.pnr, 31));
    let mut i = 0;
    while i < 12 {
        let (x, at) = (&t.items[i], 12 + 5 * i);
        claim("pmt: each of many items", b[at] == x.stream_type && be16(b, at + 1) == 0xe000 + x.pid as usize && be16(b, at + 3) == 0xf000);
        i += 1;
    }
}

pub fn root_np_nit_items() {
    let mut t = Nit { table_id: 0x40, version: 31, network_id: nd("network"), ..Nit::default() };
    while t.items.len() < 12 { t.items.push(NitItem { tsid: nd("tsid"), onid: nd("onid"), ..NitItem::default() }); }
    let l = t.psi_list_assemble();
    let b = &l[0].buffer;
    claim("nit: one section of many items", l.len() == 1 && b.len() == 84 && header(b, 0x40, 0xf, t.network_id, 31) && be16(b, 10) == 0xf048);
    let mut i = 0;
    while i < 12 {
        let (x, at) = (&t.items[i], 12 + 6 * i);
        claim("nit: each of many items", be16(b, at) == x.tsid as usize && be16(b, at + 2) == x.onid as usize && be16(b, at + 4) == 0xf000);
        i += 1;
    }
}

pub fn root_np_sdt_items() {
    let mut t = Sdt { table_id: 0x46, version: 31, tsid: nd("tsid"), onid: nd("onid"), items: Vec::new() };
    while t.items.len() < 12 {
        let x = SdtItem { pnr: nd("pnr"), eit_schedule_flag: nd("schedule"), eit_present_following_flag: nd("present"), running_status: nd("status"),
            free_ca_mode: nd("ca"), ..SdtItem::default() };
        assume(x.eit_schedule_flag < 2 && x.eit_present_following_flag < 2 && x.running_status < 8 && x.free_ca_mode < 2);
        t.items.push(x);
    }
    let l = t.psi_list_assemble();
    let b = &l[0].buffer;
    claim("sdt: one section of many items", l.len() == 1 && b.len() == 71 && header(b, 0x46, 0xf, t.tsid, 31));
    let mut i = 0;
    while i < 12 {
        let (x, at) = (&t.items[i], 11 + 5 * i);
        claim("sdt: each of many items", be16(b, at) == x.pnr as usize && b[at + 2] == 0xfc + x.eit_schedule_flag * 2 + x.eit_present_following_flag
            && be16(b, at + 3) == x.running_status as usize * 8192 + x.free_ca_mode as usize * 4096);
        i += 1;
    }
}

pub fn root_np_pat_items() {
    let mut t = Pat { version: 31, tsid: nd("tsid"), items: Vec::new() };
    while t.items.len() < 253 {
        let x = PatItem { pnr: nd("pnr"), pid: nd("pid") };
        assume(x.pid < 8192);
        t.items.push(x);
    }
    let l = t.psi_list_assemble();
    let b = &l[0].buffer;
    claim("pat: one full section", l.len() == 1 && b.len() == 1020 && header(b, 0, 0xb, t.tsid, 31));
    let mut i = 0;
    while i < 253 {
        let (x, at) = (&t.items[i], 8 + 4 * i);
        claim("pat: each item of a full section", be16(b, at) == x.pnr as usize && be16(b, at + 2) == 0xe000 + x.pid as usize);
        i += 1;
    }
}
