// Tables take data only from complete, valid sections of their own kind.
use mpegts::psi::*;

fn section() -> Psi {
    let p: Psi = nd("psi");
    assume(p.size == 0 || p.buffer.len() >= 3);
    p
}

fn id(p: &Psi) -> u8 { if p.buffer.len() > 0 { p.buffer[0] } else { 0xff } }

pub fn root_pat() {
    let p = section();
    let mut t: Pat = nd("pat");
    let (a, b, n) = (t.version, t.tsid, t.items.len());
    let ok = p.size >= 12 && id(&p) == 0x00 && p.check();
    assume(!ok);
    t.parse(&p);
    claim("pat: other sections leave the table as it was", t.version == a && t.tsid == b && t.items.len() == n);
}

pub fn root_pmt() {
    let p = section();
    let mut t: Pmt = nd("pmt");
    let (a, b, c, n, m) = (t.version, t.pnr, t.pcr, t.items.len(), t.descriptors.len());
    let ok = p.size >= 16 && id(&p) == 0x02 && p.check();
    assume(!ok);
    t.parse(&p);
    claim("pmt: other sections leave the table as it was",
        t.version == a && t.pnr == b && t.pcr == c && t.items.len() == n && t.descriptors.len() == m);
}

pub fn root_nit() {
    let p = section();
    let mut t: Nit = nd("nit");
    let (a, b, c, n, m) = (t.version, t.table_id, t.network_id, t.items.len(), t.descriptors.len());
    let ok = p.size >= 16 && (id(&p) == 0x40 || id(&p) == 0x41) && p.check();
    assume(!ok);
    t.parse(&p);
    claim("nit: other sections leave the table as it was",
        t.version == a && t.table_id == b && t.network_id == c && t.items.len() == n && t.descriptors.len() == m);
}

pub fn root_sdt() {
    let p = section();
    let mut t: Sdt = nd("sdt");
    let (a, b, c, d, n) = (t.version, t.table_id, t.tsid, t.onid, t.items.len());
    let ok = p.size >= 15 && (id(&p) == 0x42 || id(&p) == 0x46) && p.check();
    assume(!ok);
    t.parse(&p);
    claim("sdt: other sections leave the table as it was",
        t.version == a && t.table_id == b && t.tsid == c && t.onid == d && t.items.len() == n);
}

pub fn root_eit() {
    let p = section();
    let mut t: Eit = nd("eit");
    let (a, b, c, d, e, n) = (t.version, t.table_id, t.tsid, t.onid, t.pnr, t.items.len());
    let ok = p.size >= 18 && id(&p) >= 0x4e && id(&p) <= 0x6f && p.check();
    assume(!ok);
    t.parse(&p);
    claim("eit: other sections leave the table as it was",
        t.version == a && t.table_id == b && t.tsid == c && t.onid == d && t.pnr == e && t.items.len() == n);
}

pub fn root_tdt() {
    let p = section();
    let mut t: Tdt = nd("tdt");
    let a = t.time;
    let ok = p.size == 8 && p.buffer.len() >= 8 && id(&p) == 0x70;
    assume(!ok);
    t.parse(&p);
    claim("tdt: other sections leave the table as it was", t.time == a);
}

pub fn root_tot() {
    let p = section();
    let mut t: Tot = nd("tot");
    let (a, m) = (t.time, t.descriptors.len());
    let ok = p.size >= 14 && id(&p) == 0x73 && p.check();
    assume(!ok);
    t.parse(&p);
    claim("tot: other sections leave the table as it was", t.time == a && t.descriptors.len() == m);
}

pub fn root_taken_eit() {
    let p = section();
    assume(p.size == 18);
    let mut n: Eit = Eit::default();
    n.parse(&p);
    claim("eit: valid sections of all event table ids are taken", n.table_id == id(&p) || !p.check() || id(&p) < 0x4e || id(&p) > 0x6f);
    if n.table_id == 0x6f { reach("eit: a valid section is taken"); }
}

pub fn root_taken_sdt() {
    let p = section();
    assume(p.size == 15);
    let mut n: Sdt = Sdt::default();
    n.parse(&p);
    claim("sdt: valid sections of both table ids are taken", n.table_id == id(&p) || !p.check() || (id(&p) != 0x42 && id(&p) != 0x46));
    if n.table_id == 0x46 { reach("sdt: a valid section is taken"); }
}

pub fn root_taken_nit() {
    let p = section();
    assume(p.size == 16);
    let mut n: Nit = Nit::default();
    n.parse(&p);
    claim("nit: valid sections of both table ids are taken", n.table_id == id(&p) || !p.check() || (id(&p) != 0x40 && id(&p) != 0x41));
}

pub fn root_taken_pat() {
    let p = section();
    assume(p.size == 12);
    let mut n: Pat = Pat::default();
    n.parse(&p);
    claim("pat: valid sections are taken", !p.check() || id(&p) != 0 || n.tsid as usize == p.buffer[3] as usize * 256 + p.buffer[4] as usize);
}

pub fn root_taken_pmt() {
    let p = section();
    assume(p.size == 16);
    let mut n: Pmt = Pmt::default();
    n.parse(&p);
    claim("pmt: valid sections are taken", !p.check() || id(&p) != 2 || n.pnr as usize == p.buffer[3] as usize * 256 + p.buffer[4] as usize);
}
