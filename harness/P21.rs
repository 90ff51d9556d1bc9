// Sections of a table are numbered, finished and sent one after the other; receiving them gives them back.
use mpegts::psi::*;
use mpegts::ts;

/// A table of given sections.
struct Table { list: Vec<Psi> }

impl PsiDemux for Table {
    fn psi_list_assemble(&self) -> Vec<Psi> { self.list.clone() }
}

fn section(name: &'static str) -> Psi {
    let p: Psi = nd(name);
    assume(p.size == 0 && p.buffer.len() >= 8 && p.buffer.len() <= 179);
    p
}

/// The packet carries the section `p`, numbered `n` of `last`, and nothing else.
fn carries(t: &[u8], p: &Psi, n: u8, last: u8) -> bool {
    let k = p.buffer.len();
    let s = &t[5 ..];
    s[0] == p.buffer[0] && s[3 .. 6] == p.buffer[3 .. 6] && s[8 .. k] == p.buffer[8 ..] && s[6] == n && s[7] == last
        && s[1] as usize * 256 + s[2] as usize == p.buffer[1] as usize / 16 * 4096 + k + 1
}

fn head(t: &[u8], pid: u16, cc: u8) -> bool {
    t[0] == 0x47 && t[1] as u16 == 0x40 + pid / 256 && t[2] as u16 == pid % 256 && t[3] == 0x10 + cc && t[4] == 0
}

pub fn root_np_none() {
    let t = Table { list: Vec::new() };
    let mut cc: u8 = nd("cc");
    let old = cc;
    let mut d: Vec<u8> = nd("dst");
    let e = d.clone();
    t.demux(nd("pid"), &mut cc, &mut d);
    claim("a table without sections sends nothing", cc == old && d.len() == e.len());
}

pub fn root_np_one() {
    let t = Table { list: vec![section("psi")] };
    let mut cc: u8 = nd("cc");
    let pid: u16 = nd("pid");
    assume(cc < 16 && pid < 8192);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    t.demux(pid, &mut cc, &mut d);
    claim("one small section is sent in one packet", d.len() == 188 && cc == (old + 1) % 16);
    claim("packet of the only section", head(&d, pid, old));
    claim("the only section is number zero of zero", carries(&d, &t.list[0], 0, 0));
    let n = t.list[0].buffer.len();
    let c = crc32b(&d[5 .. 5 + n]);
    claim("checksum of the only section", d[5 + n] as u32 == c >> 24 && d[6 + n] as u32 == c >> 16 & 255 && d[7 + n] as u32 == c >> 8 & 255 && d[8 + n] as u32 == c & 255);
}

pub fn root_np_two() {
    let t = Table { list: vec![section("psi"), section("second")] };
    let mut cc: u8 = nd("cc");
    let pid: u16 = nd("pid");
    assume(cc < 16 && pid < 8192);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    t.demux(pid, &mut cc, &mut d);
    claim("two small sections are sent in two packets", d.len() == 376 && cc == (old + 2) % 16);
    claim("packet of the first section", head(&d[.. 188], pid, old));
    claim("packet of the second section", head(&d[188 ..], pid, (old + 1) % 16));
    claim("the first section is number zero of one", carries(&d[.. 188], &t.list[0], 0, 1));
    claim("the second section is number one of one", carries(&d[188 ..], &t.list[1], 1, 1));
}

pub fn root_np_append() {
    let t = Table { list: vec![section("psi")] };
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let mut d: Vec<u8> = nd("dst");
    let e = d.clone();
    assume(e.len() < 0x1000_0000);
    t.demux(17, &mut cc, &mut d);
    claim("packets are added behind earlier ones", d.len() == e.len() + 188 && d[.. e.len()] == e[..]);
}

/// What one packet or three hold comes back.
fn again(lo: usize, hi: usize) {
    let mut p: Psi = nd("psi");
    assume(p.size == 0 && p.buffer.len() >= lo && p.buffer.len() <= hi);
    p.cc = nd("cc");
    assume(p.cc < 16);
    p.finalize();
    p.pid = 0x1234;
    let mut d: Vec<u8> = Vec::new();
    p.demux(&mut d);
    let mut q = Psi::default();
    let mut i = 0;
    while i < d.len() {
        q.mux(&d[i .. i + ts::PACKET_SIZE]);
        i += ts::PACKET_SIZE;
    }
    claim("a section sent and received has its size", q.size == p.size && q.buffer.len() == p.size);
    claim("a section sent and received passes the check", q.check());
    let i: usize = nd("i");
    assume(i < p.size);
    claim("a section sent and received has its bytes", q.buffer[i] == p.buffer[i]);
}

pub fn root_np_again_one() { again(8, 179); }
pub fn root_np_again_two() { again(180, 363); }
pub fn root_np_again_three() { again(364, 547); }

pub fn root_np_tdt() {
    let x: Tdt = nd("tdt");
    assume(x.time < (65536 - 40587) * 86400);
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    x.demux(20, &mut cc, &mut d);
    claim("a tdt is one packet", d.len() == 188 && cc == (old + 1) % 16 && head(&d, 20, old));
    let mut q = Psi::default();
    q.mux(&d);
    claim("a tdt sent and received has its time", Tdt::from(&q).time == x.time);
}

pub fn root_np_tot() {
    let x: Tot = nd("tot");
    assume(x.time < (65536 - 40587) * 86400 && x.descriptors.size() < 150);
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    x.demux(20, &mut cc, &mut d);
    claim("a small tot is one packet", d.len() == 188 && cc == (old + 1) % 16 && head(&d, 20, old));
    let mut q = Psi::default();
    q.mux(&d);
    claim("a tot sent and received passes the check", q.check());
    claim("a tot sent and received has its time", Tot::from(&q).time == x.time);
}

/// A TOT of `n` packets.
fn long_tot(n: usize) {
    let x: Tot = nd("tot");
    let size = x.descriptors.size();
    assume(x.time < (65536 - 40587) * 86400 && size > 184 * n - 184 - 15 && size <= 184 * n - 15);
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    x.demux(20, &mut cc, &mut d);
    claim("a long tot is as many packets as it needs", d.len() == 188 * n && cc as usize == (old as usize + n) % 16);
    claim("the packets of a long tot are in sequence", d[3] == 0x10 + old && d[191] == 0x10 + (old + 1) % 16);
    let mut q = Psi::default();
    for k in 0 .. n { q.mux(&d[188 * k .. 188 * k + 188]); }
    claim("a long tot sent and received passes the check", q.check() && q.size == 14 + size);
}

pub fn root_np_tot_two() { long_tot(2); }
pub fn root_np_tot_three() { long_tot(3); }

fn event(name: &'static str) -> EitItem {
    let x: EitItem = nd(name);
    assume(x.start < (65536 - 40587) * 86400 && x.duration < 360000 && x.status < 8 && x.ca_mode < 2 && x.descriptors.size() < 150);
    x
}

pub fn root_np_eit() {
    let x = Eit { table_id: nd("table"), version: nd("version"), pnr: nd("pnr"), tsid: nd("tsid"), onid: nd("onid"), items: vec![event("present"), event("following")] };
    assume(x.version < 32 && (x.table_id == 0x4e || x.table_id == 0x4f));
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    x.demux(18, &mut cc, &mut d);
    claim("present and following events are two packets", d.len() == 376 && cc == (old + 2) % 16);
    claim("packet of the present event", head(&d[.. 188], 18, old));
    claim("packet of the following event", head(&d[188 ..], 18, (old + 1) % 16));
    claim("present and following events are sections zero and one", d[11] == 0 && d[199] == 1 && d[12] == 1 && d[200] == 1);
    let mut q = Psi::default();
    q.mux(&d[188 ..]);
    claim("an event sent and received passes the check", q.check());
}

pub fn root_np_schedule() {
    let x = Eit { table_id: 0x50, version: 1, pnr: nd("pnr"), tsid: nd("tsid"), onid: nd("onid"), items: vec![event("event")] };
    assume(x.items[0].start % 86400 < 10800);
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let old = cc;
    let mut d: Vec<u8> = Vec::new();
    x.demux(18, &mut cc, &mut d);
    claim("a schedule of one event in the first hours is two packets", d.len() == 376 && cc == (old + 2) % 16);
    claim("packets of the schedule", head(&d[.. 188], 18, old) && head(&d[188 ..], 18, (old + 1) % 16));
}

pub fn root_np_numbers() {
    let mut list = Vec::new();
    while list.len() < 40 { list.push(Psi::new(0x42, 8, 0)); }
    let t = Table { list };
    let mut cc = 0;
    let mut d: Vec<u8> = Vec::new();
    t.demux(17, &mut cc, &mut d);
    claim("each of many sections is in a packet", d.len() == 188 * 40);
    let k: usize = nd("k");
    assume(k < 40);
    claim("each of many sections has its number", d[188 * k + 11] as usize == k && d[188 * k + 12] as usize == 40 - 1);
    claim("each packet of many has the next counter", d[188 * k + 3] as usize == 16 + k % 16);
}

pub fn root_np_all_numbers() {
    let mut list = Vec::new();
    while list.len() < 256 { list.push(Psi::new(0x42, 8, 0)); }
    let t = Table { list };
    let mut cc = 0;
    let mut d: Vec<u8> = Vec::new();
    t.demux(17, &mut cc, &mut d);
    claim("as many sections as can be numbered", d.len() == 188 * 256 && d[11] == 0 && d[12] == 255);
    claim("a section far behind", d[188 * 200 + 11] == 200 && d[188 * 200 + 12] == 255);
    claim("the last section that can be numbered", d[188 * 255 + 11] == 255 && d[188 * 255 + 12] == 255);
}

/// A table that adds something to its numbered sections.
struct Hooked { list: Vec<Psi> }

impl PsiDemux for Hooked {
    fn psi_list_assemble(&self) -> Vec<Psi> { self.list.clone() }
    fn finalize(&self, psi: &mut Psi) {
        psi.buffer[8] = psi.buffer[6] + 1;
        psi.buffer[9] = psi.buffer[7] + 1;
    }
}

pub fn root_np_hook() {
    let t = Hooked { list: vec![section("psi"), section("second")] };
    assume(t.list[0].buffer.len() >= 10 && t.list[1].buffer.len() >= 10);
    let mut cc: u8 = nd("cc");
    assume(cc < 16);
    let mut d: Vec<u8> = Vec::new();
    t.demux(17, &mut cc, &mut d);
    claim("the hook of a table sees the numbers of each section", d.len() == 376 && d[13] == 1 && d[14] == 2 && d[201] == 2 && d[202] == 2);
    let n = t.list[0].buffer.len();
    let c = crc32b(&d[5 .. 5 + n]);
    claim("the checksum covers what the hook wrote", d[5 + n] as u32 == c >> 24 && d[6 + n] as u32 == c >> 16 & 255 && d[7 + n] as u32 == c >> 8 & 255 && d[8 + n] as u32 == c & 255);
}

pub fn root_np_again_table() { again(1020, 1020); }
pub fn root_np_again_longest() { again(4092, 4092); }
