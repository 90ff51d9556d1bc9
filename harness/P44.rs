// What the unsafe operations of the library rely on.
use mpegts::psi::*;
use mpegts::reader::{TsRead, TsDrain, TsReader};
use mpegts::textcode::StringDVB;
use mpegts::ts;
use mpegts::es::pes;
use std::fmt::{self, Display, Formatter};
use std::io::{self, Read};

/// A packet reader of someone else: looks at the buffer, writes what it likes and says what it likes.
struct Any;

impl fmt::Debug for Any {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
}

impl TsRead for Any {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        let n: usize = nd("written");
        assume(n <= packet.len());
        havoc(&mut packet[.. n], "packet");
        nd("result")
    }
}

impl Read for Any {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n: usize = nd("read");
        assume(n <= buf.len());
        havoc(&mut buf[.. n], "bytes");
        Ok(n)
    }
}

pub fn root_ub_drain() {
    let mut r = TsDrain::new(Any);
    let mut b: Vec<u8> = nd("buffer");
    let _ = r.read(&mut b);
    let _ = r.read(&mut b);
    reach("bytes of any packet reader are drained");
}

pub fn root_ub_reader() {
    let mut r = TsReader::new(Any);
    let mut b: Vec<u8> = nd("buffer");
    assume(b.len() >= 188);
    let _ = TsRead::read(&mut r, &mut b);
    reach("packets of any stream are read");
}

/// Any code of the upper half.
fn shown(codepage: u8) {
    let mut v = Vec::new();
    if codepage > 0 { v.push(0x10); v.push(0); v.push(codepage); }
    v.push(nd("byte"));
    let t = StringDVB::from(&v[..]);
    let f: &mut Formatter = nd("formatter");
    let _ = Display::fmt(&t, f);
    reach("texts of any table are shown");
}

pub fn root_ub_show_0() { shown(0) }
pub fn root_ub_show_1() { shown(1) }
pub fn root_ub_show_2() { shown(2) }
pub fn root_ub_show_3() { shown(3) }
pub fn root_ub_show_4() { shown(4) }
pub fn root_ub_show_5() { shown(5) }
pub fn root_ub_show_6() { shown(6) }
pub fn root_ub_show_7() { shown(7) }
pub fn root_ub_show_8() { shown(8) }
pub fn root_ub_show_9() { shown(9) }
pub fn root_ub_show_10() { shown(10) }
pub fn root_ub_show_11() { shown(11) }
pub fn root_ub_show_13() { shown(13) }
pub fn root_ub_show_14() { shown(14) }
pub fn root_ub_show_15() { shown(15) }

pub fn root_ub_show_any() {
    let t: StringDVB = nd("text");
    let f: &mut Formatter = nd("formatter");
    let _ = Display::fmt(&t, f);
    reach("any text is shown");
}

pub fn root_ub_encode() {
    let a: char = nd("a");
    let t = StringDVB::from_str(str_of(&[a]), nd("codepage"));
    reach("any character is encoded");
    let mut v = Vec::new();
    t.assemble_sized(&mut v);
    reach("encoded texts are sent");
}

pub fn root_ub_shorten() {
    let mut t: StringDVB = nd("text");
    t.truncate(nd("size"));
    reach("texts are shortened");
}

fn section() -> Psi { nd("psi") }

pub fn root_ub_pat() { let mut t: Pat = nd("pat"); t.parse(&section()); reach("any pat is read"); }
pub fn root_ub_pmt() { let mut t: Pmt = nd("pmt"); t.parse(&section()); reach("any pmt is read"); }
pub fn root_ub_nit() { let mut t: Nit = nd("nit"); t.parse(&section()); reach("any nit is read"); }
pub fn root_ub_sdt() { let mut t: Sdt = nd("sdt"); t.parse(&section()); reach("any sdt is read"); }
pub fn root_ub_eit() { let mut t: Eit = nd("eit"); t.parse(&section()); reach("any eit is read"); }
pub fn root_ub_tdt() { let mut t: Tdt = nd("tdt"); t.parse(&section()); reach("any tdt is read"); }
pub fn root_ub_tot() { let mut t: Tot = nd("tot"); t.parse(&section()); reach("any tot is read"); }

/// A descriptor with the tag and an arbitrary payload is read and sent.
fn descriptor(tag: u8) {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 2 && b[0] == tag && b.len() == 2 + b[1] as usize);
    let mut d = Descriptors::default();
    d.parse(b);
    reach("any descriptor is read");
    // writing extended events: in P25 and P26
    if tag == 0x4e { return; }
    let mut v = Vec::new();
    d.assemble(&mut v);
    reach("any descriptor is sent");
}

pub fn root_ub_desc_09() { descriptor(0x09) }
pub fn root_ub_desc_0a() { descriptor(0x0a) }
pub fn root_ub_desc_0e() { descriptor(0x0e) }
pub fn root_ub_desc_40() { descriptor(0x40) }
pub fn root_ub_desc_41() { descriptor(0x41) }
pub fn root_ub_desc_43() { descriptor(0x43) }
pub fn root_ub_desc_44() { descriptor(0x44) }
pub fn root_ub_desc_48() { descriptor(0x48) }
pub fn root_ub_desc_4d() { descriptor(0x4d) }
pub fn root_ub_desc_4e() { descriptor(0x4e) }
pub fn root_ub_desc_52() { descriptor(0x52) }
pub fn root_ub_desc_58() { descriptor(0x58) }
pub fn root_ub_desc_5a() { descriptor(0x5a) }
pub fn root_ub_desc_83() { descriptor(0x83) }

pub fn root_ub_desc_other() {
    let b: &[u8] = nd("bytes");
    assume(b.len() < 2 || b.len() < 2 + b[1] as usize || b[0] == 0xf0 && b.len() == 2 + b[1] as usize);
    let mut d = Descriptors::default();
    d.parse(b);
    reach("cut and other descriptors are read");
}

pub fn root_ub_collect() {
    let mut p: Psi = nd("psi");
    let b: Vec<u8> = nd("packet");
    assume(b.len() >= 188);
    p.mux(&b);
    let _ = p.check();
    reach("sections are collected from any packet");
}

pub fn root_ub_packets() {
    let mut p: Psi = nd("psi");
    let mut v = Vec::new();
    p.pid = nd("pid");
    p.demux(&mut v);
    reach("any section is sent");
}

pub fn root_ub_packet() {
    let b: &[u8] = nd("packet");
    let _ = (ts::is_sync(b), ts::get_pid(b), ts::get_cc(b), ts::is_pcr(b), ts::get_pcr(b), ts::get_payload_offset(b));
    reach("any packet is looked at");
}

pub fn root_ub_packet_set() {
    let mut b: Vec<u8> = nd("packet");
    ts::set_pid(&mut b, nd("pid"));
    ts::set_cc(&mut b, nd("cc"));
    ts::set_pcr(&mut b, nd("pcr"));
    reach("any packet is changed");
}

pub fn root_ub_stamps() {
    let b: &[u8] = nd("packet");
    let _ = (pes::get_pts(b), pes::get_dts(b), pes::get_payload_offset(b));
    reach("time stamps of any packet are read");
}
