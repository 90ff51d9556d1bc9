// Reading descriptors never panics and gives one entry per well-delimited descriptor.
use mpegts::psi::*;

fn one(tag: u8) -> Descriptors {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 2 && b.len() == 2 + b[1] as usize && b[0] == tag);
    let mut d = Descriptors::default();
    d.parse(b);
    claim("one descriptor is read from one that fills the slice", d.len() == 1);
    d
}

pub fn root_np_09() { let mut d = one(0x09); claim("tag kept 09", d.get(0).unwrap().tag() == 0x09); }
pub fn root_np_0a() { let mut d = one(0x0a); claim("tag kept 0a", d.get(0).unwrap().tag() == 0x0a); }
pub fn root_np_0e() { let mut d = one(0x0e); claim("tag kept 0e", d.get(0).unwrap().tag() == 0x0e); }
pub fn root_np_40() { let mut d = one(0x40); claim("tag kept 40", d.get(0).unwrap().tag() == 0x40); }
pub fn root_np_41() { let mut d = one(0x41); claim("tag kept 41", d.get(0).unwrap().tag() == 0x41); }
pub fn root_np_43() { let mut d = one(0x43); claim("tag kept 43", d.get(0).unwrap().tag() == 0x43); }
pub fn root_np_44() { let mut d = one(0x44); claim("tag kept 44", d.get(0).unwrap().tag() == 0x44); }
pub fn root_np_48() { let mut d = one(0x48); claim("tag kept 48", d.get(0).unwrap().tag() == 0x48); }
pub fn root_np_4d() { let mut d = one(0x4d); claim("tag kept 4d", d.get(0).unwrap().tag() == 0x4d); }
pub fn root_np_4e() { let mut d = one(0x4e); claim("tag kept 4e", d.get(0).unwrap().tag() == 0x4e); }
pub fn root_np_52() { let mut d = one(0x52); claim("tag kept 52", d.get(0).unwrap().tag() == 0x52); }
pub fn root_np_58() { let mut d = one(0x58); claim("tag kept 58", d.get(0).unwrap().tag() == 0x58); }
pub fn root_np_5a() { let mut d = one(0x5a); claim("tag kept 5a", d.get(0).unwrap().tag() == 0x5a); }
pub fn root_np_83() { let mut d = one(0x83); claim("tag kept 83", d.get(0).unwrap().tag() == 0x83); }

pub fn root_np_cut() {
    let b: &[u8] = nd("bytes");
    assume(b.len() < 2 || b.len() < 2 + b[1] as usize);
    let mut d = Descriptors::default();
    d.parse(b);
    claim("nothing is read from a descriptor cut short", d.len() == 0);
}

pub fn root_np_other() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 2 && b.len() == 2 + b[1] as usize);
    let t = b[0];
    assume(t != 0x09 && t != 0x0a && t != 0x0e && t != 0x40 && t != 0x41 && t != 0x43 && t != 0x44);
    assume(t != 0x48 && t != 0x4d && t != 0x4e && t != 0x52 && t != 0x58 && t != 0x5a && t != 0x83);
    let mut d = Descriptors::default();
    d.parse(b);
    claim("one descriptor of another kind", d.len() == 1 && d.get(0).unwrap().tag() == t);
    let r = d.get(0).unwrap().downcast_ref::<DescRaw>();
    claim("a descriptor of another kind keeps its bytes", r.tag == t && r.data[..] == b[2 ..]);
}

pub fn root_np_two() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 4 && b.len() <= 500);
    let n = 2 + b[1] as usize;
    assume(n + 2 <= b.len() && b.len() == n + 2 + b[n + 1] as usize);
    // tags that are not interpreted
    assume(b[0] >= 0x90 && b[n] >= 0x90);
    let mut d = Descriptors::default();
    d.parse(b);
    claim("two descriptors are read from two that fill the slice", d.len() == 2);
    claim("order of the two descriptors", d.get(0).unwrap().tag() == b[0] && d.get(1).unwrap().tag() == b[n]);
}

pub fn root_np_many() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 300);
    let mut k = 0;
    while k < 100 { assume(b[3 * k] == 0x52 && b[3 * k + 1] == 1); k += 1; }
    let mut d = Descriptors::default();
    d.parse(b);
    claim("many descriptors are read from many", d.len() == 100);
    let mut i = 0;
    while i < 100 {
        claim("each of many descriptors is read from its place", d.get(i).unwrap().downcast_ref::<Desc52>().tag == b[3 * i + 2]);
        i += 1;
    }
}

pub fn root_np_empty_ones() {
    let mut b = Vec::new();
    while b.len() < 2000 { b.push(0xf0); b.push(0); }
    let mut d = Descriptors::default();
    d.parse(&b);
    claim("a thousand descriptors without a payload are read", d.len() == 1000 && d.size() == 2000);
    claim("the last of them is like the first", d.get(999).unwrap().tag() == 0xf0 && d.get(0).unwrap().tag() == 0xf0);
}
