// A descriptor that was read can be sent again.
use mpegts::psi::*;

fn read(b: &[u8]) -> Descriptors {
    let mut l = Descriptors::default();
    l.parse(b);
    l
}

/// The bytes of a descriptor, read and sent.
fn send(l: &Descriptors) -> Vec<u8> {
    let mut out = Vec::new();
    let n = l.assemble(&mut out);
    claim("what was read takes as many bytes as its size", n == l.size() && out.len() == n && n >= 2);
    claim("what was read has a right length byte", out[1] as usize == n - 2);
    out
}

fn bytes(tag: u8, n: usize) -> Vec<u8> {
    let b: Vec<u8> = nd("bytes");
    assume(n >= 2 && b.len() == n && b[0] == tag && b[1] as usize == n - 2);
    b
}

fn again(b: &[u8]) {
    let mut l = read(b);
    let x = send(&l);
    let mut m = read(&x);
    claim("what was sent again is read as one descriptor", m.len() == 1 && l.len() == 1);
    claim("the kind of a descriptor stays", m.get(0).unwrap().tag() == b[0] && l.get(0).unwrap().tag() == b[0]);
    let y = send(&m);
    claim("a descriptor that goes round stays the same", x[..] == y[..]);
}

pub fn root_np_43() { again(&bytes(0x43, 13)); }
pub fn root_np_44() { again(&bytes(0x44, 13)); }
pub fn root_np_5a() { again(&bytes(0x5a, 13)); }
pub fn root_np_0e() { again(&bytes(0x0e, 5)); }
pub fn root_np_52() { again(&bytes(0x52, 3)); }
pub fn root_np_09() { again(&bytes(0x09, nd("size"))); }
pub fn root_np_0a() { again(&bytes(0x0a, 6)); }
pub fn root_np_0a_two() { again(&bytes(0x0a, 10)); }
pub fn root_np_41() { again(&bytes(0x41, 8)); }
pub fn root_np_58() {
    let b = bytes(0x58, 15);
    let l = read(&b);
    let x = send(&l);
    claim("codes and regions stay", x.len() == 15 && x[2 .. 5] == b[2 .. 5] && x[5] / 4 == b[5] / 4 && x[5] % 2 == b[5] % 2);
}
fn digits(b: u8) -> bool { b / 16 < 10 && b % 16 < 10 }
pub fn root_np_58_time() {
    let b = bytes(0x58, 15);
    assume(digits(b[6]) && digits(b[7]) && b[6] < 0x24 && b[7] < 0x60);
    assume(b[8] as u32 * 256 + b[9] as u32 >= 40587);
    assume(digits(b[10]) && digits(b[11]) && digits(b[12]) && b[10] < 0x24 && b[11] < 0x60 && b[12] < 0x60);
    assume(digits(b[13]) && digits(b[14]) && b[13] < 0x24 && b[14] < 0x60);
    let x = send(&read(&b));
    claim("offsets and times stay", x.len() == 15 && x[6 ..] == b[6 ..]);
}
pub fn root_np_83() { again(&bytes(0x83, 10)); }
pub fn root_np_40() { again(&bytes(0x40, nd("size"))); }
pub fn root_np_48() { again(&bytes(0x48, nd("size"))); }
pub fn root_np_4d() { again(&bytes(0x4d, nd("size"))); }
pub fn root_np_4e() {
    let b = bytes(0x4e, nd("size"));
    assume(b.len() > 8);
    assume(b[6] == 0);
    again(&b);
}
pub fn root_np_4e_item() {
    let b = bytes(0x4e, nd("size"));
    assume(b.len() > 10);
    assume(b[6] > 2 && b[7] < b[6] - 1 && b.len() > 9 + b[7] as usize && b[8 + b[7] as usize] == b[6] - 2 - b[7]);
    assume(b.len() == 8 + b[6] as usize);
    again(&b);
}
pub fn root_np_83_many() { again(&bytes(0x83, 42)); }
pub fn root_np_41_many() { again(&bytes(0x41, 32)); }
pub fn root_np_0a_many() { again(&bytes(0x0a, 42)); }
pub fn root_np_58_many() { send(&read(&bytes(0x58, 67))); }
pub fn root_np_other() {
    let b: Vec<u8> = nd("bytes");
    assume(b.len() >= 2 && b.len() == 2 + b[1] as usize && b[0] > 0x90);
    let x = send(&read(&b));
    claim("a descriptor of another kind is sent as it came", x[..] == b[..]);
}
