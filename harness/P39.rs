// Comparison of sections.
use mpegts::psi::Psi;

fn sum(p: &Psi) -> [u8; 4] {
    let n = p.size - 4;
    [p.buffer[n], p.buffer[n + 1], p.buffer[n + 2], p.buffer[n + 3]]
}

fn complete(p: &Psi) -> bool { p.size >= 4 && p.buffer.len() >= p.size }

pub fn root_np_any() {
    let a: Psi = nd("a");
    let b: Psi = nd("b");
    let x = a == b;
    claim("sections of different size differ", !x || a.size == b.size);
    claim("not equal is the opposite of equal", (a != b) == !x);
    claim("comparing is symmetric", (b == a) == x);
}

pub fn root_np_complete() {
    let a: Psi = nd("a");
    let b: Psi = nd("b");
    assume(complete(&a) && complete(&b));
    claim("complete sections are equal exactly if size and checksum are", (a == b) == (a.size == b.size && sum(&a) == sum(&b)));
}

pub fn root_np_incomplete() {
    let a: Psi = nd("a");
    let b: Psi = nd("b");
    assume(!complete(&a) && a.size == b.size && a.buffer.len() == b.buffer.len());
    let x = a == b;
    let i: usize = nd("i");
    assume(i < a.buffer.len());
    claim("incomplete sections with different bytes differ", !x || a.buffer[i] == b.buffer[i]);
    let mut c = a.clone();
    claim("a copy of an incomplete section is equal", c == a);
    c.buffer[i] ^= 1;
    claim("a changed copy of an incomplete section differs", c != a);
}

pub fn root_np_mixed() {
    let a: Psi = nd("a");
    let b: Psi = nd("b");
    assume(complete(&a) && !complete(&b));
    claim("a complete section is never equal to one in progress", a != b && b != a);
}

pub fn root_np_copy() {
    let a: Psi = nd("a");
    let c = a.clone();
    claim("a copy is equal", c == a);
    claim("a copy has every field", c.size == a.size && c.pid == a.pid && c.cc == a.cc && c.buffer[..] == a.buffer[..]);
}

pub fn root_np_empty() {
    let a = Psi::default();
    claim("empty sections are equal", a == Psi::default());
    claim("an empty section holds nothing", a.size == 0 && a.buffer.len() == 0 && a.pid == 0 && a.cc == 0);
}
