// Header setters store exactly the requested field and leave every other bit of the packet alone.
use mpegts::ts;

fn packet() -> Vec<u8> {
    let p: Vec<u8> = nd("ts");
    assume(p.len() >= 4);
    p
}

fn frame(p: &[u8], q: &[u8], a: usize, b: usize) {
    claim("packet length is unchanged", p.len() == q.len());
    let i: usize = nd("i");
    assume(i < q.len() && i != a && i != b);
    claim("bytes outside the field are unchanged", p[i] == q[i]);
}

pub fn root_set_pid() {
    let mut p = packet();
    let q = p.clone();
    let pid: u16 = nd("pid");
    assume(pid < 8192);
    ts::set_pid(&mut p, pid);
    claim("pid reads back", ts::get_pid(&p) == pid);
    claim("flags in the pid word are kept", p[1] / 32 == q[1] / 32);
    frame(&p, &q, 1, 2);
}

pub fn root_set_cc() {
    let mut p = packet();
    let q = p.clone();
    let cc: u8 = nd("cc");
    assume(cc < 16);
    ts::set_cc(&mut p, cc);
    claim("continuity counter reads back", ts::get_cc(&p) == cc);
    claim("flags beside the counter are kept", p[3] / 16 == q[3] / 16);
    frame(&p, &q, 3, 3);
}

pub fn root_set_payload() {
    let mut p = packet();
    let q = p.clone();
    let on: bool = nd("on");
    if on { ts::set_payload_1(&mut p) } else { ts::set_payload_0(&mut p) }
    claim("payload flag reads back", ts::is_payload(&p) == on);
    claim("other bits of byte 3 are kept", p[3] / 32 == q[3] / 32 && p[3] % 16 == q[3] % 16);
    frame(&p, &q, 3, 3);
}

pub fn root_set_pusi() {
    let mut p = packet();
    let q = p.clone();
    let on: bool = nd("on");
    if on { ts::set_pusi_1(&mut p) } else { ts::set_pusi_0(&mut p) }
    claim("unit start flag reads back", ts::is_pusi(&p) == on);
    claim("other bits of byte 1 are kept", p[1] / 128 == q[1] / 128 && p[1] % 64 == q[1] % 64);
    frame(&p, &q, 1, 1);
}

pub fn root_np_setters() {
    let mut p = packet();
    let pid: u16 = nd("pid");
    let cc: u8 = nd("cc");
    assume(pid < 8192 && cc < 16);
    ts::set_pid(&mut p, pid);
    ts::set_cc(&mut p, cc);
    ts::set_payload_0(&mut p);
    ts::set_payload_1(&mut p);
    ts::set_pusi_0(&mut p);
    ts::set_pusi_1(&mut p);
    reach("setters return on every legal argument");
}
