// The program clock reference survives a write and a read, and its presence test follows the standard.
use mpegts::ts;

fn packet() -> Vec<u8> {
    let p: Vec<u8> = nd("ts");
    assume(p.len() == 188);
    p
}

pub fn root_np_roundtrip() {
    let mut p = packet();
    let q = p.clone();
    let v: u64 = nd("pcr");
    assume(v < (1u64 << 33) * 300);
    ts::set_pcr(&mut p, v);
    claim("pcr reads back", ts::get_pcr(&p) == v);
    claim("reserved bits are ones", p[10] / 2 % 64 == 63);
    let i: usize = nd("i");
    assume(i < 188 && (i < 6 || i > 11));
    claim("only the six pcr bytes change", p[i] == q[i] && p.len() == 188);
}

pub fn root_np_layout() {
    let p = packet();
    let base = (p[6] as u64) * (1 << 25) + (p[7] as u64) * (1 << 17) + (p[8] as u64) * (1 << 9) + (p[9] as u64) * 2 + (p[10] as u64) / 128;
    let ext = (p[10] as u64 % 2) * 256 + p[11] as u64;
    claim("pcr is base * 300 + extension at bytes 6..11", ts::get_pcr(&p) == base * 300 + ext);
}

pub fn root_np_present() {
    let p = packet();
    claim("pcr is present exactly with an adaptation field of 7 bytes or more and the pcr flag",
        ts::is_pcr(&p) == (p[3] / 32 % 2 == 1 && p[4] >= 7 && p[5] / 16 % 2 == 1));
}

pub fn root_constants() {
    claim("clock constants", ts::PCR_NONE == 300 * (1 << 33) && ts::PCR_MAX == ts::PCR_NONE - 1 && ts::PCR_SYSTEM_CLOCK == 27_000_000
        && ts::PCR_CLOCK_MS == 27_000 && ts::PCR_CLOCK_US == 27);
}
