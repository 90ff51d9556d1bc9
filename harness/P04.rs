// PES packet header fields are decoded from their ISO/IEC 13818-1 bit positions.
use mpegts::es::pes;

fn packet() -> Vec<u8> {
    let p: Vec<u8> = nd("pes");
    assume(p.len() >= 19);
    p
}

fn stamp(p: &[u8], i: usize) -> u64 {
    (p[i] as u64 / 2 % 8) * (1 << 30)
        + ((p[i + 1] as u64) * 128 + p[i + 2] as u64 / 2) * (1 << 15)
        + (p[i + 3] as u64) * 128 + p[i + 4] as u64 / 2
}

pub fn root_np_prefix() {
    let p = packet();
    claim("start code prefix is 00 00 01", pes::is_prefix(&p) == (p[0] == 0 && p[1] == 0 && p[2] == 1));
    claim("packet length is bytes 4..5", pes::get_length(&p) as u32 == p[4] as u32 * 256 + p[5] as u32);
}

pub fn root_np_optional_header() {
    let p = packet();
    let id = p[3];
    let plain = id == 0xBC || id == 0xBE || id == 0xBF || id == 0xF0 || id == 0xF1 || id == 0xF2 || id == 0xF8 || id == 0xFF;
    claim("stream ids without the optional header", pes::is_syntax_spec(&p) == !plain);
    claim("payload offset", pes::get_payload_offset(&p) as u32 == if plain { 6 } else { 9 + p[8] as u32 });
}

pub fn root_np_stamps() {
    let p = packet();
    claim("pts flag is bit 7 of byte 7", pes::is_pts(&p) == (p[7] >= 128));
    claim("dts flag is bit 6 of byte 7", pes::is_dts(&p) == (p[7] / 64 % 2 == 1));
    claim("pts is the 33-bit stamp at byte 9", pes::get_pts(&p) == stamp(&p, 9));
    claim("dts is the 33-bit stamp at byte 14", pes::get_dts(&p) == stamp(&p, 14));
    claim("stamps are below the wrap value", pes::get_pts(&p) <= pes::PTS_MAX && pes::get_dts(&p) <= pes::PTS_MAX);
    claim("wrap constants", pes::PTS_NONE == 1 << 33 && pes::PTS_MAX == pes::PTS_NONE - 1);
}
