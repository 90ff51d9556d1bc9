// Transport packet header fields are decoded from their ISO/IEC 13818-1 bit positions.
use mpegts::ts;

fn packet() -> Vec<u8> {
    let p: Vec<u8> = nd("ts");
    assume(p.len() >= 4);
    p
}

pub fn root_flags() {
    let p = packet();
    claim("sync holds exactly when byte 0 is 0x47", ts::is_sync(&p) == (p[0] == 0x47));
    claim("transport error is bit 7 of byte 1", ts::is_error(&p) == (p[1] >= 128));
    claim("payload unit start is bit 6 of byte 1", ts::is_pusi(&p) == (p[1] / 64 % 2 == 1));
    claim("scrambled is any of the two top bits of byte 3", ts::is_scrambled(&p) == (p[3] >= 64));
    claim("adaptation field is bit 5 of byte 3", ts::is_adaptation(&p) == (p[3] / 32 % 2 == 1));
    claim("payload is bit 4 of byte 3", ts::is_payload(&p) == (p[3] / 16 % 2 == 1));
}

pub fn root_fields() {
    let p = packet();
    claim("pid is the low 13 bits of bytes 1..2", ts::get_pid(&p) as u32 == (p[1] as u32 % 32) * 256 + p[2] as u32);
    claim("continuity counter is the low nibble of byte 3", ts::get_cc(&p) == p[3] % 16);
}

pub fn root_adaptation() {
    let p = packet();
    assume(p.len() >= 5);
    claim("adaptation field length is byte 4", ts::get_adaptation_size(&p) == p[4]);
    let o = ts::get_payload_offset(&p) as usize;
    if p[3] / 32 % 2 == 0 {
        claim("payload follows the header when there is no adaptation field", o == 4);
    } else if p[4] <= 183 {
        claim("payload follows the adaptation field", o == 5 + p[4] as usize);
    } else {
        claim("an overlong adaptation field leaves no payload in the packet", o >= 188);
    }
}

pub fn root_constants() {
    let n = mpegts::ts::NULL_PACKET;
    claim("null packet is one packet long", n.len() == 188 && mpegts::ts::PACKET_SIZE == 188);
    claim("null packet has the null pid, a payload and no flags", ts::is_sync(n) && ts::get_pid(n) == ts::PID_NULL && ts::is_payload(n)
        && !ts::is_pusi(n) && !ts::is_error(n) && !ts::is_adaptation(n) && !ts::is_scrambled(n));
    claim("fill is one packet of 0xff", ts::FILL_PACKET.len() == 188);
    let i: usize = nd("i");
    assume(i < 188);
    claim("fill byte is 0xff", ts::FILL_PACKET[i] == 0xff);
    claim("null packet payload is stuffing", i < 4 || n[i] == 0xff);
    claim("null pid is 8191", ts::PID_NULL == 8191 && ts::PID_NONE > 8191);
}
