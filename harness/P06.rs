// Inspecting an arbitrary 188-byte packet never panics.
use mpegts::ts;
use mpegts::es::pes;
use std::fmt;

fn packet() -> Vec<u8> {
    let p: Vec<u8> = nd("ts");
    assume(p.len() == 188);
    p
}

pub fn root_np_accessors() {
    let p = packet();
    ts::is_sync(&p);
    ts::is_error(&p);
    ts::is_payload(&p);
    ts::is_pusi(&p);
    ts::is_adaptation(&p);
    ts::is_scrambled(&p);
    ts::get_adaptation_size(&p);
    ts::get_pid(&p);
    ts::get_cc(&p);
    ts::get_payload_offset(&p);
    ts::is_pcr(&p);
    ts::get_pcr(&p);
    reach("all packet accessors return");
}

pub fn root_np_pes_accessors() {
    let p = packet();
    pes::is_prefix(&p);
    pes::is_syntax_spec(&p);
    pes::get_length(&p);
    pes::get_payload_offset(&p);
    pes::is_pts(&p);
    pes::get_pts(&p);
    pes::is_dts(&p);
    pes::get_dts(&p);
    reach("all pes accessors return");
}

pub fn root_np_debug_packet() {
    let p = packet();
    let f: &'static mut fmt::Formatter<'static> = nd("f");
    let _ = fmt::Debug::fmt(&ts::TsPacket::new(&p), f);
    reach("packet formatting returns");
}

pub fn root_np_debug_adaptation() {
    let p = packet();
    let f: &'static mut fmt::Formatter<'static> = nd("f");
    let _ = fmt::Debug::fmt(&ts::TsAdaptation::new(&p), f);
    reach("adaptation formatting returns");
}
