// Parsing a section of any content into any table never panics.
use mpegts::psi::*;

fn section() -> Psi {
    let p: Psi = nd("psi");
    assume(p.size == 0 || p.buffer.len() >= 3);
    p
}

pub fn root_np_pat() { let mut t: Pat = nd("pat"); t.parse(&section()); reach("pat parsing returns"); }
pub fn root_np_pmt() { let mut t: Pmt = nd("pmt"); t.parse(&section()); reach("pmt parsing returns"); }
pub fn root_np_nit() { let mut t: Nit = nd("nit"); t.parse(&section()); reach("nit parsing returns"); }
pub fn root_np_sdt() { let mut t: Sdt = nd("sdt"); t.parse(&section()); reach("sdt parsing returns"); }
pub fn root_np_eit() { let mut t: Eit = nd("eit"); t.parse(&section()); reach("eit parsing returns"); }
pub fn root_np_tdt() { let mut t: Tdt = nd("tdt"); t.parse(&section()); reach("tdt parsing returns"); }
pub fn root_np_tot() { let mut t: Tot = nd("tot"); t.parse(&section()); reach("tot parsing returns"); }

pub fn root_np_new() {
    let p = section();
    let _ = (Pat::from(&p).items.len(), Tdt::from(&p).time, Tot::from(&p).time);
    reach("tables are built from any section");
}
