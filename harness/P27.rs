// A clone of a descriptor is the same descriptor and does not share anything with it.
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

fn code(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.get_codepage() == 0 && t.as_bytes().len() == 3);
    t
}

fn text(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.as_bytes().len() < 80);
    t
}

fn one<T: Into<Descriptor>>(d: T) {
    let mut l = Descriptors::default();
    l.push(d);
    let mut c = l.clone();
    claim("a clone has the same kind", c.len() == 1 && c.get(0).unwrap().tag() == l.get(0).unwrap().tag());
    claim("a clone has the same size", c.size() == l.size());
    let mut b = Vec::new();
    l.assemble(&mut b);
    let mut e = Vec::new();
    c.assemble(&mut e);
    claim("a clone has the same bytes", b[..] == e[..]);
}

pub fn root_np_raw() { let d: DescRaw = nd("desc"); assume(d.data.len() < 256); one(d); }
pub fn root_np_09() { let d: Desc09 = nd("desc"); assume(d.data.len() < 252); one(d); }
pub fn root_np_0e() { let d: Desc0E = nd("desc"); one(d); }
pub fn root_np_40() { one(Desc40 { name: text("name") }); }
pub fn root_np_43() {
    let d: Desc43 = nd("desc");
    assume(d.frequency < 1_000_000_000 && d.symbol_rate < 1_000_000 && d.orbital_position < 60000);
    one(d);
}
pub fn root_np_44() { let d: Desc44 = nd("desc"); assume(d.symbol_rate < 1_000_000); one(d); }
pub fn root_np_48() { one(Desc48 { service_type: nd("type"), provider: text("provider"), name: text("name") }); }
pub fn root_np_4d() { one(Desc4D { lang: code("lang"), name: text("name"), text: text("text") }); }
pub fn root_np_52() { let d: Desc52 = nd("desc"); one(d); }
pub fn root_np_5a() { let d: Desc5A = nd("desc"); one(d); }

pub fn root_np_0a() {
    let mut d = Desc0A::default();
    d.items.push(Desc0Ai { code: code("code"), audio_type: nd("type") });
    one(d);
}

pub fn root_np_41() {
    let mut d = Desc41::default();
    d.items.push(Desc41i { service_id: nd("service"), service_type: nd("type") });
    d.items.push(Desc41i { service_id: nd("second service"), service_type: nd("second type") });
    one(d);
}

pub fn root_np_4e() {
    let mut d = Desc4E { number: nd("number"), last_number: nd("last"), lang: code("lang"), items: Vec::new(), text: text("text") };
    d.items.push((text("item"), text("item text")));
    one(d);
}

pub fn root_np_58() {
    let mut d = Desc58::default();
    d.items.push(Desc58i { country_code: code("code"), region_id: nd("region"), offset_polarity: nd("polarity"), offset: nd("offset"),
        time_of_change: nd("time"), next_offset: nd("next") });
    one(d);
}

pub fn root_np_83() {
    let mut d = Desc83::default();
    d.items.push(Desc83i { service_id: nd("service"), visible: nd("visible"), lcn: nd("lcn") });
    d.items.push(Desc83i { service_id: nd("second service"), visible: nd("second visible"), lcn: nd("second lcn") });
    one(d);
}

pub fn root_np_apart() {
    let x: Desc52 = nd("desc");
    let tag = x.tag;
    let mut l = Descriptors::default();
    l.push(x);
    let mut c = l.clone();
    c.get_mut(0).unwrap().downcast_mut::<Desc52>().tag = nd("new");
    c.push(Desc52::default());
    claim("changing a clone leaves the original alone", l.len() == 1 && l.get(0).unwrap().downcast_ref::<Desc52>().tag == tag);
}

pub fn root_np_malformed() {
    // a descriptor kept as raw bytes because its payload is malformed
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 2 && b.len() == 2 + b[1] as usize && b.len() != 13 && b[0] == 0x43);
    let mut l = Descriptors::default();
    l.parse(b);
    let c = l.clone();
    let mut e = Vec::new();
    c.assemble(&mut e);
    claim("a malformed descriptor is cloned as it is", e[..] == b[..]);
}

pub fn root_np_long() {
    let mut l = Descriptors::default();
    while l.len() < 400 { l.push(DescRaw { tag: 0xc0 + (l.len() % 32) as u8, data: vec![l.len() as u8] }); }
    let mut c = l.clone();
    claim("a clone of a long list is as long", c.len() == 400 && c.size() == 1200);
    let mut i = 0;
    while i < 400 {
        let d = c.get(i).unwrap().downcast_ref::<DescRaw>();
        claim("a clone of a long list has the same descriptors", d.tag == 0xc0 + (i % 32) as u8 && d.data[..] == [i as u8][..]);
        i += 1;
    }
}
