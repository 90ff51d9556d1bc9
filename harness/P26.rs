// The declared size of a descriptor is what it adds to a buffer and what its length byte says.
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

/// A language or country code as it is sent.
fn three(t: &StringDVB) -> bool { t.get_codepage() == 0 && t.as_bytes().len() == 3 }

fn code(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(three(&t));
    t
}

fn text(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.as_bytes().len() < 0x10_0000);
    t
}

fn one<T: Into<Descriptor>>(d: T) {
    let mut l = Descriptors::default();
    l.push(d);
    let n = l.size();
    let mut b: Vec<u8> = nd("before");
    assume(b.len() < 0x1000_0000);
    let before = b.len();
    let added = l.assemble(&mut b);
    claim("a descriptor adds as many bytes as its size", b.len() == before + n && added == n);
    claim("a descriptor that is sent has a length byte", n == 0 || n >= 2);
    if n >= 2 { claim("the length byte counts the bytes behind it", b[before + 1] as usize == n - 2); }
}

pub fn root_np_raw() { let d: DescRaw = nd("desc"); assume(d.data.len() < 0x10_0000); one(d); }
pub fn root_np_09() { let d: Desc09 = nd("desc"); assume(d.data.len() < 0x10_0000); one(d); }
pub fn root_np_0e() { let d: Desc0E = nd("desc"); one(d); }
pub fn root_np_40() { one(Desc40 { name: text("name") }); }
pub fn root_np_43() {
    let d: Desc43 = nd("desc");
    assume(d.frequency < 1_000_000_000 && d.symbol_rate < 1_000_000 && d.orbital_position < 60000);
    one(d);
}
pub fn root_np_44() { let d: Desc44 = nd("desc"); assume(d.symbol_rate < 1_000_000); one(d); }
pub fn root_np_48() { one(Desc48 { service_type: nd("type"), provider: text("provider"), name: text("name") }); }
pub fn root_np_4d() { one(Desc4D { lang: code("lang"), name: text("name"), text: text("text") }); }
pub fn root_np_52() { let d: Desc52 = nd("desc"); one(d); }
pub fn root_np_5a() { let d: Desc5A = nd("desc"); one(d); }

pub fn root_np_0a() {
    let mut d = Desc0A::default();
    let n: usize = nd("items");
    assume(n <= 2);
    let mut i = 0;
    while i < n { d.items.push(Desc0Ai { code: code("code"), audio_type: nd("type") }); i += 1; }
    one(d);
}

pub fn root_np_41() {
    let mut d = Desc41::default();
    let n: usize = nd("items");
    assume(n <= 3);
    let mut i = 0;
    while i < n { d.items.push(Desc41i { service_id: nd("service"), service_type: nd("type") }); i += 1; }
    one(d);
}

pub fn root_np_4e() {
    let mut d = Desc4E { number: nd("number"), last_number: nd("last"), lang: code("lang"), items: Vec::new(), text: text("text") };
    if nd("with an item") { d.items.push((text("item"), text("item text"))); }
    one(d);
}

pub fn root_np_58() {
    let mut d = Desc58::default();
    let n: usize = nd("items");
    assume(n <= 2);
    let mut i = 0;
    while i < n {
        let x = Desc58i { country_code: code("code"), region_id: nd("region"), offset_polarity: nd("polarity"), offset: nd("offset"),
            time_of_change: nd("time"), next_offset: nd("next") };
        d.items.push(x);
        i += 1;
    }
    one(d);
}

pub fn root_np_83() {
    let mut d = Desc83::default();
    let n: usize = nd("items");
    assume(n <= 3);
    let mut i = 0;
    while i < n { d.items.push(Desc83i { service_id: nd("service"), visible: nd("visible"), lcn: nd("lcn") }); i += 1; }
    one(d);
}

pub fn root_np_list() {
    let x: Desc40 = Desc40 { name: text("name") };
    let y: DescRaw = nd("raw");
    assume(y.data.len() < 256 && x.name.as_bytes().len() < 200);
    let mut l = Descriptors::default();
    claim("an empty list has no size", l.size() == 0 && l.is_empty());
    l.push(x);
    let n = l.size();
    l.push(y);
    claim("the size of a list grows with each descriptor", l.size() >= n + 2 && l.len() == 2 && !l.is_empty());
    let mut b = Vec::new();
    claim("a list adds as many bytes as its size", l.assemble(&mut b) == l.size() && b.len() == l.size());
}

/// Does a descriptor of this size go into its length byte?
fn fits(l: &Descriptors, n: usize) {
    let mut b = Vec::new();
    l.assemble(&mut b);
    if n <= 257 {
        claim("a descriptor as large as its length byte allows is sent", l.size() == n && b.len() == n);
    } else {
        claim("a descriptor too large for its length byte is left out", l.size() == 0 && b.len() == 0);
    }
}

pub fn root_np_fits() {
    let d: DescRaw = nd("raw");
    let n = d.data.len();
    assume(n < 0x10_0000);
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 2 + n);
}

pub fn root_np_fits_many() {
    let n: usize = nd("count");
    assume(n == 84 || n == 85 || n == 86);
    let mut d = Desc41::default();
    while d.items.len() < n { d.items.push(Desc41i { service_id: 1, service_type: 2 }); }
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 2 + 3 * n);
}

pub fn root_np_fits_text() {
    let d = Desc4E { number: 0, last_number: 0, lang: code("lang"), items: Vec::new(), text: text("text") };
    let t = d.text.size();
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 8 + t);
}

pub fn root_np_0a_full() {
    let n: usize = nd("count");
    assume(n == 63 || n == 64);
    let mut d = Desc0A::default();
    while d.items.len() < n { d.items.push(Desc0Ai { code: code("code"), audio_type: 3 }); }
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 2 + 4 * n);
}

pub fn root_np_58_full() {
    let n: usize = nd("count");
    assume(n == 19 || n == 20);
    let mut d = Desc58::default();
    while d.items.len() < n {
        d.items.push(Desc58i { country_code: code("code"), region_id: 0, offset_polarity: 0, offset: 0, time_of_change: 0, next_offset: 0 });
    }
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 2 + 13 * n);
}

pub fn root_np_83_full() {
    let n: usize = nd("count");
    assume(n == 63 || n == 64);
    let mut d = Desc83::default();
    while d.items.len() < n { d.items.push(Desc83i { service_id: 1, visible: 1, lcn: 2 }); }
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 2 + 4 * n);
}

pub fn root_np_fits_items() {
    let mut d = Desc4E { number: 0, last_number: 0, lang: code("lang"), items: Vec::new(), text: text("text") };
    let mut n = 8 + d.text.size();
    let x = (text("item"), text("item text"));
    let y = (text("second item"), text("second item text"));
    assume(y.0.get_codepage() == 0 && y.1.get_codepage() == 0);
    n += 4 + x.0.size() + x.1.size() + y.0.size() + y.1.size();
    d.items.push(x);
    d.items.push(y);
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, n);
}

pub fn root_np_fits_texts() {
    let d = Desc48 { service_type: 1, provider: text("provider"), name: text("name") };
    let n = 5 + d.provider.size() + d.name.size();
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, n);
    let d = Desc4D { lang: code("lang"), name: text("name of the event"), text: text("text") };
    let n = 7 + d.name.size() + d.text.size();
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, n);
}

pub fn root_np_4e_full() {
    let n: usize = nd("count");
    assume(n == 124 || n == 125);
    let mut d = Desc4E { number: 0, last_number: 0, lang: code("lang"), items: Vec::new(), text: StringDVB::default() };
    while d.items.len() < n { d.items.push((StringDVB::default(), StringDVB::default())); }
    let mut l = Descriptors::default();
    l.push(d);
    fits(&l, 8 + 2 * n);
}
