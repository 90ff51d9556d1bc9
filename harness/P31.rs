// Texts as they are received and sent.
use mpegts::textcode::StringDVB;

/// Tables a text can be in.
fn known(c: u8) -> bool { c <= 15 || c == 21 }

pub fn root_np_empty() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 0);
    let t = StringDVB::from(b);
    claim("no bytes are an empty text", t.is_empty() && t.get_codepage() == 0 && t.size() == 0);
}

pub fn root_np_default() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 1 && b[0] >= 0x20);
    let t = StringDVB::from(b);
    claim("a text without selection is in the default table", t.get_codepage() == 0 && t.as_bytes() == b);
}

pub fn root_np_one_byte() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 1 && b[0] >= 1 && b[0] <= 0x0b);
    let t = StringDVB::from(b);
    claim("a one-byte selection names the tables from five on", t.get_codepage() == b[0] + 4);
    claim("the text follows the selection", t.as_bytes() == &b[1 ..]);
}

pub fn root_np_three_bytes() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 3 && b[0] == 0x10 && b[1] == 0 && b[2] >= 1 && b[2] <= 15);
    let t = StringDVB::from(b);
    claim("a three-byte selection names the table", t.get_codepage() == b[2]);
    claim("the text follows the three bytes", t.as_bytes() == &b[3 ..]);
}

pub fn root_np_utf8() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 1 && b[0] == 0x15);
    let t = StringDVB::from(b);
    claim("utf-8 is marked by one byte", t.get_codepage() == 21 && t.as_bytes() == &b[1 ..]);
}

pub fn root_np_reserved() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 1);
    let x = b[0];
    assume(x == 0 || x >= 0x0c && x < 0x20 && x != 0x10 && x != 0x15
        || x == 0x10 && (b.len() < 3 || b[1] != 0 || b[2] == 0 || b[2] > 15));
    let t = StringDVB::from(b);
    claim("a text of a reserved table is a question mark", t.get_codepage() == 0 && t.as_bytes().len() == 1 && t.as_bytes()[0] == b'?');
}

pub fn root_np_any() {
    let b: &[u8] = nd("bytes");
    let t = StringDVB::from(b);
    claim("every text received is in a table that can be sent", known(t.get_codepage()));
    claim("a text is not longer than what it was read from", t.as_bytes().len() <= b.len());
}

pub fn root_np_assemble() {
    let t: StringDVB = nd("text");
    assume(known(t.get_codepage()) && t.as_bytes().len() >= 1);
    let c = t.get_codepage();
    let mut b: Vec<u8> = nd("before");
    let n = b.len();
    let e = b.clone();
    assume(n < 0x1000_0000 && t.as_bytes().len() < 0x1000_0000);
    t.assemble(&mut b);
    claim("bytes in front of a text stay", b[.. n] == e[..]);
    claim("a text adds as many bytes as its size", b.len() == n + t.size());
    let k = b.len() - t.as_bytes().len();
    claim("the text ends the bytes", b[k ..] == t.as_bytes()[..]);
    if c == 0 {
        claim("the default table is not marked", k == n);
    } else if c <= 4 {
        claim("the first tables are marked by three bytes", k == n + 3 && b[n] == 0x10 && b[n + 1] == 0 && b[n + 2] == c);
    } else if c == 21 {
        claim("utf-8 is sent with its mark", k == n + 1 && b[n] == 0x15);
    } else {
        claim("other tables are marked by one byte", k == n + 1 && b[n] == c - 4);
    }
}

pub fn root_np_again() {
    let t: StringDVB = nd("text");
    assume(known(t.get_codepage()) && t.as_bytes().len() >= 1);
    assume(t.get_codepage() != 0 || t.as_bytes()[0] >= 0x20);
    let mut b = Vec::new();
    t.assemble(&mut b);
    let u = StringDVB::from(&b[..]);
    claim("a text sent and received has its table", u.get_codepage() == t.get_codepage());
    claim("a text sent and received has its bytes", u.as_bytes() == t.as_bytes());
}

pub fn root_np_nothing() {
    let t: StringDVB = nd("text");
    assume(t.is_empty());
    let mut b: Vec<u8> = nd("before");
    let n = b.len();
    t.assemble(&mut b);
    claim("an empty text adds nothing", b.len() == n && t.size() == 0);
    t.assemble_sized(&mut b);
    claim("an empty text has a zero length byte", b.len() == n + 1 && b[n] == 0);
}

pub fn root_np_sized() {
    let t: StringDVB = nd("text");
    assume(t.as_bytes().len() >= 1 && t.size() < 256);
    let mut b: Vec<u8> = nd("before");
    let n = b.len();
    t.assemble_sized(&mut b);
    let mut e = Vec::new();
    t.assemble(&mut e);
    claim("the length byte counts the bytes of the text", b.len() == n + 1 + t.size() && b[n] as usize == t.size());
    claim("the text follows its length", b[n + 1 ..] == e[..]);
}
