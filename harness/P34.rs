// Shortening and splitting of texts.
use mpegts::textcode::StringDVB;

pub fn root_np_fits() {
    let mut t: StringDVB = nd("text");
    let u = t.clone();
    let n: usize = nd("size");
    assume(t.as_bytes().len() <= n);
    t.truncate(n);
    claim("a text that fits is not shortened", t == u);
}

pub fn root_np_truncate() {
    let mut t: StringDVB = nd("text");
    let u = t.clone();
    let n: usize = nd("size");
    assume(t.as_bytes().len() > n && t.get_codepage() != 21);
    t.truncate(n);
    let b = t.as_bytes();
    claim("a shortened text fills the room", b.len() == n && t.get_codepage() == u.get_codepage());
    let i: usize = nd("i");
    assume(i < n);
    if i + 3 < n {
        claim("a shortened text begins as before", b[i] == u.as_bytes()[i]);
    } else {
        claim("a shortened text ends with dots", b[i] == b'.');
    }
}

pub fn root_np_truncate_utf8() {
    let mut t: StringDVB = nd("text");
    let u = t.clone();
    let n: usize = nd("size");
    assume(t.as_bytes().len() > n && t.get_codepage() == 21 && n >= 6);
    // no run of more than three continuation bytes
    let d = u.as_bytes();
    assume(d[n - 3] / 64 != 2 || d[n - 4] / 64 != 2 || d[n - 5] / 64 != 2 || d[n - 6] / 64 != 2);
    t.truncate(n);
    let b = t.as_bytes();
    claim("a shortened utf-8 text fits and is shortened by less than a character", b.len() <= n && b.len() + 3 >= n && t.get_codepage() == 21);
    let k = b.len() - 3;
    claim("a shortened utf-8 text begins as before", b[.. k] == d[.. k]);
    claim("a shortened utf-8 text ends with dots", b[k] == b'.' && b[k + 1] == b'.' && b[k + 2] == b'.');
    claim("utf-8 characters are not cut by shortening", d[k] / 64 != 2);
}

pub fn root_np_split_empty() {
    let t: StringDVB = nd("text");
    assume(t.is_empty());
    let l = t.split(nd("size"));
    claim("an empty text is one part", l.len() == 1 && l[0] == t);
}

pub fn root_np_split() {
    let t: StringDVB = nd("text");
    let n: usize = nd("size");
    let c = t.get_codepage();
    assume(n >= 8 && n < 0x1000_0000 && c != 21 && t.as_bytes().len() > 0 && t.as_bytes().len() <= 2 * (n - 3));
    let l = t.split(n);
    let mut all = Vec::new();
    for p in l.iter() { all.extend_from_slice(p.as_bytes()); }
    claim("parts make up the text", all[..] == t.as_bytes()[..]);
    let i: usize = nd("i");
    assume(i < l.len());
    claim("every part fits with its table number", l[i].size() <= n && l[i].size() > 0);
    claim("every part is in the table of the text", l[i].get_codepage() == c);
}

pub fn root_np_split_utf8() {
    let t: StringDVB = nd("text");
    let n: usize = nd("size");
    assume(n >= 8 && n < 0x1000_0000 && t.get_codepage() == 21);
    let d = t.as_bytes();
    assume(d.len() >= n && d.len() <= 2 * n - 5);
    assume(d[n - 1] / 64 != 2 || d[n - 2] / 64 != 2 || d[n - 3] / 64 != 2 || d[n - 4] / 64 != 2);
    let l = t.split(n);
    claim("a longer utf-8 text has two parts", l.len() == 2);
    let k = l[0].as_bytes().len();
    claim("utf-8 parts fit", l[0].size() <= n && l[1].size() <= n && k > 0);
    claim("first utf-8 part", l[0].as_bytes()[..] == d[.. k] && l[0].get_codepage() == 21);
    claim("second utf-8 part", l[1].as_bytes()[..] == d[k ..] && l[1].get_codepage() == 21);
    claim("utf-8 characters are not cut by splitting", d[k] / 64 != 2);
}

pub fn root_np_split_small() {
    let t: StringDVB = nd("text");
    assume(t.as_bytes().len() <= 3);
    let n: usize = nd("size");
    let l = t.split(n);
    let mut all = Vec::new();
    for p in l.iter() { all.extend_from_slice(p.as_bytes()); }
    claim("parts of a short text make it up, however small", all[..] == t.as_bytes()[..]);
}

pub fn root_np_split_narrow() {
    let t: StringDVB = nd("text");
    assume(t.as_bytes().len() <= 3 && t.get_codepage() != 21);
    let n: usize = nd("size");
    let l = t.split(n);
    let i: usize = nd("i");
    assume(i < l.len() && n > t.size() - t.as_bytes().len());
    claim("every part fits into little room", l[i].size() <= n);
}

pub fn root_np_split_many() {
    let t: StringDVB = nd("text");
    let n = t.as_bytes().len();
    assume(n == 50 && t.get_codepage() != 21);
    let l = t.split(7);
    let k = if t.get_codepage() == 0 { 7 } else { 4 };
    claim("a long text has many parts", l.len() == (n + k - 1) / k);
    let mut i = 0;
    while i < l.len() {
        let m = if (i + 1) * k < n { k } else { n - i * k };
        claim("each of many parts is the next piece of the text", l[i].as_bytes()[..] == t.as_bytes()[i * k .. i * k + m]);
        i += 1;
    }
}

pub fn root_np_split_many_utf8() {
    let t: StringDVB = nd("text");
    let d = t.as_bytes();
    assume(d.len() == 30 && t.get_codepage() == 21);
    // ten characters of three bytes
    let mut i = 0;
    while i < 30 { assume(d[i] / 64 == if i % 3 == 0 { 3 } else { 2 }); i += 1; }
    let l = t.split(9);
    claim("a long utf-8 text has many parts", l.len() == 5);
    let mut i = 0;
    while i < 5 {
        claim("each of many utf-8 parts is the next whole characters", l[i].as_bytes()[..] == d[6 * i .. 6 * i + 6] && l[i].get_codepage() == 21);
        i += 1;
    }
}
