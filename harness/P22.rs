// Classification of the streams of a program.
use mpegts::psi::*;
use mpegts::es::StreamType;

fn raw(tag: u8) -> DescRaw { DescRaw { tag, data: nd("data") } }

fn video(t: u8) -> bool { t == 0x01 || t == 0x02 || t == 0x10 || t == 0x1b || t == 0x24 }
fn audio(t: u8) -> bool { t == 0x03 || t == 0x04 || t == 0x0f || t == 0x11 }

/// What a descriptor says about a private stream.
fn private(tag: u8) -> Option<StreamType> {
    if tag == 0x56 { return Some(StreamType::TTX); }
    if tag == 0x59 { return Some(StreamType::SUB); }
    if tag == 0x6a || tag == 0x7a || tag == 0x81 { return Some(StreamType::AUDIO); }
    None
}

pub fn root_np_plain() {
    let mut x = PmtItem::default();
    x.stream_type = nd("type");
    let t = x.stream_type;
    assume(t != 5 && t != 6);
    if nd("with a descriptor") { x.descriptors.push(raw(nd("tag"))); }
    let want = if video(t) { StreamType::VIDEO } else if audio(t) { StreamType::AUDIO } else { StreamType::DATA };
    claim("kind of a stream that its type alone decides", x.get_stream_type() == want);
}

pub fn root_np_sections() {
    let mut x = PmtItem::default();
    x.stream_type = 5;
    claim("private sections without descriptors are data", x.get_stream_type() == StreamType::DATA);
    let a: u8 = nd("first");
    let b: u8 = nd("second");
    x.descriptors.push(raw(a));
    x.descriptors.push(raw(b));
    claim("private sections are application information exactly with its descriptor",
        x.get_stream_type() == if a == 0x6f || b == 0x6f { StreamType::AIT } else { StreamType::DATA });
}

pub fn root_np_private() {
    let mut x = PmtItem::default();
    x.stream_type = 6;
    claim("private data without descriptors is data", x.get_stream_type() == StreamType::DATA);
    let a: u8 = nd("first");
    let b: u8 = nd("second");
    x.descriptors.push(raw(a));
    x.descriptors.push(raw(b));
    let got = x.get_stream_type();
    match private(a) {
        Some(k) => claim("the first telling descriptor decides private data", got == k),
        None => match private(b) {
            Some(k) => claim("a later descriptor decides private data", got == k),
            None => claim("private data without telling descriptors is data", got == StreamType::DATA),
        },
    }
}

pub fn root_np_far() {
    let mut x = PmtItem::default();
    while x.descriptors.len() < 20 { x.descriptors.push(raw(0x0a)); }
    let t: u8 = nd("tag");
    x.descriptors.push(raw(t));
    x.stream_type = 5;
    claim("the descriptor of application information may be the last of many", x.get_stream_type() == if t == 0x6f { StreamType::AIT } else { StreamType::DATA });
    x.stream_type = 6;
    let got = x.get_stream_type();
    match private(t) {
        Some(k) => claim("the telling descriptor may be the last of many", got == k),
        None => claim("many descriptors that tell nothing", got == StreamType::DATA),
    }
}

pub fn root_np_only() {
    let mut x = PmtItem::default();
    let t: u8 = nd("tag");
    x.descriptors.push(raw(t));
    x.stream_type = 5;
    claim("the descriptor of application information may be the only one", x.get_stream_type() == if t == 0x6f { StreamType::AIT } else { StreamType::DATA });
    x.stream_type = 6;
    let got = x.get_stream_type();
    match private(t) {
        Some(k) => claim("the telling descriptor may be the only one", got == k),
        None => claim("a single descriptor that tells nothing", got == StreamType::DATA),
    }
}

pub fn root_np_three() {
    let mut x = PmtItem::default();
    let (a, b, c): (u8, u8, u8) = (nd("first"), nd("second"), nd("third"));
    x.descriptors.push(raw(a));
    x.descriptors.push(raw(b));
    x.descriptors.push(raw(c));
    x.stream_type = 6;
    let want = private(a).or(private(b)).or(private(c)).unwrap_or(StreamType::DATA);
    claim("the first telling one of three descriptors decides", x.get_stream_type() == want);
    x.stream_type = 5;
    claim("the descriptor of application information may be one of three",
        x.get_stream_type() == if a == 0x6f || b == 0x6f || c == 0x6f { StreamType::AIT } else { StreamType::DATA });
}
