// Language codes.
use mpegts::textcode::lang;

const N: usize = 146;

// ISO 639-1, ISO 639-2/T and ISO 639-2/B of the languages listed, letter by letter
static A0: [u8; 146] = *b"aaaaaaaabbbbbbbcccccddddeeeeeeffffffggggghhhhhhhiiiijkkkkkkkkkkkklllllllmmmmmmmmmnnnnnnnooooppppqrrrrsssssssssssssssssttttttttttttttuuuuvvwwxyyzzz";
static A1: [u8; 146] = *b"bfkmrsyzaegmnosaosvyaevzelnstuafijryadlnuaeirtuydgstaagiklmnorsuybginotvghklnrstyadelorycmrsalstunouwacdgiklmnoqrstuvwaeghiklnorstwygkrzeiaohioahu";
static T0: [u8; 146] = *b"aaaaaaaabbbbbbbcccccddddeeeseeffffffggggghhhhhhhiiiijkkkkkkkkkkkklllllllmmmmmmmmmnnnnnnnooooppppqrrrksssssssssssssssssttttttttttttttuuuuvvwwxyyzzz";
static T1: [u8; 146] = *b"bfkmrsyzaeuaeooaoehyaeizwlnpsuauiirrlllruaeirauynbstpaoiaahaoaauituiiaialakaoaslyadelobycrrsaououuouiarnaillmnoqrsouwwaeghiugsousawaikrzeilohiohhu";
static T2: [u8; 146] = *b"krahammekllmndstssvmnuvoelgatsslnjayeagnjubnvtnedolantnkzlmnrusrrzgmnotvghdlnratauepdrlaimisnlsrennsnnddgnkvoamipwtneamlkarklnnrotihgrdbnenlodraol";
static B0: [u8; 146] = *b"aaaaaaaabbbbbtbccccwdgddegesebpfffffggggghhhhhhaiiiijgkkkkkkkkkkklllllllmmmmmmmmbnnndnnnooooppppqrrrkssssssssssassssssttttttttttttttuuuuvvwwxyyzcz";
static B1: [u8; 146] = *b"bfkmrsyzaeuaeioaozheaeizwrnpsaeuiirrlllruaeiraurnbctpeoiaahaoaauituiiaialaaaoaaluadeuobycrrsaououuuuiarnaillmnolrsouwwaeghiugsousawaikrzeilohiohhu";
static B2: [u8; 146] = *b"krahammekllmnbstsevlnrvoeegatqrlnjeyeagnjubnvtnmdoeanonkzlmnrusrrzgmnotvghclnrytrueptrlaimisnlsrenmsnnddgnovoambpwtneamlkarklnnrotihgrdbnenlodrail";

fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }

pub fn root_np_two() {
    let i: usize = nd("language");
    assume(i < N);
    let r = lang::convert(text(&[A0[i], A1[i]]));
    claim("every two-letter code is known", r.is_some());
    let r = r.unwrap().as_bytes();
    claim("a two-letter code gives the bibliographic code", r.len() == 3 && r[0] == B0[i] && r[1] == B1[i] && r[2] == B2[i]);
}

fn back(i: usize, code: &[u8]) {
    let r = lang::convert(text(code));
    claim("every three-letter code is known", r.is_some());
    let r = r.unwrap().as_bytes();
    claim("a three-letter code gives the two-letter code", r.len() == 2 && r[0] == A0[i] && r[1] == A1[i]);
}

pub fn root_np_terminology() {
    let i: usize = nd("language");
    assume(i < N);
    back(i, &[T0[i], T1[i], T2[i]]);
}

pub fn root_np_bibliographic() {
    let i: usize = nd("language");
    assume(i < N);
    back(i, &[B0[i], B1[i], B2[i]]);
}

pub fn root_np_other_size() {
    let s: &str = nd("code");
    assume(s.len() != 2 && s.len() != 3);
    claim("codes of other sizes give nothing", lang::convert(s).is_none());
}

pub fn root_np_foreign_two() {
    let s: [u8; 2] = nd("code");
    if let Some(_) = lang::convert(text(&s)) {
        let mut known = false;
        for i in 0 .. N { if s[0] == A0[i] && s[1] == A1[i] { known = true; } }
        claim("no other two-letter code is known", known);
    }
}

pub fn root_np_foreign_three() {
    let s: [u8; 3] = nd("code");
    if let Some(_) = lang::convert(text(&s)) {
        let mut known = false;
        for i in 0 .. N { if s[0] == T0[i] && s[1] == T1[i] && s[2] == T2[i] || s[0] == B0[i] && s[1] == B1[i] && s[2] == B2[i] { known = true; } }
        claim("no other three-letter code is known", known);
    }
}

pub fn root_np_case() {
    let mut i = 0;
    while i < N {
        let (a, t) = ([A0[i] - 32, A1[i] - 32], [T0[i] - 32, T1[i] - 32, T2[i] - 32]);
        claim("codes in capitals are no codes", lang::convert(text(&a)).is_none() && lang::convert(text(&t)).is_none());
        claim("codes with a capital are no codes", lang::convert(text(&[A0[i] - 32, A1[i]])).is_none() && lang::convert(text(&[B0[i], B1[i], B2[i] - 32])).is_none());
        claim("codes with something added are no codes", lang::convert(text(&[A0[i], A1[i], b' '])).is_none() && lang::convert(text(&[b' ', A0[i], A1[i]])).is_none());
        i += 12;
    }
}
