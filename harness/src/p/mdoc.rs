//! C16, C17: mdoc handovers, session transcripts, key thumbprints.
use crate::ctx::Ctx;
use crate::env::*;
use ciborium::Value as Cbor;
use openid4vp::core::iso_18013_7::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::fmt::Debug;

// An encoder of the few kinds of CBOR that the handovers are made of, per RFC 8949.
fn head(major: u8, n: usize, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        _ => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
    }
}

fn text(s: &str, out: &mut Vec<u8>) {
    head(3, s.len(), out);
    out.extend(s.as_bytes());
}

fn bytes(b: &[u8], out: &mut Vec<u8>) {
    head(2, b.len(), out);
    out.extend(b);
}

fn thumb(t: Option<&[u8]>, out: &mut Vec<u8>) {
    match t {
        Some(b) => bytes(b, out),
        None => out.push(0xf6),
    }
}

fn redirect_info(id: &str, nonce: &str, t: Option<&[u8]>, uri: &str) -> Vec<u8> {
    let mut o = vec![];
    head(4, 4, &mut o);
    text(id, &mut o);
    text(nonce, &mut o);
    thumb(t, &mut o);
    text(uri, &mut o);
    o
}

fn dc_info(origin: &str, nonce: &str, t: Option<&[u8]>) -> Vec<u8> {
    let mut o = vec![];
    head(4, 3, &mut o);
    text(origin, &mut o);
    text(nonce, &mut o);
    thumb(t, &mut o);
    o
}

fn handover_bytes(kind: &str, info: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    head(4, 2, &mut o);
    text(kind, &mut o);
    bytes(&sha256(info), &mut o);
    o
}

const REDIRECT: &str = "OpenID4VPHandover";
const DC_API: &str = "OpenID4VPDCAPIHandover";

fn to_vec<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    ciborium::into_writer(t, &mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

/// Everything that must be true of one handover, given what its bytes have to be.
fn one<H, O>(h: &H, direct: anyhow::Result<Vec<u8>>, hash: &[u8], info: &[u8], kind: &str) -> Result<(), String>
where
    H: Serialize + DeserializeOwned + PartialEq + Debug + Clone,
    O: DeserializeOwned,
{
    let want = handover_bytes(kind, info);
    let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02x}")).collect::<String>();
    if hash != sha256(info) {
        return Err(format!("the hash is {}, the inputs' is {}", hex(hash), hex(&sha256(info))));
    }
    let direct = direct.map_err(|e| format!("to_cbor_bytes failed: {e:#}"))?;
    if direct != want {
        return Err(format!("to_cbor_bytes gives {}, should be {}", hex(&direct), hex(&want)));
    }
    let serde = to_vec(h)?;
    if serde != want {
        return Err(format!("serde gives {}, should be {}", hex(&serde), hex(&want)));
    }
    let t = SessionTranscript::new(h.clone());
    if t.handover() != h {
        return Err("the transcript holds another handover".into());
    }
    let mut want_t = vec![0x83, 0xf6, 0xf6];
    want_t.extend(&want);
    let direct = t.to_cbor_bytes().map_err(|e| format!("the transcript's to_cbor_bytes failed: {e:#}"))?;
    if direct != want_t {
        return Err(format!("the transcript's to_cbor_bytes gives {}, should be {}", hex(&direct), hex(&want_t)));
    }
    let serde = to_vec(&t)?;
    if serde != want_t {
        return Err(format!("serde gives {} for the transcript, should be {}", hex(&serde), hex(&want_t)));
    }
    let back: H = ciborium::from_reader(&want[..]).map_err(|e| format!("its own bytes do not parse: {e}"))?;
    if back != *h {
        return Err(format!("parsing its bytes gives {back:?}, not {h:?}"));
    }
    let back: SessionTranscript<H> = ciborium::from_reader(&want_t[..]).map_err(|e| format!("the transcript's own bytes do not parse: {e}"))?;
    if back != t {
        return Err("parsing the transcript's bytes gives another transcript".into());
    }
    let value: Cbor = ciborium::from_reader(&want_t[..]).unwrap();
    let back: SessionTranscript<H> = value.deserialized().map_err(|e| format!("the transcript does not parse from a CBOR value: {e}"))?;
    if back != t {
        return Err("parsing the transcript from a CBOR value gives another transcript".into());
    }
    if ciborium::from_reader::<O, _>(&want[..]).is_ok() {
        return Err("its bytes also parse as the other kind of handover".into());
    }
    if ciborium::from_reader::<SessionTranscript<O>, _>(&want_t[..]).is_ok() {
        return Err("the transcript's bytes also parse as one of the other kind of handover".into());
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) {
    c.rule = "Every combination of texts (all strings over a small alphabet up to a length, and texts whose lengths lie on either side of every CBOR length boundary) for each input and of thumbprints (none, empty, several lengths and contents), compared with an independent encoding, all handovers pairwise; and every CBOR array of up to four elements from a list of elements of every type, parsed as each kind. Non-trivial: a distinct combination of inputs.".into();
    c.assumptions = vec![
        "SHA-256 is computed by an implementation of the harness's own".into(),
        "whether a byte string may be written as a CBOR array of integers, or in an indefinite-length encoding, and CBOR tags around elements, is left open".into(),
        "the length of a parsed handover's hash is left open".into(),
    ];
    let mut texts: Vec<String> = strings(&["a", "b"], c.pick(3, 4));
    let lens: &[usize] = c.pick(&[23, 24, 255, 256], &[22, 23, 24, 25, 255, 256, 257, 65535, 65536]);
    texts.extend(lens.iter().map(|n| "x".repeat(*n)));
    texts.extend(["é\u{0}\"\\", "𝄞", "https://v.example/a?b=c#d", "x509_san_dns:v.example", " a", "a ", "null", "OpenID4VPHandover", "OpenID4VPDCAPIHandover", "A", "origin:a"].map(String::from));
    let t0: Vec<u8> = (0..32).collect();
    let t1 = vec![0u8; 32];
    let mut t2 = t0.clone();
    t2[31] ^= 1;
    let t3 = vec![7u8; 31];
    let thumbs: Vec<Option<&[u8]>> = vec![None, Some(&[]), Some(&t0), Some(&t1), Some(&t2), Some(&t3), Some(b"a")];
    // The hash of every handover seen, of both kinds.
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut note = |hash: &[u8], label: &str| -> Result<(), String> {
        match seen.insert(hash.to_vec(), label.to_string()) {
            Some(l) if l != label => Err(format!("the same handover as {l}")),
            _ => Ok(()),
        }
    };
    let mut divided: HashMap<Vec<u8>, String> = HashMap::new();
    let mut note_divided = |hash: &[u8], label: &str| -> Result<(), String> {
        match divided.insert(hash.to_vec(), label.to_string()) {
            Some(l) if l != label => Err(format!("the same handover as {l}")),
            _ => Ok(()),
        }
    };
    let short = |s: &str| {
        if s.len() > 60 {
            format!("{}…×{}", s.chars().take(3).collect::<String>(), s.len())
        } else {
            format!("{s:?}")
        }
    };
    // The same text, divided among the inputs at another place: every character, and some texts,
    // could be what an implementation puts between them.
    let mut between: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    between.extend(["", "\u{0}\u{0}", "::", "||", "\u{1f}", "\u{2028}", "\u{ffff}", "null", "None", "\", \"", "%00", "\r\n", "\u{80}", "é"].map(String::from));
    for s in &between {
        let x = format!("a{s}b");
        let y = format!("b{s}c");
        let z = format!("c{s}d");
        let all = format!("a{s}b{s}c{s}d");
        let (a, b, cc, d) = ("a".to_string(), "b".to_string(), "c".to_string(), "d".to_string());
        let empty = String::new();
        let triples = [(&x, &cc, &d), (&a, &y, &d), (&a, &b, &z), (&all, &empty, &empty), (&empty, &all, &empty), (&empty, &empty, &all), (&x, &z, &empty), (&empty, &x, &z), (&x, &empty, &z)];
        for (id, nonce, uri) in triples {
            for (ti, t) in [None, Some(s.as_bytes()), Some(&t0[..])].into_iter().enumerate() {
                let label = format!("redirect divided id={id:?} nonce={nonce:?} thumbprint={t:?}#{ti} uri={uri:?}");
                let key = format!("redirect id={id:?} nonce={nonce:?} thumbprint={t:?} uri={uri:?}");
                c.case(label, || {
                    let h = Handover::new(id, nonce, t, uri).map_err(|e| format!("{e:#}"))?;
                    one::<Handover, DcApiHandover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &redirect_info(id, nonce, t, uri), REDIRECT)?;
                    note_divided(h.handover_info_hash(), &key)?;
                    Ok("redirect, divided".into())
                });
                let label = format!("dc divided origin={id:?} nonce={nonce:?} thumbprint={t:?}#{ti} {uri:?}");
                let key = format!("dc origin={id:?} nonce={nonce:?} thumbprint={t:?}");
                c.case(label, || {
                    let h = DcApiHandover::new(id, nonce, t).map_err(|e| format!("{e:#}"))?;
                    one::<DcApiHandover, Handover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &dc_info(id, nonce, t), DC_API)?;
                    note_divided(h.handover_info_hash(), &key)?;
                    Ok("dc api, divided".into())
                });
            }
        }
    }
    for (i, id) in texts.iter().enumerate() {
        for (n, nonce) in texts.iter().enumerate() {
            // Long texts in one place at a time.
            if id.len() > 60 && nonce.len() > 60 && i != n {
                continue;
            }
            for (ti, t) in thumbs.iter().enumerate() {
                let label = format!("dc origin={} nonce={} thumbprint#{ti}", short(id), short(nonce));
                c.case(label.clone(), || {
                    let h = DcApiHandover::new(id, nonce, *t).map_err(|e| format!("{e:#}"))?;
                    one::<DcApiHandover, Handover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &dc_info(id, nonce, *t), DC_API)?;
                    note(h.handover_info_hash(), &label)?;
                    Ok(format!("dc api, {}", if t.is_some() { "thumbprint" } else { "no thumbprint" }))
                });
                for uri in &texts {
                    if uri.len() > 60 && (id.len() > 60 || nonce.len() > 60) {
                        continue;
                    }
                    let label = format!("redirect id={} nonce={} thumbprint#{ti} uri={}", short(id), short(nonce), short(uri));
                    c.case(label.clone(), || {
                        let h = Handover::new(id, nonce, *t, uri).map_err(|e| format!("{e:#}"))?;
                        one::<Handover, DcApiHandover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &redirect_info(id, nonce, *t, uri), REDIRECT)?;
                        note(h.handover_info_hash(), &label)?;
                        Ok(format!("redirect, {}", if t.is_some() { "thumbprint" } else { "no thumbprint" }))
                    });
                }
            }
        }
    }
    // One input at a time: every text of a list, each transcript different from all others.
    let menu: Vec<String> = texts_menu(c.pick(2, 2)).into_iter().chain(near_misses("https://v.example/")).chain(near_misses("x509_san_dns:v.example")).collect();
    let base = "https://v.example/";
    let first = SessionTranscript::new(Handover::new("c", "n", None, "u").unwrap());
    let first_dc = SessionTranscript::new(DcApiHandover::new("c", "n", None).unwrap());
    for x in &menu {
        for place in 0..5 {
            let (a, n, u) = match place % 3 {
                0 => (x.as_str(), base, base),
                1 => (base, x.as_str(), base),
                _ => (base, base, x.as_str()),
            };
            let label = format!("{} input {} {}", if place < 3 { "redirect" } else { "dc" }, place % 3, short(x));
            let exact = format!("{} {a} {n} {}", place / 3, if place < 3 { u } else { "" });
            c.case(label, || {
                if place < 3 {
                    let h = Handover::new(a, n, Some(&t0), u).map_err(|e| format!("{e:#}"))?;
                    one::<Handover, DcApiHandover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &redirect_info(a, n, Some(&t0), u), REDIRECT)?;
                    note(h.handover_info_hash(), &exact)?;
                    if h == *first.handover() || SessionTranscript::new(h.clone()) == first {
                        return Err("equal to another handover".into());
                    }
                    if SessionTranscript::new(h.clone()) != SessionTranscript::new(h) {
                        return Err("not equal to itself".into());
                    }
                } else {
                    let h = DcApiHandover::new(a, n, Some(&t0)).map_err(|e| format!("{e:#}"))?;
                    one::<DcApiHandover, Handover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &dc_info(a, n, Some(&t0)), DC_API)?;
                    note(h.handover_info_hash(), &exact)?;
                    if h == *first_dc.handover() || SessionTranscript::new(h.clone()) == first_dc {
                        return Err("equal to another handover".into());
                    }
                    if SessionTranscript::new(h.clone()) != SessionTranscript::new(h) {
                        return Err("not equal to itself".into());
                    }
                }
                Ok("every text".into())
            });
        }
    }
    // Every length of thumbprint and every single bit of one.
    let mut ts: Vec<Vec<u8>> = (0..300).map(|n| vec![0xa5; n]).collect();
    for bit in 0..256 {
        let mut t = t0.clone();
        t[bit / 8] ^= 1 << (bit % 8);
        ts.push(t);
    }
    for t in &ts {
        c.case(format!("thumbprint {t:02x?}"), || {
            let h = Handover::new(base, "n", Some(t), base).map_err(|e| format!("{e:#}"))?;
            one::<Handover, DcApiHandover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &redirect_info(base, "n", Some(t), base), REDIRECT)?;
            note(h.handover_info_hash(), &format!("{t:?}"))?;
            let h = DcApiHandover::new(base, "n", Some(t)).map_err(|e| format!("{e:#}"))?;
            one::<DcApiHandover, Handover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &dc_info(base, "n", Some(t)), DC_API)?;
            note(h.handover_info_hash(), &format!("dc {t:?}"))?;
            Ok("every thumbprint".into())
        });
    }
    // Long inputs in each place.
    for n in [22usize, 23, 24, 25, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1000, 65_534, 65_535, 65_536, 65_537, 300_000] {
        for ch in ["x", "\u{e9}"] {
            let long = ch.repeat(n);
            for place in 0..5 {
                let (a, m, u) = match place % 3 {
                    0 => (long.as_str(), base, base),
                    1 => (base, long.as_str(), base),
                    _ => (base, base, long.as_str()),
                };
                c.case(format!("{n} {ch} in place {place}"), || {
                    if place < 3 {
                        let h = Handover::new(a, m, Some(&t0), u).map_err(|e| format!("{e:#}"))?;
                        one::<Handover, DcApiHandover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &redirect_info(a, m, Some(&t0), u), REDIRECT)?;
                    } else {
                        let h = DcApiHandover::new(a, m, None).map_err(|e| format!("{e:#}"))?;
                        one::<DcApiHandover, Handover>(&h, h.to_cbor_bytes(), h.handover_info_hash(), &dc_info(a, m, None), DC_API)?;
                    }
                    Ok("long input".into())
                });
            }
        }
    }
    // Near misses of the type identifiers.
    for (kind, other) in [(REDIRECT, DC_API), (DC_API, REDIRECT)] {
        for n in near_misses(kind) {
            if n == other {
                continue;
            }
            c.case(format!("type identifier {n:?}"), || {
                let v = Cbor::Array(vec![Cbor::Text(n.clone()), Cbor::Bytes(t0.clone())]);
                let b = to_vec(&v)?;
                if ciborium::from_reader::<Handover, _>(&b[..]).is_ok() || ciborium::from_reader::<DcApiHandover, _>(&b[..]).is_ok()
                    || v.deserialized::<Handover>().is_ok() || v.deserialized::<DcApiHandover>().is_ok() {
                    return Err("parses".into());
                }
                Ok("another type identifier is refused".into())
            });
        }
    }
    // Parsing.
    let elements: Vec<Cbor> = vec![
        Cbor::Text(REDIRECT.into()),
        Cbor::Text(DC_API.into()),
        Cbor::Text("".into()),
        Cbor::Text("OpenID4VPHandove".into()),
        Cbor::Text("OpenID4VPHandover ".into()),
        Cbor::Text("openid4vphandover".into()),
        Cbor::Bytes(REDIRECT.as_bytes().to_vec()),
        Cbor::Bytes(t0.clone()),
        Cbor::Bytes(t1.clone()),
        Cbor::Null,
        Cbor::Bool(true),
        Cbor::Integer(2.into()),
        Cbor::Float(1.5),
        Cbor::Array(vec![Cbor::Text("a".into())]),
        Cbor::Map(vec![]),
    ];
    let mut arrays: Vec<Vec<Cbor>> = vec![vec![]];
    let mut last = arrays.clone();
    for _ in 0..c.pick(3, 4) {
        last = last.iter().flat_map(|a| elements.iter().map(|e| { let mut a = a.clone(); a.push(e.clone()); a })).collect();
        arrays.extend(last.iter().cloned());
    }
    fn judge<H: DeserializeOwned + Debug>(v: &Cbor, wrapped: &Cbor, want: Option<&[u8]>, hash: impl Fn(&H) -> Vec<u8>) -> Result<String, String> {
        let b = to_vec(v)?;
        let w = to_vec(wrapped)?;
        let got: [(&str, Result<Vec<u8>, String>); 4] = [
            ("bytes", ciborium::from_reader::<H, _>(&b[..]).map(|h| hash(&h)).map_err(|e| e.to_string())),
            ("a CBOR value", v.deserialized::<H>().map(|h| hash(&h)).map_err(|e| e.to_string())),
            ("a transcript's bytes", ciborium::from_reader::<SessionTranscript<H>, _>(&w[..]).map(|t| hash(t.handover())).map_err(|e| e.to_string())),
            ("a transcript's CBOR value", wrapped.deserialized::<SessionTranscript<H>>().map(|t| hash(t.handover())).map_err(|e| e.to_string())),
        ];
        for (how, got) in got {
            match (got, want) {
                (Ok(g), Some(w)) if g == w => {}
                (Ok(_), Some(_)) => return Err(format!("parsed from {how}: another hash than the one given")),
                (Ok(_), None) => return Err(format!("parsed from {how}, though it is no such handover")),
                (Err(e), Some(_)) => return Err(format!("a well-formed handover is refused when parsed from {how}: {e}")),
                (Err(_), None) => {}
            }
        }
        Ok(if want.is_some() { "parses".into() } else { "is refused".into() })
    }
    let mut values: Vec<Cbor> = arrays.iter().map(|a| Cbor::Array(a.clone())).collect();
    values.extend(elements.iter().cloned());
    values.push(Cbor::Map(vec![(Cbor::Text(REDIRECT.into()), Cbor::Bytes(t0.clone()))]));
    for v in &values {
        let wrapped = Cbor::Array(vec![Cbor::Null, Cbor::Null, v.clone()]);
        let want = |kind: &str| match v {
            Cbor::Array(a) => match &a[..] {
                [Cbor::Text(k), Cbor::Bytes(b)] if k == kind => Some(b.clone()),
                _ => None,
            },
            _ => None,
        };
        c.case(format!("parse redirect {v:?}"), || judge::<Handover>(v, &wrapped, want(REDIRECT).as_deref(), |h| h.handover_info_hash().to_vec()));
        c.case(format!("parse dc {v:?}"), || judge::<DcApiHandover>(v, &wrapped, want(DC_API).as_deref(), |h| h.handover_info_hash().to_vec()));
    }
    // Transcripts of another element count.
    let good = Cbor::Array(vec![Cbor::Text(REDIRECT.into()), Cbor::Bytes(t0.clone())]);
    for (n, v) in [
        vec![],
        vec![Cbor::Null],
        vec![Cbor::Null, Cbor::Null],
        vec![Cbor::Null, good.clone()],
        vec![good.clone()],
        vec![Cbor::Null, Cbor::Null, good.clone(), Cbor::Null],
        vec![Cbor::Null, Cbor::Null, good.clone(), good.clone()],
        vec![Cbor::Null, Cbor::Null, Cbor::Null, good.clone()],
    ].into_iter().enumerate() {
        c.case(format!("transcript#{n} of {} elements", v.len()), || {
            let v = Cbor::Array(v);
            if ciborium::from_reader::<SessionTranscript<Handover>, _>(&to_vec(&v)?[..]).is_ok() || v.deserialized::<SessionTranscript<Handover>>().is_ok() {
                return Err("a transcript with another element count parses".into());
            }
            Ok("a transcript of another shape is refused".into())
        });
    }
    // Something else than null before the handover.
    for (n, x) in [Cbor::Bool(false), Cbor::Bool(true), Cbor::Integer(0.into()), Cbor::Integer((-1).into()), Cbor::Integer(22.into()), Cbor::Text("".into()), Cbor::Text("null".into()), Cbor::Bytes(vec![]), Cbor::Bytes(t0.clone()), Cbor::Float(0.0), Cbor::Array(vec![]), Cbor::Array(vec![Cbor::Null]), Cbor::Map(vec![]), good.clone()].into_iter().enumerate() {
        for (place, v) in [
            ("first", vec![x.clone(), Cbor::Null, good.clone()]),
            ("second", vec![Cbor::Null, x.clone(), good.clone()]),
            ("both", vec![x.clone(), x.clone(), good.clone()]),
        ] {
            c.case(format!("transcript with #{n} {place}"), || {
                let v = Cbor::Array(v);
                if ciborium::from_reader::<SessionTranscript<Handover>, _>(&to_vec(&v)?[..]).is_ok() || v.deserialized::<SessionTranscript<Handover>>().is_ok() {
                    return Err(format!("a transcript with {x:?} in place of null parses"));
                }
                Ok("a transcript of another shape is refused".into())
            });
        }
    }
}

// ---------------------------------------------------------------- C17

fn thumbprint_of(k: &Json) -> Option<[u8; 32]> {
    let m = |n: &str| k.get(n).and_then(|v| v.as_str());
    let text = match m("kty")? {
        "EC" => format!("{{\"crv\":\"{}\",\"kty\":\"EC\",\"x\":\"{}\",\"y\":\"{}\"}}", m("crv")?, m("x")?, m("y")?),
        "RSA" => format!("{{\"e\":\"{}\",\"kty\":\"RSA\",\"n\":\"{}\"}}", m("e")?, m("n")?),
        _ => return None,
    };
    Some(sha256(text.as_bytes()))
}

pub fn c17(c: &mut Ctx) {
    c.rule = "Every combination of values (absent, several texts, wrong type) of kty and the required members of EC and RSA keys, with other members before, between and after; and every jwks of up to three (thorough: four) keys out of a list that covers each combination of alg, crv, use and completeness. Non-trivial: a distinct key or jwks.".into();
    c.assumptions = vec!["member values are base64url texts and curve names, which need no JSON escapes".into()];
    let vals = |ok: &[&str]| -> Vec<Option<Json>> {
        let mut v: Vec<Option<Json>> = vec![None, Some(json!(1)), Some(json!(null)), Some(json!(["a"]))];
        v.extend(ok.iter().map(|s| Some(json!(s))));
        v
    };
    let ktys = vals(&["EC", "RSA", "OKP", "oct", "ec", ""]);
    let crvs = vals(&["P-256", "P-384", "secp256k1"]);
    let xs = vals(&["AAA", "mTnO-_", ""]);
    let extras = [json!({}), json!({"alg": "ECDH-ES", "use": "enc", "kid": "AAA", "a": 1, "zz": {"crv": "no"}, "d": "secret", "Kty": "RSA"}), json!({"e": "AQAB", "n": "nnn", "kty2": "EC"})];
    let short_texts = texts_menu(c.pick(1, 2));
    let mut one = |fields: &[(&str, &Option<Json>)], reversed: bool, extra: &Json| {
        let mut text = vec![];
        for (k, v) in fields {
            if let Some(v) = v {
                text.push(format!("\"{k}\":{v}"));
            }
        }
        for (i, (k, v)) in extra.as_object().unwrap().iter().enumerate() {
            if !fields.iter().any(|f| f.0 == k) {
                text.insert((i * 2).min(text.len()), format!("\"{k}\":{v}"));
            }
        }
        if reversed {
            text.reverse();
        }
        let text = format!("{{{}}}", text.join(","));
        c.case(format!("thumbprint {text}"), || {
            let k: Json = serde_json::from_str(&text).unwrap();
            match (compute_jwk_thumbprint(&k), thumbprint_of(&k)) {
                (Ok(a), Some(b)) if a == b => Ok(format!("the thumbprint of an {} key", k["kty"].as_str().unwrap())),
                (Ok(a), b) => Err(format!("gives {a:?}, should be {b:?}")),
                (Err(_), None) => Ok("an error".into()),
                (Err(e), Some(_)) => Err(format!("a good key is refused: {e:#}")),
            }
        });
    };
    for kty in &ktys {
        for crv in &crvs {
            for x in &xs {
                for y in &xs {
                    for extra in &extras {
                        for r in [false, true] {
                            one(&[("kty", kty), ("crv", crv), ("x", x), ("y", y)], r, extra);
                        }
                    }
                }
            }
        }
        for e in &xs {
            for n in &xs {
                for extra in &extras {
                    for r in [false, true] {
                        one(&[("e", e), ("kty", kty), ("n", n)], r, extra);
                    }
                }
            }
        }
    }
    // Every text that needs no JSON escapes in each member, and near misses of the key types.
    let plain: Vec<String> = short_texts.into_iter()
        .chain(near_misses("f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU="))
        .chain(near_misses("P-256"))
        .filter(|s| !s.chars().any(|ch| ch.is_control() || ch == '"' || ch == '\\' || ch == '\u{7f}'))
        .collect();
    for t in &plain {
        let v = Some(json!(t));
        let (ec, rsa, p, x) = (Some(json!("EC")), Some(json!("RSA")), Some(json!("P-256")), Some(json!("AAA")));
        for extra in &extras[..2] {
            one(&[("kty", &ec), ("crv", &v), ("x", &x), ("y", &x)], false, extra);
            one(&[("kty", &ec), ("crv", &p), ("x", &v), ("y", &x)], false, extra);
            one(&[("kty", &ec), ("crv", &p), ("x", &x), ("y", &v)], false, extra);
            one(&[("kty", &rsa), ("n", &v), ("e", &x)], false, extra);
            one(&[("kty", &rsa), ("n", &x), ("e", &v)], false, extra);
        }
    }
    for k in ["EC", "RSA"] {
        for t in near_misses(k) {
            let (v, p, x) = (Some(json!(t)), Some(json!("P-256")), Some(json!("AAA")));
            one(&[("kty", &v), ("crv", &p), ("x", &x), ("y", &x), ("n", &x), ("e", &x)], false, &extras[0]);
        }
    }
    for k in ["kty", "crv", "x", "y"] {
        for t in near_misses(k) {
            let f = [("kty", Some(json!("EC"))), ("crv", Some(json!("P-256"))), ("x", Some(json!("AAA"))), ("y", Some(json!("BBB")))];
            let f: Vec<(&str, &Option<Json>)> = f.iter().map(|(n, v)| (if *n == k { t.as_str() } else { *n }, v)).collect();
            if t.chars().any(|ch| ch.is_control() || ch == '"' || ch == '\\') || f.iter().filter(|(n, _)| *n == t).count() != 1 {
                continue;
            }
            one(&f, false, &extras[0]);
        }
    }
    // Which key of a request.
    let mut keys: Vec<Json> = vec![];
    for (alg, crv, usage, y) in [
        (Some("ECDH-ES"), "P-256", Some("enc"), true),
        (Some("ECDH-ES"), "P-256", None, true),
        (Some("ECDH-ES"), "P-256", Some("sig"), true),
        (Some("ECDH-ES"), "P-384", Some("enc"), true),
        (Some("ECDH-ES+A256KW"), "P-256", Some("enc"), true),
        (Some("ES256"), "P-256", None, true),
        (None, "P-256", Some("enc"), true),
        (None, "P-256", None, true),
        (Some("ES256"), "P-256", Some("sig"), true),
        (Some("ECDH-ES"), "P-384", None, false),
        (None, "P-256", Some("enc"), false),
        (None, "P-256", Some("sig"), false),
    ] {
        let n = keys.len();
        let mut k = json!({"kty": "EC", "crv": crv, "x": format!("x{n}"), "kid": format!("k{n}")});
        if let Some(a) = alg {
            k["alg"] = json!(a);
        }
        if let Some(u) = usage {
            k["use"] = json!(u);
        }
        if y {
            k["y"] = json!(format!("y{n}"));
        }
        keys.push(k);
    }
    keys.push(json!({"kty": "RSA", "n": "n", "e": "AQAB", "alg": "RSA-OAEP-256", "use": "enc"}));
    keys.push(json!({"kty": "oct", "k": "AAAA"}));
    keys.push(json!({}));
    let s = |k: &Json, m: &str| k.get(m).and_then(|v| v.as_str()).map(String::from);
    let enc = |k: &Json| matches!(s(k, "use").as_deref(), None | Some("enc"));
    let expected = |ks: &[&Json]| -> Option<[u8; 32]> {
        let usable = |k: &&&Json| enc(k) && s(k, "alg").as_deref() == Some("ECDH-ES") && s(k, "crv").as_deref() == Some("P-256");
        match ks.iter().find(usable) {
            Some(k) => thumbprint_of(k),
            None => ks.iter().filter(|k| enc(k)).find_map(|k| thumbprint_of(k)),
        }
    };
    let request = |cm: Option<Json>| {
        let mut v = json!({"response_type": "vp_token", "nonce": "n", "client_id": "c", "response_mode": "direct_post.jwt", "response_uri": "https://v.example/r"});
        if let Some(cm) = cm {
            v["client_metadata"] = cm;
        }
        request_object(v).map_err(|e| format!("{e:#}"))
    };
    let n = keys.len();
    let depth = c.pick(3usize, 4);
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|l| (0..n).map(|k| { let mut l = l.clone(); l.push(k); l })).collect();
        lists.extend(last.iter().cloned());
    }
    for l in &lists {
        let ks: Vec<&Json> = l.iter().map(|i| &keys[*i]).collect();
        c.case(format!("request keys {l:?}"), || {
            let r = request(Some(json!({"jwks": {"keys": ks}, "vp_formats_supported": {}})))?;
            let (got, want) = (get_encryption_jwk_thumbprint(&r), expected(&ks));
            if got != want {
                let who = |t: Option<[u8; 32]>| t.map(|t| keys.iter().position(|k| thumbprint_of(k) == Some(t)).map(|i| keys[i].to_string()).unwrap_or("an unknown key".into())).unwrap_or("none".into());
                return Err(format!("the thumbprint is that of {}, should be that of {}", who(got), who(want)));
            }
            Ok(match want {
                None => "no key".into(),
                Some(t) => format!("key #{}", keys.iter().position(|k| thumbprint_of(k) == Some(t)).unwrap()),
            })
        });
    }
    // Long key lists: the key at each place.
    for n in [5usize, 9, 16, 17, 33, 64, 100] {
        for at in (0..n).chain([n]) {
            for (other, filler) in [("signing", 8usize), ("other algorithm", 4), ("no algorithm", 7), ("incomplete", 10), ("symmetric", 13)] {
                for target in [0usize, 1, 6] {
                    let mut ks: Vec<Json> = (0..n).map(|i| {
                        let mut k = keys[filler].clone();
                        if k.get("x").is_some() {
                            k["x"] = json!(format!("fx{i}"));
                        }
                        k
                    }).collect();
                    if at < n {
                        ks[at] = keys[target].clone();
                    }
                    c.case(format!("key #{target} at {at} of {n} {other} keys"), || {
                        let refs: Vec<&Json> = ks.iter().collect();
                        let r = request(Some(json!({"jwks": {"keys": ks}, "vp_formats_supported": {}})))?;
                        if get_encryption_jwk_thumbprint(&r) != expected(&refs) {
                            return Err("the thumbprint of another key".into());
                        }
                        Ok("long list".into())
                    });
                }
            }
        }
    }
    // A key that is nearly usable before one that is.
    let good = json!({"kty": "EC", "crv": "P-256", "x": "gx", "y": "gy", "use": "enc", "alg": "ECDH-ES"});
    for (member, value) in [("alg", "ECDH-ES"), ("crv", "P-256"), ("use", "enc")] {
        for t in near_misses(value) {
            let mut k = json!({"kty": "EC", "crv": "P-256", "x": "nx", "y": "ny", "use": "enc", "alg": "ECDH-ES"});
            k[member] = json!(t);
            for (what, ks) in [("before", vec![&k, &good]), ("alone", vec![&k]), ("after", vec![&good, &k])] {
                c.case(format!("{member} {t:?} {what}"), || {
                    let r = request(Some(json!({"jwks": {"keys": ks}, "vp_formats_supported": {}})))?;
                    if get_encryption_jwk_thumbprint(&r) != expected(&ks) {
                        return Err("the thumbprint of another key".into());
                    }
                    Ok(format!("near miss {what}"))
                });
            }
        }
    }
    for (n, cm) in [None, Some(json!({})), Some(json!(7)), Some(json!({"jwks": 1})), Some(json!({"jwks": {}})), Some(json!({"jwks": {"keys": 1}})), Some(json!({"jwks": {"keys": [1]}}))].into_iter().enumerate() {
        c.case(format!("request without usable client_metadata#{n}"), || match get_encryption_jwk_thumbprint(&request(cm)?) {
            None => Ok("no client metadata, no key".into()),
            Some(_) => Err("a thumbprint of no key".into()),
        });
    }
}
