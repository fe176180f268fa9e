//! C23: whom an encrypted response is made for, and what is in it.
use crate::ctx::Ctx;
use crate::env::{near_misses, public_jwk, request_object, texts_menu, unb64u};
use openid4vp::core::authorization_request::parameters::State;
use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint};
use openid4vp::core::jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder};
use openid4vp::core::response::parameters::VpToken;
use openid4vp::core::response::AuthorizationResponse;
use serde_json::{json, Map, Value as Json};

/// Header, recipient's key and plaintext, as the stand-in for the JOSE library wrote them.
fn open(token: &str) -> Result<(Json, Json, Json), String> {
    let p: Vec<&str> = token.split('.').collect();
    if p.len() != 5 {
        return Err(format!("not a five-part token: {token}"));
    }
    let j = |s: &str| -> Result<Json, String> { serde_json::from_slice(&unb64u(s)?).map_err(|e| format!("{e}: {s}")) };
    Ok((j(p[0])?, j(p[2])?, j(p[3])?))
}

fn text<'a>(k: &'a Json, m: &str) -> Option<&'a str> {
    k.get(m).and_then(|v| v.as_str())
}

fn usable(k: &Json) -> bool {
    text(k, "alg") == Some("ECDH-ES") && text(k, "crv") == Some("P-256") && matches!(text(k, "use"), None | Some("enc"))
}

fn same_key(a: &Json, b: &Json) -> bool {
    ["kty", "crv", "x", "y"].iter().all(|m| a.get(m) == b.get(m))
}

fn keys() -> Vec<Json> {
    let mut keys = vec![];
    for (alg, crv, usage, kid) in [
        (Some("ECDH-ES"), Some("P-256"), Some("enc"), Some("k")),
        (Some("ECDH-ES"), Some("P-256"), Some("enc"), None),
        (Some("ECDH-ES"), Some("P-256"), None, Some("")),
        (Some("ECDH-ES"), Some("P-256"), None, None),
        (Some("ECDH-ES"), Some("P-256"), Some("sig"), Some("s")),
        (Some("ECDH-ES"), Some("P-256"), Some("ENC"), Some("s")),
        (Some("ECDH-ES"), Some("P-256"), Some(""), Some("s")),
        (Some("ECDH-ES"), Some("P-384"), Some("enc"), Some("p")),
        (Some("ECDH-ES"), Some("p-256"), Some("enc"), Some("p")),
        (Some("ECDH-ES"), None, Some("enc"), Some("p")),
        (Some("ECDH-ES+A256KW"), Some("P-256"), Some("enc"), Some("w")),
        (Some("ECDH-ES+A128KW"), Some("P-256"), None, None),
        (Some("ecdh-es"), Some("P-256"), Some("enc"), None),
        (Some("ECDH"), Some("P-256"), Some("enc"), None),
        (Some("ES256"), Some("P-256"), Some("sig"), Some("k")),
        (Some("ES256"), Some("P-256"), None, Some("k")),
        (None, Some("P-256"), Some("enc"), Some("k")),
        (None, Some("P-256"), None, None),
    ] {
        let mut k = public_jwk(keys.len() as u8 + 1);
        let k = k.as_object_mut().unwrap();
        k.remove("crv");
        for (n, v) in [("alg", alg), ("crv", crv), ("use", usage), ("kid", kid)] {
            if let Some(v) = v {
                k.insert(n.into(), json!(v));
            }
        }
        keys.push(Json::Object(k.clone()));
    }
    keys.push(json!({"kty": "RSA", "n": "n", "e": "AQAB", "alg": "RSA-OAEP-256", "use": "enc", "kid": "r"}));
    keys.push(json!({"kty": "oct", "k": "AAAA"}));
    keys.push(json!({}));
    keys.push(json!({"alg": 1, "crv": "P-256", "use": "enc"}));
    keys.push(json!({"alg": "ECDH-ES", "crv": ["P-256"], "use": "enc"}));
    keys
}

fn request(cm: Option<Json>, dc: bool) -> Result<openid4vp::core::authorization_request::AuthorizationRequestObject, String> {
    let mut v = json!({"response_type": "vp_token", "nonce": "n", "client_id": "c", "state": "of the request"});
    if dc {
        v["response_mode"] = json!("dc_api.jwt");
    } else {
        v["response_mode"] = json!("direct_post.jwt");
        v["response_uri"] = json!("https://v.example/r");
    }
    if let Some(cm) = cm {
        v["client_metadata"] = cm;
    }
    request_object(v).map_err(|e| format!("{e:#}"))
}

/// One response; `want` is the key it has to be for.
fn one(cm: Option<Json>, dc: bool, vp: &Json, state: Option<&str>, want: Option<&Json>, enc: &str) -> Result<String, String> {
    let r = request(cm, dc)?;
    let token: VpToken = serde_json::from_value(vp.clone()).map_err(|e| e.to_string())?;
    let state = state.map(|s| State(s.to_string()));
    let got = build_encrypted_response(&r, &token, state.as_ref());
    let Some(want) = want else {
        return match got {
            Err(_) => Ok("no key, an error".into()),
            Ok(_) => Err("a response although there is no key for it".into()),
        };
    };
    let good_enc = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"].contains(&enc);
    let got = match got {
        Ok(AuthorizationResponse::Jwt(j)) => j.response,
        Ok(_) => return Err("a response that is not encrypted".into()),
        Err(_) if !good_enc => return Ok("an enc the library does not have, an error".into()),
        Err(e) => return Err(format!("refused: {e:#}")),
    };
    let (header, key, plain) = open(&got)?;
    if !same_key(&key, want) {
        return Err(format!("made for {key}, should be for {want}"));
    }
    if text(&header, "alg") != text(want, "alg") {
        return Err(format!("alg is {:?}", header.get("alg")));
    }
    if text(&header, "enc") != Some(enc) {
        return Err(format!("enc is {:?}, should be {enc}", header.get("enc")));
    }
    if header.get("kid") != want.get("kid") {
        return Err(format!("kid is {:?}, should be {:?}", header.get("kid"), want.get("kid")));
    }
    let mut expected = json!({"vp_token": vp});
    if let Some(s) = &state {
        expected["state"] = json!(s.0);
    }
    if plain != expected {
        return Err(format!("the plaintext is {plain}, should be {expected}"));
    }
    // The order of the presentations' ids is the same too.
    if serde_json::to_string(&plain["vp_token"]).ok() != serde_json::to_string(vp).ok() {
        return Err(format!("the vp_token is written as {}, should be {vp}", plain["vp_token"]));
    }
    // The key the mdoc handover commits to is the key the response is for.
    if get_encryption_jwk_thumbprint(&r).as_ref().map(|t| t.to_vec()) != compute_jwk_thumbprint(&key).ok().map(|t| t.to_vec()) {
        return Err("the handover's thumbprint is that of another key".into());
    }
    Ok(format!("for a key {} kid, {enc}, {} state", if want.get("kid").is_some() { "with" } else { "without" }, if state.is_some() { "with" } else { "without" }))
}

pub fn c23(c: &mut Ctx) {
    c.rule = "Every jwks of up to two (thorough: three) keys out of a list covering each combination of alg, crv, use, kid and type; every list of enc values up to two out of a list x every state and vp_token of a list; every sequence of builder calls up to a length (thorough: longer). What the response is made of is read from the stand-in for the JOSE library, which writes down what it is handed. Non-trivial: a distinct jwks, combination or sequence.".into();
    c.assumptions = vec![
        "the JOSE library (a git dependency that is not available offline) is represented by shim/josekit: its encryption itself is out of scope".into(),
        "keys whose use, kid or coordinates are malformed although alg and crv fit are left open".into(),
    ];
    let keys = keys();
    let n = keys.len();
    let depth = c.pick(2usize, 3);
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|l| (0..n).map(move |k| { let mut l = l.clone(); l.push(k); l })).collect();
        lists.extend(last.iter().cloned());
    }
    let vp = json!({"id": ["presentation"]});
    for l in &lists {
        let ks: Vec<&Json> = l.iter().map(|i| &keys[*i]).collect();
        let want = ks.iter().copied().find(|k| usable(k));
        for dc in [false, true] {
            c.case(format!("keys {l:?}, {}", if dc { "dc_api.jwt" } else { "direct_post.jwt" }), || {
                one(Some(json!({"jwks": {"keys": ks}, "vp_formats_supported": {}})), dc, &vp, Some("s"), want, "A128GCM")
            });
        }
        c.case(format!("choice of keys {l:?}"), || {
            let maps: Vec<Map<String, Json>> = ks.iter().map(|k| k.as_object().unwrap().clone()).collect();
            match (find_encryption_jwk(maps.iter()), want) {
                (Err(_), None) => Ok("no key to choose".into()),
                (Ok(_), None) => Err("a key is chosen that is not fit".into()),
                (Err(e), Some(_)) => Err(format!("no key chosen: {e:#}")),
                (Ok(i), Some(w)) => {
                    let got = serde_json::to_value(&i.jwk).unwrap();
                    if got != *w || Some(i.alg.as_str()) != text(w, "alg") || i.kid.as_deref() != text(w, "kid") {
                        return Err(format!("chose {got} with alg {} and kid {:?}, should be {w}", i.alg, i.kid));
                    }
                    Ok("a key chosen".into())
                }
            }
        });
    }
    // Long lists: the one that fits at each place, alone and followed by others that fit.
    let unfit: Vec<&Json> = keys.iter().filter(|k| !usable(k)).collect();
    for len in [3usize, 5, 8, 9, 16, 17, 33, 65] {
        for at in 0..=len {
            for (fi, fit) in keys.iter().enumerate().filter(|(_, k)| usable(k)) {
                for more in [false, true] {
                    let ks: Vec<&Json> = (0..len).map(|i| if i == at { fit } else if i > at && more { &keys[0] } else { unfit[(i + fi) % unfit.len()] }).collect();
                    let want = (at < len).then_some(fit);
                    c.case(format!("{len} keys, key {fi} at {at}, more {more}"), || {
                        one(Some(json!({"jwks": {"keys": ks}})), at % 2 == 0, &vp, None, want, "A128GCM")
                    });
                }
            }
        }
    }
    // Near misses of what makes a key fit, alone and before one that fits.
    for (m, v) in [("alg", "ECDH-ES"), ("crv", "P-256"), ("use", "enc")] {
        for n in near_misses(v) {
            let mut k = keys[0].clone();
            k[m] = json!(n);
            c.case(format!("{m} {n:?}"), || one(Some(json!({"jwks": {"keys": [k]}})), false, &vp, None, None, "A128GCM"));
            c.case(format!("{m} {n:?}, then one that fits"), || one(Some(json!({"jwks": {"keys": [k, keys[3]]}})), false, &vp, None, Some(&keys[3]), "A128GCM"));
        }
        for n in near_misses(m) {
            // the member under another name; a key without a use may be for anything
            let mut k = keys[0].clone();
            let o = k.as_object_mut().unwrap();
            if o.contains_key(&n) {
                continue;
            }
            let v = o.remove(m).unwrap();
            o.insert(n.clone(), if m == "use" { json!("sig") } else { v });
            let want = if m == "use" { &k } else { &keys[3] };
            c.case(format!("{n:?} for {m}"), || one(Some(json!({"jwks": {"keys": [k, keys[3]]}})), false, &vp, None, Some(want), "A128GCM"));
        }
    }
    // Keys with other members; long kids, long enc lists, long states and presentations.
    for n in [1usize, 16, 64, 255, 256, 1000, 70_000] {
        let mut k = keys[0].clone();
        k["kid"] = json!("k".repeat(n));
        for i in 0..n.min(40) {
            k[format!("x-{i}")] = json!([i]);
        }
        let state = "s\u{e9}".repeat(n);
        let ids: Map<String, Json> = (0..n.min(300)).map(|i| (format!("id{}", (i * 7919) % 1000), json!([format!("p{i}"), {"n": i}]))).collect();
        let long = json!({"id": vec![json!("q".repeat(n)); 3]});
        let mut encs = vec!["A256GCM".to_string()];
        encs.extend((0..n.min(100)).map(|i| format!("E{i}")));
        for (what, t) in [("many ids", Json::Object(ids)), ("long presentations", long)] {
            c.case(format!("size {n}, {what}"), || one(Some(json!({"jwks": {"keys": [k]}, "encrypted_response_enc_values_supported": encs})), true, &t, Some(&state), Some(&k), "A256GCM"));
        }
    }
    for n in texts_menu(2) {
        let mut k = keys[0].clone();
        k["kid"] = json!(n);
        c.case(format!("kid and state {n:?}"), || one(Some(json!({"jwks": {"keys": [k]}})), false, &json!({n.clone(): [n]}), Some(&n), Some(&k), "A128GCM"));
    }
    c.case("many responses in turn", || {
        for i in 0..300 {
            let k = &keys[[0, 1, 2, 3][i % 4]];
            let e = ["A128GCM", "A192GCM", "A256GCM"][i % 3];
            let s = format!("s{}", i / 2);
            let ks = if i % 5 == 0 { json!([keys[4], k]) } else { json!([k]) };
            one(Some(json!({"jwks": {"keys": ks}, "encrypted_response_enc_values_supported": [e]})), i % 2 == 0, &json!({format!("id{}", i / 7): ["p"]}), (i % 3 != 0).then_some(&s), Some(k), e)
                .map_err(|e| format!("response {i}: {e}"))?;
            if i % 11 == 0 {
                one(Some(json!({"jwks": {"keys": [keys[4]]}})), false, &vp, None, None, "A128GCM").map_err(|e| format!("response {i}: {e}"))?;
            }
        }
        Ok("many responses".into())
    });
    // Content encryption, state and plaintext.
    let menu = ["A128GCM", "A192GCM", "A256GCM", "A128CBC-HS256", "A256CBC-HS512", "XC20P", ""];
    let mut encs: Vec<Option<Vec<&str>>> = vec![None, Some(vec![])];
    for a in menu {
        encs.push(Some(vec![a]));
        for b in menu {
            encs.push(Some(vec![a, b]));
        }
    }
    let states = [None, Some(""), Some("s"), Some("a\"b\\c\u{e9}"), Some("null"), Some("{\"x\":1}")];
    let tokens = [
        json!({}),
        json!({"id": ["p"]}),
        json!({"b": ["p", "q"], "a": [{"@context": ["x"], "n": {"z": 1, "a": 2}}]}),
        json!({"": [""], "state": ["x"], "vp_token": [{"state": "y"}]}),
    ];
    for (ki, key) in keys.iter().enumerate().filter(|(_, k)| usable(k)) {
        for enc in &encs {
            for state in states {
                for (ti, t) in tokens.iter().enumerate() {
                    if c.quick() && ki != 0 && (ti != 1 || state == Some("null")) {
                        continue;
                    }
                    let mut cm = json!({"jwks": {"keys": [key]}});
                    if let Some(e) = enc {
                        cm["encrypted_response_enc_values_supported"] = json!(e);
                    }
                    let first = enc.as_ref().and_then(|e| e.first()).copied().unwrap_or("A128GCM");
                    c.case(format!("key {ki} enc {enc:?} state {state:?} token {ti}"), || one(Some(cm), false, t, state, Some(key), first));
                }
            }
        }
    }
    for (i, cm) in [
        None,
        Some(json!(7)),
        Some(json!({})),
        Some(json!({"jwks": 1})),
        Some(json!({"jwks": {}})),
        Some(json!({"jwks": {"keys": 1}})),
        Some(json!({"jwks": {"keys": [1]}})),
        Some(json!({"jwks_uri": "https://v.example/jwks"})),
        Some(json!({"jwks": {"keys": [keys[0]]}, "encrypted_response_enc_values_supported": "A256GCM"})),
        Some(json!({"jwks": {"keys": [keys[0]]}, "encrypted_response_enc_values_supported": [1]})),
    ]
    .into_iter()
    .enumerate()
    {
        c.case(format!("malformed client_metadata #{i}"), || one(cm, false, &vp, None, None, "A128GCM"));
    }
    builder(c, &keys);
}

/// Every sequence of builder calls, against a record of the last value of each.
fn builder(c: &mut Ctx, keys: &[Json]) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Payload(usize),
        Key(usize),
        Alg(&'static str),
        Enc(&'static str),
        Kid(&'static str),
    }
    let payloads = [json!({"vp_token": {"a": ["b"]}, "state": "s"}), json!({}), json!([1]), json!("text"), json!(null), json!({"x": {"y": [null]}}), json!({"a": null, "b": [], "c": false, "d": 0, "e": "", "f": {}})];
    let long: &'static str = Box::leak("a long kid ".repeat(c.pick(100, 10_000)).into_boxed_str());
    let ops = [
        Op::Payload(0), Op::Payload(1), Op::Payload(2), Op::Payload(3), Op::Payload(4), Op::Payload(5), Op::Payload(6),
        Op::Key(0), Op::Key(1), Op::Key(2), Op::Key(7),
        Op::Alg("ECDH-ES"), Op::Alg("ECDH-ES+A256KW"), Op::Alg(""),
        Op::Enc("A256GCM"), Op::Enc("A128CBC-HS256"),
        Op::Kid("mine"), Op::Kid("k"), Op::Kid(""), Op::Kid(long),
    ];
    let depth = c.pick(4usize, 5);
    let mut stack: Vec<Vec<Op>> = vec![vec![]];
    let mut sequences = vec![];
    while let Some(s) = stack.pop() {
        if s.len() < depth {
            for o in ops {
                let mut t = s.clone();
                t.push(o);
                stack.push(t);
            }
        }
        sequences.push(s);
    }
    sequences.sort_by_key(|s| s.len());
    for s in sequences {
        c.case(format!("builder {s:?}").replace(long, "(long)"), || {
            let mut b = JweBuilder::new();
            let (mut payload, mut key, mut alg, mut enc, mut kid) = (None, None, None, "A128GCM", None);
            for o in &s {
                b = match *o {
                    Op::Payload(i) => {
                        payload = Some(&payloads[i]);
                        b.payload(payloads[i].clone())
                    }
                    Op::Key(i) => {
                        key = Some(&keys[i]);
                        if i % 2 == 0 {
                            b.recipient_key_json(&keys[i]).map_err(|e| format!("{e:#}"))?
                        } else {
                            b.recipient_key(serde_json::from_value(keys[i].clone()).unwrap())
                        }
                    }
                    Op::Alg(a) => {
                        alg = Some(a);
                        b.alg(a)
                    }
                    Op::Enc(e) => {
                        enc = e;
                        b.enc(e)
                    }
                    Op::Kid(k) => {
                        kid = Some(k);
                        b.kid(k)
                    }
                };
            }
            let got = b.build();
            let good = payload.is_some_and(|p| p.is_object()) && key.is_some_and(usable) && alg == Some("ECDH-ES");
            match (got, good) {
                (Err(_), false) => Ok("an incomplete or unfit build fails".into()),
                (Ok(_), false) => Err("a build that has to fail succeeds".into()),
                (Err(e), true) => Err(format!("fails: {e:#}")),
                (Ok(t), true) => {
                    let (header, got, plain) = open(&t)?;
                    let key = key.unwrap();
                    if !same_key(&got, key) || Some(&plain) != payload || text(&header, "alg") != alg || text(&header, "enc") != Some(enc) {
                        return Err(format!("header {header}, key {got}, plaintext {plain}"));
                    }
                    // josekit lets a key's own kid win over one that was set by hand.
                    let own = text(key, "kid");
                    let h = text(&header, "kid");
                    let right = match (own, kid) {
                        (None, k) => h == k,
                        (o, None) => h == o,
                        (o, k) => h == o || h == k,
                    };
                    if !right {
                        return Err(format!("kid is {h:?}; the key's is {own:?}, the one set {kid:?}"));
                    }
                    Ok("built".into())
                }
            }
        });
    }
}
