//! C18, C24: DCQL queries, credential formats.
use crate::ctx::Ctx;
use crate::env::*;
use openid4vp::core::credential_format::*;
use openid4vp::core::dcql_query::*;
use openid4vp::core::metadata::parameters::verifier::VpFormats;
use openid4vp::core::object::UntypedObject;
use openid4vp::utils::NonEmptyVec;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value as Json};
use std::borrow::Cow;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::str::FromStr;

// ---------------------------------------------------------------- C18: which JSON is a query

fn list(v: &Json, min: usize, f: impl Fn(&Json) -> bool) -> bool {
    v.as_array().is_some_and(|a| a.len() >= min && a.iter().all(f))
}

fn strs(v: &Json) -> bool {
    list(v, 0, |v| v.is_string())
}

fn opt(o: &Map<String, Json>, k: &str, f: impl Fn(&Json) -> bool) -> bool {
    o.get(k).map(f).unwrap_or(true)
}

fn req(o: &Map<String, Json>, k: &str, f: impl Fn(&Json) -> bool) -> bool {
    o.get(k).is_some_and(f)
}

fn good_path(v: &Json) -> bool {
    list(v, 1, |e| e.is_string() || e.is_null() || e.is_u64())
}

fn good_values(v: &Json) -> bool {
    list(v, 1, |e| e.is_string() || e.is_boolean() || e.is_i64())
}

fn good_claim(v: &Json) -> bool {
    v.as_object().is_some_and(|o| {
        opt(o, "id", |v| v.is_string()) && req(o, "path", good_path) && opt(o, "values", good_values) && opt(o, "intent_to_retain", |v| v.is_boolean())
    })
}

fn good_authority(v: &Json) -> bool {
    v.as_object().is_some_and(|o| req(o, "type", |v| v.is_string()) && req(o, "values", |v| list(v, 1, |v| v.is_string())))
}

fn good_credential(v: &Json) -> bool {
    v.as_object().is_some_and(|o| {
        req(o, "id", |v| v.is_string())
            && req(o, "format", |v| v.is_string())
            && opt(o, "meta", |v| v.is_object())
            && opt(o, "claims", |v| list(v, 1, good_claim))
            && opt(o, "claim_sets", |v| list(v, 1, strs))
            && opt(o, "trusted_authorities", |v| list(v, 1, good_authority))
            && opt(o, "require_cryptographic_holder_binding", |v| v.is_boolean())
            && opt(o, "multiple", |v| v.is_boolean())
    })
}

fn good_set(v: &Json) -> bool {
    v.as_object().is_some_and(|o| req(o, "options", |v| list(v, 1, strs)) && opt(o, "required", |v| v.is_boolean()))
}

fn good_query(v: &Json) -> bool {
    v.as_object().is_some_and(|o| req(o, "credentials", |v| list(v, 1, good_credential)) && opt(o, "credential_sets", |v| list(v, 1, good_set)))
}

fn with_meta(mut v: Json) -> Json {
    if let Some(cs) = v.get_mut("credentials").and_then(|c| c.as_array_mut()) {
        for c in cs {
            credential_with_meta(c);
        }
    }
    v
}

fn credential_with_meta(c: &mut Json) {
    let o = c.as_object_mut().unwrap();
    o.entry("meta").or_insert(json!({}));
}

// The same JSON, put together from what the accessors say.

fn put<T: Into<Json>>(o: &mut Map<String, Json>, k: &str, v: Option<T>) {
    if let Some(v) = v {
        o.insert(k.into(), v.into());
    }
}

fn path_json(p: &DcqlCredentialClaimsQueryPath) -> Json {
    match p {
        DcqlCredentialClaimsQueryPath::String(s) => json!(s),
        DcqlCredentialClaimsQueryPath::Null => Json::Null,
        DcqlCredentialClaimsQueryPath::Integer(i) => json!(i),
    }
}

fn value_json(v: &DcqlCredentialClaimsQueryValue) -> Json {
    match v {
        DcqlCredentialClaimsQueryValue::String(s) => json!(s),
        DcqlCredentialClaimsQueryValue::Integer(i) => json!(i),
        DcqlCredentialClaimsQueryValue::Boolean(b) => json!(b),
    }
}

fn claim_view(c: &DcqlCredentialClaimsQuery) -> Result<Json, String> {
    let mut o = Map::new();
    put(&mut o, "id", c.id().cloned());
    let path: Vec<Json> = c.path().iter().map(path_json).collect();
    let at = |n: usize| path.get(n).and_then(|v| v.as_str());
    if c.namespace() != at(0) {
        return Err(format!("the namespace of {path:?} is {:?}", c.namespace()));
    }
    if c.element_identifier() != at(1) {
        return Err(format!("the element identifier of {path:?} is {:?}", c.element_identifier()));
    }
    let last = path.iter().filter_map(|v| v.as_str()).next_back();
    if c.claim_name() != last {
        return Err(format!("the claim name of {path:?} is {:?}", c.claim_name()));
    }
    o.insert("path".into(), Json::Array(path.clone()));
    put(&mut o, "values", c.values().map(|v| v.iter().map(value_json).collect::<Vec<_>>()));
    put(&mut o, "intent_to_retain", c.intent_to_retain());
    Ok(Json::Object(o))
}

fn authority_view(t: &TrustedAuthoritiesQuery) -> Result<Json, String> {
    let ty = match t.authority_type() {
        TrustedAuthorityType::Aki => "aki".to_string(),
        TrustedAuthorityType::EtsiTl => "etsi_tl".into(),
        TrustedAuthorityType::OpenidFederation => "openid_federation".into(),
        TrustedAuthorityType::Other(s) if ["aki", "etsi_tl", "openid_federation"].contains(&s.as_str()) => return Err(format!("the defined type {s} is reported as another one")),
        TrustedAuthorityType::Other(s) => s.clone(),
    };
    Ok(json!({"type": ty, "values": t.values().iter().collect::<Vec<_>>()}))
}

fn credential_view(c: &DcqlCredentialQuery) -> Result<Json, String> {
    let mut o = Map::new();
    o.insert("id".into(), json!(c.id()));
    o.insert("format".into(), json!(c.format().to_string()));
    o.insert("meta".into(), Json::Object(c.meta().clone()));
    if let Some(cs) = c.claims() {
        o.insert("claims".into(), Json::Array(cs.iter().map(claim_view).collect::<Result<_, _>>()?));
    }
    put(&mut o, "claim_sets", c.claim_sets().map(|s| json!(s.iter().collect::<Vec<_>>())));
    if let Some(ts) = c.trusted_authorities() {
        o.insert("trusted_authorities".into(), Json::Array(ts.iter().map(authority_view).collect::<Result<_, _>>()?));
    }
    put(&mut o, "require_cryptographic_holder_binding", c.require_cryptographic_holder_binding_raw());
    put(&mut o, "multiple", c.multiple_raw());
    if c.require_cryptographic_holder_binding() != c.require_cryptographic_holder_binding_raw().unwrap_or(true) {
        return Err("require_cryptographic_holder_binding is not its value, or true".into());
    }
    if c.multiple() != c.multiple_raw().unwrap_or(false) {
        return Err("multiple is not its value, or false".into());
    }
    Ok(Json::Object(o))
}

fn set_view(s: &DcqlCredentialSetQuery) -> Result<Json, String> {
    let mut o = Map::new();
    o.insert("options".into(), json!(s.options().iter().collect::<Vec<_>>()));
    put(&mut o, "required", s.required_raw());
    if s.is_required() != s.required_raw().unwrap_or(true) {
        return Err("is_required is not the value of required, or true".into());
    }
    Ok(Json::Object(o))
}

fn query_view(q: &DcqlQuery) -> Result<Json, String> {
    let mut o = Map::new();
    o.insert("credentials".into(), Json::Array(q.credentials().iter().map(credential_view).collect::<Result<_, _>>()?));
    if let Some(s) = q.credential_sets() {
        o.insert("credential_sets".into(), Json::Array(s.iter().map(set_view).collect::<Result<_, _>>()?));
    }
    Ok(Json::Object(o))
}

fn parse_one(c: &mut Ctx, what: &str, v: &Json) {
    c.case(format!("{what}: {v}"), || {
        let parsed = [
            ("from_value", DcqlQuery::try_from(v.clone()).map_err(|e| e.to_string())),
            ("from_str", serde_json::from_str::<DcqlQuery>(&v.to_string()).map_err(|e| e.to_string())),
            ("from a request", {
                let o: UntypedObject = object(json!({"dcql_query": v}));
                o.get::<DcqlQuery>().unwrap().map_err(|e| e.to_string())
            }),
        ];
        let good = good_query(v);
        for (how, p) in parsed {
            match (p, good) {
                (Ok(_), false) => return Err(format!("{how} accepts it, though it is malformed")),
                (Err(e), true) => return Err(format!("{how} refuses it, though it is well-formed: {e}")),
                (Err(_), false) => {}
                (Ok(q), true) => {
                    let want = with_meta(v.clone());
                    let view = query_view(&q)?;
                    if view != want {
                        return Err(format!("{how}: the accessors say {view}"));
                    }
                    let back: Json = q.clone().into();
                    if back != want || serde_json::to_value(&q).unwrap() != want || serde_json::from_str::<Json>(&serde_json::to_string(&q).unwrap()).unwrap() != want {
                        return Err(format!("{how}: serialized as {back}"));
                    }
                    if DcqlQuery::try_from(back).ok().as_ref() != Some(&q) {
                        return Err(format!("{how}: its JSON does not give it back"));
                    }
                }
            }
        }
        Ok(if good { format!("{what}: accepted") } else { format!("{what}: refused") })
    });
}

fn query_of(credential: Json) -> Json {
    json!({"credentials": [credential]})
}

/// All objects with one value (or none) per member.
fn products(members: &[(&str, Vec<Option<Json>>)]) -> Vec<Json> {
    let mut out = vec![Map::new()];
    for (k, vs) in members {
        out = out
            .iter()
            .flat_map(|o| {
                vs.iter().map(move |v| {
                    let mut o = o.clone();
                    if let Some(v) = v {
                        o.insert(k.to_string(), v.clone());
                    }
                    o
                })
            })
            .collect();
    }
    out.into_iter().map(Json::Object).collect()
}

fn sequences(items: &[Json], n: usize) -> Vec<Json> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<Json>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|l| items.iter().map(|i| { let mut l = l.clone(); l.push(i.clone()); l })).collect();
        out.extend(last.iter().cloned());
    }
    out.into_iter().map(Json::Array).collect()
}

// ---------------------------------------------------------------- C18: setters

type Action<T> = (String, Box<dyn Fn(&mut T)>, Box<dyn Fn(&mut Json)>);

fn ne<T: DeserializeOwned>(v: &Json) -> NonEmptyVec<T> {
    let v: Vec<T> = serde_json::from_value(v.clone()).unwrap();
    v.try_into().unwrap()
}

fn one<T: DeserializeOwned>(v: &Json) -> T {
    serde_json::from_value(v.clone()).unwrap()
}

/// The actions that give member `k` one of `vs`, through `set`.
fn setters<T: 'static, V: 'static>(
    out: &mut Vec<Action<T>>,
    how: &str,
    k: &'static str,
    vs: &[Option<Json>],
    parse: impl Fn(&Option<Json>) -> V + Copy + 'static,
    set: impl Fn(&mut T, V) + Copy + 'static,
) {
    for v in vs {
        let (a, b) = (v.clone(), v.clone());
        out.push((
            format!("{how} {k}={}", v.as_ref().map(|v| v.to_string()).unwrap_or("none".into())),
            Box::new(move |t| set(t, parse(&a))),
            Box::new(move |j| match &b {
                Some(v) => {
                    j[k] = v.clone();
                }
                None => {
                    j.as_object_mut().unwrap().remove(k);
                }
            }),
        ));
    }
}

fn machine<T>(c: &mut Ctx, name: &str, starts: &[(T, Json)], actions: &[Action<T>], depth: usize, view: impl Fn(&T) -> Result<Json, String>)
where
    T: Clone + PartialEq + Serialize + DeserializeOwned + 'static,
{
    let mut states: HashSet<String> = HashSet::new();
    let (mut transitions, mut traces) = (0u64, 0u64);
    for (start, j0) in starts {
        // All sequences, not only one per state: the real value may hold more than its JSON shows.
        let mut level: Vec<(T, Json, String)> = vec![(start.clone(), j0.clone(), format!("{name} {j0}"))];
        for d in 0..=depth {
            let mut next = vec![];
            for (t, j, label) in &level {
                states.insert(j.to_string());
                traces += 1;
                c.case(label.clone(), || {
                    let got = view(t)?;
                    if got != *j {
                        return Err(format!("the accessors say {got}, should be {j}"));
                    }
                    let s = serde_json::to_value(t).unwrap();
                    if s != *j {
                        return Err(format!("serialized as {s}, should be {j}"));
                    }
                    let back: T = serde_json::from_value(s).map_err(|e| format!("its JSON does not parse: {e}"))?;
                    if back != *t {
                        return Err("its JSON gives another value".into());
                    }
                    Ok(format!("{name} after {d} steps"))
                });
                if d < depth {
                    for (n, f, g) in actions {
                        let (mut t, mut j) = (t.clone(), j.clone());
                        f(&mut t);
                        g(&mut j);
                        transitions += 1;
                        next.push((t, j, format!("{label}; {n}")));
                    }
                }
            }
            level = next;
        }
    }
    c.explored(states.len() as u64, transitions, traces);
}

pub fn c18(c: &mut Ctx) {
    c.rule = "Every combination of values (absent, well-formed ones, every wrong type, empty lists) for the members of a query, its credential queries, claims, credential sets and trusted authorities, parsed in three ways and compared with an independent validator and a view assembled from the accessors; every sequence of setters up to a depth on every kind of object, compared with a JSON model. States are the model's JSON values, transitions the setter calls, traces the replayed sequences. Non-trivial: a distinct JSON or sequence.".into();
    c.assumptions = vec![
        "members written as null, unknown members, and lists in the place of objects are left open".into(),
        "integers are within the platform's word size".into(),
    ];
    let some = |v: Json| Some(v);
    // Claims.
    let path_items = [json!("a"), json!("org.iso.18013.5.1"), json!(""), json!(null), json!(0), json!(u32::MAX), json!(u64::MAX), json!(-1), json!(1.5), json!(true), json!({}), json!([])];
    for p in sequences(&path_items, c.pick(3, 4)) {
        parse_one(c, "path", &query_of(json!({"id": "c", "format": "mso_mdoc", "claims": [{"path": p}]})));
    }
    // Long paths: one or two texts at each place among what is none.
    for n in c.pick(vec![5usize, 9, 17, 33], vec![5, 9, 17, 33, 65, 100]) {
        for filler in [json!(null), json!(0), json!(7)] {
            for i in 0..n {
                for j in [i, (i + 1) % n, n - 1, 0] {
                    let mut p = vec![filler.clone(); n];
                    p[i] = json!("first");
                    p[j] = json!("then");
                    parse_one(c, "path", &query_of(json!({"id": "c", "format": "mso_mdoc", "claims": [{"path": p}]})));
                }
            }
            parse_one(c, "path", &query_of(json!({"id": "c", "format": "mso_mdoc", "claims": [{"path": vec![filler.clone(); n]}]})));
        }
        for i in 0..n {
            let mut p: Vec<Json> = (0..n).map(|k| json!(format!("e{k}"))).collect();
            p[i] = Json::Null;
            parse_one(c, "path", &query_of(json!({"id": "c", "format": "mso_mdoc", "claims": [{"path": p}]})));
        }
    }
    let value_items = [json!("a"), json!(""), json!("true"), json!(0), json!(-7), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(true), json!(false), json!(null), json!(1.5), json!({}), json!(["a"])];
    for v in sequences(&value_items, c.pick(2, 3)) {
        parse_one(c, "values", &query_of(json!({"id": "c", "format": "x", "claims": [{"path": ["a"], "values": v}]})));
    }
    let booleans = || vec![None, some(json!(true)), some(json!(false)), some(json!("true")), some(json!(1)), some(json!([])), some(json!({}))];
    let texts = || vec![None, some(json!("a")), some(json!("")), some(json!("é\"")), some(json!(1)), some(json!(true)), some(json!(["a"])), some(json!({}))];
    let claim_members = [
        ("id", texts()),
        ("path", vec![None, some(json!(["a", "b"])), some(json!([])), some(json!("a")), some(json!({})), some(json!([null]))]),
        ("values", vec![None, some(json!(["x", 1, false])), some(json!([])), some(json!("x")), some(json!({})), some(json!([1.5]))]),
        ("intent_to_retain", booleans()),
    ];
    let claims = products(&claim_members);
    for v in &claims {
        parse_one(c, "claim", &query_of(json!({"id": "c", "format": "x", "claims": [v]})));
        parse_one(c, "claim after a good one", &query_of(json!({"id": "c", "format": "x", "claims": [{"path": ["z"]}, v]})));
    }
    // Authorities and sets.
    for v in products(&[
        ("type", { let mut t = texts(); t.extend(["aki", "etsi_tl", "openid_federation", "Aki", "etsiTl", "openid-federation", "EtsiTl", "other", "Other"].map(|s| some(json!(s)))); t }),
        ("values", vec![None, some(json!(["v"])), some(json!(["v", ""])), some(json!([])), some(json!("v")), some(json!([1])), some(json!([null])), some(json!({}))]),
    ]) {
        parse_one(c, "authority", &query_of(json!({"id": "c", "format": "x", "trusted_authorities": [v]})));
        parse_one(c, "authority after a good one", &query_of(json!({"id": "c", "format": "x", "trusted_authorities": [{"type": "aki", "values": ["z"]}, v]})));
    }
    let lists_of_lists = || vec![None, some(json!([["a"]])), some(json!([["a", "b"], ["c"]])), some(json!([[]])), some(json!([])), some(json!(["a"])), some(json!([[1]])), some(json!([["a"], 1])), some(json!("a")), some(json!({})), some(json!([[["a"]]]))];
    let sets = products(&[("options", lists_of_lists()), ("required", booleans())]);
    for v in &sets {
        parse_one(c, "set", &json!({"credentials": [{"id": "c", "format": "x"}], "credential_sets": [v]}));
        parse_one(c, "set after a good one", &json!({"credentials": [{"id": "c", "format": "x"}], "credential_sets": [{"options": [["c"]]}, v]}));
    }
    // Credential queries: all combinations of fewer values, then each pair of members with all.
    let full: Vec<(&str, Vec<Option<Json>>)> = vec![
        ("id", texts()),
        ("format", { let mut t = texts(); t.extend(["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "JWT_VC_JSON"].map(|s| some(json!(s)))); t }),
        ("meta", vec![None, some(json!({})), some(json!({"vct_values": ["a"], "n": null, "deep": {"x": [1]}})), some(json!(1)), some(json!("x")), some(json!(true))]),
        ("claims", vec![None, some(json!([{"path": ["a"]}])), some(json!([{"id": "i", "path": ["a", null, 0], "values": [1]}, {"path": ["b"]}])), some(json!([])), some(json!({})), some(json!("a")), some(json!([1])), some(json!([{}]))]),
        ("claim_sets", lists_of_lists()),
        ("trusted_authorities", vec![None, some(json!([{"type": "aki", "values": ["v"]}])), some(json!([])), some(json!({})), some(json!([{}])), some(json!("aki"))]),
        ("require_cryptographic_holder_binding", booleans()),
        ("multiple", booleans()),
    ];
    let few: Vec<(&str, Vec<Option<Json>>)> = full
        .iter()
        .map(|(k, vs)| {
            let n = c.pick(3, 4).min(vs.len());
            let mut v: Vec<Option<Json>> = vs[..n].to_vec();
            if !c.quick() {
                v.push(vs.last().unwrap().clone());
            }
            (*k, v)
        })
        .collect();
    for v in products(&few) {
        parse_one(c, "credential", &query_of(v));
    }
    for i in 0..full.len() {
        for j in 0..i {
            let members: Vec<(&str, Vec<Option<Json>>)> = full.iter().enumerate().map(|(n, (k, vs))| (*k, if n == i || n == j { vs.clone() } else { vec![vs[1].clone()] })).collect();
            for v in products(&members) {
                parse_one(c, "credential, two members", &query_of(v.clone()));
                parse_one(c, "credential after a good one", &json!({"credentials": [{"id": "z", "format": "y"}, v]}));
            }
        }
    }
    // Every text, in every place that takes one.
    for t in texts_menu(c.pick(1, 2)) {
        for (what, v) in [
            ("id", query_of(json!({"id": t, "format": "x"}))),
            ("format", query_of(json!({"id": "a", "format": t}))),
            ("meta", query_of(json!({"id": "a", "format": "x", "meta": {t.clone(): t}}))),
            ("path", query_of(json!({"id": "a", "format": "x", "claims": [{"path": [t, "b", t]}]}))),
            ("claim id and values", query_of(json!({"id": "a", "format": "x", "claims": [{"id": t, "path": ["b"], "values": [t, 1]}], "claim_sets": [[t, t]]}))),
            ("authority", query_of(json!({"id": "a", "format": "x", "trusted_authorities": [{"type": t, "values": [t]}]}))),
            ("set", json!({"credentials": [{"id": "a", "format": "x"}], "credential_sets": [{"options": [[t], ["a", t]]}]})),
        ] {
            parse_one(c, &format!("text in {what}"), &v);
        }
    }
    for n in ["aki", "etsi_tl", "openid_federation"].iter().flat_map(|n| near_misses(n)) {
        parse_one(c, "authority type", &query_of(json!({"id": "a", "format": "x", "trusted_authorities": [{"type": n, "values": ["v"]}]})));
    }
    for n in ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "ac_vp"].iter().flat_map(|n| near_misses(n)) {
        parse_one(c, "format", &query_of(json!({"id": "a", "format": n})));
    }
    // Members of other names: refused or ignored, never taken for the ones they resemble; and
    // not good enough in their place.
    let whole = json!({
        "credentials": [{"id": "a", "format": "x", "meta": {"m": 1}, "claims": [{"id": "i", "path": ["a"], "values": [1], "intent_to_retain": true}], "claim_sets": [["i"]],
            "trusted_authorities": [{"type": "aki", "values": ["v"]}], "require_cryptographic_holder_binding": false, "multiple": true}],
        "credential_sets": [{"options": [["a"]], "required": false}],
    });
    for (place, pointer) in [("query", ""), ("credential", "/credentials/0"), ("claim", "/credentials/0/claims/0"), ("authority", "/credentials/0/trusted_authorities/0"), ("set", "/credential_sets/0")] {
        let members: Vec<String> = whole.pointer(pointer).unwrap().as_object().unwrap().keys().cloned().collect();
        for m in &members {
            for n in near_misses(m) {
                if members.contains(&n) {
                    continue;
                }
                let mut without = whole.clone();
                let o = without.pointer_mut(pointer).unwrap().as_object_mut().unwrap();
                let v = o.remove(m).unwrap();
                let mut with = without.clone();
                with.pointer_mut(pointer).unwrap()[n.as_str()] = v;
                c.case(format!("{place}: {n:?} for {m}"), || {
                    let got = DcqlQuery::try_from(with.clone());
                    if !good_query(&without) {
                        return match got {
                            Ok(_) => Err("accepted without a required member".into()),
                            Err(_) => Ok("refused, another name".into()),
                        };
                    }
                    let Ok(got) = got else { return Ok("refused, another name".into()) };
                    if got != DcqlQuery::try_from(without.clone()).map_err(|e| e.to_string())? || query_view(&got)? != with_meta(without.clone()) {
                        return Err(format!("read as {}", query_view(&got)?));
                    }
                    Ok("ignored, another name".into())
                });
            }
        }
    }
    // Whole queries.
    let credentials = [json!({"id": "a", "format": "ldp_vc"}), json!({"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "d"}}), json!({"id": "b"}), json!(1), json!("x")];
    let mut lists: Vec<Option<Json>> = sequences(&credentials, 3).into_iter().map(Some).collect();
    lists.extend([None, some(json!({})), some(json!("x")), some(json!(1))]);
    let set_items = [json!({"options": [["a"], ["b", "a"]], "required": false}), json!({"options": []}), json!({})];
    let mut set_lists: Vec<Option<Json>> = sequences(&set_items, 2).into_iter().map(Some).collect();
    set_lists.extend([None, some(json!({})), some(json!("x")), some(json!(1))]);
    for v in products(&[("credentials", lists), ("credential_sets", set_lists)]) {
        parse_one(c, "query", &v);
    }
    for v in [json!(null), json!(1), json!("x"), json!(true)] {
        parse_one(c, "no object", &v);
    }
    // Long lists, whole and with one malformed item at each place; long texts.
    for n in [4usize, 8, 16, 17, 33, 64, 130] {
        let items = |f: &dyn Fn(usize) -> Json| -> Vec<Json> { (0..n).map(f).collect() };
        let places: [(&str, Vec<Json>, Json, fn(Json) -> Json); 9] = [
            ("path", items(&|i| match i % 3 { 0 => json!(format!("p{i}")), 1 => json!(i), _ => json!(null) }), json!(-1), |l| query_of(json!({"id": "c", "format": "x", "claims": [{"path": l}]}))),
            ("values", items(&|i| match i % 3 { 0 => json!(format!("v{i}")), 1 => json!(i), _ => json!(i % 2 == 0) }), json!(1.5), |l| query_of(json!({"id": "c", "format": "x", "claims": [{"path": ["a"], "values": l}]}))),
            ("claims", items(&|i| json!({"id": format!("i{i}"), "path": ["ns", format!("e{i}")], "intent_to_retain": i % 2 == 0})), json!({"id": "no path"}), |l| query_of(json!({"id": "c", "format": "x", "claims": l}))),
            ("claim sets", items(&|i| json!([format!("i{i}"), "i0"])), json!(["a", 1]), |l| query_of(json!({"id": "c", "format": "x", "claim_sets": l}))),
            ("one claim set", items(&|i| json!(format!("i{i}"))), json!(1), |l| query_of(json!({"id": "c", "format": "x", "claim_sets": [["z"], l]}))),
            ("authorities", items(&|i| json!({"type": (["aki", "etsi_tl", "openid_federation", "o"][i % 4]), "values": [format!("v{i}")]})), json!({"type": "aki", "values": []}), |l| query_of(json!({"id": "c", "format": "x", "trusted_authorities": l}))),
            ("authority values", items(&|i| json!(format!("v{i}"))), json!(1), |l| query_of(json!({"id": "c", "format": "x", "trusted_authorities": [{"type": "aki", "values": l}]}))),
            ("credentials", items(&|i| json!({"id": format!("c{i}"), "format": (["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "o"][i % 5]), "meta": {"n": i}, "multiple": i % 2 == 0})), json!({"id": "no format"}), |l| json!({"credentials": l})),
            ("sets", items(&|i| json!({"options": [[format!("c{i}")], ["d"]], "required": i % 2 == 0})), json!({"options": []}), |l| json!({"credentials": [{"id": "c", "format": "x"}], "credential_sets": l})),
        ];
        for (what, good, bad, wrap) in &places {
            parse_one(c, &format!("{n} in {what}"), &wrap(json!(good)));
            parse_one(c, &format!("{n} of one in {what}"), &wrap(json!(vec![good[0].clone(); n])));
            for i in 0..n {
                if c.quick() && n > 17 && i > 2 && i < n - 2 && i % 8 != 0 {
                    continue;
                }
                let mut l = good.clone();
                l[i] = bad.clone();
                parse_one(c, &format!("{n} in {what}, one malformed"), &wrap(json!(l)));
            }
        }
    }
    for n in [63usize, 64, 255, 256, 257, 1024, 5000, 70_000] {
        let t = "é".repeat(n / 2) + &"q".repeat(n % 2 + 1);
        parse_one(c, "long texts", &json!({
            "credentials": [{"id": t, "format": t, "meta": {t.clone(): {"x": [t, t]}}, "claims": [{"id": t, "path": [t, null, t], "values": [t]}], "claim_sets": [[t, t]],
                "trusted_authorities": [{"type": t, "values": [t, t]}]}],
            "credential_sets": [{"options": [[t], [t, t]]}],
        }));
        if n <= 64 {
            // serde_json's own limit is 128 levels
            let mut d = json!(1);
            for _ in 0..n {
                d = json!({"d": d});
            }
            parse_one(c, "deep meta", &query_of(json!({"id": "a", "format": "x", "meta": {"m": d}})));
        }
        let meta: Map<String, Json> = (0..n.min(1024)).map(|i| (format!("m{i}"), json!(i))).collect();
        parse_one(c, "large meta", &query_of(json!({"id": "a", "format": "x", "meta": meta})));
    }

    // Setters.
    let depth = c.pick(2, 3);
    let opt_bool = |v: &Option<Json>| v.as_ref().and_then(|v| v.as_bool());
    let bools = [None, some(json!(true)), some(json!(false))];
    {
        let mut a: Vec<Action<DcqlCredentialClaimsQuery>> = vec![];
        let ids = [None, some(json!("i")), some(json!(""))];
        let paths = [some(json!(["p", "q", null, 3])), some(json!([null]))];
        let values = [None, some(json!(["x"])), some(json!([1, true, "y"]))];
        let text = |v: &Option<Json>| v.as_ref().map(one::<String>);
        setters(&mut a, "set", "id", &ids, text, |t: &mut DcqlCredentialClaimsQuery, v| t.set_id(v));
        setters(&mut a, "mut", "id", &ids, text, |t: &mut DcqlCredentialClaimsQuery, v| *t.id_mut() = v);
        setters(&mut a, "set", "path", &paths, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlCredentialClaimsQuery, v| t.set_path(v));
        setters(&mut a, "mut", "path", &paths, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlCredentialClaimsQuery, v| *t.path_mut() = v);
        setters(&mut a, "set", "values", &values, |v| v.as_ref().map(ne), |t: &mut DcqlCredentialClaimsQuery, v| t.set_values(v));
        setters(&mut a, "mut", "values", &values, |v| v.as_ref().map(ne), |t: &mut DcqlCredentialClaimsQuery, v| *t.values_mut() = v);
        setters(&mut a, "set", "intent_to_retain", &bools, opt_bool, |t: &mut DcqlCredentialClaimsQuery, v| t.set_intent_to_retain(v));
        setters(&mut a, "mut", "intent_to_retain", &bools, opt_bool, |t: &mut DcqlCredentialClaimsQuery, v| *t.intent_to_retain_mut() = v);
        a.push(("push path".into(), Box::new(|t| t.path_mut().push(DcqlCredentialClaimsQueryPath::String("more".into()))), Box::new(|j| j["path"].as_array_mut().unwrap().push(json!("more")))));
        let full = json!({"id": "f", "path": ["a"], "values": ["v"], "intent_to_retain": true});
        let starts = [(DcqlCredentialClaimsQuery::new(ne(&json!(["a"]))), json!({"path": ["a"]})), (one(&full), full)];
        machine(c, "claim", &starts, &a, depth, claim_view);
    }
    {
        let mut a: Vec<Action<DcqlCredentialSetQuery>> = vec![];
        let options = [some(json!([["a"], []])), some(json!([["b", "c"]]))];
        setters(&mut a, "set", "options", &options, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlCredentialSetQuery, v| t.set_options(v));
        setters(&mut a, "mut", "options", &options, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlCredentialSetQuery, v| *t.options_mut() = v);
        setters(&mut a, "set", "required", &bools, opt_bool, |t: &mut DcqlCredentialSetQuery, v| t.set_required(v));
        setters(&mut a, "mut", "required", &bools, opt_bool, |t: &mut DcqlCredentialSetQuery, v| *t.required_mut() = v);
        let full = json!({"options": [["z"]], "required": false});
        let starts = [(DcqlCredentialSetQuery::new(ne(&json!([["a"]]))), json!({"options": [["a"]]})), (one(&full), full)];
        machine(c, "set", &starts, &a, 3, set_view);
    }
    {
        let mut a: Vec<Action<TrustedAuthoritiesQuery>> = vec![];
        let types = ["aki", "etsi_tl", "openid_federation", "x"].map(|s| some(json!(s)));
        let values = [some(json!(["a", "b"])), some(json!([""]))];
        setters(&mut a, "set", "type", &types, |v| match v.as_ref().unwrap().as_str().unwrap() {
            "aki" => TrustedAuthorityType::Aki,
            "etsi_tl" => TrustedAuthorityType::EtsiTl,
            "openid_federation" => TrustedAuthorityType::OpenidFederation,
            o => TrustedAuthorityType::Other(o.into()),
        }, |t: &mut TrustedAuthoritiesQuery, v| t.set_authority_type(v));
        setters(&mut a, "set", "values", &values, |v| ne(v.as_ref().unwrap()), |t: &mut TrustedAuthoritiesQuery, v| t.set_values(v));
        setters(&mut a, "mut", "values", &values, |v| ne(v.as_ref().unwrap()), |t: &mut TrustedAuthoritiesQuery, v| *t.values_mut() = v);
        let starts = [(TrustedAuthoritiesQuery::new(TrustedAuthorityType::EtsiTl, ne(&json!(["z"]))), json!({"type": "etsi_tl", "values": ["z"]}))];
        machine(c, "authority", &starts, &a, 3, authority_view);
    }
    {
        type Q = DcqlCredentialQuery;
        let mut a: Vec<Action<Q>> = vec![];
        let ids = [some(json!("i")), some(json!(""))];
        let formats = ["ldp_vc", "mso_mdoc", "dc+sd-jwt", "jwt_vc_json", "z"].map(|s| some(json!(s)));
        let metas = [some(json!({})), some(json!({"vct_values": ["v"], "x": null}))];
        let claims = [None, some(json!([{"path": ["a"]}])), some(json!([{"id": "i", "path": ["b", 1]}, {"path": [null], "values": [true]}]))];
        let sets = [None, some(json!([["i"], []]))];
        let tas = [None, some(json!([{"type": "aki", "values": ["v"]}, {"type": "o", "values": ["w", "x"]}]))];
        let text = |v: &Option<Json>| one::<String>(v.as_ref().unwrap());
        let format = |v: &Option<Json>| ClaimFormatDesignation::from(v.as_ref().unwrap().as_str().unwrap());
        let map = |v: &Option<Json>| v.as_ref().unwrap().as_object().unwrap().clone();
        setters(&mut a, "set", "id", &ids, text, |t: &mut Q, v| t.set_id(v));
        setters(&mut a, "mut", "id", &ids, text, |t: &mut Q, v| *t.id_mut() = v);
        setters(&mut a, "set", "format", &formats, format, |t: &mut Q, v| t.set_format(v));
        setters(&mut a, "mut", "format", &formats[..1], format, |t: &mut Q, v| *t.format_mut() = v);
        setters(&mut a, "set", "meta", &metas, map, |t: &mut Q, v| t.set_meta(v));
        setters(&mut a, "mut", "meta", &metas, map, |t: &mut Q, v| *t.meta_mut() = v);
        setters(&mut a, "set", "claims", &claims, |v| v.as_ref().map(ne), |t: &mut Q, v| t.set_claims(v));
        setters(&mut a, "mut", "claims", &claims, |v| v.as_ref().map(ne), |t: &mut Q, v| *t.claims_mut() = v);
        setters(&mut a, "set", "claim_sets", &sets, |v| v.as_ref().map(ne), |t: &mut Q, v| t.set_claim_sets(v));
        setters(&mut a, "mut", "claim_sets", &sets, |v| v.as_ref().map(ne), |t: &mut Q, v| *t.claim_sets_mut() = v);
        setters(&mut a, "set", "trusted_authorities", &tas, |v| v.as_ref().map(ne), |t: &mut Q, v| t.set_trusted_authorities(v));
        setters(&mut a, "mut", "trusted_authorities", &tas, |v| v.as_ref().map(ne), |t: &mut Q, v| *t.trusted_authorities_mut() = v);
        setters(&mut a, "set", "require_cryptographic_holder_binding", &bools, opt_bool, |t: &mut Q, v| t.set_require_cryptographic_holder_binding(v));
        setters(&mut a, "set", "multiple", &bools, opt_bool, |t: &mut Q, v| t.set_multiple(v));
        let full = json!({"id": "f", "format": "ldp_vc", "meta": {"a": 1}, "claims": [{"path": ["z"]}], "claim_sets": [["y"]], "trusted_authorities": [{"type": "etsi_tl", "values": ["u"]}], "require_cryptographic_holder_binding": false, "multiple": true});
        let starts = [(Q::new("n".into(), ClaimFormatDesignation::MsoMDoc), json!({"id": "n", "format": "mso_mdoc", "meta": {}})), (one(&full), full)];
        machine(c, "credential", &starts, &a, depth, credential_view);
    }
    {
        let mut a: Vec<Action<DcqlQuery>> = vec![];
        let cs = [some(json!([{"id": "a", "format": "x", "meta": {}}])), some(json!([{"id": "a", "format": "x", "meta": {}}, {"id": "b", "format": "ldp_vc", "meta": {"m": 1}, "multiple": true}]))];
        let sets = [None, some(json!([{"options": [["a"]]}])), some(json!([{"options": [["b"]], "required": true}, {"options": [[]]}]))];
        setters(&mut a, "set", "credentials", &cs, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlQuery, v| t.set_credentials(v));
        setters(&mut a, "mut", "credentials", &cs, |v| ne(v.as_ref().unwrap()), |t: &mut DcqlQuery, v| *t.credentials_mut() = v);
        setters(&mut a, "set", "credential_sets", &sets, |v| v.as_ref().map(ne), |t: &mut DcqlQuery, v| t.set_credential_sets(v));
        setters(&mut a, "mut", "credential_sets", &sets, |v| v.as_ref().map(ne), |t: &mut DcqlQuery, v| *t.credential_sets_mut() = v);
        a.push(("push credential".into(), Box::new(|t| t.credentials_mut().push(DcqlCredentialQuery::new("p".into(), ClaimFormatDesignation::DcSdJwt))), Box::new(|j| j["credentials"].as_array_mut().unwrap().push(json!({"id": "p", "format": "dc+sd-jwt", "meta": {}})))));
        let first = json!([{"id": "s", "format": "y", "meta": {}}]);
        let starts = [(DcqlQuery::new(ne(&first)), json!({"credentials": first}))];
        machine(c, "query", &starts, &a, 3, query_view);
    }
}

// ---------------------------------------------------------------- C24

fn known(name: &str) -> Option<ClaimFormatDesignation> {
    Some(match name {
        "jwt_vc_json" => ClaimFormatDesignation::JwtVcJson,
        "ldp_vc" => ClaimFormatDesignation::LdpVc,
        "mso_mdoc" => ClaimFormatDesignation::MsoMDoc,
        "dc+sd-jwt" => ClaimFormatDesignation::DcSdJwt,
        _ => return None,
    })
}

/// The methods an entry lists, if it is of one of the two kinds.
fn listed(entry: &Json) -> Option<(bool, Vec<String>)> {
    let o = entry.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (k, v) = o.iter().next().unwrap();
    let alg = match k.as_str() {
        "alg_values" => true,
        "proof_type_values" => false,
        _ => return None,
    };
    let v: Vec<String> = serde_json::from_value(v.clone()).ok()?;
    Some((alg, v))
}

pub fn c24(c: &mut Ctx) {
    c.rule = "Every defined format name, every text one edit away from one, and every text over a small alphabet up to a length, in every representation, pairwise different; every map of up to two (thorough: three) formats with entries of every kind, with every method, and after every sequence of up to three additions. Non-trivial: a distinct name, map or sequence.".into();
    c.assumptions = vec!["whether an entry that has other members besides its list of algorithms or proof types, or lists under other names, supports a method is left open".into()];
    let mut names: BTreeSet<String> = strings(&["a", "_", "+", "é", "J", " "], c.pick(3, 4)).into_iter().collect();
    for k in ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "jwt_vp_json", "ldp_vp", "vc+sd-jwt", "JwtVcJson", "other", "Other"] {
        names.insert(k.into());
        names.insert(k.to_uppercase());
        names.insert(format!("{k} "));
        names.insert(format!(" {k}"));
        for i in 0..k.len() {
            names.insert(format!("{}{}", &k[..i], &k[i + 1..]));
            for x in ["-", "_", "x", "J", "+"] {
                names.insert(format!("{}{x}{}", &k[..i], &k[i + 1..]));
                names.insert(format!("{}{x}{}", &k[..i], &k[i..]));
            }
        }
    }
    let mut all: HashMap<ClaimFormatDesignation, String> = HashMap::new();
    for n in &names {
        c.case(format!("name {n:?}"), || {
            let want = known(n).unwrap_or(ClaimFormatDesignation::Other(n.clone()));
            let map: ClaimFormatMap = serde_json::from_value(json!({n.clone(): {}})).map_err(|e| format!("no map key: {e}"))?;
            for (how, d) in [
                ("&str", ClaimFormatDesignation::from(n.as_str())),
                ("String", ClaimFormatDesignation::from(n.clone())),
                ("FromStr", ClaimFormatDesignation::from_str(n).unwrap()),
                ("borrowed name", ClaimFormatDesignation::from_name(Cow::Borrowed(n))),
                ("owned name", ClaimFormatDesignation::from_name(Cow::Owned(n.clone()))),
                ("JSON", serde_json::from_value(json!(n)).map_err(|e| e.to_string())?),
                ("JSON text", serde_json::from_str(&json!(n).to_string()).map_err(|e| e.to_string())?),
                ("a map key", map.keys().next().unwrap().clone()),
            ] {
                if d != want {
                    return Err(format!("{how} gives {d:?}, should be {want:?}"));
                }
                if d.to_string() != *n || String::from(d.clone()) != *n || serde_json::to_value(&d).unwrap() != json!(n) || format!("{d:>40}") != format!("{n:>40}") {
                    return Err(format!("{how}: its name is {:?}, {:?} in JSON", d.to_string(), serde_json::to_value(&d)));
                }
                let m = ClaimFormatMap::from([(d.clone(), ClaimFormatPayload::Other(json!({})))]);
                if serde_json::to_value(&m).unwrap() != json!({n.clone(): {}}) || !m.contains_key(&want) {
                    return Err(format!("{how}: another map key"));
                }
            }
            if let Some(o) = all.insert(want, n.clone()) {
                return Err(format!("the same format as {o:?}"));
            }
            Ok(if known(n).is_some() { "defined".into() } else { "other".into() })
        });
    }
    for v in [json!(1), json!(null), json!({}), json!([]), json!(true)] {
        c.case(format!("no name {v}"), || match serde_json::from_value::<ClaimFormatDesignation>(v.clone()) {
            Ok(d) => Err(format!("parsed as {d:?}")),
            Err(_) => Ok("no text is no name".into()),
        });
    }
    // Formats with their metadata.
    for (name, v) in [
        ("jwt_vc_json", json!({"jwt_vc_json": {"alg_values_supported": ["ES256", "x"]}})),
        ("ldp_vc", json!({"ldp_vc": {"proof_type": ["p"]}})),
        ("mso_mdoc", json!({"mso_mdoc": {"a": 1}})),
        ("mso_mdoc", json!({"mso_mdoc": {}})),
        ("dc+sd-jwt", json!({"dc+sd-jwt": {"sd-jwt_alg_values": ["ES256"]}})),
        ("jwt_vp_json", json!({"jwt_vp_json": {}})),
        ("x", json!({"x": 7})),
    ] {
        c.case(format!("format {v}"), || {
            let f: ClaimFormat = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            if f.designation() != ClaimFormatDesignation::from(name) || serde_json::to_value(&f).unwrap() != v {
                return Err(format!("designates {:?}", f.designation()));
            }
            Ok("a format with its metadata".into())
        });
    }
    // Maps.
    let entries = [
        json!({"alg_values": ["ES256", "EdDSA"]}),
        json!({"alg_values": []}),
        json!({"alg_values": ["ES256"]}),
        json!({"proof_type_values": ["ecdsa-rdfc-2019", "ES256"]}),
        json!({"proof_type_values": []}),
        json!({}),
        json!(null),
        json!(7),
        json!("alg_values"),
        json!(["ES256"]),
        json!({"alg_values": "ES256"}),
        json!({"alg_values": ["ES256", 1]}),
        json!({"alg_values": null}),
        json!({"proof_type_values": {"ES256": 1}}),
        json!({"alg_values": ["ES256"], "proof_type_values": ["p"]}),
        json!({"alg_values": ["ES256"], "x": 1}),
        json!({"sd-jwt_alg_values": ["ES256"], "kb-jwt_alg_values": ["ES256"]}),
        json!({"issuerauth_alg_values": [-9], "deviceauth_alg_values": [-50]}),
    ];
    let formats = ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "jwt_vp_json", ""];
    let methods = ["ES256", "EdDSA", "ecdsa-rdfc-2019", "p", "", "es256", "ES256 ", "ES25", "alg_values"];
    let mut maps: Vec<Json> = vec![json!({})];
    for (i, f) in formats.iter().enumerate() {
        for e in &entries {
            maps.push(json!({f.to_string(): e}));
            for g in &formats[i + 1..] {
                for h in &entries {
                    maps.push(json!({f.to_string(): e, g.to_string(): h}));
                    if !c.quick() && *f == "jwt_vc_json" && *g == "ldp_vc" {
                        for k in &entries {
                            maps.push(json!({f.to_string(): e, g.to_string(): h, "mso_mdoc": k}));
                        }
                    }
                }
            }
        }
    }
    for m in &maps {
        c.case(format!("map {m}"), || {
            let f: VpFormats = VpFormats::try_from(m.clone()).map_err(|e| format!("refused: {e:#}"))?;
            let plain: ClaimFormatMap = serde_json::from_value(m.clone()).map_err(|e| format!("refused as a map: {e:#}"))?;
            for (how, j) in [("a parameter", Json::try_from(f.clone()).map_err(|e| format!("{e:#}"))?), ("serde", serde_json::to_value(&f).unwrap()), ("a map", serde_json::to_value(&plain).unwrap())] {
                if j != *m {
                    return Err(format!("through {how} it becomes {j}"));
                }
            }
            let o = m.as_object().unwrap();
            let mut supported = 0;
            for name in formats.iter().chain(["unknown"].iter()) {
                for method in methods {
                    let got = f.supports_security_method(&ClaimFormatDesignation::from(*name), &method.to_string());
                    let want = match o.get(*name) {
                        None => Some(false),
                        Some(e) => match listed(e) {
                            Some((_, l)) => Some(l.iter().any(|m| m == method)),
                            // An entry of another shape that mentions the method: open.
                            None if e.to_string().contains(&json!(method).to_string()) => None,
                            None => Some(false),
                        },
                    };
                    if want.is_some_and(|w| w != got) {
                        return Err(format!("{name} with {method:?} is reported as {}", if got { "supported" } else { "not supported" }));
                    }
                    supported += got as usize;
                }
            }
            Ok(format!("map of {}, {}", o.len(), if supported > 0 { "supporting something" } else { "supporting nothing" }))
        });
    }
    // Many formats, many methods.
    for n in [5usize, 8, 20, 33, 70] {
        let name = |i: usize| match i { 0 => "jwt_vc_json".to_string(), 1 => "ldp_vc".into(), 2 => "mso_mdoc".into(), 3 => "dc+sd-jwt".into(), _ => format!("format{i}") };
        let m: Map<String, Json> = (0..n).map(|i| (name(i), json!({if i % 2 == 0 { "alg_values" } else { "proof_type_values" }: [format!("m{i}"), "all"]}))).collect();
        c.case(format!("map of {n} formats"), || {
            let f = VpFormats::try_from(Json::Object(m.clone())).map_err(|e| format!("{e:#}"))?;
            if serde_json::to_value(&f).unwrap() != Json::Object(m.clone()) {
                return Err("its JSON is another one".into());
            }
            for i in 0..n + 3 {
                for j in 0..n + 3 {
                    let got = f.supports_security_method(&ClaimFormatDesignation::from(name(i).as_str()), &format!("m{j}"));
                    if got != (i == j && i < n) {
                        return Err(format!("{} with m{j}: {got}", name(i)));
                    }
                }
                if f.supports_security_method(&ClaimFormatDesignation::from(name(i).as_str()), &"all".to_string()) != (i < n) {
                    return Err(format!("{} with all", name(i)));
                }
            }
            Ok("many formats".into())
        });
        for kind in ["alg_values", "proof_type_values"] {
            c.case(format!("{kind} with {n} methods"), || {
                let l: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
                let e = json!({kind: l});
                let f = VpFormats::try_from(json!({"ldp_vc": e})).map_err(|e| format!("{e:#}"))?;
                for i in 0..n + 3 {
                    if f.supports_security_method(&ClaimFormatDesignation::LdpVc, &format!("m{i}")) != (i < n) {
                        return Err(format!("m{i}"));
                    }
                }
                let mut p: ClaimFormatPayload = serde_json::from_value(e).map_err(|e| e.to_string())?;
                let mut want = l.clone();
                for i in 0..n {
                    // new ones, and ones it has
                    for m in [format!("new{i}"), format!("m{i}")] {
                        if kind == "alg_values" { p.add_alg(m.clone()) } else { p.add_proof_type(m.clone()) }
                        want.push(m);
                    }
                }
                if serde_json::to_value(&p).unwrap() != json!({kind: want}) {
                    return Err(format!("after the additions: {}", serde_json::to_value(&p).unwrap()));
                }
                Ok("many methods".into())
            });
        }
    }
    for n in [64usize, 255, 256, 1000, 70_000] {
        c.case(format!("names of {n} bytes"), || {
            let t = "f".repeat(n);
            let d = ClaimFormatDesignation::from(t.as_str());
            if d != ClaimFormatDesignation::Other(t.clone()) || d.to_string() != t || serde_json::to_value(&d).unwrap() != json!(t) {
                return Err("the name is changed".into());
            }
            let f = VpFormats::try_from(json!({t.clone(): {"alg_values": [t]}})).map_err(|e| format!("{e:#}"))?;
            if !f.supports_security_method(&d, &t) || f.supports_security_method(&d, &t[1..].to_string()) || f.supports_security_method(&ClaimFormatDesignation::from(&t[1..]), &t) {
                return Err("support is misreported".into());
            }
            Ok("long names".into())
        });
    }
    // Near misses of a method and of a format.
    for n in near_misses("ES256") {
        for kind in ["alg_values", "proof_type_values"] {
            for (in_map, asked) in [(n.as_str(), "ES256"), ("ES256", n.as_str()), (n.as_str(), n.as_str())] {
                c.case(format!("{kind} lists {in_map:?}, asked for {asked:?}"), || {
                    let f = VpFormats::try_from(json!({"jwt_vc_json": {kind: ["x", in_map]}})).map_err(|e| format!("{e:#}"))?;
                    if f.supports_security_method(&ClaimFormatDesignation::JwtVcJson, &asked.to_string()) != (in_map == asked) {
                        return Err(format!("reported as {}", in_map != asked));
                    }
                    Ok("near miss of a method".into())
                });
            }
        }
    }
    for base in ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "custom_format"] {
        for n in near_misses(base) {
            for (in_map, asked) in [(n.as_str(), base), (base, n.as_str())] {
                c.case(format!("format {in_map:?}, asked for {asked:?}"), || {
                    let f = VpFormats::try_from(json!({in_map: {"alg_values": ["ES256"]}})).map_err(|e| format!("{e:#}"))?;
                    if f.supports_security_method(&ClaimFormatDesignation::from(asked), &"ES256".to_string()) {
                        return Err("reported as supported".into());
                    }
                    Ok("near miss of a format".into())
                });
            }
        }
    }
    // Additions.
    let (mut states, mut transitions, mut traces) = (HashSet::new(), 0u64, 0u64);
    for e in &entries {
        let adds = [(true, "ES256"), (true, "new"), (true, ""), (false, "ES256"), (false, "new")];
        let mut level: Vec<Vec<(bool, &str)>> = vec![vec![]];
        for _ in 0..3 {
            level = level.iter().flat_map(|l| adds.iter().map(|a| { let mut l = l.clone(); l.push(*a); l })).collect();
            for seq in &level {
                traces += 1;
                transitions += seq.len() as u64;
                let states = &mut states;
                c.case(format!("additions {seq:?} to {e}"), || {
                    let mut p: ClaimFormatPayload = serde_json::from_value(e.clone()).map_err(|e| e.to_string())?;
                    let mut want = e.clone();
                    let mut changed = false;
                    for (alg, m) in seq {
                        if *alg {
                            p.add_alg(m.to_string());
                        } else {
                            p.add_proof_type(m.to_string());
                        }
                        match listed(&want) {
                            Some((k, _)) if k == *alg => {
                                want[if k { "alg_values" } else { "proof_type_values" }].as_array_mut().unwrap().push(json!(m));
                                changed = true;
                            }
                            _ => {}
                        }
                        states.insert(want.to_string());
                        let got = serde_json::to_value(&p).unwrap();
                        if got != want {
                            return Err(format!("becomes {got}, should be {want}"));
                        }
                    }
                    Ok(if changed { "additions appended".into() } else { "additions of another kind".into() })
                });
            }
        }
    }
    c.explored(states.len() as u64, transitions, traces);
}
