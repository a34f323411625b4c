//! C14: a failure signalled by an OAuth server is never success for the client.
use crate::cb::{Ev, HCb, OAns, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::report::{show, Run, W};
use serde_json::{json, Value};

const M: [&str; 2] = ["XOAUTH2", "OAUTHBEARER"];

fn text(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "invalid_token".into(),
        1 => (0..rng.range(1, 12)).map(|_| *rng.pick(&['"', '\\', '/', '\n', '\t', '\u{8}', '\u{c}', '\u{1}', '\u{7f}', '\u{2028}', 'é', '\u{1F511}', 'a', '{', '}', ':', ','])).collect(),
        2 => r#"{"status":"401","schemes":"bearer","scope":"https://mail.google.com/"}"#.into(),
        3 => "\\u0041\\ud83d".into(),
        4 => " ".repeat(rng.range(1, 3)),
        _ => gen::nasty(rng),
    }
}
fn opt(rng: &mut Rng) -> Option<String> {
    rng.chance(2, 3).then(|| text(rng))
}
fn o2v(x: &Option<String>) -> Vec<u8> {
    x.as_ref().map_or(vec![0], |s| [b"=", s.as_bytes()].concat())
}
fn client(m: &str, rng: &mut Rng, take: bool) -> Party {
    let (mut c, _, h, _) = honest(m, rng);
    c.take_err = take;
    c.no_value = rng.chance(1, 5);
    Party::client(m, c, h)
}
fn taken(ev: &[Ev]) -> Vec<&Ev> {
    ev.iter().filter(|e| e.act().is_some()).collect()
}

/// library client against library server with every decision of both callbacks
fn both(w: &mut W, rng: &mut Rng) {
    let m = M[(w.case % 2) as usize];
    let take = rng.chance(2, 3);
    let (cp, mut sp, _, _) = honest(m, rng);
    let mut cp = cp;
    cp.take_err = take;
    let mut tok = [text(rng), String::new()];
    if rng.chance(1, 20) {
        tok[0].clear();
    }
    let ans = match rng.below(8) {
        0 => OAns::Accept,
        1 => OAns::Silent,
        _ => OAns::Reject(tok[0].clone(), opt(rng), opt(rng)),
    };
    sp.no_value = rng.chance(1, 5);
    let satisfied_but_no_value = sp.no_value;
    // the callback answers with an error after (not) supplying its decision
    let inject = rng.chance(1, 12).then(|| (0, rng.below(crate::cb::N_ERRS)));
    sp.inject = inject;
    sp.oauth = ans.clone();
    sp.xoauth = ans.clone();
    let mut c = Party::client(m, cp.clone(), HCb::default());
    let mut s = Party::server(m, sp, HCb::default());
    let six = rng.chance(1, 4);
    let go = |p: &mut Party, i: Option<&[u8]>| {
        if six {
            let e = i.map(crate::refimpl::b64);
            let mut o = p.step64(e.as_deref());
            o.bytes = crate::refimpl::unb64(&o.bytes).unwrap_or(o.bytes);
            o
        } else {
            p.step(i)
        }
    };
    let o1 = go(&mut c, None);
    w.eval((m, &ans, take, inject, six), true);
    let d0 = format!("{m} token decision {ans:?}, client takes the error {take}, injected {inject:?}, base64 {six}");
    if o1.r != R::Run {
        w.viol(format!("client-does-not-start@{m}"), format!("{d0}: {:?}", o1.err));
        return;
    }
    let o2 = go(&mut s, Some(&o1.bytes));
    let ctx = || format!("{d0}: server {:?} [{}]", o2.r, show(&o2.bytes));
    if inject.is_some() {
        w.want(o2.r.is_err() && o2.bytes.is_empty() && o2.validates() == 0, &format!("callback-error-ignored@{m}"), ctx);
        w.count("callback_errors");
        return;
    }
    match &ans {
        OAns::Silent => {
            w.want(o2.r.is_err() && o2.bytes.is_empty() && s.validation().is_none(), &format!("undecided-token-passes@{m}"), ctx);
            w.count("undecided");
            return;
        }
        OAns::Accept => {
            if satisfied_but_no_value && o2.r.is_err() {
                return;
            }
            w.want(o2.r == R::FinNo && o2.bytes.is_empty(), &format!("accepted-token@{m}"), ctx);
            let none = rng.chance(1, 2);
            let o3 = go(&mut c, if none { None } else { Some(b"") });
            w.want(o3.r == R::FinNo && o3.bytes.is_empty() && taken(&o3.ev).is_empty(), &format!("client-after-accept@{m}"), || format!("{}: client {:?} {:?}", ctx(), o3.r, o3.ev));
            w.count("accepted");
            return;
        }
        OAns::Reject(..) => {}
    }
    let OAns::Reject(st, sc, oc) = &ans else { return };
    if m == "XOAUTH2" && st.is_empty() {
        // would read as success
        w.want(o2.r.is_err() && o2.bytes.is_empty(), "empty-error-sent", ctx);
        w.count("empty_error");
        return;
    }
    if !w.want(o2.r == R::Run && !o2.bytes.is_empty(), &format!("rejection-not-sent@{m}"), ctx) {
        return;
    }
    if m == "XOAUTH2" {
        w.want(o2.bytes == st.as_bytes(), "error-altered@XOAUTH2", ctx);
    } else {
        let v: Option<Value> = serde_json::from_slice(&o2.bytes).ok();
        let mut e = serde_json::Map::new();
        e.insert("status".into(), json!(st));
        if let Some(x) = sc {
            e.insert("scope".into(), json!(x));
        }
        if let Some(x) = oc {
            e.insert("openid-configuration".into(), json!(x));
        }
        w.want(v == Some(Value::Object(e)), "error-document@OAUTHBEARER", ctx);
    }
    let o3 = go(&mut c, Some(&o2.bytes));
    let ctx3 = || format!("{}: client {:?} [{}] {:?} {:?}", ctx(), o3.r, show(&o3.bytes), o3.err, o3.ev);
    let t = taken(&o3.ev);
    if !take {
        w.want(o3.r.is_err(), &format!("untaken-error-is-success@{m}"), ctx3);
        w.count("untaken");
        return;
    }
    let vals = if m == "XOAUTH2" { vec![st.as_bytes().to_vec()] } else { vec![st.as_bytes().to_vec(), o2v(sc), o2v(oc)] };
    let ok = matches!(t[..], [Ev::Act { vals: v, taken: true, .. }] if *v == vals);
    w.want(ok, &format!("client-sees-other-error@{m}"), ctx3);
    if !w.want(o3.r == R::FinYes, &format!("rejection-result@{m}"), ctx3) {
        return;
    }
    // the server stays open until it got an answer, whatever it is
    let ans = match rng.below(3) {
        0 => b"\x01".to_vec(),
        1 => gen::blob(rng, 20),
        _ => o3.bytes.clone(),
    };
    let v0 = s.events().iter().filter(|e| e.is_validate()).count();
    let o4 = go(&mut s, Some(&ans));
    let v1 = s.events().iter().filter(|e| e.is_validate()).count();
    w.want(o4.r == R::FinNo && o4.bytes.is_empty() && v0 == v1, &format!("server-after-answer@{m}"), || format!("{}: server {:?} [{}] {:?}", ctx3(), o4.r, show(&o4.bytes), o4.ev));
    w.count("errors_delivered");
    w.sample(|| json!({"mech": m, "decision": format!("{:?}", (st, sc, oc)), "wire": show(&o2.bytes)}));
}

fn json_text(rng: &mut Rng, s: &str) -> String {
    // any JSON spelling of the string
    let mut o = String::from("\"");
    for c in s.chars() {
        match rng.below(4) {
            0 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if rng.chance(1, 2) {
                        o += &format!("\\u{u:04x}");
                    } else {
                        o += &format!("\\u{u:04X}");
                    }
                }
            }
            1 if c == '/' => o += "\\/",
            _ => match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\u{0}'..='\u{1f}' => o += &format!("\\u{:04x}", c as u32),
                c => o.push(c),
            },
        }
    }
    o + "\""
}
fn json_any(rng: &mut Rng, depth: usize) -> String {
    match rng.below(if depth > 3 { 4 } else { 6 }) {
        0 => "null".into(),
        1 => "true".into(),
        2 => format!("{}", rng.u64() as i32),
        3 => {
            let t = text(rng);
            json_text(rng, &t)
        }
        4 => format!("[{}]", (0..rng.below(3)).map(|_| json_any(rng, depth + 1)).collect::<Vec<_>>().join(",")),
        _ => format!("{{{}}}", (0..rng.below(3)).map(|_| format!("\"{}\":{}", gen::word(rng), json_any(rng, depth + 1))).collect::<Vec<_>>().join(" ,")),
    }
}
/// a server message that is a well-formed document in any spelling: the client callback sees exactly its fields
fn documents(w: &mut W, rng: &mut Rng) {
    let (st, sc, oc) = (text(rng), opt(rng), opt(rng));
    let ws = |rng: &mut Rng| *rng.pick(&["", "", " ", "\n", "\t ", "\r\n"]);
    let mut f = vec![("status".to_string(), json_text(rng, &st))];
    if let Some(s) = &sc {
        f.push(("scope".into(), json_text(rng, s)));
    }
    if let Some(s) = &oc {
        f.push(("openid-configuration".into(), json_text(rng, s)));
    }
    for i in 0..rng.below(3) {
        f.push((format!("x{i}{}", gen::word(rng)), json_any(rng, 0)));
    }
    rng.shuffle(&mut f);
    let body: Vec<String> = f.iter().map(|(k, v)| format!("{}\"{k}\"{}:{}{v}{}", ws(rng), ws(rng), ws(rng), ws(rng))).collect();
    let doc = format!("{}{{{}}}{}", ws(rng), body.join(","), ws(rng));
    let take = rng.chance(3, 4);
    let mut c = client("OAUTHBEARER", rng, take);
    if c.step(None).r != R::Run {
        return;
    }
    let o = c.step(Some(doc.as_bytes()));
    let ctx = || format!("document [{}] taken {take}: {:?} {:?} {:?}", show(doc.as_bytes()), o.r, o.err, o.ev);
    w.eval(&doc, true);
    if take {
        let vals = vec![st.as_bytes().to_vec(), o2v(&sc), o2v(&oc)];
        let ok = matches!(taken(&o.ev)[..], [Ev::Act { vals: v, taken: true, .. }] if *v == vals);
        w.want(o.r == R::FinYes && ok, "document-misread", ctx);
    } else {
        w.want(o.r.is_err(), "untaken-error-is-success@document", ctx);
    }
    w.count("documents");
}

/// arbitrary server messages: never success without an error that the callback took
fn hostile(w: &mut W, rng: &mut Rng) {
    let m = M[(w.case % 2) as usize];
    let msg: Vec<u8> = match rng.below(10) {
        0 => vec![],
        1 => gen::blob(rng, 300),
        2 => json_any(rng, 0).into_bytes(),
        3 => vec![*rng.pick(b" \n\t{}[]\"0\x01\x80\xff"); rng.range(1, 3)],
        4 => "[".repeat(rng.range(1, 3000)).into_bytes(),
        5 => format!("{{\"x\":{}1{},\"status\":\"s\"}}", "[".repeat(200), "]".repeat(200)).into_bytes(),
        6 => {
            let a = json_any(rng, 2);
            let b = json_any(rng, 2);
            let c = json_any(rng, 2);
            format!("{{\"status\":{a},\"scope\":{b},\"openid-configuration\":{c}}}").into_bytes()
        }
        _ => {
            let t = text(rng);
            let t = json_text(rng, &t);
            gen::mutate(rng, format!("{{\"status\":{t},\"scope\":\"a\"}}").as_bytes())
        }
    };
    let take = rng.chance(3, 4);
    let mut c = client(m, rng, take);
    if c.step(None).r != R::Run {
        return;
    }
    let o = if rng.chance(1, 5) { c.step64(Some(&crate::refimpl::b64(&msg))) } else { c.step(Some(&msg)) };
    let t = taken(&o.ev);
    let was_taken = matches!(t[..], [Ev::Act { taken: true, .. }]);
    let ctx = || format!("{m} server message [{}] taken {take}: {:?} {:?} {:?}", show(&msg), o.r, o.err, o.ev);
    w.eval((m, &msg, take), true);
    if msg.is_empty() {
        w.want(o.r == R::FinNo && t.is_empty(), &format!("empty-server-message@{m}"), ctx);
        return;
    }
    w.want(o.r.is_err() || (o.r == R::FinYes && was_taken), &format!("failure-is-success@{m}"), ctx);
    if m == "XOAUTH2" {
        match std::str::from_utf8(&msg) {
            Ok(s) if take => {
                let ok = matches!(t[..], [Ev::Act { vals: v, taken: true, .. }] if *v == vec![s.as_bytes().to_vec()]);
                w.want(o.r == R::FinYes && ok, "error-altered@XOAUTH2-client", ctx);
            }
            Ok(_) => {}
            Err(_) => {
                w.want(o.r.is_err() && !was_taken, "not-utf8-accepted", ctx);
                w.count("unparseable");
            }
        }
        return;
    }
    // an independent reading of the document
    let v: Result<Value, _> = serde_json::from_slice(&msg);
    let s = |v: &Value| v.as_str().map(str::to_string);
    let o_s = |v: Option<&Value>| match v {
        None | Some(Value::Null) => Some(None),
        Some(Value::String(s)) => Some(Some(s.clone())),
        _ => None,
    };
    match v {
        Err(_) => {
            w.count("unparseable");
            // (the reader used here gives up on deep nesting, which is well-formed nevertheless)
            let deep = msg.windows(100).any(|w| w.iter().all(|b| *b == b'['));
            w.want(deep || o.r.is_err() && !was_taken, "unparseable-error-accepted", ctx);
        }
        Ok(Value::Object(x)) => {
            let want = (|| Some((s(x.get("status")?)?, o_s(x.get("scope"))?, o_s(x.get("openid-configuration"))?)))();
            let dup = ["\"status\"", "\"scope\"", "\"openid-configuration\""].iter().any(|k| String::from_utf8_lossy(&msg).matches(k).count() > 1);
            match want {
                None => {
                    w.count("incomplete_documents");
                    w.want(o.r.is_err() && !was_taken || dup, "incomplete-error-accepted", ctx);
                }
                Some((a, b, c)) if !dup && take => {
                    let vals = vec![a.into_bytes(), o2v(&b), o2v(&c)];
                    let ok = matches!(t[..], [Ev::Act { vals: v, taken: true, .. }] if *v == vals);
                    w.want(o.r == R::FinYes && ok, "document-misread", ctx);
                }
                _ => {}
            }
        }
        // RFC 7628 demands an object; reading an array positionally is still an error shown to the callback
        Ok(Value::Array(_)) => {}
        Ok(_) => {
            w.want(o.r.is_err() && !was_taken, "unparseable-error-accepted", ctx);
        }
    }
    w.count("hostile_messages");
}

/// the client's callback fails while handling the error
fn failing(w: &mut W, rng: &mut Rng) {
    let m = M[(w.case % 2) as usize];
    let (c, _, _, _) = honest(m, rng);
    let mut probe = Party::client(m, c.clone(), HCb::default());
    probe.step(None);
    let n = probe.events().len();
    let k = rng.below(crate::cb::N_ERRS);
    let mut c = Party::client(m, Props { inject: Some((n, k)), ..c }, HCb::default());
    c.step(None);
    let o = c.step(Some(br#"{"status":"invalid_token"}"#));
    w.eval((m, k, w.case), true);
    w.count("failing_client_callbacks");
    w.want(o.r.is_err(), &format!("client-callback-error-ignored@{m}"), || format!("{m} error {k}: {:?} {:?}", o.r, o.ev));
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one OAuth exchange or server message together with the callback decisions, distinct by content".into();
    r.assumptions = vec![
        "an error document given as a JSON array, or with duplicate members, is not judged beyond never being success without a taken error".into(),
        "serde_json's Value parser is the independent JSON reader".into(),
    ];
    r.cases("both", r.n(300_000, 12_000_000), both);
    r.cases("documents", r.n(200_000, 8_000_000), documents);
    r.cases("hostile", r.n(300_000, 12_000_000), hostile);
    r.cases("failing", r.n(20_000, 400_000), failing);
    for (k, n) in [("errors_delivered", 50_000), ("untaken", 20_000), ("undecided", 10_000), ("accepted", 10_000), ("unparseable", 20_000), ("documents", 50_000), ("empty_error", 500)] {
        r.require(k, n);
    }
}
