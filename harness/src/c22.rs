//! C22: cargo features only add or remove mechanisms. A probe program (/verif/feat) is built with many feature sets;
//! what it observes is compared with what the build with all mechanisms shows.
use crate::prng::Rng;
use crate::report::{root, Run, W};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::{create_dir_all, OpenOptions};
use std::os::fd::AsRawFd;
use std::process::Command;
use std::sync::OnceLock;

/// feature -> mechanisms (second list: only with a registry of the application's own)
const MECHS: [(&str, &[&str], &[&str]); 9] = [
    ("scram-sha-1", &["SCRAM-SHA-1"], &["SCRAM-SHA-1-PLUS"]),
    ("scram-sha-2", &["SCRAM-SHA-256", "SCRAM-SHA-512"], &["SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"]),
    ("plain", &["PLAIN"], &[]),
    ("login", &["LOGIN"], &[]),
    ("anonymous", &["ANONYMOUS"], &[]),
    ("external", &["EXTERNAL"], &[]),
    ("xoauth2", &["XOAUTH2"], &[]),
    ("oauthbearer", &["OAUTHBEARER"], &[]),
    ("gssapi", &[], &["GSSAPI"]),
];
const DIRS: usize = 5;
type Seen = BTreeMap<String, String>;
type Set = BTreeSet<&'static str>;

enum Built {
    Seen(Seen),
    /// rsasl (or a program using it) does not compile with these features
    Broken(String),
    /// a dependency does not build here
    NoTools(String),
}
fn tail(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let e: Vec<&str> = t.lines().filter(|l| !l.trim_start().starts_with("Compiling")).collect();
    e[e.len().saturating_sub(40)..].join("\n")
}
fn build(set: &Set) -> Built {
    let base = format!("{}/target/feat", root());
    if create_dir_all(&base).is_err() {
        return Built::NoTools(format!("cannot create {base}"));
    }
    // a free build directory (cargo would make everybody wait for the same one)
    let start = set.iter().map(|s| s.len() * 7 + s.as_bytes()[0] as usize).sum::<usize>();
    let (lock, dir) = 'found: loop {
        for k in 0..DIRS {
            let d = format!("{base}/{}", (start + k) % DIRS);
            let Ok(f) = OpenOptions::new().create(true).truncate(false).write(true).open(format!("{d}.lock")) else { continue };
            // SAFETY: a file descriptor that is open
            if unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } == 0 {
                break 'found (f, d);
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
    };
    let features = set.iter().copied().collect::<Vec<_>>().join(",");
    let out = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--manifest-path"])
        .arg(format!("{}/feat/Cargo.toml", root()))
        .args(["--features", &features])
        .env("CARGO_TARGET_DIR", &dir)
        .env_remove("RUSTFLAGS")
        .output();
    let b = match out {
        Err(e) => Built::NoTools(format!("cargo: {e}")),
        Ok(o) if !o.status.success() => {
            let t = tail(&o.stderr);
            if t.contains("could not compile `rsasl`") || t.contains("could not compile `feat`") {
                Built::Broken(t)
            } else {
                Built::NoTools(t)
            }
        }
        Ok(_) => match Command::new("timeout").arg("120").arg(format!("{dir}/debug/feat")).output() {
            Err(e) => Built::NoTools(format!("probe: {e}")),
            Ok(o) if !o.status.success() => Built::Broken(format!("the probe ended with {}: {}", o.status, tail(&o.stderr))),
            Ok(o) => Built::Seen(
                String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.split_once('\t')).map(|(a, b)| (a.into(), b.into())).collect(),
            ),
        },
    };
    drop(lock);
    b
}
fn all() -> Set {
    MECHS.iter().map(|m| m.0).filter(|m| *m != "gssapi").collect()
}
fn with(mut s: Set, more: &[&'static str]) -> Set {
    s.extend(more);
    s
}
const API: [&str; 2] = ["provider", "config_builder"];

fn reference() -> Result<&'static Seen, (bool, &'static str)> {
    static R: OnceLock<Result<Seen, (bool, String)>> = OnceLock::new();
    R.get_or_init(|| match build(&with(all(), &["provider", "config_builder", "provider_base64", "unstable_custom_mechanism"])) {
        Built::Seen(s) => Ok(s),
        Built::Broken(e) => Err((true, e)),
        Built::NoTools(e) => Err((false, e)),
    })
    .as_ref()
    .map_err(|e| (e.0, e.1.as_str()))
}

/// the sets every run looks at
fn fixed() -> Vec<Set> {
    let mut v: Vec<Set> = vec![];
    let one = |m: &'static str| Set::from([m]);
    v.push(with(Set::new(), &API));
    v.push(with(Set::new(), &["provider", "config_builder", "registry_static"]));
    v.push(Set::new());
    v.push(all());
    v.push(with(all(), &API));
    v.push(with(all(), &["config_builder"]));
    v.push(with(all(), &["provider"]));
    v.push(with(all(), &["provider_base64"]));
    v.push(with(all(), &["registry_static"]));
    v.push(with(all(), &["registry_static", "provider", "config_builder"]));
    v.push(with(all(), &["registry_static", "provider_base64", "config_builder", "testutils", "unstable_custom_mechanism", "gssapi"]));
    v.push(with(all(), &["gssapi", "provider", "config_builder"]));
    v.push(with(all(), &["testutils"]));
    v.push(with(all(), &["unstable_custom_mechanism"]));
    for (i, (m, ..)) in MECHS.iter().enumerate() {
        v.push(with(one(m), &API));
        v.push(with(one(m), if m.starts_with("scram") { &["config_builder", "provider_base64", "unstable_custom_mechanism"] } else { &["config_builder", "provider_base64"] }));
        v.push(with(one(m), &["provider", "config_builder", "registry_static"]));
        let mut less = all();
        less.remove(m);
        v.push(with(less, &[API[0], API[1], ["provider_base64", "unstable_custom_mechanism", "testutils"][i % 3]]));
    }
    v
}
fn random(rng: &mut Rng) -> Set {
    let mut s = Set::new();
    let k = rng.range(1, 10);
    for (m, ..) in MECHS {
        if rng.chance(k, 10) && (m != "gssapi" || rng.chance(1, 8)) {
            s.insert(m);
        }
    }
    for (f, n) in [("provider", 9), ("config_builder", 9), ("provider_base64", 5), ("registry_static", 3), ("testutils", 2), ("unstable_custom_mechanism", 3)] {
        if rng.chance(n, 10) {
            s.insert(f);
        }
    }
    s
}
fn mech_in(key: &str) -> Option<&str> {
    let mut p = key.split(' ');
    let kind = p.next()?;
    (kind == "start" || kind.starts_with("exchange") || kind.starts_with("hostile")).then(|| p.next()).flatten()
}

fn judge(w: &mut W, set: &Set, seen: &Seen, all: &Seen) {
    let name = set.iter().copied().collect::<Vec<_>>().join(",");
    let may: BTreeSet<&str> = MECHS.iter().filter(|m| set.contains(m.0)).flat_map(|m| m.1.iter().chain(m.2)).copied().collect();
    let must: BTreeSet<&str> = MECHS.iter().filter(|m| set.contains(m.0)).flat_map(|m| m.1).copied().collect();
    let full = (set.contains("provider") || set.contains("provider_base64")) && set.contains("config_builder");
    let stat = set.contains("registry_static");
    let words = |k: &str| seen.get(k).map(|v| v.split(' ').filter(|s| !s.is_empty()).collect::<Vec<_>>()).unwrap_or_default();
    if full {
        let l = words("available");
        let have: BTreeSet<&str> = l.iter().copied().collect();
        let ok = have.is_subset(&may) && must.is_subset(&have) && have.len() == l.len();
        w.want(ok, "available-mechanisms", || format!("features {name}: a server offers {l:?}, the features are those of {may:?}"));
        for az in ["false", "true"] {
            let cred = ["SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"];
            let want: BTreeSet<&str> =
                must.iter().copied().filter(|m| cred.contains(m) && (*m != "LOGIN" || az == "false")).collect();
            let l = words(&format!("credentials {az}"));
            let have: BTreeSet<&str> = l.iter().copied().filter(|m| *m != "SCRAM-SHA-512").collect();
            w.want(have == want && l.iter().all(|m| must.contains(m)), "credentials-mechanisms", || format!("features {name}, authzid {az}: {l:?}, documented {want:?}"));
            let r = words(&format!("rank-credentials {az}"));
            let order: Vec<&str> = r.iter().copied().filter(|m| cred.contains(m)).collect();
            let want: Vec<&str> = cred.iter().copied().filter(|m| want.contains(m)).collect();
            w.want(order == want, "credentials-order", || format!("features {name}, authzid {az}: preferred {r:?}, documented {want:?}"));
        }
        for k in ["rank", "rank-reversed"] {
            let r = words(k);
            let set_of = |r: &[&str]| -> BTreeSet<String> { r.iter().map(|s| (*s).to_string()).collect() };
            let sel: BTreeSet<String> = l.iter().filter(|m| !m.ends_with("-PLUS")).map(|s| (*s).to_string()).collect();
            w.want(set_of(&r) == sel && r.len() == sel.len(), "selectable-mechanisms", || format!("features {name}: a client can select {r:?} out of {l:?}"));
            if !stat {
                let full: Vec<&str> = all.get(k).map(|v| v.split(' ').filter(|m| may.contains(m)).collect()).unwrap_or_default();
                let r: Vec<&str> = r.into_iter().filter(|m| *m != "GSSAPI").collect();
                w.want(r == full, "preference-depends-on-features", || format!("features {name}: {k} {r:?}, with all mechanisms {full:?}"));
            }
        }
        for m in &must {
            for k in [format!("exchange {m} true false"), format!("hostile-server {m}"), format!("start {m}")] {
                w.want(seen.contains_key(&k), "mechanism-does-not-start", || format!("features {name}: nothing seen for {k}"));
            }
        }
    }
    for (k, v) in seen {
        match mech_in(k) {
            Some(m) if !may.contains(m) => {
                w.want(k.starts_with("start") && v == "None None", "disabled-mechanism-starts", || format!("features {name}: {k} {v}"));
                w.count("disabled_mechanisms_refused");
            }
            // started by the static registry only
            Some("GSSAPI") => {}
            Some(m) if m.ends_with("-PLUS") && !k.contains("-own ") => {}
            Some(m) => {
                if m.ends_with("-PLUS") {
                    w.count("plus_behaviours_compared");
                }
                w.want(all.get(k) == Some(v), "behaviour-depends-on-features", || format!("features {name}: {k}\n {v}\nwith all mechanisms\n {:?}", all.get(k)));
                w.count("behaviours_compared");
                // the base64 steps show what the plain ones do
                if let Some(r) = k.strip_prefix("exchange64") {
                    w.want(seen.get(&format!("exchange{r}")) == Some(v), "base64-exchange-differs", || format!("features {name}: {k} {v}"));
                }
            }
            None if k == "mechname" || k == "config" => {
                w.want(all.get(k) == Some(v), "behaviour-depends-on-features", || format!("features {name}: {k} {v}"));
            }
            None => {}
        }
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one feature set the probe program was built and run with; non-trivial if the library compiled and the probe \
              ran; its observations (available and selectable mechanisms, exchanges, answers to hostile messages) are compared with those of \
              the build with all mechanisms"
        .into();
    r.assumptions = vec![
        "the feature std is always on: the crate refuses to build without it".into(),
        "GSSAPI is only started, not exchanged; it needs the Kerberos headers, sets with it are skipped where those are missing".into(),
    ];
    let f = fixed();
    // built before the cases start: each of them needs it
    let _ = reference();
    let start = std::time::Instant::now();
    let budget = r.n(150, 600);
    let must = 24;
    r.cases("sets", r.n(f.len() as u64 + 12, 420), |w, rng| {
        let set = f.get(w.case as usize).cloned().unwrap_or_else(|| random(rng));
        let name = set.iter().copied().collect::<Vec<_>>().join(",");
        let all = match reference() {
            Ok(a) => a,
            Err((broken, e)) => {
                let d = format!("the probe does not work with all mechanisms: {e}");
                if broken {
                    w.viol("does-not-compile".to_string(), d);
                } else {
                    w.acc.internal.push(d);
                }
                return;
            }
        };
        // sets left over when the time is used up are not looked at
        if w.case >= must && start.elapsed().as_secs() > budget {
            w.count("sets_left_out");
            return;
        }
        match build(&set) {
            Built::Broken(e) => {
                w.eval(&name, false);
                w.viol("does-not-compile".to_string(), format!("features {name}: {e}"));
            }
            Built::NoTools(e) if set.contains("gssapi") => {
                let _ = e;
                w.count("skipped_without_kerberos_headers");
            }
            Built::NoTools(e) => w.acc.internal.push(format!("features {name}: {e}")),
            Built::Seen(s) => {
                w.eval(&name, true);
                w.count("builds");
                w.add("observations", s.len() as u64);
                judge(w, &set, &s, all);
                w.sample(|| json!({"features": name, "available": s.get("available"), "rank": s.get("rank")}));
            }
        }
    });
    r.require("builds", 20);
    r.require("behaviours_compared", 20_000);
    r.require("plus_behaviours_compared", 20);
    r.require("disabled_mechanisms_refused", 50);
}
