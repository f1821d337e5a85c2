// @attach server/src/engine/config.rs
// @feature p22
// @native
//! P22: configurations from the command line, the environment and files against a direct reading of the documented rules.
use super::*;
use crate::vp::*;

/// the settings by their place in these tables, as the documentation lists them
const CLI: [&str; 8] = ["--auth-plugin", "--auth-root-password", "--mode", "--service-window", "--endpoint", "--tlscert", "--tlskey", "--tls-passphrase"];
const ENV: [&str; 8] = ["SKYDB_AUTH_PLUGIN", "SKYDB_AUTH_ROOT_PASSWORD", "SKYDB_RUN_MODE", "SKYDB_SERVICE_WINDOW", "SKYDB_ENDPOINTS", "SKYDB_TLS_CERT", "SKYDB_TLS_KEY", "SKYDB_TLS_PRIVATE_KEY_PASSWORD"];
const FILES: [(&str, &[u8]); 5] = [("a.pem", b"-- A --\n"), ("b.pem", b""), ("c.pem", "key \u{fc}\r\n".as_bytes()), ("d.pem", b"pass phrase"), ("bad.pem", &[0xff, 0xfe])];
thread_local! { static DIR: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); }
fn dir() -> String {
    DIR.with(|d| d.borrow_mut().get_or_insert_with(|| {
        let p = format!("p22_{}_{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "_");
        std::fs::create_dir_all(&p).unwrap();
        for (n, c) in FILES { std::fs::write(format!("{p}/{n}"), c).unwrap() }
        p
    }).clone())
}
fn word(g: &mut Gen) -> String { const W: [&str; 12] = ["a", "Z", "0", "9", "-", "_", ".", " ", "é", "=", ",", "\u{1F980}"]; (0..g.range(0, 6)).map(|_| *g.pick(&W)).collect() }
fn number(g: &mut Gen, typ: &[&str]) -> String {
    match g.range(0, 5) {
        0 => g.pick(typ).to_string(),
        1 => (g.u16() as u64).to_string(),
        2 => (g.u16() as u64 + 65530).to_string(),
        3 => g.u64().to_string(),
        4 => { let z = "0".repeat(g.range(0, 3)); format!("{z}{}", g.u16()) }
        _ => g.pick(&["0", "65535", "65536", "18446744073709551615", "18446744073709551616", "", " 1", "1 ", "-1", "0x10", "1e3", "1.0", "+7", "+", "nine"]).to_string(),
    }
}
fn value(g: &mut Gen, k: usize) -> String {
    if g.range(0, 30) == 0 { return word(g) }
    match k {
        0 => g.pick(&["pwd", "pwd", "pwd", "pwd", "pwd", "PWD", "", "jwt", "pwd "]).to_string(),
        1 => match g.range(0, 9) { 0 => "123456789012345".into(), 1 => "1234567890123456".into(), 2 => word(g), 3 => "\u{fc}".repeat(g.range(6, 9)), 4 => format!("{}{}", "x".repeat(g.range(9, 100)), word(g)), _ => "password12345678".into() },
        2 => g.pick(&["dev", "prod", "dev", "prod", "dev", "prod", "Dev", "PROD", "", "test", "prod "]).to_string(),
        3 => number(g, &["300", "600", "1"]),
        4 => {
            let p = g.pick(&["tcp", "tls", "tcp", "tls", "tcp", "tls", "tcp", "tls", "TCP", "udp", "", "tcp "]).to_string();
            let h = if g.range(0, 6) == 0 { word(g) } else { g.pick(&["127.0.0.1", "localhost", "0.0.0.0", "db.example.com", "127.0.0.1", "localhost", "::1", "a@b"]).to_string() };
            let n = if g.range(0, 3) > 0 { g.pick(&["2003", "2004", "0", "65535"]).to_string() } else { number(g, &["2003", "8080"]) };
            match g.range(0, 30) { 0 => format!("{p}@{h}"), 1 => format!("{h}:{n}"), 2 => format!("{p}://{h}:{n}"), 3 => format!("{p}@{h}:{n}:"), 4 => format!("{p}@@{h}:{n}"), _ => format!("{p}@{h}:{n}") }
        }
        _ => { let d = dir(); let f = *g.pick(&["a.pem", "b.pem", "c.pem", "d.pem", "a.pem", "c.pem", "d.pem", "a.pem", "bad.pem", "none.pem"]); format!("{d}/{f}") }
    }
}
/// the settings of one source: setting, value
fn settings(g: &mut Gen) -> Vec<(usize, String)> {
    let mut s = vec![];
    for k in 0..8 {
        let n = match k {
            1 => if g.range(0, 20) == 0 { 0 } else { 1 },
            4 => *g.pick(&[0, 1, 1, 1, 2, 2, 2, 3]),
            5..=7 => continue,
            _ => g.range(0, 1),
        } + if g.range(0, 40) == 0 { 1 } else { 0 };
        for i in 0..n { let mut v = value(g, k); if k == 4 && g.range(0, 3) > 0 { if let Some(r) = v.strip_prefix("tcp@").or(v.strip_prefix("tls@")) { v = format!("{}@{r}", ["tcp", "tls"][i % 2]) } } s.push((k, v)) }
    }
    let tls = s.iter().any(|x| x.0 == 4 && x.1.starts_with("tls")) ^ (g.range(0, 25) == 0);
    for k in 5..8 { if tls ^ (g.range(0, 40) == 0) { s.push((k, value(g, k))); if g.range(0, 40) == 0 { s.push((k, value(g, k))) } } }
    for i in (1..s.len()).rev() { let j = g.range(0, i); s.swap(i, j) }
    s
}
// what the settings mean
fn num(s: &str, max: u64) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None }
    d.bytes().try_fold(0u64, |a, c| a.checked_mul(10)?.checked_add((c - b'0') as u64)).filter(|n| *n <= max)
}
fn read(path: &str) -> Option<String> { let n = path.strip_prefix(&dir())?.strip_prefix('/')?; FILES.iter().find(|f| f.0 == n).and_then(|f| String::from_utf8(f.1.to_vec()).ok()) }
fn password(p: &str) -> Option<ConfigAuth> { (p.len() >= 16 && !p.contains('\0')).then(|| ConfigAuth { plugin: AuthDriver::Pwd, root_key: p.to_owned() }) }
fn window(w: Option<u64>) -> Option<ConfigSystem> { w.map_or(Some(300), |w| (w != 0).then_some(w)).map(|w| ConfigSystem { reliability_system_window: w }) }
fn endpoints(tcp: Option<ConfigEndpointTcp>, tls: Option<ConfigEndpointTls>) -> ConfigEndpoint {
    match (tcp, tls) {
        (Some(a), Some(b)) => ConfigEndpoint::Multi(a, b),
        (None, Some(b)) => ConfigEndpoint::Secure(b),
        (Some(a), None) => ConfigEndpoint::Insecure(a),
        (None, None) => ConfigEndpoint::Insecure(ConfigEndpointTcp { host: "127.0.0.1".into(), port: 2003 }),
    }
}
/// the configuration for settings of the command line or the environment: `None` when they are invalid
fn meaning(s: &[(usize, String)]) -> Option<Configuration> {
    let all = |k: usize| s.iter().filter(|x| x.0 == k).map(|x| x.1.as_str()).collect::<Vec<_>>();
    for k in [0, 1, 2, 3, 5, 6, 7] { if all(k).len() > 1 { return None } }
    if s.iter().any(|x| x.0 > 7) { return None }
    let one = |k: usize| all(k).first().copied();
    if one(0).is_some_and(|p| p != "pwd") { return None }
    let auth = password(one(1)?)?;
    let mode = match one(2) { None | Some("dev") => ConfigMode::Dev, Some("prod") => ConfigMode::Prod, _ => return None };
    let w = match one(3) { None => None, Some(w) => Some(num(w, u64::MAX)?) };
    let (mut tcp, mut tls) = (None, None);
    for e in all(4) {
        if e.matches('@').count() != 1 { return None }
        let (proto, rest) = e.split_once('@')?;
        if rest.matches(':').count() != 1 { return None }
        let (host, port) = rest.split_once(':')?;
        let t = ConfigEndpointTcp { host: host.into(), port: num(port, 65535)? as u16 };
        let old = match proto { "tcp" => tcp.replace(t), "tls" => tls.replace(t), _ => return None };
        if old.is_some() { return None }
    }
    let tls = match tls {
        None => { if one(5).is_some() || one(6).is_some() || one(7).is_some() { return None } None }
        Some(tcp) => Some(ConfigEndpointTls { tcp, cert: read(one(5)?)?, private_key: read(one(6)?)?, pkey_pass: read(one(7)?)? }),
    };
    Some(Configuration { endpoints: endpoints(tcp, tls), mode, system: window(w)?, auth })
}
enum Want { Text, Accept(Configuration), Refuse }
fn put_cli(a: Vec<String>) { CLI_SRC.with(|x| *x.borrow_mut() = Some(a)) }
fn put_env(e: Option<HashMap<String, String>>) { ENV_SRC.with(|x| *x.borrow_mut() = e) }
fn put_file(f: Option<String>) { FILE_SRC.with(|x| *x.borrow_mut() = f) }
fn agree(want: Want, what: &str) {
    let got = check_configuration();
    put_env(None); put_cli(vec![]); put_file(None);
    match (want, got) {
        (Want::Text, Ok(ConfigReturn::HelpMessage(m))) => assert!(!m.is_empty()),
        (Want::Accept(w), Ok(ConfigReturn::Config(c))) => assert!(c == w, "C[config: every setting has the given or default value] {what}: {c:?} instead of {w:?}"),
        (Want::Refuse, Err(e)) => assert!(!format!("{e}").is_empty()),
        (Want::Accept(_), Err(e)) => panic!("C[config: a valid configuration is accepted] {what}: {e}"),
        (Want::Refuse, Ok(c)) => panic!("C[config: an invalid configuration is refused] {what}: {c:?}"),
        (Want::Text, r) => panic!("C[config: help and version] {what}: {r:?}"),
        (_, Ok(ConfigReturn::HelpMessage(_))) => panic!("C[config: help only on request] {what}"),
    }
}
/// arguments that say these settings, perhaps with something that is no setting in between
fn arguments(g: &mut Gen, s: &mut Vec<(usize, String)>) -> (Vec<String>, Option<Want>) {
    let (mut a, mut early) = (vec!["skyd".to_string()], None);
    let at = if g.range(0, 6) == 0 { g.range(0, s.len()) } else { usize::MAX };
    for i in 0..=s.len() {
        if i == at {
            let (x, w): (&[&str], _) = match g.range(0, 12) {
                0 => (&["--help"], Want::Text), 1 => (&["-h"], Want::Text), 2 => (&["--version"], Want::Text), 3 => (&["-v"], Want::Text),
                4 => (&["word"], Want::Refuse), 5 => (&["-x"], Want::Refuse), 6 => (&["--mode=dev=prod"], Want::Refuse), 7 => (&[""], Want::Refuse),
                8 if i == s.len() => (&["--mode"], Want::Refuse),
                9 => (&["--endpoints=tcp@a:1"], Want::Refuse), 10 => (&["--auth", "pwd"], Want::Refuse), 11 => (&["--Mode", "dev"], Want::Refuse), _ => (&["--", "--help"], Want::Refuse),
            };
            a.extend(x.iter().map(|x| x.to_string()));
            // an unknown but well formed option does not stop a later request for help: there is none in this list
            early = Some(w);
        }
        if let Some((k, v)) = s.get(i) {
            if g.bool() && !v.contains('=') { a.push(format!("{}={v}", CLI[*k])) } else { a.push(CLI[*k].into()); a.push(v.clone()) }
        }
    }
    (a, early)
}
fn h_cli(g: &mut Gen) {
    let mut s = settings(g);
    let (mut a, early) = arguments(g, &mut s);
    let mut want = early.unwrap_or_else(|| meaning(&s).map_or(Want::Refuse, Want::Accept));
    if g.range(0, 12) == 0 && !s.is_empty() && !matches!(want, Want::Text) {
        // one more argument that is cut short or says two things
        let (k, v) = s[g.range(0, s.len() - 1)].clone();
        match g.range(0, 1) { 0 => a.push(format!("{}={v}=", CLI[k])), _ => a.push(CLI[k].into()) }
        want = Want::Refuse;
    }
    let mut env = None;
    match g.range(0, 20) {
        // two sources at a time are a conflict
        0 if a.len() > 1 && !matches!(want, Want::Text) => { let k = g.range(0, 7); env = Some(HashMap::from([(ENV[k].to_string(), value(g, k))])); want = Want::Refuse }
        // a variable that is no setting is not a source
        1 => env = Some(HashMap::from([("SKYDB_OTHER".to_string(), "1".to_string())])),
        _ => {}
    }
    let what = format!("{a:?} {env:?}");
    g.note(|| what.clone());
    g.cover(matches!(&want, Want::Accept(c) if matches!(c.endpoints, ConfigEndpoint::Multi(..))));
    put_cli(a); put_env(env); put_file(None);
    agree(want, &what);
}
fn h_env(g: &mut Gen) {
    let s = settings(g);
    let mut e: HashMap<String, String> = HashMap::new();
    for (k, v) in &s { e.entry(ENV[*k].into()).and_modify(|o| { o.push(','); o.push_str(v) }).or_insert(v.clone()); }
    // the values of a variable are separated by commas, in every variable
    let split: Vec<(usize, String)> = e.iter().flat_map(|(k, v)| { let k = ENV.iter().position(|x| x == k).unwrap(); v.split(',').map(move |v| (k, v.to_string())).collect::<Vec<_>>() }).collect();
    // the order of the endpoints does not matter, nor does that of the variables
    let want = meaning(&split).map_or(Want::Refuse, Want::Accept);
    if g.bool() { e.insert("SKYDB_UNKNOWN".into(), "x".into()); }
    let what = format!("{e:?}");
    g.note(|| what.clone());
    g.cover(matches!(&want, Want::Accept(c) if matches!(c.endpoints, ConfigEndpoint::Multi(..))));
    put_cli(if g.bool() { vec!["skyd".into()] } else { vec![] }); put_env(Some(e)); put_file(None);
    agree(want, &what);
}
fn quote(g: &mut Gen, s: &str) -> String {
    let plain = !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'/') && s.bytes().any(|c| c.is_ascii_alphabetic() && !b"eExX".contains(&c)) && s.as_bytes()[0].is_ascii_alphabetic() && !matches!(s.to_ascii_lowercase().as_str(), "null" | "true" | "false" | "yes" | "no" | "on" | "off" | "nan" | "inf");
    if plain && g.bool() { return s.into() }
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c) } c if (c as u32) < 32 => o.push_str(&format!("\\x{:02x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn h_file(g: &mut Gen) {
    const ABSENT: u8 = 0;
    let mut ok = true;
    // a part that is left out of the file, or said to be nothing
    let mut y: Vec<String> = vec![];
    let mut sys: Vec<String> = vec![];
    let mut mode = ConfigMode::Dev;
    let mut w = None;
    if g.bool() { let v = value(g, 2); sys.push(format!("mode: {}", quote(g, &v))); match v.as_str() { "dev" => {} "prod" => mode = ConfigMode::Prod, _ => ok = false } } else if g.range(0, 4) == 0 { sys.push("mode: null".into()) }
    if g.bool() {
        match g.range(0, 8) {
            0 => { sys.push("rs_window: -1".into()); ok = false }
            1 => { sys.push("rs_window: 18446744073709551616".into()); ok = false }
            2 => { sys.push("rs_window: soon".into()); ok = false }
            3 => { sys.push("rs_window: 1.5".into()); ok = false }
            _ => { let n = g.u64(); w = Some(n); sys.push(format!("rs_window: {n}")) }
        }
    } else if g.range(0, 4) == 0 { sys.push("rs_window: ~".into()) }
    if !sys.is_empty() { y.push(format!("system:\n  {}\n", sys.join("\n  "))) } else if g.bool() { y.push("system: null\n".into()) }
    // endpoints
    let mut eps: Vec<String> = vec![];
    let (mut tcp, mut tls) = (None, None);
    for secure in [false, true] {
        if g.bool() { if g.range(0, 4) == 0 { eps.push(format!("{}: null", ["insecure", "secure"][secure as usize])) } continue }
        let mut part = vec![];
        let host = if g.range(0, 4) == 0 { word(g) } else { g.pick(&["localhost", "127.0.0.1", "::1"]).to_string() };
        let port = match g.range(0, 9) { 0 => g.range(65530, 65540) as u64, 1 => g.u64(), _ => g.u16() as u64 };
        if port > 65535 { ok = false }
        let leave = if g.range(0, 9) == 0 { g.range(0, if secure { 4 } else { 1 }) } else { 9 };
        if leave < 9 { ok = false }
        part.push(format!("host: {}", quote(g, &host)));
        part.push(format!("port: {port}"));
        let t = ConfigEndpointTcp { host, port: port as u16 };
        if secure {
            let f: Vec<String> = (5..8).map(|k| value(g, k)).collect();
            for (n, f) in ["cert", "private_key", "pkey_passphrase"].iter().zip(&f) { part.push(format!("{n}: {}", quote(g, f))) }
            let c: Vec<Option<String>> = f.iter().map(|f| read(f)).collect();
            if c.iter().any(|c| c.is_none()) { ok = false } else { tls = Some(ConfigEndpointTls { tcp: t, cert: c[0].clone().unwrap(), private_key: c[1].clone().unwrap(), pkey_pass: c[2].clone().unwrap() }) }
        } else { tcp = Some(t) }
        if leave < 9 { part.remove(leave); }
        for i in (1..part.len()).rev() { let j = g.range(0, i); part.swap(i, j) }
        eps.push(format!("{}:\n    {}", ["insecure", "secure"][secure as usize], part.join("\n    ")));
    }
    if !eps.is_empty() { if g.bool() { eps.reverse() } y.push(format!("endpoints:\n  {}\n", eps.join("\n  "))) } else if g.bool() { y.push("endpoints: {}\n".into()) }
    // the root account
    let mut auth = None;
    if g.range(0, 15) == 0 { ok = false; if g.bool() { y.push("auth: null\n".into()) } } else {
        let p = value(g, 0);
        let k = if g.range(0, 15) == 0 { format!("{}\0{}", word(g), "x".repeat(g.range(0, 20))) } else { value(g, 1) };
        if p != "pwd" { ok = false }
        auth = password(&k);
        let mut part = vec![format!("plugin: {}", quote(g, &p)), format!("root_pass: {}", quote(g, &k))];
        if g.range(0, 20) == 0 { part.remove(g.range(0, 1)); ok = false }
        if g.bool() { part.reverse() }
        y.push(format!("auth:\n  {}\n", part.join("\n  ")));
    }
    let _ = ABSENT;
    for i in (1..y.len()).rev() { let j = g.range(0, i); y.swap(i, j) }
    if g.range(0, 30) == 0 && !y.is_empty() { let d = y[g.range(0, y.len() - 1)].clone(); y.push(d); ok = false }
    let text = y.concat();
    let mut want = (|| { if !ok { return None } Some(Configuration { endpoints: endpoints(tcp, tls), mode, system: window(w)?, auth: auth? }) })().map_or(Want::Refuse, Want::Accept);
    let mut a: Vec<String> = if g.bool() { vec!["skyd".into(), "--config".into(), "config.yml".into()] } else { vec!["skyd".into(), "--config=/etc/c.yml".into()] };
    let mut env = None;
    match g.range(0, 25) {
        0 => { let k = g.range(0, 7); env = Some(HashMap::from([(ENV[k].to_string(), value(g, k))])); want = Want::Refuse }
        1 => { let k = g.range(0, 7); a.push(CLI[k].into()); a.push(value(g, k)); want = Want::Refuse }
        2 => { a.push("--config=other.yml".into()); want = Want::Refuse }
        _ => {}
    }
    let what = format!("{a:?} {env:?} {text}");
    g.note(|| what.clone());
    g.cover(matches!(&want, Want::Accept(c) if matches!(c.endpoints, ConfigEndpoint::Multi(..))));
    put_cli(a); put_env(env); put_file(Some(text));
    agree(want, &what);
}
/// arguments and files of any content: an answer, and never a panic
fn h_any(g: &mut Gen) {
    let what;
    if g.bool() {
        let mut a = vec!["skyd".to_string()];
        for _ in 0..g.range(0, 6) { let k = g.range(0, 7); a.push(match g.range(0, 5) { 0 => word(g), 1 => format!("--{}", word(g)), 2 => CLI[k].into(), 3 => value(g, k), 4 => format!("{}={}", CLI[k], word(g)), _ => format!("{}={}", CLI[k], value(g, k)) }) }
        what = format!("{a:?}");
        put_cli(a); put_file(Some(String::new()));
    } else {
        const T: [&str; 24] = ["auth:", "endpoints:", "system:", "\n", "\n  ", "\n    ", " ", "secure:", "insecure:", "host:", "port:", "1", "mode:", "dev", "- ", "{", "}", "[", "]", "\"", "&a", "*a", "!!x", "root_pass:"];
        let t: String = (0..g.range(0, 16)).map(|_| *g.pick(&T)).collect();
        what = t.clone();
        put_cli(vec!["skyd".into(), "--config".into(), "f".into()]); put_file(Some(t));
    }
    put_env(None);
    g.note(|| what.clone());
    g.nontrivial();
    let r = std::panic::catch_unwind(|| { let _ = check_configuration(); });
    put_env(None); put_cli(vec![]); put_file(None);
    assert!(r.is_ok(), "C[config: no configuration crashes the server] {what}");
}
vp_native!(n_cli, h_cli, 96, 2000);
vp_native!(n_env, h_env, 96, 2000);
vp_native!(n_file, h_file, 96, 2000);
vp_native!(n_any, h_any, 64, 2000);
