//! Runs test cases (one JSON document per line on stdin, after a line with the configurations they use) against the library and reports what it did.
//!
//! A case is a task state plus a list of steps; the state (URL, scratchpad, cache) carries over from
//! step to step.  Every step reports its result, the state after it, the host facts of the URL and of
//! the URL parsed afresh, the visible cache entries and the requests a local proxy saw.
mod server;

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

use serde::Deserialize;
use serde_json::{json, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;

#[derive(Deserialize)]
struct Case {
    id: u64,
    /// index into the configurations given on the first line
    #[serde(default)] cfg: usize,
    #[serde(default)] ctx: BTreeMap<String, String>,
    #[serde(default)] jctx: BTreeMap<String, String>,
    #[serde(default)] ca: Option<Ca>,
    url: String,
    #[serde(default)] flags: Vec<String>,
    #[serde(default)] vars: BTreeMap<String, String>,
    #[serde(default)] cache: Vec<(String, String, Option<String>)>,
    #[serde(default)] cache_path: Option<String>,
    #[serde(default)] net: HashMap<String, server::Replies>,
    #[serde(default)] facts: bool,
    steps: Vec<Step>
}
#[derive(Deserialize)]
struct Ca {
    #[serde(default)] flags: Vec<String>,
    #[serde(default)] vars: BTreeMap<String, String>
}
#[derive(Deserialize)]
struct Step {
    kind: String,
    #[serde(default)] node: Value,
    #[serde(default)] s: String,
    #[serde(default)] d: String,
    #[serde(default)] to: Option<String>
}

/// The chain of error names of a `Debug`-formatted error.
fn chain<E: std::fmt::Debug>(e: &E) -> Vec<String> {
    let text = format!("{e:?}");
    let mut ret = Vec::new();
    let mut rest = text.as_str();
    loop {
        let end = rest.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(rest.len());
        if end == 0 {break;}
        ret.push(rest[..end].to_string());
        match rest[end..].strip_prefix('(') {
            Some(x) => rest = x,
            None => break
        }
    }
    ret
}
fn res<T: Into<Value>, E: std::fmt::Debug>(r: Result<T, E>) -> Value {
    match r {
        Ok(v) => json!({"k": "ok", "v": v.into()}),
        Err(e) => json!({"k": "err", "e": chain(&e)})
    }
}
fn opt(x: Option<Cow<'_, str>>) -> Value {
    match x {Some(x) => json!([x]), None => json!([])}
}
const FACTS: [UrlPart; 8] = [UrlPart::Host, UrlPart::Domain, UrlPart::Subdomain, UrlPart::RegDomain, UrlPart::NotDomainSuffix, UrlPart::DomainMiddle, UrlPart::DomainSuffix, UrlPart::FqdnPeriod];
fn facts(url: &BetterUrl) -> Value {
    let mut ret: Vec<Value> = FACTS.iter().map(|p| opt(p.get(url))).collect();
    let (scratchpad, context, job_context, params, commons, cache) = Default::default();
    let view = TaskStateView {
        url, scratchpad: &scratchpad, common_args: None, context: &context, job_context: &job_context,
        params: &params, commons: &commons, cache: &cache
    };
    let kind = |c: Condition| -> Value {c.satisfied_by(&view).ok().into()};
    for c in [Condition::UrlHasHost, Condition::HostIsFqdn, Condition::HostIsDomain, Condition::HostIsIp, Condition::HostIsIpv4, Condition::HostIsIpv6] {ret.push(kind(c));}
    Value::Array(ret)
}
fn dump(cache: &Cache) -> Value {
    use diesel::prelude::*;
    #[derive(QueryableByName)]
    struct Row {
        #[diesel(sql_type = diesel::sql_types::Text)] category: String,
        #[diesel(sql_type = diesel::sql_types::Text)] key: String
    }
    let keys: BTreeSet<(String, String)> = {
        let Ok(mut inner) = cache.0.lock() else {return json!("poisoned")};
        match inner.connection() {
            None => return json!([]),
            Some(c) => match diesel::sql_query("SELECT category, \"key\" FROM cache").load::<Row>(c) {
                Ok(rows) => rows.into_iter().map(|r| (r.category, r.key)).collect(),
                Err(e) => return json!(format!("{e:?}"))
            }
        }
    };
    keys.into_iter().map(|(c, k)| {
        let v = match cache.read(&c, &k) {
            Ok(Some(Some(v))) => json!([v]),
            Ok(Some(None)) => json!([]),
            x => json!(format!("{x:?}"))
        };
        json!([c, k, v])
    }).collect()
}

fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_str(&v.to_string()).map_err(|e| e.to_string())
}

fn run_step(step: &Step, ts: &mut TaskState, config: &Config) -> Result<Value, String> {
    Ok(match &*step.kind {
        "mapper" => {let n: Mapper = parse(&step.node)?; res(n.apply(ts).map(|()| Value::Null))},
        "rule"   => {let n: Rule   = parse(&step.node)?; res(n.apply(ts).map(|()| Value::Null))},
        "rules"  => {let n: Rules  = parse(&step.node)?; res(n.apply(ts).map(|()| Value::Null))},
        "cond"   => {let n: Condition = parse(&step.node)?; res(n.satisfied_by(&ts.to_view()))},
        "src"    => {let n: StringSource = parse(&step.node)?; res(n.get(&ts.to_view()).map(opt))},
        "mat"    => {let n: StringMatcher = parse(&step.node)?; res(n.satisfied_by(&step.s, &ts.to_view()))},
        "loc"    => {let n: StringLocation = parse(&step.node)?; res(n.satisfied_by(&step.s, &step.d))},
        "charm"  => {let n: CharMatcher = parse(&step.node)?; res(n.satisfied_by(step.s.chars().next().expect("a character")))},
        "mod"    => {
            let n: StringModification = parse(&step.node)?;
            let mut s = step.s.clone();
            let r = n.apply(&mut s, &ts.to_view());
            let mut ret = res(r.map(|()| Value::Null));
            ret["v"] = s.into();
            ret
        },
        "pget"   => {let n: UrlPart = parse(&step.node)?; json!({"k": "ok", "v": opt(n.get(ts.url))})},
        "pset"   => {let n: UrlPart = parse(&step.node)?; res(n.set(ts.url, step.to.as_deref()).map(|()| Value::Null))},
        "task"   => res(config.apply(ts).map(|()| Value::Null)),
        "cread"  => res(ts.cache.read(&step.s, &step.d).map(|x| match x {None => json!([]), Some(None) => json!([[]]), Some(Some(v)) => json!([[v]])})),
        "cwrite" => res(ts.cache.write(&step.s, &step.d, step.to.as_deref()).map(|()| Value::Null)),
        "reopen" => {
            // another process would start like this
            let mut inner = ts.cache.0.lock().map_err(|e| e.to_string())?;
            let path = inner.path().clone();
            *inner = path.into();
            match inner.connect() {Ok(_) => json!({"k": "ok", "v": null}), Err(e) => json!({"k": "err", "v": null, "e": chain(&e)})}
        },
        "roundtrip" => {
            // a configuration written out and loaded again
            let c: Config = parse(&step.node)?;
            let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
            let again: Config = serde_json::from_str(&text).map_err(|e| format!("does not load again: {e}"))?;
            json!({"k": "ok", "v": [c == again, text]})
        },
        "same" => {
            // two texts of one configuration: are they equal, and is either, written out and loaded again, still itself?
            match (serde_json::from_str::<Config>(&step.s), step.d.is_empty()) {
                (Err(_), _) => json!({"k": "err", "e": ["CantParseConfig"]}),
                (Ok(_), true) => json!({"k": "ok", "v": "accepted"}),
                (Ok(a), false) => {
                    let b: Config = serde_json::from_str(&step.d).map_err(|e| format!("the spelled-out form does not load: {e}"))?;
                    let again = |c: &Config| serde_json::to_string(c).ok().and_then(|t| serde_json::from_str::<Config>(&t).ok()).is_some_and(|x| x == *c);
                    json!({"k": "ok", "v": [a == b, again(&a), again(&b)]})
                }
            }
        },
        "load" => {
            // does a text load as a configuration?
            match serde_json::from_str::<Config>(&step.s) {
                Ok(_) => json!({"k": "ok", "v": null}),
                Err(_) => json!({"k": "err", "e": ["CantParseConfig"]})
            }
        },
        "params" => {
            // apply ParamsDiffs in order and write the parameters out
            let mut p = config.params.clone();
            let ds: Vec<ParamsDiff> = parse(&step.node)?;
            for d in ds {d.apply(&mut p);}
            json!({"k": "ok", "v": serde_json::to_value(&p).map_err(|e| e.to_string())?})
        },
        "psl" => json!({"k": "ok", "v": psl::suffix_str(&step.s)}),
        x => Err(format!("unknown kind {x}"))?
    })
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn run_case(line: &str, configs: &[Result<Config, String>], server: &server::Server) -> Value {
    let case: Case = match serde_json::from_str(line) {Ok(x) => x, Err(e) => return json!({"bad": e.to_string()})};
    let id = case.id;
    let ret = catch_unwind(AssertUnwindSafe(|| -> Result<Value, String> {
        server.start(case.net);
        let config = match configs.get(case.cfg) {Some(Ok(c)) => c, Some(Err(e)) => Err(format!("configuration {}: {e}", case.cfg))?, None => Err("no configuration")?};
        let mut params = config.params.clone();
        if params.http_client_config.proxies.is_empty() {
            params.http_client_config.proxies = vec![server.url().parse::<ProxyConfig>().map_err(|e| e.to_string())?];
        }
        let context = TaskContext {vars: case.ctx.into_iter().collect()};
        let job_context = JobContext {vars: case.jctx.into_iter().collect()};
        let args = case.ca.as_ref().map(|ca| CommonCallArgs {
            flags: ca.flags.iter().map(|x| Cow::Borrowed(&**x)).collect(),
            vars: ca.vars.iter().map(|(k, v)| (Cow::Borrowed(&**k), v.clone())).collect()
        });
        let cache: Cache = CachePath::from(case.cache_path.unwrap_or_else(|| ":memory:".into())).into();
        for (c, k, v) in &case.cache {cache.write(c, k, v.as_deref()).map_err(|e| format!("{e:?}"))?;}
        let mut url = match BetterUrl::parse(&case.url) {
            Ok(x) => x,
            Err(e) => return Ok(json!({"init": chain(&MapperError::from(e)), "obs": []}))
        };
        let mut scratchpad = JobScratchpad {flags: case.flags.into_iter().collect(), vars: case.vars.into_iter().collect()};
        let init = json!([url.as_str()]);
        let init_facts = if case.facts {facts(&url)} else {json!([])};
        let mut obs = Vec::new();
        for step in &case.steps {
            let step_ret = catch_unwind(AssertUnwindSafe(|| {
                let mut ts = TaskState {
                    url: &mut url, scratchpad: &mut scratchpad, common_args: args.as_ref(), context: &context, job_context: &job_context,
                    params: &params, commons: &config.commons, cache: &cache
                };
                run_step(step, &mut ts, config)
            }));
            let mut o = match step_ret {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => {obs.push(json!({"k": "bad", "v": e})); break},
                Err(_) => json!({"k": "panic", "v": PANIC.lock().map(|x| x.clone()).unwrap_or_default()})
            };
            if o["k"] != "panic" {
                o["url"] = url.as_str().into();
                let fresh = BetterUrl::parse(url.as_str());
                o["same"] = match &fresh {Ok(x) => json!(x.as_str() == url.as_str()), Err(_) => json!(false)};
                if case.facts {
                    o["facts"] = facts(&url);
                    o["fresh"] = fresh.map_or(json!([]), |x| facts(&x));
                }
                let flags: BTreeSet<_> = scratchpad.flags.iter().cloned().collect();
                let vars: BTreeMap<_, _> = scratchpad.vars.clone().into_iter().collect();
                o["flags"] = json!(flags);
                o["vars"] = vars.into_iter().map(|(k, v)| json!([k, v])).collect();
                o["cache"] = dump(&cache);
                o["log"] = server.log();
            }
            let stop = o["k"] == "panic";
            obs.push(o);
            if stop {break;}
        }
        Ok(json!({"init": init, "facts": init_facts, "obs": obs}))
    }));
    let mut ret = match ret {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => json!({"bad": e}),
        Err(_) => json!({"panic": PANIC.lock().map(|x| x.clone()).unwrap_or_default()})
    };
    ret["id"] = id.into();
    ret
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.payload_as_str().unwrap_or("?").to_string();
        let place = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if let Ok(mut x) = PANIC.lock() {*x = text + &place;}
    }));
    // deep configurations need room
    std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let server = server::Server::spawn();
        let out = std::io::stdout();
        let mut out = std::io::BufWriter::new(out.lock());
        let mut configs = Vec::new();
        // only the servers, for a program that runs elsewhere: every line is a table of answers, or "log"
        if std::env::args().nth(1).as_deref() == Some("serve") {
            writeln!(out, "{}", server.to_ports("127.0.0.1:50001 127.0.0.1:50002")).and_then(|()| out.flush()).expect("writable results");
            for line in std::io::stdin().lock().lines() {
                let line = line.expect("readable tables");
                if line == "log" {writeln!(out, "{}", server.log()).and_then(|()| out.flush()).expect("writable results");}
                else {server.start(serde_json::from_str(&server.to_ports(&line)).expect("a table"));}
            }
            return;
        }
        let input: Box<dyn BufRead> = match std::env::args().nth(1) {
            Some(x) => Box::new(std::io::BufReader::new(std::fs::File::open(x).expect("readable cases"))),
            None => Box::new(std::io::stdin().lock())
        };
        let probe = std::env::current_exe().expect("a path").with_file_name("uc-probe").to_string_lossy().into_owned();
        for line in input.lines() {
            let line = line.expect("readable cases").replace("/ucv/probe", &probe);
            if let Some(list) = line.strip_prefix("CONFIGS ") {
                let list: Vec<Value> = serde_json::from_str(&server.to_ports(list)).expect("valid JSON");
                configs = list.iter().map(parse::<Config>).collect();
                continue;
            }
            writeln!(out, "{}", server.to_names(&run_case(&server.to_ports(&line), &configs, &server).to_string())).expect("writable results");
        }
    }).expect("a thread").join().expect("no panic outside cases");
}
