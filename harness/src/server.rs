//! A scripted HTTP proxy on the loopback interface: every request is logged and answered from the case's table.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

use serde::Deserialize;
use serde_json::{json, Value};

#[derive(Deserialize, Clone)]
pub struct Reply {
    #[serde(default = "ok")] status: u16,
    /// header lines, in order
    #[serde(default)] headers: Vec<(String, String)>,
    #[serde(default)] body: String,
    /// "", "close" (no answer), "garbage" (not HTTP)
    #[serde(default)] fault: String
}
fn ok() -> u16 {200}

#[derive(Default)]
struct State {net: HashMap<String, Replies>, log: Vec<Value>}
/// Two servers; cases know them as 127.0.0.1:50001 and 127.0.0.1:50002.
pub struct Server {ports: [u16; 2], state: Arc<Mutex<State>>}
/// The n-th request to a URL gets the n-th answer, later ones the last.
#[derive(Deserialize, Clone)]
#[serde(untagged)]
pub enum Replies {One(Reply), Many(Vec<Reply>)}
impl Replies {
    fn get(&self, n: usize) -> Option<Reply> {
        match self {
            Self::One(x) => Some(x.clone()),
            Self::Many(xs) => xs.get(n).or(xs.last()).cloned()
        }
    }
}

const QUIET: [&str; 6] = ["host", "content-length", "proxy-connection", "connection", "accept-encoding", "transfer-encoding"];

fn serve(mut stream: TcpStream, which: usize, ports: [u16; 2], state: &Mutex<State>) -> std::io::Result<()> {
    let mut reader = BufReader::new(stream.try_clone()?);
    let mut line = String::new();
    if reader.read_line(&mut line)? == 0 {return Ok(());}
    let mut words = line.trim_end().split(' ');
    let method = words.next().unwrap_or("").to_string();
    let target = words.next().unwrap_or("").to_string();
    let mut headers: Vec<(String, String)> = Vec::new();
    let mut length = 0usize;
    let mut host = String::new();
    loop {
        let mut h = String::new();
        if reader.read_line(&mut h)? == 0 {break;}
        let h = h.trim_end_matches(['\r', '\n']);
        if h.is_empty() {break;}
        if let Some((k, v)) = h.split_once(':') {
            let (k, v) = (k.to_ascii_lowercase(), v.trim().to_string());
            if k == "host" {host = v.clone();}
            if k == "content-length" {length = v.parse().unwrap_or(0);}
            if !QUIET.contains(&&*k) && (&*k, &*v) != ("accept", "*/*") {headers.push((k, v));}
        }
    }
    let mut body = vec![0; length];
    reader.read_exact(&mut body)?;
    headers.sort();
    // a form's fields come in any order
    if headers.iter().any(|(k, v)| k == "content-type" && v == "application/x-www-form-urlencoded") {
        let mut fields: Vec<&[u8]> = body.split(|b| *b == b'&').collect();
        fields.sort();
        body = fields.join(&b'&');
    }
    let direct = target.starts_with('/');
    let target = to_names(&if direct {format!("http://{host}{target}")} else {target}, ports);
    for (_, v) in &mut headers {*v = to_names(v, ports);}
    let who = format!("{}{}", if direct {"d"} else {""}, which + 1);
    let reply = {
        let mut state = state.lock().unwrap();
        let n = state.log.iter().filter(|x| x["u"] == *target).count();
        state.log.push(json!({"w": who, "m": method, "u": target, "h": headers, "b": String::from_utf8_lossy(&body)}));
        if method == "CONNECT" {Some(Reply {status: 502, headers: vec![], body: String::new(), fault: String::new()})} else {state.net.get(&target).and_then(|x| x.get(n))}
    }.unwrap_or(Reply {status: 404, headers: vec![], body: "nf".into(), fault: String::new()});
    match &*reply.fault {
        "close" => return Ok(()),
        "garbage" => return stream.write_all(b"\x01\x02 this is not HTTP\r\n\r\n"),
        _ => {}
    }
    let mut head = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", reply.status);
    for (k, v) in &reply.headers {head += &format!("{k}: {}\r\n", to_ports(v, ports));}
    let no_body = method == "HEAD" || reply.status == 204 || reply.status == 304;
    if !no_body {head += &format!("Content-Length: {}\r\n", reply.body.len());}
    head += "\r\n";
    stream.write_all(head.as_bytes())?;
    if !no_body {stream.write_all(reply.body.as_bytes())?;}
    stream.flush()
}

const NAMES: [&str; 2] = ["127.0.0.1:50001", "127.0.0.1:50002"];
fn to_ports(s: &str, ports: [u16; 2]) -> String {
    if !s.contains("127.0.0.1:5000") {return s.to_string();}
    s.replace(NAMES[0], &format!("127.0.0.1:{}", ports[0])).replace(NAMES[1], &format!("127.0.0.1:{}", ports[1]))
}
fn to_names(s: &str, ports: [u16; 2]) -> String {
    if !s.contains("127.0.0.1:") {return s.to_string();}
    s.replace(&format!("127.0.0.1:{}", ports[0]), NAMES[0]).replace(&format!("127.0.0.1:{}", ports[1]), NAMES[1])
}

impl Server {
    pub fn spawn() -> Self {
        let listeners = [(); 2].map(|()| loop {
            let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
            // a number of the same length as the names' keeps lengths the same
            let p = l.local_addr().expect("an address").port();
            if p >= 10000 && p != 50001 && p != 50002 {break l;}
        });
        let ports = [0, 1].map(|i: usize| listeners[i].local_addr().expect("an address").port());
        let state = Arc::new(Mutex::new(State::default()));
        for (i, listener) in listeners.into_iter().enumerate() {
            let shared = state.clone();
            std::thread::spawn(move || for stream in listener.incoming().flatten() {let _ = serve(stream, i, ports, &shared);});
        }
        Self {ports, state}
    }
    pub fn url(&self) -> String {format!("http://127.0.0.1:{}", self.ports[0])}
    pub fn to_ports(&self, s: &str) -> String {to_ports(s, self.ports)}
    pub fn to_names(&self, s: &str) -> String {to_names(s, self.ports)}
    pub fn start(&self, net: HashMap<String, Replies>) {
        // the table is in the terms of the cases
        let net = net.into_iter().map(|(k, v)| (to_names(&k, self.ports), v)).collect();
        *self.state.lock().unwrap() = State {net, log: Vec::new()};
    }
    pub fn log(&self) -> Value {self.state.lock().unwrap().log.clone().into()}
}
