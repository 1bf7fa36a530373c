//! puck on the client side of a connection
use crate::http::{body_of, method};
use crate::sim::{obs, Rd};
use lunatic::net::TcpStream;
use lunatic::{Mailbox, Process};
use puck::request::Method;
use puck::{Request, Response};
use std::io::Read;
use std::time::Duration;

struct Job {
    url: String,
    method: String,
    headers: Vec<(String, String)>,
    body_kind: u8,
    body: Vec<u8>,
    body_len: u32,
    read: u8,
    sizes: Vec<u32>,
    delay: u32,
}

fn jobs(c: &mut Rd) -> Vec<Job> {
    let n = c.u32();
    (0..n)
        .map(|_| Job {
            url: c.str(),
            method: c.str(),
            headers: {
                let k = c.u8();
                (0..k).map(|_| (c.str(), c.str())).collect()
            },
            body_kind: c.u8(),
            body: c.bytes(),
            body_len: c.u32(),
            read: c.u8(),
            sizes: {
                let k = c.u8();
                (0..k).map(|_| c.u32()).collect()
            },
            delay: c.u32(),
        })
        .collect()
}

pub fn main(mut c: Rd) {
    let n = jobs(&mut c).len() as u32;
    for i in 0..n {
        let _ = Process::spawn(i, |i: u32, _: Mailbox<()>| {
            let mut c = Rd::new(crate::sim::load());
            c.u8();
            let mut all = jobs(&mut c);
            run(i, all.swap_remove(i as usize));
        });
    }
    // stay alive for ever
    let m: Mailbox<()> = unsafe { Mailbox::new() };
    loop {
        m.receive();
    }
}

fn make_method(s: &str) -> Method {
    match s {
        "HEAD" => Method::Head,
        s => Method::new_from_str(s),
    }
}

fn run(i: u32, j: Job) {
    let id = i.to_string();
    if j.delay > 0 {
        lunatic::sleep(Duration::from_millis(j.delay as u64));
    }
    let stream = match TcpStream::connect("127.0.0.1:9000") {
        Ok(s) => s,
        Err(_) => {
            obs(&[b"noconnect", id.as_bytes()]);
            return;
        }
    };
    let m = make_method(&j.method);
    let _ = method(&m);
    let mut b = Request::build(&j.url).method(m).headers(j.headers);
    let later = j.body_kind >= 8;
    let mut body = body_of(j.body_kind % 8, j.body, j.body_len);
    if later {
        b = b.body("old");
    } else if let Some(body) = body.take() {
        b = b.body(body);
    }
    let mut req = b.build();
    if later {
        // the body is set afterwards
        let old = match body {
            Some(body) => req.replace_body(body),
            None => req.take_body(),
        };
        assert_eq!(old.into_string().unwrap(), "old");
    }
    let mut w = stream.clone();
    let r = req.write(&mut w);
    obs(&[b"written", id.as_bytes(), if r.is_ok() { b"ok" } else { b"err" }]);
    drop(w);
    match Response::parse(stream) {
        Err(_) => obs(&[b"res", id.as_bytes(), b"err"]),
        Ok(None) => obs(&[b"res", id.as_bytes(), b"none"]),
        Ok(Some(mut res)) => {
            let status = res.status().to_string();
            let reason = res.reason().to_string();
            let hs: Vec<(String, String)> = {
                let mut v: Vec<_> = res.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                v.sort();
                v
            };
            let mut f: Vec<&[u8]> = vec![b"res", id.as_bytes(), b"ok", status.as_bytes(), reason.as_bytes()];
            for (k, v) in &hs {
                f.push(k.as_bytes());
                f.push(v.as_bytes());
            }
            obs(&f);
            let mut body = res.take_body();
            let mut got = vec![];
            let end: &[u8] = match j.read {
                0 => match body.into_bytes() {
                    Ok(b) => {
                        got = b;
                        b"eof"
                    }
                    Err(_) => b"err",
                },
                1 => match body.into_string() {
                    Ok(b) => {
                        got = b.into_bytes();
                        b"eof"
                    }
                    Err(_) => b"err",
                },
                _ => {
                    let mut k = 0;
                    loop {
                        let n = j.sizes[k % j.sizes.len()] as usize;
                        k += 1;
                        let mut buf = vec![0u8; n];
                        match body.read(&mut buf) {
                            Ok(0) => break b"eof",
                            Ok(n) => got.extend_from_slice(&buf[..n]),
                            Err(_) => break b"err",
                        }
                    }
                }
            };
            obs(&[b"body", id.as_bytes(), end, &got]);
        }
    }
    obs(&[b"done", id.as_bytes()]);
}
