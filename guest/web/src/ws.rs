use crate::http::{observe_req, plan_of, Conn};
use crate::sim::obs;
use lunatic::{Mailbox, Process};
use puck::core::{Stream, UsedStream};
use puck::ws::message::Message;
use puck::ws::websocket::{NextMessageError, WebSocket};
use puck::Request;
use std::time::Duration;

fn kind(m: &Message) -> (&'static [u8], &[u8]) {
    match m {
        Message::Ping(p) => (b"ping", p.as_deref().unwrap_or(&[])),
        Message::Pong(p) => (b"pong", p.as_deref().unwrap_or(&[])),
        Message::Text(s) => (b"text", s.as_bytes()),
        Message::Binary(b) => (b"binary", b),
    }
}

fn message(k: u32, data: Vec<u8>) -> Message {
    match k {
        0 => Message::Text(String::from_utf8_lossy(&data).to_string()),
        1 => Message::Binary(data),
        2 => Message::Ping(Some(data)),
        3 => Message::Pong(Some(data)),
        4 => Message::Ping(None),
        _ => Message::Pong(None),
    }
}

/// one read, reported; what it returned
fn next(ws: &mut WebSocket) -> Option<Result<Message, NextMessageError>> {
    obs(&[b"reading"]);
    let r = ws.next();
    match &r {
        Some(Ok(m)) => {
            let (k, d) = kind(m);
            obs(&[b"msg", k, d]);
        }
        Some(Err(NextMessageError::ClientError)) => obs(&[b"end", b"error"]),
        Some(Err(NextMessageError::ConnectionClosed)) => obs(&[b"end", b"closed"]),
        None => obs(&[b"end", b"none"]),
    }
    r
}

fn send(ws: &WebSocket, m: Message) -> bool {
    let ok = ws.send(m).is_ok();
    obs(&[b"sent", if ok { b"ok" } else { b"err" }]);
    ok
}

fn writer(ws: WebSocket, ops: Vec<(u8, u32, Vec<u8>)>) {
    for (op, arg, data) in ops {
        match op {
            1 => {
                if !send(&ws, message(arg, data)) {
                    break;
                }
            }
            4 => lunatic::sleep(Duration::from_millis(arg as u64)),
            _ => {}
        }
    }
    obs(&[b"writer-done"]);
}

pub fn handle(req: Request, stream: Stream, state: String) -> UsedStream {
    go_on(req, Conn::Puck(stream), state)
}

pub fn go_on(req: Request, stream: Conn, state: String) -> UsedStream {
    let plan = plan_of(&req);
    observe_req(98, &req, &state);
    let ws = match stream.upgrade(&req) {
        Ok(ws) => {
            obs(&[b"upgraded"]);
            ws
        }
        Err(u) => {
            obs(&[b"refused"]);
            return u;
        }
    };
    go(ws, plan.ops)
}

fn go(mut ws: WebSocket, ops: Vec<(u8, u32, Vec<u8>)>) -> UsedStream {
    let mut i = 0;
    while i < ops.len() {
        let (op, arg, data) = ops[i].clone();
        i += 1;
        match op {
            // read `arg` times
            0 => {
                for _ in 0..arg {
                    next(&mut ws);
                }
            }
            // send
            1 => {
                send(&ws, message(arg, data));
            }
            // read until the first error, echoing data messages; then `arg` more reads
            2 => {
                loop {
                    match next(&mut ws) {
                        Some(Ok(Message::Text(s))) => {
                            send(&ws, Message::Text(format!("{}{}", String::from_utf8_lossy(&data), s)));
                        }
                        Some(Ok(Message::Binary(b))) => {
                            let mut v = data.clone();
                            v.extend(b);
                            send(&ws, Message::Binary(v));
                        }
                        Some(Ok(_)) => {}
                        _ => break,
                    }
                }
                for _ in 0..arg {
                    next(&mut ws);
                }
            }
            // close and stop
            3 => {
                let r = ws.close();
                obs(&[b"closed", if r.is_ok() { b"ok" } else { b"err" }]);
                return r.unwrap_or_else(|_| UsedStream::empty());
            }
            4 => lunatic::sleep(Duration::from_millis(arg as u64)),
            // the next `arg` operations are done by another process on a copy of the socket
            5 => {
                let n = (arg as usize).min(ops.len() - i);
                let ops = ops[i..i + n].to_vec();
                i += n;
                let copy = ws.make_copy();
                let _ = Process::spawn((copy, ops), |(ws, ops), _: Mailbox<()>| writer(ws, ops));
            }
            6 => break,
            7 => panic!("plan"),
            // read until the first error, without replying; then `arg` more reads
            8 => {
                while let Some(Ok(_)) = next(&mut ws) {}
                for _ in 0..arg {
                    next(&mut ws);
                }
            }
            // the socket moves to another process, which goes on with the remaining operations
            9 => {
                let ops = ops[i..].to_vec();
                let _ = Process::spawn((ws, ops), |(ws, ops), _: Mailbox<()>| {
                    let _ = go(ws, ops);
                });
                obs(&[b"moved"]);
                return UsedStream::empty();
            }
            // go on with a copy
            10 => ws = ws.make_copy(),
            _ => {}
        }
    }
    drop(ws);
    obs(&[b"done"]);
    UsedStream::empty()
}
