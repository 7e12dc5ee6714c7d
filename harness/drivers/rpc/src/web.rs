//! The client side spoken by hand: HTTP requests and websocket frames over TCP.
use drvlib::patience;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::{Duration, Instant};

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn base64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}

/// Sends a request and returns (status, head, stream, rest of what was read).
fn send(addr: SocketAddr, head: &str, body: &[u8], limit: Duration) -> std::io::Result<(u16, Vec<u8>, TcpStream)> {
    let mut s = TcpStream::connect(addr)?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(limit))?;
    s.write_all(head.as_bytes())?;
    s.write_all(body)?;
    let mut buf = vec![];
    let mut b = [0u8; 1];
    while !buf.ends_with(b"\r\n\r\n") {
        if s.read(&mut b)? == 0 {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        buf.push(b[0]);
    }
    let status = std::str::from_utf8(&buf[9..12]).expect("driver: status").parse().expect("driver: status");
    Ok((status, buf, s))
}
fn auth(header: Option<&[u8]>) -> String {
    header.map(|h| format!("Authorization: {}\r\n", String::from_utf8(h.to_vec()).expect("driver: header"))).unwrap_or_default()
}
pub fn post(addr: SocketAddr, header: Option<&[u8]>, method: &str) -> std::io::Result<(u16, String)> {
    let body = format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"{method}\",\"params\":[]}}");
    let head = format!("POST / HTTP/1.1\r\nHost: {addr}\r\nContent-Type: application/json\r\nConnection: close\r\n{}Content-Length: {}\r\n\r\n", auth(header), body.len());
    let (st, _, mut s) = send(addr, &head, body.as_bytes(), patience(20))?;
    let mut rest = vec![];
    s.read_to_end(&mut rest)?;
    Ok((st, String::from_utf8_lossy(&rest).into_owned()))
}

pub struct Ws {
    s: TcpStream,
    buf: Vec<u8>,
}
impl Ws {
    pub fn open(addr: SocketAddr, header: Option<&[u8]>) -> std::io::Result<Result<Ws, u16>> {
        let head = format!("GET / HTTP/1.1\r\nHost: {addr}\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n{}\r\n", auth(header));
        let (st, _, s) = send(addr, &head, b"", patience(20))?;
        Ok(if st == 101 { Ok(Ws { s, buf: vec![] }) } else { Err(st) })
    }
    pub fn send(&mut self, op: u8, d: &[u8]) -> std::io::Result<()> {
        let mut f = vec![0x80 | op];
        if d.len() < 126 {
            f.push(0x80 | d.len() as u8);
        } else {
            f.push(0x80 | 126);
            f.extend((d.len() as u16).to_be_bytes());
        }
        f.extend([0, 0, 0, 0]);
        f.extend(d);
        self.s.write_all(&f)
    }
    fn frame(&mut self) -> Option<(u8, Vec<u8>)> {
        let b = &self.buf;
        if b.len() < 2 {
            return None;
        }
        let (h, n) = match b[1] & 127 {
            126 if b.len() >= 4 => (4, u16::from_be_bytes([b[2], b[3]]) as usize),
            127 if b.len() >= 10 => (10, u64::from_be_bytes(b[2..10].try_into().expect("8")) as usize),
            126 | 127 => return None,
            n => (2, n as usize),
        };
        if b.len() < h + n {
            return None;
        }
        let op = b[0] & 15;
        let rest = self.buf.split_off(h + n);
        let d = std::mem::replace(&mut self.buf, rest)[h..].to_vec();
        Some((op, d))
    }
    /// The next text message, None when nothing comes within the limit, Err when the connection is closed.
    pub fn recv(&mut self, limit: Duration) -> Result<Option<String>, ()> {
        let end = Instant::now() + limit;
        loop {
            if let Some((op, d)) = self.frame() {
                match op {
                    1 => return Ok(Some(String::from_utf8(d).expect("driver: text frame"))),
                    8 => return Err(()),
                    9 => self.send(10, &d).map_err(|_| ())?,
                    _ => {}
                }
                continue;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Ok(None);
            }
            self.s.set_read_timeout(Some(left)).map_err(|_| ())?;
            let mut b = [0u8; 65536];
            match self.s.read(&mut b) {
                Ok(0) => return Err(()),
                Ok(n) => self.buf.extend(&b[..n]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                Err(_) => return Err(()),
            }
        }
    }
}
