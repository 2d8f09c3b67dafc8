//! Simulated TCP: listeners by port, byte pipes with "kernel" buffers that survive the sender.

use crate::{expect_current, Inner, IoChunk, Kind, World};
use std::collections::{HashMap, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub(crate) struct Net {
    listeners: HashMap<(u32, u16), Arc<Mutex<Listener>>>,
    /// Machines: address -> group.  Addresses not listed are this machine (all groups).
    hosts: HashMap<IpAddr, u32>,
    pub(crate) next_port: u16,
    /// Every pipe ever made, for observation.
    pipes: Vec<Arc<Mutex<Pipe>>>,
    /// All writes in their order, when streams are recorded.
    writes: Vec<(u32, u32, usize)>,
}

pub struct Listener {
    group: u32,
    at: IpAddr,
    open: bool,
    backlog: VecDeque<Stream>,
    waker: Option<Waker>,
}

pub struct Pipe {
    pub from: u32,
    pub to: u32,
    buf: VecDeque<u8>,
    closed_w: bool,
    closed_r: bool,
    cap: usize,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    pub log: Vec<u8>,
    pub total: u64,
    pub delivered: u64,
    /// The connection breaks after this many bytes: the reader then finds the end of the stream,
    /// the writer does not notice.
    cut: Option<u64>,
}

/// One end of a connection.
pub struct Stream {
    pub rd: Arc<Mutex<Pipe>>,
    pub wr: Arc<Mutex<Pipe>>,
    pub local: u16,
    pub peer: u16,
}

fn pipe(i: &mut Inner, from: u32, to: u32) -> Arc<Mutex<Pipe>> {
    let p = Arc::new(Mutex::new(Pipe {
        from,
        to,
        buf: VecDeque::new(),
        closed_w: false,
        closed_r: false,
        cap: i.cfg.pipe_cap,
        rwaker: None,
        wwaker: None,
        log: vec![],
        total: 0,
        delivered: 0,
        cut: None,
    }));
    i.net.pipes.push(p.clone());
    p
}

/// Listens at one address of this machine, or at all of them.
pub fn listen(at: SocketAddr) -> Result<(u16, Arc<Mutex<Listener>>), std::io::Error> {
    let w = expect_current();
    let mut i = w.lock();
    let (at, port) = (at.ip(), at.port());
    let port = if port == 0 {
        i.net.next_port += 1;
        40000 + i.net.next_port
    } else {
        port
    };
    let group = i.cur_group;
    let shared = i.net.hosts.is_empty();
    if !at.is_unspecified() && !at.is_loopback() && i.net.hosts.get(&at) != Some(&group) {
        return Err(std::io::ErrorKind::AddrNotAvailable.into());
    }
    for ((g, p), l) in i.net.listeners.iter() {
        if *p == port && (shared || *g == group) && l.lock().unwrap().open {
            return Err(std::io::ErrorKind::AddrInUse.into());
        }
    }
    let l = Arc::new(Mutex::new(Listener { group, at, open: true, backlog: VecDeque::new(), waker: None }));
    i.net.listeners.insert((group, port), l.clone());
    Ok((port, l))
}

pub fn connect(addr: SocketAddr) -> Result<Stream, std::io::Error> {
    let w = expect_current();
    let mut i = w.lock();
    let port = addr.port();
    let host = match i.net.hosts.get(&addr.ip()) {
        Some(h) => Some(*h),
        None if addr.ip().is_loopback() && !i.net.hosts.is_empty() => Some(i.cur_group),
        None => None,
    };
    let here = |at: IpAddr| at.is_unspecified() || at == addr.ip();
    let found = i
        .net
        .listeners
        .iter()
        .filter(|((g, p), l)| *p == port && host.map_or(true, |h| h == *g) && l.lock().map(|l| l.open && here(l.at)).unwrap())
        .map(|(_, l)| l.clone())
        .next();
    let l = match found {
        Some(l) => l,
        None => return Err(std::io::ErrorKind::ConnectionRefused.into()),
    };
    let mut lg = l.lock().unwrap();
    if !lg.open {
        return Err(std::io::ErrorKind::ConnectionRefused.into());
    }
    // A loaded peer may refuse even though it listens.
    if i.choose(Kind::Connect, 2) == 1 {
        return Err(std::io::ErrorKind::ConnectionRefused.into());
    }
    i.net.next_port += 1;
    let eport = 50000u16.wrapping_add(i.net.next_port);
    let g = i.cur_group;
    let to = lg.group;
    let a = pipe(&mut i, g, to);
    let b = pipe(&mut i, to, g);
    lg.backlog.push_back(Stream { rd: a.clone(), wr: b.clone(), local: port, peer: eport });
    let wk = lg.waker.take();
    drop(lg);
    drop(i);
    if let Some(x) = wk {
        x.wake();
    }
    Ok(Stream { rd: b, wr: a, local: eport, peer: port })
}

pub fn poll_accept(l: &Arc<Mutex<Listener>>, cx: &mut Context<'_>) -> Poll<Stream> {
    let mut g = l.lock().unwrap();
    match g.backlog.pop_front() {
        Some(s) => Poll::Ready(s),
        None => {
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn close_listener(l: &Arc<Mutex<Listener>>) {
    let b = {
        let mut g = l.lock().unwrap();
        g.open = false;
        std::mem::take(&mut g.backlog)
    };
    for s in b {
        close_read(&s.rd);
        close_write(&s.wr);
    }
}

pub fn add_host(w: &World, ip: IpAddr, group: u32) {
    w.lock().net.hosts.insert(ip, group);
}

fn chunk(kind_read: bool, avail: usize) -> usize {
    let w = expect_current();
    let mut i = w.lock();
    match i.cfg.io_chunk {
        IoChunk::Full => avail,
        IoChunk::Max(m) => avail.min(m),
        IoChunk::ChooseRead => {
            if kind_read {
                avail - i.choose(Kind::Io, avail)
            } else {
                avail
            }
        }
        IoChunk::ChooseBoth => {
            let n = if avail > 2 { 3 } else { avail };
            match i.choose(Kind::Io, n) {
                0 => avail,
                1 => 1,
                _ => avail - 1,
            }
        }
    }
}

pub fn poll_read(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<std::io::Result<usize>> {
    let avail = {
        let mut g = p.lock().unwrap();
        if g.buf.is_empty() {
            if g.closed_w || g.cut.map_or(false, |c| g.delivered >= c) {
                return Poll::Ready(Ok(0));
            }
            g.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        g.buf.len().min(dst.len())
    };
    if avail == 0 {
        return Poll::Ready(Ok(0));
    }
    if crate::give_way() {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let k = chunk(true, avail);
    let wk = {
        let mut g = p.lock().unwrap();
        for d in dst.iter_mut().take(k) {
            *d = g.buf.pop_front().unwrap();
        }
        g.delivered += k as u64;
        g.wwaker.take()
    };
    if let Some(w) = wk {
        w.wake();
    }
    Poll::Ready(Ok(k))
}

pub fn poll_write(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, src: &[u8]) -> Poll<std::io::Result<usize>> {
    let room = {
        let mut g = p.lock().unwrap();
        if g.closed_r || g.closed_w {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        if src.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = g.cap.saturating_sub(g.buf.len());
        if room == 0 {
            g.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        room.min(src.len())
    };
    let k = chunk(false, room);
    let (from, to) = {
        let g = p.lock().unwrap();
        (g.from, g.to)
    };
    let rec = {
        let w = expect_current();
        let mut i = w.lock();
        let rec = i.cfg.record_streams;
        if rec {
            i.net.writes.push((from, to, k));
        }
        rec
    };
    let wk = {
        let mut g = p.lock().unwrap();
        let keep = match g.cut {
            Some(c) => (c.saturating_sub(g.total) as usize).min(k),
            None => k,
        };
        g.buf.extend(&src[..keep]);
        g.total += k as u64;
        if rec {
            g.log.extend_from_slice(&src[..k]);
        }
        g.rwaker.take()
    };
    if let Some(w) = wk {
        w.wake();
    }
    Poll::Ready(Ok(k))
}

pub fn close_write(p: &Arc<Mutex<Pipe>>) {
    let wk = {
        let mut g = p.lock().unwrap();
        g.closed_w = true;
        (g.rwaker.take(), g.wwaker.take())
    };
    if let Some(w) = wk.0 {
        w.wake();
    }
    if let Some(w) = wk.1 {
        w.wake();
    }
}

pub fn close_read(p: &Arc<Mutex<Pipe>>) {
    let wk = {
        let mut g = p.lock().unwrap();
        g.closed_r = true;
        g.wwaker.take()
    };
    if let Some(w) = wk {
        w.wake();
    }
}

pub(crate) fn close_group(w: &World, group: u32) {
    let (pipes, ls): (Vec<_>, Vec<_>) = {
        let i = w.lock();
        (i.net.pipes.clone(), i.net.listeners.values().cloned().collect())
    };
    for p in pipes {
        let (f, t) = {
            let g = p.lock().unwrap();
            (g.from, g.to)
        };
        if f == group {
            close_write(&p);
        }
        if t == group {
            close_read(&p);
        }
    }
    for l in ls {
        let g = l.lock().unwrap().group;
        if g == group {
            close_listener(&l);
        }
    }
}

/// Breaks the connection between two processes after `bytes` more bytes from `from` to `to`.
pub fn cut(w: &World, from: u32, to: u32, bytes: u64) {
    let pipes = w.lock().net.pipes.clone();
    for p in pipes {
        let wk = {
            let mut g = p.lock().unwrap();
            if g.from != from || g.to != to {
                continue;
            }
            g.cut = Some(g.total + bytes);
            g.rwaker.take()
        };
        if let Some(x) = wk {
            x.wake();
        }
    }
}

/// The writes on all connections in their order: (from, to, number of bytes).
pub fn writes(w: &World) -> Vec<(u32, u32, usize)> {
    w.lock().net.writes.clone()
}

/// Bytes written so far on every connection: (from, to, bytes, total).
pub fn streams(w: &World) -> Vec<(u32, u32, Vec<u8>, u64)> {
    w.lock()
        .net
        .pipes
        .iter()
        .map(|p| {
            let g = p.lock().unwrap();
            (g.from, g.to, g.log.clone(), g.total)
        })
        .collect()
}
