//! Send/receive scripts on either network, with a global log of what happened.

use crate::proto::{addresses, Net};
use mcrt::{Cfg, Outcome, World};
use scalable_mpc::protocol::network::{setup_local_network, setup_tcp_network, Network, Recipient, SendMessage, Stats};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub from: usize,
    /// None: everybody.
    pub to: Option<usize>,
    pub id: Vec<u8>,
    pub data: Vec<u8>,
}

impl Msg {
    pub fn reaches(&self, p: usize) -> bool {
        self.to.map_or(true, |t| t == p)
    }
    pub fn send(&self, net: &Network) {
        net.send(SendMessage {
            proto_id: self.id.clone(),
            to: match self.to {
                Some(t) => Recipient::One(t as u16),
                None => Recipient::All,
            },
            data: self.data.clone(),
        })
    }
    pub fn short(&self) -> String {
        let to = self.to.map_or("*".to_string(), |t| t.to_string());
        format!("{}>{}:{}/{}", self.from, to, self.id.len(), self.data.len())
    }
}

/// How a party asks for its messages.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ask {
    /// One task per identifier.
    Parallel,
    /// One task, identifiers in order, all messages of one before the next.
    Forward,
    Backward,
    /// One task, one message of each identifier in turn.
    Turns,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Sent(usize),
    Got { party: usize, asked: Vec<u8>, from: usize, id: Vec<u8>, data: Vec<u8> },
    Stat { party: usize, since: usize, per: Vec<(u64, u64)>, total: (u64, u64) },
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

pub struct Played {
    pub out: Outcome,
    pub log: Vec<Ev>,
    /// Receivers that ended.
    pub extra: Vec<Ev>,
    pub stats: Vec<(Vec<(u64, u64)>, (u64, u64))>,
}

pub async fn read_stats(n: usize, st: &Stats) -> (Vec<(u64, u64)>, (u64, u64)) {
    let mut per = vec![];
    for i in 0..n {
        per.push(st.party(i as u16).await);
    }
    (per, st.total().await)
}

/// Networks without any choice during set-up.
pub fn set_up(w: &World, net: Net, n: usize) -> Result<Vec<(Stats, Network)>, (Outcome, String)> {
    let slots: Arc<Mutex<Vec<Option<(Stats, Network)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    match net {
        Net::Tcp => {
            for i in 0..n {
                let (a, s) = (addresses(n), slots.clone());
                w.spawn_root(i as u32, async move {
                    let x = setup_tcp_network(i as u16, &a).await;
                    s.lock().unwrap()[i] = Some(x);
                });
            }
        }
        Net::Local => {
            let s = slots.clone();
            w.spawn_root(0, async move {
                *s.lock().unwrap() = setup_local_network(n as u16).await.into_iter().map(Some).collect();
            });
        }
    }
    let mut out = w.run(true);
    let got = slots.lock().unwrap().iter().filter(|s| s.is_some()).count();
    if out.panics.is_empty() && got != n {
        out.panics.push((0, format!("{got} ends of a network for {n} parties")));
    }
    if let Err(e) = crate::finished(&out) {
        return Err((out, format!("set-up: {e}")));
    }
    // Let the routers reach their waiting points.
    w.run(false);
    let v: Vec<_> = slots.lock().unwrap().iter_mut().map(|s| s.take()).collect();
    Ok(v.into_iter().map(|s| s.expect("set-up finished")).collect())
}

/// Plays a script: every party sends its messages in order from one task and receives exactly
/// what it is due.  When everything is quiet, further requests under every identifier are made at
/// every party; whatever they get is `extra`.
pub fn play(cfg: Cfg, net: Net, n: usize, msgs: &[Msg], ask: &[Ask], probe: bool, stats: bool) -> Played {
    let mut c0 = cfg.clone();
    c0.kinds = 0;
    c0.policy = mcrt::Policy::Fifo;
    c0.io_chunk = mcrt::IoChunk::Full;
    let w = World::new(c0);
    let nets = match set_up(&w, net, n) {
        Ok(v) => v,
        Err((out, _)) => {
            w.teardown();
            return Played { out, log: vec![], extra: vec![], stats: vec![] };
        }
    };
    w.set_cfg(|c| {
        c.kinds = cfg.kinds;
        c.policy = cfg.policy.clone();
        c.io_chunk = cfg.io_chunk;
    });
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut ids: Vec<Vec<u8>> = msgs.iter().map(|m| m.id.clone()).collect();
    ids.sort();
    ids.dedup();
    for p in 0..n {
        let mine: Vec<(usize, Msg)> = msgs.iter().cloned().enumerate().filter(|(_, m)| m.from == p).collect();
        let (net_, log_) = (nets[p].1.clone(), log.clone());
        if !mine.is_empty() {
            w.spawn_root(p as u32, async move {
                for (i, m) in mine {
                    log_.lock().unwrap().push(Ev::Sent(i));
                    m.send(&net_);
                    tokio::task::yield_now().await;
                }
            });
        }
        let due: Vec<(Vec<u8>, usize)> = ids.iter().map(|id| (id.clone(), msgs.iter().filter(|m| m.reaches(p) && m.id == *id).count())).filter(|x| x.1 > 0).collect();
        let plans: Vec<Vec<Vec<u8>>> = match ask[p % ask.len()] {
            Ask::Parallel => due.iter().map(|(i, k)| vec![i.clone(); *k]).collect(),
            Ask::Forward => vec![due.iter().flat_map(|(i, k)| vec![i.clone(); *k]).collect()],
            Ask::Backward => vec![due.iter().rev().flat_map(|(i, k)| vec![i.clone(); *k]).collect()],
            Ask::Turns => {
                let mut v = vec![];
                for r in 0.. {
                    let mut any = false;
                    for (i, k) in &due {
                        if r < *k {
                            v.push(i.clone());
                            any = true;
                        }
                    }
                    if !any {
                        break;
                    }
                }
                vec![v]
            }
        };
        for plan in plans {
            let (st_, net_, log_) = (nets[p].0.clone(), nets[p].1.clone(), log.clone());
            w.spawn_root(p as u32, async move {
                for id in plan {
                    let m = net_.recv(id.clone()).await;
                    log_.lock().unwrap().push(Ev::Got { party: p, asked: id, from: m.from as usize, id: m.proto_id, data: m.data });
                    if stats {
                        let since = log_.lock().unwrap().len();
                        let (per, total) = read_stats(n, &st_).await;
                        log_.lock().unwrap().push(Ev::Stat { party: p, since, per, total });
                    }
                }
            });
        }
    }
    let mut out = w.run(false);
    // From here on nothing is varied.
    w.set_cfg(|c| {
        c.kinds = 0;
        c.policy = mcrt::Policy::Fifo;
    });
    let extra: Log = Arc::new(Mutex::new(vec![]));
    let finals: Arc<Mutex<Vec<(Vec<(u64, u64)>, (u64, u64))>>> = Arc::new(Mutex::new(vec![]));
    let ended = out.unfinished_roots.is_empty() && out.panics.is_empty() && !out.step_limit;
    if ended {
        for p in 0..n {
            let (st_, f_) = (nets[p].0.clone(), finals.clone());
            w.spawn_root(p as u32, async move {
                let x = read_stats(n, &st_).await;
                f_.lock().unwrap().push(x);
            });
        }
        w.run(false);
    }
    if ended && probe {
        for p in 0..n {
            for id in &ids {
                let (net_, x_, id) = (nets[p].1.clone(), extra.clone(), id.clone());
                w.spawn_root(p as u32, async move {
                    let m = net_.recv(id.clone()).await;
                    x_.lock().unwrap().push(Ev::Got { party: p, asked: id, from: m.from as usize, id: m.proto_id, data: m.data });
                });
            }
        }
        let o2 = w.run(false);
        out.panics = o2.panics;
        out.steps = o2.steps;
        out.step_limit |= o2.step_limit;
    }
    let p = Played {
        out,
        log: std::mem::take(&mut *log.lock().unwrap()),
        extra: std::mem::take(&mut *extra.lock().unwrap()),
        stats: std::mem::take(&mut *finals.lock().unwrap()),
    };
    drop(nets);
    w.teardown();
    p
}

/// Each message once, at its addressees only, intact, in sending order per sender and identifier.
pub fn judge_delivery(n: usize, msgs: &[Msg], pl: &Played) -> Result<(), String> {
    crate::finished(&pl.out)?;
    for p in 0..n {
        let mut ids: Vec<&Vec<u8>> = msgs.iter().map(|m| &m.id).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            for s in 0..n {
                let want: Vec<&Vec<u8>> = msgs.iter().filter(|m| m.reaches(p) && m.id == *id && m.from == s).map(|m| &m.data).collect();
                let got: Vec<&Vec<u8>> = pl
                    .log
                    .iter()
                    .filter_map(|e| match e {
                        Ev::Got { party, asked, from, data, .. } if *party == p && asked == id && *from == s => Some(data),
                        _ => None,
                    })
                    .collect();
                if want != got {
                    return Err(format!("party {p}, identifier {}, sender {s}: received {}, sent {}", show(id), list(&got), list(&want)));
                }
            }
        }
    }
    for e in &pl.log {
        if let Ev::Got { party, asked, id, .. } = e {
            if asked != id {
                return Err(format!("party {party} asked for identifier {} and got a message of {}", show(asked), show(id)));
            }
        }
    }
    if let Some(Ev::Got { party, from, id, data, .. }) = pl.extra.first() {
        return Err(format!("party {party} gets an additional message from {from} under {}: {}", show(id), show(data)));
    }
    Ok(())
}

fn show(b: &[u8]) -> String {
    if b.len() <= 8 {
        format!("{b:?}")
    } else {
        format!("{:?}.. ({} bytes)", &b[..6], b.len())
    }
}

fn list(v: &[&Vec<u8>]) -> String {
    v.iter().map(|b| show(b)).collect::<Vec<_>>().join(", ")
}

/// All scripts of exactly `k` messages between `n` parties over the given identifiers, up to the
/// order of messages of different senders (which the schedules cover).  Payloads are all different.
pub fn scripts(n: usize, k: usize, ids: &[Vec<u8>]) -> Vec<Vec<Msg>> {
    let mut one = vec![];
    for from in 0..n {
        for to in std::iter::once(None).chain((0..n).map(Some)) {
            for id in ids {
                one.push(Msg { from, to, id: id.clone(), data: vec![] });
            }
        }
    }
    let mut out = vec![];
    let mut pick = vec![];
    fn rec(one: &[Msg], k: usize, pick: &mut Vec<usize>, out: &mut Vec<Vec<Msg>>) {
        if pick.len() == k {
            let mut v: Vec<Msg> = pick.iter().map(|i| one[*i].clone()).collect();
            for (i, m) in v.iter_mut().enumerate() {
                // distinct lengths and contents; the first payload is empty
                m.data = (0..(1usize << i) - 1).map(|j| (i * 16 + j + 1) as u8).collect();
            }
            out.push(v);
            return;
        }
        for i in 0..one.len() {
            if let Some(l) = pick.last() {
                if one[i].from < one[*l].from {
                    continue;
                }
            }
            pick.push(i);
            rec(one, k, pick, out);
            pick.pop();
        }
    }
    rec(&one, k, &mut pick, &mut out);
    out
}

/// What one party of many ends up with: messages by sender and its readings per sender.
pub type Share = (Vec<(usize, Vec<u8>)>, Vec<(u64, u64)>);

/// Messages among very many parties: the first, middle and last ones write to everyone and to
/// their neighbours.  Everything is read when it is quiet.
pub fn crowd(cfg: Cfg, net: Net, n: usize) -> (Outcome, Vec<Msg>, Vec<Option<Share>>) {
    let mut msgs = vec![];
    for from in [0, 1, 2, 127, 128, 254, 255, 256, n - 2, n - 1] {
        if from < n && msgs.iter().all(|m: &Msg| m.from != from) {
            for (k, to) in [None, Some((from + 1) % n), Some((from + n - 1) % n), Some((from + 256) % n), Some(from), None].into_iter().enumerate() {
                msgs.push(Msg { from, to, id: vec![9], data: vec![k as u8; 1 + (3 * from + k) % 700] });
            }
        }
    }
    let run = crate::proto::parties(cfg, net, n, |i, net, stats| {
        let mine: Vec<Msg> = msgs.iter().filter(|m| m.from == i).cloned().collect();
        let due = msgs.iter().filter(|m| m.reaches(i)).count();
        async move {
            for m in &mine {
                m.send(&net);
            }
            let mut got = vec![];
            for _ in 0..due {
                let m = net.recv(vec![9]).await;
                got.push((m.from as usize, m.data));
            }
            tokio::time::sleep(std::time::Duration::from_secs(60)).await;
            (got, read_stats(n, &stats).await.0)
        }
    });
    (run.out, msgs, run.vals)
}
