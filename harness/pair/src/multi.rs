//! C26: several sudo processes share one socket directory; the harness
//! decides which one moves next.

use crate::ctrl::*;
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::props;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use vcore::{Check, Outcome, Tier, B};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { pub sessions: Vec<Case>, pub sched: Vec<u16> }

pub struct C26(pub Option<World>);

fn session() -> BoxedStrategy<Case> {
    let pair = prop_oneof![
        4 => yes(),
        2 => any_pair(),
        1 => Just(Pair { wait: vec![WaitAct::Sigint], ..Pair::default() }),
        1 => Just(Pair { read: vec![ReadAct::Sigint], ..Pair::default() }),
    ];
    (plain_paired(), pair, any::<bool>(), ops(300, 0..4), prop_oneof![5 => Just(vec![]), 1 => step_fault().prop_map(|f| vec![f])], prop_oneof![4 => Just(false), 1 => Just(true)], fs_ok(), proc_ok())
        .prop_map(|(env, pair, release, ops, faults, stale, fs, proc_)| {
            let mut c = Case { pair, release, ops, faults, proc_: Proc { fill: proc_.fill.min(40), ..proc_ }, ..Case::new(env) };
            c.fs.log = fs.log;
            c.fs.tty = fs.tty;
            c.fs.pair_tpl = Tpl::File("%u %p %C?".into());
            if stale { c.fs.pre = Pre::Stale }
            c
        }).boxed()
}

impl Check for C26 {
    type Case = Many;
    fn id(&self) -> &'static str { "C26" }
    fn rule(&self) -> &'static str { "at least two sessions waited for a pair at the same time" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["concurrent sudo processes have distinct pids", "interleavings are explored at the granularity of blocking calls and callbacks"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(6000, 150_000) }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Many> {
        (vec((session(), any::<u8>()), 2..t.pick(5, 8)), vec(any::<u16>(), 0..60)).prop_map(|(v, sched)| {
            let mut sessions: Vec<Case> = vec![];
            for (mut c, k) in v {
                if let (Some(p), true) = (sessions.last(), k & 3 != 0) {
                    // same user, neighbouring or confusable process ids
                    let uid = p.env.uid;
                    if k & 1 == 1 { c.env.uid = uid; c.env = c.env.clone().paired(match p.env.target() { Target::Group(_) => PairKind::Group, _ => PairKind::User }) }
                    c.env.pid = match k >> 2 & 3 { 0 => p.env.pid.wrapping_add(1), 1 => p.env.pid.wrapping_mul(10).wrapping_add(1), 2 => p.env.pid / 10, _ => c.env.pid } & 0x3fff_ffff;
                }
                c.env.pid = (c.env.pid & 0x3fff_ffff).max(1);
                while sessions.iter().any(|s| s.env.pid == c.env.pid) { c.env.pid += 1 }
                sessions.push(c);
            }
            Many { sessions, sched }
        }).boxed()
    }
    fn run(&mut self, m: &Many) -> Outcome {
        let w = self.0.get_or_insert_with(World::new);
        let mut o = Outcome::new(false);
        let common = w.scratch();
        let mut ss: Vec<Sess> = m.sessions.iter().map(|c| {
            let mut c = c.clone();
            c.fs.dir_name = Some(B(common.as_os_str().as_bytes().to_vec()));
            Sess::start(w, &c)
        }).collect();
        let n = ss.len();
        let mut pending: Vec<Option<Ev>> = vec![None; n];
        let mut inode: Vec<Option<u64>> = vec![None; n];
        let mut over = vec![false; n];
        let mut k = 0;
        let mut most = 0;
        loop {
            for i in 0..n {
                if over[i] || pending[i].is_some() { continue }
                match ss[i].next() {
                    Happened::Ev(e) => pending[i] = Some(e),
                    Happened::Gone(e) => { ss[i].run.end = e; over[i] = true }
                }
            }
            let waiting: Vec<usize> = (0..n).filter(|i| !over[*i] && !ss[*i].run.connected && pending[*i].map_or(false, |e| e.ty == EV_SYNC)).collect();
            most = most.max(waiting.len());
            for &i in &waiting {
                let nd = node(&ss[i].place.sock);
                let ok = nd.as_ref().map_or(false, |x| x.kind == libc::S_IFSOCK && inode[i].map_or(true, |old| old == x.ino));
                o.check(ok, || format!("session {} (uid {} pid {}) is waiting but its socket was removed or replaced by another session", i, m.sessions[i].env.uid, m.sessions[i].env.pid));
                inode[i] = nd.map(|x| x.ino);
            }
            let live: Vec<usize> = (0..n).filter(|i| !over[*i]).collect();
            if live.is_empty() { break }
            let i = live[m.sched.get(k).copied().unwrap_or(k as u16) as usize % live.len()];
            k += 1;
            if let Some(e) = pending[i].take() {
                if let Some(end) = ss[i].step(e) { ss[i].run.end = end; over[i] = true }
            }
        }
        o.nontrivial = most >= 2;
        o.class(format!("{} sessions waiting at once", most));
        let mut runs = vec![];
        for mut s in ss { s.collect(); runs.push((s.case.clone(), s.end(w))) }
        let left: Vec<_> = listing(&common).into_keys().collect();
        let _ = std::fs::remove_dir_all(&common);
        let mut kept = false;
        for (i, (c, r)) in runs.iter().enumerate() {
            o.class_if(r.open == 1, "opened");
            o.class_if(r.open != 1, "refused");
            o.class_if(r.sigints > 0, "interrupted");
            let mut one = props::outcome_of(c, r);
            kept |= c.fs.pre == Pre::Stale && c.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && f.cls == C_STAT);
            match one.verdict.clone() {
                vcore::Verdict::Fail(m) => o.fail(format!("session {}: {}", i, m)),
                vcore::Verdict::Inconclusive(m) => o.inconclusive(m),
                _ => (),
            }
            one.classes.clear();
        }
        o.check(kept || left.is_empty(), || format!("files left in the socket directory: {:?}", left.iter().map(|b| vcore::bytes::show(b)).collect::<Vec<_>>()));
        o
    }
}
