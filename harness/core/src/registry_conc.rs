//! C04: views under concurrent registration and dropping.
use std::any::Any;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Barrier};
use std::time::Duration;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CaseResult, Ctx, Obs};

use crate::arena::{arena, SLOTS};
use crate::registry::Placed;
use crate::util::addr;

const ALIVE: u64 = 0xA11E_A11E_A11E_A11E;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// A metric that knows whether it has been destroyed. Its memory outlives the
/// case, so a late look at it is harmless and visible.
struct Token {
    slot: usize,
    incarnation: u64,
    state: AtomicU64,
}
impl Token {
    fn new(slot: usize, incarnation: u64) -> Self {
        Token { slot, incarnation, state: AtomicU64::new(ALIVE) }
    }
}
impl Metric for Token {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.state.load(Ordering::SeqCst)))
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.state.store(DEAD, Ordering::SeqCst);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Churn {
    /// per writer: per slot it owns, whether the slot is boxed, and how often it registers again
    writers: Vec<Vec<(bool, u8)>>,
    readers: Vec<u8>,
    stable: u8,
    rounds: u32,
    /// spins between the steps of writers
    pace: u8,
    /// metrics that stay are registered again every so many steps (0: never)
    again: u8,
}

struct SlotState {
    /// incarnation whose registration has returned
    up: AtomicU64,
    /// incarnation whose drop has begun
    going: AtomicU64,
    /// incarnation whose drop has returned
    gone: AtomicU64,
}

#[derive(PartialEq, Clone, Debug)]
struct Item {
    addr: usize,
    name: String,
    slot: usize,
    incarnation: u64,
}

fn spin(n: u32) {
    for i in 0..n {
        if i % 16 == 15 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

/// Everything token-like in the view; Err if something in it is destroyed.
fn items(view: &Metrics, back: bool) -> Result<Vec<Item>, String> {
    let look = |e: &MetricEntry| -> Result<Option<Item>, String> {
        let Some(t) = e.metric().as_any().and_then(|a| a.downcast_ref::<Token>()) else {
            return Ok(None);
        };
        let st = t.state.load(Ordering::SeqCst);
        if st != ALIVE {
            return Err(format!("a held view reaches a destroyed metric (state {st:#x}, name {:?})", e.name()));
        }
        let name = e.name().to_string();
        let want = format!("t{}.{}", t.slot, t.incarnation);
        if !name.starts_with(&want) || e.metadata().get("slot") != Some(&t.slot.to_string()) {
            return Err(format!("entry {name:?} leads to metric {want:?}"));
        }
        Ok(Some(Item { addr: addr(e), name, slot: t.slot, incarnation: t.incarnation }))
    };
    let mut v = vec![];
    if back {
        for e in view.iter().rev() {
            v.extend(look(e)?);
        }
        v.reverse();
    } else {
        for e in view.iter() {
            v.extend(look(e)?);
        }
    }
    Ok(v)
}

fn build(slot: usize, inc: u64, suffix: &str) -> MetricBuilder {
    MetricBuilder::new(format!("t{slot}.{inc}{suffix}")).metadata("slot", slot.to_string())
}

enum H {
    _B(DynBoxedMetric<Token>),
    P(Placed<Token>),
}

fn churn(c: &Churn, obs: &mut Obs) -> CaseResult {
    let slots: usize = c.writers.iter().map(|w| w.len()).sum::<usize>() + c.stable as usize;
    let state: Vec<SlotState> = (0..slots).map(|_| SlotState { up: 0.into(), going: 0.into(), gone: 0.into() }).collect();
    let stop = AtomicBool::new(false);
    let views = AtomicU64::new(0);
    let changed = AtomicU64::new(0);
    let next_place = AtomicUsize::new(0);
    let go = Barrier::new(c.writers.len() + c.readers.len());
    // metrics that stay for the whole case
    let first_stable = slots - c.stable as usize;
    let stable: Vec<H> = (first_stable..slots)
        .map(|s| {
            let h = if s % 3 == 0 {
                H::_B(build(s, 1, "").build(Token::new(s, 1)))
            } else {
                let (m, e) = build(s, 1, "").build_pinned(Token::new(s, 1));
                let p = Placed::packed(s, m);
                p.pin().register(e);
                H::P(p)
            };
            state[s].up.store(1, Ordering::SeqCst);
            h
        })
        .collect();
    let fail: Vec<CaseResult> = std::thread::scope(|sc| {
        let mut hs = vec![];
        let mut base = 0;
        for w in &c.writers {
            let (state, go, next_place, stable) = (&state, &go, &next_place, &stable);
            let first = base;
            base += w.len();
            hs.push(sc.spawn(move || -> CaseResult {
                let places: Vec<usize> = w.iter().map(|_| next_place.fetch_add(1, Ordering::SeqCst)).collect();
                let mut held: Vec<Option<H>> = w.iter().map(|_| None).collect();
                let mut inc = 0u64;
                go.wait();
                for r in 0..c.rounds as usize {
                    let k = r % w.len();
                    let (boxed, again) = w[k];
                    let slot = first + k;
                    let st = &state[slot];
                    let listed = |inc: u64| -> Result<Vec<Item>, String> {
                        Ok(items(&metrics(), false)?.into_iter().filter(|i| i.slot == slot && i.incarnation == inc).collect())
                    };
                    match held[k].take() {
                        None => {
                            inc += 1;
                            let id = inc;
                            let (h, suffix) = if boxed {
                                (H::_B(build(slot, id, "").build(Token::new(slot, id))), String::new())
                            } else {
                                let (m, e) = build(slot, id, "").build_pinned(Token::new(slot, id));
                                let p = unsafe { Placed::new(arena().at(places[k] % SLOTS, 256), m) };
                                p.pin().register(e);
                                let mut s = String::new();
                                for a in 0..again % 3 {
                                    s = format!(" again{a}");
                                    p.pin().register(MetricBuilder::new(format!("t{slot}.{id}{s}")).into_entry());
                                }
                                (H::P(p), s)
                            };
                            st.up.store(id, Ordering::SeqCst);
                            if r % 3 == 0 {
                                let l = listed(id)?;
                                ensure_eq!(l.len(), 1, "entries of a metric just registered");
                                ensure_eq!(l[0].name, format!("t{slot}.{id}{suffix}"), "name of a metric just registered");
                            }
                            held[k] = Some(h);
                        }
                        Some(h) => {
                            let id = st.up.load(Ordering::SeqCst);
                            st.going.store(id, Ordering::SeqCst);
                            drop(h);
                            st.gone.store(id, Ordering::SeqCst);
                            if r % 3 == 0 {
                                ensure_eq!(listed(id)?.len(), 0, "entries of a metric whose drop has returned");
                            }
                        }
                    }
                    // those that stay are registered again, under new names
                    if c.again > 0 && r % c.again as usize == 0 && !stable.is_empty() {
                        let k = r % stable.len();
                        if let H::P(p) = &stable[k] {
                            let s = first_stable + k;
                            p.pin().register(MetricBuilder::new(format!("t{s}.1 r{r}")).into_entry());
                        }
                    }
                    spin(c.pace as u32);
                }
                for (k, h) in held.into_iter().enumerate() {
                    let st = &state[first + k];
                    st.going.store(st.up.load(Ordering::SeqCst), Ordering::SeqCst);
                    drop(h);
                }
                Ok(())
            }));
        }
        let rs: Vec<_> = c
            .readers
            .iter()
            .map(|pace| {
                let (state, go, stop, views, changed) = (&state, &go, &stop, &views, &changed);
                sc.spawn(move || -> CaseResult {
                    go.wait();
                    let mut last: Vec<Item> = vec![];
                    while !stop.load(Ordering::SeqCst) {
                        let gone: Vec<u64> = state.iter().map(|s| s.gone.load(Ordering::SeqCst)).collect();
                        let up: Vec<u64> = state.iter().map(|s| s.up.load(Ordering::SeqCst)).collect();
                        let view = metrics();
                        let going: Vec<u64> = state.iter().map(|s| s.going.load(Ordering::SeqCst)).collect();
                        let a = items(&view, false)?;
                        spin(*pace as u32 * 4);
                        let b = items(&view, *pace % 2 == 0)?;
                        let count = view.iter().count();
                        let again = view.iter().filter(|e| e.metric().as_any().is_some_and(|a| a.is::<Token>())).count();
                        drop(view);
                        ensure_eq!(b, a, "second iteration of one view");
                        ensure_eq!(again, a.len(), "entries counted in the view");
                        ensure!(count >= again, "count of the view");
                        for i in &a {
                            ensure!(
                                i.incarnation > gone[i.slot],
                                "a view contains {:?}, whose drop had returned before it was taken",
                                i.name
                            );
                        }
                        for s in 0..state.len() {
                            let n = a.iter().filter(|i| i.slot == s).count();
                            ensure!(n <= 1, "slot {s} listed {n} times in one view");
                            // registered before the view was taken, drop not begun after
                            if up[s] > going[s] {
                                let got = a.iter().any(|i| i.slot == s && i.incarnation == up[s]);
                                ensure!(got, "a metric registered for the whole time (slot {s}) is not in the view");
                            }
                        }
                        views.fetch_add(1, Ordering::Relaxed);
                        if a != last {
                            changed.fetch_add(1, Ordering::Relaxed);
                        }
                        last = a;
                        if *pace % 3 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let die = |p: Box<dyn Any + Send>| Err(format!("thread panicked: {}", vcommon::panic_text(&*p)));
        let mut out: Vec<CaseResult> = hs.into_iter().map(|h| h.join().unwrap_or_else(die)).collect();
        stop.store(true, Ordering::SeqCst);
        out.extend(rs.into_iter().map(|h| h.join().unwrap_or_else(die)));
        out
    });
    for f in fail {
        f?;
    }
    obs.extra_evals(views.load(Ordering::Relaxed));
    obs.nontrivial(changed.load(Ordering::Relaxed) >= 3);
    obs.label_if(changed.load(Ordering::Relaxed) >= 3, "readers saw at least three different listings");
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Act {
    BuildBoxed,
    RegisterPinned,
    ReRegister,
    DropBoxed,
    DropPinned,
    DropUnregistered,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blocked {
    acts: Vec<Act>,
    views: usize,
    present: u8,
    hold_ms: u64,
}

fn blocked(c: &Blocked, obs: &mut Obs) -> CaseResult {
    let _present: Vec<_> = (0..c.present as usize).map(|i| build(i, 9, "").build(Token::new(i, 9))).collect();
    // prepare what the actors need
    struct Ready {
        boxed: Option<DynBoxedMetric<Token>>,
        pinned: Option<Placed<Token>>,
    }
    let mut ready = vec![];
    for (i, a) in c.acts.iter().enumerate() {
        let slot = 50 + i;
        let mut r = Ready { boxed: None, pinned: None };
        match a {
            Act::BuildBoxed => {}
            Act::DropBoxed => r.boxed = Some(build(slot, 1, "").build(Token::new(slot, 1))),
            Act::RegisterPinned | Act::ReRegister | Act::DropPinned | Act::DropUnregistered => {
                let (m, e) = build(slot, 1, "").build_pinned(Token::new(slot, 1));
                let p = unsafe { Placed::new(arena().at(i, 256), m) };
                if matches!(a, Act::ReRegister | Act::DropPinned) {
                    p.pin().register(e);
                }
                r.pinned = Some(p);
            }
        }
        ready.push(r);
    }
    let mut views: Vec<Metrics> = (0..c.views).map(|_| metrics()).collect();
    let before = items(&views[0], false)?;
    let done: Vec<Arc<AtomicBool>> = c.acts.iter().map(|_| Arc::new(AtomicBool::new(false))).collect();
    let (tx, rx) = channel::<()>();
    let mut hs = vec![];
    for (i, (a, r)) in c.acts.iter().zip(ready).enumerate() {
        let (a, tx, done) = (*a, tx.clone(), done[i].clone());
        let slot = 50 + i;
        hs.push(std::thread::spawn(move || {
            let mut r = r;
            let built = build(slot, 1, " late");
            tx.send(()).unwrap();
            let mut keep = None;
            match a {
                Act::BuildBoxed => keep = Some(built.build(Token::new(slot, 1))),
                Act::RegisterPinned | Act::ReRegister => r.pinned.as_ref().unwrap().pin().register(built.into_entry()),
                Act::DropBoxed => drop(r.boxed.take()),
                Act::DropPinned | Act::DropUnregistered => drop(r.pinned.take()),
            }
            done.store(true, Ordering::SeqCst);
            (r.pinned, keep)
        }));
    }
    for _ in &c.acts {
        rx.recv().map_err(|_| "an actor died")?;
    }
    let mut fail = Ok(());
    for k in 0..c.views {
        std::thread::sleep(Duration::from_millis(c.hold_ms));
        for v in &views {
            for back in [false, true] {
                match items(v, back) {
                    Ok(i) if i == before => {}
                    Ok(i) => fail = Err(format!("the held view changed from {before:?} to {i:?}")),
                    Err(e) => fail = Err(e),
                }
            }
        }
        for (i, d) in done.iter().enumerate() {
            // dropping a never registered metric is free not to wait
            if d.load(Ordering::SeqCst) && !matches!(c.acts[i], Act::DropUnregistered) {
                fail = Err(format!("{:?} completed while {} view(s) were held", c.acts[i], c.views - k));
            }
        }
        views.pop();
    }
    let mut keep = vec![];
    for h in hs {
        keep.push(h.join().map_err(|p| format!("actor panicked: {}", vcommon::panic_text(&*p)))?);
    }
    fail?;
    // and afterwards they have taken effect
    let now = items(&metrics(), false)?;
    for (i, a) in c.acts.iter().enumerate() {
        let slot = 50 + i;
        let mine: Vec<&str> = now.iter().filter(|x| x.slot == slot).map(|x| x.name.as_str()).collect();
        let late = format!("t{slot}.1 late");
        let want: Vec<&str> = match a {
            Act::BuildBoxed | Act::RegisterPinned | Act::ReRegister => vec![&late],
            _ => vec![],
        };
        ensure_eq!(mine, want, "listing of the metric of {a:?} after the view was released");
    }
    drop(keep);
    obs.nontrivial(true);
    obs.label_if(c.views > 1, "several views held");
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule("(churn) 1-4 writers register, register again and drop metrics (boxed, and pinned at reused addresses whose memory survives so that a destroyed metric is recognised) while 1-4 readers hold views, iterate each twice and compare the entries with stamps the writers publish before and after each call; 0-6 metrics stay throughout, some of them registered again and again under new names. (blocked) a thread holds 1-3 views while 1-4 other threads attempt to register or drop; nothing may change or complete until release, everything must afterwards. (patience) as blocked, all kinds of attempts at once, the view held for up to seconds. Non-trivial: readers saw at least three different listings (churn); every blocked case. evaluations counts views examined.");
    ctx.assume("the operating system's scheduler picks the interleavings; an attempt that is not blocked is noticed if it completes within the time the view is held (2 ms to 1.1 s, 10 s in the thorough tier)");
    ctx.check_conc(
        "churn",
        ctx.cases(500, 16),
        (
            proptest::collection::vec(proptest::collection::vec((any::<bool>(), any::<u8>()), 1..5), 1..=4),
            proptest::collection::vec(0u8..60, 1..=4),
            0u8..6,
            prop_oneof![2 => 100u32..400, 1 => 800u32..2000],
            0u8..80,
            prop_oneof![1 => Just(0u8), 3 => 1u8..6],
        )
            .prop_map(|(writers, readers, stable, rounds, pace, again)| Churn { writers, readers, stable, rounds, pace, again }),
        churn,
    );
    let act = prop_oneof![
        Just(Act::BuildBoxed),
        Just(Act::RegisterPinned),
        Just(Act::ReRegister),
        Just(Act::DropBoxed),
        Just(Act::DropPinned),
        Just(Act::DropUnregistered),
    ];
    ctx.check_conc(
        "blocked",
        ctx.cases(600, 16),
        (proptest::collection::vec(act, 1..=4), 1usize..=3, 0u8..4, 2u64..7)
            .prop_map(|(acts, views, present, hold_ms)| Blocked { acts, views, present, hold_ms }),
        blocked,
    );
    // waiting must not be given up
    let holds = if ctx.thorough() { vec![60u64, 120, 600, 1100, 2200, 5500, 10_500] } else { vec![60u64, 120, 600, 1100] };
    let all = vec![Act::BuildBoxed, Act::RegisterPinned, Act::ReRegister, Act::DropBoxed, Act::DropPinned, Act::DropUnregistered];
    ctx.check_conc(
        "patience",
        ctx.cases(8, 3),
        (Just(all).prop_shuffle(), 0u8..4, prop::sample::select(holds)).prop_map(|(acts, present, hold_ms)| Blocked { acts, views: 1, present, hold_ms }),
        blocked,
    );
}
