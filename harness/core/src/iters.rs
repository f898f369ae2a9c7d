//! C05: the iterators against a VecDeque model.
use std::collections::VecDeque;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CaseResult, Ctx, Obs};

use crate::util::addr;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    ByRefTake(usize),
    Skip(usize),
    Find(usize),
    RFind(usize),
    Hint,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Terminal {
    Drop,
    Drain,
    DrainBack,
    Count,
    Fold,
    RFold,
    Last,
    Collect,
    RevCollect,
    ForEach,
    StepBy(usize),
    RevNth(usize),
    TryFold(usize),
}

fn step() -> impl Strategy<Value = Step> {
    let n = || prop_oneof![4 => 0usize..5, 3 => 5usize..45, 1 => Just(usize::MAX), 1 => Just(usize::MAX - 12), 1 => 60usize..90];
    prop_oneof![
        4 => Just(Step::Next),
        4 => Just(Step::NextBack),
        4 => n().prop_map(Step::Nth),
        4 => n().prop_map(Step::NthBack),
        1 => (0usize..6).prop_map(Step::ByRefTake),
        1 => (0usize..30).prop_map(Step::Skip),
        1 => (0usize..40).prop_map(Step::Find),
        1 => (0usize..40).prop_map(Step::RFind),
        1 => Just(Step::Hint),
    ]
}

fn terminal() -> impl Strategy<Value = Terminal> {
    prop_oneof![
        Just(Terminal::Drop),
        Just(Terminal::Drain),
        Just(Terminal::DrainBack),
        Just(Terminal::Count),
        Just(Terminal::Fold),
        Just(Terminal::RFold),
        Just(Terminal::Last),
        Just(Terminal::Collect),
        Just(Terminal::RevCollect),
        Just(Terminal::ForEach),
        (1usize..9).prop_map(Terminal::StepBy),
        (0usize..30).prop_map(Terminal::RevNth),
        (0usize..30).prop_map(Terminal::TryFold),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    dynamic: usize,
    steps: Vec<Step>,
    end: Terminal,
}

/// Drive `it` and a model over `all` with the same calls.
fn drive<'a, I>(it: I, all: Vec<usize>, c: &Case, exact: bool, obs: &mut Obs) -> CaseResult
where
    I: DoubleEndedIterator<Item = &'a MetricEntry>,
{
    let id = |e: Option<&MetricEntry>| e.map(addr);
    let mut it = it;
    let mut model: VecDeque<usize> = all.into();
    let hint = |it: &I, model: &VecDeque<usize>, what: &dyn std::fmt::Debug| -> CaseResult {
        let (lo, hi) = it.size_hint();
        let left = model.len();
        ensure!(
            lo <= left && hi.map_or(true, |h| h >= left),
            "size_hint after {what:?} is ({lo}, {hi:?}) with {left} entries to come"
        );
        if exact {
            ensure!(lo == left && hi == Some(left), "exact size_hint after {what:?} is ({lo}, {hi:?}), not {left}");
        }
        Ok(())
    };
    hint(&it, &model, &"creation")?;
    let (mut front, mut back) = (false, false);
    for s in &c.steps {
        match s {
            Step::Next => {
                front = true;
                ensure_eq!(id(it.next()), model.pop_front(), "next");
            }
            Step::NextBack => {
                back = true;
                ensure_eq!(id(it.next_back()), model.pop_back(), "next_back");
            }
            Step::Nth(n) => {
                front = true;
                obs.label_if(*n >= model.len(), "skip past the end");
                let k = (*n).min(model.len());
                model.drain(..k);
                ensure_eq!(id(it.nth(*n)), model.pop_front(), "nth({n})");
            }
            Step::NthBack(n) => {
                back = true;
                obs.label_if(*n >= model.len(), "skip past the end");
                let k = (*n).min(model.len());
                model.truncate(model.len() - k);
                ensure_eq!(id(it.nth_back(*n)), model.pop_back(), "nth_back({n})");
            }
            Step::ByRefTake(n) => {
                front = true;
                let got: Vec<_> = it.by_ref().take(*n).map(addr).collect();
                let k = (*n).min(model.len());
                let want: Vec<_> = model.drain(..k).collect();
                ensure_eq!(got, want, "take({n})");
            }
            Step::Skip(n) => {
                front = true;
                let k = (*n).min(model.len());
                model.drain(..k);
                ensure_eq!(id(it.by_ref().skip(*n).next()), model.pop_front(), "skip({n}).next");
            }
            Step::Find(i) => {
                let want = model.get(*i).copied();
                let got = id(it.by_ref().find(|e| Some(addr(e)) == want));
                let k = if want.is_some() { i + 1 } else { model.len() };
                model.drain(..k);
                ensure_eq!(got, want, "find of entry {i}");
            }
            Step::RFind(i) => {
                let want = model.len().checked_sub(i + 1).and_then(|j| model.get(j)).copied();
                let got = id(it.by_ref().rfind(|e| Some(addr(e)) == want));
                let k = if want.is_some() { i + 1 } else { model.len() };
                model.truncate(model.len() - k);
                ensure_eq!(got, want, "rfind of entry {i} from the back");
            }
            Step::Hint => {}
        }
        hint(&it, &model, s)?;
    }
    obs.nontrivial(front && back && !model.is_empty());
    obs.label_if(model.is_empty(), "exhausted by stepping");
    let rest: Vec<usize> = model.iter().copied().collect();
    let mut rev = rest.clone();
    rev.reverse();
    match &c.end {
        Terminal::Drop => {}
        Terminal::Drain => {
            for w in &rest {
                ensure_eq!(id(it.next()), Some(*w), "draining next");
            }
            for _ in 0..3 {
                ensure_eq!(id(it.next()), None, "next after exhaustion");
                ensure_eq!(id(it.next_back()), None, "next_back after exhaustion");
                ensure_eq!(id(it.nth(0)), None, "nth after exhaustion");
                ensure_eq!(id(it.nth_back(1)), None, "nth_back after exhaustion");
                hint(&it, &VecDeque::new(), &"exhaustion")?;
            }
        }
        Terminal::DrainBack => {
            for w in &rev {
                ensure_eq!(id(it.next_back()), Some(*w), "draining next_back");
            }
            for _ in 0..3 {
                ensure_eq!(id(it.next_back()), None, "next_back after exhaustion");
                ensure_eq!(id(it.next()), None, "next after exhaustion");
                hint(&it, &VecDeque::new(), &"exhaustion")?;
            }
        }
        Terminal::Count => ensure_eq!(it.count(), rest.len(), "count"),
        Terminal::Fold => {
            let got = it.fold(vec![], |mut v, e| {
                v.push(addr(e));
                v
            });
            ensure_eq!(got, rest, "fold");
        }
        Terminal::RFold => {
            let got = it.rfold(vec![], |mut v, e| {
                v.push(addr(e));
                v
            });
            ensure_eq!(got, rev, "rfold");
        }
        Terminal::Last => ensure_eq!(id(it.last()), rest.last().copied(), "last"),
        Terminal::Collect => ensure_eq!(it.map(addr).collect::<Vec<_>>(), rest, "collect"),
        Terminal::RevCollect => ensure_eq!(it.rev().map(addr).collect::<Vec<_>>(), rev, "rev().collect"),
        Terminal::ForEach => {
            let mut got = vec![];
            it.for_each(|e| got.push(addr(e)));
            ensure_eq!(got, rest, "for_each");
        }
        Terminal::StepBy(n) => {
            let want: Vec<_> = rest.iter().copied().step_by(*n).collect();
            ensure_eq!(it.step_by(*n).map(addr).collect::<Vec<_>>(), want, "step_by({n})");
        }
        Terminal::RevNth(n) => {
            ensure_eq!(id(it.rev().nth(*n)), rev.get(*n).copied(), "rev().nth({n})");
        }
        Terminal::TryFold(n) => {
            let mut got = vec![];
            let _: Result<(), ()> = it.try_fold((), |_, e| {
                got.push(addr(e));
                if got.len() > *n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            let k = (n + 1).min(rest.len());
            ensure_eq!(got, rest[..k].to_vec(), "try_fold stopping after {n}");
            ensure_eq!(it.map(addr).collect::<Vec<_>>(), rest[k..].to_vec(), "rest after try_fold");
        }
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule("Call sequences (0-12 steps of next/next_back/nth/nth_back/find/rfind/skip/take, then one consuming call) over all metrics and over the dynamic metrics, with 12 static and 0-40 dynamic metrics, against a double-ended queue holding the sequence a fresh iterator yields; the set of that sequence is checked independently. Non-trivial: the iterator was advanced from both ends and not exhausted before the consuming call.");
    let mix = |len: std::ops::Range<usize>| {
        (
            prop_oneof![1 => Just(0usize), 2 => 1usize..4, 2 => 4usize..40],
            proptest::collection::vec(step(), len),
            terminal(),
        )
            .prop_map(|(dynamic, steps, end)| Case { dynamic, steps, end })
    };
    let small = (
        0usize..3,
        proptest::collection::vec(
            prop_oneof![
                (0usize..16).prop_map(Step::Nth),
                (0usize..16).prop_map(Step::NthBack),
                Just(Step::Next),
                Just(Step::NextBack)
            ],
            0..4,
        ),
        terminal(),
    )
        .prop_map(|(dynamic, steps, end)| Case { dynamic, steps, end });
    let run = |c: &Case, obs: &mut Obs| -> CaseResult {
        let hold: Vec<_> = (0..c.dynamic).map(|i| MetricBuilder::new(format!("d{i}")).build(Counter::new())).collect();
        let mut want_dyn: Vec<usize> = hold.iter().map(|h| &**h as *const Counter as usize).collect();
        want_dyn.sort();
        let view = metrics();
        let dynamic: Vec<usize> = {
            let mut v = vec![];
            for e in view.dynamic_metrics() {
                v.push(addr(e));
            }
            v
        };
        let stat: Vec<usize> = view.static_metrics().iter().map(addr).collect();
        ensure_eq!(stat.len(), crate::statics::COUNT, "number of static metrics");
        let mut sorted = dynamic.clone();
        sorted.sort();
        ensure_eq!(sorted, want_dyn, "the dynamic metrics, once each");
        let mut all = vec![];
        for e in &view {
            all.push(addr(e));
        }
        let mut want: Vec<usize> = stat.iter().chain(dynamic.iter()).copied().collect();
        let mut got = all.clone();
        want.sort();
        got.sort();
        ensure_eq!(got, want, "the entries of a full iteration");
        ensure_eq!(view.iter().map(addr).collect::<Vec<_>>(), all, "iter and into_iter");
        drive(view.iter(), all.clone(), c, false, obs)?;
        drive((&view).into_iter(), all, c, false, obs)?;
        ensure_eq!(view.dynamic_metrics().len(), want_dyn.len(), "dynamic_metrics().len()");
        drive(view.dynamic_metrics(), dynamic, c, true, obs)?;
        Ok(())
    };
    ctx.check("steps", ctx.cases(450_000, 12), mix(0..12), run);
    ctx.check("few_steps", ctx.cases(300_000, 8), small, run);
}
