//! C20: the value allocator against a plain set of used integers.
use crate::engine::*;
use crate::{exhaustive, stage, CheckDef};
use mqtt_protocol_core::mqtt::connection::PacketIdManager;
use mqtt_protocol_core::mqtt::ValueAllocator;
use std::collections::BTreeSet;

pub fn defs() -> Vec<CheckDef> {
    vec![CheckDef {
        id: "C20",
        rule: "a case is a range, an integer type and a sequence of allocate/reserve/release/clear/query operations compared step by step with a set model (answers, smallest-first order, interval_count = number of maximal runs, drained contents); non-trivial = at least one value was released or reserved out of order so that the free set had more than one run, or the range was exhausted",
        assumptions: &["release is only called for values of the range (the documented precondition is an assertion)", "the run-length representation is observed through interval_count() and by draining a clone"],
        stages: vec![
            exhaustive("all-sequences-of-6-on-3-values", 2 * 262_144, all_short),
            stage("u8", 60_000, 1_500_000, |s, c| run::<u8>(s, c, 0, 255)),
            stage("i8", 60_000, 1_500_000, |s, c| run::<i8>(s, c, -128, 127)),
            stage("u16", 60_000, 1_500_000, |s, c| run::<u16>(s, c, 0, 65535)),
            stage("i16", 60_000, 1_500_000, |s, c| run::<i16>(s, c, -32768, 32767)),
            stage("i32", 30_000, 700_000, |s, c| run::<i32>(s, c, i32::MIN as i128, i32::MAX as i128)),
            stage("i64", 30_000, 700_000, |s, c| run::<i64>(s, c, i64::MIN as i128, i64::MAX as i128)),
            stage("u32", 60_000, 1_500_000, |s, c| run::<u32>(s, c, 0, u32::MAX as i128)),
            stage("u64", 30_000, 700_000, |s, c| run::<u64>(s, c, 0, u64::MAX as i128)),
            stage("whole-range", 16, 400, whole_range),
            stage("packet-id-manager-u16", 30_000, 500_000, manager::<u16>),
            stage("packet-id-manager-u32", 30_000, 500_000, manager::<u32>),
        ],
    }]
}

trait Int: Copy + num::PI {
    fn of(v: i128) -> Self;
    fn to(self) -> i128;
}
mod num {
    // every integer type the allocator is instantiated with here
    pub trait PI {}
    impl PI for u8 {}
    impl PI for i8 {}
    impl PI for u16 {}
    impl PI for i16 {}
    impl PI for i32 {}
    impl PI for i64 {}
    impl PI for u32 {}
    impl PI for u64 {}
}
macro_rules! int {
    ($($t:ty),*) => { $(impl Int for $t { fn of(v: i128) -> Self { v as $t } fn to(self) -> i128 { self as i128 } })* };
}
int!(u8, i8, u16, i16, i32, i64, u32, u64);

/// Object-safe view of an allocator of any integer type.
trait Alloc {
    fn allocate(&mut self) -> Option<i128>;
    fn first_vacant(&self) -> Option<i128>;
    fn release(&mut self, v: i128);
    fn reserve(&mut self, v: i128) -> bool;
    fn is_used(&self, v: i128) -> bool;
    fn clear(&mut self);
    fn intervals(&self) -> usize;
    fn dup(&self) -> Box<dyn Alloc>;
}
macro_rules! alloc {
    ($($t:ty),*) => { $(impl Alloc for ValueAllocator<$t> {
        fn allocate(&mut self) -> Option<i128> { ValueAllocator::allocate(self).map(|v| v.to()) }
        fn first_vacant(&self) -> Option<i128> { ValueAllocator::first_vacant(self).map(|v| v.to()) }
        fn release(&mut self, v: i128) { self.deallocate(<$t>::of(v)) }
        fn reserve(&mut self, v: i128) -> bool { self.use_value(<$t>::of(v)) }
        fn is_used(&self, v: i128) -> bool { ValueAllocator::is_used(self, <$t>::of(v)) }
        fn clear(&mut self) { ValueAllocator::clear(self) }
        fn intervals(&self) -> usize { self.interval_count() }
        fn dup(&self) -> Box<dyn Alloc> { Box::new(self.clone()) }
    }
    impl Make for $t { fn make(a: i128, b: i128) -> Box<dyn Alloc> { Box::new(ValueAllocator::<$t>::new(<$t>::of(a), <$t>::of(b))) } })* };
}
trait Make {
    fn make(a: i128, b: i128) -> Box<dyn Alloc>;
}
alloc!(u8, i8, u16, i16, i32, i64, u32, u64);

struct Model {
    lo: i128,
    hi: i128,
    used: BTreeSet<i128>,
}
impl Model {
    fn first(&self) -> Option<i128> {
        let mut v = self.lo;
        for u in &self.used {
            if *u > v {
                break;
            }
            v = u + 1;
        }
        if v <= self.hi {
            Some(v)
        } else {
            None
        }
    }
    fn runs(&self) -> usize {
        let mut n = 0;
        let mut next = self.lo;
        for u in &self.used {
            if *u > next {
                n += 1;
            }
            next = u + 1;
        }
        if next <= self.hi {
            n += 1;
        }
        n
    }
}

fn check(a: &dyn Alloc, m: &Model, probes: &[i128], tmin: i128, tmax: i128) -> Res {
    ensure!(a.first_vacant() == m.first(), "c20-first", "first_vacant {:?}, smallest free value is {:?}", a.first_vacant(), m.first());
    ensure!(a.intervals() == m.runs(), "c20-runs", "{} intervals for {} maximal runs of free values (range {}..={}, used {:?})", a.intervals(), m.runs(), m.lo, m.hi, m.used);
    for p in probes {
        if *p < tmin || *p > tmax {
            continue;
        }
        let want = *p >= m.lo && *p <= m.hi && m.used.contains(p);
        ensure!(a.is_used(*p) == want, "c20-is-used", "is_used({p}) = {} in range {}..={} with used {:?}", !want, m.lo, m.hi, m.used);
    }
    Ok(())
}

fn drain(a: &dyn Alloc, m: &Model, limit: usize) -> Res {
    let mut d = a.dup();
    let mut u = m.used.clone();
    let mut k = Model { lo: m.lo, hi: m.hi, used: std::mem::take(&mut u) };
    for _ in 0..limit {
        let w = k.first();
        let g = d.allocate();
        ensure!(g == w, "c20-drain", "draining: allocate gives {g:?}, smallest free value is {w:?} (range {}..={}, used {:?})", m.lo, m.hi, m.used);
        match w {
            Some(v) => {
                k.used.insert(v);
            }
            None => break,
        }
    }
    Ok(())
}

fn all_short(s: &mut Src, c: &mut Ctx) -> Res {
    let mut i = s.u32();
    let hi_end = i >= 262_144;
    i %= 262_144;
    let (lo, hi) = if hi_end { (253, 255) } else { (0, 2) };
    let mut a = u8::make(lo, hi);
    let mut m = Model { lo, hi, used: BTreeSet::new() };
    c.log(|| format!("u8 range {lo}..={hi}"));
    c.nontrivial = true;
    for _ in 0..6 {
        let op = i % 8;
        i /= 8;
        apply(&mut *a, &mut m, op, lo + (op as i128 - 1) % 3, c)?;
        check(&*a, &m, &[lo - 1, lo, lo + 1, hi, hi + 1], 0, 255)?;
        drain(&*a, &m, 4)?;
    }
    Ok(())
}

/// A value of the range, any distance from its ends.
fn somewhere(s: &mut Src, lo: i128, hi: i128) -> i128 {
    let d = (s.u32() as i128) << 32 | s.u32() as i128;
    match s.draw(4) {
        0 => lo + d % (hi - lo + 1),
        1 => lo + (hi - lo) / 2 + (d % 5) - 2,
        2 => lo + d % (hi - lo + 1).min(300),
        _ => hi - d % (hi - lo + 1).min(300),
    }
    .clamp(lo, hi)
}

/// op: 0 allocate, 1..=3 reserve, 4..=6 release, 7 clear.
fn apply(a: &mut dyn Alloc, m: &mut Model, op: u32, v: i128, c: &mut Ctx) -> Res {
    match op {
        0 => {
            let w = m.first();
            let g = a.allocate();
            c.log(|| format!("allocate -> {g:?}"));
            ensure!(g == w, "c20-allocate", "allocate gives {g:?}, smallest free value is {w:?}");
            if let Some(v) = w {
                m.used.insert(v);
            }
        }
        1..=3 => {
            let w = v >= m.lo && v <= m.hi && !m.used.contains(&v);
            let g = a.reserve(v);
            c.log(|| format!("use_value({v}) -> {g}"));
            ensure!(g == w, "c20-reserve", "use_value({v}) = {g} in range {}..={} with used {:?}", m.lo, m.hi, m.used);
            if w {
                m.used.insert(v);
            }
        }
        4..=6 => {
            c.log(|| format!("deallocate({v})"));
            if let Err(e) = guarded(|| a.release(v)) {
                fail!("c20-panic", "deallocate({v}) panics: {e} (range {}..={}, used {:?})", m.lo, m.hi, m.used);
            }
            m.used.remove(&v);
        }
        _ => {
            c.log(|| "clear".into());
            a.clear();
            m.used.clear();
        }
    }
    Ok(())
}

fn run<T: Make>(s: &mut Src, c: &mut Ctx, tmin: i128, tmax: i128) -> Res {
    // ranges hug the ends of the type, are tiny, or are the packet-id range
    let span = match s.weighted(&[4, 3, 2, 2]) {
        0 => s.draw(4) as i128,
        1 => s.range(4, 20) as i128,
        2 => s.range(20, 120) as i128,
        _ => tmax - tmin,
    };
    let lo = match s.draw(4) {
        0 => tmin,
        1 => tmax - span,
        2 => (tmin + 1).min(tmax - span),
        _ => tmin + s.draw(100) as i128,
    };
    let lo = lo.min(tmax - span).max(tmin);
    let hi = (lo + span).min(tmax);
    c.log(|| format!("range {lo}..={hi}"));
    let mut a = T::make(lo, hi);
    let mut m = Model { lo, hi, used: BTreeSet::new() };
    // sometimes much is in use from the beginning: everything, or a block
    let all = hi - lo < 600 && s.chance(1, 4);
    if all || s.chance(1, 8) {
        let at = if all { lo } else { somewhere(s, lo, hi) };
        let upto = if all { hi } else { (at + s.draw(400) as i128).min(hi) };
        c.log(|| format!("use_value({at}..={upto})"));
        for v in at..=upto {
            ensure!(a.reserve(v), "c20-reserve", "use_value({v}) = false in range {lo}..={hi}");
            m.used.insert(v);
        }
    }
    let n = s.range(1, 50);
    let mut last = lo;
    for _ in 0..n {
        s.begin();
        let op = [0, 1, 4, 7][s.weighted(&[30, 30, 36, 2])];
        let v = match s.draw(8) {
            0 => lo,
            1 => hi,
            5 | 6 => somewhere(s, lo, hi),
            2 => last + s.draw(3) as i128 - 1,
            3 | 4 if !m.used.is_empty() => {
                let k = s.draw(m.used.len() as u32) as usize;
                *m.used.iter().nth(k).unwrap()
            }
            _ => lo + s.draw((hi - lo).min(30) as u32 + 1) as i128,
        };
        let v = if op == 4 { v.clamp(lo, hi) } else { v.clamp(tmin, tmax) };
        last = v;
        apply(&mut *a, &mut m, op, v, c)?;
        s.end();
        if m.runs() > 1 || m.first().is_none() {
            c.nontrivial = true;
        }
        check(&*a, &m, &[lo - 1, lo, hi, hi + 1, v - 1, v, v + 1, tmin, tmax], tmin, tmax)?;
    }
    if m.first().is_none() {
        c.label("exhausted");
    }
    drain(&*a, &m, if span < 200 { 256 } else { 40 })
}

/// Every value of a 16-bit range simultaneously used, then released in a random order.
fn whole_range(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let lo = s.draw(2);
    let hi = [255u32, 4095, 65535][s.draw(3) as usize];
    c.log(|| format!("u16 range {lo}..={hi}: allocate all, release in random order"));
    let mut a = ValueAllocator::<u16>::new(lo as u16, hi as u16);
    for v in lo..=hi {
        ensure!(a.allocate() == Some(v as u16), "c20-whole", "allocation {v} out of order");
    }
    ensure!(a.allocate().is_none() && a.first_vacant().is_none() && a.interval_count() == 0, "c20-whole", "exhaustion is not reported");
    let mut order: Vec<u32> = (lo..=hi).collect();
    let mut r = Rng::new(s.u32() as u64);
    for i in (1..order.len()).rev() {
        order.swap(i, (r.next() % (i as u64 + 1)) as usize);
    }
    let mut m = Model { lo: lo as i128, hi: hi as i128, used: (lo..=hi).map(|v| v as i128).collect() };
    for (k, v) in order.iter().enumerate() {
        a.deallocate(*v as u16);
        m.used.remove(&(*v as i128));
        if k % 997 == 0 || k + 40 > order.len() {
            ensure!(a.interval_count() == m.runs(), "c20-runs", "after releasing {} values: {} intervals, {} runs", k + 1, a.interval_count(), m.runs());
            ensure!(a.first_vacant().map(|v| v as i128) == m.first(), "c20-first", "first_vacant {:?} vs {:?}", a.first_vacant(), m.first());
        }
    }
    ensure!(a.interval_count() == 1, "c20-runs", "{} intervals after everything was released", a.interval_count());
    Ok(())
}

/// The packet-identifier manager: 1..=max, total for every value.
fn manager<P: crate::libx::Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let mut a = PacketIdManager::<P>::new();
    let mut m = Model { lo: 1, hi: P::MAX as i128, used: BTreeSet::new() };
    let n = s.range(1, 40);
    for _ in 0..n {
        s.begin();
        let v: u32 = match s.draw(6) {
            0 => 0,
            1 => P::MAX,
            2 => P::MAX - 1,
            3 if !m.used.is_empty() => {
                let k = s.draw(m.used.len() as u32) as usize;
                *m.used.iter().nth(k).unwrap() as u32
            }
            _ => s.draw(12),
        };
        let vi = v as i128;
        let in_range = v >= 1;
        match s.weighted(&[3, 4, 4, 4, 1]) {
            0 => {
                let g = a.acquire_unique_id().ok().map(|x| x.get() as i128);
                c.log(|| format!("acquire -> {g:?}"));
                ensure!(g == m.first(), "c20-manager", "acquire gives {g:?}, expected {:?}", m.first());
                if let Some(x) = g {
                    m.used.insert(x);
                }
            }
            1 => {
                let g = a.register_id(P::mk(v)).is_ok();
                c.log(|| format!("register({v}) -> {g}"));
                let w = in_range && !m.used.contains(&vi);
                ensure!(g == w, "c20-manager", "register({v}) = {g} with used {:?}", m.used);
                if w {
                    m.used.insert(vi);
                }
            }
            2 if in_range => {
                c.log(|| format!("release({v})"));
                if let Err(e) = guarded(|| a.release_id(P::mk(v))) {
                    fail!("c20-panic", "release_id({v}) panics: {e} (used {:?})", m.used);
                }
                m.used.remove(&vi);
                c.nontrivial = true;
            }
            3 => {
                let g = a.is_used_id(P::mk(v));
                ensure!(g == m.used.contains(&vi), "c20-is-used", "is_used_id({v}) = {g} with used {:?}", m.used);
            }
            _ => {
                c.log(|| "clear".into());
                a.clear();
                m.used.clear();
            }
        }
        s.end();
    }
    Ok(())
}
