//! Predicates of the properties Verus proves, over the same real code, for native search and replay.
use crate::*;
use klavier_core::bar::*;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration};
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::tempo::Tempo;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::project::*;
use klavier_core::rhythm::Rhythm;
use klavier_core::trimmer::*;
use std::collections::BTreeMap;

/// Ticks from a handful (so that items meet) or from the whole range up to `top`.
pub fn tick<S: Src>(s: &mut S, top: u32) -> u32 {
    match s.below(4) { 0 => s.in_u32(0, top.min(6)), 1 => 240 * s.in_u32(0, (top / 240).min(8)), 2 => s.in_u32(0, top.min(4000)), _ => s.in_u32(0, top) }
}
pub fn bar<S: Src>(s: &mut S, t: u32) -> Bar {
    let r = if s.bool() { Some(gen::rhythm(s)) } else { None };
    let k = if s.bool() { Some(gen::key(s)) } else { None };
    let mut set = RepeatSet::EMPTY;
    for _ in 0..s.below(4) { if let Ok(x) = set.try_add(gen::repeat(s)) { set = x; } }
    Bar::new(t, r, k, set)
}
pub fn pitch<S: Src>(s: &mut S) -> klavier_core::pitch::Pitch {
    let (n, o) = (gen::solfa(s), gen::octave(s));
    klavier_core::pitch::Pitch::value_of(n, o, gen::sharp_flat(s)).unwrap_or(klavier_core::pitch::Pitch::new(n, klavier_core::octave::Octave::Oct3, klavier_core::sharp_flat::SharpFlat::Null))
}
pub fn small_trimmer<S: Src>(s: &mut S) -> Trimmer {
    match s.below(3) { 0 => gen::trimmer(s), 1 => Trimmer::new(s.in_i32(-5, 5) as i16, 0, 0, 0), _ => Trimmer::ZERO }
}
pub fn note_at<S: Src>(s: &mut S, t: u32) -> Note {
    let (d, tr) = (gen::duration(s), small_trimmer(s));
    let r = match s.below(3) { 0 => RateTrimmer::from_array([gen::percent(s), gen::percent(s), gen::percent(s), gen::percent(s)]), 1 => gen::rate1(s), _ => RateTrimmer::ONE };
    let (d, r) = if s.below(10) == 0 {
        (Duration::new(klavier_core::duration::Numerator::Whole, Denominator::from_value(2).unwrap(), Dots::from_value(s.below(8)).unwrap()), RateTrimmer::new(2.0, 1.0, 1.0, 1.0))
    } else { (d, r) };
    Note::new(t, pitch(s), d, s.bool(), s.bool(), gen::velocity(s), tr, r, small_trimmer(s), gen::channel(s))
}
pub fn pedal<S: Src>(s: &mut S, t: u32) -> CtrlChg { CtrlChg::new(t, gen::velocity(s), gen::channel(s)) }
/// Below `most` mostly; now and then a long score.
pub fn count<S: Src>(s: &mut S, most: u8) -> u8 { if s.below(24) == 0 { s.below(200) } else { s.below(most) } }
/// Bars; in a long score most of them carry nothing.
pub fn bars_in<S: Src>(s: &mut S, top: u32, most: u8) -> Vec<Bar> {
    let n = count(s, most);
    (0..n).map(|_| { let t = tick(s, top); let mut b = bar(s, t); if n >= 20 && s.below(32) != 0 { b.rhythm = None; } if n >= 20 && s.below(32) != 0 { b.key = None; } b }).collect()
}
pub fn models<S: Src>(s: &mut S, top: u32, most: u8) -> Models {
    let mut m = Models::empty();
    for _ in 0..s.below(most) { let t = tick(s, top); m.notes.push(note_at(s, t)); }
    m.bars = bars_in(s, top, most);
    for _ in 0..count(s, most) { let t = tick(s, top); m.tempos.push(Tempo::new(t, gen::tempo_value(s).as_u16())); }
    for _ in 0..s.below(most) { let t = tick(s, top); m.dumpers.push(pedal(s, t)); }
    for _ in 0..s.below(most) { let t = tick(s, top); m.softs.push(pedal(s, t)); }
    m
}

/// A project as the stored form describes it.
pub fn project(rhythm: Rhythm, key: Key, grid: Grid, m: &Models) -> ProjectImpl {
    serde_json::from_value(serde_json::json!({ "rhythm": rhythm, "key": key, "grid": grid, "models": m })).expect("a valid stored project is rejected")
}
pub fn grid<S: Src>(s: &mut S) -> Grid { let v = s.in_u32(1, u32::MAX); match Grid::from_u32(v) { Ok(g) => g, Err(_) => panic!("a non-zero grid was rejected") } }
/// The last item on each tick.
pub fn by_tick<T: Clone>(v: &[T], f: impl Fn(&T) -> u32) -> BTreeMap<u32, T> { v.iter().map(|x| (f(x), x.clone())).collect() }
/// A tick near one of the given ones, or any.
pub fn near<S: Src>(s: &mut S, of: &[u32]) -> u32 {
    let n = s.below(255) as usize;
    match s.below(5) {
        0 => s.u32(),
        1 => tick(s, u32::MAX),
        _ if of.is_empty() => s.in_u32(0, 4000),
        k => of[n % of.len()].saturating_add(k as u32).saturating_sub(3),
    }
}

pub mod c13 {
    use super::*;
    use klavier_core::can_apply::CanApply;
    use klavier_core::text_input::*;
    use klavier_core::{duration, percent::PercentU16, rhythm, tempo::TempoValue, velocity::Velocity};
    const SIGNS: [&str; 24] = ["", "+", "-", ":", " ", "\n", ".", "e", "0", "00", "1", "9", "255", "٣", "７", "inf", "NaN", "-0", "x", "\0", "::", "99999", "é", "65536"];
    /// Mostly text that looks like a number, now and then with something else in it.
    fn text<S: Src>(s: &mut S) -> String {
        let mut t = String::new();
        for _ in 0..s.below(4) {
            match s.below(5) {
                0 | 1 => t += SIGNS[s.below(24) as usize],
                2 => t += &s.below(255).to_string(),
                3 => t += &(s.u16() as u32 + s.below(3) as u32).to_string(),
                _ => t += &s.u64().to_string(),
            }
        }
        t
    }
    fn field<S: Src>(s: &mut S) -> String {
        match s.below(3) { 0 => text(s), 1 => s.in_u32(0, 70000).to_string(), _ => { let a = SIGNS[s.below(24) as usize]; format!("{a}{}{}", s.in_u32(0, 1100), SIGNS[s.below(24) as usize]) } }
    }
    /// An integer as Rust writes and reads it: sign, digits.
    fn integer(t: &str, minus: bool) -> Option<i128> {
        let (neg, d) = match t.strip_prefix('-') { Some(r) if minus => (true, r), _ => (false, t.strip_prefix('+').unwrap_or(t)) };
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
        let z = d.trim_start_matches('0');
        if z.len() > 30 { return Some(if neg { i128::MIN } else { i128::MAX }); }
        let n = z.bytes().fold(0i128, |n, b| 10 * n + (b - b'0') as i128);
        Some(if neg { -n } else { n })
    }
    fn typed(t: &str, lo: i128, hi: i128) -> Option<i128> { integer(t, lo < 0).filter(|n| lo <= *n && *n <= hi) }
    /// What a field makes of the text: no value, a number, or refused.
    fn told<T: Copy, E>(t: &str, num: impl Fn(T) -> i128) -> Option<Option<i128>> where Validated<Option<T>>: std::str::FromStr<Err = E> {
        let i: TextInput<Option<T>, E> = TextInput::from_string(t.to_string());
        assert!(i.input() == t, "a field of {t:?} shows {:?}", i.input());
        let mut late: TextInput<Option<T>, E> = TextInput::from_string("7".to_string());
        let back = late.mutate(|b| { b.clear(); b.push_str(t); 41 });
        assert!(back == 41 && late.input() == t, "a field edited to {t:?} shows {:?}", late.input());
        let (a, b) = (i.validate().as_ref().ok().map(|v| v.0.map(&num)), late.validate().as_ref().ok().map(|v| v.0.map(&num)));
        assert!(a == b, "a field edited to {t:?} is judged {b:?}, entered at once {a:?}");
        a
    }
    harnesses! { "C13";
        field_text [] |s| {
            let t = field(s);
            s.reached();
            let none = t.is_empty();
            let empty = |w: Option<i128>| if none { Some(None) } else { w.map(Some) };
            let r = told::<TempoValue, _>(&t, |v| v.as_u16() as i128);
            assert!(r == empty(typed(&t, 0, 65535).map(|n| n.clamp(1, 999))), "tempo {t:?} gives {r:?}");
            let r = told::<Velocity, _>(&t, |v| v.as_u8() as i128);
            assert!(r == empty(typed(&t, 0, 255).map(|n| n.min(127))), "velocity {t:?} gives {r:?}");
            let r = told::<i16, _>(&t, |v| v as i128);
            assert!(r == empty(typed(&t, -32768, 32767)), "offset {t:?} gives {r:?}");
            let r = told::<rhythm::Numerator, _>(&t, |v| v.value() as i128);
            assert!(r == empty(typed(&t, 0, 255).filter(|n| 1 <= *n && *n <= 99)), "numerator {t:?} gives {r:?}");
            let r = told::<duration::Denominator, _>(&t, |v| v.value() as i128);
            assert!(r == empty(typed(&t, 0, 255).filter(|n| 2 <= *n)), "tuplet denominator {t:?} gives {r:?}");
        }
        percent_text [] |s| {
            let t = match s.below(3) { 0 => field(s), 1 => (s.in_u32(0, 30_000) as f64 / 10_000.0).to_string(), _ => { let a = SIGNS[s.below(24) as usize]; format!("{a}{}.{}", s.below(4), s.u16()) } };
            s.reached();
            let r = told::<PercentU16, _>(&t, |v| v.apply(1000) as i128);
            let want = t.parse::<f64>().ok();
            match r {
                Some(None) => assert!(t.is_empty(), "percentage {t:?} is no value"),
                None => assert!(!t.is_empty() && want.is_none(), "percentage {t:?} is refused"),
                Some(Some(n)) => {
                    let w = want.unwrap_or_else(|| panic!("percentage {t:?} gives {n}"));
                    assert!(0 <= n && n <= 2000, "percentage {t:?} gives {n} tenths of a percent");
                    if !w.is_nan() { let c = w.clamp(0.0, 2.0) * 1000.0; assert!(n as f64 <= c + 0.01 && c - 1.01 <= n as f64, "percentage {t:?} gives {n} tenths of a percent"); }
                }
            }
        }
        location_text [] |s| {
            let t = match s.below(4) {
                0 => text(s),
                1 => { let a = SIGNS[s.below(24) as usize]; format!("{}{}{a}:{}", ["", "", "", "+", "\n"][s.below(5) as usize], s.u64(), s.u32()) }
                2 => format!("{}:{}{}", s.below(255), if s.bool() { s.u64() as u128 } else { u64::MAX as u128 + s.below(2) as u128 }, SIGNS[s.below(24) as usize]),
                _ => format!("0{}:0{}", s.below(20), s.below(255)),
            };
            s.reached();
            let p: Vec<&str> = t.split(':').collect();
            let plain = |x: &str| if x.starts_with('+') { None } else { typed(x, 0, usize::MAX as i128) };
            let want = if p.len() == 2 { plain(p[0]).zip(plain(p[1])) } else { None };
            let num = |l: Location| (l.bar_no() as i128) << 64 | l.offset() as i128;
            let w = want.map(|(a, b)| a << 64 | b);
            let direct = Location::parse(&t).map(num);
            assert!(direct == w, "location {t:?} is read as {direct:?}");
            let r = told::<Location, _>(&t, num);
            assert!(r == if t.is_empty() { Some(None) } else { w.map(Some) }, "location {t:?} gives {r:?}");
            let l = Location::new(s.u64() as usize >> s.below(64), s.u64() as usize >> s.below(64));
            assert!(Location::parse(&l.to_string()) == Some(l), "location {l} is displayed as {:?} and read back as {:?}", l.to_string(), Location::parse(&l.to_string()));
        }
    }
}

pub mod c14 {
    use super::*;
    harnesses! { "C14";
        in_force [] |s| {
            let top = match s.below(3) { 0 => 8, 1 => 4000, _ => u32::MAX };
            let mut m = models(s, top, 6);
            if s.below(3) > 0 { m.notes.clear(); }
            let (rh, ky, g) = (gen::rhythm(s), gen::key(s), grid(s));
            let p = project(rh, ky, g, &m);
            s.reached();
            let (bars, tempos) = (by_tick(&m.bars, |b| b.start_tick), by_tick(&m.tempos, |b| b.start_tick));
            let (dumpers, softs) = (by_tick(&m.dumpers, |b| b.start_tick), by_tick(&m.softs, |b| b.start_tick));
            let all: Vec<u32> = bars.keys().chain(tempos.keys()).chain(dumpers.keys()).chain(softs.keys()).copied().collect();
            for _ in 0..12 {
                let t = near(s, &all);
                assert!(p.tempo_at(t).as_u16() == tempos.range(..=t).next_back().map(|x| x.1.value.as_u16()).unwrap_or(120), "tempo at {t}");
                assert!(p.dumper_at(t).as_u8() == dumpers.range(..=t).next_back().map(|x| x.1.velocity.as_u8()).unwrap_or(0), "damper at {t}");
                assert!(p.soft_at(t).as_u8() == softs.range(..=t).next_back().map(|x| x.1.velocity.as_u8()).unwrap_or(0), "soft pedal at {t}");
                assert!(tempo_at(t, p.tempo_repo()) == p.tempo_at(t), "tempo_at at {t}");
                assert!(ctrl_chg_at(t, p.soft_repo()) == p.soft_at(t), "ctrl_chg_at at {t}");
                assert!(p.rhythm_at(t) == bars.range(..=t).rev().find_map(|x| x.1.rhythm).unwrap_or(rh), "rhythm at {t}");
                assert!(p.key_at(t) == bars.range(..=t).rev().find_map(|x| x.1.key).unwrap_or(ky), "key at {t}");
                assert!(p.bar_no(&bar(s, t)) == bars.keys().position(|k| *k == t), "bar number of {t}");
            }
        }
    }
}

pub mod c15 {
    use super::*;
    harnesses! { "C15";
        locations [] |s| {
            let top = match s.below(3) { 0 => 8, 1 => 4000, _ => u32::MAX };
            let mut m = Models::empty();
            m.bars = bars_in(s, top, 6);
            let (rh, ky, g) = (gen::rhythm(s), gen::key(s), grid(s));
            let p = project(rh, ky, g, &m);
            s.reached();
            let bars = by_tick(&m.bars, |b| b.start_tick);
            let ticks: Vec<u32> = bars.keys().copied().collect();
            let len = bars.values().rev().find_map(|x| x.rhythm).unwrap_or(rh);
            let len = len.numerator.value() as u128 * 960 / len.denominator.value() as u128;
            for _ in 0..8 {
                let no = match s.below(4) { 0 => s.u64() as usize, 1 => s.u32() as usize, 2 => 89_478_485usize.wrapping_add(s.u32() as usize % 7), _ => s.below(12) as usize };
                let off = match s.below(3) { 0 => s.u64() as usize, 1 => s.u32() as usize, _ => s.in_u32(0, 2000) as usize };
                let (n, o) = (no as u128, off as u128);
                let want = if no == 0 { o } else if no <= ticks.len() { ticks[no - 1] as u128 + o }
                    else if ticks.is_empty() { n * len + o } else { ticks[ticks.len() - 1] as u128 + (n - ticks.len() as u128) * len + o };
                let r = p.location_to_tick(Location::new(no, off));
                if want > u32::MAX as u128 { assert!(r == Err(LocationError::Overflow), "location {no}:{off} gives {r:?}, not an overflow"); }
                else { assert!(r == Ok(want as u32), "location {no}:{off} gives {r:?}, not {want}"); }
                let t = near(s, &ticks);
                let l = p.tick_to_location(t);
                let k = ticks.iter().filter(|x| **x <= t).count();
                assert!(l.bar_no() == k && l.offset() as u32 == t - if k == 0 { 0 } else { ticks[k - 1] }, "tick {t} is located at {l}");
                assert!(p.location_to_tick(l) == Ok(t), "tick {t} at {l} comes back as {:?}", p.location_to_tick(l));
            }
        }
    }
}

pub mod c11 {
    use super::*;
    use klavier_core::grid::*;
    harnesses! { "C11";
        snap [] |s| {
            let v = match s.below(3) { 0 => s.in_u32(1, 20), _ => s.in_u32(1, u32::MAX) };
            let g = match Grid::from_u32(v) { Ok(g) => g, Err(_) => panic!("a non-zero grid was rejected") };
            assert!(g.as_u32() == v);
            let lim = 1i64 << 62;
            let near = |s: &mut S| -> i64 {
                let k = s.in_i32(-1_000_000, 1_000_000) as i64;
                let k = match s.below(3) { 0 => k % 5, _ => k };
                (k * v as i64 + match s.below(4) { 0 => v as i64 / 2, 1 => -(v as i64) / 2, 2 => 0, _ => s.in_i32(-(v as i64).min(1000), (v as i64).min(1000)) as i64 } + s.in_i32(-2, 2) as i64).clamp(-lim, lim)
            };
            let a = match s.below(3) { 0 => s.i64().clamp(-lim, lim), _ => near(s) };
            let b = match s.below(3) { 0 => (a + s.in_i32(0, 9) as i64).clamp(-lim, lim), 1 => near(s), _ => s.i64().clamp(-lim, lim) };
            s.reached();
            let (r, q, v) = (g.snap(a) as i128, g.snap(b) as i128, v as i128);
            let d = r - a as i128;
            assert!(r % v == 0, "snap({a}) on {v} is {r}, off the grid");
            assert!(2 * d.abs() <= v, "snap({a}) on {v} is {r}, not nearest");
            if 2 * d.abs() == v { assert!(r.abs() > (a as i128).abs(), "halfway {a} on {v} goes towards zero"); }
            assert!(g.snap(-a) as i128 == -r, "snap({a}) on {v} is not symmetric");
            if a <= b { assert!(r <= q, "snap reverses {a} and {b} on {v}"); } else { assert!(q <= r, "snap reverses {a} and {b} on {v}"); }
        }
        value_of [] |s| {
            let n = match s.below(2) { 0 => s.u32() as u64, _ => s.u64() };
            let t = match s.below(6) { 0 => format!("{n} "), 1 => format!("-{n}"), 2 => String::new(), 3 => format!("0{n}"), _ => n.to_string() };
            let ok = t.bytes().all(|c| c.is_ascii_digit()) && !t.is_empty() && 1 <= n && n <= u32::MAX as u64;
            s.reached();
            match Grid::value_of(&t) {
                Ok(g) => assert!(ok && g.as_u32() as u64 == n, "grid text {t:?} gives {}", g.as_u32()),
                Err(_) => assert!(!ok, "grid text {t:?} is rejected"),
            }
            let m = s.u32();
            match Grid::from_u32(m) { Ok(g) => assert!(m != 0 && g.as_u32() == m, "grid {m}"), Err(_) => assert!(m == 0, "grid {m} is rejected") }
        }
    }
}

pub mod c18 {
    use super::*;
    use klavier_core::project::ModelChangeMetadata;
    use klavier_core::undo::*;
    fn entry(n: u32) -> Undo {
        Undo::Changed { added: Models { tempos: vec![Tempo::new(n, 100)], ..Models::empty() }, removed: Models::empty(), metadata: ModelChangeMetadata::new() }
    }
    harnesses! { "C18";
        history [] |s| {
            let cap = if s.below(16) == 0 { 100 } else { s.below(6) as usize };
            let mut u = UndoStore::new(cap);
            let cap = cap.max(1);
            // Oldest first.
            let (mut done, mut undone): (Vec<u32>, Vec<u32>) = (vec![], vec![]);
            let mut frozen = false;
            let ops = if cap == 100 { 260 } else { 4 + s.below(24) as u32 };
            s.reached();
            for n in 0..ops {
                match s.below(if cap == 100 { 16 } else { 8 }) {
                    0 | 1 => { let e = undone.pop(); assert!(u.redo().cloned() == e.map(entry), "redo, step {n}"); done.extend(e); }
                    2 | 3 => { let e = done.pop(); assert!(u.undo().cloned() == e.map(entry), "undo, step {n}"); undone.extend(e); }
                    4 if s.below(3) == 0 => { frozen = !frozen; u.freeze(frozen); }
                    _ => {
                        u.add(entry(n));
                        if !frozen { undone.clear(); done.push(n); if done.len() > cap { done.remove(0); } }
                    }
                }
                assert!(u.can_undo() == !done.is_empty(), "can_undo, step {n}");
                assert!(u.can_redo() == !undone.is_empty(), "can_redo, step {n}");
                assert!(u.len() == done.len() + undone.len(), "len, step {n}");
                let all: Vec<Undo> = u.iter().cloned().collect();
                let want: Vec<Undo> = undone.iter().chain(done.iter().rev()).map(|n| entry(*n)).collect();
                assert!(all == want, "entries, step {n}");
            }
        }
    }
}

pub mod c22 {
    use super::*;
    fn ticks(m: &Models) -> Vec<u32> {
        m.notes.iter().map(|x| x.base_start_tick).chain(m.bars.iter().map(|x| x.start_tick)).chain(m.tempos.iter().map(|x| x.start_tick))
            .chain(m.dumpers.iter().map(|x| x.start_tick)).chain(m.softs.iter().map(|x| x.start_tick)).collect()
    }
    fn set(m: &mut Models, f: impl Fn(u32) -> u32) {
        m.notes.iter_mut().for_each(|x| x.base_start_tick = f(x.base_start_tick));
        m.bars.iter_mut().for_each(|x| x.start_tick = f(x.start_tick));
        m.tempos.iter_mut().for_each(|x| x.start_tick = f(x.start_tick));
        m.dumpers.iter_mut().for_each(|x| x.start_tick = f(x.start_tick));
        m.softs.iter_mut().for_each(|x| x.start_tick = f(x.start_tick));
    }
    harnesses! { "C22";
        move_to_tick [] |s| {
            let top = match s.below(2) { 0 => 9000, _ => u32::MAX };
            let mut m = models(s, top, 4);
            if s.below(3) == 0 { let low = s.u32(); set(&mut m, |t| t.saturating_add(low)); }
            let to = match s.below(3) { 0 => tick(s, u32::MAX), 1 => ticks(&m).first().copied().unwrap_or(0), _ => s.in_u32(0, 10_000) };
            let t = ticks(&m);
            let lo = t.iter().min().copied();
            let hi = t.iter().max().copied();
            if let (Some(lo), Some(hi)) = (lo, hi) { s.assume((hi - lo) as u64 + to as u64 <= u32::MAX as u64); }
            let r = m.clone().move_to_tick(to);
            s.reached();
            let mut want = m.clone();
            if let Some(lo) = lo { set(&mut want, |t| t - lo + to); }
            assert!(r == want, "moving {:?} to {to} gives {:?}", t, ticks(&r));
        }
    }
}

pub mod c23 {
    use super::*;
    use klavier_core::duration::{Denominator, Duration};
    use std::rc::Rc;
    fn unit(n: &Note) -> u64 { let len = 256u64 >> n.duration.numerator.ord(); 2 * len - (len >> n.duration.dots.value()) }
    fn plain(n: &Note) -> Duration { n.duration.with_denominator(Denominator::from_value(2).unwrap()) }
    fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
    fn rest(n: &Note) -> String { let mut n = n.clone(); n.base_start_tick = 0; n.duration = plain(&n); format!("{n:?}") }
    harnesses! { "C23";
        tuplet [] |s| {
            let most = match s.below(5) { 0 => 40, _ => 7 };
            let top = match s.below(4) { 0 => 0x8000_0000, 1 => 6, _ => 4000 };
            let low = if s.below(4) == 0 { s.in_u32(0, 0x8000_0000 - 4000) } else { 0 };
            let mut v: Vec<Rc<Note>> = vec![];
            for _ in 0..s.below(most) {
                let t = match v.last() { Some(n) if s.below(3) == 0 => n.base_start_tick, _ => tick(s, top) };
                let mut n = note_at(s, t);
                if s.below(3) > 0 { n.duration = n.duration.with_dots(klavier_core::duration::Dots::ZERO); }
                v.push(Rc::new(n));
            }
            if top <= 4000 { v = v.into_iter().map(|n| { let mut n = (*n).clone(); n.base_start_tick += low; Rc::new(n) }).collect(); }
            let r = klavier_core::tuple::tuplize(v.clone());
            s.reached();
            let mut chords: BTreeMap<u32, Vec<&Note>> = BTreeMap::new();
            for n in &v { chords.entry(n.base_start_tick).or_default().push(n); }
            let m = v.iter().fold(0, |g, n| gcd(g, unit(n)));
            let least = |c: &Vec<&Note>| -> (u64, u64) {
                let d = c.iter().map(|n| plain(n).tick_length() as u64).min().unwrap();
                (d, c.iter().filter(|n| plain(n).tick_length() as u64 == d).map(|n| unit(n)).min().unwrap())
            };
            // Two values of one length (some short dotted ones) leave the choice open: not judged.
            s.assume(chords.values().all(|c| { let (d, u) = least(c); c.iter().all(|n| plain(n).tick_length() as u64 != d || unit(n) == u) }));
            let total: u64 = chords.values().map(|c| least(c).1).sum();
            let length: u64 = chords.values().map(|c| least(c).0).sum();
            let count = if m == 0 { 0 } else { total / m };
            if count < 2 || count > 255 {
                assert!(r == v, "{} notes of {count} units in all were changed", v.len());
                return;
            }
            assert!(r.len() == v.len(), "{} notes became {}", v.len(), r.len());
            let first = *chords.keys().next().unwrap();
            let mut want: Vec<(u32, String)> = vec![];
            let mut before = 0u64;
            for c in chords.values() {
                let at = first + (length / count * 2 * before / total) as u32;
                want.extend(c.iter().map(|n| (at, rest(n))));
                before += least(c).1;
            }
            let mut got: Vec<(u32, String)> = r.iter().map(|n| (n.base_start_tick, rest(n))).collect();
            assert!(got.windows(2).all(|w| w[0].0 <= w[1].0), "the notes of a tuplet are not in order: {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>());
            got.sort(); want.sort();
            for (g, w) in got.iter().zip(&want) {
                assert!(g.0 == w.0, "a note of the tuplet {:?} begins at {} instead of {}", v.iter().map(|n| (n.base_start_tick, unit(n))).collect::<Vec<_>>(), g.0, w.0);
                assert!(g == w, "making a tuplet changed a note: {} {}", g.1, w.1);
            }
            for n in &r { assert!(n.duration.denominator.value() as u64 == count, "a note of a tuplet of {count} has denominator {}", n.duration.denominator.value()); }
        }
    }
}

pub mod c26 {
    use super::*;
    use klavier_core::exported_project::ExportedProject;
    use klavier_core::models::FromClipboardTextErr as E;
    /// A JSON text's leading value and the rest of the text.
    fn lead(t: &str) -> Option<Result<(serde_json::Value, String), ()>> {
        let mut d = serde_json::Deserializer::from_str(t).into_iter::<serde_json::Value>();
        let v = d.next()?;
        let at = d.byte_offset();
        Some(v.map_err(|_| ()).map(|v| (v, String::from_utf8_lossy(&t.as_bytes()[at..]).into_owned())))
    }
    fn judge<T: PartialEq + std::fmt::Debug + serde::de::DeserializeOwned>(t: &str, r: Result<T, E>) {
        match lead(t) {
            None => assert!(matches!(r, Err(E::EmptyString)), "blank text gives {r:?}"),
            Some(Err(())) => assert!(matches!(&r, Err(E::CannotParse { err_json, .. }) if err_json == t), "{t:?} gives {r:?}"),
            Some(Ok((v, rest))) => match v.as_u64() {
                None => assert!(matches!(&r, Err(E::VersionNotU64 { err_json }) if err_json == t), "{t:?} gives {r:?}"),
                Some(1) => match serde_json::from_str::<T>(&rest) {
                    Ok(m) => assert!(r == Ok(m), "{t:?} gives {r:?}"),
                    Err(_) => assert!(matches!(&r, Err(E::CannotParse { err_json, .. }) if err_json == t), "{t:?} gives {r:?}"),
                },
                Some(n) => assert!(r == Err(E::VersionErr { detected_ver: n }), "{t:?} gives {r:?}"),
            },
        }
    }
    harnesses! { "C26";
        round_trip [] |s| {
            let m = models(s, u32::MAX, 4);
            let t = m.to_clipboard_text();
            s.reached();
            let r = Models::from_clipboard_text(t.clone());
            assert!(r == Ok(m.clone()), "a selection comes back changed: {m:?} as {t} as {r:?}");
            let e = ExportedProject::from_clipboard_text(t.clone());
            if let Ok(e) = &e { assert!(e.clone().to_models() == m, "a selection is imported changed: {m:?} as {e:?}"); }
            assert!(e.is_ok(), "{t} is not imported: {e:?}");
        }
        any_text [] |s| {
            let m = models(s, 4000, 2);
            let body = serde_json::to_string(&m).unwrap();
            let v = ["", "1", "1", "1", "0", "2", "-1", "1.0", "1.5", "18446744073709551615", "18446744073709551616", "[1]", "\"1\"", "null", "x", " 1", "\n1\t", "01", "1 2", "{}", "1e0", "4294967297"][s.below(22) as usize];
            let mut b: Vec<char> = match s.below(6) { 0 => vec![], 1 => "{}".chars().collect(), _ => body.chars().collect() };
            for _ in 0..s.below(3) {
                let k = s.u16() as usize % (b.len() + 1);
                match s.below(3) { 0 if k < b.len() => { b.remove(k); } 1 if k < b.len() => { b[k] = [' ', '0', '}', '-', 'n'][s.below(5) as usize]; } _ => b.insert(k, [' ', '0', '}', ',', '"', '9'][s.below(6) as usize]) }
            }
            let t = v.to_string() + &b.into_iter().collect::<String>();
            s.reached();
            judge::<Models>(&t, Models::from_clipboard_text(t.clone()));
            let mut x = t.clone();
            if s.bool() { let k = gen::key(s); let r = gen::rhythm(s); x = t.replacen('{', &format!("{{\"key\":{},\"rhythm\":{},", serde_json::json!(k), serde_json::json!(r)), 1); }
            judge::<ExportedProject>(&x, ExportedProject::from_clipboard_text(x.clone()));
        }
    }
}

pub mod c27 {
    use super::*;
    use klavier_core::fly_weight::FlyWeight;
    #[derive(Eq)]
    struct Thing { value: u8, _mark: u8 }
    impl PartialEq for Thing { fn eq(&self, o: &Self) -> bool { self.value == o.value } }
    impl std::hash::Hash for Thing { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.value % 3).hash(h) } }
    harnesses! { "C27";
        interned [] |s| {
            let top = s.in_u8(1, 12);
            let n = s.below(40) as usize;
            let all: Vec<Thing> = (0..n).map(|k| Thing { value: s.below(top), _mark: k as u8 }).collect();
            let mut pool = FlyWeight::new();
            s.reached();
            for _ in 0..2 { for (i, x) in all.iter().enumerate() {
                let r = pool.intern(x);
                let first = all.iter().position(|y| y.value == x.value).unwrap();
                assert!(std::ptr::eq(r, &all[first]), "value {} interned as {} is not the first instance, {}", x.value, all.iter().position(|y| std::ptr::eq(r, y)).unwrap(), first);
                let _ = i;
            } }
        }
    }
}

/// Edits through the undo store, in a scratch directory.
pub mod edits {
    use super::*;
    use serdo::undo_store::{Options, SqliteUndoStore, UndoStore};
    use std::cell::RefCell;
    use std::path::PathBuf;
    use std::rc::Rc;

    thread_local! { static USES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
    thread_local! { static STORE: RefCell<Option<(ProjectStore, PathBuf)>> = RefCell::new(None); }
    /// Runs f on a store that holds the given project.
    pub fn with<R>(p: ProjectImpl, f: impl FnOnce(&mut ProjectStore) -> R) -> R {
        STORE.with(|c| {
            let mut c = c.borrow_mut();
            // The store keeps a copy of the model that only commands change: start anew now and then.
            if USES.with(|u| { u.set(u.get() + 1); u.get() % 64 == 0 }) { close(&mut c); }
            let (st, _) = c.get_or_insert_with(|| {
                let root = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
                let top = root.join(format!("kh-{}", std::process::id()));
                std::fs::create_dir_all(&top).expect("no scratch directory");
                (SqliteUndoStore::open(top.join("project"), Options::new()).expect("no undo store"), top)
            });
            st.irreversible_mutate(Box::new(move |m| *m = p));
            f(st)
        })
    }
    fn close(c: &mut Option<(ProjectStore, PathBuf)>) { if let Some((st, dir)) = c.take() { drop(st); let _ = std::fs::remove_dir_all(dir); } }
    pub fn cleanup() { STORE.with(|c| close(&mut c.borrow_mut())); }
    /// Until the store has noted all commands.
    pub fn settle(st: &mut ProjectStore) { while !st.saved().expect("the undo store fails") { std::thread::yield_now(); } }

    /// What the user sees of a project.
    #[derive(Clone, PartialEq)]
    pub struct Score { pub set: String, pub notes: Vec<(u32, String)>, pub bars: BTreeMap<u32, Bar>, pub tempos: BTreeMap<u32, Tempo>, pub dumpers: BTreeMap<u32, CtrlChg>, pub softs: BTreeMap<u32, CtrlChg> }
    pub fn score(p: &ProjectImpl) -> Score {
        let mut notes: Vec<(u32, String)> = p.note_repo().iter().map(|(t, n)| (*t, format!("{n:?}"))).collect();
        notes.sort();
        for (t, n) in p.note_repo().iter() { assert!(*t == n.start_tick(), "a note that starts at {} is filed at {t}", n.start_tick()); }
        fn track<T: Clone>(i: impl Iterator<Item = (u32, T)>, what: &str, own: impl Fn(&T) -> u32) -> BTreeMap<u32, T> {
            let v: Vec<(u32, T)> = i.collect();
            for (t, x) in &v { assert!(*t == own(x), "{what} of tick {} filed at {t}", own(x)); }
            let n = v.len();
            let m: BTreeMap<u32, T> = v.into_iter().collect();
            assert!(m.len() == n, "two {what}s on one tick");
            m
        }
        Score {
            set: format!("{:?} {:?} {:?}", p.rhythm(), p.key(), p.grid()), notes,
            bars: track(p.bar_repo().iter().map(|x| (x.0, x.1)), "bar", |x| x.start_tick),
            tempos: track(p.tempo_repo().iter().map(|x| (x.0, x.1)), "tempo", |x| x.start_tick),
            dumpers: track(p.dumper_repo().iter().map(|x| (x.0, x.1)), "damper event", |x| x.start_tick),
            softs: track(p.soft_repo().iter().map(|x| (x.0, x.1)), "soft pedal event", |x| x.start_tick),
        }
    }
    impl Score {
        pub fn differs(&self, o: &Score) -> Option<String> {
            if self.set != o.set { return Some(format!("settings {} / {}", self.set, o.set)); }
            if self.notes != o.notes { return Some(format!("{} / {} notes: {:?} / {:?}", self.notes.len(), o.notes.len(),
                self.notes.iter().filter(|x| !o.notes.contains(x)).map(|x| x.0).collect::<Vec<_>>(), o.notes.iter().filter(|x| !self.notes.contains(x)).map(|x| x.0).collect::<Vec<_>>())); }
            if self.bars != o.bars { return Some(format!("bars {:?} / {:?}", self.bars.keys().collect::<Vec<_>>(), o.bars.keys().collect::<Vec<_>>())); }
            if self.tempos != o.tempos { return Some(format!("tempos {:?} / {:?}", self.tempos, o.tempos)); }
            if self.dumpers != o.dumpers { return Some(format!("damper {:?} / {:?}", self.dumpers, o.dumpers)); }
            if self.softs != o.softs { return Some(format!("soft pedal {:?} / {:?}", self.softs, o.softs)); }
            None
        }
    }
    pub fn end_of(p: &ProjectImpl) -> u64 {
        let n = p.note_repo().iter().map(|(t, n)| *t as u64 + n.tick_len() as u64).max().unwrap_or(0);
        let x = p.tempo_repo().iter().map(|x| x.0).chain(p.dumper_repo().iter().map(|x| x.0)).chain(p.soft_repo().iter().map(|x| x.0)).max().unwrap_or(0);
        n.max(x as u64)
    }

    /// A world of ticks: everything happens within `span` after `from`.
    #[derive(Clone, Copy)]
    pub struct World { pub from: u32, pub span: u32 }
    impl World {
        pub fn tick<S: Src>(&self, s: &mut S) -> u32 { self.from + tick(s, self.span) }
        pub fn note<S: Src>(&self, s: &mut S) -> Note { let t = self.tick(s); note_at(s, t) }
        pub fn tempo<S: Src>(&self, s: &mut S) -> Tempo { let t = self.tick(s); Tempo::new(t, gen::tempo_value(s).as_u16()) }
        pub fn pedal<S: Src>(&self, s: &mut S) -> CtrlChg { let t = self.tick(s); pedal(s, t) }
        pub fn bar<S: Src>(&self, s: &mut S) -> Bar { let t = self.tick(s); bar(s, t) }
    }
    fn uniq<T>(v: Vec<T>, f: impl Fn(&T) -> u32) -> Vec<T> {
        let mut seen = std::collections::BTreeSet::new();
        v.into_iter().filter(|x| seen.insert(f(x))).collect()
    }
    fn some<S: Src, T>(s: &mut S, most: u8, mut f: impl FnMut(&mut S) -> T) -> Vec<T> { let n = s.below(most + 1); (0..n).map(|_| f(s)).collect() }
    pub fn world<S: Src>(s: &mut S) -> (World, ProjectImpl) {
        let w = match s.below(8) { 0 => World { from: 0, span: 6 }, 1 => World { from: 1 << 20, span: 4000 }, 2 => World { from: (1 << 31) - 40_000, span: 4000 }, _ => World { from: 0, span: 4000 } };
        let mut m = Models::empty();
        m.notes = some(s, 5, |s| w.note(s));
        if s.below(3) == 0 && !m.notes.is_empty() { m.notes.push(m.notes[0].clone()); }
        m.bars = if s.below(16) == 0 { bars_in(s, w.span, 40).into_iter().map(|mut b| { b.start_tick += w.from; b }).collect() } else { some(s, 5, |s| w.bar(s)) };
        if w.from > 0 { m.bars.push(bar(s, w.from)); }
        m.tempos = some(s, 4, |s| w.tempo(s)); m.dumpers = some(s, 4, |s| w.pedal(s)); m.softs = some(s, 4, |s| w.pedal(s));
        let p = project(gen::rhythm(s), gen::key(s), grid(s), &m);
        (w, p)
    }
    fn pick<S: Src, T: Clone>(s: &mut S, v: Vec<T>) -> Vec<T> { let k = s.below(4); v.into_iter().filter(|_| match k { 0 => false, 1 => true, _ => s.bool() }).collect() }
    fn notes_of(st: &ProjectStore) -> Vec<Rc<Note>> { st.model().note_repo().iter().map(|(_, n)| n.clone()).collect() }

    /// One edit, as the user orders it.
    pub enum Edit { Note(Note), Bar(Bar), Tempo(Tempo), Dumper(CtrlChg), Soft(CtrlChg), Tuple(Vec<Rc<Note>>), Remove(Models), Add(Models), Change(klavier_core::models::ModelChanges), Rhythm(Rhythm), Key(Key), Grid(klavier_core::grid::Grid) }
    impl Edit {
        pub fn name(&self) -> &'static str {
            match self { Edit::Note(_) => "add_note", Edit::Bar(_) => "add_bar", Edit::Tempo(_) => "add_tempo", Edit::Dumper(_) => "add_dumper", Edit::Soft(_) => "add_soft", Edit::Tuple(_) => "tuplize",
                Edit::Remove(_) => "bulk_remove", Edit::Add(_) => "bulk_add", Edit::Change(_) => "change", Edit::Rhythm(_) => "set_rhythm", Edit::Key(_) => "set_key", Edit::Grid(_) => "set_grid" }
        }
        pub fn replenishes(&self) -> bool { !matches!(self, Edit::Bar(_) | Edit::Remove(_) | Edit::Rhythm(_) | Edit::Key(_) | Edit::Grid(_)) }
        pub fn choose<S: Src>(s: &mut S, w: World, st: &ProjectStore) -> Option<Edit> {
            let p = st.model();
            let far = w.from > 0;
            Some(match s.below(16) {
                0 => Edit::Note(w.note(s)), 1 => Edit::Bar(w.bar(s)), 2 => Edit::Tempo(w.tempo(s)), 3 => Edit::Dumper(w.pedal(s)), 4 => Edit::Soft(w.pedal(s)),
                5 | 6 => {
                    let v = pick(s, notes_of(st));
                    if v.len() < 2 { return None; }
                    Edit::Tuple(v)
                }
                7 => Edit::Remove(Models {
                    notes: pick(s, notes_of(st)).iter().map(|n| (**n).clone()).collect(),
                    bars: if far { vec![] } else { pick(s, p.bar_repo().iter().map(|x| x.1).collect()) },
                    tempos: pick(s, p.tempo_repo().iter().map(|x| x.1).collect()), dumpers: pick(s, p.dumper_repo().iter().map(|x| x.1).collect()), softs: pick(s, p.soft_repo().iter().map(|x| x.1).collect()),
                }),
                8 | 9 | 10 => {
                    let mut m = Models::empty();
                    m.notes = some(s, 3, |s| w.note(s));
                    m.bars = uniq(some(s, 3, |s| w.bar(s)), |x| x.start_tick);
                    m.tempos = uniq(some(s, 3, |s| w.tempo(s)), |x| x.start_tick);
                    m.dumpers = uniq(some(s, 3, |s| w.pedal(s)), |x| x.start_tick);
                    m.softs = uniq(some(s, 3, |s| w.pedal(s)), |x| x.start_tick);
                    Edit::Add(m)
                }
                11 | 12 | 13 => {
                    let mut c = klavier_core::models::ModelChanges { notes: vec![], bars: vec![], tempos: vec![], dumpers: vec![], softs: vec![] };
                    for n in pick(s, notes_of(st)) { let t = if s.bool() { w.note(s) } else { let k = w.tick(s); let mut x = (*n).clone(); x.base_start_tick = k; x }; c.notes.push(((*n).clone(), t)); }
                    if !far { for b in pick(s, p.bar_repo().iter().map(|x| x.1).collect::<Vec<_>>()) { let t = w.bar(s); c.bars.push((b, t)); } }
                    for b in pick(s, p.tempo_repo().iter().map(|x| x.1).collect::<Vec<_>>()) { let t = w.tempo(s); c.tempos.push((b, t)); }
                    for b in pick(s, p.dumper_repo().iter().map(|x| x.1).collect::<Vec<_>>()) { let t = w.pedal(s); c.dumpers.push((b, t)); }
                    for b in pick(s, p.soft_repo().iter().map(|x| x.1).collect::<Vec<_>>()) { let t = w.pedal(s); c.softs.push((b, t)); }
                    c.bars = uniq(c.bars, |x| x.1.start_tick); c.tempos = uniq(c.tempos, |x| x.1.start_tick);
                    c.dumpers = uniq(c.dumpers, |x| x.1.start_tick); c.softs = uniq(c.softs, |x| x.1.start_tick);
                    Edit::Change(c)
                }
                14 => Edit::Rhythm(gen::rhythm(s)),
                _ => if s.bool() { Edit::Key(gen::key(s)) } else { Edit::Grid(grid(s)) },
            })
        }
        pub fn apply<S: Src>(&self, s: &mut S, st: &mut ProjectStore) {
            let sel = s.bool();
            self.order(sel, ModelChangeMetadata::new().with_need_select(sel), st)
        }
        pub fn order(&self, sel: bool, md: ModelChangeMetadata, st: &mut ProjectStore) {
            match self {
                Edit::Note(n) => st.add_note(n.clone(), sel), Edit::Bar(b) => st.add_bar(*b, sel), Edit::Tempo(t) => st.add_tempo(*t, sel),
                Edit::Dumper(d) => st.add_dumper(*d, sel), Edit::Soft(d) => st.add_soft(*d, sel), Edit::Tuple(v) => st.tuplize(v.clone()),
                Edit::Remove(m) => st.bulk_remove(m.clone(), md), Edit::Add(m) => st.bulk_add(m.clone(), md),
                Edit::Change(c) => st.change(klavier_core::models::ModelChanges { notes: c.notes.clone(), bars: c.bars.clone(), tempos: c.tempos.clone(), dumpers: c.dumpers.clone(), softs: c.softs.clone() }, md),
                Edit::Rhythm(r) => st.set_rhythm(*r), Edit::Key(k) => st.set_key(*k), Edit::Grid(g) => st.set_grid(*g),
            }
        }
        /// What the edit itself does to the bars.
        pub fn bars(&self, mut b: BTreeMap<u32, Bar>) -> BTreeMap<u32, Bar> {
            match self {
                Edit::Bar(x) => { b.insert(x.start_tick, *x); }
                Edit::Remove(m) => for x in &m.bars { b.remove(&x.start_tick); },
                Edit::Add(m) => for x in &m.bars { b.insert(x.start_tick, *x); },
                Edit::Change(c) => { for x in &c.bars { b.remove(&x.0.start_tick); } for x in &c.bars { b.insert(x.1.start_tick, x.1); } }
                _ => {}
            }
            b
        }
    }
}

pub mod c16 {
    use super::*;
    use super::edits::*;
    use serdo::undo_store::UndoStore;
    harnesses! { "C16";
        replenish [] |s| {
            let (w, p) = world(s);
            let n = s.in_u32(1, 3);
            with(p, |st| for _ in 0..n {
                let Some(e) = Edit::choose(s, w, st) else { continue };
                let before = score(st.model());
                e.apply(s, st);
                s.reached();
                let after = score(st.model());
                let mut want = e.bars(before.bars);
                if e.replenishes() {
                    let end = end_of(st.model());
                    let last = want.keys().next_back().copied().unwrap_or(0);
                    let r = want.values().rev().find_map(|x| x.rhythm).unwrap_or(st.model().rhythm());
                    let len = r.numerator.value() as u64 * 960 / r.denominator.value() as u64;
                    let mut t = last as u64;
                    while t < end { t += len; want.insert(t as u32, Bar::new(t as u32, None, None, RepeatSet::EMPTY)); }
                    if !want.is_empty() { assert!(*after.bars.keys().next_back().expect("no bars") as u64 >= end, "{}: the bars end before the music ({end})", e.name()); }
                }
                assert!(after.bars == want, "{}: bars {:?}, not {:?}", e.name(), after.bars.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>());
            })
        }
    }
}

pub mod c17 {
    use super::*;
    use super::edits::*;
    use serdo::undo_store::UndoStore;
    harnesses! { "C17";
        history [] |s| {
            let (w, p) = world(s);
            let n = s.in_u32(1, 5);
            with(p, |st| {
                let mut past = vec![score(st.model())];
                let mut names = vec![];
                for _ in 0..n {
                    let Some(e) = Edit::choose(s, w, st) else { continue };
                    e.apply(s, st);
                    settle(st);
                    names.push(e.name());
                    past.push(score(st.model()));
                }
                s.reached();
                let top = names.len();
                let mut at = top;
                let check = |st: &ProjectStore, at: usize, what: &str| if let Some(d) = score(st.model()).differs(&past[at]) { panic!("{what} {}: {d}", names[at - (what == "redoing") as usize]) };
                for _ in 0..s.below(8) {
                    if at > 0 && s.bool() { st.undo(); at -= 1; check(st, at, "undoing"); } else if at < top { st.redo(); at += 1; check(st, at, "redoing"); }
                }
                while at > 0 { st.undo(); at -= 1; check(st, at, "undoing"); }
                while at < top { st.redo(); at += 1; check(st, at, "redoing"); }
            })
        }
    }
}

pub mod c29 {
    use super::*;
    use super::edits::*;
    use serdo::undo_store::UndoStore;
    /// The score the user ordered, but for bars at the end.
    fn ordered(e: &Edit, s: &Score) -> Score {
        let key = |n: &Note| (n.start_tick(), format!("{n:?}"));
        let mut r = s.clone();
        let mut gone: Vec<(u32, String)> = vec![];
        match e {
            Edit::Note(n) => r.notes.push(key(n)),
            Edit::Bar(x) => { r.bars.insert(x.start_tick, *x); }
            Edit::Tempo(x) => { r.tempos.insert(x.start_tick, *x); }
            Edit::Dumper(x) => { r.dumpers.insert(x.start_tick, *x); }
            Edit::Soft(x) => { r.softs.insert(x.start_tick, *x); }
            Edit::Tuple(v) => {
                if v.len() > 1 {
                    gone = v.iter().map(|n| key(n)).collect();
                    r.notes.extend(klavier_core::tuple::tuplize(v.clone()).iter().map(|n| key(n)));
                }
            }
            Edit::Remove(m) => {
                gone = m.notes.iter().map(key).collect();
                for x in &m.bars { r.bars.remove(&x.start_tick); }
                for x in &m.tempos { r.tempos.remove(&x.start_tick); }
                for x in &m.dumpers { r.dumpers.remove(&x.start_tick); }
                for x in &m.softs { r.softs.remove(&x.start_tick); }
            }
            Edit::Add(m) => {
                r.notes.extend(m.notes.iter().map(key));
                for x in &m.bars { r.bars.insert(x.start_tick, *x); }
                for x in &m.tempos { r.tempos.insert(x.start_tick, *x); }
                for x in &m.dumpers { r.dumpers.insert(x.start_tick, *x); }
                for x in &m.softs { r.softs.insert(x.start_tick, *x); }
            }
            Edit::Change(c) => {
                gone = c.notes.iter().map(|x| key(&x.0)).collect();
                for x in &c.bars { r.bars.remove(&x.0.start_tick); }
                for x in &c.tempos { r.tempos.remove(&x.0.start_tick); }
                for x in &c.dumpers { r.dumpers.remove(&x.0.start_tick); }
                for x in &c.softs { r.softs.remove(&x.0.start_tick); }
                r.notes.extend(c.notes.iter().map(|x| key(&x.1)));
                for x in &c.bars { r.bars.insert(x.1.start_tick, x.1); }
                for x in &c.tempos { r.tempos.insert(x.1.start_tick, x.1); }
                for x in &c.dumpers { r.dumpers.insert(x.1.start_tick, x.1); }
                for x in &c.softs { r.softs.insert(x.1.start_tick, x.1); }
            }
            Edit::Rhythm(_) | Edit::Key(_) | Edit::Grid(_) => {}
        }
        for g in gone { let i = r.notes.iter().position(|x| *x == g).expect("a note to remove is not there"); r.notes.remove(i); }
        r.notes.sort();
        r
    }
    harnesses! { "C29";
        effect [] |s| {
            let (w, p) = world(s);
            let n = s.in_u32(1, 3);
            with(p, |st| for _ in 0..n {
                let Some(e) = Edit::choose(s, w, st) else { continue };
                let before = score(st.model());
                let (rh, ky, gr) = (st.model().rhythm(), st.model().key(), st.model().grid());
                let mut want = ordered(&e, &before);
                want.set = match &e { Edit::Rhythm(r) => format!("{:?} {:?} {:?}", r, ky, gr), Edit::Key(k) => format!("{:?} {:?} {:?}", rh, k, gr), Edit::Grid(g) => format!("{:?} {:?} {:?}", rh, ky, g), _ => want.set };
                e.apply(s, st);
                s.reached();
                let mut after = score(st.model());
                if e.replenishes() {
                    let last = want.bars.keys().next_back().copied();
                    let more: Vec<u32> = after.bars.keys().copied().filter(|t| last.map_or(true, |l| *t > l)).collect();
                    for t in more { let b = after.bars.remove(&t).unwrap(); assert!(b == Bar::new(t, None, None, RepeatSet::EMPTY), "{}: the bar added at {t} is {b:?}", e.name()); }
                }
                if let Some(d) = after.differs(&want) { panic!("{}: {d} (after the edit / ordered)", e.name()); }
            })
        }
        builders [] |s| {
            use klavier_core::models::ModelChanges;
            let m = models(s, 4000, 4); let q = models(s, 4000, 4);
            let c: Vec<(Note, Note)> = m.notes.iter().cloned().zip(q.notes.iter().cloned()).collect();
            let b: Vec<(Bar, Bar)> = m.bars.iter().copied().zip(q.bars.iter().copied()).collect();
            let t: Vec<(Tempo, Tempo)> = m.tempos.iter().copied().zip(q.tempos.iter().copied()).collect();
            let d: Vec<(CtrlChg, CtrlChg)> = m.dumpers.iter().copied().zip(q.dumpers.iter().copied()).collect();
            let f: Vec<(CtrlChg, CtrlChg)> = m.softs.iter().copied().zip(q.softs.iter().copied()).collect();
            s.reached();
            let e = if s.bool() { ModelChanges::empty() } else { ModelChanges::with_capacity(1, 2, 0, 1, 3) };
            assert!(e.notes.is_empty() && e.bars.is_empty() && e.tempos.is_empty() && e.dumpers.is_empty() && e.softs.is_empty(), "no changes are some");
            let x = e.with_softs(f.clone()).with_notes(c.clone()).with_bars(b.clone()).with_tempos(t.clone()).with_dumpers(d.clone());
            assert!(x.notes == c && x.bars == b && x.tempos == t && x.dumpers == d && x.softs == f, "the changes are not those given");
            let rc: Vec<std::rc::Rc<Note>> = m.notes.iter().cloned().map(std::rc::Rc::new).collect();
            let y = Models::empty().with_softs(m.softs.clone()).with_dumpers(m.dumpers.clone()).with_tempos(m.tempos.clone()).with_bars(m.bars.clone()).with_notes(&rc);
            assert!(y.notes == m.notes && y.bars == m.bars && y.tempos == m.tempos && y.dumpers == m.dumpers && y.softs == m.softs, "the items are not those given");
        }
    }
}

pub mod c30 {
    use super::*;
    use super::edits::*;
    use klavier_core::project::ModelChangeMetadata;
    use klavier_helper::{bag_store::BagStoreEvent, store::StoreEvent};
    use serdo::undo_store::UndoStore;
    use std::rc::Rc;
    type Md = ModelChangeMetadata;
    /// What a listener knows.
    #[derive(Clone)]
    struct Heard { notes: Vec<(u32, String)>, bars: BTreeMap<u32, Bar>, tempos: BTreeMap<u32, Tempo>, dumpers: BTreeMap<u32, CtrlChg>, softs: BTreeMap<u32, CtrlChg> }
    fn follow<T: Clone>(m: &mut BTreeMap<u32, T>, ev: &[StoreEvent<u32, T, Md>], own: impl Fn(&T) -> u32) {
        for e in ev {
            match e {
                StoreEvent::Added { added, .. } => { m.insert(own(added), added.clone()); }
                StoreEvent::Removed(x) => { m.remove(&own(x)); }
                StoreEvent::ClearedAll => m.clear(),
                StoreEvent::BulkAddedRemoved { added, removed, .. } => {
                    for (k, _) in removed { m.remove(k); }
                    for (k, x) in added { m.insert(*k, x.clone()); }
                }
                StoreEvent::Changed { from_to, removed, .. } => {
                    for ((k, _), _) in from_to { m.remove(k); }
                    for (k, _) in removed { m.remove(k); }
                    for (_, (k, x)) in from_to { m.insert(*k, x.clone()); }
                }
            }
        }
    }
    fn follow_notes(m: &mut Vec<(u32, String)>, ev: &[BagStoreEvent<u32, Rc<Note>, Md>]) {
        let key = |n: &Rc<Note>| (n.start_tick(), format!("{n:?}"));
        fn out(m: &mut Vec<(u32, String)>, x: (u32, String)) { let i = m.iter().position(|y| *y == x).expect("a note that is not there is said to go"); m.remove(i); }
        for e in ev {
            match e {
                BagStoreEvent::Added { added, .. } => m.push(key(added)),
                BagStoreEvent::AddedVec { added, .. } => m.extend(added.iter().map(key)),
                BagStoreEvent::Removed(n) => out(m, key(n)),
                BagStoreEvent::RemovedVec(v) => for n in v { out(m, key(n)); },
                BagStoreEvent::ClearedAll => m.clear(),
                BagStoreEvent::BulkAddedRemoved { added, removed, .. } => { for x in removed { out(m, key(&x.1)); } m.extend(added.iter().map(|x| key(&x.1))); }
                BagStoreEvent::Changed { from_to, removed, .. } => {
                    for x in from_to { out(m, key(&x.0 .1)); }
                    for x in removed { out(m, key(&x.1)); }
                    m.extend(from_to.iter().map(|x| key(&x.1 .1)));
                }
            }
        }
    }
    impl Heard {
        fn of(x: &Score) -> Heard { Heard { notes: x.notes.clone(), bars: x.bars.clone(), tempos: x.tempos.clone(), dumpers: x.dumpers.clone(), softs: x.softs.clone() } }
        fn nothing() -> Heard { Heard { notes: vec![], bars: BTreeMap::new(), tempos: BTreeMap::new(), dumpers: BTreeMap::new(), softs: BTreeMap::new() } }
        fn check(&self, x: &Score, what: &str) {
            let mut n = self.notes.clone();
            n.sort();
            assert!(n == x.notes, "{what}: the events make {} notes of it, there are {}", n.len(), x.notes.len());
            assert!(self.bars == x.bars, "{what}: the events make bars {:?} of it, there are {:?}", self.bars.keys().collect::<Vec<_>>(), x.bars.keys().collect::<Vec<_>>());
            assert!(self.tempos == x.tempos, "{what}: the events make tempos {:?} of it, there are {:?}", self.tempos, x.tempos);
            assert!(self.dumpers == x.dumpers, "{what}: the events make damper {:?} of it, there is {:?}", self.dumpers, x.dumpers);
            assert!(self.softs == x.softs, "{what}: the events make soft pedal {:?} of it, there is {:?}", self.softs, x.softs);
        }
        /// Takes in the events told from these places on.
        fn take(&mut self, st: &ProjectStore, from: [usize; 5]) {
            follow_notes(&mut self.notes, &st.note_events()[from[0]..]);
            follow(&mut self.bars, &st.bar_events()[from[1]..], |x| x.start_tick);
            follow(&mut self.tempos, &st.tempo_events()[from[2]..], |x| x.start_tick);
            follow(&mut self.dumpers, &st.dumper_events()[from[3]..], |x| x.start_tick);
            follow(&mut self.softs, &st.soft_events()[from[4]..], |x| x.start_tick);
        }
    }
    fn counts(st: &ProjectStore) -> [usize; 5] { [st.note_events().len(), st.bar_events().len(), st.tempo_events().len(), st.dumper_events().len(), st.soft_events().len()] }
    fn meta<T>(e: &StoreEvent<u32, T, Md>) -> Option<Md> { match e { StoreEvent::Added { metadata, .. } | StoreEvent::BulkAddedRemoved { metadata, .. } | StoreEvent::Changed { metadata, .. } => Some(*metadata), _ => None } }
    fn nmeta(e: &BagStoreEvent<u32, Rc<Note>, Md>) -> Option<Md> { match e { BagStoreEvent::Added { metadata, .. } | BagStoreEvent::AddedVec { metadata, .. } | BagStoreEvent::BulkAddedRemoved { metadata, .. } | BagStoreEvent::Changed { metadata, .. } => Some(*metadata), _ => None } }
    /// All metadata told from these places on, track by track.
    fn metas(st: &ProjectStore, from: [usize; 5]) -> [Vec<Md>; 5] {
        [st.note_events()[from[0]..].iter().filter_map(nmeta).collect(), st.bar_events()[from[1]..].iter().filter_map(meta).collect(), st.tempo_events()[from[2]..].iter().filter_map(meta).collect(),
         st.dumper_events()[from[3]..].iter().filter_map(meta).collect(), st.soft_events()[from[4]..].iter().filter_map(meta).collect()]
    }
    harnesses! { "C30";
        told [] |s| {
            let (w, p) = world(s);
            let n = s.in_u32(1, 4);
            with(p, |st| {
                let mut h = Heard::nothing();
                h.take(st, [0; 5]);
                h.check(&score(st.model()), "loading");
                let mut filed: Vec<Option<Md>> = vec![];
                for _ in 0..n {
                    let Some(e) = Edit::choose(s, w, st) else { continue };
                    if s.below(3) == 0 {
                        let before = score(st.model());
                        st.clear_model_events();
                        assert!(counts(st) == [0; 5], "clearing the events leaves {:?}", counts(st));
                        if let Some(d) = before.differs(&score(st.model())) { panic!("clearing the events changes {d}"); }
                    }
                    let at = counts(st);
                    let old = metas(st, [0; 5]);
                    let sel = s.bool();
                    let md = match s.below(3) { 0 => Md { need_select: None, dragged: s.bool() }, _ => Md { need_select: Some(s.bool()), dragged: s.bool() } };
                    e.order(sel, md, st);
                    settle(st);
                    s.reached();
                    let now = counts(st);
                    assert!((0..5).all(|i| now[i] >= at[i]), "{}: events are lost", e.name());
                    assert!((0..5).all(|i| metas(st, [0; 5])[i].starts_with(&old[i])), "{}: events are rewritten", e.name());
                    h.take(st, at);
                    h.check(&score(st.model()), e.name());
                    let chosen = Md { need_select: if sel { Some(true) } else { None }, dragged: false };
                    let m = metas(st, at);
                    let only = |i: usize, x: Md, what: &str| for y in &m[i] { assert!(*y == x, "{}: a {what} event carries {y:?}, not {x:?}", e.name()); };
                    let what = ["note", "bar", "tempo", "damper", "soft pedal"];
                    let mut own: Option<Md> = None;
                    match &e {
                        Edit::Note(_) => { only(0, chosen, what[0]); assert!(!m[0].is_empty()); own = Some(chosen); }
                        Edit::Bar(_) => { only(1, chosen, what[1]); assert!(!m[1].is_empty()); own = Some(chosen); }
                        Edit::Tempo(_) => { only(2, chosen, what[2]); assert!(!m[2].is_empty()); own = Some(chosen); }
                        Edit::Dumper(_) => { only(3, chosen, what[3]); assert!(!m[3].is_empty()); own = Some(chosen); }
                        Edit::Soft(_) => { only(4, chosen, what[4]); assert!(!m[4].is_empty()); own = Some(chosen); }
                        Edit::Tuple(v) => if v.len() > 1 {
                            let t = Md { need_select: Some(true), dragged: false };
                            let mut want: Vec<String> = klavier_core::tuple::tuplize(v.clone()).iter().map(|n| format!("{n:?}")).collect();
                            want.sort();
                            let told = st.note_events()[at[0]..].iter().any(|x| match x {
                                BagStoreEvent::BulkAddedRemoved { added, metadata, .. } => { let mut g: Vec<String> = added.iter().map(|y| format!("{:?}", y.1)).collect(); g.sort(); g == want && *metadata == t }
                                _ => false,
                            });
                            assert!(told, "tuplize: no event selects the tuplet");
                            own = Some(t);
                        },
                        Edit::Remove(_) => own = Some(md),
                        Edit::Add(_) | Edit::Change(_) => {
                            for i in [0, 2, 3, 4] { only(i, md, what[i]); }
                            let bars = match &e { Edit::Add(x) => x.bars.len(), Edit::Change(c) => c.bars.len(), _ => 0 };
                            if bars > 0 { assert!(m[1].contains(&md), "{}: no bar event carries {md:?}", e.name()); }
                            own = Some(md);
                        }
                        _ => {}
                    }
                    filed.push(own);
                }
                while let Some(own) = filed.pop() {
                    if matches!(own, None) && !st.can_undo() { break; }
                    let at = counts(st);
                    st.undo();
                    let now = counts(st);
                    assert!((0..5).all(|i| now[i] >= at[i]), "undoing: events are lost");
                    h.take(st, at);
                    h.check(&score(st.model()), "undoing");
                    if let Some(own) = own { for v in metas(st, at) { for y in v { assert!(y == own, "undoing: an event carries {y:?}, not {own:?}"); } } }
                }
            })
        }
        fresh [] |s| {
            let p = ProjectImpl::default();
            s.reached();
            with(p, |st| {
                assert!(counts(st) == [0; 5], "a new project has events {:?}", counts(st));
                let mut h = Heard::of(&score(st.model()));
                let t = s.in_u32(0, 100);
                st.add_note(note_at(s, t), true); st.add_tempo(Tempo::new(t, 120), false); st.add_dumper(pedal(s, t), true); st.add_soft(pedal(s, t), false); st.add_bar(bar(s, t), true);
                h.take(st, [0; 5]);
                h.check(&score(st.model()), "editing a new project");
            })
        }
    }
}

pub mod c25 {
    use super::*;
    use super::edits::*;
    harnesses! { "C25";
        save_and_load [] |s| {
            let top = match s.below(3) { 0 => 8, 1 => 4000, _ => u32::MAX - 200_000 };
            let mut m = models(s, top, 6);
            if s.below(3) == 0 && !m.notes.is_empty() { m.notes.push(m.notes[0].clone()); }
            let (rh, ky, g) = (gen::rhythm(s), gen::key(s), grid(s));
            let p = project(rh, ky, g, &m);
            s.reached();
            let a = score(&p);
            assert!(p.rhythm() == rh && p.key() == ky && p.grid() == g, "settings {:?} {:?} {:?} loaded as {}", rh, ky, g, a.set);
            let mut notes: Vec<(u32, String)> = m.notes.iter().map(|n| (n.start_tick(), format!("{n:?}"))).collect();
            notes.sort();
            assert!(a.notes == notes, "{} notes loaded as {}", notes.len(), a.notes.len());
            assert!(a.bars == by_tick(&m.bars, |b| b.start_tick) && a.tempos == by_tick(&m.tempos, |b| b.start_tick), "bars or tempos are loaded differently");
            assert!(a.dumpers == by_tick(&m.dumpers, |b| b.start_tick) && a.softs == by_tick(&m.softs, |b| b.start_tick), "pedals are loaded differently");
            let stored = serde_json::to_value(&p).expect("a project cannot be stored");
            let e: Models = serde_json::from_value(stored["models"].clone()).expect("stored items cannot be read");
            let mut kept: Vec<(u32, String)> = e.notes.iter().map(|n| (n.start_tick(), format!("{n:?}"))).collect();
            kept.sort();
            assert!(kept == a.notes, "{} notes stored as {}", a.notes.len(), kept.len());
            assert!(e.bars.len() == a.bars.len() && e.tempos.len() == a.tempos.len() && e.dumpers.len() == a.dumpers.len() && e.softs.len() == a.softs.len(), "stored {} bars, {} tempos, {} damper, {} soft pedal events of {}, {}, {}, {}",
                e.bars.len(), e.tempos.len(), e.dumpers.len(), e.softs.len(), a.bars.len(), a.tempos.len(), a.dumpers.len(), a.softs.len());
            let q: ProjectImpl = serde_json::from_value(stored).expect("a stored project cannot be loaded");
            if let Some(d) = a.differs(&score(&q)) { panic!("saving and loading changes {d}"); }
        }
    }
}

pub mod c21 {
    use super::*;
    use klavier_core::play_start_tick::*;
    use klavier_core::repeat::Chunk;
    fn played(v: &[Chunk]) -> Vec<u32> { v.iter().flat_map(|c| c.start_tick()..c.end_tick()).collect() }
    fn sections<S: Src>(s: &mut S, top: u32, most: u8) -> Vec<Chunk> {
        let mut v: Vec<Chunk> = vec![];
        for _ in 0..s.below(most) {
            let a = match v.last() { Some(c) if s.bool() && c.end_tick() < top => c.end_tick(), _ => s.in_u32(0, top - 1) };
            let b = s.in_u32(a + 1, top);
            v.push(Chunk::new(a, b));
        }
        v
    }
    harnesses! { "C21";
        merge [] |s| {
            let v = sections(s, 12, 9);
            s.reached();
            let o = Chunk::optimize(&v);
            assert!(played(&o) == played(&v), "{v:?} merges into {o:?}");
            assert!(o.windows(2).all(|w| w[0].end_tick() != w[1].start_tick()), "{v:?} merges into {o:?}, leaving mergeable neighbours");
            let c = Chunk::new(s.in_u32(0, 9), s.in_u32(9, 20));
            let t = s.in_u32(0, 20);
            assert!(c.contains(t) == (c.start_tick()..c.end_tick()).contains(&t), "{c:?} contains {t}");
            assert!(c.len() == c.end_tick() - c.start_tick());
        }
        layout [] |s| {
            let top = match s.below(3) { 0 => 12, 1 => 4000, _ => u32::MAX - 1 };
            let most = if s.below(8) == 0 { 250 } else { 9 };
            let mut v = sections(s, top, most);
            if s.bool() { let a = near(s, &v.iter().map(|c| c.end_tick()).collect::<Vec<_>>()).min(u32::MAX - 1); v.push(Chunk::new(a, u32::MAX)); }
            let mut at = vec![];
            let mut sum = 0u64;
            for c in &v { at.push(sum); if c.end_tick() != u32::MAX { sum += c.len() as u64; } }
            s.assume(sum <= u32::MAX as u64);
            s.reached();
            let l = Chunk::by_accum_tick(&v);
            assert!(l.len() == v.len(), "{v:?} is laid out as {} sections", l.len());
            for (i, x) in l.iter().enumerate() { assert!(x.0 as u64 == at[i] && x.1 == v[i], "{v:?}: section {i} is laid out as {x:?}"); }
            let marks: Vec<u32> = v.iter().flat_map(|c| [c.start_tick(), c.end_tick()]).collect();
            for _ in 0..8 {
                let t = near(s, &marks);
                let n = match s.below(3) { 0 => s.u8(), _ => s.below(7) };
                let hits: Vec<u64> = v.iter().enumerate().filter(|(_, c)| c.start_tick() <= t && t < c.end_tick()).map(|(i, c)| at[i] + (t - c.start_tick()) as u64).collect();
                if hits.len() > 254 || hits.iter().any(|x| *x > u32::MAX as u64) { continue; }
                let p = PlayStartTick::new(t, n);
                let n = n.clamp(1, 5);
                assert!(p.tick == t && p.iter.iter() == n);
                let r = p.to_accum_tick(&l);
                match hits.get(n as usize - 1) {
                    Some(x) => assert!(r == Ok(*x as u32), "pass {n} of tick {t} in {v:?} is at {r:?}, not {x}"),
                    None => assert!(r == Err(ToAccumTickError::CannotFind { specified_iter: p.iter, max_iter: hits.len() as u8 }), "pass {n} of tick {t} in {v:?}: {r:?}, there are {}", hits.len()),
                }
            }
        }
    }
}

/// Bar lines with marks, shared by C19 and C20.
pub mod score {
    use super::*;
    use klavier_core::global_repeat::*;
    use klavier_core::repeat::*;
    use std::result::Result;
    pub type E = RenderRegionError;

    /// Bar lines in ascending order: few ticks (so that everything meets), or bars of real music.
    pub fn bars<S: Src>(s: &mut S, weights: &[(u8, Repeat)]) -> Vec<Bar> {
        let mut t = 0u32;
        let unit = [1u32, 240, 480][s.below(3) as usize];
        let long = s.below(24) == 0;
        (0..if long { s.below(60) } else { s.below(9) }).map(|i| {
            t += unit * s.in_u32(if i == 0 { 0 } else { 1 }, if unit == 1 { 3 } else { 9 });
            let mut set = RepeatSet::EMPTY;
            for (w, r) in weights { if s.below(100) < *w && !(long && s.below(6) != 0) { if let Ok(x) = set.try_add(*r) { set = x; } } }
            let r = if s.below(4) == 0 { Some(gen::rhythm(s)) } else { None };
            Bar::new(t, r, None, set)
        }).collect()
    }
    pub fn rhythm<S: Src>(s: &mut S) -> Rhythm { match s.below(4) { 0 => gen::rhythm(s), 1 => Rhythm::new(1, 64), 2 => Rhythm::new(3, 4), _ => Rhythm::new(4, 4) } }
    pub fn has(b: &Bar, r: Repeat) -> bool { b.repeats.contains(r) }
    pub fn ending(b: &Bar) -> Option<u8> { [Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4].iter().position(|v| has(b, *v)).map(|i| i as u8 + 1) }

    /// What is noted while walking the bar lines.
    #[derive(Clone, Debug, Default)]
    pub struct Noted { pub mark: Option<(bool, u32, u32)>, pub fine: Vec<u32>, pub segno: Vec<u32>, pub coda: Vec<u32>, pub first: Option<u32>, pub top: Option<Rhythm> }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Second { pub dc: bool, pub mark: u32, pub from: u32, pub fine: Option<u32>, pub skip: Option<(u32, u32)> }
    impl Second {
        pub fn plays(&self, t: u32) -> bool { self.from <= t && self.fine.map_or(t < u32::MAX, |f| t < f) && self.skip.map_or(true, |(a, b)| !(a <= t && t < b)) }
        /// Ticks where something changes, and their neighbours.
        pub fn edges(&self) -> Vec<u32> {
            let mut v = vec![0, self.from, self.mark];
            v.extend(self.fine); v.extend(self.skip.map(|x| x.0)); v.extend(self.skip.map(|x| x.1));
            v
        }
    }
    impl Noted {
        pub fn mark(&mut self, dc: bool, t: u32, len: u32) -> Result<(), E> {
            if let Some(m) = self.mark { return Err(E::DuplicatedDsDc { tick: [m.1, t] }); }
            self.mark = Some((dc, t, len));
            Ok(())
        }
        pub fn fine(&mut self, t: u32) -> Result<(), E> { self.fine.push(t); if let [a, b] = self.fine[..] { Err(E::DuplicatedFine { tick: [a, b] }) } else { Ok(()) } }
        pub fn segno(&mut self, t: u32) -> Result<(), E> { self.segno.push(t); if let [a, b] = self.segno[..] { Err(E::DuplicatedSegno { tick: [a, b] }) } else { Ok(()) } }
        pub fn coda(&mut self, t: u32) -> Result<(), E> { self.coda.push(t); if let [a, b, c] = self.coda[..] { Err(E::MoreThanTwoCodas { tick: [a, b, c] }) } else { Ok(()) } }
        pub fn bar(&mut self, b: &Bar) -> Result<(), E> {
            let t = b.start_tick;
            if self.first.is_none() { if t != 0 { self.first = Some(t); } else if let Some(r) = b.rhythm { self.top = Some(r); } }
            // Known finding: the length noted is that of the first bar.
            if has(b, Repeat::Dc) { self.mark(true, t, self.first.unwrap_or(0))?; }
            if has(b, Repeat::Ds) { self.mark(false, t, 0)?; }
            if has(b, Repeat::Fine) { self.fine(t)?; }
            if has(b, Repeat::Segno) { self.segno(t)?; }
            if has(b, Repeat::Coda) { self.coda(t)?; }
            Ok(())
        }
        pub fn done(&self, rhythm: Rhythm) -> Result<(Option<Second>, Vec<RenderRegionWarning>), E> {
            let Some((dc, mark, len)) = self.mark else { return Ok((None, vec![])) };
            let (segno, fine) = (self.segno.first().copied(), self.fine.first().copied());
            let mut w = vec![];
            let from;
            if dc {
                let Some(first) = self.first else { return Ok((None, vec![])) };
                if let Some(s) = segno { w.push(RenderRegionWarning::SegnoAndDcFound { segno_tick: s, dc_tick: mark }); }
                if let [c] = self.coda[..] { w.push(RenderRegionWarning::OrphanCodaFound { coda_tick: c }); }
                let full = self.top.unwrap_or(rhythm).tick_len() as u64;
                from = segno.unwrap_or(if (first as u64) < full && len as u64 + first as u64 != full { first } else { 0 });
            } else {
                let Some(s) = segno else { return Err(E::NoSegnoForDs { ds_tick: mark }) };
                if let [c] = self.coda[..] { return Err(E::OnlyOneCoda { tick: c }); }
                from = s;
            }
            let skip = if let [a, b] = self.coda[..] { Some((a, b)) } else { None };
            if let (Some((a, b)), Some(f)) = (skip, fine) { if f < b { return Err(E::CodaAfterFine { coda_from: a, coda_to: b, fine: f }); } }
            Ok((Some(Second { dc, mark, from, fine, skip }), w))
        }
    }
}

pub mod c20 {
    use super::*;
    use super::score::*;
    use gcollections::ops::Contains;
    use klavier_core::global_repeat::*;
    fn same(what: &str, r: &Option<GlobalRepeat>, e: &Option<Second>) {
        match (r, e) {
            (None, None) => {}
            (Some(g), Some(x)) => {
                assert!(g.segno() == x.from, "{what}: the second pass starts at {}, not {}", g.segno(), x.from);
                assert!(g.ds_dc().tick() == x.mark && matches!(g.ds_dc(), DsDc::Dc { .. }) == x.dc, "{what}: {:?}", g.ds_dc());
                for e in x.edges() {
                    for d in 0..7u32 {
                        let t = e.saturating_add(d).saturating_sub(3).min(u32::MAX - 1);
                        assert!(g.iter1_interval_set().contains(&t) == x.plays(t), "{what}: tick {t} of the second pass {x:?}");
                    }
                }
                assert!(g.iter1_interval_set().contains(&(u32::MAX - 1)) == x.plays(u32::MAX - 1));
            }
            _ => panic!("{what}: {r:?}, not {e:?}"),
        }
    }
    /// Where D.C. leads in this score, through the documented rule (docs/repeat/order.md).
    fn dc_from(ticks: &[u32], rhythm: Rhythm) -> u32 {
        let bars: Vec<Bar> = ticks.iter().enumerate().map(|(i, t)| Bar::new(*t, None, None, if i + 1 == ticks.len() { RepeatSet::EMPTY.try_add(Repeat::Dc).unwrap() } else { RepeatSet::EMPTY })).collect();
        let mut g = GlobalRepeatBuilder::new(rhythm);
        for b in &bars { g = g.on_bar(b).unwrap(); }
        g.build().unwrap().0.unwrap().segno()
    }
    harnesses! { "C20";
        marks_of_bars [] |s| {
            let w = [6, 20, 40];
            let mut pick = |s: &mut S| w[s.below(3) as usize];
            let weights = [(pick(s), Repeat::Dc), (pick(s), Repeat::Ds), (pick(s), Repeat::Fine), (pick(s), Repeat::Segno), (pick(s), Repeat::Coda), (10, Repeat::Start), (10, Repeat::End), (5, Repeat::Var1)];
            let v = bars(s, &weights);
            let r = rhythm(s);
            s.reached();
            let what = format!("{r:?} {:?}", v);
            let (mut g, mut n) = (GlobalRepeatBuilder::new(r), Noted::default());
            for b in &v {
                let e = n.bar(b);
                match (g.on_bar(b), e) {
                    (Ok(x), Ok(())) => g = x,
                    (Err(x), Err(y)) => { assert!(*x.current_context() == y, "{what}: {x:?}, not {y:?}"); return; }
                    (x, y) => panic!("{what}: {x:?} at {}, not {y:?}", b.start_tick),
                }
            }
            match (g.build(), n.done(r)) {
                (Ok((a, w)), Ok((b, x))) => { same(&what, &a, &b); assert!(w == x, "{what}: warnings {w:?}, not {x:?}"); }
                (Err(x), Err(y)) => assert!(*x.current_context() == y, "{what}: {x:?}, not {y:?}"),
                (x, y) => panic!("{what}: {x:?}, not {y:?}"),
            }
        }
        marks_added [] |s| {
            let r = rhythm(s);
            let (mut g, mut n) = (GlobalRepeatBuilder::new(r), Noted::default());
            let mut log = vec![];
            let small = s.bool();
            for _ in 0..s.below(8) {
                let t = if small { s.in_u32(0, 5) } else { tick(s, u32::MAX - 1) };
                let (x, e);
                match s.below(4) {
                    0 => { let l = if s.bool() { (r.tick_len()).saturating_sub(n.first.unwrap_or(0)) } else { tick(s, 1 << 31) }; log.push(format!("dc {t} {l}")); e = n.mark(true, t, l); x = g.adding_dc(t, l); }
                    1 => { log.push(format!("segno {t}")); e = n.segno(t); x = g.adding_segno(t); }
                    2 => { let t = if s.bool() { s.in_u32(0, r.tick_len() + 2) } else { tick(s, 1 << 30) }; log.push(format!("first {t}")); n.first = Some(t); e = Ok(()); x = g.adding_first_bar_len(t); }
                    _ => {
                        // The other marks come with bar lines only.
                        let Some(k) = [Repeat::Fine, Repeat::Coda, Repeat::Ds].get(s.below(3) as usize).copied() else { return };
                        if k == Repeat::Coda && n.coda.len() == 1 && n.coda[0] > t { continue; }
                        let b = Bar::new(t, None, None, RepeatSet::EMPTY.try_add(k).unwrap());
                        log.push(format!("{k:?} {t}")); e = n.bar(&b); x = g.on_bar(&b);
                    }
                }
                match (x, e) {
                    (Ok(x), Ok(())) => g = x,
                    (Err(x), Err(y)) => { assert!(*x.current_context() == y, "{log:?}: {x:?}, not {y:?}"); return; }
                    (x, y) => panic!("{log:?}: {x:?}, not {y:?}"),
                }
            }
            s.reached();
            match (g.build(), n.done(r)) {
                (Ok((a, w)), Ok((b, x))) => { same(&format!("{r:?} {log:?}"), &a, &b); assert!(w == x, "{log:?}: warnings {w:?}, not {x:?}"); }
                (Err(x), Err(y)) => assert!(*x.current_context() == y, "{log:?}: {x:?}, not {y:?}"),
                (x, y) => panic!("{r:?} {log:?}: {x:?}, not {y:?}"),
            }
        }
        half_bar_pickup [] |s| {
            s.reached();
            let _ = s.bool();
            let f = dc_from(&[960, 2880, 4800], Rhythm::new(4, 4));
            assert!(f == 960, "a-pickup-not-completed-before-D.C.:second-pass-from-{f}-not-960");
        }
        completed_pickup [] |s| {
            s.reached();
            let _ = s.bool();
            let f = dc_from(&[240, 2160, 3840], Rhythm::new(4, 4));
            assert!(f == 0, "a-pickup-completed-before-D.C.:second-pass-from-{f}-not-0");
        }
    }
}

pub mod c19 {
    use super::*;
    use super::score::*;
    use klavier_core::repeat::*;
    use std::result::Result;
    enum At { Top, Plain(u32), Repeat(u32), Endings(u32, Vec<u32>) }
    #[derive(Debug, Clone)]
    enum Part { Plain(u32, u32), Twice(u32, u32), Endings(u32, Vec<u32>) }
    fn parts(bars: &[Bar], r: Rhythm) -> Result<(Vec<Part>, Option<Second>), E> {
        let (mut n, mut at, mut v) = (Noted::default(), At::Top, vec![]);
        let wrong = |t: u32, i: u8, e: u8| { let x = [VarIndex::VI1, VarIndex::VI2, VarIndex::VI3, VarIndex::VI4]; E::InvalidRegionIndex { tick: t, actual: x[i as usize - 1], expected: x[(e as usize - 1).min(3)] } };
        for b in bars {
            n.bar(b)?;
            let (t, end, start, var) = (b.start_tick, has(b, Repeat::End), has(b, Repeat::Start), ending(b));
            let dc = has(b, Repeat::Dc) || has(b, Repeat::Ds);
            let next = |t| if start { At::Repeat(t) } else { At::Plain(t) };
            at = match at {
                At::Top => {
                    if let Some(m) = n.mark { if (end || var.is_some()) && m.1 < t { return Err(E::DcDsWhileRepeat { tick: m.1 }); } }
                    if end { v.push(Part::Twice(0, t)); next(t) } else if start { v.push(Part::Plain(0, t)); next(t) }
                    else { match var { Some(1) => At::Endings(0, vec![t]), Some(i) => return Err(wrong(t, i, 1)), None => At::Top } }
                }
                At::Plain(a) => if end { return Err(E::OrphanRepeatEnd { tick: t }) } else if start { v.push(Part::Plain(a, t)); next(t) } else { At::Plain(a) },
                At::Repeat(a) => {
                    if end { v.push(Part::Twice(a, t)); next(t) }
                    else if start { return Err(E::DuplicatedRepeatStart { tick: t }) }
                    else if dc { return Err(E::DcDsWhileRepeat { tick: t }) }
                    else { match var { Some(1) => At::Endings(a, vec![t]), Some(i) => return Err(wrong(t, i, 1)), None => At::Repeat(a) } }
                }
                At::Endings(a, mut e) => {
                    if end { return Err(E::RepeatInVariation { tick: t }) }
                    match var {
                        Some(i) if i as usize == e.len() => At::Endings(a, e),
                        Some(i) if i as usize == e.len() + 1 => { e.push(t); At::Endings(a, e) }
                        Some(i) => return Err(wrong(t, i, e.len() as u8 + 1)),
                        None => {
                            if let Some(x) = n.segno.first() { if e[0] <= *x && x < e.last().unwrap() { return Err(E::SegnoWhildVariation { tick: t }); } }
                            e.push(t); v.push(Part::Endings(a, e)); next(t)
                        }
                    }
                }
            }
        }
        match at {
            At::Top => v.push(Part::Plain(0, u32::MAX)),
            At::Plain(a) => v.push(Part::Plain(a, u32::MAX)),
            At::Repeat(a) => return Err(E::NoRepeatEnd { tick: a }),
            At::Endings(_, e) => return Err(E::VariationNotClosed { tick: *e.last().unwrap() }),
        }
        Ok((v, n.done(r)?.0))
    }
    /// Everything played, as non-empty ranges with adjacent ones merged.
    fn merged(v: impl IntoIterator<Item = (u32, u32)>) -> Vec<(u32, u32)> {
        let mut r: Vec<(u32, u32)> = vec![];
        for (a, b) in v {
            if a >= b { continue; }
            match r.last_mut() { Some(l) if l.1 == a => l.1 = b, _ => r.push((a, b)) }
        }
        r
    }
    fn expected(p: &[Part], second: &Option<Second>) -> Vec<(u32, u32)> {
        let mut out = vec![];
        for x in p {
            let stop = second.as_ref().map_or(u32::MAX, |s| s.mark);
            match x {
                Part::Plain(a, b) => out.push((*a, (*b).min(stop))),
                Part::Twice(a, b) => if *b <= stop { out.push((*a, *b)); out.push((*a, *b)); },
                Part::Endings(a, e) => if *e.last().unwrap() <= stop { for w in e.windows(2) { out.push((*a, e[0])); out.push((w[0], w[1])); } },
            }
        }
        if let Some(s) = second {
            let mut heard = vec![];
            for x in p {
                match x {
                    Part::Plain(a, b) | Part::Twice(a, b) => heard.push((*a, *b)),
                    Part::Endings(a, e) => { heard.push((*a, e[0])); heard.push((e[e.len() - 2], e[e.len() - 1])); }
                }
            }
            // Cut where the second pass begins, jumps or ends; then keep or drop each piece by its first tick.
            let mut cuts = s.edges();
            cuts.sort_unstable();
            for (a, b) in heard {
                let mut a = a;
                for c in cuts.iter().copied().filter(|c| a < *c && *c < b).collect::<Vec<_>>() { if s.plays(a) { out.push((a, c)); } a = c; }
                if a < b && s.plays(a) { out.push((a, b)); }
            }
        }
        merged(out)
    }
    fn judge(v: &[Bar], r: Rhythm) {
        let what = format!("{r:?} {v:?}");
        match (render_region(r, v.iter()), parts(v, r)) {
            (Ok((g, _)), Ok((p, s))) => {
                let c = g.to_chunks();
                let got = merged(c.iter().map(|c| (c.start_tick(), c.end_tick())));
                let want = expected(&p, &s);
                assert!(got == want, "{what}: plays {got:?}, not {want:?}");
            }
            (Err(x), Err(y)) => assert!(*x.current_context() == y, "{what}: {x:?}, not {y:?}"),
            (x, y) => panic!("{what}: {:?}, not {y:?}", x.map(|x| x.0.to_chunks())),
        }
    }
    harnesses! { "C19";
        sections [] |s| {
            let v = bars(s, &[(35, Repeat::Start), (35, Repeat::End), (25, Repeat::Var1), (25, Repeat::Var2), (12, Repeat::Var3), (12, Repeat::Var4), (5, Repeat::Fine), (5, Repeat::Coda)]);
            let r = rhythm(s);
            s.reached();
            judge(&v, r);
        }
        sections_and_marks [] |s| {
            let v = bars(s, &[(20, Repeat::Dc), (15, Repeat::Ds), (25, Repeat::Start), (25, Repeat::End), (12, Repeat::Segno), (12, Repeat::Fine), (20, Repeat::Coda), (20, Repeat::Var1), (20, Repeat::Var2), (8, Repeat::Var3), (8, Repeat::Var4)]);
            let r = rhythm(s);
            s.reached();
            judge(&v, r);
        }
        endings_in_order [] |s| {
            // Sections that are well formed, so that the walk goes far.
            let (mut v, mut t, mut open) = (vec![], 0u32, true);
            let mark = |t, m: &[Repeat]| Bar::new(t, None, None, m.iter().fold(RepeatSet::EMPTY, |x, r| x.try_add(*r).unwrap_or(x)));
            let step = |s: &mut S, t: &mut u32| { *t += s.in_u32(1, 3) * 240; *t };
            for _ in 0..s.below(5) {
                let a = step(s, &mut t);
                if !open { v.push(mark(a, &[Repeat::Start])); open = true; step(s, &mut t); }
                match s.below(3) {
                    0 => { let e = s.bool(); v.push(mark(t, if e { &[Repeat::End] } else { &[Repeat::End, Repeat::Start] })); open = !e; }
                    1 => {
                        for k in 0..s.in_u8(1, 4) as usize {
                            v.push(mark(t, &[[Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4][k]]));
                            if s.below(4) == 0 { step(s, &mut t); v.push(mark(t, &[[Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4][k]])); }
                            step(s, &mut t);
                        }
                        v.push(mark(t, &[])); open = false;
                    }
                    _ => { v.push(mark(t, &[])); }
                }
            }
            for _ in 0..s.below(4) {
                let k = s.below(v.len().max(1) as u8) as usize;
                let m = [Repeat::Dc, Repeat::Ds, Repeat::Segno, Repeat::Coda, Repeat::Fine, Repeat::Coda][s.below(6) as usize];
                if k < v.len() { if let Ok(x) = v[k].repeats.try_add(m) { v[k].repeats = x; } }
            }
            if s.below(3) > 0 { let a = step(s, &mut t); v.push(mark(a, &[[Repeat::Dc, Repeat::Ds][s.below(2) as usize]])); }
            v.dedup_by_key(|b| b.start_tick);
            let r = rhythm(s);
            s.reached();
            judge(&v, r);
        }
    }
}
