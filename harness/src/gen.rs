//! Full-domain generators.
use crate::src::Src;
use klavier_core::bar::*;
use klavier_core::channel::Channel;
use klavier_core::duration::{self, Dots, Duration};
use klavier_core::key::Key;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::TempoValue;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;

pub fn solfa(s: &mut impl Src) -> Solfa {
    match s.below(7) { 0 => Solfa::C, 1 => Solfa::D, 2 => Solfa::E, 3 => Solfa::F, 4 => Solfa::G, 5 => Solfa::A, _ => Solfa::B }
}
pub fn octave(s: &mut impl Src) -> Octave {
    match s.below(11) {
        0 => Octave::OctM2, 1 => Octave::OctM1, 2 => Octave::Oct0, 3 => Octave::Oct1, 4 => Octave::Oct2, 5 => Octave::Oct3,
        6 => Octave::Oct4, 7 => Octave::Oct5, 8 => Octave::Oct6, 9 => Octave::Oct7, _ => Octave::Oct8,
    }
}
pub fn sharp_flat(s: &mut impl Src) -> SharpFlat {
    match s.below(6) {
        0 => SharpFlat::Sharp, 1 => SharpFlat::DoubleSharp, 2 => SharpFlat::Flat, 3 => SharpFlat::DoubleFlat,
        4 => SharpFlat::Natural, _ => SharpFlat::Null,
    }
}
pub fn pitch(s: &mut impl Src) -> Pitch {
    let (n, o, a) = (solfa(s), octave(s), sharp_flat(s));
    let r = Pitch::value_of(n, o, a);
    s.assume(r.is_ok());
    match r { Ok(p) => p, Err(_) => { s.assume(false); unreachable!() } }
}
pub fn key(s: &mut impl Src) -> Key { Key::ALL[s.below(15) as usize] }
pub fn numerator(s: &mut impl Src) -> duration::Numerator {
    match s.below(8) {
        0 => duration::Numerator::Whole, 1 => duration::Numerator::Half, 2 => duration::Numerator::Quarter, 3 => duration::Numerator::N8th,
        4 => duration::Numerator::N16th, 5 => duration::Numerator::N32nd, 6 => duration::Numerator::N64th, _ => duration::Numerator::N128th,
    }
}
pub fn dots(s: &mut impl Src) -> Dots {
    match s.below(8) {
        0 => Dots::ZERO, 1 => Dots::ONE, 2 => Dots::TWO, 3 => Dots::THREE, 4 => Dots::FOUR, 5 => Dots::FIVE, 6 => Dots::SIX, _ => Dots::SEVEN,
    }
}
pub fn tuplet(s: &mut impl Src) -> duration::Denominator {
    let v = s.in_u8(2, 255);
    duration::Denominator::from_value(v).unwrap()
}
pub fn duration(s: &mut impl Src) -> Duration {
    let (n, d, dt) = (numerator(s), tuplet(s), dots(s));
    Duration::new(n, d, dt)
}
pub fn rhythm(s: &mut impl Src) -> Rhythm {
    let n = s.in_u8(1, 99);
    let d = [2u8, 4, 8, 16, 32, 64][s.below(6) as usize];
    match Rhythm::value_of(n, d) { Ok(r) => r, Err(_) => panic!("a valid rhythm was rejected") }
}
pub fn trimmer(s: &mut impl Src) -> Trimmer { Trimmer::new(s.i16(), s.i16(), s.i16(), s.i16()) }
pub fn percent(s: &mut impl Src) -> PercentU16 {
    PercentU16::from_value(s.in_u16(0, 2000))
}
/// Every total is reachable with the first part alone, up to the float rounding of the conversion.
pub fn rate1(s: &mut impl Src) -> RateTrimmer {
    RateTrimmer::from_array([percent(s), PercentU16::HUNDRED, PercentU16::HUNDRED, PercentU16::HUNDRED])
}
pub fn velocity(s: &mut impl Src) -> Velocity {
    Velocity::new(s.in_u8(0, 127))
}
pub fn channel(s: &mut impl Src) -> Channel { Channel::new(s.below(16)) }
pub fn tempo_value(s: &mut impl Src) -> TempoValue {
    TempoValue::new(s.in_u16(1, 999))
}
pub fn repeat(s: &mut impl Src) -> Repeat { klavier_core::contracts::REPEATS[s.below(11) as usize] }
pub fn var_index(s: &mut impl Src) -> VarIndex {
    match s.below(4) { 0 => VarIndex::VI1, 1 => VarIndex::VI2, 2 => VarIndex::VI3, _ => VarIndex::VI4 }
}
/// Any set of marks that successful additions (in ascending order) can reach.
pub fn repeat_set(s: &mut impl Src) -> RepeatSet {
    let bits = s.in_u16(0, (1 << 11) - 1);
    let mut set = RepeatSet::EMPTY;
    let mut i = 0;
    while i < 11 {
        if bits & (1 << i) != 0 {
            let r = set.try_add(klavier_core::contracts::REPEATS[i]);
            s.assume(r.is_ok());
            set = match r { Ok(x) => x, Err(_) => { s.assume(false); unreachable!() } };
        }
        i += 1;
    }
    set
}
pub fn bar(s: &mut impl Src, start_tick: u32) -> Bar {
    let r = if s.bool() { Some(rhythm(s)) } else { None };
    let k = if s.bool() { Some(key(s)) } else { None };
    Bar::new(start_tick, r, k, repeat_set(s))
}
