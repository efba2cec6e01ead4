use crate::*;

pub mod c01 {
    use super::*;
    use klavier_core::octave::Octave;
    use klavier_core::pitch::{self, Pitch};
    use klavier_core::solfa::Solfa;
    harnesses! { "C01";
        pitch_value_of [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::value_of)] |s| {
            let (n, o, a) = (gen::solfa(s), gen::octave(s), gen::sharp_flat(s));
            let r = Pitch::value_of(n, o, a);
            s.reached();
            assert!(c::pitch_value_of(n, o, a, &r));
            // to_value is the formula even when out of range.
            assert!(Pitch::to_value(n, o, a) == c::midi(n, o, a));
        }
        pitch_new [kani::proof] |s| {
            let (n, o, a) = (gen::solfa(s), gen::octave(s), gen::sharp_flat(s));
            s.assume(c::in_range(n, o, a));
            let p = Pitch::new(n, o, a);
            s.reached();
            assert!(c::is_pitch(p, n, o, a));
            assert!(p == Pitch::value_of(n, o, a).ok().unwrap());
            assert!(pitch::MIN.value() == 0 && pitch::MAX.value() == 127 && c::wf_pitch(Pitch::default()));
        }
        octave_value_of [kani::proof_for_contract(klavier_core::octave::Octave::value_of)] |s| {
            let v = s.i32();
            let r = Octave::value_of(v);
            s.reached();
            assert!(c::octave_value_of(v, &r));
        }
        octave_from_index [kani::proof_for_contract(klavier_core::octave::Octave::from_score_offset)] |s| {
            let v = s.i32();
            let r = Octave::from_score_offset(v);
            s.reached();
            assert!(c::octave_from_index(v, &r));
        }
        octave_numbers [kani::proof] |s| {
            let o = gen::octave(s);
            s.reached();
            assert!(o.offset() == c::octave_index(o) && o.value() == c::octave_index(o) - 2);
        }
        solfa_from_index [kani::proof_for_contract(klavier_core::solfa::Solfa::from_score_offset)] |s| {
            let v = s.i32();
            let r = Solfa::from_score_offset(v);
            s.reached();
            assert!(c::solfa_from_index(v, &r));
        }
        solfa_numbers [kani::proof] |s| {
            let n = gen::solfa(s);
            s.reached();
            assert!(n.score_offset() == c::name_index(n) && n.pitch_offset() == c::name_semitones(n));
            assert!(gen::sharp_flat(s).offset().abs() <= 2);
        }
    }
}

pub mod c02 {
    use super::*;
    use klavier_core::pitch::Pitch;
    harnesses! { "C02";
        up [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::up)] |s| {
            let p = gen::pitch(s);
            let r = p.up();
            s.reached();
            assert!(c::pitch_up(p, &r));
        }
        down [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::down)] |s| {
            let p = gen::pitch(s);
            let r = p.down();
            s.reached();
            assert!(c::pitch_down(p, &r));
        }
        up_down [kani::proof] |s| {
            let p = gen::pitch(s);
            if let Ok(q) = p.up() {
                s.reached();
                if let Ok(b) = q.down() { assert!(b == p); }
            }
            if let Ok(q) = p.down() {
                if let Ok(b) = q.up() { assert!(b == p); }
            }
        }
        by_delta [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::with_score_offset_delta)] |s| {
            let p = gen::pitch(s);
            let d = s.i32();
            let r = p.with_score_offset_delta(d);
            s.reached();
            assert!(c::pitch_delta(p, d, &r));
        }
        from_position [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::from_score_offset)] |s| {
            let v = s.i32();
            let r = Pitch::from_score_offset(v);
            s.reached();
            assert!(c::pitch_from_position(v, &r));
        }
        toggle_sharp [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::toggle_sharp)] |s| {
            let p = gen::pitch(s);
            let r = p.toggle_sharp();
            s.reached();
            assert!(c::with_accidental(p, c::toggled_sharp(p.sharp_flat()), &r));
        }
        toggle_flat [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::toggle_flat)] |s| {
            let p = gen::pitch(s);
            let r = p.toggle_flat();
            s.reached();
            assert!(c::with_accidental(p, c::toggled_flat(p.sharp_flat()), &r));
        }
        toggle_natural [kani::proof] also [kani::proof_for_contract(klavier_core::pitch::Pitch::toggle_natural)] |s| {
            let p = gen::pitch(s);
            let r = p.toggle_natural();
            s.reached();
            assert!(c::with_accidental(p, c::toggled_natural(p.sharp_flat()), &r));
        }
    }
}

pub mod c03 {
    use super::*;
    harnesses! { "C03";
        apply_key [] |s| {
            let p = gen::pitch(s);
            let k = gen::key(s);
            let r = p.apply_key(k);
            s.reached();
            assert!(c::apply_key(p, k, &r));
        }
        named_keys [] |s| {
            use klavier_core::key::Key;
            s.reached();
            let sharps = [Key::NONE, Key::SHARP_1, Key::SHARP_2, Key::SHARP_3, Key::SHARP_4, Key::SHARP_5, Key::SHARP_6, Key::SHARP_7];
            let flats = [Key::NONE, Key::FLAT_1, Key::FLAT_2, Key::FLAT_3, Key::FLAT_4, Key::FLAT_5, Key::FLAT_6, Key::FLAT_7];
            for n in 0..8 {
                assert!(sharps[n].offset() == n as i8 && sharps[n].is_sharp() == (0 < n) && !sharps[n].is_flat());
                assert!(flats[n].offset() == -(n as i8) && flats[n].is_flat() == (0 < n) && !flats[n].is_sharp());
                assert!(Key::ALL.contains(&sharps[n]) && Key::ALL.contains(&flats[n]));
            }
            assert!(Key::default().offset() == 0);
        }
    }
}

pub mod c04 {
    use super::*;
    use klavier_core::duration::*;
    harnesses! { "C04";
        tick_length [kani::proof_for_contract(klavier_core::duration::Duration::tick_length)] |s| {
            let d = gen::duration(s);
            let r = d.tick_length();
            s.reached();
            assert!(c::tick_length(d, &r));
        }
        more_dots_longer [kani::proof] |s| {
            let d = gen::duration(s);
            s.assume(d.dots.value() < 7);
            let e = d.with_dots(Dots::from_value(d.dots.value() + 1).unwrap());
            s.reached();
            assert!(e.dots.value() == d.dots.value() + 1 && e.numerator == d.numerator && e.denominator == d.denominator);
            assert!(d.tick_length() <= e.tick_length());
        }
        larger_tuplet_shorter [kani::proof] |s| {
            let d = gen::duration(s);
            s.assume(d.denominator.value() < 255);
            let e = d.with_denominator(Denominator::from_value(d.denominator.value() + 1).unwrap());
            s.reached();
            assert!(e.denominator.value() == d.denominator.value() + 1 && e.numerator == d.numerator && e.dots == d.dots);
            assert!(e.tick_length() <= d.tick_length());
        }
        min [kani::proof, kani::solver(kissat)] |s| {
            let (a, b) = (gen::duration(s), gen::duration(s));
            let r = a.min(b);
            s.reached();
            assert!(c::shorter(a, b, &r));
        }
        dots [kani::proof_for_contract(klavier_core::duration::Dots::from_value)] |s| {
            let v = s.u8();
            let r = Dots::from_value(v);
            s.reached();
            assert!(c::dots_from_value(v, &r));
        }
        dots_constants [kani::proof] |s| {
            s.reached();
            assert!(Dots::ZERO.value() == 0 && Dots::ONE.value() == 1 && Dots::TWO.value() == 2 && Dots::THREE.value() == 3);
            assert!(Dots::FOUR.value() == 4 && Dots::FIVE.value() == 5 && Dots::SIX.value() == 6 && Dots::SEVEN.value() == 7);
            assert!(Duration::default().tick_length() == 240);
        }
        tuplets [kani::proof_for_contract(klavier_core::duration::Denominator::from_value)] |s| {
            let v = s.u8();
            let r = Denominator::from_value(v);
            s.reached();
            assert!(c::tuplet_from_value(v, &r));
        }
        ordinals [kani::proof] |s| {
            let n = gen::numerator(s);
            s.reached();
            assert!(n.ord() <= 7 && Numerator::from_ord(n.ord()) == Some(n));
            assert!(c::undotted_len(n) == 960 >> n.ord());
            let v = s.u8();
            match Numerator::from_ord(v) { Some(m) => assert!(m.ord() == v), None => assert!(7 < v) }
            let d = gen::duration(s).with_numerator(n);
            assert!(d.numerator == n);
        }
    }
}

pub mod c05 {
    use super::*;
    use klavier_core::rhythm::*;
    harnesses! { "C05";
        value_of [kani::proof] also [kani::proof_for_contract(klavier_core::rhythm::Rhythm::value_of)] |s| {
            let (n, d) = (s.u8(), s.u8());
            let r = Rhythm::value_of(n, d);
            s.reached();
            assert!(c::rhythm_value_of(n, d, &r));
        }
        tick_len [kani::proof_for_contract(klavier_core::rhythm::Rhythm::tick_len)] |s| {
            let rh = gen::rhythm(s);
            let r = rh.tick_len();
            s.reached();
            assert!(c::bar_len(rh, &r));
        }
        new [kani::proof] |s| {
            let rh = gen::rhythm(s);
            let r = Rhythm::new(rh.numerator().value(), rh.denominator().value());
            s.reached();
            assert!(r == rh);
            let d = Rhythm::default();
            assert!(d.numerator().value() == 4 && d.denominator().value() == 4 && d.tick_len() == 960);
        }
        parts [kani::proof] |s| {
            let v = s.u8();
            s.reached();
            match Numerator::from_value(v) {
                Ok(n) => assert!(1 <= v && v <= 99 && n.value() == v),
                Err(NumeratorError::InvalidValue(e)) => assert!((v < 1 || 99 < v) && e == v),
                Err(_) => assert!(false),
            }
            let listed = v == 2 || v == 4 || v == 8 || v == 16 || v == 32 || v == 64;
            match Denominator::from_value(v) {
                Ok(d) => assert!(listed && d.value() == v),
                Err(DenominatorError::InvalidValue(e)) => assert!(!listed && e == v),
            }
        }
    }
}

pub mod c06 {
    use super::*;
    use klavier_core::trimmer::Trimmer;
    harnesses! { "C06";
        new [kani::proof_for_contract(klavier_core::trimmer::Trimmer::new)] |s| {
            let v = [s.i16(), s.i16(), s.i16(), s.i16()];
            let r = Trimmer::new(v[0], v[1], v[2], v[3]);
            s.reached();
            assert!(c::trimmer_is(&r, v));
        }
        from_array [kani::proof_for_contract(klavier_core::trimmer::Trimmer::from_array)] |s| {
            let v = [s.i16(), s.i16(), s.i16(), s.i16()];
            let r = Trimmer::from_array(v);
            s.reached();
            assert!(c::trimmer_is(&r, v));
        }
        from_vec [kani::proof] |s| {
            let v = [s.i16(), s.i16(), s.i16(), s.i16()];
            let r = Trimmer::from_vec(&vec![v[0], v[1], v[2], v[3]]);
            s.reached();
            assert!(c::trimmer_is(&r, v));
            assert!(r == Trimmer::from_array(v));
            let back = r.to_vec();
            assert!(back.len() == 4 && back[0] == v[0] && back[1] == v[1] && back[2] == v[2] && back[3] == v[3]);
            let sl = r.values();
            assert!(sl.len() == 4 && sl[0] == v[0] && sl[1] == v[1] && sl[2] == v[2] && sl[3] == v[3]);
        }
        updated [kani::proof] |s| {
            let t = gen::trimmer(s);
            let i = s.below(4) as usize;
            let x = s.i16();
            let mut want = t.to_array();
            want[i] = x;
            let r = t.updated(|v| v[i] = x);
            s.reached();
            assert!(c::trimmer_is(&r, want));
        }
        updated_all [kani::proof] |s| {
            let t = gen::trimmer(s);
            let v = [s.i16(), s.i16(), s.i16(), s.i16()];
            let r = t.updated(|w| { assert!(c::trimmer_is(&t, *w)); *w = v; });
            s.reached();
            assert!(c::trimmer_is(&r, v));
        }
        added [kani::proof] also [kani::proof_for_contract(klavier_core::trimmer::Trimmer::added)] |s| {
            let t = gen::trimmer(s);
            let d = s.i32();
            let r = t.added(d);
            s.reached();
            assert!(c::trimmer_added(&t, d, &r));
        }
        added_total [kani::proof] |s| {
            // The total moves by exactly the delta, or as far as the ranges allow.
            let t = gen::trimmer(s);
            let d = s.i32();
            let r = t.added(d);
            s.reached();
            let want = t.sum() as i64 + d as i64;
            let (lo, hi) = (4 * i16::MIN as i64, 4 * i16::MAX as i64);
            assert!(r.sum() as i64 == if want < lo { lo } else if hi < want { hi } else { want });
        }
        equality [kani::proof] |s| {
            let (a, b) = (gen::trimmer(s), gen::trimmer(s));
            s.reached();
            assert!((a == b) == (a.to_array() == b.to_array()));
            assert!(c::trimmer_is(&Trimmer::ZERO, [0; 4]) && c::trimmer_is(&Trimmer::default(), [0; 4]));
        }
    }
}

pub mod c07 {
    use super::*;
    use klavier_core::can_apply::CanApply;
    use klavier_core::percent::PercentU16;
    use klavier_core::trimmer::RateTrimmer;
    harnesses! { "C07";
        from_rate [kani::proof] |s| {
            let rate = s.f32();
            let r = PercentU16::from(rate);
            s.reached();
            assert!(c::percent_from_rate(rate, &r));
        }
        apply [kani::proof] |s| {
            let p = s.in_u16(0, 2000);
            let v = s.in_u32(0, i32::MAX as u32);
            let r = PercentU16::from_value(p).apply(v);
            s.reached();
            assert!(c::percent_applied(p, v, r));
        }
        rate_from_array [kani::proof, kani::solver(cvc5)] |s| {
            let v = [gen::percent(s), gen::percent(s), gen::percent(s), gen::percent(s)];
            let r = RateTrimmer::from_array(v);
            s.reached();
            assert!(c::rate_trimmer_is(&r, v));
        }
        rate_from_vec [kani::proof, kani::solver(cvc5)] |s| {
            let v = [gen::percent(s), gen::percent(s), gen::percent(s), gen::percent(s)];
            let r = RateTrimmer::from_vec(&vec![v[0], v[1], v[2], v[3]]);
            s.reached();
            assert!(c::rate_trimmer_is(&r, v));
            let w = r.to_vec();
            assert!(w.len() == 4 && w[0] == v[0] && w[1] == v[1] && w[2] == v[2] && w[3] == v[3]);
        }
        rate_new [kani::proof, kani::solver(cvc5)] |s| {
            let f = [s.f32(), s.f32(), s.f32(), s.f32()];
            let r = RateTrimmer::new(f[0], f[1], f[2], f[3]);
            s.reached();
            let v = [PercentU16::from(f[0]), PercentU16::from(f[1]), PercentU16::from(f[2]), PercentU16::from(f[3])];
            assert!(c::rate_trimmer_is(&r, v));
        }
        constants [kani::proof] |s| {
            s.reached();
            let h = PercentU16::from_value(1000);
            assert!(PercentU16::HUNDRED == h && PercentU16::MAX == PercentU16::from_value(2000) && PercentU16::ZERO == PercentU16::from_value(0));
            assert!(c::rate_trimmer_is(&RateTrimmer::ONE, [h, h, h, h]) && RateTrimmer::default() == RateTrimmer::ONE);
        }
        rate_apply [kani::proof, kani::solver(kissat)] |s| {
            let r = gen::rate1(s);
            let v = s.in_u32(0, 1920);
            s.reached();
            assert!(r.apply(v) == r.sum().apply(v));
        }
        equality [kani::proof] |s| {
            let (x, y) = (s.u16(), s.u16());
            s.reached();
            assert!((PercentU16::from_value(x) == PercentU16::from_value(y)) == (x == y));
        }
    }
}

pub mod c10 {
    use super::*;
    use klavier_core::bar::VarIndex;
    use klavier_core::channel::Channel;
    use klavier_core::clipper;
    use klavier_core::play_iter::PlayIter;
    use klavier_core::tempo::TempoValue;
    use klavier_core::velocity::Velocity;
    harnesses! { "C10";
        velocity [kani::proof_for_contract(klavier_core::velocity::Velocity::new)] |s| {
            let v = s.u8();
            let r = Velocity::new(v);
            s.reached();
            assert!(c::velocity_new(v, &r));
        }
        play_iter [kani::proof_for_contract(klavier_core::play_iter::PlayIter::new)] |s| {
            let v = s.u8();
            let r = PlayIter::new(v);
            s.reached();
            assert!(c::play_iter_new(v, &r));
        }
        set_play_iter [kani::proof] |s| {
            let mut p = PlayIter::new(s.u8());
            let before = p.iter();
            let v = s.u8();
            let ok = p.set_iter(v);
            s.reached();
            assert!(ok == (1 <= v && v <= 5));
            assert!(p.iter() == if ok { v } else { before });
            assert!(PlayIter::default().iter() == 1);
        }
        var_index [kani::proof_for_contract(klavier_core::bar::VarIndex::from_value)] |s| {
            let v = s.u8();
            let r = VarIndex::from_value(v);
            s.reached();
            assert!(c::var_index_from(v as i32, &r));
        }
        var_index_step [kani::proof] |s| {
            let v = gen::var_index(s);
            s.reached();
            assert!(c::var_index_from(v.value() as i32 + 1, &v.next()));
            assert!(c::var_index_from(v.value() as i32 - 1, &v.prev()));
            let w: VarIndex = v.value().into();
            assert!(w == v);
            assert!(v.to_repeat() == c::REPEATS[6 + v.value() as usize]);
        }
        tempo_safe_new [kani::proof] |s| {
            let v = s.u16();
            let r = TempoValue::safe_new(v);
            s.reached();
            assert!(r.value() == if 999 < v { 999 } else { v } && r.as_u16() == r.value());
        }
        tempo_new [kani::proof] |s| {
            let v = s.in_u16(0, 999);
            let r = TempoValue::new(v);
            s.reached();
            assert!(r.value() == v && r.as_u16() == v && TempoValue::default().value() == 120);
        }
        tempo_new_rejects [kani::proof, kani::should_panic] |s| {
            let v = s.in_u16(1000, u16::MAX);
            s.must_panic(|| { TempoValue::new(v); });
        }
        channel_new [kani::proof] |s| {
            let v = s.in_u8(0, 15);
            let r = Channel::new(v);
            s.reached();
            assert!(r.as_u8() == v && Channel::default().as_u8() == 0);
        }
        channel_new_rejects [kani::proof, kani::should_panic] |s| {
            let v = s.in_u8(16, 255);
            s.must_panic(|| { Channel::new(v); });
        }
        clip_i32 [kani::proof] |s| {
            let (lo, hi, v) = (s.i32(), s.i32(), s.i32());
            s.assume(lo <= hi);
            let r = clipper::for_i32(lo, hi).clip(v);
            s.reached();
            assert!(r == if v < lo { lo } else if hi < v { hi } else { v });
        }
        clip_i16 [kani::proof] |s| {
            let (lo, hi, v) = (s.i16(), s.i16(), s.i16());
            s.assume(lo <= hi);
            let r = clipper::for_i16(lo, hi).clip(v);
            s.reached();
            assert!(r == if v < lo { lo } else if hi < v { hi } else { v });
        }
        clip_f32 [kani::proof] |s| {
            let (lo, hi, v) = (s.f32(), s.f32(), s.f32());
            s.assume(lo <= hi && !v.is_nan());
            let r = clipper::for_f32(lo, hi).clip(v);
            s.reached();
            assert!(r == if v < lo { lo } else if hi < v { hi } else { v });
        }
    }
}

pub mod c12 {
    use super::*;
    use klavier_core::bar::*;
    harnesses! { "C12";
        try_add [kani::proof] |s| {
            let set = gen::repeat_set(s);
            let r = gen::repeat(s);
            let result = set.try_add(r);
            s.reached();
            assert!(c::try_added(set, r, &result));
        }
        stays_compatible [kani::proof] |s| {
            // The reachable sets are closed and clash-free, so generating them in ascending order loses none.
            let set = gen::repeat_set(s);
            s.reached();
            assert!(c::no_clash(set));
        }
        order [kani::proof] |s| {
            let set = gen::repeat_set(s);
            let (a, b) = (gen::repeat(s), gen::repeat(s));
            let ab = set.try_add(a).ok().and_then(|x| x.try_add(b).ok());
            let ba = set.try_add(b).ok().and_then(|x| x.try_add(a).ok());
            s.reached();
            assert!(ab == ba);
        }
        remove [kani::proof_for_contract(klavier_core::bar::RepeatSet::remove)] |s| {
            let set = gen::repeat_set(s);
            let r = gen::repeat(s);
            let result = set.remove(r);
            s.reached();
            assert!(c::removed(set, &result, |m| m == r));
        }
        remove_variations [kani::proof_for_contract(klavier_core::bar::RepeatSet::remove_resions)] |s| {
            let set = gen::repeat_set(s);
            let result = set.remove_resions();
            s.reached();
            assert!(c::removed(set, &result, c::is_variation));
        }
        region_index [kani::proof_for_contract(klavier_core::bar::RepeatSet::region_index)] |s| {
            let set = gen::repeat_set(s);
            let r = set.region_index();
            s.reached();
            assert!(c::region_index(set, &r));
        }
        len [kani::proof] |s| {
            let set = gen::repeat_set(s);
            let mut n = 0;
            let mut i = 0;
            while i < 11 { if set.contains(c::REPEATS[i]) { n += 1; } i += 1; }
            s.reached();
            assert!(set.len() == n);
            assert!(RepeatSet::EMPTY.len() == 0 && RepeatSet::default() == RepeatSet::EMPTY);
        }
    }
}
