use crate::*;
use klavier_core::note::*;

pub fn any_note<S: Src>(s: &mut S) -> Note {
    let tick = s.in_u32(0, c::MAX_TICK);
    Note::new(
        tick, gen::pitch(s), gen::duration(s), s.bool(), s.bool(), gen::velocity(s),
        gen::trimmer(s), gen::rate1(s), gen::trimmer(s), gen::channel(s),
    )
}

pub mod c08 {
    use super::*;
    use klavier_core::can_apply::CanApply;
    use klavier_core::have_start_tick::{HaveBaseStartTick, HaveStartTick};
    harnesses! { "C08";
        new [kani::proof] |s| {
            let (t, p, d, tie, tied) = (s.u32(), gen::pitch(s), gen::duration(s), s.bool(), s.bool());
            let (v, st, dt, vt, ch) = (gen::velocity(s), gen::trimmer(s), gen::rate1(s), gen::trimmer(s), gen::channel(s));
            let n = Note::new(t, p, d, tie, tied, v, st, dt, vt, ch);
            s.reached();
            assert!(n.base_start_tick == t && n.pitch == p && n.duration == d && n.tie == tie && n.tied == tied);
            assert!(n.base_velocity == v && n.start_tick_trimmer == st && n.duration_trimmer == dt && n.velocity_trimmer == vt && n.channel == ch);
            assert!(n.base_velocity() == v);
        }
        start_tick [kani::proof] |s| {
            let n = any_note(s);
            let r = n.start_tick();
            s.reached();
            assert!(c::note_start(&n, &r));
            assert!(HaveStartTick::start_tick(&n) == r && HaveBaseStartTick::base_start_tick(&n) == n.base_start_tick);
            let rc = std::rc::Rc::new(n);
            assert!(HaveStartTick::start_tick(&rc) == r && HaveBaseStartTick::base_start_tick(&rc) == rc.base_start_tick);
        }
        velocity [kani::proof] also [kani::proof_for_contract(klavier_core::note::Note::velocity)] |s| {
            let n = any_note(s);
            let r = n.velocity();
            s.reached();
            assert!(c::note_velocity(&n, &r));
        }
        tick_len [kani::proof, kani::solver(cvc5)] |s| {
            let n = any_note(s);
            s.reached();
            assert!(n.tick_len() == n.duration_trimmer.sum().apply(n.duration.tick_length()));
        }
        with_tick_added [kani::proof] also [kani::proof_for_contract(klavier_core::note::Note::with_tick_added)] |s| {
            let n = any_note(s);
            let (d, trim) = (s.i32(), s.bool());
            let r = n.with_tick_added(d, trim);
            s.reached();
            assert!(c::note_tick_added(&n, d, trim, &r));
        }
        drag [kani::proof] |s| {
            let n = any_note(s);
            let (d, pd) = (s.in_i32(-(n.base_start_tick as i64), i32::MAX as i64), s.in_i32(-77, 77));
            s.assume(n.pitch.with_score_offset_delta(pd).is_ok());
            let r = n.drag(d, pd);
            s.reached();
            assert!(c::note_dragged(&n, d, pd, &r));
        }
        add_dots [kani::proof] also [kani::proof_for_contract(klavier_core::note::Note::add_dots)] |s| {
            let n = any_note(s);
            let d = s.i32();
            let r = n.add_dots(d);
            s.reached();
            assert!(c::note_dots_added(&n, d, &r));
        }
        toggle_tie [kani::proof] also [kani::proof_for_contract(klavier_core::note::Note::toggle_tie)] |s| {
            let n = any_note(s);
            let r = n.toggle_tie();
            s.reached();
            assert!(c::note_tie_toggled(&n, &r));
        }
        repitch [kani::proof] |s| {
            let n = any_note(s);
            s.reached();
            match s.below(5) {
                0 => assert!(c::note_repitched(&n, &n.pitch.up(), &n.up_score_offset())),
                1 => assert!(c::note_repitched(&n, &n.pitch.down(), &n.down_score_offset())),
                2 => assert!(c::note_repitched(&n, &n.pitch.toggle_sharp(), &n.toggle_sharp())),
                3 => assert!(c::note_repitched(&n, &n.pitch.toggle_flat(), &n.toggle_flat())),
                _ => assert!(c::note_repitched(&n, &n.pitch.toggle_natural(), &n.toggle_natural())),
            }
        }
        with_duration [kani::proof] |s| {
            let n = any_note(s);
            let d = gen::duration(s);
            let r = n.with_duration(d);
            s.reached();
            assert!(r.duration == d && c::note_frame(&n, &r, c::Except::DURATION));
            let r = n.with_duration_numerator(d.numerator);
            assert!(r.duration.numerator == d.numerator && r.duration.denominator == n.duration.denominator && r.duration.dots == n.duration.dots);
            assert!(c::note_frame(&n, &r, c::Except::DURATION));
        }
    }
}

pub mod c09 {
    use super::*;
    use klavier_core::ctrl_chg::CtrlChg;
    use klavier_core::tempo::*;
    fn tick<S: Src>(s: &mut S) -> u32 {
        s.in_u32(0, c::MAX_TICK)
    }
    fn drag_delta<S: Src>(s: &mut S, t: u32) -> i32 {
        s.in_i32(-(t as i64), i32::MAX as i64)
    }
    harnesses! { "C09";
        bar_added [kani::proof_for_contract(klavier_core::bar::Bar::with_tick_added)] |s| {
            let t = tick(s);
            let b = gen::bar(s, t);
            let d = s.i32();
            let r = b.with_tick_added(d);
            s.reached();
            assert!(c::tick_added(t, d, &r, |m, t| c::bar_at(&b, m, t)));
        }
        bar_drag [kani::proof] |s| {
            let t = tick(s);
            let b = gen::bar(s, t);
            let d = drag_delta(s, t);
            let r = b.drag(d);
            s.reached();
            assert!(c::bar_at(&b, &r, (t as i64 + d as i64) as u32));
        }
        tempo_added [kani::proof_for_contract(klavier_core::tempo::Tempo::with_tick_added)] |s| {
            let t = tick(s);
            let b = Tempo::new(t, gen::tempo_value(s).value());
            let d = s.i32();
            let r = b.with_tick_added(d);
            s.reached();
            assert!(c::tick_added(t, d, &r, |m, t| c::tempo_moved(&b, m, t)));
        }
        tempo_drag [kani::proof_for_contract(klavier_core::tempo::Tempo::drag)] |s| {
            let t = tick(s);
            let b = Tempo::new(t, gen::tempo_value(s).value());
            let d = drag_delta(s, t);
            let v = s.i32();
            let r = b.drag(d, v);
            s.reached();
            assert!(c::tempo_dragged(&b, d, v, &r));
        }
        ctrl_added [kani::proof_for_contract(klavier_core::ctrl_chg::CtrlChg::with_tick_added)] |s| {
            let t = tick(s);
            let b = CtrlChg::new(t, gen::velocity(s), gen::channel(s));
            let d = s.i32();
            let r = b.with_tick_added(d);
            s.reached();
            assert!(c::tick_added(t, d, &r, |m, t| c::ctrl_at(&b, m, t)));
        }
        ctrl_drag [kani::proof] |s| {
            let t = tick(s);
            let b = CtrlChg::new(t, gen::velocity(s), gen::channel(s));
            let d = drag_delta(s, t);
            let r = b.drag(d);
            s.reached();
            assert!(c::ctrl_at(&b, &r, (t as i64 + d as i64) as u32));
        }
        tempo_up [kani::proof_for_contract(klavier_core::tempo::TempoValue::up)] |s| {
            let v = gen::tempo_value(s);
            let r = v.up();
            s.reached();
            assert!(c::tempo_up(v, &r));
        }
        tempo_down [kani::proof_for_contract(klavier_core::tempo::TempoValue::down)] |s| {
            let v = gen::tempo_value(s);
            let r = v.down();
            s.reached();
            assert!(c::tempo_down(v, &r));
        }
        tempo_event_steps [kani::proof] |s| {
            let t = s.u32();
            let b = Tempo::new(t, gen::tempo_value(s).value());
            s.reached();
            match b.up() { Ok(u) => assert!(u.start_tick == t && c::tempo_up(b.value, &Ok(u.value))), Err(_) => assert!(b.value.value() == 999) }
            match b.down() { Ok(u) => assert!(u.start_tick == t && c::tempo_down(b.value, &Ok(u.value))), Err(_) => assert!(b.value.value() == 1) }
        }
    }
}
