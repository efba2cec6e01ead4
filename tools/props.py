"""What each check is made of."""

TRUSTED = {
    'K': [
        'Kani 0.68 (rustc MIR to goto translation), CBMC 6.11 and the SAT/SMT solver named in the harness',
        'std and third-party crates are verified as compiled, not assumed, where a harness reaches them',
        'harness generators (harness/src/gen.rs): their full-domain claim is by inspection and by the reachability covers',
    ],
    'V': [
        'Verus 0.2026.09.13 with vstd, and Z3',
        'tools/weave: the extraction of functions from /repo/src (drops and desugarings listed in the generated file header)',
    ],
}


def is_panic_harness(name):
    return name.split('::')[-2].endswith('_rejects') and any(x in name for x in ('tempo_new_rejects', 'channel_new_rejects'))


ASSUME_TICKS = 'ticks of existing items are at most 2^31-1'

SHARED_EDIT = [
    "klavier-helper's BagStore: contracts of add/remove/bulk_add/bulk_remove/change/range/peek_last/is_empty are assumed (its Store is verified)",
    'serdo: mutate runs the closure on the model and files the command it returns, add_cmd redoes and files, undo/redo apply the filed command',
    'a note equals another exactly when all its fields do (derived PartialEq; checked natively)',
    'the closure given to mutate is verified in place (textual extraction)',
    'ticks below 2^31 (notes, tempos, pedals) and 0x80100000 (bars)',
    'tuplize returns notes whose starts lie below 2^31 (its value is C23)']
PROPS = {
    'C01': dict(kind='K', functions=['Pitch::value_of', 'Pitch::to_value', 'Pitch::new', 'Octave::value_of', 'Octave::from_score_offset',
        'Octave::offset', 'Octave::value', 'Solfa::from_score_offset', 'Solfa::score_offset', 'Solfa::pitch_offset', 'SharpFlat::offset'], assumptions=[]),
    'C02': dict(kind='K', functions=['Pitch::up', 'Pitch::down', 'Pitch::with_score_offset_delta', 'Pitch::from_score_offset',
        'Pitch::toggle_sharp', 'Pitch::toggle_flat', 'Pitch::toggle_natural'], assumptions=['the pitch is well-formed (C01)']),
    'C04': dict(kind='K', functions=['Duration::tick_length', 'Duration::min', 'Duration::with_dots', 'Duration::with_denominator', 'Duration::with_numerator',
        'Dots::from_value', 'Denominator::from_value', 'Numerator::ord', 'Numerator::from_ord'], assumptions=[]),
    'C05': dict(kind='K', functions=['Rhythm::value_of', 'Rhythm::new', 'Rhythm::tick_len', 'rhythm::Numerator::from_value', 'rhythm::Denominator::from_value'], assumptions=[]),
    'C06': dict(kind='K', functions=['Trimmer::new', 'Trimmer::from_array', 'Trimmer::from_vec', 'Trimmer::to_vec', 'Trimmer::values', 'Trimmer::updated',
        'Trimmer::added', 'Trimmer::eq'], assumptions=[]),
    'C07': dict(kind='K', functions=['PercentU16::from<f32>', 'PercentU16::apply', 'PercentU16::eq', 'RateTrimmer::from_array', 'RateTrimmer::from_vec',
        'RateTrimmer::new', 'RateTrimmer::apply', 'RateTrimmer::to_vec'], assumptions=['values applied to are at most 2^31-1 (larger than any note length)',
        'IEEE-754 single precision, round to nearest, as CBMC models it']),
    'C08': dict(kind='K', functions=['Note::new', 'Note::start_tick', 'Note::velocity', 'Note::tick_len', 'Note::with_tick_added', 'Note::drag', 'Note::add_dots',
        'Note::toggle_tie', 'Note::up_score_offset', 'Note::down_score_offset', 'Note::toggle_sharp', 'Note::toggle_flat', 'Note::toggle_natural',
        'Note::with_duration', 'Note::with_duration_numerator'], assumptions=[ASSUME_TICKS, 'drag: the dragged tick and position are within range (callers check)',
        'the duration trimmer has its last three parts at 100% (its total still takes every value the conversion yields from one part)']),
    'C09': dict(kind='K', functions=['Bar::with_tick_added', 'Bar::drag', 'Tempo::with_tick_added', 'Tempo::drag', 'Tempo::up', 'Tempo::down',
        'TempoValue::up', 'TempoValue::down', 'CtrlChg::with_tick_added', 'CtrlChg::drag'], assumptions=[ASSUME_TICKS, 'drag: the dragged tick is not negative (callers check)']),
    'C10': dict(kind='K', functions=['Velocity::new', 'PlayIter::new', 'PlayIter::set_iter', 'VarIndex::from_value', 'VarIndex::next', 'VarIndex::prev',
        'TempoValue::new', 'TempoValue::safe_new', 'Channel::new', 'clipper::for_i32', 'clipper::for_i16', 'clipper::for_f32'], assumptions=['clipping bounds are ordered and not NaN']),
    'C12': dict(kind='K', functions=['RepeatSet::try_add', 'RepeatSet::remove', 'RepeatSet::remove_resions', 'RepeatSet::region_index', 'RepeatSet::len', 'RepeatSet::contains'],
        assumptions=['sets are those reachable by successful additions (RepeatSet has no other constructor but deserialisation)']),
    'C24': dict(kind='K', functions=['Deserialize for Pitch, Velocity, TempoValue, Channel, Dots, duration::Denominator, rhythm::Numerator, Grid, PercentU16, Key, Trimmer, RateTrimmer',
        'Serialize for the same'], assumptions=['stored numbers are presented through a minimal serde format (harness/src/de.rs); text syntax belongs to serde_json and others']),
    'C03': dict(kind='V', templates=['c03'], functions=['Pitch::apply_key', 'Pitch::value_of', 'Pitch::to_value', 'Key::SOLFAS (the table)', 'Key::is_flat', 'Solfa::pitch_offset', 'Solfa::score_offset',
        'Octave::value', 'Octave::offset', 'SharpFlat::offset'], assumptions=['HashMap::from and HashSet::from of an array insert its elements in order (std)', 'once_cell Lazy yields what its closure returns',
        'the derived Hash and Eq of Key and Solfa agree', 'the pitch is well-formed (C01) and the key in -7..=7 (C24)']),
    'C11': dict(kind='V', templates=['c11'], functions=['Grid::snap', 'Grid::from_u32', 'Grid::as_u32'], assumptions=['ticks within +-2^62',
        'Grid::value_of: parsing of decimal text by std (str::parse) is checked natively only, bounded; what follows it is Grid::from_u32, which is proved']),
    'C13': dict(kind='V', templates=['c13'], functions=['FromStr for Validated<Option<_>> of Location, i16, TempoValue, Velocity, rhythm::Numerator, duration::Denominator, PercentU16', 'parse_location', 'Location::parse', 'Location::new',
        'Display for Location', 'FromStr for rhythm::Numerator', 'rhythm::Numerator::from_value', 'duration::Denominator::from_value', 'TempoValue::new', 'Velocity::new', 'text_input::from_str', 'TextInput::from_string', 'TextInput::mutate',
        'TextInput::input', 'TextInput::validate'], assumptions=['str::parse of integers: an optional sign (minus only for signed types), decimal digits, within the type (std)', "the syntax and rounding of str::parse::<f32> are std's",
        'the regular expression ^([0-9]+):([0-9]+)$ means what regex documents; a different one is not substituted and leaves the check without a proof (bounded search decides)',
        'write! of {} for usize writes its decimal digits (std)', 'PercentU16::from(f32) is within 0 to 200% (C07, proved by Kani)']),
    'C14': dict(kind='V', templates=['c14'], functions=['ProjectImpl::tempo_at', 'ProjectImpl::dumper_at', 'ProjectImpl::soft_at', 'project::tempo_at', 'project::ctrl_chg_at',
        'ProjectImpl::rhythm_at', 'ProjectImpl::key_at', 'ProjectImpl::bar_no', 'klavier-helper Store (find, index, len, is_empty)', 'Rhythm::tick_len'],
        assumptions=['every item is filed under its own tick (all operations of the project file it so)']),
    'C15': dict(kind='V', templates=['c15'], functions=['ProjectImpl::location_to_tick', 'ProjectImpl::tick_to_location', 'ProjectImpl::last_bar', 'ProjectImpl::rhythm_at',
        'Location::new', 'Location::bar_no', 'Location::offset', 'Rhythm::tick_len', 'Store (find, index, peek_last, len)'],
        assumptions=['every item is filed under its own tick (all operations of the project file it so)', 'fewer than 2^32 bars', '64-bit machine words']),
    'C16': dict(kind='V', templates=['c16'], functions=['ProjectImpl::replenish_bars', 'ProjectImpl::last_bar', 'ProjectImpl::note_max_end_tick', 'ProjectImpl::tempo_max_tick',
        'ProjectImpl::dumper_max_tick', 'ProjectImpl::soft_max_tick', 'ProjectImpl::add_bar_internal', 'ProjectImpl::rhythm_at', 'Note::tick_len', 'Note::start_tick', 'Duration::tick_length',
        'Project::add_note', 'Project::add_tempo', 'Project::add_dumper', 'Project::add_soft', 'Project::tuplize', 'Project::bulk_add', 'Project::change',
        'Store::add', 'Store::bulk_add', 'Store::change'], assumptions=SHARED_EDIT + ['PercentU16::MAX.to_f32() as u32 == 2 (Verus has no floating point)']),
    'C17': dict(kind='V', templates=['c17'], functions=['ProjectCmd::undo', 'ProjectCmd::redo', 'Project::set_rhythm', 'Project::set_key', 'Project::set_grid', 'Project::add_note', 'Project::add_bar',
        'Project::add_tempo', 'Project::add_dumper', 'Project::add_soft', 'Project::tuplize', 'Project::bulk_remove', 'Project::bulk_add', 'Project::change',
        'ProjectImpl::replenish_bars', 'Models::with_notes', 'Models::with_bars', 'Models::unwrap_rc', 'Store::add', 'Store::remove', 'Store::bulk_add', 'Store::change'],
        assumptions=SHARED_EDIT + ['serdo stores commands through bincode (serde derives)']),
    'C29': dict(kind='V', templates=['c29'], functions=['Project::set_rhythm', 'Project::set_key', 'Project::set_grid', 'Project::add_note', 'Project::add_bar',
        'Project::add_tempo', 'Project::add_dumper', 'Project::add_soft', 'Project::tuplize', 'Project::bulk_remove', 'Project::bulk_add', 'Project::change', 'ProjectCmd::redo',
        'ProjectImpl::replenish_bars', 'ModelChanges::with_notes', 'ModelChanges::with_bars', 'ModelChanges::with_tempos', 'ModelChanges::with_dumpers', 'ModelChanges::with_softs', 'Store::add', 'Store::remove', 'Store::bulk_add', 'Store::change'],
        assumptions=SHARED_EDIT + ['serdo applies a command by running its redo on the model']),
    'C30': dict(kind='V', templates=['c30'], functions=['ModelChangeMetadata::new', 'ModelChangeMetadata::with_need_select', 'ProjectCmd::undo', 'ProjectCmd::redo', 'Project::set_rhythm', 'Project::set_key', 'Project::set_grid',
        'Project::add_note', 'Project::add_bar', 'Project::add_tempo', 'Project::add_dumper', 'Project::add_soft', 'Project::tuplize', 'Project::bulk_remove', 'Project::bulk_add', 'Project::change',
        'Project::clear_model_events', 'Project::note_events', 'Project::bar_events', 'Project::tempo_events', 'Project::dumper_events', 'Project::soft_events', 'ProjectImpl::add_bar_internal', 'ProjectImpl::replenish_bars',
        'From<ExportedProject> for ProjectImpl', 'Default for ProjectImpl', 'Store::new', 'Store::add', 'Store::remove', 'Store::bulk_add', 'Store::change', 'Store::clear_events', 'Store::events', 'StoreEvent'],
        assumptions=SHARED_EDIT + ["BagStore's events: each operation appends events that account for what it did (assumed with its contracts)", 'serdo: irreversible_mutate runs the closure on the model',
            'an edit names items that are present for removal and puts at most one item on each tick per track']),
    'C18': dict(kind='V', templates=['c18'], functions=['UndoStore::new', 'UndoStore::add', 'UndoStore::undo', 'UndoStore::redo', 'UndoStore::len',
        'UndoStore::can_undo', 'UndoStore::can_redo', 'UndoStore::freeze'], assumptions=['VecDeque::get returns the element at the index, if there is one (std, no contract in vstd)',
        'UndoStore::iter is a plain iterator over the entries, checked natively only']),
    'C19': dict(kind='V', templates=['c19'], functions=['render_region', 'create_variation', 'CompoundRegion::to_chunks', 'SequenceRegion::to_chunks', 'RepeatRegion::to_chunks', 'VariationRegion::to_chunks',
        'SequenceRegion::render_chunks', 'RepeatRegion::render_chunks', 'VariationRegion::render_chunks', 'SimpleRegion::to_iter1_chunks', 'SequenceRegion::to_iter1_interval_set', 'RepeatRegion::to_iter1_interval_set',
        'VariationRegion::to_iter1_interval_set', 'VariationRegion::end_tick', 'VariationRegion::last_variation', 'SequenceRegion::start_tick', 'SequenceRegion::end_tick', 'RepeatSet::region_index', 'VarIndex::value', 'VarIndex::from_value',
        'GlobalRepeatBuilder::on_bar', 'GlobalRepeatBuilder::build', 'Chunk::new'],
        assumptions=['bars come in ascending tick order (C14 keeps them so), their marks are compatible (C12) and their rhythms are ones the constructors admit (C05)',
        'a call through Box<dyn SimpleRegion> reaches the implementation for the boxed type; every implementation is verified against one contract', 'intervallum: union, intersection, construction and iteration of IntervalSet as documented',
        'enumset: RepeatSet::contains is membership (C12)', "error_stack: report!(E) carries E"]),
    'C20': dict(kind='V', templates=['c20'], functions=['GlobalRepeatBuilder::new', 'GlobalRepeatBuilder::adding_dc', 'GlobalRepeatBuilder::adding_ds', 'GlobalRepeatBuilder::adding_fine', 'GlobalRepeatBuilder::adding_segno',
        'GlobalRepeatBuilder::adding_coda', 'GlobalRepeatBuilder::adding_first_bar_len', 'GlobalRepeatBuilder::on_bar', 'GlobalRepeatBuilder::check_coda_pos', 'GlobalRepeatBuilder::add_range', 'GlobalRepeatBuilder::to_interval_set',
        'GlobalRepeatBuilder::build', 'DsDc::tick', 'GlobalRepeat::segno', 'GlobalRepeat::ds_dc', 'GlobalRepeat::iter1_interval_set', 'Rhythm::tick_len'],
        assumptions=['the second coda is not before the first, rhythms are ones the constructors admit (C05), and the first bar plus the bar before D.C. fits 32 bits', 'intervallum: construction of IntervalSet as documented',
        'enumset: RepeatSet::contains is membership (C12)', "error_stack: report!(E) carries E",
        'known finding: on_bar records with D.C. the length of the first bar, not of the bar before the mark; the contract says so and the finding is replayed natively']),
    'C21': dict(kind='V', templates=['c21'], functions=['Chunk::new', 'Chunk::start_tick', 'Chunk::end_tick', 'Chunk::len', 'Chunk::contains', 'Chunk::optimize', 'Chunk::by_accum_tick',
        'PlayStartTick::new', 'PlayStartTick::to_accum_tick', 'PlayIter::new', 'PlayIter::iter', 'PlayIter::set_iter', 'Store::new', 'Store::add'],
        assumptions=['sections are not empty, only the last may be open-ended, and accumulated times fit 32 bits', 'a tick is played at most 254 times']),
    'C22': dict(kind='V', templates=['c22'], functions=['Models::move_to_tick'], assumptions=['every moved item still has a 32-bit tick',
        'std::cmp::min returns the smaller of its arguments']),
    'C23': dict(kind='V', templates=['c23'], functions=['tuplize', 'sort_by_start_tick', 'gcd_units', 'total_tick_unit', 'numerator_unit', 'TupleElem::add', 'TupleElem::unit', 'TupleElem::tick_length',
        'Duration::min', 'Duration::tick_length', 'Duration::with_denominator', 'Numerator::ord', 'Denominator::from_value', 'Dots::value'],
        assumptions=['at most 2^20 notes, at ticks up to 2^31, of durations the constructors admit (C04)', 'std: sort_by yields an ordered permutation; Vec::clone shares the notes', 'the gcd crate computes greatest common divisors']),
    'C25': dict(kind='V', templates=['c25'], functions=['From<ExportedProject> for ProjectImpl', 'Into<ExportedProject> for ProjectImpl', 'Note::start_tick', 'Store::new', 'Store::bulk_add',
        'ModelChangeMetadata::new'], assumptions=["klavier-helper's BagStore: contracts of new/bulk_add/iter are assumed (its Store is verified)",
        'serde derives write and read ExportedProject faithfully (checked natively through JSON)', 'every item of a project is filed under its own tick (C17 keeps it so)', 'effective start ticks fit 32 bits']),
    'C26': dict(kind='V', templates=['c26'], functions=['Models::to_clipboard_text', 'Models::from_clipboard_text', 'ExportedProject::from_clipboard_text', 'ExportedProject::to_models'],
        assumptions=['serde_json: the stream deserializer yields the first value and where it ends, from_slice reads one value and nothing else, a number directly before a brace is read as that number',
            'the serde derives of Models and ExportedProject read what they write (checked natively)', 'std Cursor and from_utf8_lossy pass the written text on']),
    'C27': dict(kind='V', templates=['c27'], functions=['FlyWeight::new', 'FlyWeight::intern'],
        assumptions=["std's HashMap finds a key equal to the one given; T's Eq is an equivalence and its Hash agrees with it", 'references are modelled with an identity (type Shared), HashMap<&T, &T> by the class of its keys']),
}

TECHNIQUE = {
    'K': 'function contracts on the real code discharged by Kani/CBMC (deductive, full input domain)',
    'V': 'contracts and loop invariants on mechanically extracted real functions discharged by Verus/Z3 (deductive, unbounded)',
}

NOT_APPLICABLE = {
    'C28': 'crash durability is a property of SQLite and the file system across process death; no function contract expresses crash points',
}
