import json
import re,os
P=[]
SRC={f"src/{f}":open(f"/repo/src/{f}").read() for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f!="contracts.rs"}
def where(sym,files):
    """the file that defines sym"""
    ty,_,fn=sym.rpartition("::")
    def has(t):
        if not re.fullmatch(r"[\w:]+",sym): return False
        if not ty: return bool(re.search(r"\b(fn|struct|enum|trait|mod|macro_rules!) "+fn+r"\b",t))
        return bool(re.search(r"\b(struct|enum|trait|type) "+ty+r"\b|impl[^{;]*\b"+ty+r"\b",t) and re.search(r"\b(fn|const|static) "+fn+r"\b",t)) and bool(re.search(r"\b(struct|enum|trait|type) "+ty+r"\b",t))
    for f in files+[x for x in SRC if x not in files]:
        if has(SRC[f]): return f
    return files[0]
def p(id,title,st,over,qt,why,files,syms=None):
    a={"files":files}
    a["mechanism"]=[{"name":x,"where":where(x,files)} for x in (syms or [])]
    a["observe_at"]=["return values of the public functions named above"]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("C01","A pitch is accepted exactly when it is a valid MIDI note, and reports itself",
"For every combination of note name, octave and accidental, creating a pitch succeeds exactly when 12*(octave+2) + the name's semitone offset + the accidental's offset lies in 0..=127, and otherwise fails as too low or too high carrying that computed value. A created pitch reports exactly the name, octave and accidental given, that computed value, and the staff position 7*(octave+2) + the name's index. Converting any integer to an octave succeeds exactly for -2..=8 (0..=10 counted from the lowest) and never panics, and converting any integer to a note name clamps to C..B.",
["inputs"],"all 7*11*6 name/octave/accidental combinations and all 32-bit integers","tests sample a few pitches and two out-of-range octaves; the boundary octave just past the top panics and no test visits it",
["src/pitch.rs","src/solfa.rs","src/octave.rs","src/sharp_flat.rs"],["Pitch::value_of","Pitch::to_value","Octave::from_score_offset","Solfa::from_score_offset"])
p("C02","Moving a pitch on the staff or toggling its accidental is exact and never panics",
"Moving a valid pitch up, down or by any staff-position delta yields exactly the pitch at that staff position with the accidental kept, or an error exactly when that position is off the keyboard (outside 0..=74 for a move by delta, 0..=76 for a single step) or the resulting note is outside 0..=127; it never panics, and up then down returns the original whenever both succeed. Building a pitch from any staff position clamps it to 0..=74 and yields the natural-spelled pitch there. The sharp, flat and natural toggles cycle none->sharp->double-sharp->none, none->flat->double-flat->none and none<->natural (any other accidental becoming sharp, flat or natural respectively), fail exactly when the result is outside 0..=127, and change nothing but the accidental and the value.",
["inputs"],"every valid pitch and every 32-bit delta or position","tests move a handful of pitches by small deltas; extreme deltas, the keyboard ends with accidentals and the toggle cycles at the ends are unvisited",
["src/pitch.rs","src/solfa.rs","src/octave.rs"],["Pitch::up","Pitch::down","Pitch::with_score_offset_delta","Pitch::from_score_offset","Pitch::toggle_sharp"])
p("C03","A key signature alters exactly the notes it names",
"Applying a key signature with n sharps (flats) turns a note without accidental into its sharp (flat) exactly when its name is among the first n of F C G D A E B (B E A D G C F), leaving every other such note unchanged, and octave and name are always kept. Any note that already carries an accidental, natural included, is returned unchanged. The only failure is a resulting note outside 0..=127.",
["inputs"],"all 15 key signatures and all valid pitches","tests cover a few keys; the 15 table rows and their combination with every note name are not all visited",
["src/pitch.rs","src/key.rs"],["Pitch::apply_key","Key::SOLFAS"])
p("C04","Note length in ticks follows notation: halving, dots and tuplets",
"The tick length of a duration is the undotted value (whole note 960 ticks, halved for each shorter value down to the 128th note, rounded down), extended by dots to twice the value minus the value shifted right by the number of dots, then multiplied by 2 and divided by the tuplet denominator, rounding down, with denominator 2 meaning no change; it never overflows. Adding a dot never shortens a note, a larger tuplet denominator never lengthens it, and choosing the shorter of two durations returns one of them whose length is the smaller. Dots are accepted exactly for 0..=7, tuplet denominators exactly for 2..=255, and note values round-trip through their ordinal 0..=7.",
["inputs"],"all 8*254*8 durations and all byte arguments","tests sample a dozen durations",
["src/duration.rs"],["Duration::tick_length","Duration::min","Dots::from_value","Denominator::from_value"])
p("C05","Time signatures are validated and give the exact bar length",
"A time signature is accepted exactly when its numerator is 1..=99 and its denominator is one of 2, 4, 8, 16, 32, 64; a bad numerator is reported before a bad denominator and each error carries the offending number. The bar length is numerator*960/denominator ticks rounded down, is always at least 15 and fits without overflow, and the default is 4/4 with 960 ticks.",
["inputs"],"all 65536 numerator/denominator byte pairs","tests check a few signatures",
["src/rhythm.rs"],["Rhythm::value_of","Rhythm::tick_len"])
p("C06","A trimmer's total is always the exact sum of its parts",
"However a tick/velocity trimmer is built or edited (from four values, an array, a list, or an edit function), its reported total equals the mathematical sum of its four values, its values are the ones supplied, and it equals any other trimmer with the same four values; nothing overflows or panics. Adding a tick delta changes the total by exactly that delta, or as far towards it as the 16-bit ranges of the four values allow, filling the first value first and touching a later one only when the earlier ones are saturated.",
["inputs"],"all 2^64 value quadruples and all 32-bit deltas","tests use small values; totals beyond 16 bits and saturation chains are not visited",
["src/trimmer.rs"],["Trimmer::from_array","Trimmer::from_vec","Trimmer::updated","Trimmer::added"])
p("C07","Percentages stay in 0..=200% and rate totals match their stored parts",
"Any floating-point rate, including NaN and infinities, becomes a percentage between 0.0% and 200.0% equal to the rate truncated to a tenth of a percent, and applying a percentage p to a value v yields exactly v*p rounded down. A rate trimmer's total depends only on the four percentages it stores and equals their product taken as rates and converted back, so two rate trimmers with the same stored percentages are equal however they were built. Applying a rate trimmer is applying its total.",
["inputs"],"all 2^32 float bit patterns, all percentage quadruples and all values up to the longest note","tests use round percentages; rates that are not multiples of 0.1% make totals differ from the stored parts",
["src/percent.rs","src/trimmer.rs"],["PercentU16::from","PercentU16::apply","RateTrimmer::new","RateTrimmer::from_array"])
p("C08","Effective note timing and velocity follow their formulas; edits touch one field",
"A note's effective start is its base start plus the trimmer total, never below tick 0; its effective velocity is base plus trimmer total clamped to 0..=127; its effective length is the duration's tick length scaled by the rate total. Shifting by a tick delta fails exactly when base plus delta is negative, and otherwise moves either only the base start by the delta or, in trim mode, only the start trimmer; dragging moves base start and staff position by the given deltas. Dots are added exactly when the result is 0..=7, the tie toggle cycles none->start->end->both->none, accidental and up/down edits act as the pitch edit does, and every edit leaves all other fields equal.",
["inputs"],"every note with ticks in the documented range 0..=2^31-1 and every delta","tests build a few notes with default trimmers; combinations of trimmers, extreme deltas and field frames are not checked",
["src/note.rs"],["Note::start_tick","Note::velocity","Note::tick_len","Note::with_tick_added","Note::drag","Note::add_dots","Note::toggle_tie"])
p("C09","Shifting bars, tempo changes and pedal events is exact and touches only the tick",
"Shifting a bar, tempo change or pedal event by a tick delta fails exactly when the resulting tick would be negative, and otherwise moves it to exactly that tick with everything else unchanged; dragging to a valid tick does the same. Dragging a tempo by a tempo delta yields the old value plus the delta clamped to 1..=999, and stepping a tempo up or down changes it by exactly one or fails exactly at the limits 999 and 1.",
["inputs"],"every event with ticks in 0..=2^31-1, every tick delta and every tempo delta within +-30000 (any 32-bit delta not overflowing)","no test drags anything below its lower limit",
["src/bar.rs","src/tempo.rs","src/ctrl_chg.rs"],["Bar::with_tick_added","Tempo::drag","Tempo::up","Tempo::down","CtrlChg::with_tick_added"])
p("C10","Bounded musical quantities never leave their range",
"Velocities are clamped to 0..=127, play iterations to 1..=5, and variation indices are exactly 1..=4 with next and previous failing exactly at the ends; a tempo built through the clamping constructor never exceeds 999 and otherwise keeps its value. Channels and tempos built through the checked constructors keep their value inside 0..=15 and 0..=999 and reject everything else. Changing a play iteration succeeds exactly for 1..=5 and otherwise leaves it untouched, and a clipper returns its lower bound, upper bound or the value itself, whichever is appropriate.",
["inputs"],"all byte/16-bit arguments and all clipper bounds and values","tests check single values",
["src/velocity.rs","src/tempo.rs","src/channel.rs","src/play_iter.rs","src/bar.rs","src/clipper.rs"],["Velocity::new","PlayIter::new","PlayIter::set_iter","VarIndex::from_value","Clipper::clip","TempoValue::safe_new","Channel::new"])
p("C11","Grid snapping returns the nearest grid line",
"For every non-zero grid size and every tick (negative included, within +-2^62), snapping yields a multiple of the grid size at distance at most half a grid from the tick; an exact halfway tick moves away from zero, grid lines stay fixed, and snapping preserves order and sign symmetry. A grid is built from a number or its decimal text exactly when it is between 1 and 2^32-1, and reports that number.",
["inputs"],"all 2^32-1 grid sizes and all ticks in +-2^62","tests snap a few ticks to one or two grids",
["src/grid.rs"],["Grid::snap","Grid::from_u32","Grid::value_of"])
p("C12","Repeat-mark compatibility is symmetric and enforced",
"Adding a repeat mark to a bar's set succeeds exactly when no mark already there is incompatible with it, yields the set plus that mark, and otherwise reports exactly the conflicting marks; marks a and b are incompatible regardless of which is added first, so the outcome never depends on the order. The incompatible pairs are: repeat start with D.C., D.S. and variations; repeat end with variations; D.C. with D.S. and segno; variations with D.C., D.S., segno and each other. Removing a mark or all variations removes exactly those, and the variation index is that of the variation mark present, if any.",
["inputs","histories"],"every set of marks reachable by successful additions and every mark, in every order","one test checks one pair in one order",
["src/bar.rs"],["RepeatSet::try_add","RepeatSet::remove","RepeatSet::remove_resions","RepeatSet::region_index"])
p("C13","Text entry never panics and never yields an out-of-range value",
"Validating any text as a location, signed offset, tempo, velocity, time-signature numerator, tuplet denominator or percentage returns a value or an error and never panics; empty text means no value. A returned tempo is in 1..=999, velocity in 0..=127, numerator in 1..=99, denominator at least 2, percentage at most 200%, and each equals the number typed whenever that number is within the range. A location is accepted exactly for two runs of ASCII decimal digits separated by one colon whose numbers fit the machine word, and displaying then parsing a location returns it. The verdict of a text field is always that of the text it shows.",
["inputs"],"all strings","tests type a few strings per field; numbers above the limits and huge digit strings panic today",
["src/text_input.rs","src/location.rs","src/rhythm.rs"],["Validated::from_str","parse_location","Location::parse","TextInput::mutate"])
p("C14","Tempo, pedal, rhythm and key in force come from the latest change at or before",
"The tempo or pedal value at a tick is that of the entry with the greatest tick not after it, or the default (tempo 120, pedal 0) when there is none. The rhythm and key at a tick are those of the latest bar not after it that carries one, or the project's own when there is none. A bar's number is its position in tick order, reported exactly for bars at an existing tick.",
["inputs","histories"],"every project content and every tick","tests query small hand-made projects",
["src/project.rs"],["ProjectImpl::tempo_at","tempo_at","ctrl_chg_at","ProjectImpl::rhythm_at","ProjectImpl::key_at","ProjectImpl::bar_no"])
p("C15","Bar/offset locations and ticks convert both ways exactly",
"Converting a tick to a location gives the number of bars at or before the tick and the distance from the last of them (from tick 0 if none), and converting that location back gives the same tick. A location whose bar exists converts to that bar's tick plus offset; one beyond the last bar (or with no bars) extrapolates with the bar length of the rhythm in force at the last bar (or of the project). Any location whose tick exceeds 2^32-1 reports an overflow error, and no location, however large, panics or wraps.",
["inputs","histories"],"every bar set, every tick and every pair of machine-word bar number and offset","tests convert a few locations; offsets near the machine-word limit panic today",
["src/project.rs","src/location.rs"],["ProjectImpl::location_to_tick","ProjectImpl::tick_to_location","Location::new"])
p("C16","After every edit the bars reach the end of the music",
"After adding or changing notes, tempos or pedal events, the last bar is at or after the end of every note and every tempo/pedal event (when all lie below tick 2^31). Replenishing never moves, changes or removes an existing bar, adds bars only after the previous last one, evenly spaced by the bar length in force there (or from tick 0), stops at the first bar at or past the end, and adds nothing when the bars already reach it. The bars it reports as added are exactly the ones it added.",
["histories"],"every project content and every edit","tests check one or two short scores",
["src/project.rs"],["ProjectImpl::replenish_bars","ProjectImpl::note_max_end_tick","ProjectImpl::last_bar"])
p("C17","Undo restores the score exactly and redo restores the edit",
"Undoing any edit (adding, bulk adding, removing, changing, tuplizing, or setting rhythm, key or grid) restores notes, bars, tempo changes, pedal events and settings to exactly what they were before it, automatically added bars and overwritten items included. Redoing then restores exactly the state after the edit. This assumes the edit names items that are present for removal and puts at most one item on each tick per bar/tempo/pedal track.",
["histories"],"every project content and every edit meeting the stated assumption","tests undo a few scripted edits on tiny scores; overwritten items together with replenished bars are not covered",
["src/project.rs","src/models.rs"],["ProjectCmd::undo","ProjectCmd::redo","Project for SqliteUndoStore"])
p("C18","The in-memory undo history is a bounded linear history",
"The history keeps at most its capacity (at least one) of the newest entries; adding an entry discards everything undone and makes it the next to undo, dropping the oldest when full. Undo returns entries newest first and redo returns exactly the most recently undone entry, each returning nothing and changing nothing at its end. Whether undo/redo is possible is reported exactly, and while frozen adding changes nothing.",
["histories"],"every sequence of add, undo, redo and freeze calls, every capacity","tests run short sequences with one capacity",
["src/undo.rs"],["UndoStore::add","UndoStore::undo","UndoStore::redo","UndoStore::can_undo","UndoStore::can_redo","UndoStore::freeze"])
p("C19","Repeats and variations are played in the documented order",
"Without D.C./D.S., a score is played in order with each repeat section twice and each variation section as common part then each ending in turn, everything else once, starting at tick 0 and open-ended at the last section. With D.C. or D.S. it is played so up to the mark, and then in ascending order every tick of the second pass (C20), each repeat section once and of the endings only the last. An unmatched repeat end, a repeat start inside an open repeat, a repeat or ending left open, endings out of order, a repeat end inside an ending, a D.C./D.S. inside a repeated section and a segno between the first and the last ending are each reported as the corresponding error with its tick, and every other score whose marks C20 accepts is accepted.",
["inputs"],"every sequence of bars in ascending tick order carrying any compatible marks","tests render about thirty hand-drawn scores",
["src/repeat.rs"],["render_region","RepeatRegion","VariationRegion","SequenceRegion","CompoundRegion"])
p("C20","D.C./D.S. bookkeeping follows the documented rules",
"At most one D.C./D.S., one segno, one fine and two codas are accepted per score and a repetition is reported with both ticks; D.S. without segno, D.S. with a single coda, and codas after fine are errors, while D.C. with a segno or with a single coda is accepted with a warning. The second pass starts at the segno for D.S. and for D.C. at the segno if any, else at the top, or at the second bar when the first bar is a pickup not completed by the bar before D.C. (a D.C. in a score without a bar line after the top is ignored). The second pass covers exactly the ticks from there up to fine (or without limit), skipping from the first coda to the second.",
["inputs","histories"],"every sequence of bars in tick order and every combination of marks","tests cover some twenty of the combinations",
["src/global_repeat.rs"],["GlobalRepeatBuilder::on_bar","GlobalRepeatBuilder::build","GlobalRepeatBuilder::adding_dc","GlobalRepeatBuilder::adding_segno"])
p("C21","Playback sections merge losslessly and seek finds the n-th pass",
"Merging adjacent playback sections leaves the exact sequence of played ticks unchanged, never leaves two mergeable neighbours, and laying sections out in accumulated time places each section at the total length of those before it. Seeking to a tick's n-th pass returns the accumulated time of the n-th section containing that tick plus the distance from that section's start, and when there are fewer passes reports the requested pass and the number that exist.",
["inputs"],"every list of non-empty sections whose total length fits 32 bits (at most 255 passes) and every tick and pass","tests use the few section lists their scores produce",
["src/repeat.rs","src/play_start_tick.rs"],["Chunk::optimize","Chunk::by_accum_tick","Chunk::contains","PlayStartTick::to_accum_tick"])
p("C22","Pasting moves a selection as a rigid block to the target tick",
"Moving a copied selection to a tick puts its earliest item (over notes' base starts, bars, tempos and pedal events) exactly on that tick, keeps every distance between items and the order and number of items, and changes nothing but the ticks; an empty selection stays empty.",
["inputs"],"every selection and every target tick for which all resulting ticks fit 32 bits","tests move one or two small selections",
["src/models.rs"],["Models::move_to_tick"])
p("C23","Making a tuplet keeps chords together and spaces the notes evenly by value",
"Turning notes into a tuplet returns the same number of notes, ordered by their start, with only start tick and tuplet denominator changed. All notes that began together still begin together and every note gets the same denominator, the number of smallest note units in the group. Each chord starts where the previous chord's shortest note ends in proportion to the note values, the first one at the original earliest start; selections of fewer than two units are returned unchanged, and no selection panics.",
["inputs"],"every selection of notes with ticks below 2^31 and up to 255 tuplet units","tests make tuplets of single notes; chords inside a tuplet are split today",
["src/tuple.rs"],["tuplize","sort_by_start_tick","total_tick_unit","numerator_unit"])
p("C24","Loaded data can only contain valid values",
"Deserialising any of the bounded quantities (pitch, velocity, tempo, channel, dots, tuplet denominator, time-signature numerator, grid, percentage, key) from any stored number yields a value within its documented range or an error; it never panics and never yields an out-of-range value. A stored valid value is read back unchanged, and trimmer totals are recomputed from the stored values.",
["inputs"],"every stored number (and pitch triple) presented to the deserialiser","tests deserialise a few well-formed values; corrupt files are never tried",
["src/pitch.rs","src/velocity.rs","src/tempo.rs","src/channel.rs","src/duration.rs","src/rhythm.rs","src/grid.rs","src/percent.rs","src/key.rs"],["Deserialize impls"])
p("C25","Saving and reloading a project keeps every item and setting",
"Converting a project to its stored form and back yields the same rhythm, key, grid and the same notes, bars, tempo changes and pedal events, each at its own tick, with none lost, duplicated or altered. Building a project from a stored form files every note under its effective start tick and every other item under its own tick.",
["inputs","histories"],"every project content","tests round-trip one or two projects",
["src/project.rs"],["From<ExportedProject> for ProjectImpl","Into<ExportedProject> for ProjectImpl"])
p("C26","Clipboard text round-trips and rejects foreign versions",
"Text produced from a selection parses back to an equal selection, and text whose leading version number is not the supported one, is not a number, or whose body is malformed is rejected with the corresponding error.",
["inputs"],"every selection and every string","tests round-trip two selections",
["src/models.rs","src/exported_project.rs"],["Models::to_clipboard_text","Models::from_clipboard_text","ExportedProject::from_clipboard_text"])
p("C27","Interning returns one shared instance per value",
"Interning equal values always returns the very first instance interned, and interning different values returns different instances.",
["histories"],"every sequence of interned values","one test interns two strings",
["src/fly_weight.rs"],["FlyWeight::intern"])
p("C28","A saved project survives a crash and reopening",
"After any sequence of edits and undos, reopening the project file yields the project as of the last completed edit with its undo history usable, whatever the point at which the process died.",
["crash_points","histories"],"every edit history and crash point","tests reopen one project once, cleanly",
["src/project.rs"],["ProjectStore"])
p("C29","Edits change exactly what they name",
"Adding an item puts it in its own track at its own start tick, replacing what was on that tick where the track holds one item per tick (bars, tempos, either pedal); removing takes out exactly the named items; changing takes out the old items and puts in the new ones; tuplizing replaces the given notes by their tuplet; setting rhythm, key or grid changes that setting alone. Everything else stays exactly as it was, except that an edit may add plain bars after all existing ones (C16); an edit that is refused changes nothing. This assumes the edit names items that are present for removal and puts at most one item on each tick per bar/tempo/pedal track.",
["inputs","histories"],"every project content and every edit meeting the stated assumption","tests check a few scripted edits and look at the track they edit, not at the others",
["src/project.rs","src/models.rs"],["Project for SqliteUndoStore","ProjectCmd::redo","ModelChanges"])
p("C30","Change notifications account for every change to the score",
"A listener that holds the score and applies, in order, the events of each track (notes, bars, tempos, either pedal) always arrives at the score itself: from loading or creating a project on, whatever edits, undos and redos follow, every change is told and nothing is told that did not happen. Events told are never altered or dropped except by clearing, which empties all five tracks' events and changes nothing else. An event of an added item carries the metadata of its edit: adding with select asks for selection and without it does not, bulk adding and changing pass on the metadata given, tuplizing asks to select the tuplet, and undoing or redoing repeats the metadata the edit was made with. Each track's events are that track's own.",
["histories"],"every project content and every history of edits, undos, redos and clearings meeting C29's assumption","tests look at no event at all beyond one or two fields after single edits",
["src/project.rs"],["ModelChangeMetadata","Project for SqliteUndoStore","clear_model_events","ProjectCmd::undo","ProjectCmd::redo"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
