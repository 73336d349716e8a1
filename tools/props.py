MB = "base/src/videos/minesweeper_board.rs"
BV = "base/src/videos/base_video.rs"
UT = "base/src/utils.rs"
AI = "abstract interpretation of the MIR (symbolic values, fact sets, loop phis) against an oracle table"
TRUST = ("Decided for every abstract exit of the analysed code with all unlisted inputs symbolic; trusts rustc's MIR, the transfer functions written for "
         "standard-library calls, and that unsigned arithmetic does not wrap (debug builds panic).")


def P(id, title, statement, q, why, files, mech, over=("inputs", "histories"), technique=AI, note=TRUST):
    return dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why, files=files, mech=mech, technique=technique, note=note)


def NA(id, title, statement, q, why, files, mech, reason, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why, files=files, mech=mech, reason=reason)


STEP = [("step: match on game phase, event and mouse state", MB)]
CLAIMED = [
    P("M01", "Mouse state follows the documented automaton",
      "In every phase in which input is live (before the first click, pre-flagging, playing), each mouse event takes each of the seven real mouse states to the one successor "
      "the documented mouse automaton names, which depends on nothing but phase, event, whether the position is on the board and, for a right press, whether the cell is already "
      "opened. An event the automaton has no edge for is refused without touching the mouse state, and an unknown event string is refused without any effect.",
      "all event sequences: every (phase, mouse state, event, on/off board, cell class) with board size and contents symbolic",
      "the tests replay one recorded game per file format; they visit a small part of the state x event table",
      [MB], STEP + [("left_click, right_click, chording_click", MB)]),
    P("M02", "Left, right and double click counters count exactly the clicks performed",
      "While playing, the left counter rises by one exactly when a left press is completed on the board without a chord, the right counter by one exactly on a right press on the "
      "board with no other button held, the double counter by one exactly when a chord is released on the board; no other event changes them. "
      "The one correction is that releasing a chord whose right press fell on an opened cell takes that right click back; presses before the game starts count by the same rules.",
      "all event sequences, all board contents",
      "the tests compare the totals of a few recorded games", [MB], STEP + [("left_click, right_click, chording_click", MB)]),
    P("M03", "Game phase changes only through the documented transitions",
      "A game leaves the ready phase only by a left press on the board or a pre-flag, starts playing only when a left click is completed on a covered cell, is lost exactly when a "
      "mine is opened by a left click, and is won only when the win test on the resulting board succeeds; after a left click that opens safe cells it must be made. "
      "Moving the mouse, flags in play, presses without release and clicks on opened or marked cells never change the phase, and pre-flagging falls back to ready only when no pre-flag is left.",
      "all event sequences, all board contents",
      "tests observe the final phase of a few games", [MB], STEP + [("is_win", MB)]),
    P("M04", "A finished game absorbs every event",
      "Once a game is won, lost or shown as a replay, feeding any event at any position, known or unknown, succeeds with result 0 and changes nothing at all in the machine.",
      "all events (any string), all positions, all prior histories",
      "no test feeds events after the end", [MB], STEP),
    P("M05", "Marking toggles one cell and keeps the flag count exact",
      "A right click on a covered cell marks exactly that cell and adds one to the flag count; on a marked cell it unmarks exactly that cell and subtracts one; on an opened cell it changes neither. "
      "The useful-click count rises by one exactly when the marked cell is a mine that had not been marked before. No other event changes the flag count or sets a mark.",
      "all event sequences, all board contents",
      "tests see the final flag count of a few games", [MB], [("right_click", MB)] + STEP),
    P("M06", "Chording opens the unmarked neighbours exactly when the marks match",
      "Releasing a chord on an opened number from 1 to 7 opens cells exactly when the number of marks in the 3x3 window around it, clipped to the board, equals the number and some covered "
      "unmarked cell is left in the window, and then opens exactly those cells, counts one useful click and loses exactly when one of them is a mine. "
      "Otherwise, and on empty, covered or marked cells, nothing but the double-click count and the mouse state changes.",
      "all board sizes and contents, all positions, all ways to release a chord",
      "tests contain a handful of chords", [MB], [("chording_click", MB)]),
    P("M07", "The mine layout and board size never change during play",
      "No event, in any phase and mouse state, changes the mine layout or the recorded number of rows and columns; opening cells reads the layout and never writes it.",
      "all event sequences, all board contents",
      "tests never compare the layout before and after", [MB, UT], STEP + [("refresh_board", UT)]),
    P("M08", "A left click opens the clicked cell and nothing when it may not",
      "Completing a left click in play on a covered unmarked cell opens that cell by the opening rule and counts one useful click if it is safe, or loses the game with no useful click if it is a mine; "
      "on an opened or marked cell it changes nothing but the left-click count. Events that complete no click never change the visible board.",
      "all board sizes and contents, all positions, all event sequences",
      "tests click a few dozen cells", [MB, UT], [("left_click", MB), ("refresh_board", UT)] + STEP),
    P("M09", "The win test says yes only when every cell is settled",
      "The win test answers yes only after going through every cell from its scan position to the end of the board in row order, each being either opened showing its true number, or covered or marked with a mine under it. "
      "It answers no on meeting a covered safe cell or an opened cell with a wrong number, changes nothing but its scan position, and moves the scan position only onto a covered safe cell.",
      "all board sizes and contents",
      "tests win a few games on standard boards", [MB], [("is_win", MB)]),
    P("M10", "Resetting a machine makes it equal to a new one",
      "After a reset every piece of state that play can change, hidden bookkeeping included, has the value it has in a newly built machine, and the visible board is fully covered with the same dimensions.",
      "all histories before the reset",
      "no test resets a used machine", [MB], [("reset, new", MB)]),
    P("M11", "Solved 3BV counts each numbered cell and opening once",
      "Completing a left click on a covered cell adds to solved 3BV nothing on a mine, one on a number exactly when none of its neighbours is empty, and one on an empty cell exactly when the walk over its "
      "opening meets no marked empty cell. Chording adds one for each covered number of the window without an empty neighbour, and one for each distinct opening of the window's covered empty cells that no mark blocks; "
      "no other event changes solved 3BV (returning to the ready phase clears it).",
      "all board sizes and contents, all positions",
      "tests compare final totals of a few games", [MB], [("left_click, cell_is_bbbv, cell_is_op_completed, op_num_around_cell", MB)]),
    P("M12", "The step result says what the step did to the board",
      "In play an accepted event returns 1 exactly when a mark was set or removed, 2 exactly when a left click opened safe cells, 3 exactly when a chord opened cells, and 0 otherwise "
      "(nothing changed, or a left click hit a mine).",
      "all event sequences, all board contents",
      "tests ignore the result codes", [MB], STEP),
    P("M13", "A sequence of operations is carried out one by one",
      "step_flow gives the machine every operation of the list in order, each with its own kind and position and exactly once, until one is refused; it answers Ok when none was refused and an error at the first that is, the operations after it not being given. It does nothing else to the machine.",
      "all machines, all lists of operations", "tests give fixed lists that are not refused", ["base/src/videos/minesweeper_board.rs"], [("MinesweeperBoard::step_flow", "base/src/videos/minesweeper_board.rs")]),
    P("V01", "Result metadata can be set only once the game is over",
      "Every setter of result metadata (official, fair, mode, player, race, uniqueness, start time, end time, country, device id, checksum) refuses with an error and changes nothing unless the "
      "game is won or lost; the software name and the pixel size may also be set before a game starts, and nothing may be set during play or in replay. An accepted call sets exactly its own field. "
      "Setting the checksum the first time turns the last byte of the file data into 0 and appends the 32 bytes; setting it again replaces the last 32 bytes; both also store it.",
      "all six game states, all argument values, all video contents",
      "no test calls a setter in a wrong state", [BV], [("set_is_offical .. set_device_uuid, set_software, set_pix_size, set_checksum", BV)]),
    P("V02", "Figures of a game are readable only when they exist",
      "Every fallible figure (result time, raw data, checksum, solved 3BV/openings/islands, ce, estimated time, 3BV/s, STNB, RQP, QG, ce/s, correctness, throughput, IOE) is returned exactly when the game is won, "
      "lost or in replay, and refused otherwise; start/end of the replay, pointer position and recorded pixel size exactly in replay. Reading a figure never changes the video.",
      "all six game states, all video contents",
      "tests read figures of finished games only", [BV], [("get_* methods", BV)]),
    P("V03", "Figures come from the right source",
      "In replay left, right, double, flag, ce, solved 3BV, mouse state and path are those recorded with the current event, the total of clicks is the sum of the first three, and the board shown is the one after the current event; "
      "outside replay clicks, flags, mouse state and board are the rule machine's own, and after a game solved 3BV, ce and path are those of the last record. The mouse state is numbered 1..8 in the documented order. "
      "Result time, raw data, checksum, pixel size and the replay's start (minus the delay) and end (last event minus the delay) are returned as stored.",
      "all six game states, all video contents, every current event",
      "tests read some of the figures at the end of a few replays", [BV], [("get_left .. get_checksum", BV)]),
    P("V04", "Derived figures follow their formulas",
      "Rates, estimated time, 3BV/s, STNB (with the constant of the board's level; 0 on custom boards), RQP = t^2/solved, QG = t^1.7/solved, ce/s, correctness = ce/clicks, throughput = solved/ce, IOE = solved/clicks "
      "use the current event and the replay clock in replay and the last record and the result time afterwards, with 0 where the denominator (or, where documented, a time below 0.00099 s) would make them meaningless; "
      "live rates divide by the time since the game started, stored rates are returned after the game, and the time shown follows the phase.",
      "all six game states, all video contents",
      "tests compare some of them on a few replays", [BV], [("get_etime .. get_ioe, get_*_s, get_time", BV)]),
    P("V05", "The end of a game stores its exact figures, once",
      "The step that ends a game stores whether it was won, the time in milliseconds since the game started (and the same in seconds), the wall-clock end, 3BV, openings, islands and cell counts of the video's board, the rule machine's "
      "click and flag counts, their total and their rates per second, and the estimated time (the time itself when won, extrapolated by solved 3BV when lost). A step that does not end the game changes none of these.",
      "all transitions of the rule machine in any history, all boards and counters",
      "tests play two games", [BV], [("step, gather_params_after_game, cal_static_params", BV)]),
    P("V06", "The game clock starts with the first opening and never moves during play",
      "The video's time zero is the reading of the first event that leaves the ready phase and does not move until the phase is ready again; the game's start mark (ms since time zero) and wall-clock start are taken exactly on the step "
      "that starts the game, even when that step also ends it; every record carries the rounded milliseconds since time zero, read once per step.",
      "all transitions of the rule machine in any history",
      "tests do not control the clock", [BV], [("step", BV), ("time_ms_between", "base/src/miscellaneous.rs")]),
    P("V07", "Every accepted event is recorded exactly once",
      "A step hands the rule machine the event and the cell under the pixel position, once. A refused event is reported as an error and leaves the record untouched; after the end a step does nothing and succeeds. An accepted event appends one record with "
      "event, pixel position, usefulness, mouse state and counters after the event, and the numbers of the boards before and after it; a board is appended exactly when the event changed it, after an all-covered first board; "
      "falling back to the ready phase discards records and boards. A step changes no setting, label or layout of the video.",
      "all transitions of the rule machine in any history, all positions and pixel sizes",
      "tests play two games", [BV], [("step", BV)]),
    P("V08", "Path length accumulates from the last position on the board",
      "While playing, each record's path is the path of the latest earlier record that lies on the board plus the straight distance from its position to this one, scaled to 16-pixel cells; before and at the start of the game it is 0.",
      "all recorded histories and positions",
      "tests compare one final path", [BV], [("step", BV)]),
    P("V09", "Replay navigation lands on the right event",
      "In replay, selecting an event sets it and its time; elsewhere it is refused without effect. Setting the clock clamps it to the replay's start and end and makes current the last event that is due at that time (the first event if none is). "
      "The pointer position is that of the latest event, up to the current one, that lies on the board, scaled by the playback size over the recorded size.",
      "all event lists, all current events, all requested times",
      "tests set the clock a few times", [BV], [("set_current_time, set_current_event_id, get_x_y, set_video_playing_pix_size", BV)]),
    P("V10", "A video takes only a fitting board and starts fresh",
      "A board is refused, without effect, in replay, after the game, or when its dimensions differ from the video's; otherwise it becomes the layout of both video and rule machine, the mine number is the number of its mines and the level is 3, 4, 5 for the "
      "three standard boards and 6 otherwise, and nothing else changes. A new video is ready, unlabelled, with empty records and zero figures apart from the board's 3BV and mine number; reset restores that state with the given dimensions, dropping the last game's records, "
      "file data, checksum mark and figures but keeping the labels.",
      "all boards, all video states",
      "tests set a fitting board once", [BV], [("set_board, new_before_game, reset", BV)]),
    P("V11", "Reading an EVF file takes every field from its place",
      "Parsing an EVF file takes the win, official and fair flags from the top three bits of the second byte, then height, width, mine number, cell size, mode, 3BV and time (big-endian, milliseconds) from their places, the eight zero-ended texts one after the other, "
      "the mine bitmap row by row with the high bit first, and then one event per eight-byte record (button code 1 to 9, 24-bit time, x, y) until the end mark, followed by a 32-byte checksum when the mark is 0 and none when it is 255; "
      "whether the file has a checksum is remembered, the level follows from the dimensions, and the layout's numbers are recomputed from the mines. It fails only with 'file too short', and only when a byte past the end is asked for.",
      "all byte strings; the bitmap loop through all 256 byte values",
      "tests parse two EVF files", ["base/src/videos/evf_video.rs", BV], [("EvfVideo::parse_video", "base/src/videos/evf_video.rs"), ("get_u8, get_u16, get_u24", BV)]),
    P("V12", "Writing EVF data puts every field in its place",
      "Generating EVF data writes the version, the flag byte, height, width, mine number, cell size, mode, 3BV and time in the places and byte order the format names, the eight texts each ended by a zero, the mine bitmap row by row with the high bit first and the last "
      "byte padded on the right, one eight-byte record per recorded event, and then 0 and the checksum if there is one or 255 if there is none; nothing in the video but the file data changes.",
      "all videos: all field values, boards and event lists",
      "one game is written by a test", [BV], [("generate_evf_v0_raw_data", BV)]),
    P("V13", "The replay audit follows its table",
      "The audit accepts no software but Arbiter, Viennasweeper, and the two accepted 元 versions; it rejects Viennasweeper games that start after 2023-04-24 (the first ten digits of the start time above 1682265600) and 元 games whose checksum is one repeated byte or that were not fair; "
      "of the rest, a replay with fewer than ten events per 3BV is undecided (3), and otherwise it is valid (0) exactly when the game was won, invalid (1) if not. The audit changes nothing.",
      "all videos: every combination of software, fairness, completion, event count, date and checksum",
      "tests audit two files", [BV], [("is_valid", BV)]),
    P("V14", "Saving a replay never overwrites a file",
      "Saving writes the file data once, to name.evf if no such file exists and otherwise to name(k).evf with the least k from 2 on that does not exist; it never writes to a path that exists, and writes nothing else.",
      "all names, all sets of existing files", "no test saves twice", [BV], [("save_to_evf_file", BV)]),
    P("V15", "Replay analysis records each event's effect",
      "Analysing a replay feeds the rule machine, started on the replay's board, every event that is not a mouse move, once, in order, at the cell its pixel position falls in. Each event's record gets the number of the board shown before it and after it, its usefulness, the mouse state and the "
      "machine's left, right, double, ce, flag and solved-3BV counts after it; a board is added to the board list, showing the machine's board, exactly after useful events, the first being all covered; the replay's start mark is the time of the last useful event before play. "
      "While the game is on or just ended, an event's path is that of the latest earlier event not off the board plus the distance from it, scaled to 16-pixel cells (that of the event before if it is itself off the board in both directions); no other field of any event changes.",
      "all replays: all event lists, boards and cell sizes",
      "tests analyse recorded games and look at totals", [BV], [("analyse", BV)]),
    P("V16", "Figures of an analysed replay are consistent",
      "After a replay is analysed, left, right, double and flag counts, clicks, ce and solved 3BV are the rule machine's after the last event, each per-second figure is its count over the result time, 3BV/s, rqp, ioe, correctness, throughput and stnb (with the level's coefficient, none for custom boards) follow "
      "their formulas, openings, islands and number counts are recomputed from the board, and the game counts as completed exactly when the machine has won. Labels, dimensions, file data and result time are unchanged.",
      "all replays", "tests compare some figures of recorded games", [BV], [("analyse", BV)]),
    P("V17", "The shown end of a game marks all mines or opens all mines",
      "Once a game is won, the step that displays its end turns every covered cell of the whole board into a marked one and changes no other cell; once it is lost, the step that displays its end turns exactly the covered cells with a mine under them into shown mines (16), so that marks, right or wrong, and all other cells stay. In any other phase either step does nothing at all.",
      "all board sizes and contents, every reached visible board",
      "tests read the last board of no replay", [BV], [("win_then_flag_all_mine, loss_then_open_all_mine", BV)]),
    P("V18", "The AVF reader reads the Arbiter format",
      "Reading an AVF file takes level, size and mine number from the level byte (3 beginner, 4 intermediate, 5 expert, 6 custom with the size bytes plus one; anything else is an error), one mine per byte pair at the 1-based row and column with every other cell holding its number, "
      "then the texts after the mode mark: start time, end time, the 3BV between 'B' and 'T', and the time up to ']' (comma or point) less one second. Then follow eight-byte events, none skipped or read twice, each with the button of its code byte, its time in seconds and hundredths and its position; "
      "the event without seconds ends the list; the player's name follows 'Skin:' and the line. An unknown level, button or number is reported as the error it is, a file that ends early as too short; nothing else fails.",
      "all byte strings; every level and button code", "tests parse a handful of AVF files", ["base/src/videos/avf_video.rs"], [("AvfVideo::parse_video", "base/src/videos/avf_video.rs")]),
    P("V19", "The RMV reader reads the Viennasweeper format",
      "Reading an RMV file accepts exactly the '*rmv' version 1 signature, finds every part by the lengths written before it (result text, version text, player texts, properties), and takes from their places the 3BV and start time (only if the result text is longer than 35 bytes, 3BV 0 otherwise), player name and country, "
      "width, height, mine number, the no-flag mark, mode and level; each mine stands at its column and row, off-board mines are refused, and every other cell holds its number. Pre-marked cells become 'pf' events first; then every mouse event 1 to 7 becomes an event with its button, time in milliseconds and position less the "
      "board's frame (outside the board: both coordinates at the lower right end), the omitted first press being added once; the event kinds without mouse data are skipped by their size, 15 to 17 end the game, all others are errors; the result time is the last event's.",
      "all byte strings; every event code", "tests parse a handful of RMV files", ["base/src/videos/rmv_video.rs"], [("RmvVideo::parse_video", "base/src/videos/rmv_video.rs")]),
    P("S01", "An encoded board behaves like the board it encodes",
      "An encoded row or board gives back, at every place, exactly the cell value put in (for the cell values -3 to 16 except 9), by reading, by iterating and by converting to plain lists, whatever random offsets the encoding drew; "
      "writing a cell changes that cell only; its height, width and the length of a row are those of the plain board, a row's iterator yields each cell once from the first to the last, and no step of encoding or decoding overflows.",
      "all boards, all random draws, all legal cell values",
      "tests encode two boards", ["base/src/safe_board.rs"], [("SafeBoard, SafeBoardRow, BoardSize", "base/src/safe_board.rs")]),
    P("S02", "A board's statistics are computed right and remembered",
      "Each getter of Board (3BV, openings, islands, counts of 0 to 8) returns that figure of its board; once computed, a figure is remembered and returned unchanged; a remembered figure is always the one it stands for, no getter touches another figure's memory inconsistently, and none changes the board.",
      "all boards, all orders of calls",
      "tests read each figure of one board once", ["base/src/board.rs"], [("Board", "base/src/board.rs")]),
    P("S03", "A board analysis belongs to the board set",
      "GameBoard's results are those of the direct solver on the board with all marks covered, then the subset solver, then enumeration, each going on from what the one before left: safe cells of the first two in order, mines found by scanning the marked board row by row, the enumerated cells as enumerated, "
      "and the possibilities of the marked board with the given mine number. They are computed once and returned unchanged until another board is set, which drops them all; the player's board and the mine number are never changed by asking.",
      "all boards, all orders of calls",
      "tests ask one board once", ["base/src/board.rs"], [("GameBoard", "base/src/board.rs")]),
    P("U01", "Opening a cell reveals exactly what the rules say",
      "Opening a list of cells shows, on each of them, its layout value; an empty cell also opens every covered neighbour in the 3x3 window clipped to the board, and so on until nothing is left to open; a mine is shown as stepped on (15), "
      "and only then, once all is opened, every marked cell that is not a mine is shown as wrongly marked (14). No other cell of the visible board changes, and the layout is never written.",
      "all board sizes and contents, all lists of cells, both board representations (analysed generically)",
      "tests open a few dozen cells on fixed boards", [UT], [("refresh_board", UT)]),
    P("A01", "Board statistics count what they name",
      "The cell tally counts each of the values 0 to 8 once per cell over the whole board and ignores mines; the openings figure counts the 8-connected regions of empty cells; the islands figure counts the 8-connected regions of numbered cells that have no empty cell "
      "in their 3x3 window clipped to the board, and 3BV is the number of openings plus the number of those same cells. The fill behind the regions visits each cell of the region it starts in and nothing else, and none of the figures changes the board given.",
      "all board sizes and contents, both board representations",
      "tests compute the figures of a few fixed boards", [UT], [("cal_cell_nums, cal3BVonIsland, cal_bbbv, cal_isl, cal_op, infect_board", UT)]),
    P("A02", "Mines are laid as asked",
      "A board laid by the plain mine-laying routines has the asked size and mine number; the cell the game starts at holds no mine, and for the routine that promises an opening neither does any cell of its 3x3 window clipped to the board. "
      "Each other cell is decided by a shuffled card of its own, and every cell that is no mine holds the number of mines in its 3x3 window clipped to the board. The numbering routine does the same to any board holding mines and zeros, and never touches a mine.",
      "all sizes, start cells and mine numbers, all shuffles (which card goes where is followed on boards up to 5x5)",
      "tests lay one or two boards", [UT], [("laymine, laymine_op, cal_board_numbers", UT)]),
    P("A03", "A board is called solvable only when the solvability test accepted it",
      "Every board the generate-and-test routines (one thread and several) return is one laid with an opening at the start asked for, with the size and mine number asked for. The success flag is set only when the solvability test accepted that very board for that start; failure is reported only after as many refused boards as allowed, or, among threads, after another thread's success; "
      "a success is always announced before the other threads can see the signal to stop, and the threads' allowances add up to the one given. The adjusting generator reports success only for boards whose first click opens everything, or that the test accepted; where its search leaves cells unlaid they become mines, and every number is right.",
      "all parameters, all random draws, all thread schedules",
      "tests generate one or two boards", ["base/src/algorithms.rs"], [("laymine_solvable, laymine_solvable_thread, laymine_solvable_adjust", "base/src/algorithms.rs")]),
    P("V20", "MVF files are read as Clone 0.97 writes them",
      "Parsing succeeds exactly for files that begin as Clone files of version 0.97 and hold what they announce; any other file is an error, and a file that was not read is never marked fit for analysis. Level, mode, time, 3BV, size, mines (column, then row, from 1), and the player's name are those of their places in the file. "
      "The order of the bits of an event is the one the two leading bytes stand for; from them each event gets its position, time and buttons. The first event is a press or a move; each later record yields, in this order, a move if the position changed and a press or release for each button (left, right, middle) that changed.",
      "all byte strings, all orders of bits, every path through the reader",
      "one intact file is parsed by a test", ["base/src/videos/mvf_video.rs"], [("parse_video, read_097, read_board, parse_event, apply_perm", "base/src/videos/mvf_video.rs")]),
    P("V21", "No replay file can make a reader panic",
      "Whatever bytes are parsed by a reader made afresh for them - AVF, EVF, MVF or RMV - parsing ends with success or with an error value: no access outside a list, no arithmetic overflow, no value taken out of a missing or failed result, no other panic.",
      "all byte strings, all four formats, every path through the readers and what they call",
      "tests parse a handful of intact files", ["base/src/videos/avf_video.rs", "base/src/videos/evf_video.rs", "base/src/videos/mvf_video.rs", "base/src/videos/rmv_video.rs", BV],
      [("parse_video and its helpers", "base/src/videos/rmv_video.rs"), ("get_u8, get_u16, get_utf8_string", BV)]),
    P("V22", "Replay remarks on guesses go to the right events",
      "analyse_for_features runs the analyses named, each as often as named and in that order, and passes over unknown names. The guess analyses judge every event from the third on by the board before it and the cell below the pointer (row and column = position divided by the cell size): "
      "high_risk_guess marks an event of useful level 2 or more on a cell whose mine probability is at least 0.51, with the chance of having guessed right; jump_judge marks a left release of useful level 2 or more on a cell found safe by enumeration but not by basic deduction, and a right click of useful level 1 on a cell found a mine in that way; "
      "needless_guess marks a left release of useful level 2 or more on a cell of non-zero mine probability that neither deduction found safe; vision_transfer adds nothing but its own remark. survive_poss adds to the last event the product (and factors) of 1 - p over the useful left releases after the first whose p is strictly between 0 and 1, or 1. "
      "Remarks are appended, no other event and nothing else of the replay changes, and a board is read at a cell only if the event had an effect.",
      "all recordings, all boards, all lists of names",
      "no test checks the remarks", ["base/src/videos/analyse_methods.rs", BV], [("analyse_for_features", BV), ("analyse_high_risk_guess, analyse_jump_judge, analyse_needless_guess, analyse_survive_poss, analyse_vision_transfer", "base/src/videos/analyse_methods.rs")]),
    P("V23", "Winding mouse paths are remarked where they begin",
      "mouse_trace sums the straight distances between consecutive events since the last click (left release, right press or right release; at first: since the first event). At each click the sum is divided by the straight distance between the two clicks' positions: above 7 an error remark, above 3.5 a warning, with the ratio in percent, "
      "is appended to the event the way began at; the sum then starts again at 0 from this click. Nothing else changes.",
      "all recordings", "no test checks the remarks", ["base/src/videos/analyse_methods.rs"], [("analyse_mouse_trace", "base/src/videos/analyse_methods.rs")]),
    P("V24", "Textbook FL runs are counted and remarked where they begin",
      "super_fl_local follows a run over the events that are no moves: it starts at a right click of useful level 1 on a cell that was covered; each further such flag and each opening around a number (useful level 3) whose window passes is_good_chording adds a step. It ends at an opening whose window does not pass, at any other left release for which the mouse state left by the event before was DownUp or Chording, at any other right release for which it was Chording, "
      "and, from its second step, at an event more than 4 cells (Euclidean) from the one before. A run that had reached 5 steps, not counting flags since the last opening, gets one remark with its steps (less those flags) appended to its first event when it ends; shorter runs get none. Nothing else changes, and the board is read at a cell only if the event had an effect.",
      "all recordings", "no test checks the remarks", ["base/src/videos/analyse_methods.rs"], [("analyse_super_fl_local", "base/src/videos/analyse_methods.rs")]),
    P("V25", "The probabilities shown belong to the board after the current event",
      "get_game_board_poss of the replay answers, as long as no event up to and including the current one has useful level 2 or more, a grid of height rows and width columns holding mine_num / (height x width) everywhere; otherwise the probabilities of the board the replay shows after the current event (its next board). "
      "Nothing of the replay changes except what its boards remember of their own analysis.",
      "all recordings, all current events", "two replays are read by tests", ["base/src/videos/base_video.rs"], [("get_game_board_poss", "base/src/videos/base_video.rs")]),
    P("A04", "A chord is called good only where no neighbour would open more",
      "is_good_chording(board, position) is true exactly when a chord at the position would open at least one covered cell and a chord at none of the up to four cells beside it (above, left, below, right; only those on the board) would open more. "
      "A chord opens the cells showing 10 in the clipped 3x3 window if the cell shows a number 1 to 8 that equals the count of cells showing 11 there, and none (-1) otherwise. The board is not changed.",
      "all boards, all positions", "no test calls it", ["base/src/utils.rs"], [("is_good_chording, surround_cell_num", "base/src/utils.rs")]),
    P("A05", "Probabilities land on their cells",
      "cal_possibility_onboard asks the probability engine once about the same board and mine count and passes its failure on. Otherwise the result has the board's size and says: 1 where 11 is shown, 0 where 12 is shown; elsewhere the engine's chance of the cell if it listed the cell; otherwise the engine's chance for the rest where 10 is shown and 0 on every other cell; "
      "the mine counts are the engine's, in the same order. The board is not changed.",
      "all boards, all answers of the engine", "five boards are compared by tests", ["base/src/algorithms.rs"], [("cal_possibility_onboard", "base/src/algorithms.rs")]),
    P("A06", "The solving routines put the engines' answers together as specified",
      "get_all_not_and_is_mine_on_board runs direct, minus and enumerating deduction in turn, each on what the one before left, and returns their safe cells and mines joined in that order. mark_board does the first two on the matrices of the board, passes a failure of the first on, and after each fails with 7 (8) exactly if some row of the matrices has a negative number or fewer cells than its number. "
      "is_able_to_solve first covers everything above 10 again; it is true exactly when the cell is marked after direct or minus deduction or is among the results of the enumeration. is_guess_while_needless, on the same covered board, answers 5 for an opened cell, 2 without a border cell, otherwise for the border cell in its block, engine after engine: 3 if the cell asked about is not on the border and a safe cell is found, 1 if it is marked safe, 4 if marked a mine, and in the end 2 if no safe cell was found at all, else 3. "
      "is_solvable refuses boards with an unsolvable structure, opens the start, and then in each turn opens the safe cells of the first engine that finds anything (marking the mines found by enumeration), true as soon as every covered cell is a mine, false when no engine finds anything.",
      "all boards, all answers of the engines", "one board each is tested", ["base/src/algorithms.rs"],
      [("get_all_not_and_is_mine_on_board, mark_board, is_able_to_solve, is_guess_while_needless, is_solvable, isVictory", "base/src/algorithms.rs")]),
    P("A07", "Recognised boards are made legal cell by cell",
      "legalize_board goes through the board once, row by row, in place: a cell with an undefined value (below 0, 9, or above 12) is covered (10); a number 1 to 8 greater than the count of cells showing 10 or 11 in its clipped 3x3 window, on the board as it then stands, becomes that count; every other cell stays, and so do the board's dimensions.",
      "all boards", "one screenshot test passes through it", ["base/src/utils.rs"], [("legalize_board", "base/src/utils.rs")]),
    P("A08", "The chance of an opening follows its formula",
      "cal_is_op_possibility_cells answers, for each listed cell in order: the product, over the cells of its clipped 3x3 window in reading order that are neither opened nor known safe (12), of one minus the possibility that cal_possibility_onboard gives that very cell for the given number of mines on the board given, "
      "with the window cells gone through before taken for safe; and 0 where the cell itself is opened, a cell of the window is marked a mine (11), or the engine refuses the board. Nothing assumed for one cell is kept for the next, and neither the board nor the list changes.",
      "all boards, all lists of cells, all answers of the probability engine", "no test of the suite covers it", ["base/src/algorithms.rs"], [("cal_is_op_possibility_cells", "base/src/algorithms.rs")]),
    P("B01", "Python functions answer what the library answers",
      "Each of the functions the Python module registers returns, for all arguments, exactly what the library function it stands for returns for the same arguments in the same order (one that works in place returns the changed arguments; get_all_not_and_is_mine_on_board and solve_enumerate start from the matrices of the board; "
      "cal_possibility and cal_possibility_onboard compute on the board marked by the library), and fails only where the library fails (recognition of a board then gives [[200]]). The module registers all of these functions under their names, and the ten classes.",
      "all arguments of every registered function", "the Python package has no tests in the suite", ["python_package/src/lib.rs"], [("py_* and #[pymodule] ms_toollib", "python_package/src/lib.rs")]),
    P("B02", "Python objects are their library objects",
      "Every property and method of the Python classes - the four replay classes, BaseVideo, the boards, GameBoard, Board and SafeBoard - returns the field or the method's result of the library object it wraps, with the arguments passed on in order, and changes the object exactly as the library's method does. Row is the height and column the width; mouse and game states are numbered by one fixed table "
      "(mouse 1-8; Ready 1, Playing 2, Win 3, Loss 4, PreFlaging 5, Display 6; the replay classes' game_board_state is always 1). get_game_board_2 gives the visible numbers (covered -1, marked -2) plus the chances computed on the board with its marks covered again and set by the library.",
      "all objects, all arguments", "the Python package has no tests in the suite",
      ["python_package/src/base_video.rs", "python_package/src/board.rs", "python_package/src/gameboard.rs", "python_package/src/avf_video.rs", "python_package/src/evf_video.rs", "python_package/src/mvf_video.rs", "python_package/src/rmv_video.rs"],
      [("PyBaseVideo", "python_package/src/base_video.rs"), ("PyMinesweeperBoard, PySafeBoard", "python_package/src/board.rs"), ("PyGameBoard", "python_package/src/gameboard.rs")]),
    P("B03", "The JavaScript package answers what the library answers",
      "Each exported function and each method of MinesweeperBoard and of the four replay classes returns what the library function or method returns for the same arguments in the same order and changes the object exactly so. Boards handed over as JSON are read row by row, each number into its own cell, and boards handed out are written whole; a library error of cal_possibility_onboard gives an empty list; "
      "mouse and game states are numbered by one fixed table.",
      "all arguments, all objects", "the wasm package has no tests in the suite", ["wasm/src/lib.rs", "wasm/src/board.rs", "wasm/src/transfor.rs"],
      [("exported functions", "wasm/src/lib.rs"), ("MinesweeperBoard, AvfVideo, EvfVideo, RmvVideo, MvfVideo", "wasm/src/board.rs"), ("json2vec, vec2json", "wasm/src/transfor.rs")]),
]
NOT_APPLICABLE = [
    NA("N01", "Mine probabilities are exact",
       "For every consistent visible board and mine count, the reported probability of each covered cell equals the fraction of consistent mine arrangements that have a mine there.",
       "all boards", "tests compare five boards", ["base/src/algorithms.rs"], [("cal_possibility", "base/src/algorithms.rs")],
       "a numerical result over the set of all solutions of a constraint system; no structural argument on the source decides it"),
    NA("N02", "The solvers only mark what is logically forced",
       "A cell the solvers mark as a mine (or as safe) is a mine (or safe) in every arrangement consistent with the visible board.",
       "all boards", "tests compare a few boards", ["base/src/algorithms.rs"], [("solve_minus, solve_direct, solve_enumerate", "base/src/algorithms.rs")],
       "soundness of deduction over runtime matrices quantifies over constraint solutions, which no static argument in reach bounds"),
    NA("N03", "Generated boards are uniformly distributed",
       "Every mine arrangement that respects the safe start is produced with equal probability.",
       "all random seeds", "no test measures distribution", [UT], [("laymine", UT)],
       "a statistical property of random output"),
    NA("N04", "Saving and re-reading a replay preserves it",
       "A replay written to a file and parsed back yields the same header fields, layout and event list.",
       "all replays", "one game is round-tripped by a test", [BV, "base/src/videos/evf_video.rs"], [("generate_evf_v0_raw_data, parse_video", BV)],
       "whole round-trip equality quantifies over file contents at run time; the structural part (both sides follow the same field grammar and code table) is claimed separately"),
    NA("N05", "Board recognition from screenshots is accurate",
       "The board recognised from an image equals the board shown.",
       "all images", "two images are tested", ["base/src/OBR.rs"], [("ImageBoard", "base/src/OBR.rs")],
       "accuracy of a neural network on images is not a structural property of the source"),
    NA("N06", "Solvable-board generation terminates",
       "Generating a no-guess board ends for every size, mine count and start within its retry limit.",
       "all parameters", "one setting is tested", ["base/src/algorithms.rs"], [("laymine_solvable_adjust", "base/src/algorithms.rs")],
       "termination of a random search without a structural bound"),
]
