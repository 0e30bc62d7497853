import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
WIN="mahjong/container/pattern/win.py"; REA="mahjong/container/pattern/reasoning.py"; SET="mahjong/container/set.py"; UT="mahjong/container/utils.py"
TILE="mahjong/tile/definition.py"; DIST="mahjong/container/distribution.py"; RD="mahjong/record/reader.py"; ST="mahjong/record/state.py"
EV="mahjong/record/utils/event.py"; MELD="mahjong/record/utils/value/meld.py"; GT="mahjong/record/utils/value/gametype.py"; TV="mahjong/record/utils/value/tile.py"
CAT="mahjong/record/category.py"; STG="mahjong/record/stage.py"; EX="mahjong/record/universe/executor.py"; CMD="mahjong/record/universe/command.py"
PM="mahjong/record/universe/property_manager.py"; ED="mahjong/record/universe/tenhou/event_definition.py"; TI="mahjong/record/universe/tenhou/__init__.py"
XM="mahjong/record/universe/tenhou/xml_macher.py"; TR="mahjong/record/universe/translator.py"; INT="mahjong/record/universe/interpreter.py"
CHK="mahjong/tenhou_record_check.py"; CK2="mahjong/record/checker.py"; UF="mahjong/record/util_functions.py"; CONST="mahjong/record/const.py"
WR="mahjong/win_rate_demo.py"; BLD="mahjong/record/utils/builder.py"; PL="mahjong/record/player.py"; UC="mahjong/record/utils/constant.py"; FMT="mahjong/record/universe/format.py"

add("C01","A hand is recognised as winning exactly when it is",
 "For every legal hand (at most four copies of a kind, red fives counting as fives, tiles given in any order), matching it against the shape 'm melds and p pairs' says yes exactly when some part of the hand splits into m melds (three identical tiles, or three consecutive numbers of one suit) and p pairs, and matching it against 'n distinct pairs' says yes exactly when at least n kinds occur twice or more. Runs never use honours, never cross a suit and never wrap around after nine.",
 ["inputs"],"every legal hand and every win shape (m<=4, p<=2, n<=7)",
 "The tests match six hand-picked hands; the set of hands is in the hundreds of millions and mistakes show only on particular tile shapes (overlapping runs, quads, suit borders).",
 [WIN,TILE,SET],[("recursive unit removal in tile order",WIN+":_win_selections"),("candidate units per tile",WIN+":next_states"),("pooled runs, triplets and pairs",TILE+":Tile.__new__")],["WinPattern.match"])
add("C02","All winning splits of a hand are listed, each once",
 "For every legal hand and win shape, the listing of winning splits contains exactly the ways of taking the required melds and pairs out of the hand: every listed split consists of valid melds and pairs that are together contained in the hand, and no possible split is missing. The unique listing gives each split exactly once, each with its parts in sorted order.",
 ["inputs"],"every legal hand (including hands larger than the shape needs) and every win shape",
 "Tests check the number of splits on three hands; completeness and absence of duplicates must hold on every hand with overlapping splits.",
 [WIN,UT,SET],[("enumeration with per-tile removal",WIN+":_win_selections"),("duplicate suppression by bisection",UT+":distinct"),("ordering of tile sets",SET+":__lt__")],["WinPattern.win_selections","WinPattern.unique_win_selections"])
add("C03","The waiting step is the true distance to a win",
 "For every legal hand and win shape that fits it (the hand has at least one tile fewer than the shape needs), the waiting step is the smallest number of tiles that must be added for the hand to contain a win, minus one: -1 for a hand that already contains a win, 0 when one tile is missing. With the four-copies rule on (the default) only wins using at most four copies of each kind count; with it off any win counts. The brute-force, pattern and heuristic analysers give the same answer.",
 ["inputs","configurations"],"every legal fitting hand, every shape (m melds and p pairs, or n distinct pairs), both settings of the four-copies rule, all three analysers",
 "Tests compare about ten hands against hand-computed numbers; a pruning or ordering mistake in the search is wrong only on rare hands.",
 [REA,WIN],[("borrow-stage search with pruning",REA+":HeuristicPatternMatchWaiting._win_selections_in_tiles"),("deepening search",REA+":PatternMatchWaiting"),("exhaustive addition",REA+":BruteForceWaiting")],["before_waiting_step","waiting_and_useful_tiles"])
add("C04","Useful tiles are exactly the draws that bring the hand closer",
 "For every legal hand and fitting win shape, the useful tiles are exactly the kinds whose draw lowers the waiting step by one (under the four-copies rule when it is on, which also excludes kinds already held four times). A hand that already contains a win has no useful tiles. All three analysers agree, and asking for step and useful tiles together gives the same as asking separately.",
 ["inputs","configurations"],"every legal fitting hand, every shape, both settings of the four-copies rule, all three analysers",
 "Tests fix the useful tiles of ten hands; missing or surplus tiles appear only where several minimal completions overlap or four copies are held.",
 [REA],[("union of tiles borrowed by minimal completions",REA+":HeuristicPatternMatchWaiting.waiting_and_useful_tiles"),("borrow limits",REA+":borrowed_limit")],["useful_tiles","waiting_and_useful_tiles"])
add("C05","Per-discard analysis agrees with analysing each remaining hand",
 "For every legal hand and win shape, the one-pass per-discard analysis reports exactly the kinds whose removal leaves the waiting step unchanged, each once, with that step; the useful tiles reported for a discard are exactly those of the hand without it. A hand that is already complete and has no spare tile reports no discards.",
 ["inputs"],"every legal hand holding at least as many tiles as the win shape needs",
 "One hand with twelve discards is tested, and only for discards that are reported (a missing one is not noticed); the equivalence must hold for every hand.",
 [REA],[("spare tiles of each minimal completion collect its borrowed tiles",REA+":batch_waiting_and_useful_tiles")],["batch_waiting_and_useful_tiles"])
add("C06","Hand analysis has no side effects and no memory",
 "Any sequence of win matching, split listing, waiting-step, useful-tile and per-discard calls, on the same or different hands, shapes and analyser objects, gives each call the answer it would give alone in a fresh program, whatever ran before. No such call changes which tiles its input hand holds or what the shared melds and pairs of a tile are. Partly consumed listings that are advanced in any interleaving each yield what they would yield alone.",
 ["histories","schedules"],"all call sequences and all interleavings of lazily consumed listings on shared hands and analyser objects",
 "Each test makes a single call on fresh objects; state carried on an analyser object, cached shared tile sets and re-sorting of a shared hand only matter across calls.",
 [REA,WIN,SET,TILE],[("per-search copies of the hand",REA),("search bound kept on the analyser object",REA+":max_used_tiles"),("in-place re-sorting of the input hand",SET+":re_sort")],["match","win_selections","unique_win_selections","before_waiting_step","useful_tiles","waiting_and_useful_tiles","batch_waiting_and_useful_tiles"],
 [dict(name="max_used_tiles",meaning="search bound of the running heuristic search",where=REA),dict(name="_TILE_POOL/_flush/_triplet/_pair",meaning="tiles and their units shared by the whole process",where=TILE)])
add("C07","Tiles have one identity however and whenever they are made",
 "Every numbering 0..135 maps to its tile (four consecutive numbers per kind in the order characters, circles, bamboos, honours), with the first five of each suit red, and every tile, red or plain, maps back to exactly the four numbers of its kind. A red five equals, hashes as and orders as the plain five, tiles are totally ordered by suit then number, and a tile's successor, run, triplet, pair and Unicode symbol follow the rules of the game. None of this depends on which tiles were created earlier, in which order or by how many threads.",
 ["inputs","histories","schedules"],"all 136 numbers, all pairs and triples of the 37 tiles, all creation orders of a set of tiles in a fresh program, and two threads creating tiles concurrently",
 "Tests compare a handful of red-five pairs in one process where the pool is already filled; the mapping back from red fives and creation orders are untested.",
 [TILE,TV,UC,UT],[("process-wide tile pools",TILE+":_TILE_POOL"),("tile numbering",TV)],["tile_from_tenhou","tile_to_tenhou_range","Tile","AkaTile"],
 [dict(name="_TILE_POOL/_ATILE_POOL",meaning="process-wide tile objects by code",where=TILE)])
add("C08","Tile notation reads and writes the same tiles",
 "Reading text in tile notation yields, in order, exactly the tiles of its groups - digits followed by m, p or s (0 meaning a red five), or digits 1-7 followed by z - and ignores everything else. Writing any set of tiles gives its canonical text (suits m, p, s, z; ascending numbers), and reading that text back gives an equal set with the same number of tiles. The written form of a set does not depend on the order in which its tiles were put in (sets mixing red and plain fives of one suit aside: which of two equal tiles a set keeps is its own affair).",
 ["inputs"],"all texts over the notation's alphabet (including junk characters) up to a length, and all tile sets over small alphabets in every insertion order",
 "Tests read a dozen well-formed hands; malformed and mixed groups and the round trip are not covered.",
 [UT,SET],[("group pattern",UT+":_tile_group_regex"),("canonical writing",SET+":__str__")],["tiles_from_string","tile_set_from_string","str(TileSet)"])
add("C09","Tile sets behave as multisets",
 "For every pair of tile sets, sum, difference, intersection, union, containment, exclusion (nothing when not contained), counting and iteration give the multiset result over kinds, as tile sets, and leave both operands unchanged; a sum is in canonical order. For sets in canonical order exactly one of less, equal and greater holds and the order is transitive.",
 ["inputs","histories"],"all pairs and triples of small tile sets over kinds of different suits including red fives, and expressions built from them",
 "Only one comparison and a few counts are tested; the algebra underlies every search and must hold for all operands.",
 [SET],[("overridden Counter operators",SET)],["+","-","&","|","contains","exclude","len","tiles","comparison"])
add("C10","Dora and starting-wall tables follow the rules, for every caller",
 "For every list of indicators, the dora list is the concatenation of each indicator's successor (nine wraps to one within a suit, winds and dragons cycle in their own groups, a red five indicates a six, and a five being dora includes its red five). The starting wall for four or three players, with or without red fives, has exactly the right copies of each tile (three players: no 2-8 of characters; red fives replace one plain five each). Changing a returned list never changes later answers.",
 ["inputs","histories","configurations"],"all indicator lists up to a length, all four wall configurations, and all sequences of calls with returned lists modified in between",
 "There is no test of either table.",
 [CONST],[("precomputed dora map",CONST+":_dora_map"),("precomputed walls",CONST+":initial_tiles")],["doras","initial_tiles"])
add("C11","Every call code decodes to the call that was made",
 "For every legal chi, pon, added kan, open kan, closed kan and north-extraction code and every caller seat, decoding yields the right kind of call, exactly the tiles the caller took from hand, exactly the tile taken from another player (none for closed calls) and the seat it came from. The two sets never overlap and together are the tiles of the call (an added kan yields its single added tile).",
 ["inputs"],"all legal 16-bit call codes and all four seats",
 "Tests decode thirteen chi codes for one seat; pon, kan, added kan and extraction codes have no direct test.",
 [MELD,"mahjong/record/utils/bit.py",CAT],[("bit layouts",MELD),("kind dispatch",MELD+":meld_from")],["meld_from","meld_type","self_tiles","borrowed_tiles","from_who","is_opened"])
add("C12","Every game-type code decodes to its rules",
 "For every 16-bit game-type code, given as number or text, the player count, red fives, open tanyao, table level, length, speed, discard shading, tips and display name are those encoded by its bits. Two game types are equal exactly when they encode the same rules, regardless of bits that carry none.",
 ["inputs"],"all 65536 codes and all pairs of rule combinations",
 "A single code's display text is tested.",
 [GT,"mahjong/record/utils/bit.py"],[("bit description",GT+":game_type_desc")],["GameType"])
add("C13","Category numbering is a bijection for every shape",
 "For every category shape - fixed radices, an unbounded first radix, or a concatenation of different categories, also nested - numbering and un-numbering are inverse, the categories enumerate in lexicographic order without gaps, and the length is their count. A position at or beyond the length is rejected. Named categories carry the same values under their declared names.",
 ["inputs","configurations"],"all shapes up to a size (radices, concatenations of unequal shapes, nesting, naming) and all their positions",
 "Tests use one shape each for the plain and the concatenated category, and concatenate only shapes for which a wrong sub-category gives the same answer.",
 [CAT],[("mixed-radix conversion",CAT+":SubCategory"),("accumulated offsets",CAT+":MixedCategory")],["category","index","len"])
add("C14","Stage grouping splits a stream without loss",
 "For every stream, list of distinct stages and key function, grouping yields consecutive groups that together are the stream: a group opened by a stage key runs while keys equal that stage or move on to later ones, a group opened by any other key runs while the key stays the same, and its label is the list of stages from the opening one or the key itself. Groups that are left partly or wholly unread lose only their own remaining elements, and reading on in an old group yields nothing more.",
 ["inputs","schedules"],"all streams up to a length over stage and non-stage keys, all stage lists, and all orders of consuming groups and sub-groups",
 "Four streams are grouped and every group is fully read in order; labels are not compared at all because two tests share a name.",
 [STG],[("shared cursor between groups",STG)],["StageGroupby"])
add("C15","A record's structure and results are read faithfully",
 "For every legal game record, every event belongs, in order, either to the header or to exactly one round, each round starts at its deal, players carry their decoded names, ranks, ratings and sexes, and final scores and points match the record. Each round reports its wind, number, repeat count, riichi sticks, dealer and every ending (each of several simultaneous wins, each kind of draw) and the record lists players by final score.",
 ["histories","inputs"],"all small legal records (three and four players, one or more rounds, all endings, header variants)",
 "Six recorded games are loaded and only the number of rounds of one is checked.",
 [RD,STG,PL],[("grouping by deal",RD+":TenhouRecord"),("round metadata",RD+":TenhouGame")],["from_file","TenhouRecord","TenhouGame","str"])
add("C16","Tracked hands, melds and discards match the table after every event",
 "At every point of every legal game, each player's tracked concealed hand, melds (an added kan turns the matching pon into one four-tile meld) and discards are those actually held, whatever other players do, and start afresh at each deal. Feeding events one at a time, in chunks of any size or several trackers together gives the same states, and states obtained earlier never change afterwards.",
 ["histories"],"all small legal game histories (draws, discards, chi, pon, all kans, extraction, riichi, wins, draws, disconnects, several rounds) and all ways of splitting them",
 "No test checks the content of a tracked hand or meld.",
 [ST,PL,MELD],[("event-by-event state scan",ST),("per-seat tag patterns",UC)],["PlayerHand","PlayerMeld","DiscardTiles","GameStateCollection"])
add("C17","Unseen tiles and dora indicators match the table after every event",
 "At every point of every legal game with three or four players, the tiles reported unseen are exactly the tiles of the game that are neither dora indicators, nor discarded, nor laid out in melds or extracted; and the dora indicators are exactly those turned so far in the round, in order. Both start afresh at each deal, and states obtained earlier never change afterwards.",
 ["histories"],"all small legal game histories including kan indicators before and after the discard, discards of every one of the 136 tiles, and several rounds",
 "No test looks at unseen tiles or dora indicators.",
 [ST,EV],[("subtractive set of unseen tiles",ST+":InvisibleTiles"),("indicator list",ST+":DoraIndicators")],["InvisibleTiles","DoraIndicators"])
add("C18","Game-sheet rows retell the game",
 "For every legal record, the game-sheet rows are, in order, exactly those of its events: starting hands and scores of the players present, the opening indicator and sticks, every draw, discard, call (its kind, seat, tiles taken from hand, whole meld, source seat), riichi step with its payment, new indicator, win (winner and discarder) and draw reason, each labelled with its round, followed by final scores. Replaying the rows reproduces every player's hand.",
 ["histories"],"all small legal game histories with three and four players",
 "Only the number of rows of two recorded games is checked.",
 [EV,RD],[("per-event rows",EV+":TenhouEvent.to_paifu"),("round and record assembly",RD)],["TenhouEvent.to_paifu","TenhouGame.to_paifu","TenhouRecord.to_paifu"])
add("C19","Translated commands reproduce the game state after every event",
 "For every legal record, the translated commands, replayed from an empty state, give after every event the actual hands, discards (and whether each came from the hand or was the drawn tile), melded tiles, extracted tiles, riichi status, scores, turn counts, dealer, round, indicators, connection status, names, the winner and discarder of each win, its hand patterns (with everybody who takes part in it by winning or paying, and nobody else), and final scores, points and ranks. Every command carries its event's position and kind, and the state recorded on it is the one reached by replaying.",
 ["histories"],"all small legal game histories with three and four players, one or more rounds, with disconnects and reconnects",
 "Tests check that translation of six games runs and yields commands; no translated value is compared.",
 [ED,TR,XM,INT,PM],[("event translators with running context",ED),("state attached to each command",TR+":postprocess")],["to_commands","to_command_records","GameInterpreter"],
 [dict(name="interpreter.state",meaning="running property values used by the translators",where=TR)])
add("C20","Replaying commands is exact, immutable and strict when asked",
 "For every command list, the sequence of replayed states equals applying each command to the previous state (replace, add, remove, reset, assert), no earlier state ever changes, each state carries its command's timestamp, and commands for one player or property leave all others untouched. In strict mode replay fails exactly at the first asserted value that differs from the state (tile lists compared regardless of order), otherwise such a value is taken over; every legal record passes strict replay and any single inconsistent hand or score is caught.",
 ["histories","fault_sequences"],"all command sequences up to a depth over properties of every type and seat, all legal small records, and all single corruptions of their asserted values",
 "Strict replay is run on six consistent games only; no state value, no failure and no immutability is checked.",
 [EX,INT,PM],[("persistent nested state",EX+":TransferDict"),("assert-or-set",EX+":execute_update_state"),("update semantics",INT+":execute_new_value")],["GameExecutor.execute","GameExecutor.execute_as_dataframe"])
add("C21","Commands survive being saved and loaded",
 "For every command of every property and value type, and every translated record, converting to a plain record and back, through memory or a CSV file, yields the same command: property, update, seat, kind, position, value and state, whatever the text (such as a player name that looks like a missing value, a number or a CSV fragment).",
 ["inputs","histories"],"all properties, updates and values from per-type alphabets including awkward texts, and all small legal records with awkward names",
 "One command and six games with ordinary names are round-tripped.",
 [CMD,PM,FMT],[("typed text conversion",PM),("record conversion",CMD),("loading with text cleaning",CMD+":read_clean_csv")],["GameCommand.to_record","GameCommand.from_record","GameCommand.to_dataframe","GameCommand.read_clean_csv","GameCommand.clean"])
add("C22","Replayed state tables survive being saved and loaded",
 "For every small legal record, saving the table of replayed states as CSV and loading it gives, for every row, player and property, the value the replay had there, and nothing where the property was not yet known; column identities are restored exactly.",
 ["histories","inputs"],"all small legal records including awkward player names",
 "Tests only check that loading runs and that the columns are a superset; no loaded cell is compared.",
 [EX,PM],[("column renaming",EX+":replace_enum_values"),("typed cell parsing",EX+":state_series_apply")],["GameExecutor.execute_as_dataframe","GameExecutor.read_clean_csv"])
add("C23","Conversions of different records do not disturb each other",
 "Converting records one after another, abandoning a conversion part-way, or advancing several lazy conversions in any interleaving gives for every record exactly the commands it gives when converted alone in a fresh program. The record objects themselves are not changed by being converted, reported or listed.",
 ["schedules","histories"],"all interleavings of two or three lazy conversions, with abandonment and repetition, up to a number of switches",
 "Each test converts one record at a time to the end.",
 [TI,TR],[("shared translator object",TI+":tenhou_command"),("state reset before each conversion",TR+":clear")],["to_commands","to_command_records"],
 [dict(name="tenhou_command.interpreter.state",meaning="state of the conversion in progress, shared by the process",where=TR)])
add("C24","Nested states are persistent values",
 "For every history of setting, dropping and defaulting entries at any depth, starting from any earlier version, the result is a new complete state equal to applying the change to a plain nested mapping, and every earlier version keeps its contents. Flattening lists exactly the leaves with their paths, and attempts to modify a state in place fail and change nothing.",
 ["histories"],"all operation sequences up to a depth over nested mappings of up to three levels, branching from any version",
 "Three sequences of at most two sets on two levels are tested; dropping, defaulting, mapping values, and branching from old versions are not.",
 [EX],[("copy on write up to the root",EX+":TransferDict.set"),("re-parenting of copied children",EX+":transfer_value")],["TransferDict"])
add("C25","The plain event table reproduces the log",
 "For every log file, the light event table lists, in order, exactly the tag and attributes of every event, with numbered draw and discard tags split into letter and number; in abstract mode exactly the numbered events are left out and nothing else changes. Every row carries the event's position and the log id of the file.",
 ["inputs"],"all small log files over all event forms, both modes",
 "There is no test.",
 [UF],[("row generation",UF+":_event_df_iter")],["light_dataframe_from_file"])
add("C26","Scoped building options nest and unwind exactly",
 "For every nesting of option scopes, leaving each normally, by an exception, or around generated items, an item is built from exactly the options of the scopes open at that moment, inner ones overriding outer ones and call options overriding all; leaving a scope restores what held before it. Separate builders never influence each other.",
 ["histories"],"all sequences of opening, building, closing and failing up to a depth on one or two builders",
 "The builder has no test of its own.",
 [BLD],[("stack of option dictionaries",BLD)],["Builder"])
add("C27","The efficiency report judges every discard correctly",
 "For every discard in every legal record, the report states the waiting step and remaining-copies count the player's choice actually leaves (best of the applicable win shapes: standard, plus seven pairs for a closed hand; copies counted among tiles the player cannot see), and names as expected choices exactly the kinds with the smallest step and, among those, the largest count. Every alternative in the lists, overall and per win shape, carries its true step, tiles and count, each list holds at least its best discards, and the row is unshaded exactly when the choice was a best one (shade always between 0 and 1).",
 ["inputs","histories"],"all small hands reached in legal play (with three, two, one or no melds, red fives, seven-pair competition, complete hands, dead waits) and all visible-tile situations of small games",
 "The only report test needs the network and checks that some HTML came out.",
 [CHK,CK2,REA],[("merging of win shapes",CHK+":discard_reasoning"),("copies among unseen tiles",CHK+":convert_to_reasoning")],["TenhouChecker.parse","render_template"])
add("C28","The efficiency report covers every discard of every legal record",
 "For every legal record and every player, the report is produced, with one section per round in order and in it one row per discard of that player, in order, showing with the right tile pictures the hand before the discard (red fives shown as held), the melds laid out so far, the tile discarded, and the warning colour for riichi exactly when someone has declared riichi in that round by then.",
 ["histories"],"all small legal game histories, every player's perspective",
 "The only report test needs the network and checks that some HTML came out.",
 [CHK,CK2,ST],[("grouping by own discards",CHK+":game_reasoning"),("state trackers",ST)],["TenhouChecker.parse","render_template"])
add("C29","Reports are safe to open and to save whatever the names are",
 "Whatever characters player names and links contain, they appear in the report as plain text and never as markup. The suggested report name is a single file name (no directory part) that contains log id, player name and seat up to replacement of characters not allowed in file names, so each player's report is saved in the working directory, and reports of different players of one record never overwrite each other.",
 ["inputs"],"all names up to a length over an alphabet of letters, markup, quoting and path characters, for all seats",
 "No test renders a report offline or looks at its file name.",
 [CHK,"mahjong/templates/record_checker_template.html"],[("auto-escaping",CHK+":template_env"),("file name",CHK+":render_template")],["render_template","main"])
add("C30","Wall sampling draws without replacement, uniformly",
 "For every wall and every sequence of random outcomes, each drawn tile is one still in the wall, no kind is drawn more often than it occurs, each remaining copy is equally likely at every draw, and the wall given is unchanged afterwards; several samplings of the same wall are independent. Kinds that are used up have weight zero.",
 ["schedules","inputs"],"all small walls and all outcomes of the random source up to a number of draws",
 "Sampling has no test, and random tests cannot cover the outcomes that exhaust a kind.",
 [DIST],[("weights from remaining copies",DIST+":weight_of"),("wall without the drawn tile",DIST+":pick")],["TileDistribution.sample","StaticWall"])
add("C31","The win-rate tool reports exactly what its experiments showed",
 "For every 14-tile hand, number of draws and number of experiments, and whatever tiles are drawn, the tool finishes and reports for every distinct discard the number of experiments in which the rest of the hand plus the drawn tiles contains a standard win or seven pairs, and the matching percentage - also when no experiment wins. Input that is not 14 tiles is refused and asked for again.",
 ["schedules","inputs"],"all outcomes of the random source for small draw and experiment counts over a set of hands",
 "The tool has no test.",
 [WR,DIST,WIN],[("experiment loop and counters",WR+":main")],["win_rate_demo.main"])
add("C32","Log ids and links convert both ways",
 "For every log id, the viewer link made from it and any viewer link containing it (with seat or other parameters in any order, http or https) give back that id, and the download address of any such link is the one for that id.",
 ["inputs"],"all ids over the id alphabet up to a length plus real id forms, and all parameter arrangements",
 "There is no test.",
 [RD,UC],[("query parsing",RD+":log_id_from_url")],["log_id_from_url","log_id_to_url","download_url"])
add("C33","Every way to the commands of a record tells the same",
 "For every record, all documented ways to its commands agree: the command objects, the plain records, the raw records, the plain and raw command tables, the library functions that parse a record (for serialising or not, with or without states), translating the same record again or a second record of the same log, and strict translation. Replaying the commands gives one state per command whose value is the state the command carries. The recipe of the manual (save the table, read it with pandas, clean it, unstack the states, fill forward) gives after each command exactly the state known after it.",
 ["inputs","histories"],"every record of the table model within the bound (three and four players, calls, wins, draws, disconnections), through every entry point, also one after the other on shared objects",
 "Tests run one or two entry points on two recorded logs and compare almost nothing between them; the ways must agree on every history.",
 [TI,UF,CMD,EX],[("command generators and plain records",TI+":to_commands, to_command_records"),("library entry points",UF),("tables and their cleaning",CMD+":GameCommand.to_dataframe, pandas_columns_clean"),("replay",EX)],["to_commands","to_command_records","command_to_raw_dataframe","parse_dataframe_from_tenhou_record","GameCommand.pandas_columns_clean","GameExecutor.execute_as_dataframe"])
add("C34","The extractor saves the commands of the asked log, or nothing",
 "The extraction tool asks the log server for exactly the log named by the link it is given (surrounding spaces ignored) and saves one file, named after the log id, holding exactly the commands of that log as the server delivered it, in whatever transport form. If the server fails, delivers something else or delivers a log that is cut anywhere, the tool reports a failure and writes no file, and a file saved by an earlier run keeps its contents. Runs do not influence each other.",
 ["inputs","crash_points","histories"],"every point at which a delivered log can be cut, every outcome of the server, every sequence of runs within the bound",
 "The tool has no test; a partial delivery or an error page must never become a command file.",
 ["mahjong/universe_paifu_convert.py",RD,TI],[("fetch, parse, translate, save in that order","mahjong/universe_paifu_convert.py:main"),("download and parsing",RD+":from_url")],["universe_paifu_convert.main and the files in the working directory"])
add("C35","Translator rules are tried from the most specific to the most general",
 "Whatever rules are registered on a translator and in whatever order, an event is translated by the first rule that yields a command when rules are tried in this order: rules for its tag together with one of its attributes, rules for its tag, rules for one of its attributes, default rules; within a kind in order of registration. A rule is shown the state after all commands so far; the commands get the kind declared for the rule unless they have one, the position of the event, and the state after each of them. An event no rule translates gives no command, or is refused in strict mode, and leaves the state alone; and two translators do not influence each other.",
 ["inputs","histories","configurations"],"every set of rules up to a size in every registration order, every event over a small alphabet, and histories of events",
 "Only the built-in rules are tested, on two logs; how rules of different kinds compete is untested although extending the format is an advertised use.",
 [XM,TR,INT],[("rules by tag and attribute, by tag, by attribute",XM+":TenhouCommandTranslator.translate"),("default rules and strict mode",TR+":CommandTranslator.__call__")],["match_both","match_name","match_names","match_attr","default_event","TenhouCommandTranslator.__call__"])
add("C36","Events, calls, commands and states describe themselves truly",
 "The description of a log event names what happened: the seat and tile of a draw or discard; seat, kind, own tiles, taken tiles and source of a call (source only where a tile was taken); the seat of a riichi; the tile of a new indicator; winner, points and source of a win; the reason of a drawn round. It carries the event itself, and str and repr never fail and tell the same. The description of a command names every field of it and is the same for equal commands; the description of a replayed state tells every value in it.",
 ["inputs"],"every call code, every tile and seat, every event and every command and state of the records of the table model within the bound",
 "No description is tested; the debugging form of an event failed for every event.",
 [EV,MELD,CMD,EX],[("event descriptions",EV+":TenhouEvent.base_str, __str__, __repr__"),("call descriptions",MELD+":Meld.__str__"),("command descriptions",CMD+":GameCommand.__str__")],["str and repr of TenhouEvent, Meld, GameCommand, GameState","TenhouEvent.base_str"])
add("C37","Every event is recognised for what it is and attributed to its player",
 "For every event of every legal record, exactly the questions that fit it are answered with yes - draw, discard, call, riichi, new indicator, win, drawn round, start and end of a round - for exactly the player whose event it is, and the tile or call read from it is the actual one; an event belongs to the round it lies in. A tracker's value changes at its key events only, and walking over the key events visits the values that walking over all events visits there. This holds for every tracker that can be written, also one whose key events depend on its state.",
 ["inputs","histories"],"every draw and discard of every tile by every seat, every event of the histories of the table model within the bound, and every small state machine used as a tracker over every short event sequence",
 "No question about a single event is tested on its own, and the walk over key events is only used with trackers whose key events never depend on their state.",
 [PL,EV,RD,ST],[("players' questions",PL+":is_draw, is_discard, is_open_hand, is_reach, is_win, is_player_choice"),("events' questions",EV+":is_game_init, draw_value, discard_tile_change, TenhouEvent"),("key events",ST+":with_key_events, is_key_event")],["TenhouPlayer.is_*","event.is_*","GameState.with_key_events","GameState.passed_events"])
add("C38","Every property has one meaning, and its rules are the first that fit",
 "Every property of the command language belongs to exactly one scope, is found again by its scope's and its own name, is listed once, is told apart from all others, and has exactly one type. Of the rules registered for a method, the first registered one whose type covers the property's type answers (a rule for no type covers all), a rule registered again for the same type and method takes the place of the earlier one, an assertion registered as a check answers whether it holds, and where no rule covers a property asking fails. Tables do not influence each other, and a default handed out is never shared.",
 ["inputs","histories"],"all properties, types, methods and small values, and all short sequences of registrations in one table and in two tables in turn",
 "No test looks at the rules; registering an assertion as a check failed always, unnoticed.",
 [FMT,PM],[("scopes, names and types",FMT+":View"),("rule table",PM+":PropertyTypeManager, lookup_func_table"),("registered rules",PM+":prop_manager")],["View.scope, type, by_name, all_properties","PropertyTypeManager.register, call","prop_manager"])
add("C39","Packed codes and number lists are read exactly",
 "For every description of sixteen bits as fields, reading a code (given as a number or as its text) gives every field the value of exactly its bits, the first described field being the lowest, one-bit flags as true or false; packing the values again gives the code. Every comma-separated (or otherwise separated) list of decimal numbers is read as these numbers in this order, whole ones as integers.",
 ["inputs"],"every division of sixteen bits into fields and, for many, every code; every list of numbers over the alphabet up to a length",
 "Tests decode a few dozen codes with the six existing layouts; the fields they leave at zero cannot show a mistake.",
 ["mahjong/record/utils/bit.py","mahjong/record/utils/value/general.py"],[("layouts","mahjong/record/utils/bit.py:bit_struct_from_desc, named_tuple_from_desc, unpack_with, repack_to"),("number lists","mahjong/record/utils/value/general.py:number_list")],["unpack_with","repack_to","number_list"])
add("C40","A log cut short is never taken for a whole one",
 "Whatever the point at which the writing or delivery of a log stopped - after any event, after any byte, or with the rest filled with zero bytes - every reader (of a file, of a link, of the event table) and both report interfaces refuse what there is of it. Refusing leaves all files as they were, the next whole log is read and reported as always, and a whole log is never refused.",
 ["crash_points","histories"],"every event prefix of every history of the table model within the bound, every byte prefix (plain and zero-padded) of whole logs, and all short sequences of runs of the report tool with every outcome of the server",
 "Tests read whole logs only; a partial log that is read shows final scores, or reports, of a game that was not played to the end.",
 [RD,CHK,CK2,UF],[("end of the log is required",RD+":TenhouRecord.__init__"),("fetching",RD+":from_url"),("report tool",CHK+":main")],["TenhouRecord","from_file","from_url","light_dataframe_from_file","TenhouChecker.parse","tenhou-check"])
add("C41","Work done by several threads gives what it gives alone",
 "When two threads work at the same time - making, adding and printing tiles and hands, deciding and listing wins, waiting steps and per-discard analyses with analysers of their own, reading records, printing sheets, converting, replaying and saving commands, tracking a table, making reports with one shared report maker, listing logs, building items - each of them gives exactly what it gives alone in a fresh program, wherever the threads are switched and whatever the two have in common (rule tables, tiles and melds, translators, records).",
 ["schedules"],"every switch between two threads at a line of the code within the bound: one switch away at every line in every calling context (first, second, last pass), two switches inside one function",
 "All tests are single-threaded; what two threads share (the tile pool, the melds of a tile, the translator, rule tables) is module-level state that no test can exercise.",
 [TI,"mahjong/container/set.py",CK2,EX,RD],[("one state per conversion",TI+":to_command_iter"),("shared melds and pairs","mahjong/tile/definition.py:Tile.__new__"),("printing without changing","mahjong/container/set.py:TileSet.__str__"),("shared report maker",CK2+":TenhouChecker.parse")],["to_commands","TileSet.__str__","WinPattern.match","TenhouChecker.parse","GameExecutor.execute"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
