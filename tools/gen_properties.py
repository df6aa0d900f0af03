#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})
M = "mahjong/"
TD = M + "tile/definition.py"; SET = M + "container/set.py"; CU = M + "container/utils.py"
WIN = M + "container/pattern/win.py"; REA = M + "container/pattern/reasoning.py"; DIS = M + "container/distribution.py"
CAT = M + "record/category.py"; VT = M + "record/utils/value/tile.py"; ML = M + "record/utils/value/meld.py"
GT = M + "record/utils/value/gametype.py"; BIT = M + "record/utils/bit.py"; ST = M + "record/state.py"; PL = M + "record/player.py"
EV = M + "record/utils/event.py"; RD = M + "record/reader.py"; STG = M + "record/stage.py"; CONST = M + "record/const.py"
ED = M + "record/universe/tenhou/event_definition.py"; XM = M + "record/universe/tenhou/xml_macher.py"; TR = M + "record/universe/translator.py"
IN = M + "record/universe/interpreter.py"; EX = M + "record/universe/executor.py"; PM = M + "record/universe/property_manager.py"
CM = M + "record/universe/command.py"; BU = M + "record/utils/builder.py"; CK = M + "tenhou_record_check.py"; WR = M + "win_rate_demo.py"

p("C01", "Tile equality, hashing and ordering are one consistent total order",
  "Two tiles are equal exactly when they have the same suit and the same face value, where a red five counts as the five of its suit; equal tiles hash alike, and asking for the same tile twice gives equal tiles. <, <=, > and >= agree with the single total order: suit first (m, p, s, z), then face value.",
  ["inputs"], "every pair and triple of tiles over all suits, numbers and red fives, in any order of construction",
  "tests compare a few tiles and the hash number of all 34; they do not quantify over pairs/triples nor mix red fives with plain tiles under every operator",
  [TD], [("tuple view comparison and interned pool", TD), ("total_ordering", TD)], ["Tile(n, c) == / < / hash()", "AkaTile(0, c)"])
p("C02", "Pair, triplet, run and successor of a tile are exactly right",
  "A suited tile of face n has the run {n, n+1, n+2} exactly when n <= 7 and a successor n+1 exactly when n <= 8; honors have neither; the pair and the triplet are two and three copies of the tile. A red five has the same pair, triplet, run and successor as the plain five.",
  ["inputs"], "every tile, red fives included, in any order of construction",
  "tests look at a handful of tiles; the interning pool makes units depend on construction order, which tests never vary",
  [TD], [("units computed at construction", TD)], ["Tile.pair/triplet/flush/next/repeat"])
p("C03", "Tile multisets obey multiset algebra and never modify their operands",
  "For multisets of tiles, +, -, & and | are per-tile sum, difference cut at zero, minimum and maximum; contains(b) holds exactly when every count of b is available, and exclude(b) is the difference when contained, otherwise None; the length is the total number of tiles. None of these operations changes the contents of an operand, and the tiles a set lists are exactly its multiset.",
  ["inputs"], "every pair of hands over the tile universe with counts up to 4",
  "tests only use concrete hands inside other algorithms; no test states an operator law or looks for mutated operands",
  [SET], [("Counter subclass operators", SET)], ["TileSet +, -, &, |, contains, exclude, len, tiles"])
p("C04", "Printing a hand and parsing it back gives the same hand",
  "For every hand of valid tiles (honors 1-7, red fives included), parsing the printed form yields an equal hand, and the printed form lists the tiles in order grouped by suit. Printing never changes which tiles the hand holds.",
  ["inputs"], "every hand up to the stated number of distinct tiles, any insertion order, counts 1..4, red fives included",
  "tests parse constants; no round trip is stated, and red fives equal to plain fives make it subtle",
  [SET, CU], [("__str__ groups by suit after sorting", SET), ("regex tokenizer", CU)], ["str(TileSet)", "tile_set_from_string"])
p("C05", "Hand notation parses to exactly the tiles written",
  "In a notation string, each maximal run of digits followed by m, p or s denotes one suited tile per digit (digit 0 is the red five), and each run of digits 1-7 followed by z denotes one honor per digit; all other text is ignored. The parsed hand holds exactly the tiles denoted, sorted, and parsing never fails.",
  ["inputs"], "every string up to the stated length over arbitrary characters",
  "tests parse a dozen well-formed constants; malformed, mixed and boundary strings are never exercised",
  [CU], [("tile group regex", CU), ("red five on digit 0", CU)], ["tiles_from_string", "tile_set_from_string"])
p("C06", "Standard win recognition is exact",
  "A hand is reported as containing a standard win with p pairs and m melds exactly when p pairs and m runs or triplets can be taken from it simultaneously. The answer does not depend on the order in which tiles were added, and the hand still holds the same tiles afterwards.",
  ["inputs"], "every hand (any counts 0..4) over the stated tile windows, p in 0..2 and m in 0..4 within the stated combinations",
  "tests use 60 fixed hands; whether every overlapping run/triplet/pair arrangement is found is a universally quantified claim",
  [WIN], [("backtracking search over units with pruning of useless tiles", WIN)], ["NormalTypeWin(...).match(hand)"])
p("C07", "Seven-pairs win recognition is exact",
  "A hand is reported as containing k distinct pairs exactly when at least k different tiles each occur at least twice; four copies of a tile never count as two pairs. The hand still holds the same tiles afterwards.",
  ["inputs"], "every hand over the stated universe, counts 0..4, k up to 7",
  "tests check a few hands only",
  [WIN], [("used-set exclusion", WIN)], ["UniquePairs(...).match(hand)"])
p("C08", "Win decompositions are valid, complete and listed once",
  "Every decomposition listed for a hand consists of exactly the required pairs and melds and fits in the hand; every decomposition that exists is listed; the unique listing contains each distinct decomposition exactly once.",
  ["inputs"], "every hand over the stated windows, counts 0..4",
  "tests count selections of a handful of hands",
  [WIN, CU], [("unit enumeration then deletion of tried tiles", WIN), ("distinct by bisection", CU)], ["win_selections(hand)", "unique_win_selections(hand)"])
p("C09", "The waiting step is the true minimum distance to a standard win",
  "For every hand, the waiting step reported for the standard form is one less than the smallest number of tiles that must be drawn so that the hand contains a win using at most four copies of any tile; in particular it is -1 exactly for hands that already contain a win. The answer does not depend on insertion order or on earlier calls, and the hand is left unchanged.",
  ["inputs"], "every hand over the stated tile windows and contexts, counts 0..4, for the required numbers of melds",
  "tests fix about 30 hands; minimality over all completions is a universal claim and the search is heavily pruned",
  [REA], [("heuristic staged search with borrow pruning", REA)], ["HeuristicPatternMatchWaiting(NormalTypeWin).before_waiting_step(hand)"])
p("C10", "Useful tiles are exactly the tiles that bring the hand closer",
  "For every hand that is not yet a win, a tile is reported as useful for the standard form exactly when fewer than four copies of it are in the hand and drawing it lowers the waiting step by one. The waiting step returned together with the useful tiles is the hand's waiting step.",
  ["inputs"], "every incomplete hand over the stated tile windows and contexts, counts 0..4",
  "tests fix a few useful-tile lists; both missing and spurious tiles are possible through pruning",
  [REA], [("second search pass without improvement pruning", REA)], ["HeuristicPatternMatchWaiting.waiting_and_useful_tiles / useful_tiles"])
p("C11", "Seven-pairs waiting step and useful tiles are exact",
  "For the seven-pairs form the waiting step is 6 minus the number of different tiles held at least twice, plus one for every different tile missing to reach seven kinds; a tile is useful exactly when drawing it lowers that step.",
  ["inputs"], "every hand over the stated universe, counts 0..4",
  "tests cover a few hands only",
  [REA, WIN], [("generic search over unique pairs", REA)], ["HeuristicPatternMatchWaiting(UniquePairs())"])
p("C12", "All three waiting-step algorithms agree",
  "For every incomplete hand, the exhaustive, the pattern-matching and the heuristic algorithm report the same waiting step and the same useful tiles, for standard and pair patterns alike. None of them modifies the contents of the hand.",
  ["inputs"], "every hand over the stated (reduced) tile universe, counts 0..4, small patterns",
  "tests compare single algorithms against single constants",
  [REA], [("three independent searches", REA)], ["BruteForceWaiting, PatternMatchWaiting, HeuristicPatternMatchWaiting"])
p("C13", "Batch discard analysis equals analysing each discard separately",
  "For every hand that does not contain a win, the batch analysis lists a tile exactly when discarding one copy of it keeps the hand's waiting step, each listed tile once, with the hand's waiting step and exactly the useful tiles of the hand after that discard.",
  ["inputs"], "every incomplete hand over the stated windows, counts 0..4",
  "tests check one or two hands; equivalence of the shared search with per-discard searches is universal",
  [REA], [("union of borrowed tiles per droppable tile", REA)], ["HeuristicPatternMatchWaiting.batch_waiting_and_useful_tiles"])
p("C14", "Report marks the best discards and grades the actual one correctly",
  "For each own discard the report's expected discards are exactly those that minimise the waiting step over all win forms and, among these, maximise the number of unseen useful tiles; the reported step, useful tiles and count of the actual discard are those of the hand after that discard. The wrongness rate lies between 0 and 1 and is 0 exactly when the actual discard is as good as the expected ones; the per-form listings of the report are filled with the same analysis, and producing the report never fails.",
  ["inputs", "histories"], "every hand, actual discard and set of unseen tiles within the stated bounds, with and without open melds",
  "tests only check that a report is produced for one downloaded record (not even runnable offline)",
  [CK], [("merge per win type by discard", CK), ("sorting by (step, -count)", CK), ("wrong rate formula", CK)], ["game_reason_list / discard_reasoning results", "rendered report"])
p("C15", "Useful-tile counts are the number of unseen copies",
  "The number of useful tiles reported for a discard is the number of physical tiles not visible to the player (not in the own hand, nobody's discards, open melds or dora indicators) whose face is one of the useful tiles. Red fives are counted as copies of the five of their suit.",
  ["inputs"], "every set of useful tiles (red fives included) and every set of invisible physical tiles",
  "no test checks the counts",
  [CK, VT], [("tile_to_tenhou_range intersected with the invisible set", CK)], ["reasoning_merge, convert_to_reasoning"])
p("C16", "Category indexing is a bijection in lexicographic order",
  "For nested and mixed categories, index and category are inverse to each other over the whole range, numbering the category tuples consecutively from 0 in lexicographic order, and the length is the number of tuples. This holds for every combination of category shapes, also when the mixed parts differ.",
  ["inputs", "configurations"], "every category shape within the stated bounds and every index / tuple in it",
  "tests use two fixed shapes with equal one-dimensional parts, on which wrong offsets cancel out",
  [CAT], [("mixed radix digits", CAT), ("accumulated offsets", CAT)], ["SubCategory/MixedCategory.index, category, len"])
p("C17", "Tenhou tile numbers map to the right tiles and back",
  "Tile number k (0..135) denotes the face k div 4 in the order 1-9m, 1-9p, 1-9s, 1-7z, and is the red five exactly for the first five of each suit; the numbers listed for a tile are exactly the four numbers whose tile equals it, for red fives as well.",
  ["inputs"], "every tile number and every tile",
  "tests check AkaTile for a few numbers; the reverse mapping of red fives is untested",
  [VT, CAT], [("mixed category of 4 suits", VT)], ["tile_from_tenhou", "tile_to_tenhou_range"])
p("C18", "Meld codes decode to the right tiles, caller and source",
  "For every meld code tenhou can emit, the decoded kind, the tile taken from another player, the tiles contributed from the own hand and the player it was taken from are exactly those encoded by the bit layout (chi, pon, added kan, closed and open kan, north). Taken and contributed tiles are disjoint, together they are the three or four tiles of the meld, and a closed kan takes none.",
  ["inputs"], "all 65536 codes that satisfy the format's well-formedness rules, all four callers",
  "tests decode 3 codes out of tens of thousands",
  [ML, BIT], [("bitstruct layouts", ML), ("type dispatch", ML)], ["meld_from(event)", "Meld.self_tiles / borrowed_tiles / from_who / is_opened"])
p("C19", "Game type codes decode to the right rules",
  "Every game-type number decodes bit by bit to the documented rules (red fives, open tanyao, south round, three players, level, speed, discard shadow, tips), and all derived quantities (player count, rounds, game count, level, tips) follow from those bits. Two game types compare equal exactly when all their documented bits agree, and the printed name is the one the rules spell out.",
  ["inputs"], "all 65536 codes and all pairs of codes",
  "tests check the printed name of three codes",
  [GT, BIT], [("bitstruct layout and standard code", GT)], ["GameType(...)", "str(GameType)"])
p("C20", "Dora and initial wall tables are right for every rule set",
  "The dora of an indicator is the next tile of its suit (9 wraps to 1; winds cycle E-S-W-N, dragons cycle white-green-red), a red-five indicator acts as a five, and a 4 indicator makes both the plain and the red five dora. The initial wall has exactly four of every tile (in three-player games no 2-8 of characters), with one five per available suit replaced by a red one when red fives are on, and computing it never changes later results.",
  ["inputs", "configurations", "histories"], "every list of indicators, every player count and rule set, in every call order",
  "no test touches these tables except through whole-record smoke tests",
  [CONST], [("dora map", CONST), ("initial tile counters", CONST)], ["doras(indicators)", "initial_tiles(n, aka)"])
p("C21", "The tracked own hand always equals the tiles actually held",
  "After any sequence of events the tracked hand of a player is: the dealt tiles at the start of a game, plus own draws, minus own discards and the own tiles put into melds; events of other players never change it. Earlier states stay valid (a state is never modified by scanning further events).",
  ["histories", "inputs"], "every reachable hand (arbitrary set of tile numbers) and every event with arbitrary tile numbers and players: one inductive step, hence histories of any length",
  "tests only replay recorded games",
  [ST, PL, ML], [("PlayerHand.scan", ST), ("event regexes per player", PL)], ["PlayerHand.scan / passed_events(...).value"])
p("C22", "The tracked unseen tiles are exactly the tiles nobody has shown",
  "After any sequence of events the set of tiles not yet visible is all tiles of the game (108 in three-player games, without 2-8 of characters) minus every discarded tile, every tile put into melds by its owner and every dora indicator of the current game; a new game starts afresh. This holds for every physical tile, and earlier states are never modified.",
  ["histories", "inputs"], "every reachable unseen set (arbitrary) and every event with arbitrary tile numbers: one inductive step",
  "no test looks at the unseen set",
  [ST, EV], [("InvisibleTiles.scan", ST), ("discard_value", EV)], ["InvisibleTiles.scan / passed_events(...).value"])
p("C23", "Tracked melds, discards and dora indicators follow the event stream",
  "After any events, a player's discards are the discarded tiles of the current game in order, the dora indicators are the initial one followed by the revealed ones in order, and the melds are the player's melds in order with an added kan replacing precisely the matching triplet; a new game clears them and other players' events do not touch them. Filtering to relevant events gives the same final state as feeding all events, and earlier states are never modified.",
  ["histories", "inputs"], "every state of the stated size with arbitrary tile numbers and every next event",
  "tests only replay recorded games without checking these states",
  [ST, ML], [("DiscardTiles, DoraIndicators, PlayerMeld scan", ST), ("is_key_event / passed_events", ST)], ["scan, passed_events, with_events, with_key_events"])
p("C24", "Draw and discard events become exactly the right commands",
  "A draw adds exactly the drawn tile to that player's hand. A discard removes exactly one such tile from the hand, appends it to the discards, increments the player's turn counter, and records it as taken from hand exactly when the discarded physical tile is not the one drawn immediately before; other players' state is untouched.",
  ["histories", "inputs"], "every player, every pair of drawn/discarded tile numbers, from arbitrary prior state",
  "tests only check that recorded games produce some commands",
  [ED, TR], [("draw_command, discard_command, hand_update", ED)], ["tenhou_command(event)"],
  [("_right_most_tile_int", "last drawn physical tile per player", ED)])
p("C25", "A new game resets and deals exactly what the start event says",
  "The start event sets prevailing wind, round, sub-round, riichi deposits, dealer and first dora indicator as encoded, and for every player resets discards, melds, bonus tiles, turn counter, tsumogiri history and riichi flag, deals exactly the listed tiles, and sets the score to the listed value times 100. Nothing of an earlier game remains visible in these properties.",
  ["histories", "inputs"], "arbitrary seed fields, dealer, scores and tile numbers, for three and four players, from arbitrary prior state",
  "tests only replay recorded games",
  [ED], [("game_init_command", ED)], ["tenhou_command(INIT event)"])
p("C26", "Calling a meld moves exactly the meld's tiles",
  "A meld event removes from the caller's hand exactly the tiles the caller contributes, makes exactly these public, and adds the complete meld to the caller's melds (a north tile goes to the bonus tiles instead); no other player's state changes. After a call the next discard counts as taken from the hand.",
  ["histories", "inputs"], "every well-formed meld code and caller within the stated bounds",
  "tests only replay recorded games",
  [ED, ML], [("open_hand", ED)], ["tenhou_command(N event)"])
p("C27", "Wins, draws and score changes are recorded correctly",
  "A win marks exactly the winner as winner, marks the discarder as having dealt in exactly when the win was not self-drawn, and attributes the yaku to precisely the participants; an abortive or exhaustive draw marks nobody and records its reason. Every player's score becomes the score before plus the listed change, times 100.",
  ["inputs", "configurations"], "arbitrary winner, discarder, score lists, yaku lists and draw reasons for three and four players",
  "tests only replay recorded games without checking results",
  [ED], [("agari_command, no_win_command, game_finish", ED)], ["tenhou_command(AGARI / RYUUKYOKU event)"])
p("C28", "Final scores, points and ranks are consistent",
  "When the last game ends, each player's final score (times 100) and final point are those listed for that seat, and the ranks are a permutation of 1..n in which a higher final score always has the better rank and equal scores are ranked by seat order.",
  ["inputs"], "arbitrary final scores (ties, negatives) and points for three and four players",
  "recorded games contain few ties; no test checks ranks",
  [ED], [("game_finish final ranking", ED)], ["tenhou_command(... owari ...)"])
p("C29", "Logged state equals the fold of all updates, in both interpreters",
  "For any sequence of commands, the state attached to each command is the value obtained by folding all earlier updates of the same property and player (replace, add, remove, reset to default, set), independent of other properties and players; executing the same commands in the state executor yields the same values, and earlier snapshots are unaffected by later commands. In strict mode a mismatching expectation is always reported and a matching one never is.",
  ["histories", "inputs"], "every sequence of up to the stated number of commands over all update kinds, properties of every type and scopes, with arbitrary values",
  "tests replay recorded games and compare files, never the fold law",
  [IN, EX, PM, TR], [("GameInterpreter.interpret", IN), ("GameExecutor.execute_update_state", EX), ("property type lookup", PM)], ["cmd.state", "GameExecutor.execute(...)"])
p("C30", "Persistent state dictionaries never change behind the reader's back",
  "Setting, setting by default or dropping a key at any depth of the nested state returns a new whole state in which only that key differs and every other key is unchanged; every state obtained earlier still reads as before. Flattening lists precisely the leaves with their full key paths.",
  ["histories", "inputs"], "every sequence of up to the stated number of operations over all keys and paths of nested dictionaries, arbitrary values",
  "tests exercise a handful of literal operations",
  [EX], [("TransferDict.set re-linking parents", EX)], ["TransferDict.set/drop/setdefault/flatten"])
p("C31", "Commands survive serialisation and reading back",
  "Converting a command to its text record and back gives a command whose record is identical and whose value and state are equal to the original, for every property, scope, update kind and value of the property's type, including empty values. Missing values stay missing.",
  ["inputs"], "every property and update kind with arbitrary values of the property's type",
  "tests round-trip the commands occurring in six recorded games",
  [CM, PM], [("to_record / from_record", CM), ("to_str / from_str table", PM)], ["GameCommand.to_record / from_record"])
p("C32", "Exported play rows describe precisely the event",
  "Each event exports the rows that describe it: who drew, discarded, called what from whom, declared riichi, won from whom or why nobody won, with the tiles exactly those of the event in the documented order; the rows of a game all carry that game's wind, number and sub-round. Start rows list every player's sorted tiles and score.",
  ["inputs"], "every event kind with arbitrary players, tile numbers, meld codes and scores within the stated bounds",
  "tests check a handful of rows from one record",
  [EV, RD], [("to_paifu", EV), ("game string", RD)], ["TenhouEvent.to_paifu", "TenhouGame.to_paifu", "TenhouRecord.to_paifu"])
p("C33", "Splitting a stream into stages loses, duplicates and reorders nothing",
  "Grouping a stream by stages yields consecutive groups that concatenate to precisely the input, each group being the longest stretch whose keys run through the stage list in order (an unknown key groups with equal keys), also when the consumer skips the content of a group. A record is thereby cut so that every game starts at its own start event and contains all its events, and only those.",
  ["inputs", "histories"], "every key sequence and stage list up to the stated length, and every consumption pattern",
  "tests cover four literal streams and four stage lists",
  [STG, RD], [("StageGroupby", STG), ("TenhouRecord chunking", RD)], ["StageGroupby(...)", "TenhouRecord.game_list"])
p("C34", "The wall is sampled without replacement from the remaining tiles",
  "The weight of a tile is the number of copies left; every drawn tile had a positive weight, and drawing it lowers the count of that tile alone by one in the wall used for the next draw, leaving the original wall as it was. Hence no sample ever contains more copies of a tile than the wall had.",
  ["inputs", "histories"], "every wall over the stated universe and every outcome of every random choice up to the stated number of draws",
  "tests never sample (random)",
  [DIS], [("StaticWall.pick/weights", DIS)], ["StaticWall.sample, pick, weights, weight_of"])
p("C35", "The win-rate estimate counts precisely the winning experiments",
  "For every hand and every outcome of the random draws, the win count reported for a discard is the number of experiments in which the hand after that discard together with the drawn tiles contains a standard or seven-pairs win, and the printed rate is that count over the number of experiments. The demo produces its summary whatever the draws were.",
  ["inputs", "histories"], "every outcome of the random draws within the stated number of experiments and draws for the stated hands",
  "the program is interactive and random; no test runs it",
  [WR, DIS], [("experiment loop", WR)], ["mahjong-win-rate output"])
p("C36", "Scoped command defaults are precisely the enclosing scopes",
  "A command built inside nested default scopes has, for every field, the value given in the call, else in the innermost enclosing scope that gives it; leaving a scope, also through an exception, restores the previous defaults, and explicit call values never leak into later commands.",
  ["histories", "inputs"], "every nesting of scopes up to the stated depth with arbitrary subsets of fields, normal and exceptional exits",
  "no test exercises the builder on its own",
  [BU], [("stacked dictionaries and context managers", BU)], ["Builder.when, Builder()"])
p("C37", "Log ids survive the URL round trip",
  "For every log id, building the viewer URL and extracting the id gives the id back, and the download URL is the raw-log address of the very same id, also when the viewer URL carries further parameters before or after it.",
  ["inputs"], "every log id over the id alphabet up to the stated length, and parameter orders",
  "tests use two URLs",
  [RD], [("log_id_from_url / download_url", RD)], ["log_id_from_url, log_id_to_url, download_url"])
p("C38", "Every tile is shown with its own glyph",
  "The unicode glyph of a tile is the mahjong character of precisely that tile: winds, dragons (white, green and red in the tenhou order 5z, 6z, 7z), characters, bamboos and circles in order; different faces never share a glyph and a red five shows as the five of its suit.",
  ["inputs"], "every tile, red fives included",
  "no test touches it",
  [CK, CAT], [("category index plus code point base", CK)], ["to_unicode_tile"])
p("C39", "Standings and result summaries name the right players and numbers",
  "The record's one-line summary lists all players in order of final score with their final points; a game's summary names wind, game number, sub-round and for every win the winner, the discarder (or self-draw) and the points, for every draw its reason.",
  ["inputs"], "arbitrary players, winners, points, seeds and final scores within the stated bounds",
  "tests compare a few strings of recorded games",
  [RD], [("TenhouRecord.__str__, TenhouGame.__str__, end_stringify", RD)], ["str(record)", "str(game)"])
p("C40", "Riichi, dora, connection and player events become the right commands",
  "Declaring riichi sets only that player's riichi flag, the accepted riichi takes 1000 points from that player alone, a new dora appends exactly that indicator, a disconnection marks exactly that player and a (re)connection clears the mark; player events set name, rank and rating only for the players they list. The game type event sets precisely the decoded rules and the initial wall.",
  ["histories", "inputs"], "every player, tile number, rank, rating and game-type code, from arbitrary prior state",
  "tests only replay recorded games",
  [ED], [("richii_command, dora_command, disconnected_command, set_player_command, game_type_command", ED)], ["tenhou_command(REACH/DORA/BYE/UN/GO/TAIKYOKU event)"])
p("C41", "Every event is translated in order with its own timestamp",
  "Translating a record yields, for the events in order, that event's commands carrying the event's position as timestamp and the right event kind; commands of different events never mix, translating twice gives the same result, and an event that produces no command is reported in strict mode and otherwise contributes nothing.",
  ["histories", "configurations"], "every sequence of up to the stated number of events over all event kinds",
  "tests replay recorded games in one mode",
  [TR, XM, M + "record/universe/tenhou/__init__.py"], [("CommandTranslator.__call__, translate, postprocess", TR)], ["to_commands(record, strict)", "to_command_records"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
