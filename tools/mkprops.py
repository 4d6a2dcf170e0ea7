import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GB="src/buffer/gap_buffer.rs"; BM="src/buffer/mod.rs"; CU="src/buffer/cursor.rs"
INS="src/buffer/operation/insert.rs"; DEL="src/buffer/operation/delete.rs"; REP="src/buffer/operation/replace.rs"
GRP="src/buffer/operation/group.rs"; HIS="src/buffer/operation/history.rs"; WS="src/workspace.rs"
TI="src/buffer/token/token_iterator.rs"; LI="src/util/line_iterator.rs"

prop("T01","Insertions and deletions are exact splices of the content",
 "Inserting text at a cursor that is in the document yields exactly the earlier content with that text added at the addressed place, and deleting the next character or a range whose ends exist yields exactly the earlier content without what lies between its two ends, whatever order the ends are given in. Nothing else in the document is altered, lost, duplicated or reordered, regardless of what edits came before, of the sizes involved, and of the characters (multi-byte, combining, emoji sequences, CRLF) at or around the edit.",
 ["inputs","histories"],"Every document, every position and range that exists in it, every inserted string, after every sequence of earlier edits (and so every place they leave the internal gap and every capacity).",
 "The tests sample about two dozen edits of short strings, mostly ASCII and mostly a single edit per buffer; the content after an edit depends on where all earlier edits left the gap and on its size, which they hardly vary.",
 [GB,INS,DEL],[("byte moves around the gap and writes into it","GapBuffer::move_gap, insert_at, write_to_gap"),("widening the gap over a deleted range","GapBuffer::delete"),("range of a single-character deletion","Buffer::delete")],
 [("data/gap_start/gap_length","bytes of the document around a gap",GB)],["Buffer::data after every edit","GapBuffer::to_string after every edit"])

prop("T02","Positions are lines and grapheme clusters of the current content",
 "A position exists in a document exactly if its line does and its offset is no more than the number of extended grapheme clusters on that line (a line break, be it a line feed or a CRLF pair, being the last addressable place of its line), and it addresses the place before that cluster. Which positions exist, and what they address, is determined by the current content alone, not by the edits that led to it.",
 ["inputs","histories"],"Every content, position (arbitrarily far out of bounds included) and edit history.",
 "Tests check bounds on one two-word string and a few clusters, always in buffers whose gap lies where their constructor or a single edit put it; clusters and CRLF pairs that straddle the gap aren't sampled.",
 [GB],[("mapping positions to byte offsets","GapBuffer::find_offset, content_offset"),("bounds checks","GapBuffer::in_bounds")],None,["GapBuffer::in_bounds","Cursor::move_to's result","Buffer::read"])

prop("T03","Reading a range returns exactly the text between its ends",
 "Reading a range returns exactly the text between its two positions if both exist in the document, in whichever order they were given, and nothing otherwise. Reading never changes anything.",
 ["inputs","histories"],"Every content, pair of positions and edit history.",
 "Three tests read a handful of ranges; whether a read has to stitch the text around the gap depends on the edits before it.",
 [GB,BM],[("stitching the two halves around the gap","GapBuffer::read"),("normalization of the ends","Range::new")],None,["Buffer::read","GapBuffer::read"])

prop("T04","Out-of-range edits are contained: no panic, no damage",
 "An insertion at, or a deletion starting from, a position that is not in the document changes nothing. A deletion whose end does not exist removes everything from its start up to the start of the line below its end's line or, if there is no such line, up to the end of the document; no position or range, however large, makes an edit or a query panic, hang, or corrupt the content.",
 ["inputs","histories"],"Every content and every pair of positions up to the largest representable values, including cursors left outside of the document by earlier edits and undos.",
 "Four tests use a few out-of-range positions on short single-edit buffers.",
 [GB,INS,DEL],[("fallbacks for ends that don't exist","GapBuffer::delete"),("ignored insertions","GapBuffer::insert, Insert::run")],None,["Buffer::data after edits"])

prop("A01","Position, distance, range and line range arithmetic is exact",
 "Positions are ordered by line, then offset; adding a distance (in either form) leads to the place reached by advancing over the text it measures, which covers that text's line breaks and the grapheme clusters after its last one. Ranges and line ranges normalize their ends whichever way round they are given, include exactly what lies from their start up to but excluding their end, and convert to the positions of exactly the lines they span.",
 ["inputs"],"All pairs and triples of positions, lines, distances and measured strings.",
 "Tests sample about ten pairs.",
 ["src/buffer/position.rs","src/buffer/distance.rs","src/buffer/range.rs","src/buffer/line_range.rs"],
 [("ordering","Position::partial_cmp"),("vector addition","Position::add, add_assign"),("measuring","Distance::of_str"),("normalization and inclusion","Range::new/includes, LineRange::new/includes/to_range/to_inclusive_range")],None,["return values"])

prop("H01","Undo restores the exact earlier content, step by step",
 "Undoing reverses the most recent edit (or group) that is still applied, restoring exactly the content that preceded it; repeating this walks back through every earlier content in reverse order to the initial one, after which undoing does nothing. This holds for every mix of insertions, deletions, ranged deletions, replacements and reloads, with saves and moves in between, wherever the cursor is, and whatever the edited text combines with.",
 ["histories","inputs"],"Every sequence of edits, undos and redos over every content.",
 "Tests undo one or two edits, nearly always the one just made, with ASCII that doesn't interact with the surrounding text.",
 [HIS,INS,DEL,REP,GRP,BM],[("inverse operations","Insert/Delete/Replace::reverse"),("stack of applied operations","History::previous"),("cloned operations","Operation::clone_operation")],
 [("previous/next","operations applied, and available to be redone",HIS)],["Buffer::data after undo"])

prop("H02","Redo re-applies exactly what was undone, until superseded",
 "Redoing re-applies the most recently undone edit (or group), restoring exactly the content it led to, in order, as many times as were undone; undo and redo are inverse to each other for as long as no new edit is made. A new edit discards everything that could have been redone, after which (and when nothing was undone) redoing does nothing.",
 ["histories","inputs"],"Every sequence of edits, undos and redos, over every content and cursor position.",
 "Tests redo once, after one undo.",
 [HIS,INS,DEL,REP,GRP,BM],[("stack of undone operations","History::next, add"),("re-running operations","Insert/Delete/Replace::run, OperationGroup::run")],
 [("previous/next","operations applied, and available to be redone",HIS)],["Buffer::data after redo"])

prop("H03","Grouped edits are undone and redone as one",
 "All edits made between the start and end of a group are undone and redone as a single unit, in the right order, be they insertions, deletions or replacements; starting a group that is already open, ending one that is not, or ending one without edits has no effect on the history. Undoing while a group is open closes it first, without losing any of its edits.",
 ["histories"],"Every interleaving of group starts and ends, edits, undos, redos and saves.",
 "Tests use one group with two insertions, undone once.",
 [GRP,BM,HIS],[("collecting operations","OperationGroup::add, Buffer::start_operation_group, end_operation_group"),("undo of open groups","Buffer::undo"),("order","OperationGroup::run, reverse")],
 [("operation_group","the open group, if any",BM)],["Buffer::data after undo and redo"])

prop("H04","The modified flag never hides unsaved content",
 "A buffer reports to be unmodified only if its content is exactly what it last read from or wrote to its file. It reports so right after being opened, saved or reloaded and again whenever undo or redo lead back to that point of its history, and reports to be modified at any other point of it, and always without a path.",
 ["histories","fault_sequences"],"Every sequence of edits, groups, undos, redos, saves, failed saves and reloads, including those that discard the saved point.",
 "Tests check the flag after at most three operations, and never once the saved point was discarded or superseded at the same depth.",
 [BM,HIS],[("marked position and its invalidation","History::mark, at_mark, add, clear_mark"),("open groups and missing paths","Buffer::modified, mark_history")],
 [("marked_position","number of applied operations at which content and file agree",HIS)],["Buffer::modified after every operation"])

prop("F01","Files are loaded and saved byte for byte",
 "Opening a UTF-8 file yields exactly its content, and saving writes exactly the buffer's content (all of it, and nothing else, in place of whatever the file held) to the file its path currently points to and to no other. Neither alters line endings, byte order marks, NULs, missing final newlines or any other character, for any size and any edit history.",
 ["inputs","histories"],"Every content, edit history, earlier file content and path.",
 "Tests save two short strings and load one.",
 [BM,GB],[("reading","Buffer::from_file"),("writing","Buffer::save"),("excluding the gap","GapBuffer::to_string")],None,["the file system after save","Buffer::data after from_file"])

prop("F02","Failed file operations lose nothing and are never taken for success",
 "An open, save or reload that cannot complete (no path, a file or directory that does not exist, a directory in place of a file, content that is not UTF-8, a device that is full or a file size limit) returns an error. It leaves the content, cursor, history, path and identity of the buffer as they were, so that a later attempt can succeed, and never leads to a buffer with unsaved content being reported as unmodified.",
 ["fault_sequences","histories"],"Every fault at every file operation, in every buffer state, followed by any continuation.",
 "A single test reloads without a path; no test lets a write fail.",
 [BM],[("order of effects on save","Buffer::save"),("order of effects on reload","Buffer::reload"),("error propagation","Buffer::from_file")],None,["results, data, cursor, modified, undo/redo after failures"])

prop("F03","Replacing and reloading swap the whole content and keep the rest",
 "Replacing swaps the entire content for the given one and reloading for that of the file, as a single undoable step, or no step at all if nothing changes. The cursor stays where it is if that position still exists, moves to the start of its line if only that does, and to the start of the document otherwise; the identifier, path, syntax, earlier history and notification callback survive.",
 ["inputs","histories"],"Every pair of contents, cursor position, and edit history.",
 "Tests replace three short contents.",
 [REP,BM],[("replacement","Buffer::replace, replace_content"),("reload","Buffer::reload")],None,["data, cursor, id, syntax, path, callbacks, undo after replace/reload"])

prop("C01","Cursor movement stays in the document and lands exactly",
 "Moving to a position succeeds exactly if it exists, and otherwise leaves the cursor where it was. Left and right move by exactly one grapheme cluster within a line and stop at its ends, start and end of line go to exactly the first and last place of the current line (before its line break), and no movement ever takes a cursor from within the document out of it or panics.",
 ["inputs","histories"],"Every content, cursor position (also ones that edits left out of bounds) and movement.",
 "Tests move once or twice in short ASCII contents.",
 [CU,GB],[("bounds-checked updates","Cursor::move_to"),("horizontal moves","Cursor::move_left, move_right, move_to_start_of_line, move_to_end_of_line")],None,["Buffer::cursor after movement"])

prop("C02","Vertical movement keeps aiming for the original column",
 "Moving up or down goes to exactly the adjacent line, and moving to the first or last line to exactly that one, at the offset the cursor was last explicitly moved to if that line is long enough, and at the end of that line otherwise. After passing through any number of shorter lines by moving up and down, the cursor returns to that same offset on a line that is long enough; at the first and last line, moving further does nothing.",
 ["inputs","histories"],"Every content and every sequence of movements.",
 "Tests cross one shorter line.",
 [CU],[("sticky offset","Cursor::move_up, move_down, move_to_first_line, move_to_last_line")],
 [("sticky_offset","offset aimed for",CU)],["Buffer::cursor after movement"])

prop("C03","Edits, undo, saves and queries do not move the cursor",
 "Only explicit movement, content replacement, and reloading (or undoing and redoing those) change the cursor position. Insertions, deletions, their undo and redo, grouping, saving, failed operations and queries leave it exactly where it is, in every buffer.",
 ["histories","inputs"],"Every sequence of operations over every content and cursor.",
 "Two tests check that single insertions leave the cursor alone.",
 [BM,INS,DEL,REP,CU],[("cursor is independent of edits","Cursor (position), replace_content")],None,["Buffer::cursor after every operation"])

prop("N01","Every content change is reported at its position",
 "Whenever the content changes (by an edit, undo, redo, replacement or reload), the change callback is called for every step that changes it, in the order in which they are applied, with the position at which that step's change starts (the start of the document for replacements), by which time that step is part of the content. It isn't called by operations that change no content other than edits which turn out to have no effect, and survives replacements and reloads.",
 ["histories","inputs"],"Every sequence of operations on a buffer with a callback, groups and out-of-bounds edits included.",
 "Tests check one callback for each kind of edit.",
 [INS,DEL,REP,GRP,BM],[("callback invocations","Insert/Delete::run and reverse, replace_content")],None,["calls of the change callback"])

prop("S01","Searching finds every occurrence, at its exact position",
 "Searching returns, in document order and each once, exactly those positions from which the rest of the line starts with the needle, overlapping occurrences included; positions are in lines and grapheme clusters, so each of them can be moved to and read from. It never matches across line breaks and never panics or changes anything, whatever the needle (empty, multi-byte, longer than the line) and content.",
 ["inputs","histories"],"Every content and needle, after every edit history.",
 "Tests search four short contents.",
 [BM],[("scan of every line","Buffer::search")],None,["Buffer::search"])

prop("L01","Line counting and line iteration cover the content exactly",
 "Line iteration yields consecutively numbered lines from zero which, concatenated, are exactly the content; each ends with its line feed, and the last one (empty if the content is, or ends with a line feed) does not. The line count of a buffer is the number of lines so iterated, and equals one more than the greatest line that exists in it.",
 ["inputs","histories"],"Every content.",
 "Tests iterate three short contents.",
 [LI,BM],[("iteration","LineIterator::next"),("counting","Buffer::line_count")],None,["LineIterator","Buffer::line_count"])

prop("K01","Tokens reproduce the content, at exact positions",
 "The tokens of a buffer, in order and with line breaks written as line feeds, are exactly its content: nothing is missing, repeated or altered, and no lexeme contains a line feed. Every lexeme's position is the one of the grapheme cluster it starts in. Should the syntax parser fail at some line, everything in front of that line is there, and an error is reported.",
 ["inputs","configurations"],"Every content and syntax definition.",
 "Tests compare the tokens of six short snippets.",
 [TI,"src/buffer/token/token_set.rs",LI,WS],[("token construction","TokenIterator::build_next_token"),("line handling","TokenIterator::parse_next_line"),("snapshot of the content","Workspace::current_buffer_tokens")],None,["TokenSet::iter"])

prop("K02","Token scopes are those assigned by the syntax parser",
 "Every lexeme carries exactly the scope stack that the buffer's syntax definition assigns to all of its characters, parser state being carried from each line to the next; text beyond a line's last scope change is categorized just as well. Iterating again yields the same tokens, and edits made meanwhile don't affect a token set that was already obtained.",
 ["inputs","configurations"],"Every content and syntax definition.",
 "Tests compare the scopes of a few Rust snippets.",
 [TI,WS],[("application of scope changes","TokenIterator::build_next_token, next_token")],None,["TokenSet::iter","Workspace::current_buffer_tokens"])

prop("W01","Workspaces keep buffers in order and select the right one",
 "Buffers that are added or opened are placed right after the current one and selected; next and previous cycle through all of them in order, wrapping around at either end; closing removes exactly the current one and selects the one before it (or the new first one). Other than that, no operation changes the order or selection, none of them panics, and operations on an empty workspace do nothing.",
 ["histories"],"Every sequence of workspace operations, with any number of buffers.",
 "Tests use two or three buffers and one operation.",
 [WS],[("check-in and check-out","Workspace::select_buffer"),("placement","Workspace::add_buffer"),("closing","Workspace::close_current_buffer"),("cycling","Workspace::next_buffer, previous_buffer")],
 [("buffers/current_buffer/current_buffer_index","checked-in buffers, the checked-out one, and its place",WS)],["current_buffer, current_buffer_index, buffer_paths"])

prop("W02","Switching buffers preserves and isolates their state",
 "A buffer's content, cursor (including the offset vertical movement aims for), undo and redo history, open group, modified flag, path, syntax, identifier and callback are exactly as they were left whenever it is selected again. Operations on one buffer never affect another.",
 ["histories"],"Every interleaving of buffer operations and switches, over any number of buffers.",
 "No test edits a buffer, switches away, and back.",
 [WS],[("swapping buffers in and out","Workspace::select_buffer")],
 [("buffers/current_buffer","checked-in buffers and the checked-out one",WS)],["all observables of a buffer once selected again"])

prop("W03","Buffer identifiers are unique and never reused",
 "Every buffer added to or opened in a workspace is given an identifier that no other buffer of that workspace has or ever had, even if buffers were closed in between. It keeps that identifier for as long as it's in the workspace, across switches, edits, replacements and reloads.",
 ["histories"],"Every sequence of adds, opens, closes and switches.",
 "Tests check the identifiers of two added buffers.",
 [WS],[("identifier assignment","Workspace::add_buffer")],[("next_buffer_id","next identifier",WS)],["Buffer::id"])

prop("W04","Opening a file twice selects its buffer; failures change nothing",
 "Opening a path whose canonical file is already open in some buffer (through a relative path, a symbolic link or otherwise) selects that buffer, unsaved changes and all, without adding another or reading the file again. Opening a path that isn't adds a buffer with its content and canonical path, and opening one that can't be read returns an error and leaves the workspace as it was.",
 ["histories","inputs","fault_sequences"],"Every workspace and way to spell a path, including those which don't exist, aren't UTF-8, or are directories.",
 "Tests open one path twice and one missing path.",
 [WS,BM],[("lookup by canonical path","Workspace::select_buffer_by_path, open_buffer"),("canonicalization","Buffer::from_file")],None,["result, buffer_paths, current buffer"])

prop("W05","Path listings match the buffers, in order, relative to the root",
 "The path listing has one entry per buffer, in order; the current index is the place of the current buffer in it. Each path is relative to the workspace's canonical directory if it lies within it (component-wise) and otherwise as is, none for buffers without one; the same goes for the current buffer's path, which reflects path changes right away.",
 ["histories","inputs"],"Every set of buffers and paths (inside, outside, sharing a name prefix with, or equal to the workspace directory; unset; changed later), and every selection.",
 "Tests list two or three paths.",
 [WS],[("listing","Workspace::buffer_paths, current_buffer_path, current_buffer_index")],None,["return values"])

prop("W06","Buffers get the syntax their file name calls for",
 "A buffer that's added or opened without a syntax is assigned the workspace's definition (the user's included) for its file extension or, lacking one, its file name, and plain text if there's none, no matter what the file contains; one that already has a syntax keeps it. Syntaxes are only re-assigned on request, for the current buffer only and according to its path at that time; requests for tokens or a syntax update without a current buffer or syntax return the respective error. What a buffer tells as its file name and extension are those of its path at that time. Workspaces whose directory or syntax definitions can't be loaded are refused with an error.",
 ["inputs","histories","configurations"],"Every path, preset syntax, and user syntax directory, in every workspace state.",
 "Tests cover .rs, a pathless buffer, and one preset syntax.",
 [WS,BM],[("lookup","Workspace::update_current_syntax, add_buffer"),("extension and name","Buffer::file_extension, file_name"),("user syntaxes","Workspace::new")],None,["Buffer::syntax_definition, results"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,sch)
print(len(P))
