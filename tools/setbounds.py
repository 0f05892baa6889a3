#!/usr/bin/env python3
"""Fills bounds, outside_bounds and assumptions of checks.json (run by hand after edits)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = json.load(open(f"{root}/checks.json"))
T = "thorough tier in brackets"
CIPHERKEYS = "keys' letters are arbitrary A-Z"
B = {
"C01": ("any two 32-bit runes or bytes, nil pointers in every place, any 64-bit key index, destination buffers of 0-3 bytes", "longer destination buffers", []),
"C02": ("complete: all 26 x 26 letters, the whole embedded table", "nothing", []),
"C03": ("texts of up to 3 [4-5] characters, each any of the alphabet, with one key of 20 letters; runs of one character kind up to the end of a key and 2 characters beyond, with 3 keys of 15-16 letters, group sizes 2-5; keys of 350 letters at group size 5 with 332-340 letters and 2 arbitrary characters; "+CIPHERKEYS, "longer arbitrary texts, more than 3 keys per message", []),
"C04": ("group sizes 1-6, texts of 2-4 arbitrary alphabet characters, texts that change keys, 330-345 letters at the default settings, texts of 21-50 letters over up to 10 keys and more; "+CIPHERKEYS, "longer arbitrary texts", []),
"C05": ("1-2 runes of any 32-bit value among fixed text that puts the encoder into each table and case, group sizes 1-3, keys of 0-9 letters, 0-2 keys, IDs of 0-2 letters", "settings Assert refuses with group size 0 or less; more than 2 arbitrary runes", []),
"C06": ("3-4 keys of 20 letters, 2-3 messages of 1-3 keys' length each, any used and compromised marks at the start, key named or chosen", "longer histories, more keys", []),
"C07": ("2-4 keys, up to 2 keepers each and up to 2 recipients out of 3 call-signs, messages of 1-3 keys; one key with up to 3 keepers and 3 recipients; 3 keys with 4 keepers and 4 recipients", "more keepers and call-signs", []),
"C08": ("3 keys with any marks, 6 texts that fail at different points, named or absent keys, keys too short or with odd letters, any rune in the text; 3-11 keys and texts of 21-35 letters over as many", "failures after an eleventh key", []),
"C09": ("keys of group size + 12 letters, group sizes 1-6, a run of 0-13 letters then 3 arbitrary alphabet characters; 332-345 letters before them at the default 350 and 5", "characters that need several letters in long runs", []),
"C10": ("up to 9 cipher letters, up to 4 keys of up to 8 letters, group sizes 1-3, up to 3 key changes, any runes as cipher text and key ID", "longer cipher texts", []),
"C11": ("texts of up to 5-6 characters, group sizes 1-2, both letter cases, any separators, any runes", "longer received texts", []),
"C12": ("group sizes 1-6, key lengths 1-9 and 350, up to 3 new and 2 old keys, up to 4 colliding IDs drawn, up to 4 keepers, every outcome of the draws", "more collisions in a row", ["crand draws are arbitrary words (C13 and C36 decide the draws themselves)"]),
"C13": ("limits 1-64 and nine wide values, every 63-bit word of the source; keys of 1, 5, 12 and 350 letters at group sizes 1-5; a source that fails after 0-12 reads", "other limits, more rejected draws than the stated few", []),
"C14": ("self-composition over two arbitrary contents of the same shape: slices of up to 4 elements, keys and messages with fields of up to 2-3 elements, an instance of 2 keys and 2 messages, a source that fails at any read", "longer contents; copies made by the Go runtime, compiler temporaries, swap", ["what the garbage collector or the stack keeps is outside the memory the code can name"]),
"C15": ("3 entries, 2 IDs of up to 2 arbitrary characters, any order, duplicates", "longer stores", []),
"C16": ("2 own and 2 incoming keys, ID lengths 1-3, up to 3 keepers, all flags, overwrite settings, answers and interrupts", "more keys", []),
"C17": ("1-2 keys with arbitrary contents, 1 message, every selection, wipe of either side", "more keys", []),
"C18": ("byte keys of lengths 0, 1, 16, 31-33, 64 and nil, strings of 0-128 characters with the last two arbitrary, 7 ways an instance ends up without key", "other lengths", []),
"C19": ("every single operation of a save failing, two failing, every operation from one on failing, disk full at any write; stores of up to 2 keys and 1 message", "three independent faults; larger stores", []),
"C20": ("the process ends before or in the middle of any operation of a save, alone or after a failed operation; stores of up to 2 keys and 1 message", "loss of completed writes that were not synced (power loss)", ["a crash is the death of the process: writes that returned stay"]),
"C21": ("path absolute, home-relative or empty, overwrite and interactive settings, file present or not, key set or not, every answer", "other path forms", []),
"C22": ("texts of up to 20 characters, group sizes 1-6, column limits -3 to 40; 350 letters with limits 0-130", "other lengths", []),
"C23": ("key lengths 0-600 (listed), widths 85-120 (listed), group sizes 3-8, up to 12 keepers, arbitrary letters in places", "other widths", []),
"C24": ("complete: 26 code letters in both tables", "nothing", []),
"C25": ("2-3 keys with any flags and expiry, IDs, keepers and lists of up to 2, every listed combination of options", "longer lists", []),
"C26": ("2-3 messages, IDs, recipients and lists of up to 2, every listed combination of options", "longer lists", []),
"C27": ("1-2 arguments of up to 3 arbitrary bytes, 5 characters with non-ASCII letters", "longer strings", []),
"C28": ("lists of up to 2-3 call-signs of 1-2 letters in either case; up to 4 of one letter asked for", "longer lists", []),
"C29": ("expiry within 2^33 seconds of now to the nanosecond, durations within 2^62 ns, and five extreme durations", "years beyond", ["time.Now is one fixed instant under the engine; what counts is the distance to it, which is arbitrary"]),
"C30": ("every documented format with 2-letter stations, 3-5 digit group counts, listed headers and ends, letters of the text arbitrary in a window, any of 10 other characters at the end; any runes in short strings", "longer arbitrary texts: the regular expressions fork on each letter", []),
"C31": ("2 keys with any marks, 2 stored messages, own or foreign sender, named key or not, listed texts", "longer histories", []),
"C32": ("7 commands with every single failing operation of three kinds, 3 ways to fail", "two independent faults", []),
"C33": ("2-3 items, group sizes 1-5, arbitrary IDs of the form the program makes", "IDs with spaces, which the program never makes", []),
"C34": ("integer settings within 2^40, call-signs of up to 4 arbitrary characters", "longer call-signs", []),
"C35": ("stores of up to 2 keys and 1 message with arbitrary contents; a file altered in any one byte, cut at any place, or replaced; any other 32-byte key; any group size, key length and widths", "alterations that forge the authenticator: an ideal cipher has none", ["gob and gzip give back what they were given; the cipher is ideal: a box opens only with the key and nonce it was made with"]),
"C36": ("2-3 threads, at most 4 [2 for three] context switches placed at any statement, every way to draw, a failing source", "more switches; switches within a statement", ["a switch can happen between statements of package crand and at reads of the source"]),
"C37": ("3 ways to give the new key, passwords in options or in the environment, all answers, any single failing operation, standard output failing, stores of up to 2 keys and 1 message", "two independent faults", []),
"C38": ("listed values of every option, call-signs of up to 3 arbitrary characters of A z 0 and space, all answers, any single failing operation", "other values", []),
"C39": ("up to 13 recipients of 6 letters, senders of up to 70, group sizes 1-6, up to 40 groups, widths default, 69, 80, 95 and 0, names and group sizes of 40-47 around the width", "other widths", []),
"C40": ("group sizes 2-6, up to 3 recipients, 4 forms of date-time group, texts of up to 90 letters, 1-3 keys with arbitrary letters in a window", "texts with the word DE, which the format cannot carry", []),
"C41": ("1-3 keys and 2 messages of listed sizes (up to several pages), group sizes, file kinds text and PDF, a file present or not, every single failing operation", "what is inside the PDF bytes: the PDF library is replaced by one that records the marks and page breaks", ["gofpdf lays out what it is told to"]),
"C42": ("4 keys with any marks on two of them, messages over one and two keys, typed or piped, every single failing operation (once, from then on, disk full) and every crash point; then a second message", "three messages; two independent faults", ["a crash is the death of the process: writes that returned stay"]),
"C43": ("1-2 items, up to 3 keepers or recipients of 2-9 arbitrary characters, any marks, comments of 0, 5 and 12, texts of 1-50 characters, four moments in three zones, group sizes 2 and 5", "more items; group size 1, whose column is narrower than its heading", []),
"C45": ("2 stations (group sizes 2 and 5, 4-letter texts, also texts over up to 3 keys of 30 letters) and 3 stations (group size 3), 2 messages in any direction, first and last letter of the text and of call-signs arbitrary", "longer histories; texts entered at both stations at once; keys exported with other filters", ["the random source gives the letters of the keys (fixed)", "different passwords or salts give different keys (key derivation is modelled as injective)"]),
"C46": ("dialogues of up to 4 passwords of 0-29 characters, the last character of the first two arbitrary among listed ones of different classes; minimum entropies just below, at and just above that of one of the passwords, 30, 60 and 140 bits, by default, option or environment; the commands init, pfk -c, pfk -g, keys, messages", "longer dialogues; other minimum entropies", ["the strength of a password is what the password validator library computes (its code is executed on the characters)", "different passwords or salts give different keys (key derivation is modelled as injective)"]),
"C47": ("pairs (thorough: all subsets) of the 6 operations on keys and the 4 on messages, 4 selections each, stores of 0 and 2 keys or messages, any used mark, a letter of the text entered arbitrary", "interactive choices other than the first item; failing operations of the operating system (C32, C41, C42 have those)", ["the random source gives both sides the same letters (fixed)"]),
"C49": ("up to 3 old messages of arbitrary 4-letter IDs, up to 8 (2 IDs) arbitrary draws; 4 operations on messages with and without ID, text, key ID and cipher text; two radiograms entered", "more than two taken IDs in a row; old IDs of other characters when drawing", ["crand draws are arbitrary accepted words (C13 and C36 decide the draws themselves)"]),
"C48": ("pairs of stores of 2 keys and 1 message and of stores imported from, all 6 letters of every key arbitrary in each, the last character of persistence keys and passwords arbitrary among listed ones; 32 command lines (keys, messages, init, pfk; library import and export), answers yes and no; for 6 (thorough: 12) of them any one file operation failing, the later ones too (thorough: three kinds of failure)", "usage texts (written by the command line library); files written by the commands (C21, C41 have those); GoString", ["passwords of equal character classes are equally strong", "different passwords give different keys (key derivation is modelled as injective)"]),
"C44": ("key, password and typed password, with default, explicit default and other salt, the last digit or character of each arbitrary; 6 kinds of malformed or contradictory secrets; three commands; all in options or in the environment, or options overruling the environment; generated keys and salts with arbitrary first and last random byte; keys, passwords of 1-5 times the length and salts of up to 100 bytes more with an arbitrary character at 4 places", "other positions of the arbitrary characters", ["different passwords or salts give different keys (key derivation is modelled as injective)"]),
}
for k, v in B.items():
    if k in c:
        c[k]["bounds"], c[k]["outside_bounds"] = v[0], v[1]
        if v[2]: c[k]["assumptions"] = v[2]
        else: c[k].pop("assumptions", None)
json.dump(c, open(f"{root}/checks.json", "w"), indent=1)
print([k for k in c if k not in B])
