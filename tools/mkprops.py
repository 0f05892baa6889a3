#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand after edits)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "The DIANA trigraph is reciprocal, commutative and closed over A-Z",
  "For any two letters A-Z the trigraph is again a letter A-Z, is the same with the two letters swapped, and applying it again with either input gives back the other input; the byte and rune forms agree. Any input outside A-Z (or a nil pointer) is refused with an error, never a crash, and then nothing is written to the destination.",
  ["inputs"], "all pairs of runes (32 bit) and bytes, all nil-pointer combinations, all key indexes for the append form",
  "diana tests check 11 sample triples and 5 bad pairs out of 2^64 rune pairs; the append form is tested with one key and three indexes",
  ["diana/diana.go"], [("modular subtraction and range guard", "diana.TrigraphRune, diana.TrigraphByte, diana.AppendTrigraphByteByKey, diana.ZeroKey*")],
  observe=["return value and destination of the exported diana functions"])
p("C02", "The printed reciprocal table agrees with the cipher",
  "The reciprocal table printed on key sheets gives, for every column letter and every key letter, exactly the letter the program's cipher computes, so that a message enciphered by hand can be deciphered by the program and the reverse.",
  ["inputs"], "all 26x26 letter pairs, looked up in the embedded table text the way the README describes",
  "no test reads the table at all",
  ["diana/reciprocal-table.txt", "diana/diana.go"], [("embedded table text", "diana.ReciprocalTable"), ("cipher", "diana.TrigraphRune")],
  observe=["diana.ReciprocalTable", "diana.TrigraphRune"])
p("C03", "Deciphering gives back exactly the text that was enciphered",
  "Whenever enciphering a message succeeds, a station holding the same keys that deciphers the resulting cipher text with the message's key ID obtains exactly the original text, letter case included, however many keys the message spans.",
  ["inputs", "configurations"], "all texts over the coding alphabet (both cases, digits, punctuation, space, Swedish letters), all key letters, key lengths, group sizes and numbers of chained keys within the stated bounds",
  "cipher_test.go is one comment: no test enciphers or deciphers anything",
  ["cipher.go", "diana/diana.go"], [("encoder", "Message.Encipher / codecState.encodeCharacter"), ("decoder", "Message.Decipher / codecState.decodeCharacter"), ("key change", "codecState.changeKey")],
  state=[("codec state", "current table, case shift, position within the key", "cipher.go codecState")],
  observe=["Message.PlainText after Decipher"])
p("C04", "Cipher text is whole groups of letters A-Z",
  "When enciphering succeeds the cipher text consists only of letters A-Z, is not empty, its length is a multiple of the configured group size, and the message names a key ID that exists in the store and has the configured group size.",
  ["inputs", "configurations"], "all texts over the coding alphabet, all keys, group sizes and chained keys within the stated bounds",
  "no test enciphers a message",
  ["cipher.go"], [("padding with table changers", "codecState.pad, Message.Encipher"), ("message key", "Message.EnrichWithKey")],
  observe=["Message.CipherText", "Message.KeyId"])
p("C05", "Enciphering refuses unencodable text with an error and never crashes",
  "With settings the program accepts, enciphering any text whatsoever ends either in success or in an error, never in a crash; text containing a character that is not in the coding tables in either case is refused with an error, and is never silently altered.",
  ["inputs"], "all 32-bit rune values at any position of the text, and every prefix state of the encoder that leads there",
  "no test enciphers a message, let alone one with an unencodable character",
  ["cipher.go"], [("character search", "codecState.encodeCharacter")],
  observe=["error returned by Message.Encipher", "Message.CipherText"])
p("C06", "No key is ever used to encipher twice",
  "A successful encipherment marks every key it used as used, whether the key was chosen automatically or named by the caller, never uses one key for two parts of a message, and never starts from or changes to a key that was already marked used or compromised; so over any sequence of messages each key's letters encipher at most one text.",
  ["inputs", "histories", "configurations"], "all key stores with arbitrary used/compromised flags, keepers and ID lengths; all message lengths and recipients; sequences of messages, within the stated bounds",
  "no test enciphers a message; reuse depends on the flags of every key in the store and on the message history",
  ["cipher.go"], [("key search", "Krypto431.FindKey"), ("marking", "Message.EnrichWithKey, Message.Encipher"), ("refusal of used or compromised keys", "Message.EnrichWithKey")],
  state=[("Used", "key has enciphered or deciphered a message", "Key.Used"), ("Compromised", "key must not be used", "Key.Compromised")],
  observe=["Key.Used", "Message.KeyId", "key IDs embedded in the cipher text"])
p("C07", "A message is enciphered only with keys all its recipients keep",
  "Every automatically chosen key, including keys changed to within a message, has an ID of the configured group size and has every recipient of the message among its keepers; a message without recipients uses only keys without keepers. If no such unused key exists, enciphering fails instead of using another key.",
  ["inputs", "configurations"], "all key stores with arbitrary keepers, flags and ID lengths, and all recipient lists within the stated bounds",
  "no test calls the key search",
  ["cipher.go", "functions.go"], [("key search", "Krypto431.FindKey"), ("subset test", "AllNeedlesInHaystack")],
  observe=["Message.KeyId", "key IDs embedded in the cipher text", "error of Encipher"])
p("C08", "A failed encipherment leaves the key store as it was",
  "When enciphering fails for any reason, every key in the store has the same ID, letters, keepers and used and compromised marks as before the attempt, the plain text of the message is unchanged, and no partial cipher text remains in it.",
  ["inputs", "configurations"], "all failing attempts: out of keys at any point, unencodable character at any position, keys too short, unusable named key; all key stores within the stated bounds",
  "no test makes encipherment fail",
  ["cipher.go"], [("release of keys on failure", "deferred function in Message.Encipher")],
  observe=["Krypto431.Keys before and after"])
p("C09", "Enciphering succeeds whenever suitable keys suffice",
  "If every character of a non-empty text is encodable and the store holds at least as many suitable unused keys of the configured length as the text has characters (a key at least 12 letters longer than the group size), enciphering succeeds; where in the text characters that need several code letters fall relative to the end of a key makes no difference.",
  ["inputs", "configurations"], "all texts over the coding alphabet, all alignments of multi-letter codes with the end of a key, key lengths and group sizes within the stated bounds",
  "no test enciphers a message; failure needs a four-letter code to fall within the last letters before a key change",
  ["cipher.go"], [("key change threshold", "Message.Encipher")],
  observe=["error of Message.Encipher"])
p("C10", "Deciphering never crashes and accounts for exactly the keys it used",
  "Deciphering any cipher text with any key store ends in success or an error, never a crash. If it succeeds, exactly the keys it went through are newly marked used; if it fails, no key's used mark changes; in no case do key IDs, key letters, keepers or the cipher text change.",
  ["inputs", "configurations"], "all cipher texts (any runes), key IDs and key stores within the stated bounds",
  "no test deciphers a message; hostile or garbled traffic is arbitrary input",
  ["cipher.go"], [("decoder", "Message.Decipher / codecState.decodeCharacter"), ("marking", "deferred function in Message.Decipher")],
  observe=["error of Message.Decipher", "Krypto431.Keys"])
p("C11", "Trying to decipher a received text is all or nothing",
  "Trying to decipher a message's text never crashes; if it reports an error, the message's text, cipher text and (empty) key ID are as before and no key is marked used, and in a dry run nothing but a missing message ID ever changes. If it succeeds, the message holds the key ID and cipher text found in the text and the deciphered plain text, the same as deciphering that cipher text directly.",
  ["inputs"], "all texts (any runes) and key stores within the stated bounds",
  "no test receives a message",
  ["cipher.go"], [("filter, restore on failure", "Message.TryDecipherPlainText")],
  observe=["Message fields and Krypto431.Keys before and after"])
p("C12", "Generated keys are well-formed, distinct and unused",
  "Generating n keys adds exactly n keys and changes no existing key; each new key is unused and uncompromised, has an ID of group-size letters A-Z different from every other key ID in the store, has letters A-Z only and as many as the configured key length rounded up to whole groups, carries the given expiry and keepers in upper case, and never lists the own call-sign as a keeper.",
  ["inputs", "configurations"], "all outcomes of the random source (including ID collisions), all keeper lists, key lengths and group sizes within the stated bounds",
  "TestGenerateKeys samples 100 keys of one shape without keepers; collisions and own-call-sign removal never occur in it",
  ["keys.go", "functions.go"], [("generation and collision retry", "Krypto431.NewKey, GenerateKeys, ContainsKeyId"), ("keeper vetting", "VettedKeepers, Key.RemoveKeeper")],
  observe=["Krypto431.Keys"])
p("C13", "Key letters are unbiased and depend on nothing but fresh randomness",
  "The random integer below n is always in range and every value is produced by exactly the same number of accepted words of the random source; every letter of a generated key is determined by its own fresh draw, so that all letter combinations of a key are equally likely.",
  ["inputs"], "all words of the operating system's random source (up to the stated number of rejected draws), range limits n used by the program, key lengths within the stated bounds",
  "the crand tests are statistical and unreliable; bias smaller than sampling noise and correlations between positions are invisible to them",
  ["crand/crand.go", "keys.go", "functions.go"], [("random integers", "crand.Intn over crypto/rand"), ("key letters", "Krypto431.NewKey"), ("random IDs", "RandomAlnumRunes")],
  observe=["crand.Intn, Krypto431.NewKey results as a function of the random words"])
p("C14", "Wiping leaves no trace of keys or texts in the wiped memory",
  "After a key, a message, a slice or a whole instance is wiped, the memory that held key letters, key IDs, keepers, comments, plain text, cipher text, raw radiogram, binary content, persistence key and salt no longer depends on its earlier contents, whatever the random source returns (also when it fails), and the fields no longer refer to it.",
  ["inputs", "fault_sequences"], "all contents, all outcomes and failures of the random source, lengths within the stated bounds",
  "no test wipes anything; residue is only visible through memory aliases",
  ["krypto431.go", "crand/crand.go"], [("wipe functions", "Wipe, RandomWipe, ZeroWipe, WipeBytes, Key.Wipe, Message.Wipe, Krypto431.Wipe")],
  observe=["backing arrays held through an alias taken before the wipe"])
p("C15", "Deleting removes exactly the named keys or messages",
  "Deleting keys or messages by ID removes exactly one entry per listed ID that is present, keeps every other entry with all its contents, returns the number removed, and leaves the store unchanged for IDs that are not present. Key IDs match in either letter case, message IDs only in their exact case.",
  ["inputs", "histories"], "all stores and ID lists (any order, duplicates, absent IDs) within the stated bounds",
  "no test deletes anything",
  ["keys.go", "messages.go", "functions.go"], [("swap with last and truncate", "Krypto431.DeleteKey, DeleteMessage")],
  observe=["Krypto431.Keys, Krypto431.Messages, returned count"])
p("C16", "Importing keys never silently replaces or corrupts a key",
  "Importing adds exactly the selected incoming keys whose ID has the own group size, each a faithful copy with the exporting station added to and the own call-sign removed from its keepers; a key already in the store under that ID is left untouched unless overwriting is enabled, in which case it is replaced, and every other key in the store is unchanged. The imported keys stay intact after the incoming instance has been wiped.",
  ["inputs", "configurations"], "all pairs of stores (overlapping IDs, any ID lengths, flags, keepers), selections and overwrite settings within the stated bounds",
  "no test imports keys",
  ["persistence.go"], [("copy and conflict handling", "Krypto431.ImportKeys")],
  observe=["Krypto431.Keys before and after, returned count"])
p("C17", "An exported instance is a faithful and independent copy",
  "Exporting yields an instance with exactly the selected keys, each with the same contents, and the same settings, call-sign, salt and persistence key, without messages; wiping or changing either instance afterwards leaves the other one's keys intact, and exporting changes nothing in the source.",
  ["inputs", "histories"], "all stores and selections within the stated bounds, followed by a wipe of either side",
  "no test exports keys; sharing only shows after one side is wiped",
  ["persistence.go"], [("copying", "Krypto431.ExportKeys")],
  observe=["both instances' Keys after Wipe of the other"])
p("C18", "Persistence keys and salts of the wrong size never get through",
  "Whatever bytes or strings are supplied as persistence key or salt, through any option or setter, an instance never encrypts or decrypts its file with anything but a 32-byte key, setters that return an error leave the previous value in place, and saving or loading with a missing or malformed key returns an error instead of crashing - also after the instance was wiped or exported without a key.",
  ["inputs", "histories"], "all byte strings and hex strings within the stated lengths, all sequences of constructing, setting, exporting, wiping, then saving or loading",
  "no test touches persistence",
  ["persistence.go", "krypto431.go"], [("validation", "WithPFK, WithPFKString, WithSalt, WithSaltString, SetPFKFromString, SetSaltFromString, DerivePFKFromPassword"), ("guards", "Krypto431.Save, Krypto431.Load")],
  observe=["GetPFK, GetSalt, key handed to the cipher, errors"])
p("C19", "Saving reports success only if the whole store reached the file",
  "If saving returns no error, the complete encrypted store has been written to the configured file (unless the user was asked and declined to overwrite it); a failure of any single step - opening, writing, flushing, closing - at any point is reported as an error.",
  ["fault_sequences"], "all sequences of failures of the file system operations during one save, including short and late failures at flush and close",
  "no test saves, and tests run on a file system that does not fail",
  ["persistence.go"], [("stacked gzip/encryption/file writers and their closing", "Krypto431.Save")],
  observe=["error of Save", "bytes that reached the file"])
p("C20", "A crash or failure while saving never loses the stored keys",
  "If the process dies (what it wrote until then staying written), or any file operation fails, at any point during a save, the persistence file afterwards holds either the complete previous store or the complete new one.",
  ["crash_points", "fault_sequences"], "every prefix of the sequence of file system operations performed by a save over an existing file, and every single failing operation",
  "no test saves, and a crash point cannot be placed by a unit test",
  ["persistence.go"], [("how the file is replaced", "Krypto431.Save")],
  observe=["contents of the persistence file"])
p("C21", "The store reaches disk only encrypted, privately and never over a refusal",
  "Saving writes to disk only what the stream cipher keyed with the instance's persistence key produced, into a file only its owner can access, at the configured path; an existing file is not touched unless overwriting is enabled or confirmed.",
  ["inputs", "configurations"], "all instances (path given or home-relative, overwrite and interactive settings, presence of file and key, prompt answers)",
  "no test saves",
  ["persistence.go"], [("writer stack and open flags", "Krypto431.Save")],
  observe=["file operations performed by Save and their arguments"])
p("C22", "Splitting into groups loses nothing and respects the width",
  "The grouped rendering of any text contains exactly the text's characters in order, separated into groups of exactly the group size (the last may be shorter) by a single space or line break; with a column limit no line is longer than the limit (if a group fits), and without one there are no line breaks.",
  ["inputs", "configurations"], "all texts, group sizes and column limits within the stated bounds",
  "no test formats groups",
  ["functions.go", "keys.go", "messages.go"], [("grouping", "groups, Key.Groups, Key.GroupsBlock, Message.Groups, Message.GroupsBlock")],
  observe=["results of the Groups and GroupsBlock methods"])
p("C23", "A printed key sheet shows the whole key",
  "The printed form of a key contains its ID, all of its letters in groups in their order, its keepers, its used mark and the reciprocal table and coding legend, whatever the key's letters, length and the configured widths; printing changes nothing.",
  ["inputs", "configurations"], "all key letters and IDs, key lengths, keepers and widths within the stated bounds",
  "no test prints a key",
  ["print.go"], [("canvas layout", "Key.String"), ("grouping", "Key.GroupsBlock")],
  observe=["result of Key.String"])
p("C24", "The printed coding legend matches the coding the program uses",
  "For every code letter, the meaning shown in the printed coding legend - the characters of both tables and the four control characters - is the meaning the program gives that letter when deciphering, in either table.",
  ["inputs"], "all 26 code letters in both tables, all control positions",
  "no test reads the legend or deciphers",
  ["print.go", "cipher.go"], [("legend text", "KeyFooter"), ("tables", "CharacterTables, codecState.decodeCharacter")],
  observe=["KeyFooter", "Message.PlainText after Decipher"])
p("C25", "Key commands act on exactly the keys the given criteria select",
  "The keys command lists, prints, exports and imports exactly the keys that satisfy all of the given criteria: listed IDs alone decide when given, otherwise keepers (all of them, or any with --or), --used, --unused, --compromised, --expired, --invalid (expired or compromised) and --valid (not compromised and not expiring within the days given), and --all selects everything. Deleting interactively offers exactly the selected keys and removes exactly those picked from the offer; deleting without questions removes exactly the listed IDs.",
  ["inputs", "configurations"], "all combinations of the selection options and all keys (flags, keepers, IDs, expiry) within the stated bounds",
  "the program package has no tests; there are thousands of option combinations",
  ["cmd/krypto431/keys.go", "functions.go", "keys.go"], [("filter closure", "keys command")],
  observe=["keys reaching the summary, output, export, import and deletion"])
p("C26", "Message commands act on exactly the messages the criteria select",
  "The messages command lists and prints exactly the messages that satisfy all of the given criteria: listed message IDs (exact case) alone decide when given, otherwise recipients (all of them, or any with --or) and sender (any of those given); --all selects everything. Deleting interactively offers exactly the selected messages and removes exactly those picked from the offer; deleting without questions removes exactly the listed IDs.",
  ["inputs", "configurations"], "all combinations of the selection options and all messages within the stated bounds",
  "the program package has no tests",
  ["cmd/krypto431/messages.go", "functions.go"], [("filter closure", "messages command")],
  observe=["messages reaching the summary and output"])
p("C27", "Call-sign and ID lists are normalised losslessly",
  "Splitting call-sign or key lists yields exactly the non-empty items between commas and spaces, in order, without surrounding white space and in upper case; message ID lists are split the same way with their case preserved.",
  ["inputs"], "all strings within the stated length, any number of arguments",
  "no test calls these functions",
  ["functions.go"], [("splitting", "VettedKeepers, VettedRecipients, VettedCallSigns, VettedKeys, VettedMessageIds")],
  observe=["returned slices"])
p("C28", "Keeper and recipient lists behave as sets",
  "Adding a keeper or recipient makes it present exactly once without disturbing the others, removing one makes it absent and keeps all the others, in any letter case; the all-of and any-of tests agree with set inclusion and intersection, are false for empty sets, and a query without call-signs is true exactly for an empty list.",
  ["inputs", "histories"], "all lists (with duplicates) and operations within the stated bounds",
  "no test calls these functions",
  ["keys.go", "messages.go", "functions.go"], [("set operations", "Key.AddKeeper, RemoveKeeper, ContainsKeeper, Message.AddRecipient, RemoveRecipient, ContainsRecipient, AllNeedlesInHaystack, AnyNeedleInHaystack, AnyOfThem, EqualRunes, EqualRunesFold")],
  observe=["Key.Keepers, Message.Recipients, boolean results"])
p("C29", "Key validity agrees with the clock",
  "A key counts as expired exactly when the current time is after its expiry, and as valid for a duration exactly when that duration from now ends before its expiry; so a key valid for a longer time is valid for every shorter one, and an expired key is valid for no non-negative duration.",
  ["inputs"], "all current times, expiry times and durations within the stated ranges, at nanosecond resolution",
  "no test checks expiry",
  ["keys.go"], [("comparisons", "Key.IsExpired, IsValid, IsValidOneDay, IsValidOneMonth, IsValidOneYear")],
  observe=["boolean results"])
p("C30", "Radiograms are read as the documented format says",
  "A radiogram in one of the documented formats (header, optional group count or instructions, and a text without the word DE) yields exactly its recipients, sender and date-time group, and its text without the trailing prosign and without the header parts. A text without a DE part, or with an impossible date-time group, is refused with an error; reading never crashes.",
  ["inputs"], "radiograms of the documented shapes with symbolic call-signs and text letters, and arbitrary short strings, within the stated bounds",
  "no test parses a radiogram",
  ["messages.go"], [("regular expressions", "Krypto431.ParseRadiogram")],
  observe=["Message fields returned by ParseRadiogram"])
p("C31", "A message entered as radiogram is stored once, complete, or not at all",
  "Entering a radiogram either fails and leaves the stored messages and key marks as they were, or stores exactly one new message with a fresh message ID; an outgoing one (sent by the own call-sign) is enciphered - with the named key if one is given - and an incoming one is deciphered if its first group names a key in the store, and kept as received otherwise.",
  ["inputs", "histories"], "all key stores, own or foreign sender, named key or not, message texts within the stated bounds",
  "no test creates a message",
  ["messages.go", "cipher.go"], [("flow", "Krypto431.NewTextMessage"), ("unique IDs", "Krypto431.NewUniqueMessageId")],
  observe=["Krypto431.Messages, Krypto431.Keys, error"])
p("C32", "Only commands that change the store rewrite it",
  "Commands that only list, print or export never rewrite the main store, a command rewrites it only after the change succeeded, and every successful change - generating, deleting, importing, adding a message - is saved before the command reports success.",
  ["inputs", "fault_sequences"], "all option combinations of the keys and messages commands, with loading, the operation or saving failing or not",
  "the program package has no tests",
  ["cmd/krypto431/keys.go", "cmd/krypto431/messages.go"], [("command flow", "keys, messages")],
  observe=["calls to Save, exit error"])
p("C33", "Items picked from a listing are the items deleted",
  "Every line of a key or message listing starts with the complete ID of the item followed by a space, the listing has one line for each selected item in order, and deleting by listing lines deletes exactly the items those lines show.",
  ["inputs", "configurations"], "all stores (IDs as the program makes them, keepers, flags, comments) within the stated bounds",
  "no test lists or deletes",
  ["keys.go", "messages.go", "functions.go"], [("listing", "SummaryOfKeys, SummaryOfMessages"), ("parsing of a line", "DeleteKeysBySummaryString, DeleteMessagesBySummaryString")],
  observe=["lines, remaining store"])
p("C34", "Instance settings are accepted exactly when they are usable",
  "Checking an instance's settings succeeds exactly when a file name is set, the group size is at least 1, the key length at least 20, the width at least 85 and the key width at least the group size; a call-sign is accepted exactly when it has at least two characters after trimming, is stored in upper case, and a refused one leaves the previous call-sign in place.",
  ["inputs"], "all integer settings, all call-sign strings within the stated length",
  "no test checks settings",
  ["krypto431.go"], [("validation", "Krypto431.Assert, SetCallSign")],
  observe=["errors, CallSign"])
p("C35", "A loaded store equals the saved one, and a wrong key is refused",
  "Loading a store that was saved with the same persistence key gives back the same keys, messages and settings; a file altered in any way never loads as a different store, and a different persistence key makes loading fail.",
  ["inputs"], "all stores, all alterations of the file",
  "no test saves or loads",
  ["persistence.go"], [("gob, gzip and XSalsa20-Poly1305 stream", "Krypto431.Save, Krypto431.Load")],
  observe=["instance after Load"])
p("C36", "The random source is safe under concurrent use",
  "When several goroutines draw random numbers or bytes at the same time, every draw returns and its result is made of bytes of the source that no other draw got: nothing is duplicated, torn or lost, also when the source that is read is not itself safe for concurrent use. A draw that fails leaves the others working.",
  ["schedules", "fault_sequences"], "all interleavings of two and three concurrent callers within the stated number of context switches, all ways to draw, a failing source",
  "no test draws concurrently",
  ["crand/crand.go"], [("mutex around the reader", "cryptoRandSource.Uint64, Read, ReadRunes")],
  observe=["values returned by concurrent calls"])
p("C37", "Changing the persistence key re-encrypts the whole store or changes nothing",
  "After the command that changes the persistence key succeeds, the file holds the same keys, messages and settings, opens with the new key or password and no longer opens with the old one; if the user declines, mistypes the repeated password, or anything fails (also showing a new random key), the file is as it was and opens with the old key.",
  ["inputs", "fault_sequences"], "all ways to give the new key (random, password, key text), all answers, every single failing file operation, stores within the stated bounds",
  "the program package has no tests",
  ["cmd/krypto431/pfk.go", "persistence.go"], [("command flow", "changePFK"), ("key derivation", "Krypto431.DerivePFKFromPassword"), ("saving", "Krypto431.Save")],
  observe=["the persistence file and what it loads as with either key"])
p("C38", "Initialising makes exactly the store asked for and never replaces one unasked",
  "The init command writes a store with the call-sign, settings and number of keys given on the command line, readable with the given secret and by its owner only, or reports an error and writes nothing; an existing store is replaced only with the user's consent and is otherwise left as it was, also when anything fails.",
  ["inputs", "fault_sequences", "configurations"], "all combinations of the init options within the stated values, all answers, every single failing file operation",
  "the program package has no tests",
  ["cmd/krypto431/initialize.go", "krypto431.go", "persistence.go", "keys.go"], [("command flow", "initialize"), ("consent", "Krypto431.Save"), ("keys", "Krypto431.GenerateKeys")],
  observe=["the persistence file, exit status"])
p("C39", "A printed message shows the whole message",
  "The printed form of a message shows its date-time group, its ID, all its recipients and its sender uncropped, all words of its text in order, its key ID with all groups of cipher text in order, and as traffic the whole message as it is sent, at every width; printing changes nothing.",
  ["inputs", "configurations"], "all messages within the stated bounds, group sizes and widths",
  "no test prints a message",
  ["print.go", "messages.go"], [("layout", "Message.String"), ("groups", "Message.Groups")],
  observe=["returned text"])
p("C40", "Printed traffic reads back as the same message at another station",
  "The traffic of a printed outgoing message, entered as a radiogram at another station that holds the same keys, gives a message with the same recipients (that station if there were none), sender, date-time group, key ID, cipher text and plain text as the sender's, and leaves the same keys marked used.",
  ["inputs", "histories"], "all radiograms, keys and texts within the stated bounds, group sizes and widths",
  "no test carries a message from one station to another",
  ["print.go", "messages.go", "cipher.go"], [("traffic", "Message.String"), ("reading", "NewTextMessage, ParseRadiogram"), ("deciphering", "TryDecipherPlainText")],
  observe=["the messages stored at both stations"])
p("C41", "A print-out to a file is whole, private, or reported as failed",
  "Writing keys or messages to a text or PDF file puts every selected item into it exactly once and whole, a file it creates is accessible only to its owner, and no other file is touched; in a PDF an item that fits a page is not split between pages. Any failure to open, write or close the file is reported, nothing is written if nothing is selected, and the store is not changed.",
  ["inputs", "fault_sequences", "configurations"], "all sequences of item sizes within the stated bounds, all selections, every single failing file operation",
  "no test prints to a file, and tests run on a file system that does not fail",
  ["print.go"], [("files", "Krypto431.KeysTextFile, MessagesTextFile, KeysPDF, MessagesPDF"), ("page layout", "Krypto431.KeysPDF, MessagesPDF")],
  observe=["the file, its mode, the error, what is put on each page"])
p("C42", "Cipher text is shown only once the store records its keys as used",
  "Whenever the program has shown a newly enciphered message, the store on disk already marks every key of that message as used, wherever the command then fails or the process dies; so no two messages that were shown, in whatever runs of the program, are enciphered with the same key.",
  ["crash_points", "fault_sequences", "histories"], "every single failing file operation and every point at which the process dies while a message is entered, followed by a further message",
  "the program package has no tests, and a crash point cannot be placed by a unit test",
  ["cmd/krypto431/messages.go", "messages.go", "persistence.go"], [("order of saving and printing", "messages command"), ("marking", "Message.Encipher")],
  observe=["standard output against the persistence file"])
p("C43", "A listing tells the truth about every item",
  "The line a listing has for a key shows, below the headings, its whole ID, all its keepers, when it was made and expires, whether it is used and compromised, and its comment; the line for a message its ID, date-time group, all recipients, its sender and the beginning of its text. Listing changes nothing it shows.",
  ["inputs", "configurations"], "all keys and messages within the stated bounds, columns of any width needed",
  "no test lists anything",
  ["keys.go", "messages.go", "functions.go"], [("columns", "SummaryOfKeys, SummaryOfMessages, predictColumnSizesOfKeys, predictColumnSizesOfMessages, withPadding")],
  observe=["header and lines"])
p("C44", "A store opens with exactly the secret it was made with",
  "However the secret is given - as key, or as password on the command line or typed, with the default or another salt - a store made with it opens for every command given the same secret in any of these ways, and for no command given another one. So it does with a key or salt the program generated. Malformed and contradictory secrets are refused; a command that is refused shows and changes nothing.",
  ["inputs", "configurations"], "all pairs of ways to give a secret, with arbitrary key digits, salt digits and password characters within the stated bounds",
  "the program package has no tests",
  ["cmd/krypto431/functions.go", "cmd/krypto431/initialize.go", "persistence.go"], [("secrets from options", "setSaltAndPFK"), ("setters", "SetPFKFromString, SetPFKFromPassword, SetSaltFromString"), ("prompt", "AskForPassword, AskAndConfirmPassword")],
  observe=["exit status, standard output, the persistence file"])
p("C45", "Keys exchanged through the program carry messages in every direction",
  "After a station has made keys for others, exported them and the others have imported them, a message that any of them enters for the others shows traffic which, entered at each of these, is read and stored there as the text that was written. Its keys are then marked used in the stores of all of them, and no message entered later uses one of them.",
  ["inputs", "histories"], "two or three stations with stores of their own, arbitrary senders in any order, arbitrary letters in texts and call-signs within the stated bounds",
  "no test runs the program, let alone two stations",
  ["cmd/krypto431/keys.go", "cmd/krypto431/messages.go", "persistence.go", "messages.go", "cipher.go", "print.go"], [("exchange", "ExportKeys, ImportKeys"), ("keepers", "RemoveKeeper, AddKeeper, FindKey"), ("messages", "NewTextMessage, Encipher, TryDecipherPlainText"), ("traffic", "Message.String")],
  observe=["standard output and the stores of all stations on disk"])
p("C46", "A new password is taken only if strong enough and typed twice alike",
  "Wherever a password is asked for to protect a store or to derive a key, the one taken is the first that has at least the minimum entropy in force (the default, or the one set by option or environment) and is repeated exactly; nothing more is asked, the store is encrypted with the key of exactly that password, and without such a password nothing is written or shown. The key of a password given in an option is shown only if it is strong enough. A password that was typed is wiped from memory once it is refused, mismatched or has been used.",
  ["inputs", "histories"], "all dialogues of typed passwords within the stated lengths, with arbitrary characters that decide strength and equality, all minimum entropies listed",
  "no test types a password",
  ["persistence.go", "functions.go", "cmd/krypto431/pfk.go", "cmd/krypto431/initialize.go", "cmd/krypto431/krypto431.go"], [("dialogue", "AskAndConfirmPassword, AskForPassword"), ("strength", "DerivePFKFromPasswordWithValidation, SetMinimumPasswordEntropyBits"), ("commands", "generatePFK, managePFK, initialize")],
  observe=["the password returned, the buffers the passwords were read into, standard output, the persistence file"])
p("C47", "Operations given in one command are all done, as if given one by one",
  "A keys or messages command that combines operations - deleting, generating or entering, importing, exporting, listing, printing - has the same effect as one command for each in that order with the same criteria: the same store, the same exported and printed files, the same output, and it succeeds exactly if each of them does. An operation that finds nothing to do does not keep the others from being done.",
  ["inputs", "configurations"], "all pairs (thorough: all combinations) of operations, criteria and stores within the stated bounds",
  "the program package has no tests",
  ["cmd/krypto431/keys.go", "cmd/krypto431/messages.go"], [("command flow", "keys, messages")],
  observe=["exit status, standard output, all files"])
p("C48", "Nothing a command shows gives away a secret it was not asked for",
  "Unless asked to show a persistence key or cipher text, what a command puts on the terminal - output, messages and prompts, also when it is refused or something fails - is the same whatever the letters of the keys in the stores, the persistence keys and the passwords are (passwords of equal strength).",
  ["inputs", "fault schedules", "configurations"], "all pairs of worlds that differ in secrets (two-run non-interference), all commands, any failing file operation",
  "no test looks at what is printed; a leak may need an error at one particular point",
  ["cmd/krypto431", "keys.go", "persistence.go", "krypto431.go"], [("non-interference", "all commands; ImportKeys; ExportKeys; Save; Load")],
  observe=["standard output, standard error, prompts"])
p("C49", "Every message is known by an ID of its own",
  "A message given no ID gets one of four letters and digits that no other message in the store has (letter case told apart). Whatever is done with a message - enciphering, deciphering, trying to, looking for a key, also in vain - it keeps the ID it has, and so do all other messages.",
  ["inputs", "histories"], "all outcomes of the random source (including IDs already taken), all IDs, texts and operations within the stated bounds",
  "no test gives a message an ID; a taken ID is drawn once in millions",
  ["messages.go", "cipher.go", "functions.go"], [("fresh IDs", "Krypto431.NewUniqueMessageId, ContainsMessageId, RandomAlnumRunes"), ("kept IDs", "Message.Encipher, Decipher, TryDecipherPlainText, EnrichWithKey; Krypto431.NewTextMessage")],
  observe=["Message.Id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    if len(x["title"])>80: print("TITLE", x["id"], len(x["title"]))
    n = x["statement"].count(". ")+1
    if n>3: print("SENT", x["id"], n)
print(len(P))
