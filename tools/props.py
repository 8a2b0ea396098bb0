import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**k):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0] if len(files)==1 else ", ".join(files[:2])) for m in [mech]],**k)))
p("C01","Every name and code page selects its encoding, and nothing else does",
"For every byte string, looking up an encoding name (in C or through the C++ Encoding class) yields the encoding of which it is a published alias, where case and the characters '-' and '_' do not matter, and yields 'not found' (-1, std::invalid_argument) for every other string, of any length and content. For every integer, looking up a code page yields the published encoding for that code page or 'not found'. The canonical form of a name is the name in upper case without '-' and '_', and its returned length is exact.",
["inputs","configurations"],"every C string as a name (any bytes, any length), every int as a code page, both language bindings",
"check-encoding looks up only the listed spellings; the space of near misses, case/hyphen variants, non-ASCII, empty and over-long names, and of the 2^32 code pages is never sampled.",
["lib/iconv.c","lib/generated/aliases.h","lib/codepage_to_ei.h","lib/reiconv.cpp","lib/encoding_indexes.h","lib/all_encodings.h"],
"reiconv_name_canonicalize, reiconv_lookup_from_name over the generated perfect hash, reiconv_lookup_from_codepage over a table, reiconv::Encoding constructors")
p("C02","Decoding a byte sequence of a character set yields the right characters",
"For every supported non-Unicode character set (single-byte, EBCDIC, Mac, DOS, CJK multi-byte, and the 94x94 sets), every byte sequence that the character set defines as a character decodes to exactly the Unicode character(s) assigned to it. Every byte sequence it leaves undefined is reported as invalid, and every proper prefix of a defined sequence as incomplete; neither is ever decoded to something else.",
["inputs","configurations"],"every byte sequence up to the encoding's maximal length, for each of the table-driven encodings",
"the repository's tables cover about 110 encodings and only list valid sequences through one code path; 53 EBCDIC sets and several 94x94 sets have no table test at all, and invalid/incomplete classification is not compared.",
["lib/converters.h","lib/converters","lib/all_encodings.h"],
"per-encoding xxx_mbtowc functions over static tables, selected through all_encodings[]")
p("C03","Encoding a character into a character set yields the right bytes",
"For every supported non-Unicode character set and every Unicode scalar value from 0 to 0x10FFFF (and every 32-bit value above), encoding yields exactly the byte sequence assigned to that character in that set, or reports the character as not representable when the set has no such character. The answer depends only on the character (and, for stateful encodings, on the text before it), never on the room left in the output buffer.",
["inputs","configurations"],"every Unicode code point 0..0x10FFFF and sampled larger values, for each of the encodings, at every output window size",
"the table tests skip EBCDIC and the 94x94 sets, always offer a 10-byte window, and look at one character per fresh conversion.",
["lib/converters.h","lib/converters","lib/loop_unicode.h"],
"per-encoding xxx_wctomb functions over page-indexed tables; unicode_loop_wctomb")
p("C04","The Unicode formats accept exactly well-formed text and preserve it",
"UTF-8, UTF-16, UTF-32, UTF-7, UCS-2, UCS-4 (each byte order, with and without byte order mark), C99 and JAVA escapes decode every well-formed sequence to its scalar value and encode every scalar value they can represent to its unique standard form. Ill-formed sequences (over-long UTF-8; in UTF-8, UTF-16, UTF-32, UTF-7 and UCS-2 lone surrogates; values above 0x10FFFF in the UTF formats; bad base64) are reported as invalid and truncated ones as incomplete. A byte order mark selects the byte order of what follows and is not part of the text, and encoders that announce a byte order write exactly one mark, at the start.",
["inputs","histories","configurations"],"every byte sequence and every scalar value, every byte-order history of a stream",
"the tests compare the BMP for UTF-8 and one sample file for the other formats; malformed input, surrogate handling, byte-order switches in mid-stream and the UTF-7 state machine are barely sampled.",
["lib/converters/utf8.h","lib/converters/utf16.h","lib/converters/utf32.h","lib/converters/utf7.h","lib/converters/ucs2.h","lib/converters/ucs4.h","lib/converters/c99.h","lib/converters/java.h"],
"hand-written xxx_mbtowc / xxx_wctomb per Unicode format with ibyteorder and ostate")
p("C05","Text survives a round trip through any encoding that can represent it",
"If a text converts from Unicode to an encoding without error and with a return value of 0 (nothing substituted or dropped), then converting the result back, with the final flush on both sides, yields exactly the original text. The only exceptions are the published one-way (fallback) mappings of some East Asian, Vietnamese and vendor sets, tag characters, U+FEFF in the formats that take it as a byte order mark, the control characters that a shift encoding uses for its own switching (ESC, SO, SI), the escape formats' own escape character, and combining sequences that the set composes (they come back composed).",
["inputs","configurations"],"every text (sequence of characters) and every encoding, including the stateful ones, and every alternative Unicode form as pivot",
"a round trip over sequences, as opposed to single characters, is not tested; shift states, buffered characters and combining pairs interact only in sequences.",
["lib/loop_unicode.h","lib/converters","lib/converters.h","lib/iconv.c"],
"composition of xxx_wctomb/xxx_reset of an encoding with its xxx_mbtowc/xxx_flushwc")
p("C06","How the input is cut into chunks does not matter",
"For every input and every way of splitting it into successive calls on one handle (passing unconsumed bytes again in front of the next chunk), the concatenated output, the accumulated return values (of calls that succeed), and the position and kind of the first error equal those of a single call with the whole input. An incomplete sequence at the end of a chunk is left unconsumed and reported as such, never lost, duplicated or reported as invalid.",
["inputs","histories","configurations"],"every input, every split into chunks down to one byte, every pair of encodings, with and without discarding",
"the tests feed whole buffers (one fixed buffer size); splits inside multi-byte characters, shift sequences, base64 groups, byte order marks or buffered combining characters are not exercised.",
["lib/loop_unicode.h","lib/iconv.c","lib/converters"],
"unicode_loop_convert and RET_TOOFEW/istate handling of every decoder")
p("C07","The size of the output window does not matter and is never exceeded",
"For every input and every sequence of output window sizes, including zero, a call writes only inside the window it was given; when the next character does not fit it reports E2BIG with nothing of that character written or consumed, and continuing with more room yields the same total output, errors and final state as one call with ample room (a call that fails reports only its error, not a count). The same holds for the final reset/flush call.",
["inputs","histories","configurations"],"every input, every sequence of window sizes from 0 upwards, every pair of encodings, convert and reset calls",
"the tests use windows large enough for the text; the interplay of multi-byte output with every residual window size is never sampled.",
["lib/loop_unicode.h","lib/converters","lib/iconv.c"],
"unicode_loop_wctomb, RET_TOOSMALL paths, state restore on E2BIG, unicode_loop_reset")
p("C08","Errors are reported with the right code at the right position",
"After every call the input and output pointers and the two remaining counts have moved by matching amounts, everything before the new input position has been converted to what lies before the new output position, and nothing outside the two buffers is read or written. An invalid sequence or an unrepresentable character without substitute gives EILSEQ with the input pointing at it (or at the shift or byte order sequence directly in front of it), an incomplete sequence at the end gives EINVAL with the input pointing at it, and lack of room gives E2BIG; otherwise the call consumes everything and returns the number of characters that were not converted reversibly. An error is stable: the same call repeated on the unconsumed rest reports the same error again without producing output.",
["inputs","histories","configurations"],"every byte string as input (valid or not), every pair of encodings and every handle history",
"tests mostly check the final bytes of valid texts; error positions in mixed valid/invalid inputs for every encoding are not observed.",
["lib/loop_unicode.h","lib/iconv.c","lib/converters"],
"unicode_loop_convert cases 1-4, RET_SHIFT_ILSEQ / RET_TOOFEW / RET_ILUNI protocol")
p("C09","With discarding on, exactly the offending parts disappear",
"On a handle opened with the discard option, invalid input is skipped one code unit at a time (one byte; two for UTF-16/UCS-2, four for UTF-32/UCS-4) and not counted, and unrepresentable characters are dropped and counted in the return value, never replaced. Everything else converts exactly as on a handle without the option, which on the same input would stop at the first such place; discarding never reports EILSEQ, and incomplete input is still EINVAL.",
["inputs","configurations","histories"],"every byte string, every pair of encodings, both flag values",
"one test feeds one invalid byte in one encoding pair; the skip unit per encoding family, shift states around the invalid part, and dropping versus substituting are not sampled.",
["lib/loop_unicode.h","lib/iconv.c","lib/encoding_indexes.h"],
"discard_ilseq branches of unicode_loop_convert and unicode_loop_reset")
p("C10","Reset flushes what is pending and returns the handle to its initial state",
"A reset call with an output buffer writes exactly the pending buffered character and the sequence that returns the output to its initial shift state, reports E2BIG (and can be retried without loss or duplication) when they do not fit, and a reset without an output buffer silently forgets them. After a successful reset the handle converts any text exactly as a freshly opened handle does, except that the byte order learned from an earlier byte order mark is kept; a second reset writes nothing.",
["histories","inputs","configurations"],"every history of conversions and errors before the reset, every window size for it, every pair of encodings",
"tests reset only after complete valid texts; reset after errors, in every shift state, with pending characters and with tight windows is not exercised.",
["lib/loop_unicode.h","lib/iconv.c","lib/converters"],
"unicode_loop_reset, xxx_flushwc, xxx_reset")
p("C11","The one-shot functions agree with the streaming conversion",
"On a handle in its initial state, the result-size function returns exactly the number of bytes that the streaming conversion plus final flush produces, the static-size conversion succeeds exactly if that many bytes fit, writes exactly those bytes and leaves the rest of the buffer unchanged, and the allocating C function and the C++ function return exactly those bytes. Invalid or truncated input makes all of them fail with EILSEQ (the C++ one throws std::system_error), and success or failure of any of them leaves the handle fit for the next text: same results as on a new handle, except for a byte order learned by an actual conversion.",
["inputs","histories","configurations"],"every input (empty, long beyond the internal buffer, invalid, truncated), every buffer size, every pair of encodings, every sequence of such calls on a handle",
"the tests use the streaming call almost exclusively; exactness of sizes, buffers around the exact size, inputs beyond the 4096-byte internal buffer and reuse after failure are not tested.",
["lib/iconv.c","lib/reiconv.cpp","include/cppp/reiconv.h.in"],
"reiconv_result_size, reiconv_convert_static_size, reiconv_convert, reiconv::convert")
p("C12","Handles are independent of each other, in one thread and across threads",
"The results of the operations on one handle depend only on that handle's own history: interleaving them with any operations on other handles, in the same thread or concurrently in other threads, changes nothing. Lookups and opening or closing handles are equally free of shared mutable state.",
["schedules","histories","configurations"],"every interleaving of operations on several handles and every thread schedule",
"no test uses two live handles at a time or more than one thread.",
["lib/iconv.c","lib/loop_unicode.h","lib/converters","lib/reiconv.cpp"],
"all mutable state lives in struct conv_struct; tables are const")
p("C13","Unrepresentable characters are substituted, counted and never silently lost",
"Without discarding, a character the target cannot represent is replaced by the target's encoding of U+FFFD and counted in the return value if the target can represent U+FFFD, and otherwise stops the conversion with EILSEQ in front of that character (and of a shift sequence directly before it) without any output for it. Tag characters U+E0000..U+E007F that the target cannot represent vanish without being counted; no other character ever vanishes, and a return value of 0 means that every character was converted exactly. The same rules govern a buffered character written by the final flush.",
["inputs","configurations"],"every character and every pair of encodings, at every position of a text and in the flush",
"the tests ignore conversions with nonzero return value and do not look at substitution at all.",
["lib/loop_unicode.h","lib/converters"],
"RET_ILUNI branch of unicode_loop_convert and unicode_loop_reset")
p("C14","All ways of opening a conversion select the same conversion",
"Opening by name, by iconv-style name, by code page and by index give handles with identical behaviour for the same encodings and flags, in the right direction (from, to). In the iconv-style call everything from the first '/' on is a suffix rather than part of the name, the suffix //IGNORE on the target or source, in any letter case, alone or as the last of several suffixes, turns discarding on, and a suffix without IGNORE turns nothing on. An unknown encoding name or code page on either side makes every variant fail with EINVAL, without crashing, for names of any length and content.",
["inputs","configurations"],"every pair of names/code pages/suffixes, every text as probe",
"tests open by exact listed names; suffix parsing, unknown names and equality of the resulting behaviour are not compared.",
["lib/iconv.c"],
"reiconv_open, reiconv_open_from_name, reiconv_open_from_codepage, reiconv_open_from_index")
p("C15","Shift-state encodings switch character sets exactly as their standards say",
"For the ISO-2022 family (JP, JP-1, JP-2, JP-3, JP-MS, CN, CN-EXT, KR) and HZ, every stream of escape, shift and data bytes decodes each data byte in the character set its preceding escape and shift sequences select, with invalid, unknown or premature sequences reported as invalid and truncated ones as incomplete. Encoding any text emits the shift sequences needed, no redundant ones, picks the character set by the documented preference, re-announces designations where line ends cancel them, and returns to the initial state on reset.",
["inputs","histories"],"every sequence of escape/shift/data bytes and every text, from every reachable shift state",
"one sample text per encoding is compared; the product of shift states, designations, line ends and error positions is out of reach of samples.",
["lib/converters/iso2022_jp.h","lib/converters/iso2022_jp1.h","lib/converters/iso2022_jp2.h","lib/converters/iso2022_jp3.h","lib/converters/iso2022_jpms.h","lib/converters/iso2022_cn.h","lib/converters/iso2022_cnext.h","lib/converters/iso2022_kr.h","lib/converters/hz.h"],
"istate/ostate packing of designations, SPLIT_STATE/COMBINE_STATE")
p("C16","Buffered and combining characters come out once, in order and composed",
"In encodings whose decoder or encoder must look ahead (CP1255, CP1258, TCVN, BIG5-HKSCS, EUC-JISX0213, SHIFT_JISX0213, ISO-2022-JP-3), a base character that may combine with its successor is held back and then written exactly once: composed with the next character when the two form a pair, otherwise separately and before it, or by the final flush. Two-character code points decode to both characters in order, even when output room runs out between them or an error follows.",
["inputs","histories"],"every sequence of base, combining and other characters, every chunking and window size, with flush or error at every point",
"one sample text per encoding; the combination of a held-back character with errors, tight windows, and flush is not tested.",
["lib/converters/cp1255.h","lib/converters/cp1258.h","lib/converters/tcvn.h","lib/converters/big5hkscs2008.h","lib/converters/euc_jisx0213.h","lib/converters/shift_jisx0213.h","lib/converters/iso2022_jp3.h","lib/loop_unicode.h"],
"istate/ostate holding a pending character; xxx_flushwc and xxx_reset")
p("C17","Memory is accounted for on every path, also when it runs out",
"Every block the library allocates is either handed to the caller or released: closing every handle leaves nothing behind, and a failed opening, a lookup or a C++ conversion leaves exactly as much as before. If any single allocation inside any call fails, that call reports failure (ENOMEM, or std::bad_alloc or std::system_error in C++) instead of crashing or returning a wrong result. The handle it was called on, if any, still works as if new afterwards.",
["crash_points","histories","inputs"],"every allocation of every call as the point of failure, every sequence of opening, converting, failing and closing",
"no test looks at memory or makes an allocation fail.",
["lib/iconv.c","lib/reiconv.cpp"],
"malloc/realloc/free in iconv.c (opening, parsing of iconv-style names, reiconv_convert), ownership of the buffer and handle in reiconv::convert")
p("C18","The published constants, headers and Encoding class denote the same encodings",
"Every published encoding constant has, in C and in C++, the published index, and a handle opened by that index converts as the encoding of that name. The Encoding class built from a name, code page or constant gives that same index, compares equal exactly for equal indices, and throws std::invalid_argument for what is not in the catalogue. A program written for iconv.h (iconv_open, iconv, iconv_close) gets the conversions, suffix handling, return values and errors that the library's own functions give; flags and version read the same in C and C++.",
["inputs","configurations"],"every constant, every encoding as source and target, every text and call sequence through iconv.h",
"the tests use names and the C functions only; the constants, the C++ class and iconv.h are not exercised.",
["lib/generated/indexes.h.shippet","lib/generated/indexes.hpp.shippet","include/iconv.h.in","include/cppp/reiconv.hpp.in","include/cppp/reiconv.h.in","lib/reiconv.cpp","lib/iconv.c"],
"enum constants, all_encodings order, iconv.h macros, reiconv::Encoding, reiconv_version")
p("C19","The catalogue tools derive names and constants exactly from a catalogue",
"From any catalogue of encodings, genaliases writes each declared name exactly once per declaration, in upper case, with its encoding and nothing else, and refuses a catalogue holding a name with non-ASCII characters. genindexes writes, for C and for C++, every encoding's constant with its position counted from 0 and every further constant with the one it stands for, and check-encodings fails exactly if some name contains a lower-case letter. Wrong arguments or an output file that cannot be written make a tool fail, and on the repository's own catalogue the result is exactly the published names and constants.",
["inputs","configurations"],"every catalogue: any number of encodings and names, any characters at any position of a name",
"no test runs the tools; they are run once by a developer on one catalogue and their output is committed.",
["tools/genaliases.cpp","tools/genindexes.cpp","tools/check-encodings.cpp","lib/encodings.h.snippet"],
"emit_alias/emit_encoding, DEFENCODING/DEFALIAS/DEFINDEX expansions of the tools; lib/encodings.h.snippet")
p("C20","The locale's character set is named as the platform defines it",
"Where the C library knows the character set of the locale, locale_charset returns exactly its answer; on macOS, Haiku, BeOS and Android it is UTF-8. Elsewhere the locale is the first of LC_ALL, LC_CTYPE and LANG that is set and not empty, or else the current LC_CTYPE locale, and the result is the published character set of that locale where one is published (FreeBSD), otherwise what follows the first '.' in its name, and UTF-8 if there is no '.'; on Windows it is the published name of the system (in console programs: console output) code page, ASCII for unknown pages, and a name never denotes the encoding of another supported page, the base standards named for 932, 949 and 950 apart. The C++ function returns the same text as the C function.",
["inputs","configurations"],"every combination of LC_ALL, LC_CTYPE, LANG (unset, empty, any text) and current locale, every code page, every platform branch",
"no test calls locale_charset, and only one platform branch would be compiled on any one machine.",
["lib/locale_charset.c","lib/locale_charset.cpp","lib/localecharset/lc_utils.h","lib/localecharset/locale_table.h","lib/localecharset/windows_getcp.h"],
"locale_charset, GET_LOCALE, binary search in locale_table, windows_getcp, reiconv::locale_charset")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
