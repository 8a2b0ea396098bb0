"""writes MANIFEST.json"""
import json
TV = "TLA+ specification (TLC): trace validation of recorded behaviours, "
T = {
 "C01": ("exhaustive name trie and code page sweep judged by Names.tla", "every one-byte extension of every prefix of every alias, all code pages in three integer ranges, random and boundary names"),
 "C02": ("whole decode tries of the table encodings judged by Sweep.tla/Codec.tla", "complete up to the longest code of each table; GB18030 four-byte space complete by linear index; rows behind every shift and designation state of the ISO-2022 family, HZ and EUC-TW"),
 "C03": ("all Unicode pages through every table encoder judged by Sweep.tla/Codec.tla", "every code point 0..0x10FFFF per table encoding, the BMP pages of the shift encodings, sampled larger values, tight windows"),
 "C04": ("decode rows, encode pages and streams of the Unicode formats judged by Codec.tla/Loop.tla", "boundary and sampled prefixes with all 256 continuations; sampled streams"),
 "C05": ("round trips of all characters and sampled texts judged by Sweep.tla/Relate.tla", "single characters complete for table encodings; exceptions allowed only where the specification itself does not round-trip"),
 "C06": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; chunked runs compared with the single call by Relate.tla", "sampled inputs, many splits including byte by byte"),
 "C07": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; runs under every window size compared with the ample run by Relate.tla; canaries and ASan", "sampled inputs, all small window sizes and sizes around the exact need"),
 "C08": ("each call's return value, errno, positions and bytes predicted by Loop.tla", "sampled malformed inputs on all encodings, exact buffers under ASan"),
 "C09": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; discarding runs predicted character by character by Loop.tla; discarding rows judged by Sweep.tla", "sampled malformed inputs and rows of all 256 bytes at sampled positions on all encodings"),
 "C10": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; resets in arbitrary histories predicted by Loop.tla", "sampled histories on all encodings, all small reset windows"),
 "C11": ("one-shot functions compared with the streamed run by Relate.tla", "sampled inputs, sizes around the exact result and the internal buffer"),
 "C12": ("interleaved and concurrent handle histories compared with solo runs by Relate.tla; TSan build", "sampled histories and schedules"),
 "C13": ("substitution classes of all characters judged by Sweep.tla, substituted streams by Loop.tla", "every code point per table encoding; sampled streams and flushes"),
 "C14": ("handles opened in every way compared by Relate.tla against the library's own lookups", "all encodings, sampled names, suffixes and code pages"),
 "C15": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; shift-state streams and decode rows in every shift state judged by Codec.tla/Loop.tla", "sampled streams, rows of 256 bytes behind sampled shift prefixes"),
 "C17": ("fault histories generated by Memory.tla (TLC) replayed with the k-th allocation failing; results and live block counts judged by Script.tla", "every allocation of every operation of the sampled histories of up to three operations, one or two handles"),
 "C18": ("constants, Encoding class and version judged by Sweep.tla; iconv.h programs predicted call by call by Loop.tla", "all 211 constants; sampled texts on all encodings"),
 "C19": ("runs of the tools on generated catalogues and on the repository's, judged by Tools.tla", "sampled catalogues with every ASCII character and boundary bytes in names; the repository's catalogue complete"),
 "C20": ("answers of locale_charset compiled for twelve platforms (stand-in platform headers), judged by Locale.tla", "all locale names of the published table with their prefixes and near misses, all combinations of unset, empty and set variables, code pages 0..70000, sampled names"),
 "C16": ("histories of Handle.tla (TLC, theorems checked) replayed into the library; held-back characters in every window/flush/error position predicted by Loop.tla", "all composing pairs of every table, sampled histories"),
}
M = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": TV + t, "level": "model_checking",
                 "level_note": "Conformance of the real library with the specification on: " + n + ". Assumes the frozen reference tables in spec/ref and the recording driver."}
                for p, (t, n) in T.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo: the driver uses the public API only. TLA+/TLC. See DESIGN.md."}
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
