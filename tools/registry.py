"""Which harnesses decide which property; `python3 tools/registry.py` rewrites MANIFEST.json."""
import json, os

ASSUMPTIONS = [
    "inputs outside the stated alphabets and bounds are not covered",
    "cppflow/TensorFlow is replaced by an environment model (stub/cppflow) whose answers the explorer chooses",
    "poppler, utf8proc, the C++ library and the compiler are trusted",
]
CHECKS = {}


def c(prop, bins, note, cli=False, assumptions=(), level="model_checking",
      technique="stateless model checking: exhaustive bounded enumeration on the real code against a reference model"):
    CHECKS[prop] = {"bins": bins, "note": note, "cli": cli, "assumptions": list(assumptions),
                    "level": level, "technique": technique}


c("P26", ["counter"], "All histories of insertions/overwrites and all queries up to the stated depth "
  "over a small value alphabet, against a multiset reference.")
c("P34", ["queue"], "All push/pop histories up to the stated depth for all small capacities and both "
  "element orders, against a sorted-list reference.")
c("P23", ["log"], "All histories of level/filter changes and messages up to the stated depth, output "
  "captured and compared with a reference logger.")

c("P27", ["geometry"], "All pairs (and triples, for orderings) of boxes on a grid, all rotations, and all values "
  "around the tolerances, against the definitions.")
c("P32", ["xycut"], "All sets of up to a few boxes on a grid, all thresholds and all answers of the choice "
  "function, against a reference that computes the gaps from the definition.")
c("P25", ["textutils"], "All strings over a critical alphabet up to a length, against references for each helper.")
c("P21", ["bpe"], "All words over a small alphabet, all small vocabularies and all orders of encoding, against "
  "a reference encoder.")
c("P04", ["words:fast"], "All sequences of glyphs with every position, size, rotation, writing mode and page break of an "
  "alphabet up to a length, against a reference that applies the word rules from scratch.")
c("P05", ["words"], "All sequences of letters and marks with all overlaps up to a length, against a reference merge.")
c("P06", ["segments:fast"], "All arrangements of words, images and shapes on a grid up to a size, against a reference of the "
  "documented cut rules, with partition and no-cross invariants.")
c("P07", ["lines:fast"], "All sets of words on a grid up to a size, all rotations and orders, against a reference that "
  "merges by the overlap rule.")
c("P08", ["lines:fast"], "All lines of glyphs with every size and base line offset of an alphabet, against the definition.")
c("P19", ["words:fast", "lines:fast"], "All multisets of glyphs, words and lines of an alphabet, including empty pages, against "
  "the definitions of the statistics.")
c("P30", ["words:fast"], "All sequences of operator and other words with all sizes and overlaps up to a length, against a "
  "reference merge.")
c("P31", ["lines:fast", "blocks:fast"], "All small arrangements of lines with all indents of an alphabet, against the definitions of the "
  "hierarchy, of the trim box and of the features of lines and blocks.")
c("P09", ["blocks:fast"], "All sequences of lines of an alphabet (distances, sizes, directions, figures, indents, capacity, "
  "labels, footnotes, fonts) up to a length, against a reference of the documented rules.")
c("P10", ["order:fast"], "All pages of text blocks, figures and shapes at positions, roles and rotations of an alphabet up to "
  "a number of elements, in all drawing orders, against a reference of primary cuts and recursive XY-cut.")
c("P20", ["order"], "All answers of the model (an environment model whose tensors the explorer chooses) for small documents, and all "
  "blocks of an alphabet of features and texts, against a reference of the input tensors and of the arg max.",
  assumptions=["the feature reference assumes the C locale, as the program runs in it"])
c("P11", ["serial:fast"], "All documents of a few lines of words of an alphabet in all divisions into blocks and pages, through the real "
  "module and serializers, against a reference that joins words by the rule.")
c("P12", ["serial"], "All small documents of plain, accented, joined and empty words, against a reference writer.")
c("P13", ["serial"], "All small documents with all roles and emphasis, against a reference writer.")
c("P14", ["serial"], "All selections of units and roles, all strings of critical characters and all combinations of critical numbers, "
  "with a strict JSON reader and a reference list of values.")
c("P15", ["serial"], "All 2^14 sets of roles and all small documents with all subsets of three roles, in all formats, against "
  "reference writers and the unfiltered output.")
c("P02", ["pdf:fast"], "All short sequences of text, matrix and graphics state operators, all combinations of page rotation, origin, "
  "transformation and text matrix, and forms and vertical writing, as real PDF files, against an interpreter of the PDF imaging model.")
c("P03", ["pdf:fast"], "All short programs of clips, paths, images, forms and text, and all images and paths at critical positions to a "
  "clip, against an interpreter of the PDF imaging model.")
c("P33", ["pdf"], "All names of the symbol table with all kinds of encodings and maps, and all ToUnicode maps to a few characters of an "
  "alphabet, as real PDF files.")
c("P01", ["pipeline:fast"], "All documents of up to a few text objects (words, scripts, accents, operators with limits, figures, table rows, "
  "hyphenated words, rotated texts, ...) at critical positions, sizes, rotations and pages through the whole pipeline; every glyph is traced.")
c("P29", ["pipeline:fast"], "The documents of P01; all references, boxes, links, ranks and page numbers of the result are checked.")
c("P28", ["pipeline"], "All truncations of three documents, all damages of one byte, all replacements of one number or reference by critical values, "
  "and all damages of the middle one of three pages, under the address sanitizer.")
c("P24", ["visual:fast"], "All sets of kinds of marks, and all kinds of marks on all kinds of objects, block arrangements, page rotations and origins; the written "
  "PDF is read back and its marks are matched one to one with the expected ones; all sizes up to which the file could be written.")

c("P16", ["command:fast"], "The real program with all critical file names below all kinds of directories, all lengths after which writing fails, and all obstacles "
  "to reading and writing; all files of its directory, both streams and the status are checked.", cli=True)
c("P17", ["command:fast"], "The real program with all options in all spellings and places, all pairs of options in all orders, lists of roles, all kinds of mistakes "
  "and help requests; streams, files, logs, marks and status are checked against the documented effects.", cli=True)

c("P18", ["repeat:fast"], "Documents with all kinds of objects, each execution in a process of its own: several layouts and contents of the memory, all log settings, "
  "all sets of skipped modules, all histories of documents processed before, and environments of the real program; all outputs are compared "
  "with those of the document alone.", cli=True)

c("P22", ["fonts", "fonts:fast"], "Small Type 1 fonts built from all short sequences of charstring operators, all numerals, all containers and all styles, read "
  "back through real PDF files and compared with an interpreter of the Type 1 format; all damages of one byte, all short charstrings and all "
  "critical lengths under the address sanitizer.")

NOT_APPLICABLE = []
HOOK_COMMITS = ["529b634"]


def manifest():
    import subprocess
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(v + "/properties.jsonl")]
    commits = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True,
                              text=True).stdout.strip() for h in HOOK_COMMITS]
    m = {"version": 1,
         "setup_cmd": "python3 tools/build.py " + " ".join(sorted({b for x in CHECKS.values() for b in x["bins"]} | {"cli:fast"})),
         "hooks": {"guard": "PPP_VERIF_FAST_LOG",
                   "enable": "tools/build.py compiles /repo's sources with -DPPP_VERIF_FAST_LOG",
                   "source_commits": commits},
         "checks": [], "not_applicable": NOT_APPLICABLE}
    for p in props:
        if p in CHECKS:
            x = CHECKS[p]
            m["checks"].append({
                "property": p, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p,
                "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                "evidence_file": "evidence/%s.json" % p, "technique": x["technique"],
                "level": x["level"], "level_note": x["note"]})
        elif p not in [n["property"] for n in NOT_APPLICABLE]:
            m["not_applicable"].append({"property": p, "reason": "not claimed yet: the check is being built"})
    with open(v + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    manifest()
