#!/usr/bin/env python3
"""Writes known_findings.json. Entries with 'fixed' suppress nothing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import subprocess
LOG = subprocess.run(["git", "-C", "/repo", "log", "--oneline"], capture_output=True, text=True).stdout.splitlines()
def h(text):
    return next(l.split()[0] for l in LOG if text in l)
F = [
 ("C02","1f38d53","handlers derived from one flash handler shared the backing arrays of prefix and groups: deriving two siblings with WithAttrs made the first log the attributes of the second"),
 ("C02","6a83b48","sloggy siblings made with WithGroup shared the array of group names: ReplaceAttr of the first was given the group of the second"),
 ("C01","fa489c1","sloggy handed one record to the destination in several unlocked Writes: concurrent records mixed, and a failing Write left half a line"),
 ("C07","4b54597","flash.NewHandler and sloggy.NewHandler wrote defaults into the options of the caller: a race when two handlers are made from the same options at once"),
 ("C04","cd2291d","WithAttrs with an attribute that can't be encoded left half of it in the prefix: every later line was invalid JSON"),
 ("C03","66157a0","flash logged levels other than the four standard ones with the wrong name (e.g. Info+1 as INFO, or an empty name)"),
 ("C03","5b0e701","flash wrote LogValuer results as strings or not at all, and left a dangling comma after an emptied group"),
 ("C03","6e089fe","sloggy quoted strings with Go syntax, which is not JSON (\\x00, \\a, \\U...)"),
 ("C03","fe7a4d5","flash: a string ending in a broken UTF8 sequence broke the line"),
 ("C03","ce961b7","flash and sloggy wrote group names unescaped"),
 ("C03","7bd8e3a","flash and sloggy wrote NaN and infinities as bare words, which is not JSON"),
 ("C03","c367c64","ReplaceAttr was called for groups, was not given the names of groups that are values of a record, and none at all for an attribute whose key is that of a basic field (a removed top-level time also vanished from groups)"),
 ("C03",h("context values of the caller"),"a caller's context value under the key \"deadGroup\" crashed Handle or moved attributes out of their group"),
 ("C03",h("escape what a configured time format"),"a time format with quotes or backslashes made every line of flash invalid"),
 ("C02",h("an empty group name on a group"),"WithGroup(\"\") on a logger with an open group gave a logger of another kind, and an error message"),
 ("C03",h("sloggy: separators are right"),"sloggy: when ReplaceAttr removed all basic fields, lines of derived loggers had a comma too many and one too few"),
 ("C03","19632d6","sloggy gave ReplaceAttr unresolved LogValuers"),
]
WEB = [
 ("C08","c62be1c","the Gin writer logged traffic lines at Info whatever the level in the options"),
 ("C08","4696423","traffic lines whose URL has spaces, quotes or the separator lost method or URL"),
 ("C11","8ee0eaa","warnings made after the first listing of their level were never listed; ByName read the map without the lock"),
 ("C12","41ca85b","handlers for a warning were listed in map order"),
 ("C12","b7131f3","asking for a warning not predefined left a nil entry in the manager, which later crashed the report"),
 ("C12","94c5736","the warnings of a source without a name replaced those of another"),
 ("C12","fd2142f","asking for the count of a warning no handler has crashed"),
 ("C12","465c8dd","warnings whose summary has brackets (StringAny) were filed under a wrong name"),
 ("C12","2282469","an empty line in a handler's report ended it"),
 ("C13","988aa2e","benchmark lines without -N suffix (GOMAXPROCS=1) were ignored"),
 ("C13","e03a6ab","views by handler had no GB/s and TB/s figures"),
 ("C13","58e7dbb","a log line before any warning crashed the parser"),
 ("C13","15277d4","warnings were filed under the level or warning of the handler before"),
 ("C14","0ee9e10","concurrent requests wrote the tag name caches: concurrent map writes"),
 ("C14","35df322","concurrent requests built the lists of Benchmarks at once"),
 ("C14","55367f0","concurrent requests built the lists of Warnings at once"),
 ("C14","9dd649a","the shared Markdown renderer keeps state: concurrent pages raced"),
 ("C18","02e77f6","scores were added up in the order of a map: their last digits, and ranks, differed from run to run"),
 ("C18","b3be4c0","averages made when first asked for: concurrent requests raced"),
 ("C18","f2b8406","the overview made when first asked for: concurrent requests raced"),
 ("C18","b59da57","a test in which no handler differs from another made scores NaN"),
 ("C18","4048ec0","handlers without any warning had no warning score"),
 ("C18","bf4a9b6","the filter for handlers without warnings used the tag instead of the name"),
 ("C18","3b045c1","unknown warnings did not count in the scores"),
 ("C13",h("show log lines that aren't JSON"),"log lines of warnings that aren't JSON were shown as nothing"),
 ("C16",h("escape the text of warnings"),"texts of warnings became markup of the warnings page"),
 ("C16",h("answer 400 to charts of unknown items"),"charts of unknown items or tags crashed the request"),
 ("C16",h("no panic for the score chart of an unknown keeper"),"the score chart of an unknown keeper crashed the request"),
 ("C16",h("no panic when the client of a text"),"a client that disconnected while a text was sent crashed the request"),
 ("C16",h("escape the contents of text files"),"texts and names from URLs became markup of the page"),
 ("C16",h("handlers of the same score are in the same order"),"handlers of equal score were in random order in charts"),
 ("C16",h("handlers without warnings are at their place"),"handlers without warnings were missing in score charts, or at the wrong place"),
 ("C16",h("score charts name handlers without warnings"),"handlers without warnings had another name in score charts"),
 ("C16",h("a text without a name is not found"),"a text without a name was answered with an error in a template, after half of the page"),
 ("C22",h("madkinsreplattr: no panic"),"the handler of madkinsreplattr crashed when made without options, which all other handlers of this repository accept"),
 ("C23",h("only count the contents of a"),"the members of an object named fields were counted at the top level however deep inside other objects it was"),
 ("C14","98121e9","handlers and tests with equal names were listed in random order"),
]
# Recorded, not repaired: (property, class, regexp for the detail, what fails)
HARD = [("levelLower","FnMulti"),("message","Basic FnMulti Group"),("emptyAttr","Basic FnMulti FnRemoveTime"),("noEmptyName","FnRemoveEmptyKey"),
 ("withGroupTop","FnMulti Group"),("siblings","FnMulti"),("source","Basic"),("caller","Basic"),("replGroup","FnMulti Group"),("groupMsgTop","Group")]
KNOWN = [("C19","declared-fails","^TestReplaceAttr%s fails for %s though it is declared$" % (t, d),
   "verify/tests/replace.go: TestReplaceAttr%s has no branch for the warning that stands for %s: it fails although that is declared with WarnOnly" % (t, d))
  for d, ts in HARD for t in ts.split()] + [
 ("C19","wrong-warning","^TimeSeconds is reported as TimeMillis$","verify/tests: TestLogAttributes reports times cut to seconds, declared as TimeSeconds, as TimeMillis"),
 ("C19","no-warning","^a handler with noNil \\(declared\\): no warning NoNilValue$","verify/tests: with NoNilValue declared, TestAttributeNil and TestAttributeWithNil expect the field to be missing but give no warning"),
 ("C19","no-warning","^a handler with groupMsgTop \\(declared\\): no warning GroupAttrInfoTop$","verify/tests/complex.go: with GroupAttrMsgTop declared, TestComplexCases expects what the handler does but gives no warning"),
 ("C19","failed","^TestTimestampFormat fails for .* (Year|Month|Day|expected: \\d+ actual : \\d+)","verify/tests/other.go: TestTimestampFormat compares the date of the line with the date after it was logged: it fails if midnight (UTC) passes in between"),
 ("C20","duplicates-missed","^no warning that a line of BenchmarkWithAttrs(Attributes|KeyValues) has a name twice \\(noDuplicates\\)$","bench/tests/checks.go: noDuplicates asks its FieldCounter for duplicates without calling Parse: the Duplicates warning is never given"),
 ("C20","group-missed","^no warning that a line of BenchmarkBigGroup lacks the group \\(bigGroupChecker\\)$","bench/tests/checks.go: bigGroupChecker accepts a line without the group"),
]
import subprocess
def main():
    out = []
    for p, c, m, w in KNOWN:
        out.append({"property": p, "class": c, "match": m, "what": w})
    for p, c, w in F + WEB:
        out.append({"property": p, "class": "", "match": "", "what": w, "fixed": "fixed: property=%s %s %s" % (p, c, w)})
    with open(V + "/known_findings.json", "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")
main()
