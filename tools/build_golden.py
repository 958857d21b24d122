#!/usr/bin/env python3
"""Assembles harness/golden/gc.txt, the general category of every codepoint in every version
unicode-intervals bundles, from sources that have nothing to do with /repo. Not run by any check.

  17.0   Node's \\p{gc=..} (ICU 78), and Go 1.27's unicode package must agree
  16.0   regex-syntax 0.8.11's tables (surrogates added)
  15.1   ICU 74 u_charType
  15.0   Python 3.12's unicodedata, and Go 1.23's unicode package must agree
  14.0 and older   ICU 74: a codepoint whose age is at most the version has its 15.1 category,
         undoing the reassignments listed in REASSIGNED; any other is unassigned
  13.0   Java 17's Character.getType must agree with the line above

REASSIGNED are the changes of category between assigned categories recorded in the Unicode
Standard's version notes (Georgian Mkhedruli became lowercase in 11.0, and so on).
"""
import glob, json, os, re, subprocess, sys, tempfile, unicodedata

N = 0x110000
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "golden", "gc.txt")
VERSIONS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()
FULL = {"Close_Punctuation": "Pe", "Connector_Punctuation": "Pc", "Control": "Cc", "Currency_Symbol": "Sc",
        "Dash_Punctuation": "Pd", "Decimal_Number": "Nd", "Enclosing_Mark": "Me", "Final_Punctuation": "Pf",
        "Format": "Cf", "Initial_Punctuation": "Pi", "Letter_Number": "Nl", "Line_Separator": "Zl",
        "Lowercase_Letter": "Ll", "Math_Symbol": "Sm", "Modifier_Letter": "Lm", "Modifier_Symbol": "Sk",
        "Nonspacing_Mark": "Mn", "Open_Punctuation": "Ps", "Other_Letter": "Lo", "Other_Number": "No",
        "Other_Punctuation": "Po", "Other_Symbol": "So", "Paragraph_Separator": "Zp", "Private_Use": "Co",
        "Space_Separator": "Zs", "Spacing_Mark": "Mc", "Surrogate": "Cs", "Titlecase_Letter": "Lt",
        "Unassigned": "Cn", "Uppercase_Letter": "Lu"}
# (first version with the new category, codepoints, category before)
REASSIGNED = [
    ((11, 0), [*range(0x10D0, 0x10FB), 0x10FD, 0x10FE, 0x10FF], "Lo"),   # Georgian Mkhedruli: Lo -> Ll
    ((11, 0), [0x111C9], "Po"),                                          # Sharada sandhi mark: Po -> Mn
    ((11, 0), [0x11A07, 0x11A08], "Mc"),                                 # Zanabazar Square vowel signs: Mc -> Mn
    ((12, 0), [0x166D], "Po"),                                           # Canadian Syllabics chi sign: Po -> So
    ((12, 0), [0x1CF2, 0x1CF3], "Mc"),                                   # Vedic ardhavisarga: Mc -> Lo
    ((12, 0), [0xA9BD], "Mc"),                                           # Javanese keret: Mc -> Mn
    ((14, 0), [0x1734], "Mn"),                                           # Hanunoo pamudpod: Mn -> Mc
]


def run(cmd, **kw):
    return subprocess.run(cmd, check=True, capture_output=True, text=True, **kw).stdout


def node(d):
    js = r"""
const cats=process.argv[2].split(" ");
const rs=cats.map(c=>new RegExp("^\\p{gc="+c+"}$","u"));const out=[];
for(let i=0;i<0x110000;i++){const s=String.fromCodePoint(i);out.push(cats[rs.findIndex(r=>r.test(s))]);}
process.stdout.write(out.join("\n"));"""
    assert run(["node", "-p", "process.versions.unicode"]).strip() == "17.0"
    open(f"{d}/n.js", "w").write(js)
    return run(["node", f"{d}/n.js", " ".join(FULL.values())]).split("\n")


def go(d, tool, version):
    src = """package main
import ("fmt";"unicode";"os";"bufio")
func main(){ w:=bufio.NewWriter(os.Stdout); defer w.Flush()
if unicode.Version != "%s" { panic(unicode.Version) }
cats:=[]string{%s}
for i:=rune(0);i<0x110000;i++{ c:="Cn"; for _,k:=range cats { if unicode.Is(unicode.Categories[k],i){c=k;break} }; if i>0 {fmt.Fprint(w,"\\n")}; fmt.Fprint(w,c)}}
""" % (version, ",".join('"%s"' % c for c in FULL.values() if c != "Cn"))
    open(f"{d}/m.go", "w").write(src)
    return run([tool, "run", f"{d}/m.go"]).split("\n")


def icu(d):
    src = r"""
#include <unicode/uchar.h>
#include <stdio.h>
int main(){const char*n[]={"Cn","Lu","Ll","Lt","Lm","Lo","Mn","Me","Mc","Nd","Nl","No","Zs","Zl","Zp","Cc","Cf","Co","Cs","Pd","Ps","Pe","Pc","Po","Sm","Sc","Sk","So","Pi","Pf"};
for(int i=0;i<0x110000;i++){UVersionInfo v;u_charAge(i,v);printf("%s %d %d\n",n[u_charType(i)],v[0],v[1]);}}"""
    open(f"{d}/i.c", "w").write(src)
    run(["gcc", f"{d}/i.c", "-o", f"{d}/i", "-licuuc"])
    rows = [l.split() for l in run([f"{d}/i"]).splitlines()]
    return [r[0] for r in rows], [(int(r[1]), int(r[2])) for r in rows]


def java(d):
    names = {0: "Cn", 1: "Lu", 2: "Ll", 3: "Lt", 4: "Lm", 5: "Lo", 6: "Mn", 7: "Me", 8: "Mc", 9: "Nd", 10: "Nl", 11: "No",
             12: "Zs", 13: "Zl", 14: "Zp", 15: "Cc", 16: "Cf", 18: "Co", 19: "Cs", 20: "Pd", 21: "Ps", 22: "Pe", 23: "Pc",
             24: "Po", 25: "Sm", 26: "Sc", 27: "Sk", 28: "So", 29: "Pi", 30: "Pf"}
    open(f"{d}/J.java", "w").write("class J{public static void main(String[] a){StringBuilder b=new StringBuilder();"
                                   "for(int i=0;i<0x110000;i++)b.append(Character.getType(i)).append('\\n');System.out.print(b);}}")
    return [names[int(x)] for x in run(["java", f"{d}/J.java"]).split()]


def regex16():
    path = glob.glob("/root/.cargo/registry/src/*/regex-syntax-0.8.11/src/unicode_tables/general_category.rs")[0]
    s = open(path).read()
    assert "Unicode version: 16.0.0" in s

    def ch(t):
        t = t[1:-1]
        if t.startswith("\\u{"):
            return int(t[3:-1], 16)
        if t.startswith("\\"):
            return ord({"n": "\n", "t": "\t", "r": "\r", "'": "'", "\\": "\\", '"': '"', "0": "\0"}[t[1]])
        return ord(t)

    a = [None] * N
    a[0xD800:0xE000] = ["Cs"] * 0x800
    upper = {k.upper(): v for k, v in FULL.items()}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", s, re.S):
        if m[1] in upper:
            for x, y in re.findall(r"\(('(?:\\u\{\w+\}|\\.|.)'),\s*('(?:\\u\{\w+\}|\\.|.)')\)", m[2], re.S):
                for i in range(ch(x), ch(y) + 1):
                    assert a[i] is None
                    a[i] = upper[m[1]]
    assert None not in a
    return a


def main():
    with tempfile.TemporaryDirectory() as d:
        data = {"17.0.0": node(d), "16.0.0": regex16(), "15.0.0": [unicodedata.category(chr(i)) for i in range(N)]}
        assert unicodedata.unidata_version == "15.0.0"
        assert go(d, "go1.27", "17.0.0") == data["17.0.0"]
        assert go(d, "go1.23", "15.0.0") == data["15.0.0"]
        gc, age = icu(d)
        data["15.1.0"] = gc
        for v in VERSIONS[:8]:
            t = tuple(map(int, v.split(".")[:2]))
            a = [c if g != (0, 0) and g <= t else "Cn" for c, g in zip(gc, age)]
            for since, cps, before in REASSIGNED:
                for cp in cps:
                    if t < since and a[cp] != "Cn":
                        a[cp] = before
            assert v != "15.0.0" or a == data[v]
            data[v] = a
        assert java(d) == data["13.0.0"]
    with open(OUT, "w") as f:
        for v in VERSIONS:
            f.write(f"V {v}\n")
            last = None
            for i, c in enumerate(data[v]):
                if c != last:
                    f.write(f"{i:x} {c}\n")
                    last = c
    print(os.path.getsize(OUT))


main()
