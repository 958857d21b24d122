"""A stand-in for ucd-generate: general-category tables from DIR/extracted/DerivedGeneralCategory.txt.

VERIF_TOOL says how lines are laid out, or how to fail.
"""
import os
import signal
import sys

GROUPS = {"Cased_Letter": ("Lu", "Ll", "Lt"), "Letter": "L", "Mark": "M", "Number": "N", "Other": "C", "Punctuation": "P",
          "Separator": "Z", "Symbol": "S"}
NAMES = {"Cc": "Control", "Cf": "Format", "Cn": "Unassigned", "Co": "Private_Use", "Cs": "Surrogate", "Ll": "Lowercase_Letter",
         "Lm": "Modifier_Letter", "Lo": "Other_Letter", "Lt": "Titlecase_Letter", "Lu": "Uppercase_Letter", "Mc": "Spacing_Mark",
         "Me": "Enclosing_Mark", "Mn": "Nonspacing_Mark", "Nd": "Decimal_Number", "Nl": "Letter_Number", "No": "Other_Number",
         "Pc": "Connector_Punctuation", "Pd": "Dash_Punctuation", "Pe": "Close_Punctuation", "Pf": "Final_Punctuation",
         "Pi": "Initial_Punctuation", "Po": "Other_Punctuation", "Ps": "Open_Punctuation", "Sc": "Currency_Symbol",
         "Sk": "Modifier_Symbol", "Sm": "Math_Symbol", "So": "Other_Symbol", "Zl": "Line_Separator", "Zp": "Paragraph_Separator",
         "Zs": "Space_Separator"}
MAX = 0x10FFFF


def read(directory):
    owner = []
    with open(os.path.join(directory, "extracted", "DerivedGeneralCategory.txt")) as f:
        version = f.readline().split("-")[1].removesuffix(".txt\n")
        for line in f:
            line = line.split("#")[0].strip()
            if line:
                span, cat = (x.strip() for x in line.split(";"))
                a, _, b = span.partition("..")
                owner.append((int(a, 16), int(b or a, 16), cat))
    owner.sort()
    out = {c: [] for c in NAMES}
    at = 0
    for a, b, c in [*owner, (MAX + 1, MAX + 1, None)]:
        if a > at:
            out["Cn"].append((at, a - 1))
        if c:
            out[c].append((a, b))
        at = b + 1
    return version, out


def canonical(pairs):
    out = []
    for a, b in sorted(pairs):
        if out and out[-1][1] + 1 >= a:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def wrap(items, width, indent):
    """Items on lines of a width, never broken inside; one per line when the width is 0."""
    if width == 0:
        return "".join(f"{' ' * indent}{x},\n" for x in items)
    out, line = "", " " * indent
    for x in items:
        x += ", "
        if len(line) + len(x) > width and line.strip():
            out += line.rstrip() + "\n"
            line = " " * indent
        line += x
    return out + line.rstrip() + "\n"


def main():
    mode, _, layout = os.environ["VERIF_TOOL"].partition(":")
    args = sys.argv[1:]
    if mode == "fails":
        sys.stdout.write("pub const BY_NAME")
        sys.exit("cannot read the database")
    if mode == "dies":
        os.kill(os.getpid(), signal.SIGKILL)
    excluded, included, directory, command = set(), None, None, None
    while args:
        a = args.pop(0)
        if a.startswith(("--exclude", "--include")):
            value = a.split("=", 1)[1] if "=" in a else args.pop(0)
            value = {x.strip() for x in value.split(",")}
            if a.startswith("--exclude"):
                excluded |= value
            else:
                included = value
        elif a.startswith("-"):
            sys.exit(f"unknown option {a}")
        elif command is None:
            command = a
        else:
            directory = a
    if command != "general-category" or directory is None:
        sys.exit(f"unknown command {command}")
    version, by_cat = read(directory)
    tables = {NAMES[c]: canonical(v) for c, v in by_cat.items()}
    for g, cats in GROUPS.items():
        tables[g] = canonical([x for c in NAMES for x in by_cat[c] if (c in cats if isinstance(cats, tuple) else c[0] == cats)])
    tables = {n: tables[n] for n in sorted(tables) if n not in excluded and (included is None or n in included)}
    width = int(layout)
    indent = 4 if width == 0 else 2
    out = "// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:\n//\n"
    out += f"//   ucd-generate {' '.join(sys.argv[1:])}\n//\n// Unicode version: {version}.\n//\n"
    out += "// ucd-generate 0.3.1 is available on crates.io.\n\n"
    out += "pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &[\n"
    out += wrap([f'("{n}", {n.upper()})' for n in tables], width, indent) + "];\n"
    for n, pairs in tables.items():
        out += f"\npub const {n.upper()}: &'static [(u32, u32)] = &[\n" + wrap([f"({a}, {b})" for a, b in pairs], width, indent) + "];\n"
    if mode == "noisy":
        sys.stderr.write("warning: a line is longer than others\n" * 20_000)
    mode, _, end = mode.partition("-")
    sys.stdout.write(out[:len(out) * 2 // 3] if mode == "cut" else out)
    if mode in ("late", "cut"):
        sys.stdout.flush()
        if end.startswith("s"):
            os.kill(os.getpid(), int(end[1:]))
        print("something went wrong at the end", file=sys.stderr)
        os._exit(int(end))


main()
