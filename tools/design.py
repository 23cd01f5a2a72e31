"""Rewrites section 3 of DESIGN.md from the checks, the tables of gen.py and
the evidence of the last full run (cost)."""
import ast, json, pathlib, re, textwrap

ROOT = pathlib.Path(__file__).resolve().parent.parent
ORACLE = {
    "P01": "decrypting with the real code what the real code encrypted; the "
           "block transform of each cipher is proved inverse by lockstep "
           "induction over the two generators.",
    "P02": "the transcript absorbed by the tag: two accepted sessions with "
           "equal tags have equal transcripts (A-IDEAL), and equal "
           "transcripts are proved to come from equal inputs.",
    "P03": "integer arithmetic on the two clock readings.",
    "P04": "the length formula written from the documented layout.",
    "P05": "concatenation: header ++ data fed == blocks sent ++ queue.",
    "P06": "the packets of an undamaged run of the same stream.",
    "P07": "a table of outcomes per (direction, registered, finalised).",
    "P08": "the documented sizes of every parameter.",
    "P09": "an independent encoder and parser of the documented format.",
    "P10": "equality of the two sets of arguments.",
    "P11": "positional arithmetic, and reading back what was written.",
    "P12": "the list the helper is documented to stand for.",
    "P13": "read-back; in small domains the full table of values.",
    "P14": "read-back of every field; a model of the counter.",
    "P15": "integer division of the instants.",
    "P16": "who is inside and who waits, by order of arrival.",
    "P17": "a table of states; a count of users per target.",
    "P18": "a plain dictionary.",
    "P19": "a map from paths to (content, permissions).",
    "P20": "the state machine of `checks/db_lib.py`.",
    "P21": "the state machine of `checks/db_lib.py`.",
    "P22": "equality of (kind, database, tag, file, associated data).",
    "P23": "equality of all parameters.",
    "P24": "the documented bounds and layout.",
    "P25": "the curve's own operations with the given arguments.",
    "P26": "the four conditions, computed from the files.",
    "P27": "positions computed from the keyed stream.",
    "P28": "the bytes absorbed by the pools.",
    "P29": "the function called directly.",
}


def doc(path):
    d = ast.get_docstring(ast.parse((ROOT / path).read_text())) or ""
    head, _, rest = d.partition("\n")
    return head.strip(), rest.strip("\n")


def main():
    ns = {}
    exec((ROOT / "tools/meta.py").read_text(), ns)
    out = []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        i = p["id"]
        n = i[1:]
        level, _, note = ns["CHECKS"][i]
        _, body = doc(f"checks/p{n}.py")
        out.append(f"### {i}  {p['title']}\n")
        if body:
            out.append("Contracts discharged:\n\n```\n"
                       + textwrap.dedent(body) + "\n```\n")
        else:
            names = sorted({re.sub(r"\[.*", "", x) for x in proofs(i)})
            out.append(wrap("Contracts discharged on: "
                            + ", ".join(f"`{x}`" for x in names) + "."))
        out.append(wrap(f"Level {level}. {note}"))
        out.append(wrap(f"Oracle: {ORACLE[i]}"))
        out.append(wrap(f"Beyond tests: {p['why_tests_cant']}"))
        out.append(cost(i))
    text = (ROOT / "DESIGN.md").read_text()
    a = text.index("## 3. Properties")
    b = text.index("## 4. ") if "## 4. " in text else len(text)
    new = text[:a] + "## 3. Properties\n\n" + INTRO + "\n" + "\n".join(
        out) + "\n" + text[b:]
    (ROOT / "DESIGN.md").write_text(new)


INTRO = """\
Every property is decided by contracts on the real code; none is left as not
applicable.  Each entry lists the families of obligations (one line per
family, for every input unless said otherwise), what remains bounded, the
oracle the postconditions and the replay compare with, why tests do not settle
it, and the cost of one quick run (8 cores, shared with nothing).  The case
lists of the bounded stand-ins are `cases()` in `checks/cXX.py`; their counts
are in the evidence (`bounded_standin`).
"""


def wrap(s):
    return textwrap.fill(s, 78, break_on_hyphens=False) + "\n"


def evidence(i):
    return json.loads((ROOT / f"evidence/{i}.json").read_text())


def proofs(i):
    return [x["name"] for x in evidence(i)["coverage"]["proofs"]]


def cost(i):
    e = evidence(i)
    c = e["coverage"]
    return (f"Cost: {c['obligations']} obligations, {c['paths']} paths, "
            f"{len(c['functions_under_contract'])} functions under contract, "
            f"{c['bounded_standin']['cases']} bounded cases, "
            f"{round(e['wall_s'])} s.\n")


if __name__ == "__main__":
    main()
