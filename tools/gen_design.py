"""Write DESIGN.md from the texts of the specs."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PLAIN = "all dimensions and signatures where the forms are identical, otherwise signature models up to dimension 8"
# bounds, why it reaches beyond the tests
MORE = {
    "C01": ("each precomputed table dimension on all index pairs; the untabled path for dimensions 7 to 63 on symbolic "
            "masks with bit patterns that reach every word position", "the tests use dimensions up to 8; tables, fallback "
            "and narrow shifts are compared at 63 bits here"),
    "C02": (PLAIN, "covers non-commuting coefficients (factor order), all four spellings and every storage; the tests "
            "multiply a few concrete multivectors of commuting coefficients"),
    "C03": (PLAIN + "; the recursive kernel by induction on the size", "both sides of the algorithm switch, non-commuting "
            "coefficients, operands unchanged"),
    "C04": (PLAIN, "every blade, mask and storage instead of sampled multivectors"),
    "C05": (PLAIN, "every blade and degenerate signatures; both compositions"),
    "C06": (PLAIN, "null generators, complex coefficients and factor order"),
    "C07": (PLAIN, "every impl block of every spelling is resolved and analysed, including the ones no test calls"),
    "C08": ("arbitrary 64-bit index, " + PLAIN, "indices outside the algebra, wrapped and narrowed indices"),
    "C09": ("every map store reached from a public operation", "cancellation in every operation, not just the tested ones"),
    "C10": ("input of arbitrary symbolic length and content; lengths 0 to dim+3 in the comparison", "wrong lengths, repeated "
            "indices, indices at the bound and beyond 32 bits"),
    "C11": ("arbitrary grade, list and predicate; grades beyond the dimension and beyond 32 bits", "the enumeration iterator "
            "is analysed as a transition system, for any state"),
    "C12": ("arbitrary signature, each storage pair and coefficient type", "every power of i and both number types"),
    "C13": ("arbitrary operands, partly equal and equal ones", "different stored sets with equal values, one-sided and "
            "non-finite differences of approx_eq"),
    "C14": ("closed forms by induction for all sizes; compared up to 2^8 coefficients", "wrong shapes of every kind, including "
            "empty and too large; the tests check square examples"),
    "C15": ("arbitrary signature with even or odd number of non-null generators, compared up to dimension 8", "several null "
            "generators together with odd dimensions"),
    "C16": ("arbitrary signature; product kernel by induction on the number of null generators", "every spelling, the sign "
            "of every null pair, shape of zero and one"),
    "C17": ("arbitrary signature, compared up to dimension 8", "three and more null generators"),
    "C18": ("all exponents (symbolic, 64 bits)", "exponents no test can reach"),
    "C19": ("closed forms by induction, compared up to side 16", "non-square and non-power-of-two shapes, all positions"),
    "C20": ("sides 1, 2, 4, 8 (16 in the thorough tier)", "pivots that vanish in an intermediate step only; a matrix found by "
            "chance does not meet them"),
    "C21": ("every accepted signature up to length 6 (8), patterned ones up to 63", "trait *absence* is decided, which no "
            "running test can observe"),
    "C22": ("all ill-ordered signatures up to length 6 (7), fixed sets of operand types, generic programs", "rejected programs "
            "cannot be part of a running test"),
    "C23": ("arbitrary algebra", "all masks and names, and trait absence for degenerate algebras"),
    "C24": ("arbitrary coefficients and labels, every storage and formatter flag", "every combination of sign, alternate flag "
            "and empty label"),
    "C25": ("arbitrary axis names, compared up to dimension 8", "null generators and order for every blade"),
    "C26": ("symbolic number of Euclidean generators and input length", "origin, ideal values and wrong lengths"),
    "C27": ("all three storages over both division algebras", "every spelling, non-commuting components"),
    "C28": ("every body of the crate", "a program without a race in a test may still contain one"),
    "C29": ("every panic site of about 290 operation/storage pairs, dimensions up to 7 in the satisfiability step", "panics "
            "need special shapes that random tests do not produce"),
}


def main():
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        pid = p["id"]
        out.append("### %s %s\n\n" % (pid, p["title"]))
        if pid in na:
            out.append("Not applicable: %s.\n\n" % na[pid])
            continue
        m = importlib.import_module("an.specs." + pid)
        b, why = getattr(m, "BOUNDS", None) or MORE[pid][0], getattr(m, "BEYOND", None) or MORE[pid][1]
        note = getattr(m, "NOTE", None)
        ev = os.path.join(ROOT, "evidence", pid + ".json")
        out.append("* Analysed: %s.\n* Rule (oracle): %s.\n* Bounds: %s.%s\n* Beyond the tests: %s.\n" % (
            m.EXPLAIN, m.RULE, b, " " + note[0].upper() + note[1:].rstrip(".") + "." if note else "", why))
        if os.path.exists(ev):
            e = json.load(open(ev))
            out.append("* Cost: about %d s.\n" % max(1, round(COST.get(pid, e["wall_s"]))))
        out.append("\n")
    tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
    rows = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        j = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.append("| `%s` | %s | %s | %s |" % (d, j["property"], j["needs"], j["what_it_breaks"].replace("|", "\\|")))
    fx = [l[7:].strip() for l in open(os.path.join(ROOT, "known_findings.txt")) if l.startswith("fixed:")]
    tail = tail.replace("@SEEDS@", "\n".join(rows)).replace("@FINDINGS@", "\n".join("* " + x for x in fx))
    out.append(tail)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))


COST = {"C21": 40, "C22": 50}
main()
