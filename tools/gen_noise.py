"""Writes spec/noise/<curve>.qnt from the published tables (run once, on the pinned tree)."""
import os, sys
from fractions import Fraction
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src/ripplegw/noise_resources"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "noise")
CURVES = [("aLIGO", "aLIGO", 1), ("ce", "ce", 1), ("et", "et", 1), ("aLIGOZeroDetHighPower", "aLIGOZeroDetHighPower", 0),
          ("O3a", "O3a_Livingston_ASD", 1), ("O2", "O2_ASD", 1)]


def exact(s, scale):
    if s == "inf":
        return 0                       # read as infinite
    v = Fraction(s) * scale
    assert v.denominator == 1, s
    return v.numerator


for i, (name, file, asd) in enumerate(CURVES):
    rows = [l.split() for l in open(os.path.join(SRC, file + ".dat")) if l.strip() and not l.startswith("#")]
    vs = 10 ** 44 if asd else 10 ** 66
    nums = [(exact(a, 10 ** 20), exact(b, vs)) for a, b in rows]
    assert all(0 < a < 10 ** 30 and 0 <= b < 10 ** 30 for a, b in nums)
    chunks = []
    for k in range(0, len(nums), 64):
        chunks.append(str(int("".join(str(x).zfill(30) for ab in reversed(nums[k:k + 64]) for x in reversed(ab)))))
    body = ",\n    ".join(chunks)
    open(os.path.join(OUT, name + ".qnt"), "w").write(f"""/// The published table of the {name} noise curve: rows of (frequency * 10^20, {'amplitude density * 10^44' if asd else 'power density * 10^66'}),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {{
  pure val CURVE = {i + 1}
  pure val ASD = {'true' if asd else 'false'}
  pure val ROWS = {len(nums)}
  pure val CHUNKS: List[int] = [
    {body}]
}}
""")
open(os.path.join(OUT, "LIGOI.qnt"), "w").write("""/// The first-generation curve is a formula: no table.
module noise_table {
  pure val CURVE = 0
  pure val ASD = false
  pure val ROWS = 1
  pure val CHUNKS: List[int] = [0]
}
""")
