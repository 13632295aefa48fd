import itertools
from mc import malformed, enumr
BOUNDS = {"quick": "corpus of every packet type; all 1-byte replacements, truncations, deletions, insertions of 12 values, duplications, swaps; all packets of up to 4 body bytes over 7 values",
          "thorough": "as quick, plus all pairs of replacements over 12 values; all packets of up to 4 body bytes over 11 values"}
ASSUMPTIONS = ["a parser may also refuse what the specification makes a protocol error rather than a malformed packet "
               "(property value ranges, wildcards in topic names): either answer is accepted for those"]


def run(ctx):
  for ver, name in ((5, "MQTT 5"), (3, "MQTT 3.1.1")):
    def case(buf):
      o, e = malformed.verdict(ver, buf)
      return o, e, 1
    enumr.enumerate_all(ctx, name + " damaged packets", malformed.mutants(ver, not ctx.quick), case, what=lambda b: (ver, b), chunk=500)
    enumr.enumerate_all(ctx, name + " short packets", malformed.small(not ctx.quick), case, what=lambda b: (ver, b), chunk=2000)


def replay(what):
  o, e = malformed.verdict(*what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
