from mc import fmt, enumr
VER = 5
BOUNDS = {"quick": {"packets": "product of small per-field alphabets with every wire boundary (see mc/fmt.py packets())"},
          "thorough": {"packets": "same with wider products"}}
ASSUMPTIONS = ["fields outside the boundary alphabets behave like their neighbours",
               "packets larger than about 2 MB are not enumerated"]


def case(p):
  return p["type"] + ("/%d" % p["rc"] if "rc" in p else ""), fmt.roundtrip(VER, p), 3


def run(ctx):
  enumr.enumerate_all(ctx, "packet round trips", fmt.packets(VER, wide=not ctx.quick), case)
  integers(ctx)


def integers(ctx):
  from mc import wire
  top = 2 ** 28 - 1
  ns = set()
  for b in (0, 127, 128, 16383, 16384, 2097151, 2097152, top):
    ns.update(n for n in range(b - 300, b + 300) if 0 <= n <= top)
  ns.update(range(0, 70000 if ctx.quick else 700000))
  M = fmt.M5 if VER == 5 else fmt.M3
  fh = None if VER == 5 else M.FixedHeaders(M.PUBLISH)
  enc = M.VBIs.encode if VER == 5 else fh.encode
  dec = M.VBIs.decode if VER == 5 else fh.decode

  def one(n):
    w = wire.vbi(n)
    if enc(n) != w:
      return "", "variable byte integer %d is encoded as %s" % (n, enc(n).hex()), 1
    if dec(w + b"\xff") != (n, len(w)):
      return "", "variable byte integer %s is decoded as %r" % (w.hex(), dec(w)), 1
    return "vbi%d" % len(w), None, 2
  enumr.enumerate_all(ctx, "variable byte integers", sorted(ns), one, chunk=2000)


def replay(what):
  if isinstance(what["case"], dict):
    err = fmt.roundtrip(VER, what["case"])
    print(err or "not reproduced")
    return 1 if err else 0
  print("see the error text")
  return 1
