"""Reference topic rules (MQTT 4.7), written level by level from the specification."""


def valid_filter(f):
  if not isinstance(f, str) or f == "" or "\0" in f or len(f.encode("utf-8")) > 65535:
    return False
  levels = f.split("/")
  for i, l in enumerate(levels):
    if "#" in l and (l != "#" or i != len(levels) - 1):
      return False
    if "+" in l and l != "+":
      return False
  return True


def valid_topic(t):
  return t != "" and "+" not in t and "#" not in t and "\0" not in t and len(t.encode("utf-8")) <= 65535


def share_of(f):
  "(share name, filter) of a shared subscription filter, or None"
  if f.startswith("$share/"):
    parts = f.split("/", 2)
    if len(parts) == 3 and parts[1] and parts[2] and "+" not in parts[1] and "#" not in parts[1]:
      return parts[1], parts[2]
    return ()
  return None


def matches(f, t):
  "plain (unshared) filter against a topic name, without the $ rule"
  fl, tl = f.split("/"), t.split("/")
  i = 0
  while True:
    if i == len(fl):
      return i == len(tl)
    if fl[i] == "#":
      return True          # also matches the parent level
    if i == len(tl):
      return False
    if fl[i] != "+" and fl[i] != tl[i]:
      return False
    i += 1


def subscribed(f, t):
  "does a subscription with this (unshared) filter receive messages published to topic t"
  if t.startswith("$") and f[0] in "+#":
    return False
  return matches(f, t)
