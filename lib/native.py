"""Watch calls into pixell's native modules (sys.monitoring) and sanitizer reports, so that a case's
evidence says which compiled functions it really ran, and a report is attributed to the case that caused it."""
import os, sys, re
counts = {}
def _ours():
    """The names of pixell's native modules"""
    import pixell
    return {f.split(".")[0] for f in os.listdir(os.path.dirname(pixell.__file__)) if f.endswith(".so")}
OURS = set()
_on = False
def _name(fn):
    t = type(fn)
    if t.__name__ == "fortran":
        return "fortran:" + (getattr(fn, "__doc__", "") or "?").strip().split("(")[0].split("=")[-1].strip()[:40]
    m = getattr(fn, "__module__", None) or ""
    if t.__name__ == "cython_function_or_method": return "cython:%s.%s" % (m.split(".")[-1], getattr(fn, "__name__", "?")) if m.split(".")[-1] in OURS else None
    if t.__name__ == "builtin_function_or_method":
        s = getattr(fn, "__self__", None); n = getattr(s, "__name__", "")
        if isinstance(n, str) and n.startswith("pixell."): return "cython:%s.%s" % (n[7:], fn.__name__)
    return None
def watch():
    global _on
    if _on: return
    OURS.update(_ours()); _on = True; mon = sys.monitoring; mon.use_tool_id(2, "pxcheck")
    cache = {}
    def call(code, off, fn, arg0):
        try:
            k = _name(fn)
        except Exception: k = None
        if k is None: return mon.DISABLE
        counts[k] = counts.get(k, 0)+1
    mon.register_callback(2, mon.events.CALL, call); mon.set_events(2, mon.events.CALL)
def snapshot(): return dict(counts)
def diff(old): return {k: v-old.get(k, 0) for k, v in counts.items() if v != old.get(k, 0)}

def san_new(prefix, pos):
    """New text in this process' sanitizer logs since pos {file: offset}"""
    text = ""
    d, b = os.path.split(prefix)
    for f in sorted(os.listdir(d)):
        if not f.startswith(b + ".") or not f.endswith(".%d" % os.getpid()): continue
        p = os.path.join(d, f); n = os.path.getsize(p)
        if n > pos.get(p, 0):
            with open(p, errors="replace") as fd: fd.seek(pos.get(p, 0)); text += fd.read()
            pos[p] = n
    return text
GENERATED = re.compile(r"\.pyx\.c|\.pyx\b|f2pywrappers|module\.c|fortranobject|\.pxd|numpy/")
def reports(text):
    """The reports that concern pixell's own code, as one-line summaries (most specific first)"""
    out = []
    for m in re.finditer(r"^(\S+?):(\d+)(?::\d+)?: runtime error: (.*)$", text, re.M):
        if GENERATED.search(m.group(1)): continue
        out.append("undefined behaviour in %s:%s: %s" % (os.path.basename(m.group(1)), m.group(2), m.group(3)))
    for block in re.split(r"={18,}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", block)
        if m:
            fr = re.findall(r"#\d+ (\S+) (\S+?):(\d+)", block); fr = [f for f in fr if "minigomp" not in f[1]]
            if not re.search(r"pixell/|tsan-[0-9a-f]+/|cython/|fortran/", block): continue
            out.append("%s: %s" % (m.group(1), " / ".join("%s %s:%s" % (f[0], os.path.basename(f[1]), f[2]) for f in fr[:2]))); continue
        m = re.search(r"ERROR: AddressSanitizer: (.*)", block)
        if m: 
            fr = re.findall(r"#\d+ \S+ in (\S+) (\S+?):(\d+)", block); out.append("%s %s" % (m.group(1)[:120], " / ".join("%s %s:%s" % (f[0], os.path.basename(f[1]), f[2]) for f in fr[:2])))
    return out
