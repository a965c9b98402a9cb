import sys, time
import registry, symrun, build
t = time.time()
hs = [h for p in registry.PROPS.values() for t_, h in p._h if h.engine == "symx"]
n = symrun.prepare(hs)
print("bitcode: %d compiled, %.0fs" % (n, time.time() - t))
with build.Lock():
    build.build_gen()
    seen, items = set(), []
    for h in hs:
        for i in h.items(native=True):
            k = repr(i)
            if k not in seen:
                seen.add(k)
                items.append(i)
    outs, n = build.compile_all(items, "nat")
print("native: %d compiled, %.0fs" % (n, time.time() - t))
done = set()
for h in hs:
    k = (h.src, tuple(h.flags), tuple(h.tu_list()))
    if k not in done:
        done.add(k)
        symrun.native_exe(h)
print("executables: %.0fs" % (time.time() - t))
