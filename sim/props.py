import importlib, os, glob
ALL = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    for v in vars(m).values():
        if isinstance(v, type) and getattr(v, "id", None) and v.__module__ == m.__name__:
            ALL[v.id] = v()
