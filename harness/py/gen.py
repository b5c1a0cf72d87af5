"""Runs the configuration scripts of the code under test in the current directory: gen.py REPO KIND ARGS...; several requests are separated by '--'."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__)); repo = sys.argv[1]
sys.path.insert(0, os.path.join(here, "standin")); sys.path.insert(0, os.path.join(repo, "utils", "python"))
sys.dont_write_bytecode = True
import numpy as np
import runpy


def comps(names, cfg):
    import config
    for n in names.split(","): cfg.addComponent(config.Empty() if n == "empty" else config.PipeHub() if n == "pipe-hub" else config.ObjectInSpace(n))


def box(nx, ny, px, py, names):
    import box_channel_config as b
    c = b.BoxChannelConfig(int(nx), int(ny), [px == "1", py == "1"]); comps(names, c); return c


def chain(start):
    import channel_config as k
    return k.ChannelConfig(start)


def program(name, *args):
    old = sys.argv; sys.argv = [name] + list(args)
    try: runpy.run_path(os.path.join(repo, "utils", "python", name), run_name="__main__")
    finally: sys.argv = old


def run(kind, a):
    if kind == "box":           # nx ny px py names seq file ... : several files from one object with its state kept
        c = box(*a[:5])
        for w in a[5].split(","):
            m, l = w.split(":"); c.addMesh(int(m), int(l))
        c.close(); c.save(a[6])
        if a[7] == "1": c.save(a[6] + ".again")
    elif kind == "boxrand":     # nx ny px py names seed n file
        np.random.seed(int(a[5])); c = box(*a[:5])
        for k in range(int(a[6])): c.CreateRandomConfig("%s.%d" % (a[7], k))
    elif kind == "boxall":      # nx ny px py names prefix offset
        c = box(*a[:5]); c.prefix = a[5]; print("COUNT", c.GenerateAllConfigs(int(a[6])))
    elif kind == "chain":       # start choices file
        c = chain(a[0])
        for w in a[1].split(","):
            f, l = c.getAvailableFaces(); print("CHOICES", len(l)); c.addMesh(0, l[int(w) % len(l)])
        c.close(); c.save(a[2])
    elif kind == "chainrand":   # start extension seed n file
        np.random.seed(int(a[2])); c = chain(a[0])
        for k in range(int(a[3])): c.CreateRandomConfig(int(a[1]), "%s.%d" % (a[4], k))
    elif kind == "chainall":    # start extension prefix offset
        c = chain(a[0]); c.prefix = a[2]; print("COUNT", c.GenerateAllConfigs(int(a[1]), int(a[3])))
    elif kind == "ports":       # names, then c1 c2 f1 f2 ...
        import config
        c = config.Configuration(); comps(a[0], c); q = a[1:]
        for k in range(0, len(q), 4):
            c.appendRefPort(q[k], q[k + 1], int(q[k + 2]), int(q[k + 3])); print("PORT", c.getRefPort(q[k], q[k + 1], int(q[k + 2]), int(q[k + 3])), c.getRefPort(q[k + 1], q[k], int(q[k + 3]), int(q[k + 2])), len(c.ports))
    elif kind == "lattice":     # form nx ny wh wv lh lv names file
        import linelast_comp_base as b, h5py
        nx, ny = int(a[1]), int(a[2]); g = [float(x) for x in a[3:7]]
        d = {"nu_mxn": lambda: b.cw_generate_nu_mxn(nx, ny, *g), "nu_1x1": lambda: b.cw_generate_nu_1x1(*g), "mxn": lambda: b.cw_generate_mxn(nx, ny, g[0], g[2]), "1x1": lambda: b.cw_generate_1x1(g[0], g[2])}[a[0]]()
        n, t, m, i, bd, cc = d
        if len(a) > 9:
            import linelast_cwtrain as w
            bd = w.PermuteBdrData(bd, int(a[9]))
        with h5py.File(a[8], "w") as f: b.Configure2DLatticeComponent(f, a[7].split(","), cc, n, t, m, i, bd)
    elif kind == "program": program(a[0], *a[1:])
    elif kind == "sample":      # function args
        import sample_comp as s
        getattr(s, a[0])(*[int(x) for x in a[1:]])
    elif kind == "shift":       # number path
        import linelast_cwtrain as w
        w.shift_mesh_battrs(int(a[0]), a[1])
    else: raise SystemExit("unknown request " + kind)


req = [[]]
for w in sys.argv[2:]:
    if w == "--": req.append([])
    else: req[-1].append(w)
for q in req: run(q[0], q[1:])
print("DONE")
