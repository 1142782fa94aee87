"""Runs a list of steps against the real Python module; prints one JSON document.
Sessions in threads hand over to each other only at callbacks, in an order drawn from a seed."""
import json, os, sys, threading

sys.path.insert(0, sys.argv[1])
import disc_riider_py as m

doc = json.load(open(sys.argv[2]))
_stat, _scandir = os.stat, os.scandir


class Baton:
    def __init__(self, seed, n):
        self.s, self.cv, self.alive, self.turn = seed, threading.Condition(), set(range(n)), None
        self.trace = []

    def pick(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        a = sorted(self.alive)
        self.turn = a[(self.s >> 33) % len(a)] if a else None
        self.trace.append(self.turn)
        self.cv.notify_all()

    def wait(self, me):
        with self.cv:
            while self.turn != me:
                self.cv.wait()

    def hand_over(self, me):
        with self.cv:
            self.pick()
            while self.turn != me:
                self.cv.wait()

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            self.pick()


def total(dest):
    n = 0
    stack = [dest]
    while stack:
        with _scandir(stack.pop()) as it:
            for e in it:
                if e.is_dir(follow_symlinks=False):
                    stack.append(e.path)
                else:
                    n += e.stat(follow_symlinks=False).st_size
    return n


def use_own(own, elsewhere):
    inner = []
    for g in (lambda: own.prepare_extract_section("DATA"), lambda: own.get_dol_hash("DATA"),
              lambda: own.extract_to(elsewhere, None), lambda: own.test_print(),
              lambda: own.remove_files_by_callback("DATA", lambda p: True)):
        try:
            g()
            inner.append("done")
        except Exception as e:
            inner.append("refused")
        except BaseException as e:
            inner.append("crash: " + type(e).__name__)
    return inner


class Session:
    def __init__(self, baton=None, me=None):
        self.objs, self.baton, self.me, self.out = {}, baton, me, []

    def callback(self, cb, rec, own, watch):
        mode = cb.get("mode", "plain")
        if mode == "none":
            return None
        state = {"n": 0, "seen100": False}

        def f(v):
            rec["progress"].append(v)
            k = state["n"]
            state["n"] += 1
            if v == 100 and watch and not state["seen100"]:
                state["seen100"] = True
                try:
                    rec["at100"] = total(watch)
                except Exception:
                    rec["at100"] = None
            if self.baton:
                self.baton.hand_over(self.me)
            if k == cb.get("at", 0):
                if mode == "nested":
                    s = Session()
                    for st in cb["steps"]:
                        s.step(st)
                    rec["nested"] = s.out
                elif mode == "reenter" and own is not None:
                    rec["inner"] = use_own(own, cb["elsewhere"])
            if mode == "raise" and k >= cb.get("at", 0):
                raise ValueError("callback")
            if mode == "exit" and k == cb.get("at", 0):
                raise KeyboardInterrupt()
            return object()

        return f

    def step(self, st):
        rec = {"op": st["op"], "progress": []}
        self.out.append(rec)
        op = st["op"]
        try:
            if op == "open":
                self.objs[st["id"]] = m.WiiIsoExtractor(st["path"])
            elif op == "prepare":
                self.objs[st["id"]].prepare_extract_section(st["section"])
            elif op == "dol_hash":
                h = self.objs[st["id"]].get_dol_hash(st["section"])
                rec["value"] = bytes(h).hex()
            elif op == "remove":
                rm = set(st["paths"])
                asked = []
                mode = st.get("mode", "plain")

                def cb(p):
                    asked.append(p)
                    if self.baton:
                        self.baton.hand_over(self.me)
                    if len(asked) - 1 == st.get("at", -1):
                        if "steps" in st:
                            n = Session()
                            for x in st["steps"]:
                                n.step(x)
                            rec["nested"] = n.out
                        if "elsewhere" in st:
                            rec["inner"] = use_own(self.objs[st["id"]], st["elsewhere"])
                    if p in rm:
                        return {"plain": True, "one": 1, "text": "x", "raise": True}[mode]
                    if mode == "raise" and len(asked) % 2:
                        raise ValueError("selection")
                    return {"plain": False, "one": 0, "text": "", "raise": None}[mode]

                self.objs[st["id"]].remove_files_by_callback(st["section"], cb)
                rec["asked"] = asked
            elif op == "extract":
                o = self.objs[st["id"]]
                o.extract_to(st["dest"], self.callback(st.get("cb", {}), rec, o, st.get("watch")))
            elif op == "rebuild":
                m.rebuild_from_directory(st["src"], st["dest"], self.callback(st.get("cb", {}), rec, None, None))
            elif op == "close":
                self.objs.pop(st["id"], None)
            elif op == "print":
                self.objs[st["id"]].test_print()
            rec["ok"] = True
        except Exception as e:
            rec["ok"] = False
            rec["type"] = type(e).__name__
            rec["msg"] = str(e)
        except BaseException as e:
            rec["ok"] = False
            rec["crash"] = type(e).__name__
            rec["msg"] = str(e)


def run_thread(s, steps):
    s.baton.wait(s.me)
    for st in steps:
        s.step(st)
        s.baton.hand_over(s.me)
    s.baton.done(s.me)


res = {}
if "threads" in doc:
    b = Baton(doc.get("baton", 1), len(doc["threads"]))
    ss = [Session(b, i) for i in range(len(doc["threads"]))]
    ts = [threading.Thread(target=run_thread, args=(s, st)) for s, st in zip(ss, doc["threads"])]
    for t in ts:
        t.start()
    with b.cv:
        b.pick()
    for t in ts:
        t.join()
    res["threads"] = [s.out for s in ss]
    res["order"] = b.trace
else:
    s = Session()
    for st in doc["steps"]:
        s.step(st)
    res["steps"] = s.out
sys.stdout.flush()
b = ("\n" + json.dumps(res) + "\n").encode()
while b:
    b = b[os.write(1, b):]
os._exit(0)
