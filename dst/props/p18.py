"""P18: the scheduler window edits its schedule, and shows it."""

from __future__ import annotations

import copy
import io
import math
import os
import shutil
import sys
import tempfile
from contextlib import redirect_stdout

from dst import boot, edits, machine, sched
from dst.core import InvalidTrace, Violation
from dst.disk import Disk, SimCrash

EPISODES = {"quick": 1500, "thorough": 40000}
RULE = (
    "one run = one window on a random schedule and a history of mouse, menu and file events, some lost, "
    "interleaved or failing; distinct = distinct trace in which an operation was dragged to another time"
)
REAL = ["b_asic.scheduler_gui: window, scene, event filters, items", "Qt event dispatch (offscreen)",
        "b_asic.schedule.Schedule"]
STUB = ["display (Qt's offscreen platform)", "the user: mouse events, context menu and dialog answers",
        "disk under /simdisk", "settings file (scratch directory)"]
ASSUMPTIONS = ["one window per process", "a mouse button that went down comes up before the next one is pressed,"
               " unless the event is lost"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (start times, laps, period, rows) after each event"

NAMES = ["/simdisk/a.bsc", "/simdisk/b.bsc"]
FILE_FAULTS = ["disk-full", "write-error", "open-fails"]
IDLE = ["menu", "menu", "menu", "reorder", "rot_f", "rot_b", "res_up", "res_down", "time", "time", "time",
        "toggle", "zoom", "wheel", "save", "save_as", "open_file", "plot", "reopen", "info", "close"]

_scratch = None
_app = None
_problems: list = []


def setup():
    """A Qt application of its own, with settings in a scratch directory."""
    global _scratch, _app
    _scratch = tempfile.mkdtemp(prefix="dst-gui-")
    os.environ["HOME"] = os.environ["XDG_CONFIG_HOME"] = os.environ["XDG_RUNTIME_DIR"] = _scratch
    from qtpy.QtCore import QSettings, qInstallMessageHandler
    from qtpy.QtWidgets import QApplication

    qInstallMessageHandler(lambda *a: None)
    QSettings.setPath(QSettings.Format.NativeFormat, QSettings.Scope.UserScope, _scratch)
    _app = QApplication.instance() or QApplication(["dst"])
    from b_asic.scheduler_gui import main_window  # noqa: F401  (its logger sets a hook of its own)

    sys.excepthook = lambda t, e, tb: _problems.append(e)


def teardown():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def generate(rng, index, tier):
    g = sched.random_timed(rng, rng.randint(1, 7), delay_prob=0.35, sink_prob=0.2)
    t = {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.choice([0, 0, 2, 5]), 0),
        "zoom": rng.choice([1, 1, 1, 0.5, 1.7]),
        "evs": [],
    }
    n = len(g["spec"]["nodes"])
    for _ in range(rng.randint(1, 9)):
        if rng.random() < 0.6:
            t["evs"].append(gen_drag(rng, n))
        else:
            t["evs"].append(gen_idle(rng, n))
    return t


def gen_drag(rng, n):
    ev = {"op": "drag", "node": rng.randrange(n), "path": [], "how": rng.choice(["ok"] * 8 + ["double", "lost", "right", "act"])}
    kind = rng.choice(["aim", "aim", "walk", "row"])
    if kind == "aim":
        ev["aim"] = rng.random().__round__(3)
        ev["row"] = rng.choice([0, 0, 0, 1, -1, 2, 0.5, -0.5])
        ev["over"] = rng.choice([0, 0, 0, 1, 3])
    else:
        x = y = 0.0
        for _ in range(rng.randint(1, 8)):
            if kind == "walk":
                x += rng.choice([-1, 1, -0.6, 0.6, 1.4, -1.4, 3, -3, 0.3])
            y += rng.choice([0, 0, 0, 0.5, -0.5, 1, -1, 1.25, -2.5])
            ev["path"].append([round(x, 2), round(y, 2)])
    if ev["how"] == "act":
        ev["act"] = gen_idle(rng, n)
        ev["when"] = rng.randint(0, 4)
    return ev


def gen_idle(rng, n):
    op = rng.choice(IDLE)
    ev = {"op": op, "node": rng.randrange(n), "x": rng.randint(0, 7)}
    if op in ("save", "save_as", "open_file"):
        ev["name"] = rng.randrange(3)  # the third is: cancelled
        ev["fault"] = {"k": rng.choice(FILE_FAULTS), "at": rng.choice([0, 1, 100, 1000, 3000])} \
            if rng.random() < 0.4 else None
        ev["damage"] = {"k": rng.choice(["cut", "cut", "zero"]), "at": rng.randrange(5000)} \
            if op == "open_file" and rng.random() < 0.4 else None
    return ev


class Menu:
    """Stands in for a popup menu: the user picks one entry."""

    pick = 0
    shown: list = []

    def __init__(self, *a):
        self.actions_ = []

    def addAction(self, a):
        self.actions_.append(a)

    def addSeparator(self):
        pass

    def exec_(self, *a):
        Menu.shown = [(a.text(), a.isEnabled()) for a in self.actions_]
        if Menu.pick < len(self.actions_) and self.actions_[Menu.pick].isEnabled():
            Menu.chosen = self.actions_[Menu.pick].text()
            self.actions_[Menu.pick].trigger()

    chosen = None


class Gui:
    def __init__(self, trace, schedule, cov, disk):
        from b_asic.scheduler_gui import main_window, operation_item
        from qtpy.QtCore import QSettings

        self.cov, self.disk = cov, disk
        self.mw = main_window
        QSettings().clear()
        _problems.clear()
        operation_item.QMenu = Menu
        self.names = {}
        self.out = io.StringIO()
        self.w = main_window.ScheduleMainWindow()
        self.w._execution_time_plot_dialogs.clear()
        self.w.resize(700, 600)
        self.commands: list[str] = []
        self.failed = None
        self.held: set = set()
        self.rows_logged = True
        self.settle("window")
        before = edits.snapshot(schedule)
        self.original = schedule
        self.original_state = before
        self.call(lambda: self.w.open(schedule), "open")
        self.w.show()
        if trace["zoom"] != 1:
            self.w.view.scale(trace["zoom"], trace["zoom"])
        self.settle("open")
        self.start_log()

    def start_log(self):
        self.commands = []
        self.rows_logged = True
        self.base = copy.deepcopy(self.w.schedule) if self.w.schedule is not None else None

    # Delivering events -----------------------------------------------------------------
    def call(self, f, what):
        buf = io.StringIO()
        with redirect_stdout(buf):
            try:
                f()
            except SimCrash:
                raise
            except Exception as e:  # a slot that Qt would have called
                _problems.append(e)
        for line in buf.getvalue().splitlines():
            if line.startswith("schedule."):
                self.commands.append(line)
                self.cov.log("command", line)
        self.settle(what)

    def settle(self, what):
        _app.processEvents()
        if _problems:
            e = _problems[0]
            _problems.clear()
            if isinstance(e, OSError) and "injected" in str(e):
                self.failed = e  # goes to the log, as Qt has nobody to tell
                return
            if what == "open_file":
                self.failed = e
                return
            from dst.core import lib_frames, unexpected

            if not lib_frames(e):
                raise e
            raise unexpected(what, e)

    def mouse(self, kind, scene, button, what):
        from qtpy.QtCore import QEvent, QPointF, Qt
        from qtpy.QtGui import QMouseEvent

        vp = self.w.view.viewport()
        pos = self.w.view.mapFromScene(scene)
        b = {"left": Qt.MouseButton.LeftButton, "right": Qt.MouseButton.RightButton}[button]
        none = Qt.MouseButton.NoButton
        if kind == "press" or kind == "double":
            self.held.add(b)
        elif kind == "release":
            self.held.discard(b)
        held = none
        for h in self.held:
            held |= h
        t = {
            "press": QEvent.Type.MouseButtonPress,
            "double": QEvent.Type.MouseButtonDblClick,
            "move": QEvent.Type.MouseMove,
            "release": QEvent.Type.MouseButtonRelease,
        }[kind]
        btn = none if kind == "move" else b
        ev = QMouseEvent(t, QPointF(pos), QPointF(vp.mapToGlobal(pos)), btn, held, Qt.KeyboardModifier.NoModifier)
        self.call(lambda: _app.sendEvent(vp, ev), what)
        self.cov.step()

    # What is on the screen --------------------------------------------------------------
    @property
    def s(self):
        return self.w.schedule

    def item(self, gid):
        return self.w._graph._operation_items[gid]

    def centre(self, item):
        return item.mapToScene(item._latency_item.boundingRect().center())

    def shown(self, item):
        """The cycle at which an item is drawn."""
        from b_asic.scheduler_gui._preferences import SCHEDULE_INDENT

        x = item.x() - SCHEDULE_INDENT
        if abs(x - round(x)) > 1e-6:
            raise Violation("drawn-off-grid", f"{item.graph_id} at {x}", "x")
        return round(x)

    def check(self, what):
        s = self.s
        if s is None:
            if self.w._graph is not None or [i for i in self.w._scene.items() if type(i).__module__.startswith("b_asic")]:
                raise Violation("closed-but-shown", "", what)
            return
        p = machine.read(s)
        try:
            machine.check_times(p)
        except Violation as v:
            if v.kind == "negative-laps" and v.key == "late-input":
                raise InvalidTrace from None  # P02 knows of it
            raise
        g = self.w._graph
        if g.schedule is not s:
            raise Violation("shows-another-schedule", "", what)
        if set(g._operation_items) != set(s.start_times):
            raise Violation("drawn-operations-differ", f"{sorted(g._operation_items)}", what)
        from b_asic.scheduler_gui._preferences import OPERATION_GAP, OPERATION_HEIGHT

        for gid, t in s.start_times.items():
            it = self.item(gid)
            at = self.shown(it)
            if at != t:
                raise Violation("drawn-at-another-time", f"{gid} starts at {t}, drawn at {at} (T={s.schedule_time})",
                                f"{what}:{it.operation.type_name() in ('out', 'sink')}")
            y = OPERATION_GAP + s.get_y_location(gid) * (OPERATION_HEIGHT + OPERATION_GAP)
            if abs(it.y() - y) > 1e-6:
                raise Violation("drawn-in-another-row", f"{gid}: row {s.get_y_location(gid)} is at {y}, drawn at"
                                f" {it.y()}", what)
        ys = [s.get_y_location(x) for x in s.start_times]
        if any(y != int(y) or y < 0 for y in ys):
            raise Violation("row-not-whole", f"{ys}", what)
        if g.axes.width != s.schedule_time or self.axis_end() != s.schedule_time:
            raise Violation("axis-differs", f"axis {g.axes.width}/{self.axis_end()}, period {s.schedule_time}", what)
        self.check_lines(what)
        self.check_table(what)

    def axis_end(self):
        from b_asic.scheduler_gui._preferences import SCHEDULE_INDENT

        a = self.w._graph.axes
        ticks = [round(i.x() - SCHEDULE_INDENT, 3) for i in a._x_ledger]
        if ticks != list(range(len(ticks))):
            raise Violation("axis-ticks", f"{ticks}", "axis")
        labels = [i.text() for i in a._x_scale_labels]
        if labels != [str(i) for i in range(len(labels))]:
            raise Violation("axis-labels", f"{labels}", "axis")
        return round(a._x_ledger[-1].x() - SCHEDULE_INDENT)

    def check_lines(self, what):
        g = self.w._graph
        seen = {}
        for it in g._get_all_signals():
            seen[it._signal.graph_id] = it
        want = {}
        for gid, op in machine.live_ops(self.s).items():
            for q in op.outputs:
                for sig in q.signals:
                    want[sig.graph_id] = (op, q.index, sig.destination.operation, sig.destination.index)
        if set(seen) != set(want):
            raise Violation("lines-differ", f"{sorted(set(seen) ^ set(want))}", what)
        for k, it in seen.items():
            src, o, dst, i = want[k]
            a = self.item(src.graph_id).get_port_location(f"out{o}")
            b = self.item(dst.graph_id).get_port_location(f"in{i}")
            path = it.path()
            e0, e1 = path.elementAt(0), path.elementAt(path.elementCount() - 1)
            if abs(a.x() - self.right()) < 1e-6 and path.elementCount() == 1:
                continue  # from the right edge to the left edge
            at_edge = abs(a.x() - self.right()) < 1e-6  # nothing to draw up to the edge
            if (max(abs(e0.x - a.x()), abs(e0.y - a.y())) > 1e-6 and not at_edge) \
                    or max(abs(e1.x - b.x()), abs(e1.y - b.y())) > 1e-6:
                raise Violation("line-not-at-port", f"{src.graph_id}.out{o} -> {dst.graph_id}.in{i}: "
                                f"({e0.x:.2f},{e0.y:.2f})-({e1.x:.2f},{e1.y:.2f}), ports at ({a.x():.2f},{a.y():.2f})"
                                f"-({b.x():.2f},{b.y():.2f})", what)

    def right(self):
        from b_asic.scheduler_gui._preferences import SCHEDULE_INDENT

        return self.s.schedule_time + SCHEDULE_INDENT

    def check_table(self, what):
        t = self.w.info_table
        rows = {}
        for r in range(t.rowCount()):
            a, b = t.item(r, 0), t.item(r, 1)
            if a is not None and b is not None:
                if a.text() in rows:
                    raise Violation("table-row-twice", a.text(), what)
                rows[a.text()] = b.text()
        s = self.s
        if rows.get("Schedule Time") != str(s.schedule_time) or rows.get("Cyclic") != str(s.cyclic):
            raise Violation("table-differs", f"{rows}, T={s.schedule_time}", what)
        if "ID" in rows:
            gid = rows["ID"]
            if gid not in s.start_times:
                raise Violation("table-differs", f"{rows}", what)
            for name, v in zip(("Backward slack", "Forward slack"), s.slacks(gid), strict=True):
                if rows.get(name) != ("∞" if v == sys.maxsize else str(v)):
                    raise Violation("table-differs", f"{gid}: {name} {rows.get(name)}, is {v}", f"{what}:{name}")

    def check_log(self, what):
        """The commands the window printed do to a copy what the events did to the schedule."""
        if self.base is None or self.s is None:
            return
        copy_ = copy.deepcopy(self.base)
        for c in self.commands:
            try:
                exec(c, {"schedule": copy_})
            except Exception as e:
                raise Violation("command-fails", f"{c}: {e!r}", c.split("(")[0]) from None
        a, b = edits.snapshot(copy_), edits.snapshot(self.s)
        if not self.rows_logged:
            a.pop("y")
            b.pop("y")
        d = edits.diff(a, b)
        if d:
            raise Violation("commands-differ", f"replaying {self.commands} gives another schedule: {d[:200]}", what)


def step_toward(v, goal, d):
    return min(goal, v + d) if goal > v else max(goal, v - d)


def drag(ses, gui, ev, cov, idle):
    s = gui.s
    gid = gui.names.get(ev["node"])
    if s is None or gid is None or gid not in s.start_times:
        return
    from qtpy.QtCore import QPointF

    it = gui.item(gid)
    start = s.start_times[gid]
    T = s.schedule_time
    p0 = gui.centre(it)
    back, fwd = s.slacks(gid)
    gui.mouse("press", p0, "left", "press")
    if ev["how"] == "double":
        cov.probe("double-click")
        gui.mouse("release", p0, "left", "release")
        gui.check("click")
        gui.mouse("double", p0, "left", "double-click")
    grabbed = gui.w._scene.mouseGrabberItem()
    if grabbed is None or not hasattr(grabbed, "graph_id"):
        cov.probe("press-hit-nothing")
        gui.mouse("release", p0, "left", "release")
        gui.check("click")
        return
    if grabbed is not it:
        cov.probe("press-hit-other")
        it, gid = grabbed, grabbed.graph_id
        start = s.start_times[gid]
        back, fwd = s.slacks(gid)
    gui.dragged = gid
    goal = None
    if "aim" in ev:
        lo, hi = max(-back, -start), min(fwd, T - start)
        if s.cyclic:
            lo = max(-back, -start - 1)
        goal = lo + round(ev["aim"] * (hi - lo)) if hi >= lo else 0
        path = []
        x = 0
        if ev["over"]:  # further than it goes, and back
            far = goal + (ev["over"] if goal >= 0 else -ev["over"])
            while x != far:
                x = step_toward(x, far, 1)
                path.append([x, 0])
        while x != goal:
            x = step_toward(x, goal, 1)
            path.append([x, 0])
        path += [[goal, ev["row"] * 1.25]] * 2
    else:
        path = ev["path"]
    acted = False
    for i, (dx, dy) in enumerate(path):
        gui.mouse("move", QPointF(p0.x() + dx, p0.y() + dy), "left", "move")
        if ev["how"] == "act" and i == ev["when"]:
            cov.fault("event-during-drag")
            acted = True
            idle(ev["act"])
            if gui.s is None:
                break
    end = QPointF(p0.x() + (path[-1][0] if path else 0), p0.y() + (path[-1][1] if path else 0))
    if ev["how"] == "right" and gui.s is not None:
        cov.fault("right-button-during-drag")
        acted = True
        Menu.pick = len(path) % 3
        gui.mouse("press", end, "right", "right-press")
        gui.mouse("release", end, "right", "right-release")
    if ev["how"] == "lost":
        cov.fault("release-lost")
        gui.mouse("press", end, "left", "press-again")
        acted = True
    shown = None
    alive = gui.s is not None and gui.w._graph is not None and gid in gui.w._graph._operation_items \
        and gui.item(gid) is it
    if alive:
        shown = gui.shown(it)
    n_cmd = len(gui.commands)
    gui.mouse("release", end, "left", "release")
    if gui.s is None:
        return
    if gui.w._scene.mouseGrabberItem() is not None:
        raise Violation("still-grabbed", "", "release")
    if alive and not acted:
        now = gui.s.start_times[gid]
        T = gui.s.schedule_time
        if T and (now - shown) % T:
            raise Violation("dropped-elsewhere", f"{gid} was shown at {shown}, starts at {now} (T={T})", "release")
        if not -back <= shown - start <= fwd:
            raise Violation("offered-outside-slack", f"{gid}: {start} -> {shown}, slack {back}, {fwd}", "release")
        lat = it.operation.latency or 0
        if goal is not None and 0 <= start + goal and start + goal + lat <= T and shown != start + goal:
            raise Violation("possible-move-refused", f"{gid}: {start} -> {start + goal} within slack ({back}, {fwd})"
                            f" and period {T}, shown at {shown}", "drag")
        if shown != start:
            cov.probe("dragged")
            gui.moved = True
        if len(gui.commands) > n_cmd:
            cov.probe("drag-logged")
    gui.check("drag" if not acted else f"drag-{ev['how']}")


def idle_event(gui, ev, cov):
    w, s = gui.w, gui.s
    op = ev["op"]
    x = ev["x"]
    mw = gui.mw
    if s is None and op not in ("open_file", "save", "save_as", "zoom", "wheel", "info"):
        return
    if op == "menu":
        gid = gui.names.get(ev["node"])
        if gid is None or gid not in s.start_times:
            return
        it = gui.item(gid)
        gid = None
        Menu.pick = x % 3
        Menu.chosen = None
        Menu.shown = []
        n = len(gui.commands)
        pos = gui.centre(it)
        gui.mouse("press", pos, "right", "menu")
        if gui.s is not None:
            gui.mouse("release", pos, "right", "menu-release")
        if Menu.shown:
            cov.probe(f"menu:{Menu.chosen}")
            if Menu.chosen and len(gui.commands) != n + 1:
                raise Violation("menu-not-logged", f"{Menu.chosen}: {gui.commands[n:]}", "menu")
    elif op == "reorder":
        gui.rows_logged = False
        gui.call(w.actionReorder.trigger, op)
    elif op in ("rot_f", "rot_b"):
        if not s.cyclic:
            return
        gui.call((w.actionRotateForward if op == "rot_f" else w.actionRotateBackward).trigger, op)
    elif op == "res_up":
        f = 1 + x % 3
        if s.schedule_time * f > 60:
            return
        mw.QInputDialog.getInt = staticmethod(lambda *a, **k: (f, x != 7))
        T = s.schedule_time
        gui.call(w.actionIncrease_time_resolution.trigger, op)
        if gui.s.schedule_time != (T * f if x != 7 else T):
            raise Violation("dialog-ignored", f"{T} * {f}: {gui.s.schedule_time}", op)
    elif op == "res_down":
        offered = []

        def answer(parent, title, label, vals, *a, **k):
            offered.extend(vals)
            return vals[x % len(vals)], x != 7

        mw.QInputDialog.getItem = staticmethod(answer)
        want = s.get_possible_time_resolution_decrements()
        T = s.schedule_time
        gui.call(w.actionDecrease_time_resolution.trigger, op)
        if [int(v) for v in offered] != list(want):
            raise Violation("dialog-offers", f"{offered}, possible {want}", op)
        if x != 7 and gui.s.schedule_time * int(offered[x % len(offered)]) != T:
            raise Violation("dialog-ignored", f"{T} / {offered[x % len(offered)]}: {gui.s.schedule_time}", op)
    elif op == "time":
        drag_timeline(gui, ev, cov)
    elif op == "toggle":
        a = [w.action_incorrect_execution_time, w.action_show_port_numbers, w.actionStatus_bar, w.menu_node_info][x % 4]
        gui.call(a.trigger, op)
    elif op == "zoom":
        a = [w.actionZoom_to_fit, w.actionZoom_to_fit_ignore_aspect_ratio, w.actionRestore_aspect_ratio,
             w.actionToggle_full_screen][x % 4]
        gui.call(a.trigger, op)
    elif op == "info":
        gui.call(w.menu_node_info.trigger, op)
    elif op == "wheel":
        pass
    elif op == "plot":
        if x < 3:
            gui.call([w.action_view_variables, w.action_total_execution_times_of_variables,
                      w.action_view_port_accesses][x].trigger, op)
            cov.probe("plot-window")
    elif op == "reopen":
        gui.call(w._graph._signals.reopen.emit, op)
    elif op == "close":
        if x < 3:
            gui.call(w.menu_close_schedule.trigger, op)
            gui.base = None
    elif op in ("save", "save_as"):
        save(gui, ev, cov)
    elif op == "open_file":
        open_file(gui, ev, cov)
    cov.step()


def drag_timeline(gui, ev, cov):
    from qtpy.QtCore import QPointF

    s = gui.s
    T = s.schedule_time
    line = gui.w._graph.axes.event_items[-1]
    p0 = line.mapToScene(line.line().p2() * 0.02 + line.line().p1() * 0.98)
    gui.mouse("press", p0, "left", "timeline-press")
    if gui.w._scene.mouseGrabberItem() is not line:
        cov.probe("timeline-missed")
        gui.mouse("release", p0, "left", "timeline-release")
        return
    n = ev["x"] - 4
    low = s.get_max_end_time()
    x = 0
    while x != n:
        x = step_toward(x, n, 1)
        gui.mouse("move", QPointF(p0.x() + x, p0.y()), "left", "timeline-move")
    gui.mouse("release", QPointF(p0.x() + n, p0.y()), "left", "timeline-release")
    want = max(T + n, low) if T >= low else T + n if n > 0 and T + 1 >= low else T
    cov.probe("timeline-dragged")
    if gui.s.schedule_time != want:
        raise Violation("period-not-as-dragged", f"{T}{n:+} (at least {low}): {gui.s.schedule_time}", "timeline")


def save(gui, ev, cov):
    w = gui.w
    name = "" if ev["name"] > 1 else NAMES[ev["name"]]
    gui.mw.QFileDialog.getSaveFileName = staticmethod(lambda *a, **k: (name, ""))
    before = dict(gui.disk.files)
    now = None if gui.s is None else edits.snapshot(gui.s)
    target = w._file_name if ev["op"] == "save" and w._file_name else name
    gui.disk.arm(ev["fault"] if target else None)
    gui.failed = None
    (w.menu_save if ev["op"] == "save" else w.menu_save_as).setEnabled(True)
    gui.call((w.menu_save if ev["op"] == "save" else w.menu_save_as).trigger, ev["op"])
    gui.disk.arm(None)
    if gui.s is None or not target:
        if gui.disk.files != before:
            raise Violation("cancelled-save-wrote", f"{sorted(gui.disk.files)}", ev["op"])
        return
    failed = gui.failed is not None or "fail" in w.statusbar.currentMessage().lower()
    cov.probe(f"save:{'failed' if failed else 'ok'}")
    others = {k: v for k, v in gui.disk.files.items() if k != target}
    if not failed:
        import pickle

        try:
            got = edits.snapshot(pickle.loads(gui.disk.files[target]))
        except Exception as e:
            raise Violation("saved-not-loadable", f"{e!r}", ev["op"]) from None
        d = edits.diff(got, edits.snapshot(gui.s))
        if d:
            raise Violation("saved-differs", d[:150], ev["op"])
    if gui.s is None or edits.snapshot(gui.s) != now:
        raise Violation("save-changed", "", ev["op"])
    if others != {k: v for k, v in before.items() if k != target}:
        raise Violation("save-touched-other-file", f"{sorted(gui.disk.files)}", ev["op"])


def open_file(gui, ev, cov):
    import pickle

    w = gui.w
    name = "" if ev["name"] > 1 else NAMES[ev["name"]]
    if name and name not in gui.disk.files:
        return
    if ev["damage"] and name:
        gui.disk.damage(name, ev["damage"])
    gui.mw.QFileDialog.getOpenFileName = staticmethod(lambda *a, **k: (name, bool(name)))
    before = None if gui.s is None else edits.snapshot(gui.s)
    file = w._file_name
    fault = ev["fault"] if ev["fault"] and ev["fault"]["k"] == "open-fails" else None
    want = None
    if name and not fault:
        try:
            want = edits.snapshot(pickle.loads(gui.disk.files[name]))
        except Exception:
            pass
    gui.disk.arm(fault)
    gui.call(w.menu_open.trigger, "open_file")
    gui.disk.arm(None)
    now = None if gui.s is None else edits.snapshot(gui.s)
    cov.probe(f"open:{'ok' if want else 'failed'}")
    if want is None:
        if now != before:
            raise Violation("failed-open-changed", edits.diff(before or {}, now or {})[:150], "open_file")
        if w._file_name != file:
            raise Violation("failed-open-renamed", f"{file} -> {w._file_name}: the next save would overwrite it",
                            "open_file")
    else:
        d = edits.diff(want, now or {})
        if d:
            raise Violation("opened-differs", d[:150], "open_file")
        gui.rename()
        gui.start_log()


def execute(trace, cov):
    sched.valid_timing(trace["g"])
    ses = edits.Session(dict(trace, stim=[]), cov)
    s = ses.sch
    if s is None or s.schedule_time == 0:
        return
    for h in trace["hist"]:
        try:
            ses.apply(h)
        except Violation:
            raise InvalidTrace from None
    try:
        machine.check_times(machine.read(s))
    except Violation:
        raise InvalidTrace from None
    with Disk(cov) as disk:
        gui = None
        try:
            gui = Gui(trace, s, cov, disk)
            gui.moved = False

            def rename():
                from dst import gen

                by = {op.name: g for g, op in machine.live_ops(gui.s).items()}
                gui.names = {i: by[gen.node_name(i)] for i in range(len(trace["g"]["spec"]["nodes"]))
                             if gen.node_name(i) in by}

            gui.rename = rename
            rename()
            gui.check("open")
            for ev in trace["evs"]:
                cov.log(ev["op"])
                if ev["op"] == "drag":
                    drag(ses, gui, ev, cov, lambda e: idle_event(gui, e, cov))
                else:
                    idle_event(gui, ev, cov)
                    gui.check(ev["op"])
                if edits.snapshot(s) != gui.original_state:
                    raise Violation("opened-schedule-modified", edits.diff(gui.original_state, edits.snapshot(s))[:150],
                                    ev["op"])
                if gui.s is not None:
                    key = (sorted(gui.s.start_times.items()), sorted((k, v) for k, v in gui.s.laps.items() if v),
                           gui.s.schedule_time)
                    cov.log(key)
                    cov.state(key)
            gui.check_log("end")
            if gui.moved:
                cov.nontrivial.add(cov.digest()[:16])
        finally:
            if gui is not None:
                for d in (gui.w._execution_time_for_variables, gui.w._total_execution_time_for_variables,
                          gui.w._ports_accesses_for_storage):
                    if d is not None:
                        d.close()
                gui.w.hide()
                gui.w.deleteLater()
                gui = None
            from qtpy.QtCore import QCoreApplication, QEvent

            QCoreApplication.sendPostedEvents(None, QEvent.Type.DeferredDelete)
            _app.processEvents()
            _problems.clear()


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g)
    if t["zoom"] != 1:
        yield dict(t, zoom=1)
    for i, e in enumerate(t["evs"]):
        def put(**kw):
            return dict(t, evs=t["evs"][:i] + [dict(e, **kw)] + t["evs"][i + 1:])

        if e["op"] == "drag":
            if e["how"] != "ok":
                yield put(how="ok")
            if e.get("row"):
                yield put(row=0)
            if e.get("over"):
                yield put(over=0)
            for k in range(len(e["path"])):
                yield put(path=e["path"][:k] + e["path"][k + 1:])
        elif e.get("fault"):
            yield put(fault=None)
        elif e.get("damage"):
            yield put(damage=None)


SHRINK_LISTS = {"evs", "hist"}
