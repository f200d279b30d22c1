"""P27: the Python scripts, run whole against in-memory stand-ins of rospy, rosbag and genpy."""
import copy
import functools
import math
import os
import runpy
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbtpy  # noqa: E402
from pbtpy import check, prop, st  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
METRICS = os.path.join(REPO, "serpent/scripts/metrics_node.py")
REPAIR = os.path.join(REPO, "snowboard/scripts/repair_ouster_timestamps.py")
POSE_TOPIC, PATH_TOPIC, REG_TOPIC = "/serpent/output/pose", "/serpent/output/path", "/serpent/registration/transform"


# --- stand-ins -------------------------------------------------------------------------------------------------------
@functools.total_ordering
class TVal:
    __slots__ = ["secs", "nsecs"]

    def __init__(self, secs=0, nsecs=0):
        if not isinstance(secs, int):
            if nsecs != 0:
                raise ValueError("if secs is a float, nsecs cannot be set")
            f = float(secs)
            secs = int(math.floor(f))
            nsecs = int((f - secs) * 1000000000)
        total = int(secs) * 1000000000 + int(nsecs)
        self.secs, self.nsecs = divmod(total, 1000000000)

    @classmethod
    def from_sec(cls, s):
        return cls(float(s))

    @classmethod
    def from_seconds(cls, s):
        return cls(float(s))

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    def __bool__(self):
        return not self.is_zero()

    def to_nsec(self):
        return self.secs * 1000000000 + self.nsecs

    def to_sec(self):
        return self.secs + self.nsecs / 1e9

    def set(self, secs, nsecs):
        self.secs, self.nsecs = secs, nsecs

    def __hash__(self):
        return hash(self.to_nsec())

    def __eq__(self, o):
        return isinstance(o, TVal) and self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        if not isinstance(o, TVal):
            return NotImplemented
        return self.to_nsec() < o.to_nsec()

    def __repr__(self):
        return "%s[%d]" % (type(self).__name__, self.to_nsec())


class Time(TVal):
    __slots__ = []

    def __add__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return Time(0, self.to_nsec() + o.to_nsec())

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Time):
            return Duration(0, self.to_nsec() - o.to_nsec())
        if isinstance(o, Duration):
            return Time(0, self.to_nsec() - o.to_nsec())
        return NotImplemented

    def to_time(self):
        return self.to_sec()


class Duration(TVal):
    __slots__ = []

    def __add__(self, o):
        if isinstance(o, Time):
            return o + self
        if not isinstance(o, Duration):
            return NotImplemented
        return Duration(0, self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return Duration(0, self.to_nsec() - o.to_nsec())

    def __neg__(self):
        return Duration(0, -self.to_nsec())

    def __mul__(self, k):
        return Duration(0, int(self.to_nsec() * k))

    __rmul__ = __mul__


class Msg:
    """Message with plain attributes; compares by content."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return isinstance(o, Msg) and self.__dict__ == o.__dict__

    def __repr__(self):
        return "Msg(%r)" % (self.__dict__,)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Named(type):
    def __getattr__(cls, name):  # message constants: any metric name the script uses
        if name.startswith("_"):
            raise AttributeError(name)
        return name


def run_script(path, mods):
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# --- metrics node ----------------------------------------------------------------------------------------------------
class Shutdown(Exception):
    pass


def run_metrics(ticks):
    """ticks: list of lists of (topic, message) delivered before each publication but the first. Returns publications."""
    callbacks, published = {}, []
    pos = {"i": 0}

    class Subscriber:
        def __init__(self, topic, cls=None, callback=None, callback_args=None, queue_size=None, **kw):
            callbacks.setdefault(topic, []).append(callback)

    class Publisher:
        def __init__(self, topic, cls=None, queue_size=None, latch=False, **kw):
            self.topic = topic

        def publish(self, m):
            published.append((self.topic, copy.deepcopy(m)))

    def step(*_):
        if pos["i"] < len(ticks):
            for topic, m in ticks[pos["i"]]:
                for cb in callbacks.get(topic, []):
                    cb(m)
        pos["i"] += 1
        if pos["i"] > len(ticks) + 5:
            raise Shutdown("the node does not stop")

    class Rate:
        def __init__(self, hz):
            check(hz > 0, "rate", hz)

        def sleep(self):
            step()

    class Timer:
        def __init__(self, period, cb, oneshot=False):
            self.cb = cb
            timers.append(self)

    timers = []

    def spin():
        while pos["i"] <= len(ticks):
            for t in timers:
                t.cb(None)
            step()

    class Dictionary(Msg, metaclass=type):
        UNIT_NONE = 0

        def __init__(self):
            super().__init__(name="", unit=None, value=None)

    class DictionaryList(Msg):
        def __init__(self):
            super().__init__(header=Msg(stamp=Time(), frame_id=""), data=[])

    class MetricDefines(metaclass=Named):
        pass
    rospy = module("rospy", Subscriber=Subscriber, Publisher=Publisher, Rate=Rate, Timer=Timer, Duration=Duration,
                   Time=Time, spin=spin, init_node=lambda *a, **k: None, loginfo=lambda *a, **k: None,
                   logwarn=lambda *a, **k: None, logerr=lambda *a, **k: None, logdebug=lambda *a, **k: None,
                   loginfo_once=lambda *a, **k: None, is_shutdown=lambda: pos["i"] > len(ticks),
                   ROSInterruptException=Shutdown, get_param=lambda n, d=None: d, sleep=step)
    mods = {"rospy": rospy}
    for pkg, names in (("perception_msgs", dict(MetricDefines=MetricDefines)),
                       ("infrastructure_msgs", dict(Dictionary=Dictionary, DictionaryList=DictionaryList)),
                       ("geometry_msgs", dict(PoseWithCovarianceStamped=Msg, Pose=Msg, PoseStamped=Msg)),
                       ("nav_msgs", dict(Path=Msg))):
        mods[pkg + ".msg"] = module(pkg + ".msg", **names)
        mods[pkg] = module(pkg, msg=mods[pkg + ".msg"])
    run_script(METRICS, mods)
    return published


coordinate = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e4, 1e4, allow_nan=False, width=32))


@st.composite
def quaternion(draw):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        q = [[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]][draw(st.integers(0, 3))]
    elif kind == 1:
        a = draw(st.floats(-1e-3, 1e-3))
        q = [math.sin(a), 0, 0, math.cos(a)]
    else:
        q = [draw(st.floats(-1, 1)) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    q = [x / n for x in q] if n > 1e-3 else [0.0, 0.0, 0.0, 1.0]
    return [-x for x in q] if draw(st.booleans()) else [float(x) for x in q]


pose = st.fixed_dictionaries(dict(p=st.lists(coordinate, min_size=3, max_size=3), q=quaternion()))
covariance = st.lists(st.one_of(st.integers(-2, 3).map(float), st.floats(-1e3, 1e3, width=32), st.just(0.0)),
                      min_size=36, max_size=36)


def make_pose(d):
    return Msg(position=Msg(x=d["p"][0], y=d["p"][1], z=d["p"][2]),
               orientation=Msg(x=d["q"][0], y=d["q"][1], z=d["q"][2], w=d["q"][3]))


def angle_between(a, b):
    """Rotation angle of the relative rotation, in [0, pi], from |vector| and |scalar| part."""
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    w = aw * bw + ax * bx + ay * by + az * bz
    x = aw * bx - bw * ax - (ay * bz - az * by)
    y = aw * by - bw * ay - (az * bx - ax * bz)
    z = aw * bz - bw * az - (ax * by - ay * bx)
    return 2 * math.atan2(math.sqrt(x * x + y * y + z * z), abs(w))


def header(n):
    return Msg(seq=n, stamp=Time(n, 0), frame_id="map")


event = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("pose"), pose=pose, cov=covariance)),
    st.fixed_dictionaries(dict(kind=st.just("pose"), pose=pose, cov=covariance)),
    st.fixed_dictionaries(dict(kind=st.just("reg"), pose=pose, cov=covariance)),
    st.fixed_dictionaries(dict(kind=st.just("path"), poses=st.lists(pose, min_size=0, max_size=4))))


@prop("metrics", st.lists(st.lists(event, max_size=4), min_size=1, max_size=5), 1500, 12000,
      "at least two poses, a path of two or a registration were received")
def metrics(case, c):
    ticks, expected = [], []
    cur = prev = path = reg = None

    def model():
        e = {}
        cov = reg["cov"] if reg else None
        # messages carry the translation first
        for i, n in enumerate(("TX", "TY", "TZ", "RX", "RY", "RZ")):
            e["REGISTRATION_VAR_" + n] = cov[7 * i] if cov else -1.0
        if cur is None:
            e["VARIANCE_OUTLIER_MAX"], e["VARIANCE_OUTLIER_IDX"] = -1.0, -1.0
        else:
            m = max(cur["cov"])
            e["VARIANCE_OUTLIER_MAX"] = m if m > 0 else 0.0
            e["VARIANCE_OUTLIER_IDX"] = cur["cov"].index(m) if m > 0 else -1
        for name, pair in (("CONSISTENT", (path[-1], path[-2]) if path is not None and len(path) >= 2 else None),
                           ("INSTANT", (cur["pose"], prev["pose"]) if prev is not None else None)):
            if pair:
                a, b = pair
                e[name + "_RELATIVE_POSE_NORM"] = math.dist(a["p"], b["p"])
                e[name + "_RELATIVE_POSE_ANGL"] = angle_between(a["q"], b["q"])
            else:
                e[name + "_RELATIVE_POSE_NORM"] = e[name + "_RELATIVE_POSE_ANGL"] = -1.0
        return e
    expected.append(model())
    n = 0
    for tick in case:
        out = []
        for ev in tick:
            n += 1
            if ev["kind"] == "path":
                path = ev["poses"]
                out.append((PATH_TOPIC, Msg(header=header(n), poses=[
                    Msg(header=header(i), pose=make_pose(p)) for i, p in enumerate(path)])))
            else:
                m = Msg(header=header(n), pose=Msg(pose=make_pose(ev["pose"]), covariance=tuple(ev["cov"])))
                if ev["kind"] == "pose":
                    prev, cur = cur, ev
                    out.append((POSE_TOPIC, m))
                else:
                    reg = ev
                    out.append((REG_TOPIC, m))
        ticks.append(out)
        expected.append(model())
    sent = [copy.deepcopy(t) for t in ticks]
    published = run_metrics(ticks)
    check(sent == ticks, "received messages were modified")
    check(len(published) == len(expected), "published", len(published), "times, expected", len(expected))
    for k, ((topic, m), e) in enumerate(zip(published, expected)):
        check(topic == "/serpent/metrics", "topic", topic)
        got = {}
        for d in m.data:
            check(d.name not in got, "metric", d.name, "twice")
            got[d.name] = d.value
        for name, v in e.items():
            check(name in got, "tick", k, "lacks", name)
            tol = 1e-6 if name.endswith("ANGL") else 1e-9 * (1 + abs(v))
            check(got[name] is not None and abs(float(got[name]) - v) <= tol, "tick", k, name, "is", got[name],
                  "instead of", v)
    c.nontrivial = prev is not None or reg is not None or (path is not None and len(path) >= 2)
    if prev is not None and sum(a * b for a, b in zip(cur["pose"]["q"], prev["pose"]["q"])) < 0:
        c.label("opposite quaternion signs")
    if path is not None and len(path) < 2:
        c.label("path shorter than two poses")
    c.note = "events " + " | ".join(" ".join(ev["kind"] for ev in t) for t in case)


# --- timestamp repair ------------------------------------------------------------------------------------------------
CLOUD_TOPIC = "/os_cloud_node/points"
PERIOD = 100000000


def run_repair(messages):
    bags, files = [], {}

    class Bag:
        def __init__(self, f=None, mode="r", *a, **k):
            self._filename = self.filename = f
            self.mode, self.closed = mode, False
            self.written = []
            bags.append(self)

        def _open(self):
            check(not self.closed, "bag used after it was closed")

        def get_start_time(self):
            return messages[0][2].to_sec() if messages else 0.0

        def get_end_time(self):
            return messages[-1][2].to_sec() if messages else 0.0

        def get_message_count(self, topic_filters=None):
            return len(messages)

        def get_type_and_topic_info(self, topic_filters=None):
            return ({}, {})

        def read_messages(self, topics=None, start_time=None, end_time=None, connection_filter=None, raw=False, **k):
            self._open()
            check(self.mode == "r", "reads the output")
            if isinstance(topics, str):
                topics = [topics]
            for topic, m, t in messages:
                if topics and topic not in topics:
                    continue
                if (start_time is not None and t < start_time) or (end_time is not None and t > end_time):
                    continue
                yield topic, m, t

        def __iter__(self):
            return self.read_messages()

        def write(self, topic, msg, t=None, raw=False, **k):
            self._open()
            check(self.mode in ("w", "a"), "writes to the input")
            self.written.append((topic, copy.deepcopy(msg), copy.deepcopy(t)))

        def flush(self):
            pass

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    genpy = module("genpy", Time=Time, Duration=Duration)
    rospy = module("rospy", Time=Time, Duration=Duration)
    run_script(REPAIR, {"genpy": genpy, "rosbag": module("rosbag", Bag=Bag), "rospy": rospy})
    ins = [b for b in bags if b.mode == "r"]
    outs = [b for b in bags if b.mode != "r"]
    check(len(outs) == 1 and len(ins) >= 1, "opened", len(ins), "inputs and", len(outs), "outputs")
    check(outs[0].filename not in [b.filename for b in ins], "the output overwrites the input")
    check(outs[0].closed, "the output is not closed")
    return outs[0].written


stamp = st.one_of(st.just(0), st.just(0), st.integers(1, 5), st.integers(1, 4 * 10**18),
                  st.integers(0, 50).map(lambda k: 10**18 + k * PERIOD),
                  st.sampled_from([999999999, 10**9, 10**9 - PERIOD, 2 * 10**9 - 1, 900000000]))
topic = st.one_of(*[st.just(CLOUD_TOPIC)] * 4, st.sampled_from([
    "/os_cloud_node/points2", "/os_cloud_node", "/points", "points", "/", "/os_cloud_node/imu", "/camera", "/os_cloud",
    "/other/os_cloud_node/points"]))
bag_message = st.fixed_dictionaries(dict(topic=topic, stamp=st.one_of(stamp, st.none()), t=st.integers(0, 4 * 10**18),
                                         data=st.integers(0, 255), frame=st.sampled_from(["os", "lidar", ""])))


@prop("repair", st.lists(bag_message, max_size=12), 5000, 40000,
      "a cloud without timestamp after a stamped cloud, and another message")
def repair(case, c):
    def make():
        out = []
        for i, d in enumerate(case):
            m = Msg(data=d["data"])
            if d["stamp"] is not None:
                m.header = Msg(seq=i, stamp=Time(0, d["stamp"]), frame_id=d["frame"])
            out.append((d["topic"], m, Time(0, d["t"])))
        return out
    original = make()
    written = run_repair(make())
    check(len(written) == len(original), "wrote", len(written), "of", len(original), "messages")
    last, repaired = None, 0
    for i, ((t0, m0, r0), (t1, m1, r1)) in enumerate(zip(original, written)):
        check(t0 == t1, "topic of message", i)
        check(r0 == r1, "record time of message", i)
        if t0 == CLOUD_TOPIC and hasattr(m0, "header"):
            zero = m0.header.stamp == Time()
            if zero and last is None:
                # before the first stamped cloud there is nothing to continue from: any stamp, the rest unchanged
                m0.header.stamp = m1.header.stamp
            elif zero:
                last = last + Duration(0, PERIOD)
                m0.header.stamp = last
                repaired += 1
            else:
                last = m0.header.stamp
        check(m0 == m1, "message", i, "is", m1, "instead of", m0)
    c.nontrivial = repaired > 0 and len(case) > 2
    c.label("repaired %d" % min(repaired, 3))
    if any(d["topic"] != CLOUD_TOPIC and d["stamp"] == 0 for d in case):
        c.label("unstamped message on another topic")


sys.exit(pbtpy.main())
