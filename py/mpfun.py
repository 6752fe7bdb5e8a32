"""What the parallel functions are given to run: functions of a node's points that leave a trace of every call."""
import os, time
import numpy as np
import copclib as copc
import common

_peek = None


def peek():
    global _peek
    if _peek is None:
        _peek = common.peek_module()
    return _peek


def trace(log, *words):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    try:
        os.write(fd, (" ".join(str(w).replace(" ", "") for w in words) + "\n").encode())
    finally:
        os.close(fd)


def name(node):
    return str(node.key).replace(" ", "")


class Odd(Exception):
    """An exception of the user's own."""


def misbehave(do, node, log):
    what = do.get(name(node))
    if what is None:
        return
    trace(log, "misbehaves", what, os.getpid())
    if what == "value":
        raise ValueError("boom " + name(node))
    if what == "odd":
        raise Odd("boom " + name(node))
    if what == "die":
        os._exit(3)


def pause(waits, node):
    if waits:
        time.sleep(waits.get(name(node), 0))


def started(log, tag):
    trace(log, "start", os.getpid(), tag)


def failing_start(log, tag):
    trace(log, "start", os.getpid(), tag)
    raise Odd("no start")


# ------------------------------------------------------------------ reading
def outcome(points, node, how):
    """What a call returns for these points."""
    p = peek()
    if how == "nothing":
        return {}
    if how == "state":
        return {"state": p.state(points), "total": len(points)}
    if how == "arrays":
        return {"xyz": np.array([[q.x, q.y, q.z] for q in points]).reshape(len(points), 3), "label": name(node)}
    if how == "objects":
        return {"first": node.key, "where": copc.Vector3(1, 2, len(points)), "other": node, "sizes": [len(points)] * 3}
    return {"classes": sorted({q.classification for q in points})}


def read(points, node, reader, log, how, waits=None, do=None, path=None, **more):
    trace(log, "call", name(node), os.getpid())
    misbehave(do or {}, node, log)
    if do and do.get(name(node)) == "list":
        return [1, 2]
    if do and do.get(name(node)) == "none":
        return None
    pause(waits, node)
    ok = isinstance(reader, copc.FileReader) and reader.path == path and isinstance(node, copc.Node) and isinstance(points, copc.Points)
    ok = ok and peek().state(points) == peek().state(reader.GetPoints(node)) and sorted(more) == ["extra", "scale"] and more["extra"] == [1, "a"]
    trace(log, "arguments", "good" if ok else "bad")
    return outcome(points, node, how)


# ------------------------------------------------------------------ transforming
def changed(points, header, how, number):
    """The points a transformation makes of a node's; gives points of the writer's format unless told otherwise."""
    if how == "same":
        return points
    if how == "convert":
        points.ToPointFormat(header.point_format_id)
        return points
    out = copc.Points(header)
    fmt = header.point_format_id

    def copied(q):
        n = out.CreatePoint()
        for a in ("x", "y", "z", "intensity", "classification", "user_data", "gps_time", "point_source_id", "scan_angle"):
            setattr(n, a, getattr(q, a))
        n.return_number, n.number_of_returns = q.return_number, q.number_of_returns
        if fmt > 6 and q.point_format_id > 6:
            n.red, n.green, n.blue = q.red, q.green, q.blue
        return n
    for i, q in enumerate(points):
        n = copied(q)
        if how == "drop" and q.classification % 2:
            continue
        if how == "drop-all" and number % 2:
            continue
        if how == "shift":
            n.x, n.y, n.z = q.x + 0.3, q.y - 0.0071, q.z * 1.001
        if how == "label":
            n.classification = 200 + i % 7
            n.intensity = 40000 + number
        out.AddPoint(n)
        if how == "twice":
            out.AddPoint(copied(q))
    return out


def plain_read(points, node, reader):
    return dict(number=len(points))


def plain_transform(points, node, writer_header, reader):
    return points, dict(number=len(points))


def plain_start():
    pass


def values(points, node, how):
    if how == "points":
        return None
    if how == "empty":
        return {}
    return {"how_many": len(points), "label": name(node), "top": max(points.z) if len(points) else None}


def transform(points, node, writer_header, reader, log, how, returns, waits=None, do=None, path=None, **more):
    trace(log, "call", name(node), os.getpid())
    do = do or {}
    misbehave(do, node, log)
    pause(waits, node)
    ok = isinstance(reader, copc.FileReader) and reader.path == path and isinstance(node, copc.Node) and isinstance(points, copc.Points)
    ok = ok and isinstance(writer_header, copc.LasHeader) and peek().state(points) == peek().state(reader.GetPoints(node))
    trace(log, "arguments", "good" if ok else "bad")
    trace(log, "header", peek().state(writer_header).encode().hex())
    what = do.get(name(node))
    number = node.key.x + node.key.y + node.key.z + node.key.d
    points = changed(points, writer_header, how, number)
    if what == "triple":
        return points, {}, 1
    if what == "not-dict":
        return points, [1]
    if what == "foreign":
        other = copc.Points(writer_header.point_format_id, writer_header.EbByteSize() + 1)
        for _ in range(1 + number % 3):
            other.AddPoint(other.CreatePoint())
        return other
    if what == "same-record":  # as long as the writer's, of another format
        base, eb = {6: 30, 7: 36, 8: 38}, writer_header.EbByteSize()
        mine = writer_header.point_format_id
        fits = [f for f in base if f != mine and base[mine] + eb >= base[f]]
        other = copc.Points(fits[-1] if fits else mine, base[mine] + eb - base[fits[-1]] if fits else eb + 1)
        for _ in range(1 + number % 3):
            other.AddPoint(other.CreatePoint())
        return other
    if what == "same-size":  # as many bytes as a whole number of the writer's records, of another format
        mine, theirs = {6: 30, 7: 36, 8: 38}, writer_header.point_record_length
        other = copc.Points(6 if writer_header.point_format_id > 6 else 7, 0)
        for _ in range(theirs):
            other.AddPoint(other.CreatePoint())
        return other
    v = values(points, node, returns)
    return points if v is None else (points, v)
