"""Jobs the driver runs on the real code: fn(qt, id, **args) -> JSON value."""
import gen as g
import profiles
import scen


class LibraryFailure(Exception):
    library = True


def _finish(tr):
    if tr.failed:
        kind, op, text = tr.failed
        raise LibraryFailure('%s in %s (after %d recorded calls): %s' % (kind, op, len(tr.lines), text))
    return tr.finish()


def queue(qt, id, seed, profile):
    return _finish(scen.queue_trace(qt, seed, id, profiles.QUEUE[profile]))


def net(qt, id, seed, profile):
    return _finish(scen.net_trace(qt, seed, id, profiles.NET[profile]))


def gen(qt, id, items):
    out = []
    for n, item in enumerate(items):
        out.append(_finish(g.replay(qt, '%s.%d' % (id, n), item)))
    return out
