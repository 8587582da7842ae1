"""P26: the directory helpers of distributions.fileutil. Nothing outside the scratch directory can be removed here."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from vh import R, SCRATCH, main, monitor, need, raises

ROOT = os.path.realpath(tempfile.mkdtemp(dir=SCRATCH))


def guard(event, args):
    """Refuses to remove what is not ours, whatever the code under test asks for."""
    if event in ("shutil.rmtree", "os.remove", "os.rmdir") and not (event != "shutil.rmtree" and len(args) > 1 and args[1] >= 0):
        path = os.path.realpath(os.fsdecode(args[0]))
        if not path.startswith(ROOT + os.sep):
            raise RuntimeError("removal of %s stopped" % path)


sys.addaudithook(guard)
tempfile.tempdir = os.path.join(ROOT, "tmp")
os.mkdir(tempfile.tempdir)
import distributions.fileutil as fu   # noqa: E402


class Boom(Exception):
    pass


def tree():
    return sorted(os.path.join(d, f) for d, ds, fs in os.walk(ROOT) for f in ds + fs)


def play(r, depth, log, home):
    """Some steps in the current directory, whose nested contexts must all come back to it."""
    for _ in range(r.randint(0, 3)):
        u = r.random()
        here = os.getcwd()
        if u < 0.2:
            with open(os.path.join(here, "f%d" % r.below(9)), "w") as f:
                f.write("x")
            log.append("write")
        elif u < 0.3:
            d = os.path.join(here, "d%d" % r.below(5))
            if not os.path.isdir(d):
                os.mkdir(d)
            log.append("mkdir")
        elif u < 0.4 and depth:
            # the body itself may wander off; what it entered brings it back
            os.chdir(home)
            log.append("wander")
            return
        elif u < 0.7:
            chdir(r, depth + 1, log, home)
        else:
            temp(r, depth + 1, log, home)
        if not R.failed_case and u >= 0.4:
            need("P26:restored", os.getcwd() == here, "%s: left in %s instead of %s" % (" ".join(log), os.getcwd(), here))


def finish(r, log):
    kind = r.pick([None, None, None, Boom, KeyboardInterrupt, SystemExit, GeneratorExit])
    if kind:
        log.append(kind.__name__)
        raise kind("x")


def chdir(r, depth, log, home):
    here = os.getcwd()
    u = r.random()
    if u < 0.15:
        target = os.path.join(home, "missing")
        log.append("chdir(missing)")
        need("P26:chdir:missing", raises(lambda: run(fu.chdir(target), lambda x: None), OSError), " ".join(log))
        need("P26:chdir:restored", os.getcwd() == here, " ".join(log))
        R.event("missing")
        return
    target = here if u < 0.3 else os.path.join(home, "a", "b") if u < 0.5 else "." if u < 0.6 else ".." if u < 0.7 else home
    want = os.path.realpath(os.path.join(here, target))
    if not (want == ROOT or want.startswith(ROOT + os.sep)):
        return
    log.append("chdir(%s)[" % os.path.relpath(want, ROOT))
    kept = set(tree())
    raised, expected = run_body(r, fu.chdir(target), lambda x: need("P26:chdir:entered", os.getcwd() == want, "%s is in %s" % (
        " ".join(log), os.getcwd())), depth, log, home)
    log.append("]")
    ctx = " ".join(log)
    need("P26:chdir:restored", os.getcwd() == here, "%s: left in %s instead of %s" % (ctx, os.getcwd(), here))
    need("P26:chdir:exception", raised is expected, "%s: %r came out instead of %r" % (ctx, raised, expected))
    need("P26:chdir:removed", kept <= set(tree()), ctx)
    R.event("chdirs")


def temp(r, depth, log, home):
    here = os.getcwd()
    keep = r.chance(0.5)
    log.append("tempdir(%s)[" % ("keep on error" if keep else "clean"))
    before = set(tree())
    seen = []

    def entered(wd):
        seen.append(wd)
        need("P26:tempdir:entered", os.getcwd() == os.path.realpath(wd), "%s is in %s, given %s" % (" ".join(log), os.getcwd(), wd))
        need("P26:tempdir:fresh", os.listdir(wd) == [] and os.path.realpath(wd) not in before, " ".join(log))
        if r.chance(0.5):
            os.makedirs(os.path.join(wd, "deep", "er"))
            with open(os.path.join(wd, "deep", "file"), "w") as f:
                f.write("x")
        if r.chance(0.2):
            os.symlink(os.path.join(home, "a"), os.path.join(wd, "link"))

    cm = fu.tempdir(cleanup_on_error=False) if keep else fu.tempdir() if r.chance(0.5) else fu.tempdir(True)
    raised, expected = run_body(r, cm, entered, depth, log, home)
    log.append("]")
    ctx = " ".join(log)
    need("P26:tempdir:restored", os.getcwd() == here, "%s: left in %s instead of %s" % (ctx, os.getcwd(), here))
    need("P26:tempdir:exception", raised is expected, "%s: %r came out instead of %r" % (ctx, raised, expected))
    stays = keep and expected is not None
    need("P26:tempdir:" + ("lost" if stays else "left"), os.path.exists(seen[0]) == stays, "%s: %s" % (ctx, seen[0]))
    need("P26:tempdir:removed", before <= set(tree()), "%s removed %s" % (ctx, sorted(before - set(tree()))))
    R.event("tempdirs")
    R.event("kept" if stays else "cleaned")
    if expected is not None:
        R.event("errors")


def run(cm, f):
    with cm as x:
        f(x)


def run_body(r, cm, entered, depth, log, home):
    """Runs the context manager around some steps; returns what came out and what its body raised."""
    expected = raised = None
    try:
        with cm as x:
            try:
                entered(x)
                if depth < 4:
                    play(r, depth, log, home)
                if not R.failed_case:
                    finish(r, log)
            except BaseException as e:
                expected = e
                raise
    except BaseException as e:
        raised = e
    if R.failed_case and isinstance(expected, Exception):
        raise expected
    return raised, expected


@monitor("P26")
def P26(r):
    home = os.path.realpath(tempfile.mkdtemp(dir=ROOT))
    os.makedirs(os.path.join(home, "a", "b"))
    with open(os.path.join(home, "a", "keep"), "w") as f:
        f.write("x")
    os.chdir(home)
    log = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in range(3):
                (temp if r.chance(0.5) else chdir)(r, 1, log, home)
        need("P26:kept", os.path.exists(os.path.join(home, "a", "keep")), " ".join(log))
    finally:
        R.seen(" ".join(log))
        R.sample(" ".join(log))
        os.chdir(ROOT)
        shutil.rmtree(home)
        shutil.rmtree(tempfile.tempdir)
        os.mkdir(tempfile.tempdir)


if __name__ == "__main__":
    main()
